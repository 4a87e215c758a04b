// C17: infix expressions. Random operator tables; the evaluation callbacks are monitors that own every
// intermediate value, so each one is handed on or released exactly once, whatever callback fails.
#include "checks.h"

struct EV { str s; int id; int state; };          // state: 0 live, 1 consumed, 2 released
struct ECtx {
	vec<std::unique_ptr<EV>> all;
	int calls = 0, fail_at = -1; bool failed = false;
	str trace;
	const struct ec_node *expr;
	std::map<const struct ec_node *, str> role;   // node -> role+name
};
static ECtx *g_ec;
static EV *e_new(const str &s) { g_ec->all.emplace_back(new EV{s, (int)g_ec->all.size(), 0}); return g_ec->all.back().get(); }
static bool e_known(void *p) { for (auto &x : g_ec->all) if (x.get() == p) return true; return false; }
static str e_take(void *p, bool consume)
{
	if (!e_known(p)) { violate_soft("C17", "operand", "a callback received an operand that no callback produced"); return "?"; }
	EV *v = (EV *)p;
	if (v->state) violate_soft("C17", "operand", "value %d (%s) was used after it was %s", v->id, v->s.c_str(), v->state == 1 ? "handed to a consumer" : "released");
	if (consume) v->state = 1;
	return v->s;
}
static str tok_text(const struct ec_pnode *p)
{
	str o;
	const struct ec_strvec *v = p ? ec_pnode_get_strvec(p) : NULL;
	if (!v) return "?";
	for (size_t i = 0; i < ec_strvec_len(v); i++) o += (i ? "." : "") + str(ec_strvec_val(v, i));
	return o;
}
static bool e_fail(void **result)
{
	g_ec->calls++;
	if (g_ec->calls == g_ec->fail_at) { g_ec->failed = true; *result = (void *)(uintptr_t)0xdead0001; return true; }
	return false;
}
static str role_of(const struct ec_pnode *p) { auto it = g_ec->role.find(p ? ec_pnode_get_node(p) : NULL); return it == g_ec->role.end() ? "none" : it->second; }
static void want_role(const struct ec_pnode *p, const char *role)
{
	if (role_of(p) != role) violate_soft("C17", "role", "the %s callback received a parse of a %s node", role, role_of(p).c_str());
}
static int cb_var(void **res, void *ctx, const struct ec_pnode *var)
{
	if (ctx != g_ec) violate_soft("C17", "context", "user context changed");
	want_role(var, "val");
	if (e_fail(res)) return -ENOENT;
	*res = e_new(tok_text(var)); return 0;
}
static int cb_pre(void **res, void *ctx, void *a, const struct ec_pnode *op)
{
	if (ctx != g_ec) violate_soft("C17", "context", "user context changed");
	want_role(op, "pre");
	bool f = e_fail(res); str s = e_take(a, !f);
	if (f) return -EINVAL;
	*res = e_new("{" + tok_text(op) + " " + s + "}"); return 0;
}
static int cb_post(void **res, void *ctx, void *a, const struct ec_pnode *op)
{
	if (ctx != g_ec) violate_soft("C17", "context", "user context changed");
	want_role(op, "post");
	bool f = e_fail(res); str s = e_take(a, !f);
	if (f) return -EINVAL;
	*res = e_new("{" + s + " " + tok_text(op) + "}"); return 0;
}
static int cb_bin(void **res, void *ctx, void *a, const struct ec_pnode *op, void *b)
{
	if (ctx != g_ec) violate_soft("C17", "context", "user context changed");
	want_role(op, "bin");
	if (a == b) violate_soft("C17", "operand", "the same value was passed as both operands");
	bool f = e_fail(res); str s = e_take(a, !f), t = e_take(b, !f);
	if (f) return -EDOM;
	*res = e_new("{" + s + " " + tok_text(op) + " " + t + "}"); return 0;
}
static int cb_par(void **res, void *ctx, const struct ec_pnode *o, const struct ec_pnode *c, void *a)
{
	if (ctx != g_ec) violate_soft("C17", "context", "user context changed");
	want_role(o, "open"); want_role(c, "close");
	bool f = e_fail(res); str s = e_take(a, !f);
	if (f) return -EPERM;
	*res = e_new("{" + tok_text(o) + s + tok_text(c) + "}"); return 0;
}
static void cb_free(void *a, void *ctx)
{
	if (ctx != g_ec) violate_soft("C17", "context", "user context changed");
	if (!e_known(a)) { violate_soft("C17", "release", "something no callback produced was released"); return; }
	EV *v = (EV *)a;
	if (v->state) violate_soft("C17", "release", "value %d (%s) was released after it was %s", v->id, v->s.c_str(), v->state == 1 ? "handed to a consumer" : "released");
	v->state = 2;
}

// ---- reference ----------------------------------------------------------------
struct ELang {
	vec<vec<str>> bin;                 // by precedence, tightest first; alternatives of one level
	vec<vec<str>> pre, post;
	vec<std::pair<str, str>> par;
	int valkind = 0;                   // 0: words, 1: words or numbers, 2: "$" word or word
};
struct ERef {
	const ELang &l; const vec<str> &t;
	ERef(const ELang &ll, const vec<str> &tt) : l(ll), t(tt) {}
	static bool in(const vec<str> &v, const str &s) { return std::find(v.begin(), v.end(), s) != v.end(); }
	static bool word(const str &s) { if (s.empty()) return false; for (char c : s) if (c < 'a' || c > 'z') return false; return true; }
	static bool num(const str &s) { if (s.empty()) return false; for (char c : s) if (c < '0' || c > '9') return false; return true; }
	bool val(size_t &p, str &o)
	{
		if (p >= t.size()) return false;
		if (word(t[p]) || (l.valkind == 1 && num(t[p]))) { o = t[p++]; return true; }
		if (l.valkind == 2 && t[p] == "$" && p + 1 < t.size() && word(t[p + 1])) { o = "$." + t[p + 1]; p += 2; return true; }
		return false;
	}
	bool post(size_t &p, str &o)
	{
		size_t q = p;
		if (val(q, o)) { p = q; return true; }
		for (auto &g : l.pre) if (q < t.size() && in(g, t[q])) {
			str x; size_t k = q + 1;
			if (expr(l.bin.size(), k, x)) { o = "{" + t[q] + " " + x + "}"; p = k; return true; }
			break;
		}
		for (auto &pp : l.par) if (q < t.size() && t[q] == pp.first) {
			str x; size_t k = q + 1;
			if (expr(l.bin.size(), k, x) && k < t.size() && t[k] == pp.second) { o = "{" + pp.first + x + pp.second + "}"; p = k + 1; return true; }
		}
		return false;
	}
	bool term(size_t &p, str &o)
	{
		if (!post(p, o)) return false;
		for (bool more = true; more;) {
			more = false;
			for (auto &g : l.post) if (p < t.size() && in(g, t[p])) { o = "{" + o + " " + t[p] + "}"; p++; more = true; break; }
		}
		return true;
	}
	bool expr(size_t lvl, size_t &p, str &o)
	{
		if (lvl == 0) return term(p, o);
		if (!expr(lvl - 1, p, o)) return false;
		while (p < t.size() && in(l.bin[lvl - 1], t[p])) {
			size_t k = p + 1; str x;
			if (!expr(lvl - 1, k, x)) break;
			o = "{" + o + " " + t[p] + " " + x + "}";
			p = k;
		}
		return true;
	}
};
static void e_gen(Rng &r, const ELang &l, int d, vec<str> &out)
{
	auto val = [&] {
		static const vec<str> w = {"a", "b", "xy", "foo"};
		if (l.valkind == 1 && r.coin()) out.push_back(std::to_string(r.range(0, 99)));
		else if (l.valkind == 2 && r.coin()) { out.push_back("$"); out.push_back(r.pick(w)); }
		else out.push_back(r.pick(w));
	};
	if (out.size() > 24) { val(); return; }
	int k = d <= 0 ? 0 : r.range(0, 9);
	if (k <= 1) val();
	else if (k <= 5 && !l.bin.empty()) { e_gen(r, l, d - 1, out); out.push_back(r.pick(r.pick(l.bin))); e_gen(r, l, d - 1, out); }
	else if (k == 6 && !l.pre.empty()) { out.push_back(r.pick(r.pick(l.pre))); e_gen(r, l, d - 1, out); }
	else if (k == 7 && !l.post.empty()) { e_gen(r, l, d - 1, out); int n = r.range(1, 2); while (n--) out.push_back(r.pick(r.pick(l.post))); }
	else if (!l.par.empty()) { auto &p = l.par[r.below(l.par.size())]; out.push_back(p.first); e_gen(r, l, d - 1, out); out.push_back(p.second); }
	else val();
}
static struct ec_node *op_node(Rng &r, const char *id, const vec<str> &alts, Gram &g, vec<std::pair<const struct ec_node *, int>> &map, int &gi)
{
	if (alts.size() == 1) {
		struct ec_node *n = ec_node_str(id, alts[0].c_str());
		GN x; x.t = T_STR; x.s = alts[0]; gi = g.add(x); map.push_back({n, gi});
		return n;
	}
	struct ec_node *n = ec_node("or", id);
	GN o; o.t = T_OR;
	for (auto &s : alts) {
		struct ec_node *c = ec_node_str(EC_NO_ID, s.c_str());
		GN x; x.t = T_STR; x.s = s; int k = g.add(x); map.push_back({c, k}); o.ch.push_back(k);
		LCHECK(ec_node_or_add(n, c) == 0);
	}
	gi = g.add(o); map.push_back({n, gi});
	return n;
}

SCENARIO(expr, "random operator tables (0..4 binary levels, prefix, postfix, 0..3 kinds of parentheses, single or alternative operators, one- and two-token values), well-formed and mutated expressions, every callback failing in turn; non-trivial = an expression with at least two operators was evaluated")
{
	(void)idx;
	LeakCheck lk;
	ELang l; Gram g;
	vec<std::pair<const struct ec_node *, int>> map;
	vec<str> bpool = {"*", "/", "+", "-", "=", "<", "&", "|"}, upool = {"!", "~", "-", "not"}, ppool = {"^", "++", "?", "%"};
	auto drawn = [&](vec<str> &pool, int n) { vec<str> v; while (n-- && !pool.empty()) { size_t i = r.below(pool.size()); v.push_back(pool[i]); pool.erase(pool.begin() + (long)i); } return v; };
	int nb = r.range(0, 4), npre = r.range(0, 2), npost = r.range(0, 2), npar = r.chance(1, 4) ? 3 : r.range(0, 2);
	if (nb + npre + npost == 0) nb = 1;
	for (int i = 0; i < nb; i++) l.bin.push_back(drawn(bpool, r.chance(1, 3) ? 2 : 1));
	for (int i = 0; i < npre; i++) l.pre.push_back(drawn(upool, 1));
	for (auto &p : l.pre) if (p[0] == "not") p[0] = "N!";
	for (int i = 0; i < npost; i++) l.post.push_back(drawn(ppool, r.chance(1, 4) ? 2 : 1));
	if (npar > 0) l.par.push_back({"(", ")"});
	if (npar > 1) l.par.push_back({"[", "]"});
	if (npar > 2) l.par.push_back({"{", "}"});
	l.valkind = r.range(0, 2);
	ECtx ctx;
	struct ec_node *n = ec_node("expr", "expr");
	LCHECK(n);
	str d = "expr";
	// registration order: any interleaving of the kinds, order kept within binary operators
	vec<int> acts;
	for (size_t i = 0; i < l.bin.size(); i++) acts.push_back(0);
	for (size_t i = 0; i < l.pre.size(); i++) acts.push_back(1);
	for (size_t i = 0; i < l.post.size(); i++) acts.push_back(2);
	for (size_t i = 0; i < l.par.size(); i++) acts.push_back(3);
	acts.push_back(4);
	for (size_t i = acts.size(); i > 1; i--) std::swap(acts[i - 1], acts[r.below(i)]);
	size_t ib = 0, ip = 0, io = 0, ik = 0;
	vec<int> gbin, gpre, gpost; vec<std::pair<int, int>> gpar; int gval = -1;
	for (int a : acts) {
		struct ec_node *x = NULL; int gi = -1, ret = 0;
		if (a == 0) { x = op_node(r, "op", l.bin[ib], g, map, gi); ctx.role[x] = "bin"; d += " bin"; for (auto &s : l.bin[ib]) d += " " + s; ib++; gbin.push_back(gi); ret = ec_node_expr_add_bin_op(n, x); }
		else if (a == 1) { x = op_node(r, "op", l.pre[ip], g, map, gi); ctx.role[x] = "pre"; d += " pre " + l.pre[ip][0]; ip++; gpre.push_back(gi); ret = ec_node_expr_add_pre_op(n, x); }
		else if (a == 2) { x = op_node(r, EC_NO_ID, l.post[io], g, map, gi); ctx.role[x] = "post"; d += " post"; for (auto &s : l.post[io]) d += " " + s; io++; gpost.push_back(gi); ret = ec_node_expr_add_post_op(n, x); }
		else if (a == 3) {
			int g1, g2; struct ec_node *y;
			x = op_node(r, EC_NO_ID, {l.par[ik].first}, g, map, g1); y = op_node(r, EC_NO_ID, {l.par[ik].second}, g, map, g2);
			ctx.role[x] = "open"; ctx.role[y] = "close"; d += " par " + l.par[ik].first; ik++; gpar.push_back({g1, g2});
			ret = ec_node_expr_add_parenthesis(n, x, y);
		} else {
			GN w; w.t = T_RE; w.s = "[a-z]+";
			struct ec_node *wn = ec_node_re("w", "[a-z]+");
			int gw = g.add(w); map.push_back({wn, gw});
			d += " val" + std::to_string(l.valkind);
			if (l.valkind == 0) { x = wn; gval = gw; }
			else if (l.valkind == 1) {
				struct ec_node *u = ec_node_re("u", "[0-9]+");
				GN v; v.t = T_RE; v.s = "[0-9]+"; int gu = g.add(v); map.push_back({u, gu});
				x = EC_NODE_OR("v", wn, u); GN o; o.t = T_OR; o.ch = {gw, gu}; gval = g.add(o); map.push_back({x, gval});
			} else {
				struct ec_node *dl = ec_node_str("d", "$");
				GN v; v.t = T_STR; v.s = "$"; int gd = g.add(v); map.push_back({dl, gd});
				struct ec_node *sq = EC_NODE_SEQ("sq", dl, ec_node_clone(wn));
				GN q; q.t = T_SEQ; q.ch = {gd, gw}; int gq = g.add(q); map.push_back({sq, gq});
				x = EC_NODE_OR("v", wn, sq); GN o; o.t = T_OR; o.ch = {gw, gq}; gval = g.add(o); map.push_back({x, gval});
			}
			LCHECK(x);
			ctx.role[x] = "val";
			ret = ec_node_expr_set_val_node(n, x);
		}
		if (ret < 0) { violate("C17", "config", "operator or value node refused: %s", strerror(errno)); end_case(); }
	}
	describe("%s", d.c_str());
	bool lex = r.chance(1, 4);
	struct ec_node *top = lex ? ec_node_sh_lex("lex", ec_node_clone(n)) : ec_node_clone(n);
	struct ec_node_expr_eval_ops ops = {};
	ops.eval_var = cb_var; ops.eval_pre_op = cb_pre; ops.eval_post_op = cb_post; ops.eval_bin_op = cb_bin; ops.eval_parenthesis = cb_par; ops.eval_free = cb_free;
	ctx.expr = n;
	g_ec = &ctx;
	str head = current_desc();
	int rounds = r.range(3, thorough() ? 12 : 8);
	for (int k = 0; k < rounds; k++) {
		vec<str> t;
		e_gen(r, l, r.range(0, 5), t);
		if (r.chance(1, 3)) {
			int m = r.range(1, 2);
			while (m--) {
				switch (r.range(0, 4)) {
				case 0: if (!t.empty()) t.erase(t.begin() + (long)r.below(t.size())); break;
				case 1: { vec<str> e; e_gen(r, l, 2, e); t.insert(t.begin() + (long)r.below(t.size() + 1), r.pick(e)); break; }
				case 2: if (t.size() > 1) std::swap(t[r.below(t.size())], t[r.below(t.size())]); break;
				case 3: t.resize(r.below(t.size() + 1)); break;
				default: t.insert(t.begin() + (long)r.below(t.size() + 1), "@"); break;
				}
			}
		}
		ERef ref(l, t);
		size_t used = 0; str want;
		bool match = ref.expr(l.bin.size(), used, want);
		if (lex) match = match && used == t.size();
		Toks in;
		str line;
		if (lex) { for (auto &s : t) line += (line.empty() ? "" : " ") + s; in.push_back(Tok{line, {}}); }
		else in = toks_of(t);
		describe("%s | %s", head.c_str(), show_toks(in).c_str());
		struct ec_strvec *v = make_strvec(in);
		struct ec_pnode *p = ec_parse_strvec(top, v);
		ec_strvec_free(v);
		if (!p) { violate("C17", "parse", "parsing reported an error: %s", strerror(errno)); end_case(); }
		EXPECT("C17", "accept", ec_pnode_matches(p) == match, "expression %s; it is %s", ec_pnode_matches(p) ? "accepted" : "refused", match ? "well formed" : "ill formed");
		if (match && !lex) EXPECT("C17", "accept", ec_pnode_len(p) == used, "%zu tokens accepted; %zu form an expression", ec_pnode_len(p), used);
		ev(match ? (lex || used == t.size() ? "well-formed expressions" : "expressions followed by other tokens") : "ill-formed expressions");
		if (!match) {
			void *res = (void *)(uintptr_t)0x5;
			EXPECT("C17", "eval", ec_node_expr_eval(&res, n, p, &ops, &ctx) < 0, "evaluating a parse that does not match succeeded");
			EXPECT("C17", "eval", ctx.calls == 0, "callbacks ran on a parse that does not match");
		} else {
			auto reset = [&] { ctx.all.clear(); ctx.calls = 0; ctx.failed = false; ctx.fail_at = -1; };
			reset();
			void *res = NULL;
			int ret = ec_node_expr_eval(&res, n, p, &ops, &ctx);
			check_soft();
			if (ret < 0) { violate("C17", "eval", "evaluation failed: %s", strerror(errno)); end_case(); }
			EXPECT("C17", "operand", e_known(res) && ((EV *)res)->state == 0, "the result is not a live value");
			EXPECT("C17", "value", ((EV *)res)->s == want, "evaluated as %s; precedence gives %s", ((EV *)res)->s.c_str(), want.c_str());
			for (auto &x : ctx.all) EXPECT("C17", "balance", x.get() == res || x->state, "value %d (%s) was neither consumed nor released", x->id, x->s.c_str());
			ev("values accounted for", ctx.all.size());
			int total = ctx.calls;
			if (total >= 4) nontrivial(fnv(head + show_toks(in)));
			reset();
			// each callback fails in turn
			for (int f = 1; f <= total; f++) {
				if (total > 24 && !r.chance(24, total)) continue;
				reset();
				ctx.fail_at = f;
				describe("%s | %s | callback %d fails", head.c_str(), show_toks(in).c_str(), f);
				res = (void *)(uintptr_t)0x7;
				ret = ec_node_expr_eval(&res, n, p, &ops, &ctx);
				check_soft();
				EXPECT("C17", "propagate", ret < 0, "a callback failed but evaluation succeeded");
				EXPECT("C17", "propagate", ctx.calls == f, "%d more callback(s) ran after the failing one", ctx.calls - f);
				for (auto &x : ctx.all) EXPECT("C17", "balance", x->state, "callback %d failed: value %d (%s) was neither consumed nor released", f, x->id, x->s.c_str());
				ev("failing callbacks");
			}
			reset();
			// callbacks must all be given
			struct ec_node_expr_eval_ops o2 = ops;
			switch (r.range(0, 5)) { case 0: o2.eval_var = NULL; break; case 1: o2.eval_pre_op = NULL; break; case 2: o2.eval_post_op = NULL; break; case 3: o2.eval_bin_op = NULL; break; case 4: o2.eval_parenthesis = NULL; break; default: o2.eval_free = NULL; break; }
			EXPECT("C17", "ops", ec_node_expr_eval(&res, n, p, &o2, &ctx) < 0, "evaluation without all callbacks succeeded");
			EXPECT("C17", "ops", ctx.calls == 0, "callbacks ran although one is missing");
			if (lex) EXPECT("C17", "type", ec_node_expr_eval(&res, top, p, &ops, &ctx) < 0, "evaluation with a node that is no expression succeeded");
		}
		ec_pnode_free(p);
	}
	// completion against the same language spelled as a grammar
	if (wants("C06") && !lex) {
		PropAs as({"C06"});
		int ref = -1;
		{ GN x; x.t = T_SEQ; ref = g.add(x); }
		GN post; post.t = T_OR; post.ch = {gval};
		GN po; po.t = T_OR; po.ch = gpre; int gpo = g.add(po);
		{ GN s; s.t = T_SEQ; s.ch = {gpo, ref}; post.ch.push_back(g.add(s)); }
		for (auto &pp : gpar) { GN s; s.t = T_SEQ; s.ch = {pp.first, ref, pp.second}; post.ch.push_back(g.add(s)); }
		int gpost_i = g.add(post);
		GN so; so.t = T_OR; so.ch = gpost; int gso = g.add(so);
		GN mm; mm.t = T_MANY; mm.ch = {gso}; int gmm = g.add(mm);
		GN tt; tt.t = T_SEQ; tt.ch = {gpost_i, gmm}; int term = g.add(tt);
		for (int bi : gbin) { GN s; s.t = T_SEQ; s.ch = {bi, term}; int si = g.add(s); GN m; m.t = T_MANY; m.ch = {si}; int mi = g.add(m); GN q; q.t = T_SEQ; q.ch = {term, mi}; term = g.add(q); }
		g.n[ref].ch = {term};
		Built b; b.root = n;
		for (auto &m : map) b.idx[m.first] = m.second;
		for (int k = 0; k < 3; k++) {
			vec<str> t; e_gen(r, l, r.range(0, 3), t);
			if (t.size() > 6) t.resize(6);
			if (t.size() > 1) t.resize(1 + r.below(t.size()));
			if (r.coin()) t.back() = ""; 
			Toks in = toks_of(t);
			describe("%s | complete %s", head.c_str(), show_toks(in).c_str());
			Model m(g); m.budget = 4000;
			try { m.complete(term, in); } catch (CaseAbort &) { continue; }
			struct ec_strvec *v = make_strvec(in);
			struct ec_comp *c = ec_complete_strvec(n, v);
			ec_strvec_free(v);
			if (!c) { violate("C06", "complete-error", "completion reported an error"); end_case(); }
			std::set<str> want, got;
			for (auto &x : m.items) want.insert(std::to_string(x.type) + ":" + std::to_string(x.node) + ":" + x.full);
			for (auto &x : read_comp(c, b, true)) got.insert(std::to_string(x.type) + ":" + std::to_string(x.node) + ":" + x.full);
			str sw, sg; for (auto &s : want) sw += s + " "; for (auto &s : got) sg += s + " ";
			EXPECT("C06", "expr-items", want == got, "proposals {%s}; the expression grammar allows {%s}", esc(sg).c_str(), esc(sw).c_str());
			ev("expression completions compared");
			if (!want.empty()) nontrivial(fnv(current_desc()));
			ec_comp_free(c);
		}
	}
	sample(current_desc());
	ec_node_free(top);
	ec_node_free(n);
	lk.check("C02", "expression grammar");
	lk.check("C17", "expression grammar");
	g_ec = NULL;
}
