// C18: command strings. A reference reader turns the string into an abstract grammar; the command node
// must parse and complete like it, refuse what the reader refuses, and leave the supplied nodes alone.
#include "checks.h"

struct CmdRef {
	Gram &g; const vec<int> &user; vec<str> t; size_t p = 0; bool lex_ok = true;
	std::set<int> made;               // containers created by the string itself
	CmdRef(Gram &gg, const vec<int> &u, const str &s) : g(gg), user(u)
	{
		auto wc = [](char c) { return (c >= 'a' && c <= 'z') || (c >= 'A' && c <= 'Z') || (c >= '0' && c <= '9') || c == '_' || c == '-'; };
		for (size_t i = 0; i < s.size();) {
			if (wc(s[i])) { size_t j = i; while (j < s.size() && wc(s[j])) j++; t.push_back(s.substr(i, j - i)); i = j; }
			else if (strchr("*+|,()[]", s[i])) { t.push_back(str(1, s[i])); i++; }
			else if (s[i] == ' ' || s[i] == '\t') i++;
			else { lex_ok = false; return; }
		}
	}
	bool isop(const str &s) { return s.size() == 1 && strchr("*+|,()[]", s[0]); }
	int mk(NT ty, const vec<int> &ch) { GN x; x.t = ty; x.ch = ch; int i = g.add(x); made.insert(i); return i; }
	int post()
	{
		if (p >= t.size()) return -1;
		if (!isop(t[p])) {
			const str &w = t[p++];
			for (int u : user) if (g.n[u].id == w) return u;
			GN x; x.t = T_STR; x.s = w; return g.add(x);
		}
		if (t[p] == "[" || t[p] == "(") {
			size_t save = p; bool opt = t[p] == "[";
			p++;
			int e = level(3);
			if (e >= 0 && p < t.size() && t[p] == (opt ? "]" : ")")) { p++; return opt ? mk(T_OPTION, {e}) : e; }
			p = save;
		}
		return -1;
	}
	int level(int l)
	{
		if (l == 0) {
			int e = post();
			if (e < 0) return -1;
			while (p < t.size() && (t[p] == "*" || t[p] == "+")) { int m = mk(T_MANY, {e}); g.n[m].mn = t[p] == "+"; e = m; p++; }
			return e;
		}
		static const char *ops[] = { NULL, ",", "|", "" };
		static const NT ty[] = { T_EMPTY, T_SUBSET, T_OR, T_SEQ };
		int e = level(l - 1);
		if (e < 0) return -1;
		for (;;) {
			size_t save = p;
			if (*ops[l]) { if (p >= t.size() || t[p] != ops[l]) break; p++; }
			int f = level(l - 1);
			if (f < 0) { p = save; break; }
			if (made.count(e) && g.n[e].t == ty[l]) g.n[e].ch.push_back(f);
			else e = mk(ty[l], {e, f});
		}
		return e;
	}
	int run() { if (!lex_ok) return -1; int e = level(3); return p == t.size() ? e : -1; }
};

static str rnd_cmd(Rng &r, const vec<str> &words, int d)
{
	auto sp = [&] { return r.chance(1, 4) ? str(r.coin() ? " " : "\t ") : str(""); };
	int k = d <= 0 ? 0 : r.range(0, 9);
	if (k <= 1) return r.pick(words);
	if (k <= 3) return rnd_cmd(r, words, d - 1) + " " + sp() + rnd_cmd(r, words, d - 1);
	if (k == 4) return rnd_cmd(r, words, d - 1) + sp() + "|" + sp() + rnd_cmd(r, words, d - 1);
	if (k == 5) return rnd_cmd(r, words, d - 1) + sp() + "," + sp() + rnd_cmd(r, words, d - 1);
	if (k == 6) return "[" + sp() + rnd_cmd(r, words, d - 1) + sp() + "]";
	if (k == 7) return "(" + sp() + rnd_cmd(r, words, d - 1) + sp() + ")";
	if (k == 8) return "(" + rnd_cmd(r, words, d - 1) + ")" + (r.coin() ? "*" : "+");
	return r.pick(words) + sp() + (r.coin() ? "*" : "+");
}
static str user_hits(const MP *m, const std::set<int> &u)
{
	str o;
	std::function<void(const MP *)> f = [&](const MP *x) { if (u.count(x->g)) o += std::to_string(x->g) + show_toks(x->toks) + " "; for (auto &c : x->ch) f(c.get()); };
	f(m);
	return o;
}
static str user_hits(const struct ec_pnode *p, const Built &b)
{
	str o;
	vec<const struct ec_pnode *> all; walk_nodes(p, all);
	for (auto x : all) { auto it = b.idx.find(ec_pnode_get_node(x)); if (it != b.idx.end() && ec_pnode_get_strvec(x)) o += std::to_string(it->second) + show_toks(read_strvec(ec_pnode_get_strvec(x))) + " "; }
	return o;
}

SCENARIO(cmd, "random command strings over all operators, nesting, spacing and 0..3 supplied nodes (duplicate identifiers, supplied containers), plus token soup; built by both routes, replaced and refused ones in between; parse and completion compared with the grammar a reference reader builds; non-trivial = well-formed string with at least two operators and an input that matches")
{
	(void)idx;
	LeakCheck lk;
	Gram g; GenOpt o;
	o.words = {"foo", "bar", "a", "b", "ab"}; o.cycles = false; o.lexers = false; o.file = false; o.max_nodes = 4; o.once = r.coin();
	vec<int> user;
	int nu = r.range(0, 3);
	static const vec<str> ids = {"x", "y", "z", "foo", "x", "X", "Foo", "xy"};
	for (int i = 0; i < nu; i++) {
		o.max_depth = r.range(0, 2);
		Gram p = gen_gram(r, o);
		int off = (int)g.n.size();
		for (auto &x : p.n) { GN y = x; y.id = ""; for (int &c : y.ch) c += off; g.n.push_back(y); }
		int root = p.root + off;
		g.n[root].id = r.chance(1, 8) ? str("") : r.pick(ids);
		user.push_back(root);
	}
	GN h; h.t = T_SEQ; h.ch = user;
	int holder = g.add(h);
	g.root = holder;
	Built b;
	if (!build(g, r, b, true)) { violate("C18", "build", "cannot build supplied nodes: %s", strerror(errno)); end_case(); }
	ec_node_free(b.root); b.root = NULL;
	b.nodes.resize(g.n.size());
	str ud;
	for (int u : user) ud += " " + g.n[u].id + "=" + g.show(u);
	vec<str> words = {"foo", "bar", "a", "b", "x", "y", "z", "A-1", "_u"};
	if (r.coin()) words = {"a", "b", "x"};
	if (r.chance(1, 3)) for (auto w : {"X", "FOO", "Foo", "xy", "fooo", "fo", "A", "x_", "x1"}) words.push_back(w);
	size_t ng0 = g.n.size();
	std::set<int> uset;
	for (size_t i = 0; i < ng0; i++) uset.insert((int)i);
	auto usnap = [&] { return slurp_stream([&](FILE *f) { for (size_t i = 0; i < ng0; i++) if (b.nodes[i]) { size_t k = ec_node_get_children_count(b.nodes[i]); fprintf(f, "%zu:", k); for (size_t j = 0; j < k; j++) { struct ec_node *c = NULL; unsigned rf; ec_node_get_child(b.nodes[i], j, &c, &rf); fprintf(f, "%d,", b.idx.count(c) ? b.idx[c] : -1); } fprintf(f, "%s;", ec_node_id(b.nodes[i])); } }); };
	str snap0 = usnap();
	struct ec_node *n = NULL;
	int cur = -1; str curstr;
	int steps = r.range(1, 4);
	bool nt = false;
	for (int s = 0; s < steps; s++) {
		str cs;
		if (r.chance(1, 5)) { static const vec<str> soup = {"*", "+", "|", ",", "(", ")", "[", "]", "a", "b", "x", " ", ".", "#", "\n"}; int k = r.range(0, 7); for (int i = 0; i < k; i++) cs += r.pick(soup); }
		else {
			cs = rnd_cmd(r, words, r.range(0, 4));
			if (r.chance(1, 6)) cs = (r.coin() ? " " : "\t") + cs + " ";
			if (r.chance(1, 6) && !cs.empty()) cs.erase(r.below(cs.size()), 1);
		}
		if (cs.size() > 80) cs.resize(80);
		g.n.resize(ng0 + (cur >= 0 ? g.n.size() - ng0 : 0));
		CmdRef ref(g, user, cs);
		int want = ref.run();
		describe("supplied:%s%s%s | cmd '%s'", ud.c_str(), curstr.empty() ? "" : " | was ", curstr.c_str(), esc(cs).c_str());
		bool ok;
		if (!n && r.coin()) {
			struct ec_node *a[3] = { NULL, NULL, NULL };
			for (int i = 0; i < nu; i++) a[i] = ec_node_clone(b.nodes[user[i]]);
			switch (nu) {
			case 0: n = EC_NODE_CMD("cmd", cs.c_str()); break;
			case 1: n = EC_NODE_CMD("cmd", cs.c_str(), a[0]); break;
			case 2: n = EC_NODE_CMD("cmd", cs.c_str(), a[0], a[1]); break;
			default: n = EC_NODE_CMD("cmd", cs.c_str(), a[0], a[1], a[2]); break;
			}
			ok = n != NULL;
		} else {
			if (!n) n = ec_node("cmd", "cmd");
			LCHECK(n);
			struct ec_config *c = ec_config_dict(), *l = ec_config_list();
			for (int u : user) LCHECK(ec_config_list_add(l, ec_config_node(ec_node_clone(b.nodes[u]))) == 0);
			LCHECK(ec_config_dict_set(c, "expr", ec_config_string(cs.c_str())) == 0 && ec_config_dict_set(c, "children", l) == 0);
			ok = ec_node_set_config(n, c) == 0;
		}
		for (auto pr : {"C18", "C15"}) EXPECT(pr, "syntax", ok == (want >= 0), "command string '%s' %s", esc(cs).c_str(), ok ? "accepted although malformed" : "refused although well formed");
		ev(ok ? "command strings accepted" : "command strings refused");
		if (ok) { cur = want; curstr = "'" + esc(cs) + "'"; }
		else if (cur < 0 && n) { ec_node_free(n); n = NULL; }
		EXPECT("C18", "supplied", usnap() == snap0, "a supplied node was modified: %s, was %s", usnap().c_str(), snap0.c_str());
		if (cur < 0) continue;
		// behaviour of the current command
		g.root = cur;
		str head = current_desc();
		for (int i = 0; i < 4; i++) {
			Toks in = gen_input(r, g, o);
			describe("%s | parse %s", head.c_str(), show_toks(in).c_str());
			Model m(g); m.budget = 6000;
			std::unique_ptr<MP> tr;
			int w;
			try { w = m.parse(cur, in, tr); } catch (CaseAbort &) { continue; }
			struct ec_strvec *v = make_strvec(in);
			struct ec_pnode *p = ec_parse_strvec(n, v);
			ec_strvec_free(v);
			if (!p) { violate("C18", "parse", "parsing reported an error: %s", strerror(errno)); end_case(); }
			for (auto pr : {"C18", "C15"}) EXPECT(pr, "verdict", ec_pnode_matches(p) == (w != NOMATCH) && (w == NOMATCH || ec_pnode_len(p) == (size_t)w), "matched %d (%zu tokens); the spelled grammar %s", (int)ec_pnode_matches(p), ec_pnode_len(p), w == NOMATCH ? "does not match" : std::to_string(w).c_str());
			if (w != NOMATCH) {
				str a = user_hits(p, b), c = user_hits(tr.get(), uset);
				EXPECT("C18", "supplied-match", a == c, "supplied nodes matched %s; reference %s", a.c_str(), c.c_str());
				if (w > 0 && g.n.size() > ng0 + 2) nt = true;
			}
			ec_pnode_free(p);
			ev("command parses compared");
			// completion
			in = gen_partial(r, g, o);
			describe("%s | complete %s", head.c_str(), show_toks(in).c_str());
			Model m2(g); m2.budget = 3000;
			try { m2.complete(cur, in); } catch (CaseAbort &) { continue; }
			if (m2.items.size() > 400) continue;
			v = make_strvec(in);
			struct ec_comp *c = ec_complete_strvec(n, v);
			ec_strvec_free(v);
			if (!c) { violate("C18", "complete", "completion reported an error: %s", strerror(errno)); end_case(); }
			std::set<str> ws, gs;
			for (auto &x : m2.items) ws.insert(std::to_string(x.type) + ":" + std::to_string(uset.count(x.node) ? x.node : -1) + ":" + x.full);
			{ PropAs as({"C18"}); for (auto &x : read_comp(c, b, false)) gs.insert(std::to_string(x.type) + ":" + std::to_string(x.node) + ":" + x.full); }
			str sw, sg; for (auto &q : ws) sw += q + " "; for (auto &q : gs) sg += q + " ";
			for (auto pr : {"C18", "C15"}) EXPECT(pr, "complete", ws == gs, "proposals {%s}; the spelled grammar allows {%s}", esc(sg).c_str(), esc(sw).c_str());
			ec_comp_free(c);
			ev("command completions compared");
		}
		if (nt) nontrivial(fnv(head));
		describe("%s", head.c_str());
		// supplied nodes on their own still behave as before
		for (int u : user) {
			Gram g2 = g; g2.root = u;
			PropAs as({"C18"});
			Built b2; b2.root = b.nodes[u]; b2.idx = b.idx;
			try { check_parse(r, g2, b2, gen_input(r, g2, o), false); } catch (CaseAbort &) { throw; }
			describe("%s", head.c_str());
		}
	}
	sample(current_desc());
	ec_node_free(n);
	EXPECT("C18", "supplied", usnap() == snap0, "a supplied node was modified");
	b.free_all();
	lk.check("C02", "command nodes");
	lk.check("C18", "command nodes");
}
