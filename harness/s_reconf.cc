// C15: reconfiguring a node. A node inside a grammar receives a random series of configurations,
// valid and invalid, through configurations and through the per-type setters. After each one the
// grammar must parse and complete like the reference grammar holding the last accepted one.
#include "checks.h"

static struct ec_config *cput(struct ec_config *c, const char *k, struct ec_config *v) { LCHECK(c && v && ec_config_dict_set(c, k, v) == 0); return c; }
static struct ec_config *nlist(const vec<struct ec_node *> &ch)
{
	struct ec_config *l = ec_config_list();
	for (auto c : ch) LCHECK(ec_config_list_add(l, ec_config_node(ec_node_clone(c))) == 0);
	return l;
}
static struct ec_config *pat_list(const vec<RePat> &pats)
{
	struct ec_config *l = ec_config_list();
	for (auto &p : pats) {
		struct ec_config *d = cput(cput(ec_config_dict(), "pattern", ec_config_string(p.pat.c_str())), "keep", ec_config_bool(p.keep));
		if (!p.attr.empty()) cput(d, "attr", ec_config_string(p.attr.c_str()));
		LCHECK(ec_config_list_add(l, d) == 0);
	}
	return l;
}
static struct ec_config *mkcfg(Rng &r, const GN &x, const vec<struct ec_node *> &ch)
{
	struct ec_config *c = ec_config_dict();
	switch (x.t) {
	case T_STR: cput(c, "string", ec_config_string(x.s.c_str())); break;
	case T_ANY: if (!x.s.empty()) cput(c, "attr", ec_config_string(x.s.c_str())); break;
	case T_RE: cput(c, "pattern", ec_config_string(x.s.c_str())); break;
	case T_INT:
		if (x.has_min) cput(c, "min", ec_config_i64(x.imin));
		if (x.has_max) cput(c, "max", ec_config_i64(x.imax));
		if (x.base || r.coin()) cput(c, "base", ec_config_u64(x.base));
		break;
	case T_UINT:
		if (x.has_min) cput(c, "min", ec_config_u64(x.umin));
		if (x.has_max) cput(c, "max", ec_config_u64(x.umax));
		if (x.base || r.coin()) cput(c, "base", ec_config_u64(x.base));
		break;
	case T_SEQ: case T_OR: cput(c, "children", nlist(ch)); break;
	case T_MANY:
		cput(c, "child", ec_config_node(ec_node_clone(ch[0])));
		if (x.mn || r.coin()) cput(c, "min", ec_config_u64(x.mn));
		if (x.mx || r.coin()) cput(c, "max", ec_config_u64(x.mx));
		break;
	case T_OPTION: case T_ONCE: case T_BYPASS: cput(c, "child", ec_config_node(ec_node_clone(ch[0]))); break;
	case T_RE_LEX: {
		cput(c, "child", ec_config_node(ec_node_clone(ch[0])));
		if (!x.pats.empty() || r.coin()) cput(c, "patterns", pat_list(x.pats));
		break; }
	default: HCHECK(!"type");
	}
	return c;
}
// some configuration the node type must refuse
static struct ec_config *badcfg(Rng &r, const GN &x, const vec<struct ec_node *> &ch, str &what)
{
	struct ec_config *c = NULL;
	int k = r.range(0, 9);
	if (k == 0) { what = "unknown key"; return cput(mkcfg(r, x, ch), "nosuch", ec_config_u64(1)); }
	if (k == 1) { what = "not a dictionary"; return r.coin() ? ec_config_string("x") : nlist(ch); }
	if (k == 2) {
		what = "ill-typed extra";
		c = mkcfg(r, x, ch);
		switch (x.t) {
		case T_STR: cput(c, "string", ec_config_u64(3)); break;
		case T_ANY: cput(c, "attr", ec_config_bool(true)); break;
		case T_RE: cput(c, "pattern", ec_config_i64(3)); break;
		case T_INT: cput(c, r.coin() ? "min" : "max", r.coin() ? ec_config_u64(1) : ec_config_string("1")); break;
		case T_UINT: cput(c, r.coin() ? "min" : "max", r.coin() ? ec_config_i64(1) : ec_config_string("1")); break;
		case T_SEQ: case T_OR: { struct ec_config *l = nlist(ch); LCHECK(ec_config_list_add(l, ec_config_string("x")) == 0); if (r.coin()) LCHECK(ec_config_list_add(l, ec_config_node(ec_node_clone(ch[0]))) == 0); cput(c, "children", l); break; }
		case T_MANY: if (r.coin()) cput(c, r.coin() ? "min" : "max", ec_config_i64(1)); else cput(c, "child", ec_config_string("x")); break;
		default: cput(c, "child", r.coin() ? ec_config_string("x") : nlist(ch)); break;
		}
		return c;
	}
	switch (x.t) {
	case T_STR: what = "missing string"; return ec_config_dict();
	case T_RE: if (r.coin()) { what = "missing pattern"; return ec_config_dict(); } what = "bad pattern"; return cput(ec_config_dict(), "pattern", ec_config_string(r.coin() ? "(" : "[a"));
	case T_INT: what = "crossed bounds"; return cput(cput(ec_config_dict(), "min", ec_config_i64(5)), "max", ec_config_i64(-5));
	case T_UINT: what = "crossed bounds"; return cput(cput(ec_config_dict(), "min", ec_config_u64(5)), "max", ec_config_u64(4));
	case T_SEQ: case T_OR: what = "missing children"; return ec_config_dict();
	case T_MANY: {
		if (r.coin()) { what = "missing child"; return cput(ec_config_dict(), "min", ec_config_u64(1)); }
		what = "huge bound";
		return cput(cput(ec_config_dict(), "child", ec_config_node(ec_node_clone(ch[0]))), r.coin() ? "min" : "max", ec_config_u64((uint64_t)UINT_MAX + (uint64_t)r.range(0, 3))); }
	case T_RE_LEX: {
		int q = r.range(0, 4);
		if (q == 0) { what = "missing child"; return cput(ec_config_dict(), "patterns", pat_list(x.pats)); }
		struct ec_config *l = pat_list(x.pats), *d = ec_config_dict();
		if (q == 1) { what = "bad pattern"; cput(cput(d, "pattern", ec_config_string("(")), "keep", ec_config_bool(true)); }
		else if (q == 2) { what = "missing keep"; cput(d, "pattern", ec_config_string("a")); }
		else if (q == 3) { what = "missing pattern"; cput(d, "keep", ec_config_bool(true)); }
		else { what = "ill-typed attr"; cput(cput(cput(d, "pattern", ec_config_string("a")), "keep", ec_config_bool(true)), "attr", ec_config_u64(1)); }
		LCHECK(ec_config_list_add(l, d) == 0);
		return cput(cput(ec_config_dict(), "child", ec_config_node(ec_node_clone(ch[0]))), "patterns", l); }
	case T_ANY: what = "unknown key"; return cput(ec_config_dict(), "string", ec_config_string("x"));
	default: what = "missing child"; return ec_config_dict();
	}
}

static const vec<vec<RePat>> &rpats()
{
	static const vec<vec<RePat>> v = {
		{},
		{ {"[a-z]+", true, "w"}, {"[0-9]+", true, "n"}, {"[ ]+", false, ""} },
		{ {"a", true, "A"}, {"b", true, "B"} },
		{ {"foo", true, ""}, {"[a-z]+", true, "w"}, {"[^a-z]", true, "o"} },
		{ {"[ ]+", false, ""}, {"[^ ]+", true, ""} },
	};
	return v;
}

SCENARIO(reconf, "a node of each configurable type inside a grammar receives 3..10 random configurations (valid through set_config or setters, invalid of a dozen kinds, some with failing allocations); after each one children, configuration, parsing and completion are compared with a reference grammar holding the last accepted one; non-trivial = behaviour compared after at least two accepted configurations")
{
	(void)idx;
	LeakCheck lk0;
	Gram g; GenOpt o;
	{ vec<str> d = default_words(); int k = r.range(2, 5); for (int i = 0; i < k; i++) o.words.push_back(r.pick(d)); }
	o.cycles = false; o.lexers = false; o.any_attr = true; o.file = false; o.max_nodes = 4;
	vec<int> pool;
	int np = r.range(2, 5);
	for (int i = 0; i < np; i++) {
		o.max_depth = r.range(0, 2);
		Gram p = gen_gram(r, o);
		int off = (int)g.n.size();
		for (auto &x : p.n) { GN y = x; for (int &c : y.ch) c += off; g.n.push_back(y); }
		pool.push_back(p.root + off);
	}
	static const NT types[] = { T_STR, T_ANY, T_INT, T_UINT, T_RE, T_SEQ, T_OR, T_MANY, T_OPTION, T_ONCE, T_BYPASS, T_RE_LEX, T_SEQ, T_OR, T_SUBSET };
	NT t = types[r.below(15)];
	auto gen = [&](GN &x) {
		x.ch.clear(); x.pats.clear(); x.has_min = x.has_max = false; x.mn = x.mx = 0; x.s.clear(); x.base = 0;
		static const vec<str> rp = {"a+", "[0-9]+", "f.*", "(a|b)*", "foo|bar", ".*"};
		switch (x.t) {
		case T_STR: x.s = r.pick(o.words); break;
		case T_ANY: if (r.coin()) x.s = r.pick(vec<str>{"w", "n", "A"}); break;
		case T_RE: x.s = r.pick(rp); break;
		case T_INT: x.has_min = r.coin(); x.has_max = r.coin(); x.imin = r.range(-20, 5); x.imax = x.imin + r.range(0, 30); x.base = r.coin() ? 10 : r.coin() ? 0 : 16; break;
		case T_UINT: x.has_min = r.coin(); x.has_max = r.coin(); x.umin = r.below(5); x.umax = x.umin + r.below(30); x.base = r.coin() ? 10 : r.coin() ? 0 : 16; break;
		case T_SEQ: case T_OR: case T_SUBSET: { int n = r.range(0, 3); for (int i = 0; i < n; i++) x.ch.push_back(r.pick(pool)); break; }
		case T_MANY: x.ch = {r.pick(pool)}; x.mn = (unsigned)r.range(0, 2); x.mx = r.coin() ? 0 : x.mn + (unsigned)r.range(0, 2); break;
		case T_RE_LEX: x.ch = {r.pick(pool)}; x.pats = r.pick(rpats()); break;
		default: x.ch = {r.pick(pool)}; break;
		}
	};
	GN x; x.t = t; x.id = "subject";
	gen(x);
	int sub = g.add(x);
	// surroundings
	int top = sub;
	int wrap = r.range(0, 4);
	if (wrap == 1) { GN w; w.t = T_SEQ; w.ch = {sub, r.pick(pool)}; top = g.add(w); }
	else if (wrap == 2) { GN w; w.t = T_OR; w.ch = {r.pick(pool), sub}; top = g.add(w); }
	else if (wrap == 3) { GN w; w.t = T_MANY; w.ch = {sub}; top = g.add(w); }
	GN h; h.t = T_SEQ; h.ch = pool; h.ch.push_back(top);
	int holder = g.add(h);
	g.root = holder;
	Built b;
	describe("subject %s", g.show(top).c_str());
	if (!build(g, r, b, true)) { violate("C15", "build", "cannot build a valid grammar: %s", strerror(errno)); end_case(); }
	ec_node_free(b.root);
	b.root = ec_node_clone(b.nodes[top]);
	g.root = top;
	// the subject's own node graph contains nodes of several ids; children come from the pool
	auto nodes_of = [&](const vec<int> &v) { vec<struct ec_node *> o2; for (int c : v) o2.push_back(b.nodes[c]); return o2; };
	struct ec_node *S = b.nodes[sub];
	int accepted = 0;
	int steps = r.range(3, thorough() ? 16 : 10);
	for (int s = 0; s < steps; s++) {
		GN y = g.n[sub];
		bool known_cfg = ec_node_get_config(S) != NULL;
		struct ec_config *old = known_cfg ? ec_config_dup(ec_node_get_config(S)) : NULL;
		uint64_t live = alloc_stats().live;
		bool ok = true;
		str what;
		int op = r.range(0, 5);
		if (t == T_SUBSET) op = 0;
		if (op <= 1) {
			// setters
			int ret = 0;
			auto armed = [&] { if (r.chance(1, 6)) fault_arm(r.range(1, 12), false); };
			switch (t) {
			case T_STR: gen(y); what = "set_str"; armed(); ret = ec_node_str_set_str(S, y.s.c_str()); break;
			case T_RE: gen(y); what = "set_regexp"; armed(); ret = ec_node_re_set_regexp(S, y.s.c_str()); break;
			case T_SEQ: case T_OR: case T_SUBSET: { int c = r.pick(pool); y.ch.push_back(c); what = "add"; armed(); ret = (t == T_SEQ ? ec_node_seq_add : t == T_OR ? ec_node_or_add : ec_node_subset_add)(S, ec_node_clone(b.nodes[c])); break; }
			case T_MANY: gen(y); what = "set_params"; armed(); ret = ec_node_many_set_params(S, ec_node_clone(b.nodes[y.ch[0]]), y.mn, y.mx); break;
			case T_OPTION: gen(y); what = "set_child"; armed(); ret = ec_node_option_set_child(S, ec_node_clone(b.nodes[y.ch[0]])); break;
			case T_ONCE: gen(y); what = "set_child"; armed(); ret = ec_node_once_set_child(S, ec_node_clone(b.nodes[y.ch[0]])); break;
			case T_BYPASS: gen(y); what = "set_child"; armed(); ret = ec_node_bypass_set_child(S, ec_node_clone(b.nodes[y.ch[0]])); break;
			case T_RE_LEX: { RePat p{r.coin() ? "[a-z]" : "[ ]*", r.coin(), r.coin() ? "w" : ""}; y.pats.push_back(p); what = "re_lex_add"; armed(); ret = ec_node_re_lex_add(S, p.pat.c_str(), p.keep, p.attr.empty() ? NULL : p.attr.c_str()); break; }
			default: gen(y); what = "set_config"; { struct ec_config *c = mkcfg(r, y, nodes_of(y.ch)); armed(); ret = ec_node_set_config(S, c); } break;
			}
			uint64_t nf = fault_disarm();
			g.n[sub].t = t;
			{ GN save = g.n[sub]; g.n[sub] = y; describe_append(" | %s%s -> %s = %d", what.c_str(), nf ? " (allocation failing)" : "", g.show(sub).c_str(), ret); g.n[sub] = save; }
			if (ret < 0 && !nf) { violate("C15", "refused", "valid %s refused: %s", what.c_str(), strerror(errno)); end_case(); }
			ok = ret == 0;
			ev(ok ? "setters applied" : "setters that failed for lack of memory");
		} else if (op <= 3) {
			gen(y);
			struct ec_config *c = mkcfg(r, y, nodes_of(y.ch));
			struct ec_config *ref = ec_config_dup(c);
			if (r.chance(1, 6)) fault_arm(r.range(1, 6), false);
			int ret = ec_node_set_config(S, c);
			uint64_t nf = fault_disarm();
			{ GN save = g.n[sub]; g.n[sub] = y; describe_append(" | config%s -> %s = %d", nf ? " (allocation failing)" : "", g.show(sub).c_str(), ret); g.n[sub] = save; }
			if (ret < 0 && !nf) { violate("C15", "refused", "valid configuration refused: %s", strerror(errno)); end_case(); }
			ok = ret == 0;
			if (ok) EXPECT("C15", "config", ec_node_get_config(S) && ec_config_cmp(ec_node_get_config(S), ref) == 0, "the node does not hold the configuration applied");
			ec_config_free(ref);
			ev(ok ? "configurations accepted" : "configurations that failed for lack of memory");
		} else {
			GN z = g.n[sub];
			vec<struct ec_node *> ch = nodes_of(z.ch);
			if (ch.empty()) ch.push_back(b.nodes[r.pick(pool)]);
			struct ec_config *c = badcfg(r, z, ch, what);
			int ret = ec_node_set_config(S, c);
			describe_append(" | bad config (%s) = %d", what.c_str(), ret);
			EXPECT("C15", "accepted", ret < 0, "invalid configuration (%s) accepted", what.c_str());
			ok = false;
			ev("configurations refused");
		}
		if (ok) { y.id = g.n[sub].id; g.n[sub] = y; accepted++; }
		else {
			EXPECT("C15", "released", alloc_stats().live == live, "a rejected configuration was not released (%llu objects before, %llu after)", (unsigned long long)live, (unsigned long long)alloc_stats().live);
			const struct ec_config *now = ec_node_get_config(S);
			EXPECT("C15", "config", (now == NULL) == (old == NULL) && (!now || ec_config_cmp(now, old) == 0), "a rejected configuration changed the node's configuration");
		}
		ec_config_free(old);
		// children
		size_t k = ec_node_get_children_count(S);
		EXPECT("C15", "children", k == g.n[sub].ch.size(), "%zu children reported, configuration holds %zu", k, g.n[sub].ch.size());
		for (size_t i = 0; i < k && i < g.n[sub].ch.size(); i++) {
			struct ec_node *c = NULL; unsigned refs;
			EXPECT("C15", "children", ec_node_get_child(S, i, &c, &refs) == 0 && c == b.nodes[g.n[sub].ch[i]], "child %zu is not the configured one", i);
		}
		for (size_t i : {k, k + 1, (size_t)SIZE_MAX}) {
			struct ec_node *c = NULL; unsigned refs;
			EXPECT("C15", "children", ec_node_get_child(S, i, &c, &refs) < 0, "a child number %zu of %zu is reported", i, k);
		}
		// behaviour
		if (!left_recursive(g)) {
			PropAs as({"C15", "C03"});
			str head = current_desc();
			for (int i = 0; i < 2; i++) {
				describe("%s", head.c_str());
				check_parse(r, g, b, gen_input(r, g, o), false);
				check_complete(g, b, gen_partial(r, g, o));
			}
			describe("%s", head.c_str());
		}
	}
	if (accepted >= 2) nontrivial(fnv(current_desc()));
	sample(current_desc());
	b.free_all();
	lk0.check("C02", "reconfigured grammar");
}
