// C20: dynamic nodes. The builder chooses what to return from the parse state it is given, so a wrong or
// stale state shows as a wrong parse; fresh nodes are followed until they are released.
#include "checks.h"

static void touch(const struct ec_pnode *p)
{
	vec<const struct ec_pnode *> all; walk_nodes(p, all);
	for (auto x : all) if (ec_pnode_get_node(x)) (void)ec_node_get_type_name(ec_pnode_get_node(x));
}
SCENARIO(dyn, "random grammars where a fifth to a half of the containers are dynamic nodes whose builder picks among 1..3 grammars (clones of shared nodes, fresh copies, or nothing) by a hash of the parse state it receives; parse trees and completions compared with the reference; results duplicated, merged and released in random order, fresh nodes must live exactly as long; non-trivial = a builder was consulted and something matched or was proposed")
{
	(void)idx;
	LeakCheck lk;
	PropAs as({"C20", "C02", "C01"});
	EXPECT("C20", "null-builder", ec_node_dynamic("x", NULL, NULL) == NULL, "a dynamic node without builder was created");
	GenOpt o;
	o.max_nodes = r.range(3, 14); o.max_depth = r.range(2, 5); o.lexers = r.chance(1, 3); o.cycles = r.chance(1, 3);
	o.file = false; o.dyn = r.range(20, 50); o.once = false; o.dyn_fail = r.chance(1, 3); o.cond = r.chance(1, 4) ? 10 : 0;
	o.words = r.coin() ? vec<str>{"a", "b"} : vec<str>{"a", "b", "foo", "ab", ""};
	Gram g = gen_gram(r, o);
	str head = g.show();
	describe("%s", head.c_str());
	Built b;
	if (!build(g, r, b, true)) { violate("C20", "build", "cannot build a valid grammar (node #%d): %s", b.failed, strerror(errno)); end_case(); }
	DynEnv env; env.g = &g; env.b = &b;
	g_dyn = &env;
	struct ec_comp *acc = NULL; size_t acc_n = 0; std::set<str> acc_want;
	std::map<const struct ec_node *, int> idx0 = b.idx;
	auto released = [&](const char *what) {
		for (auto n : env.made) EXPECT("C20", "retained", !alloc_is_live(n), "%s: a node built for this request was not released with its results", what);
		ev("fresh nodes released", env.made.size());
		env.made.clear();
		b.idx = idx0;
	};
	auto legal = [&](const Model &m, const char *what) {
		for (auto &s : env.states) EXPECT("C20", "state", m.dyn_states.count(s), "%s: the builder was given the state %s, which is not the parse so far at any dynamic node", what, s.c_str());
		ev("builder calls observed", env.calls);
		if (env.nothing) ev("builder calls returning nothing", env.nothing);
		env.calls = env.nothing = 0; env.states.clear();
	};
	int n = thorough() ? 10 : 6;
	for (int i = 0; i < n; i++) {
		Toks in = gen_input(r, g, o);
		describe("%s | parse %s", head.c_str(), show_toks(in).c_str());
		bool err = false; int w = NOMATCH;
		Model m(g); m.budget = thorough() ? 30000 : 6000;
		std::unique_ptr<MP> tr;
		try { w = m.parse(g.root, in, tr); } catch (CondErr &) { err = true; }
		if (m.steps > m.budget / 2) skip_case("model-budget");
		env.states.clear(); env.calls = 0;
		ParseRes q = run_parse(b, in);
		legal(m, "parse");
		ev("parses compared with the reference");
		if (err) {
			EXPECT("C20", "nothing", q.p == NULL, "a builder returned nothing but the parse succeeded: %s", q.tree.c_str());
			ev("failing requests observed");
		} else {
			str ws = ser(tr.get());
			if (!q.p) { violate("C20", "parse", "parse failed: %s", strerror(errno)); end_case(); }
			EXPECT("C20", "verdict", q.match == (w != NOMATCH) && (w == NOMATCH || q.len == (size_t)w), "matched %d (%zu tokens); the returned nodes give %s", q.match, q.len, w == NOMATCH ? "no match" : std::to_string(w).c_str());
			EXPECT("C20", "tree", q.tree == ws, "tree %s; reference %s", q.tree.c_str(), ws.c_str());
			if (w != NOMATCH && w > 0 && !m.dyn_states.empty()) nontrivial(fnv(head + show_toks(in)));
			// results keep the built nodes alive, whichever of them is released first
			vec<struct ec_pnode *> res = { q.p };
			int k = r.range(0, 2);
			for (int j = 0; j < k; j++) {
				vec<const struct ec_pnode *> all; walk_nodes(r.pick(res), all);
				struct ec_pnode *d = ec_pnode_dup(r.pick(all));
				LCHECK(d);
				res.push_back(ec_pnode_get_root(d));
			}
			while (!res.empty()) {
				size_t j = r.below(res.size());
				ec_pnode_free(res[j]); res.erase(res.begin() + (long)j);
				for (auto p : res) { touch(p); EXPECT("C20", "tree", ser(p, b) == ws, "releasing one result changed another"); }
				ev("results released in random order");
			}
		}
		if (!acc) released("after releasing the results of a parse");
		// completion
		in = gen_partial(r, g, o);
		describe("%s | complete %s", head.c_str(), show_toks(in).c_str());
		Model mc(g); mc.budget = thorough() ? 12000 : 3000;
		err = false;
		try { mc.complete(g.root, in); } catch (CondErr &) { err = true; }
		if (mc.items.size() > 300 || mc.steps > mc.budget / 2) skip_case("too-many-items");
		env.states.clear(); env.calls = 0;
		struct ec_strvec *v = make_strvec(in);
		struct ec_comp *c = ec_complete_strvec(b.root, v);
		ec_strvec_free(v);
		legal(mc, "completion");
		ev("completions compared with the reference");
		if (err) { EXPECT("C20", "nothing", c == NULL, "a builder returned nothing but the completion succeeded"); ec_comp_free(c); if (!acc) released("after a failed completion"); continue; }
		if (!c) { violate("C20", "complete", "completion failed: %s", strerror(errno)); end_case(); }
		std::set<str> ws, gs;
		for (auto &x : mc.items) ws.insert(std::to_string(x.type) + ":" + std::to_string(x.node) + ":" + x.full + " " + x.pstate);
		vec<CItem> items = read_comp(c, b, true);
		for (auto &x : items) gs.insert(std::to_string(x.type) + ":" + std::to_string(x.node) + ":" + x.full + " " + x.pstate);
		str sw, sg; for (auto &q2 : ws) sw += q2 + " "; for (auto &q2 : gs) sg += q2 + " ";
		EXPECT("C20", "complete", ws == gs, "proposals {%s}; the returned nodes give {%s}", esc(sg).c_str(), esc(sw).c_str());
		if (!ws.empty() && !mc.dyn_states.empty()) nontrivial(fnv(head + show_toks(in) + "C"));
		// a parse state taken out of the completion outlives it
		struct ec_pnode *ps = NULL; str pser;
		if (!items.empty() && r.coin()) {
			const struct ec_pnode *p0 = ec_comp_group_get_pstate(items[r.below(items.size())].grp);
			ps = ec_pnode_dup(p0); LCHECK(ps);
			pser = ser(ec_pnode_get_root(ps), b, ps);
		}
		if (r.chance(1, 3)) {
			size_t cn = ec_comp_count(c, EC_COMP_ALL);
			if (!acc) { acc = c; acc_n = cn; }
			else { LCHECK(ec_comp_merge(acc, c) == 0); acc_n += cn; ev("completions merged"); }
			acc_want.insert(gs.begin(), gs.end());
		} else ec_comp_free(c);
		if (ps) {
			EXPECT("C20", "pstate", ser(ec_pnode_get_root(ps), b, ps) == pser, "releasing a completion changed a parse state taken from it");
			touch(ec_pnode_get_root(ps));
			ev("parse states outliving their completion");
			ec_pnode_free(ec_pnode_get_root(ps));
		}
		if (acc) {
			std::set<str> as_;
			auto it = read_comp(acc, b, true);
			for (auto &x : it) as_.insert(std::to_string(x.type) + ":" + std::to_string(x.node) + ":" + x.full + " " + x.pstate);
			EXPECT("C20", "merge", it.size() == acc_n && as_ == acc_want, "merged list has %zu items, its parts had %zu (or others)", it.size(), acc_n);
			if (r.chance(1, 3)) { ec_comp_free(acc); acc = NULL; acc_n = 0; acc_want.clear(); }
		}
		if (!acc) released("after releasing the completions");
	}
	sample(current_desc());
	ec_comp_free(acc);
	released("at the end");
	b.free_all();
	g_dyn = NULL;
	lk.check("C20", "dynamic nodes");
}
