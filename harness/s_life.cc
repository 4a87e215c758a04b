// C16: node lifetime. Random graphs of every container type are edited (children added, replaced,
// whole configurations swapped) while references are taken and dropped in random order. After every
// step, exactly the nodes reachable from references the application still holds are alive, and each
// node reports exactly the children it was given (C15).
#include "checks.h"

enum { L_STR, L_SEQ, L_OR, L_SUBSET, L_MANY, L_OPTION, L_ONCE, L_BYPASS, L_SH_LEX, L_RE_LEX, L_COND, L_CMD, L_EXPR, L_N };
static const char *lname[L_N] = { "str", "seq", "or", "subset", "many", "option", "once", "bypass", "sh_lex", "re_lex", "cond", "cmd", "expr" };
struct LNode {
	int t; struct ec_node *p; int ext = 1; bool alive = true;
	vec<int> ch;          // held children (multiset, in order)
	int val = -1; vec<int> ops;
};
struct LGraph {
	vec<LNode> n;
	str log;
	void reach(vec<char> &m)
	{
		m.assign(n.size(), 0);
		vec<int> st;
		for (size_t i = 0; i < n.size(); i++) if (n[i].alive && n[i].ext > 0) { m[i] = 1; st.push_back((int)i); }
		while (!st.empty()) {
			int v = st.back(); st.pop_back();
			for (int c : n[v].ch) if (!m[c]) { m[c] = 1; st.push_back(c); }
		}
	}
	void check(const char *after)
	{
		vec<char> m; reach(m);
		for (size_t i = 0; i < n.size(); i++) {
			if (!n[i].alive) continue;
			bool live = alloc_is_live(n[i].p);
			if (m[i]) EXPECT("C16", "premature", live, "after %s: node %zu (%s) is still referenced but was released", after, i, lname[n[i].t]);
			else {
				EXPECT("C16", "retained", !live, "after %s: node %zu (%s) is unreachable but was not released", after, i, lname[n[i].t]);
				n[i].alive = false; n[i].p = NULL;
				ev("nodes released at the right moment");
			}
		}
		ev("liveness snapshots compared");
		// children reporting
		for (size_t i = 0; i < n.size(); i++) {
			if (!n[i].alive || n[i].t == L_EXPR || n[i].t == L_CMD) continue;
			size_t k = ec_node_get_children_count(n[i].p);
			for (const char *pr : {"C15", "C16"}) EXPECT(pr, "children", k == n[i].ch.size(), "after %s: node %zu (%s) reports %zu children, was given %zu", after, i, lname[n[i].t], k, n[i].ch.size());
			for (size_t j = 0; j < k && j < n[i].ch.size(); j++) {
				struct ec_node *c = NULL; unsigned refs = 0;
				int ret = ec_node_get_child(n[i].p, j, &c, &refs);
				for (const char *pr : {"C15", "C16"}) EXPECT(pr, "children", ret == 0 && c == n[n[i].ch[j]].p, "after %s: node %zu (%s) reports the wrong child %zu", after, i, lname[n[i].t], j);
			}
			struct ec_node *c = NULL; unsigned refs;
			EXPECT("C15", "children", ec_node_get_child(n[i].p, k, &c, &refs) < 0 || c == NULL, "child past the end reported");
		}
	}
};

static struct ec_config *set_or_free(struct ec_config *c, const char *k, struct ec_config *v) { LCHECK(ec_config_dict_set(c, k, v) == 0); return c; }

SCENARIO(life, "random node graphs (shared, multiply referenced, cyclic) over all container types, 10..60 steps of adding/replacing children, taking and dropping references; liveness of every node compared with reachability after each step; non-trivial = at least one cycle or shared node was released")
{
	(void)idx;
	LeakCheck lk;
	LGraph g;
	auto pick_ext = [&](std::function<bool(const LNode &)> ok) -> int {
		vec<int> c;
		for (size_t i = 0; i < g.n.size(); i++) if (g.n[i].alive && g.n[i].ext > 0 && ok(g.n[i])) c.push_back((int)i);
		return c.empty() ? -1 : c[r.below(c.size())];
	};
	auto pick_alive = [&]() -> int {
		vec<int> c;
		for (size_t i = 0; i < g.n.size(); i++) if (g.n[i].alive) c.push_back((int)i);
		return c.empty() ? -1 : c[r.below(c.size())];
	};
	auto note = [&](const str &s) { g.log += " " + s; describe("%s", g.log.c_str()); };
	auto nm = [](int i) { return std::to_string(i); };
	auto fresh = [&](int t, struct ec_node *p) { LNode x; x.t = t; x.p = p; g.n.push_back(x); return (int)g.n.size() - 1; };
	int steps = r.range(10, thorough() ? 100 : 60);
	bool bias_cyc = r.coin();
	bool shared = false;
	for (int s = 0; s < steps; s++) {
		int op = r.range(0, 11);
		if (g.n.size() < 3) op = 0;
		if (g.n.size() > 24) op = std::max(op, 3);
		str what = "step " + nm(s);
		if (op <= 2) {
			// create a node; single-child types may get their child at once
			int t = r.range(0, L_N - 1);
			str id = "n" + nm((int)g.n.size());
			int c = pick_alive();
			if (t == L_STR || c < 0) { note("new " + id + ":str"); fresh(L_STR, ec_node_str(id.c_str(), "x")); }
			else if (t == L_SH_LEX || t == L_RE_LEX || t == L_COND || (r.coin() && t >= L_MANY && t <= L_BYPASS)) {
				struct ec_node *p = NULL, *k = ec_node_clone(g.n[c].p);
				note("new " + id + ":" + lname[t] + "(" + nm(c) + ")");
				switch (t) {
				case L_SH_LEX: p = ec_node_sh_lex(id.c_str(), k); break;
				case L_RE_LEX: p = ec_node_re_lex(id.c_str(), k); break;
				case L_COND: p = ec_node_cond(id.c_str(), "find(root(), foo)", k); break;
				case L_MANY: p = ec_node_many(id.c_str(), k, 0, 0); break;
				case L_OPTION: p = ec_node_option(id.c_str(), k); break;
				case L_ONCE: p = ec_node_once(id.c_str(), k); break;
				case L_BYPASS: p = ec_node_bypass(id.c_str(), k); break;
				}
				LCHECK(p);
				g.n[fresh(t, p)].ch.push_back(c);
			} else if (t == L_CMD) {
				// "a b|c" over supplied nodes: the nodes are held by the command
				int d = pick_alive();
				note("new " + id + ":cmd(" + nm(c) + "," + nm(d) + ")");
				str sc = ec_node_id(g.n[c].p), sd = ec_node_id(g.n[d].p);
				str e = sc + " [" + sd + "] foo";
				struct ec_node *p = EC_NODE_CMD(id.c_str(), e.c_str(), ec_node_clone(g.n[c].p), ec_node_clone(g.n[d].p));
				if (!p) { violate("C16", "build", "cannot build cmd '%s'", e.c_str()); end_case(); }
				int k = fresh(t, p);
				g.n[k].ch.push_back(c); g.n[k].ch.push_back(d);
			} else {
				note("new " + id + ":" + lname[t]);
				struct ec_node *p = ec_node(lname[t], id.c_str());
				LCHECK(p);
				fresh(t, p);
			}
		} else if (op <= 6) {
			// add or replace children
			int a = pick_ext([](const LNode &x) { return x.t != L_STR && x.t != L_SH_LEX; });
			int c = pick_alive();
			if (a < 0 || c < 0) continue;
			if (bias_cyc && !g.n[a].ch.empty() && r.coin()) {
				// prefer an edge that closes a cycle: an ancestor of a
				vec<int> anc;
				for (size_t i = 0; i < g.n.size(); i++) if (g.n[i].alive && std::find(g.n[i].ch.begin(), g.n[i].ch.end(), a) != g.n[i].ch.end()) anc.push_back((int)i);
				if (!anc.empty()) c = r.pick(anc);
			}
			LNode &x = g.n[a];
			struct ec_node *k = g.n[c].p;
			note(str(lname[x.t]) + nm(a) + "<-" + nm(c));
			int ret = 0;
			switch (x.t) {
			case L_SEQ: case L_OR:
				if (r.chance(1, 3)) {
					// replace all children by configuration
					struct ec_config *l = ec_config_list();
					vec<int> nc; int cnt = r.range(0, 3);
					for (int i = 0; i < cnt; i++) { int d = i == 0 ? c : pick_alive(); nc.push_back(d); LCHECK(ec_config_list_add(l, ec_config_node(ec_node_clone(g.n[d].p))) == 0); }
					if (r.coin()) for (int d : x.ch) if (r.coin()) { nc.push_back(d); LCHECK(ec_config_list_add(l, ec_config_node(ec_node_clone(g.n[d].p))) == 0); }
					note("(replaced)");
					ret = ec_node_set_config(x.p, set_or_free(ec_config_dict(), "children", l));
					x.ch = nc;
				} else {
					ret = (x.t == L_SEQ ? ec_node_seq_add : ec_node_or_add)(x.p, ec_node_clone(k));
					x.ch.push_back(c);
				}
				break;
			case L_SUBSET: ret = ec_node_subset_add(x.p, ec_node_clone(k)); x.ch.push_back(c); break;
			case L_MANY: ret = ec_node_many_set_params(x.p, ec_node_clone(k), 0, (unsigned)r.range(0, 3)); x.ch = {c}; break;
			case L_OPTION: ret = ec_node_option_set_child(x.p, ec_node_clone(k)); x.ch = {c}; break;
			case L_ONCE: ret = ec_node_once_set_child(x.p, ec_node_clone(k)); x.ch = {c}; break;
			case L_BYPASS: ret = ec_node_bypass_set_child(x.p, ec_node_clone(k)); x.ch = {c}; break;
			case L_RE_LEX:
				if (r.coin()) { ret = ec_node_re_lex_add(x.p, "a+", 1, NULL); break; }
				ret = ec_node_set_config(x.p, set_or_free(ec_config_dict(), "child", ec_config_node(ec_node_clone(k)))); x.ch = {c}; break;
			case L_COND: {
				struct ec_config *cfg = set_or_free(ec_config_dict(), "child", ec_config_node(ec_node_clone(k)));
				set_or_free(cfg, "expr", ec_config_string("count(current())"));
				ret = ec_node_set_config(x.p, cfg); x.ch = {c}; break; }
			case L_CMD: {
				struct ec_config *l = ec_config_list();
				LCHECK(ec_config_list_add(l, ec_config_node(ec_node_clone(k))) == 0);
				struct ec_config *cfg = set_or_free(ec_config_dict(), "children", l);
				str e = r.coin() ? str(ec_node_id(k)) : str("foo ") + ec_node_id(k) + "|bar";
				set_or_free(cfg, "expr", ec_config_string(e.c_str()));
				ret = ec_node_set_config(x.p, cfg); x.ch = {c}; break; }
			case L_EXPR:
				switch (r.range(0, 4)) {
				case 0: ret = ec_node_expr_set_val_node(x.p, ec_node_clone(k));
					if (x.val >= 0) x.ch.erase(std::find(x.ch.begin(), x.ch.end(), x.val));
					x.val = c; x.ch.push_back(c); break;
				case 1: ret = ec_node_expr_add_bin_op(x.p, ec_node_clone(k)); x.ch.push_back(c); break;
				case 2: ret = ec_node_expr_add_pre_op(x.p, ec_node_clone(k)); x.ch.push_back(c); break;
				case 3: ret = ec_node_expr_add_post_op(x.p, ec_node_clone(k)); x.ch.push_back(c); break;
				case 4: { int d = pick_alive(); ret = ec_node_expr_add_parenthesis(x.p, ec_node_clone(k), ec_node_clone(g.n[d].p)); x.ch.push_back(c); x.ch.push_back(d); break; }
				}
				break;
			}
			if (ret < 0) { violate("C16", "edit", "adding a child to %s failed: %s", lname[x.t], strerror(errno)); end_case(); }
		} else if (op == 7) {
			int a = pick_alive();
			if (a < 0) continue;
			note("ref" + nm(a));
			ec_node_clone(g.n[a].p); g.n[a].ext++;
		} else if (op == 8) {
			// look up by identifier from a held node: must terminate and find exactly reachable ids
			int a = pick_ext([](const LNode &) { return true; });
			if (a < 0) continue;
			int b = (int)r.below(g.n.size());
			bool nocmd = true;
			vec<char> m(g.n.size(), 0); vec<int> st{a}; m[a] = 1;
			while (!st.empty()) { int v = st.back(); st.pop_back(); if (g.n[v].t == L_EXPR) nocmd = false; for (int c : g.n[v].ch) if (!m[c]) { m[c] = 1; st.push_back(c); } }
			str id = "n" + nm(b);
			note("find" + nm(a) + ":" + id);
			struct ec_node *f = ec_node_find(g.n[a].p, id.c_str());
			if (m[b] && nocmd) EXPECT("C16", "find", f == g.n[b].p, "node %s is reachable but was not found", id.c_str());
			if (f) EXPECT("C16", "find", m[b] && f == g.n[b].p, "found a node that is not reachable");
			ev("searches by identifier");
		} else {
			int a = pick_ext([](const LNode &) { return true; });
			if (a < 0) continue;
			note("drop" + nm(a));
			for (size_t i = 0; i < g.n.size(); i++) if (g.n[i].alive && (int)i != a && std::find(g.n[i].ch.begin(), g.n[i].ch.end(), a) != g.n[i].ch.end()) shared = true;
			g.n[a].ext--;
			ec_node_free(g.n[a].p);
			ev("references dropped");
		}
		g.check(what.c_str());
	}
	// drop everything in random order
	for (;;) {
		int a = pick_ext([](const LNode &) { return true; });
		if (a < 0) break;
		note("drop" + nm(a));
		g.n[a].ext--;
		ec_node_free(g.n[a].p);
		ev("references dropped");
		g.check("final release");
	}
	if (shared) nontrivial(fnv(g.log));
	sample(g.log);
	lk.check("C16", "after dropping every reference");
	lk.check("C02", "after dropping every reference");
}
