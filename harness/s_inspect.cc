// C30: what the inspection functions say about a grammar, a parse tree and a completion list, compared
// with the grammar that was asked for and with the tree and items read through the accessors.
#include "checks.h"
extern "C" {
#include <ecoli_node_expr.h>
#include <ecoli_node_cmd.h>
}

static const char *TYPES[] = {"any", "bypass", "cmd", "cond", "dynamic", "empty", "expr", "file", "int", "many", "none", "once", "option", "or", "re", "re_lex", "seq", "sh_lex", "space", "str", "subset", "uint"};
static str desc_of(const struct ec_node *n)
{
	char *d = ec_node_desc(n);
	if (!d) { violate("C30", "desc", "a node of type %s has no description", ec_node_get_type_name(n)); end_case(); }
	str s = d;
	ec_free(d);
	return s;
}
static vec<struct ec_node *> kids(const struct ec_node *n)
{
	vec<struct ec_node *> v;
	size_t c = ec_node_get_children_count(n);
	struct ec_node *k; unsigned refs;
	for (size_t i = 0; i < c; i++) {
		k = NULL; refs = 0;
		int ret = ec_node_get_child(n, i, &k, &refs);
		EXPECT("C30", "children", ret == 0 && k != NULL && refs >= 1, "child %zu of %zu of a %s node is not available", i, c, ec_node_get_type_name(n));
		if (!k) end_case();
		v.push_back(k);
	}
	for (size_t i : {c, c + 1, c + 7, SIZE_MAX}) {
		k = (struct ec_node *)n; refs = 77;
		int ret = ec_node_get_child(n, i, &k, &refs);
		EXPECT("C30", "children", (ret < 0 || c == 0) && k == NULL, "a %s node with %zu child(ren) gave a child number %zu", ec_node_get_type_name(n), c, i);
	}
	ev("children lists read", 1);
	return v;
}
// nodes reachable from n through the accessors, in the order of a walk from the top
static vec<struct ec_node *> reach(struct ec_node *n)
{
	vec<struct ec_node *> out; std::set<struct ec_node *> seen;
	std::function<void(struct ec_node *)> go = [&](struct ec_node *x) { if (!seen.insert(x).second) return; out.push_back(x); for (auto k : kids(x)) go(k); };
	go(n);
	return out;
}
static str tail_of(const struct ec_node *n) { char p[40]; snprintf(p, sizeof p, "%p", (const void *)n); return str("type=") + ec_node_get_type_name(n) + " id=" + ec_node_id(n) + " " + p; }
// texts are searched where every end of line is doubled, so that a line can claim both its ends
static str twice(const str &w) { str o; for (size_t i = 0; i < w.size(); i++) { o += w[i]; if (w[i] == '\n' && i > 0 && i + 1 < w.size()) o += '\n'; } return o; }
static bool in_order(const str &text, const vec<str> &want, str &missing)
{
	size_t pos = 0;
	for (auto &w : want) {
		size_t p = text.find(w, pos);
		if (p == str::npos) { missing = w; return false; }
		pos = p + w.size();
	}
	return true;
}
static size_t count_in(const str &text, const str &w) { size_t c = 0; for (size_t p = text.find(w); p != str::npos; p = text.find(w, p + w.size())) c++; return c; }

static void check_dump(struct ec_node *root)
{
	str d = slurp_stream([&](FILE *f) { ec_node_dump(f, root); });
	vec<str> want; std::set<struct ec_node *> seen; std::map<struct ec_node *, size_t> times; size_t loops = 0;
	std::function<void(struct ec_node *, int)> go = [&](struct ec_node *x, int depth) {
		times[x]++;
		str l = "\n" + str((size_t)depth * 4, ' ') + desc_of(x) + " " + tail_of(x);
		if (!seen.insert(x).second) { want.push_back(twice(l + "... (loop)\n")); loops++; return; }
		want.push_back(twice(l + " "));
		for (auto k : kids(x)) go(k, depth + 1);
	};
	go(root, 0);
	str dd; for (char ch : d) { dd += ch; if (ch == '\n') dd += ch; }
	str miss;
	EXPECT("C30", "node-dump", in_order(dd, want, miss), "the dump does not show (in its place) '%s': %s", esc(miss).c_str(), esc(d).c_str());
	for (auto &t : times) EXPECT("C30", "node-dump", count_in(d, tail_of(t.first) + " ") + count_in(d, tail_of(t.first) + "...") == t.second, "the dump shows node '%s' another number of times than the %zu place(s) it has", esc(tail_of(t.first)).c_str(), t.second);
	ev("node dumps", 1); ev("repeated nodes in dumps", loops);
}
static void check_find(Rng &r, struct ec_node *from, const vec<struct ec_node *> &all)
{
	std::set<str> ids; for (auto n : all) ids.insert(ec_node_id(n));
	std::set<str> ask = ids;
	for (auto &i : ids) { if (!i.empty() && r.chance(1, 3)) { ask.insert(i.substr(0, i.size() - 1)); ask.insert(i + "x"); ask.insert(str(1, (char)toupper(i[0])) + i.substr(1)); } }
	ask.insert("nowhere"); ask.insert("");
	for (auto &i : ask) {
		struct ec_node *f = ec_node_find(from, i.c_str());
		EXPECT("C30", "find", (f != NULL) == (ids.count(i) != 0), "looking for '%s': %s", esc(i).c_str(), f ? "found a node although none has it" : "not found");
		if (f) EXPECT("C30", "find", i == ec_node_id(f) && std::find(all.begin(), all.end(), f) != all.end(), "looking for '%s' found '%s'", esc(i).c_str(), esc(ec_node_id(f)).c_str());
		ev(f ? "identifiers found" : "identifiers not found");
	}
}
static void check_types(Rng &r, const vec<struct ec_node *> &all)
{
	for (auto n : all) {
		const struct ec_node_type *t = ec_node_type(n);
		EXPECT("C30", "type", t && !strcmp(ec_node_type_name(t), ec_node_get_type_name(n)), "the type of a node has another name");
		EXPECT("C30", "type", ec_node_check_type(n, t) == 0, "a %s node is not of its own type", ec_node_type_name(t));
		for (auto nm : TYPES) {
			const struct ec_node_type *o = ec_node_type_lookup(nm);
			EXPECT("C30", "type", o && !strcmp(ec_node_type_name(o), nm), "looking for the type %s gave another one", nm);
			if (!o) end_case();
			EXPECT("C30", "type", (ec_node_check_type(n, o) == 0) == !strcmp(nm, ec_node_get_type_name(n)), "a %s node %s for a %s node", ec_node_get_type_name(n), strcmp(nm, ec_node_get_type_name(n)) ? "passes" : "does not pass", nm);
		}
		ev("node types checked");
	}
	(void)r;
}
// a node of each type, as created
static void check_fresh(const char *id)
{
	for (auto nm : TYPES) {
		struct ec_node *n = ec_node(nm, id);
		LCHECK(n);
		EXPECT("C30", "fresh", !strcmp(ec_node_get_type_name(n), nm) && !strcmp(ec_node_id(n), id), "a new %s node '%s' is a %s node '%s'", nm, id, ec_node_get_type_name(n), ec_node_id(n));
		if (strcmp(nm, "str")) EXPECT("C30", "fresh", desc_of(n) == str("<") + nm + ">", "a new %s node is described as '%s'", nm, esc(desc_of(n)).c_str());
		EXPECT("C30", "fresh", kids(n).empty() && ec_node_get_config(n) == NULL && ec_dict_len(ec_node_attrs(n)) == 0, "a new %s node has children, a configuration or attributes", nm);
		EXPECT("C30", "fresh", ec_node_find(n, id) == n && ec_node_find(n, "other") == NULL, "a new %s node is not found by its identifier", nm);
		ec_node_free(n);
		ev("fresh nodes inspected");
	}
	str d = slurp_stream([&](FILE *f) { ec_node_dump(f, NULL); ec_pnode_dump(f, NULL); ec_comp_dump(f, NULL); });
	EXPECT("C30", "fresh", d.find("node is NULL\n") != str::npos && d.find("pnode is NULL\n") != str::npos && d.find("no completion\n") != str::npos, "dumps of nothing: '%s'", esc(d).c_str());
}
static void check_pnode_dump(const struct ec_pnode *p)
{
	str d = slurp_stream([&](FILE *f) { ec_pnode_dump(f, p); });
	vec<str> want; std::map<str, size_t> times; size_t inside = 0;
	std::function<void(const struct ec_pnode *, int)> go = [&](const struct ec_pnode *x, int depth) {
		const struct ec_node *n = ec_pnode_get_node(x);
		str v = ec_pnode_get_strvec(x) ? slurp_stream([&](FILE *f) { ec_strvec_dump(f, ec_pnode_get_strvec(x)); }) : str("");
		str l = "\n" + str((size_t)depth * 4, ' ') + desc_of(n) + " type=" + ec_node_get_type_name(n) + " id=" + ec_node_id(n) + " vec=" + v;
		want.push_back(twice(l)); times[twice(l)]++; inside += (size_t)std::count(l.begin() + 1, l.end(), '\n');
		for (struct ec_pnode *k = ec_pnode_get_first_child(x); k; k = ec_pnode_next(k)) go(k, depth + 1);
	};
	go(p, 0);
	str dd; for (char ch : d) { dd += ch; if (ch == '\n') dd += ch; }
	str miss;
	EXPECT("C30", "parse-dump", in_order(dd, want, miss), "the dump of a match does not show (in its place) '%s': %s", esc(miss).c_str(), esc(d).c_str());
	for (auto &t : times) EXPECT("C30", "parse-dump", count_in(dd, t.first) >= t.second, "the dump of a match shows '%s' too few times", esc(t.first).c_str());
	size_t lines = (size_t)std::count(d.begin(), d.end(), '\n');
	EXPECT("C30", "parse-dump", lines == inside + 1, "the dump of a match has %zu lines for %zu of nodes", lines, inside);
	ev("parse dumps");
}
static void check_comp_dump(const struct ec_comp *c)
{
	str d = slurp_stream([&](FILE *f) { ec_comp_dump(f, c); });
	size_t n = ec_comp_count(c, EC_COMP_ALL);
	if (n == 0) { EXPECT("C30", "comp-dump", d == "no completion\n", "the dump of an empty list is '%s'", esc(d).c_str()); return; }
	vec<str> want; char b[200];
	snprintf(b, sizeof b, "count=%zu full=%zu partial=%zu unknown=%zu\n", n, ec_comp_count(c, EC_COMP_FULL), ec_comp_count(c, EC_COMP_PARTIAL), ec_comp_count(c, EC_COMP_UNKNOWN));
	want.push_back(b);
	const struct ec_comp_group *last = NULL;
	size_t items = 0;
	for (struct ec_comp_item *i = ec_comp_iter_first(c, EC_COMP_ALL); i; i = ec_comp_iter_next(i, EC_COMP_ALL), items++) {
		if (ec_comp_item_get_grp(i) != last) {
			last = ec_comp_item_get_grp(i);
			snprintf(b, sizeof b, "node=%p, node_type=%s\n", (const void *)ec_comp_item_get_node(i), ec_node_get_type_name(ec_comp_item_get_node(i)));
			want.push_back(b);
		}
		int t = ec_comp_item_get_type(i);
		if (t == EC_COMP_UNKNOWN) want.push_back("type=unknown");
		else want.push_back(str("type=") + (t == EC_COMP_FULL ? "full" : "partial") + " str=<" + ec_comp_item_get_str(i) + "> comp=<" + ec_comp_item_get_completion(i) + "> disp=<" + ec_comp_item_get_display(i) + ">\n");
	}
	str miss;
	EXPECT("C30", "comp-dump", in_order(d, want, miss), "the dump of a list does not show (in its place) '%s': %s", esc(miss).c_str(), esc(d).c_str());
	EXPECT("C30", "comp-dump", items == n, "%zu items for a count of %zu", items, n);
	ev("completion dumps");
}
// a node built from operators, or from a command string: every node given is there
static void check_given(Rng &r)
{
	if (r.coin()) {
		struct ec_node *n = ec_node("expr", "top");
		LCHECK(n);
		vec<struct ec_node *> given; int nid = 0;
		auto mk = [&](const char *s) { struct ec_node *x = ec_node_str(("g" + std::to_string(nid++)).c_str(), s); LCHECK(x); given.push_back(x); return x; };
		int nb = r.range(1, 3), npre = r.range(0, 3), npost = r.range(0, 3), npar = r.range(0, 4);
		vec<int> acts{4};
		for (int i = 0; i < nb; i++) acts.push_back(0);
		for (int i = 0; i < npre; i++) acts.push_back(1);
		for (int i = 0; i < npost; i++) acts.push_back(2);
		for (int i = 0; i < npar; i++) acts.push_back(3);
		for (size_t i = acts.size(); i > 1; i--) std::swap(acts[i - 1], acts[r.below(i)]);
		describe("expression node: %d binary, %d prefix, %d postfix, %d kinds of parentheses", nb, npre, npost, npar);
		for (int a : acts) {
			int ret = 0; struct ec_node *x, *y;
			switch (a) {
			case 0: x = mk("+"); ret = ec_node_expr_add_bin_op(n, x); break;
			case 1: x = mk("!"); ret = ec_node_expr_add_pre_op(n, x); break;
			case 2: x = mk("^"); ret = ec_node_expr_add_post_op(n, x); break;
			case 3: x = mk("("); y = mk(")"); ret = ec_node_expr_add_parenthesis(n, x, y); break;
			default: x = mk("v"); ret = ec_node_expr_set_val_node(n, x); break;
			}
			LCHECK(ret == 0);
			auto ks = kids(n);
			for (auto x2 : given) EXPECT("C30", "given", std::count(ks.begin(), ks.end(), x2) == 1, "a node given to an expression is %ld time(s) among its children", (long)std::count(ks.begin(), ks.end(), x2));
			EXPECT("C30", "given", ks.size() == given.size() || ks.size() == given.size() + 1, "an expression made of %zu nodes has %zu children", given.size(), ks.size());
		}
		auto all = reach(n);
		for (auto x : given) EXPECT("C30", "find", ec_node_find(n, ec_node_id(x)) == x, "the operator '%s' of an expression is not found", ec_node_id(x));
		check_find(r, n, all); check_types(r, all); check_dump(n);
		nontrivial(fnv(current_desc()));
		ec_node_free(n);
	} else {
		int k = r.range(0, 5); str e;
		static const char *glue[] = {" ", " | ", " , ", " [", " ("};
		vec<struct ec_node *> given;
		struct ec_config *l = ec_config_list();
		for (int i = 0; i < k; i++) {
			str id = "k" + std::to_string(i);
			struct ec_node *x = r.coin() ? ec_node_str(id.c_str(), "w") : EC_NODE_SEQ(id.c_str(), ec_node_str(("s" + id).c_str(), "a"), ec_node_str(EC_NO_ID, "b"));
			LCHECK(x);
			given.push_back(x);
			LCHECK(ec_config_list_add(l, ec_config_node(x)) == 0);
		}
		str close; e = "w";
		for (int i = 0; i < r.range(0, 5); i++) { str g = glue[r.below(5)]; e += g; if (g.back() == '[') close = "]" + close; if (g.back() == '(') close = ")" + close; e += k && r.coin() ? "k" + std::to_string(r.below((uint64_t)k)) : str("x"); }
		e += close;
		describe("command '%s' with %d nodes", e.c_str(), k);
		struct ec_config *cfg = ec_config_dict();
		LCHECK(ec_config_dict_set(cfg, "expr", ec_config_string(e.c_str())) == 0 && ec_config_dict_set(cfg, "children", l) == 0);
		struct ec_node *n = ec_node("cmd", "top");
		LCHECK(n && ec_node_set_config(n, cfg) == 0);
		auto ks = kids(n);
		for (auto x : given) EXPECT("C30", "given", std::count(ks.begin(), ks.end(), x) >= 1, "a node given to a command is not among its children");
		auto all = reach(n);
		for (auto x : given) EXPECT("C30", "find", ec_node_find(n, ec_node_id(x)) == x, "the node '%s' of a command is not found", ec_node_id(x));
		check_find(r, n, all); check_types(r, all); check_dump(n);
		nontrivial(fnv(current_desc()));
		ec_node_free(n);
	}
}

SCENARIO(inspect, "random grammars (shared nodes, loops, repeated identifiers), expression and command nodes: children, types, descriptions, lookups by identifier and dumps of the grammar, of parse trees and of completion lists, read from random nodes; non-trivial = a grammar with at least two kinds of container or a loop")
{
	(void)idx;
	LeakCheck lk;
	if (r.chance(1, 20)) check_fresh(r.coin() ? "some" : "");
	if (r.chance(1, 5)) { check_given(r); lk.check("C30", "after an inspection"); lk.check("C02", "after an inspection"); return; }
	GenOpt o;
	o.max_nodes = r.range(1, 18); o.max_depth = r.range(1, 6); o.lexers = r.coin(); o.cycles = r.coin(); o.any_attr = o.lexers; o.file = false;
	if (r.chance(1, 3)) o.cond = 15;
	Gram g = gen_gram(r, o);
	// identifiers repeated, empty, prefixes of one another
	if (r.coin()) for (auto &x : g.n) if (r.chance(1, 2)) x.id = vec<str>{"a", "ab", "abc", "id", "b", "ba", ""}[r.below(7)];
	describe("%s", g.show().c_str());
	Built b;
	if (!build(g, r, b, true)) { violate("C30", "build", "cannot build a valid grammar: %s", strerror(errno)); end_case(); }
	// children, as asked for
	std::set<int> types; bool loop = false;
	for (size_t i = 0; i < g.n.size(); i++) {
		struct ec_node *n = b.nodes[i];
		if (!n) continue;
		const GN &x = g.n[i];
		auto ks = kids(n);
		if (x.t != T_DYN) {
			bool same = ks.size() == x.ch.size();
			for (size_t k = 0; same && k < ks.size(); k++) same = ks[k] == b.nodes[(size_t)x.ch[k]];
			EXPECT("C30", "children", same, "node %zu (%s) has %zu children, not the %zu it was given", i, nt_name[x.t], ks.size(), x.ch.size());
		}
		EXPECT("C30", "type", !strcmp(ec_node_get_type_name(n), nt_name[x.t]), "a %s node says it is a %s node", nt_name[x.t], ec_node_get_type_name(n));
		EXPECT("C30", "id", x.id == ec_node_id(n), "node '%s' says it is '%s'", esc(x.id).c_str(), esc(ec_node_id(n)).c_str());
		EXPECT("C30", "desc", desc_of(n) == (x.t == T_STR ? x.s : str("<") + nt_name[x.t] + ">"), "a %s node is described as '%s'", nt_name[x.t], esc(desc_of(n)).c_str());
		if (!x.ch.empty()) types.insert(x.t);
	}
	str before = slurp_stream([&](FILE *f) { ec_node_dump(f, b.root); });
	int starts = r.range(1, 3);
	for (int s = 0; s < starts; s++) {
		struct ec_node *from = s == 0 ? b.root : b.nodes[r.below(b.nodes.size())];
		if (!from) continue;
		auto all = reach(from);
		check_find(r, from, all);
		check_dump(from);
		if (s == 0) check_types(r, all);
	}
	if (before.find("(loop)") != str::npos) loop = true;
	for (int q = 0; q < 2; q++) {
		Toks in = gen_input(r, g, o);
		Model m(g); m.budget = 3000; std::unique_ptr<MP> tr;
		try { m.parse(g.root, in, tr); } catch (CondErr &) { continue; }
		struct ec_strvec *v = make_strvec(in);
		struct ec_pnode *p = ec_parse_strvec(b.root, v);
		if (p) {
			if (ec_pnode_matches(p)) {
				check_pnode_dump(p);
				// any part of it
				vec<struct ec_pnode *> parts; std::function<void(struct ec_pnode *)> go = [&](struct ec_pnode *x) { parts.push_back(x); for (struct ec_pnode *k = ec_pnode_get_first_child(x); k; k = ec_pnode_next(k)) go(k); };
				go(p);
				check_pnode_dump(parts[r.below(parts.size())]);
			} else {
				str d = slurp_stream([&](FILE *f) { ec_pnode_dump(f, p); });
				EXPECT("C30", "parse-dump", d.find("no match\n") != str::npos && (size_t)std::count(d.begin(), d.end(), '\n') == 2, "the dump of a failed match is '%s'", esc(d).c_str());
			}
		}
		ec_pnode_free(p);
		ec_strvec_free(v);
		Toks pa = gen_partial(r, g, o);
		Model m2(g); m2.budget = 3000;
		try { m2.complete(g.root, pa); } catch (CondErr &) { continue; }
		v = make_strvec(pa);
		struct ec_comp *c = ec_complete_strvec(b.root, v);
		if (c) check_comp_dump(c);
		ec_comp_free(c);
		ec_strvec_free(v);
	}
	str after = slurp_stream([&](FILE *f) { ec_node_dump(f, b.root); });
	EXPECT("C30", "unchanged", before == after, "looking at a grammar changed it: %s then %s", esc(before).c_str(), esc(after).c_str());
	if (types.size() >= 2 || loop) nontrivial(fnv(g.show()));
	sample(g.show());
	b.free_all();
	lk.check("C30", "after an inspection");
	lk.check("C02", "after an inspection");
}
