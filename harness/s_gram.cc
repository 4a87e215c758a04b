// Random grammars x inputs: parse and completion against the reference semantics.
// Oracles: C04 (verdict), C05 (tree), C06 (completion set), C07 (completion container),
// C08 (purity / repeatability), C02 (balance).
#include "gram.h"
#include "checks.h"

static GenOpt opt_for(Rng &r)
{
	GenOpt o;
	o.max_nodes = r.range(3, thorough() ? 26 : 18);
	o.max_depth = r.range(2, 6);
	o.lexers = r.chance(1, 2);
	o.cycles = r.chance(1, 2);
	o.any_attr = o.lexers;
	if (r.coin()) { static const vec<str> w = {"a", "b", "ab"}; o.words = w; }
	return o;
}

void walk_nodes(const struct ec_pnode *p, vec<const struct ec_pnode *> &out)
{
	out.push_back(p);
	for (const struct ec_pnode *c = ec_pnode_get_first_child(p); c; c = ec_pnode_next(c)) walk_nodes(c, out);
}

// C05: navigation, iteration, search and duplication agree with the structure
void check_tree_api(Rng &r, struct ec_pnode *p, const Built &b)
{
	vec<const struct ec_pnode *> all;
	walk_nodes(p, all);
	ev("tree nodes navigated", all.size());
	EXPECT("C05", "nav", ec_pnode_get_parent(p) == NULL, "root has a parent");
	for (auto *x : all) {
		EXPECT("C05", "nav", ec_pnode_get_root((struct ec_pnode *)x) == p, "a node does not lead to its root");
		const struct ec_pnode *prev = NULL;
		for (const struct ec_pnode *c = ec_pnode_get_first_child(x); c; c = ec_pnode_next(c)) {
			EXPECT("C05", "nav", ec_pnode_get_parent(c) == x, "child's parent is another node");
			prev = c;
		}
		EXPECT("C05", "nav", ec_pnode_get_last_child(x) == prev, "last child is not the last of the children");
		const struct ec_strvec *v = ec_pnode_get_strvec(x);
		EXPECT("C05", "nav", ec_pnode_len(x) == (v ? ec_strvec_len(v) : 0), "length differs from attached tokens");
		EXPECT("C05", "nav", !!ec_pnode_matches(x) == (v != NULL), "match flag differs from presence of tokens");
	}
	// iteration from a random subtree root
	const struct ec_pnode *sub = all[r.below(all.size())];
	vec<const struct ec_pnode *> want, got;
	walk_nodes(sub, want);
	size_t lim = want.size() + 2;
	for (const struct ec_pnode *i = sub; i && got.size() < lim; i = EC_PNODE_ITER_NEXT(sub, i, 1)) got.push_back(i);
	EXPECT("C05", "iterate", got == want, "depth-first iteration visited %zu nodes, structure has %zu (or another order)", got.size(), want.size());
	// iteration skipping children of a chosen node
	if (want.size() > 1) {
		const struct ec_pnode *x = want[r.below(want.size())];
		vec<const struct ec_pnode *> below; walk_nodes(x, below);
		size_t pos = (size_t)(std::find(want.begin(), want.end(), x) - want.begin());
		const struct ec_pnode *exp = pos + below.size() < want.size() ? want[pos + below.size()] : NULL;
		EXPECT("C05", "iterate", EC_PNODE_ITER_NEXT(sub, x, 0) == exp, "skipping children continues at the wrong node");
	}
	// search
	for (int k = 0; k < 2; k++) {
		const struct ec_node *nd = ec_pnode_get_node(want[r.below(want.size())]);
		str id = r.chance(1, 5) ? str("nosuch") : str(nd ? ec_node_id(nd) : "");
		vec<const struct ec_pnode *> w, g;
		for (auto *x : want) if (ec_pnode_get_node(x) && id == ec_node_id(ec_pnode_get_node(x))) w.push_back(x);
		for (const struct ec_pnode *f = ec_pnode_find(sub, id.c_str()); f && g.size() < lim; f = ec_pnode_find_next(sub, f, id.c_str(), 1)) g.push_back(f);
		EXPECT("C05", "find", g == w, "search for id '%s' found %zu nodes, %zu carry it", esc(id).c_str(), g.size(), w.size());
		ev("searches", 1);
		// search skipping the children of each hit
		vec<const struct ec_pnode *> w2, g2;
		{
			size_t i = 0;
			while (i < want.size()) {
				const struct ec_pnode *x = want[i];
				if (ec_pnode_get_node(x) && id == ec_node_id(ec_pnode_get_node(x))) {
					w2.push_back(x);
					vec<const struct ec_pnode *> below; walk_nodes(x, below);
					i += below.size();
				} else i++;
			}
		}
		for (const struct ec_pnode *f = ec_pnode_find(sub, id.c_str()); f && g2.size() < lim; f = ec_pnode_find_next(sub, f, id.c_str(), 0)) g2.push_back(f);
		EXPECT("C05", "find", g2 == w2, "search skipping children found %zu nodes, expected %zu", g2.size(), w2.size());
	}
	// duplication from a random node
	const struct ec_pnode *m = all[r.below(all.size())];
	str before = ser(p, b, m);
	struct ec_pnode *d = ec_pnode_dup(m);
	if (!d) { violate("C05", "dup", "duplication failed"); end_case(); }
	struct ec_pnode *droot = ec_pnode_get_root(d);
	str after = ser(droot, b, d);
	EXPECT("C05", "dup", after == before, "duplicate differs: %s versus %s", after.c_str(), before.c_str());
	EXPECT("C05", "dup", d != m && droot != p, "duplicate shares nodes with the original");
	ev("trees duplicated", 1);
	// the duplicate is independent: drop part of it, the original must not move
	if (ec_pnode_get_first_child(droot)) { ec_pnode_del_last_child(droot); }
	EXPECT("C05", "dup", ser(p, b, m) == before, "editing a duplicate changed the original");
	ec_pnode_free(droot);
	EXPECT("C05", "dup", ser(p, b, m) == before, "releasing a duplicate changed the original");
}

uint64_t g_budget_x = 1;
ParseRes run_parse(const Built &b, const Toks &t, const struct ec_node *node)
{
	ParseRes o;
	struct ec_strvec *v = make_strvec(t);
	LCHECK(v);
	o.p = ec_parse_strvec(node ? node : b.root, v);
	o.input_ok = show_toks(read_strvec(v)) == show_toks(t);
	ec_strvec_free(v);
	if (o.p) {
		o.match = ec_pnode_matches(o.p);
		o.len = ec_pnode_len(o.p);
		o.tree = ser(o.p, b);
	} else o.tree = "error";
	return o;
}

void check_parse(Rng &r, const Gram &g, const Built &b, const Toks &t, bool api)
{
	Model m(g);
	m.budget = (thorough() ? 100000 : 30000) * g_budget_x;
	std::unique_ptr<MP> tree;
	int want = m.parse(g.root, t, tree);
	describe_append(" | parse %s", show_toks(t).c_str());
	ParseRes o = run_parse(b, t);
	ev("parses compared with the reference");
	if (want == NOMATCH) ev("reference says: no match");
	else { ev(want == (int)t.size() ? "reference says: full match" : "reference says: partial match"); }
	str ws = ser(tree.get());
	for (const char *pr : {"C04", "C05"}) {
		if (!o.p) { violate(pr, "parse-error", "parsing reported an error; reference: %s", want == NOMATCH ? "no match" : "match"); continue; }
		if (want == NOMATCH)
			EXPECT(pr, "verdict", !o.match, "accepted %zu token(s); the grammar does not match", o.len);
		else {
			EXPECT(pr, "verdict", o.match, "rejected; the grammar matches %d token(s)", want);
			EXPECT(pr, "length", o.len == (size_t)want, "consumed %zu token(s); the grammar consumes %d", o.len, want);
		}
	}
	if (!o.p) end_case();
	EXPECT("C05", "tree", o.tree == ws, "tree %s; reference %s", o.tree.c_str(), ws.c_str());
	EXPECT("C08", "input-changed", o.input_ok, "parsing changed its input vector");
	if (api && wants("C05")) check_tree_api(r, o.p, b);
	ec_pnode_free(o.p);
	if (want != NOMATCH && want > 0) nontrivial(fnv(g.show() + show_toks(t) + "P"));
}

// flatten a completion list through the public API, checking C07 on the way
vec<CItem> read_comp(const struct ec_comp *c, const Built &b, bool check)
{
	vec<CItem> items;
	size_t total = ec_comp_count(c, EC_COMP_ALL);
	static const ec_comp_type filters[] = { EC_COMP_UNKNOWN, EC_COMP_FULL, EC_COMP_PARTIAL, EC_COMP_ALL,
		(ec_comp_type)(EC_COMP_FULL | EC_COMP_PARTIAL), (ec_comp_type)(EC_COMP_FULL | EC_COMP_UNKNOWN),
		(ec_comp_type)(EC_COMP_UNKNOWN | EC_COMP_PARTIAL), (ec_comp_type)0 };
	vec<const struct ec_comp_item *> all;
	for (const struct ec_comp_item *i = ec_comp_iter_first(c, EC_COMP_ALL); i && all.size() <= total + 4; i = ec_comp_iter_next((struct ec_comp_item *)i, EC_COMP_ALL))
		all.push_back(i);
	EXPECT("C07", "iterate-all", all.size() == total, "iteration visited %zu items, count says %zu", all.size(), total);
	if (check) {
		std::set<const struct ec_comp_item *> uniq(all.begin(), all.end());
		EXPECT("C07", "iterate-once", uniq.size() == all.size(), "an item was visited more than once");
		for (auto f : filters) {
			vec<const struct ec_comp_item *> want, got;
			for (auto *i : all) if (ec_comp_item_get_type(i) & f) want.push_back(i);
			size_t n = ec_comp_count(c, f);
			for (const struct ec_comp_item *i = ec_comp_iter_first(c, f); i && got.size() <= total + 4; i = ec_comp_iter_next((struct ec_comp_item *)i, f)) got.push_back(i);
			EXPECT("C07", "count", n == want.size(), "count(0x%x)=%zu but %zu such items exist", f, n, want.size());
			EXPECT("C07", "iterate-filter", got == want, "iteration with filter 0x%x visited %zu of %zu items", f, got.size(), want.size());
			ev("filtered iterations");
		}
		EXPECT("C07", "iterate", ec_comp_iter_next(NULL, EC_COMP_ALL) == NULL, "iteration from no item yields one");
	}
	std::map<const struct ec_comp_group *, str> gs;
	const struct ec_comp_group *last = NULL; std::set<const struct ec_comp_group *> closed;
	for (auto *i : all) {
		CItem x;
		x.type = ec_comp_item_get_type(i);
		const struct ec_comp_group *grp = ec_comp_item_get_grp(i);
		if (!grp) { violate("C07", "group", "item without group"); end_case(); }
		const struct ec_node *nd = ec_comp_item_get_node(i);
		EXPECT("C07", "group", ec_comp_group_get_node(grp) == nd, "item and group disagree on the node");
		auto it = b.idx.find(nd);
		x.node = it == b.idx.end() ? -1 : it->second;
		x.nd = nd;
		const char *s = ec_comp_item_get_str(i), *cm = ec_comp_item_get_completion(i), *di = ec_comp_item_get_display(i);
		x.has_str = s; x.has_comp = cm;
		x.full = s ? s : ""; x.completion = cm ? cm : ""; x.display = di ? di : "";
		EXPECT("C07", "item", (x.type == EC_COMP_UNKNOWN) == (s == NULL), "text presence does not fit item type");
		EXPECT("C07", "item", x.type == EC_COMP_UNKNOWN || x.type == EC_COMP_FULL || x.type == EC_COMP_PARTIAL, "item has type 0x%x", x.type);
		if (grp != last) {
			EXPECT("C07", "group", !closed.count(grp), "items of one group are not consecutive");
			if (last) closed.insert(last);
			last = grp;
		}
		auto f = gs.find(grp);
		if (f == gs.end()) {
			const struct ec_pnode *ps = ec_comp_group_get_pstate(grp);
			if (!ps) { violate("C07", "pstate", "group without parse state"); end_case(); }
			str sr = ser(ec_pnode_get_root((struct ec_pnode *)ps), b, ps);
			EXPECT("C07", "pstate", ec_pnode_get_node(ps) == nd, "parse state of the group is not at the issuing node");
			f = gs.emplace(grp, sr).first;
		}
		x.pstate = f->second;
		x.grp = grp;
		items.push_back(x);
	}
	ev("completion items inspected", items.size());
	return items;
}

static str key6(int type, int node, const str &full) { return std::to_string(type) + ":" + std::to_string(node) + ":" + full; }
static str join(const std::set<str> &s) { str o; for (auto &x : s) o += (o.empty() ? "" : " ") + esc(x); return o; }

void check_complete(const Gram &g, const Built &b, const Toks &t)
{
	Model m(g);
	m.budget = (thorough() ? 20000 : 5000) * g_budget_x;
	m.complete(g.root, t);
	if (m.items.size() > 500 * g_budget_x) skip_case("too-many-items");
	if (m.file_hit) return;       // the file node reads the real directory: see C21
	describe_append(" | complete %s", show_toks(t).c_str());
	struct ec_strvec *v = make_strvec(t);
	LCHECK(v);
	struct ec_comp *c = ec_complete_strvec(b.root, v);
	EXPECT("C08", "input-changed", show_toks(read_strvec(v)) == show_toks(t), "completing changed its input vector");
	ec_strvec_free(v);
	ev("completions compared with the reference");
	if (!c) { for (auto pr : {"C06", "C07"}) violate(pr, "complete-error", "completion reported an error"); end_case(); }
	vec<CItem> it = read_comp(c, b, true);
	std::set<str> want, got, wp, gp;
	for (auto &x : m.items) { want.insert(key6(x.type, x.node, x.full)); wp.insert(key6(x.type, x.node, x.full) + " state " + x.pstate); }
	for (auto &x : it) { got.insert(key6(x.type, x.node, x.full)); gp.insert(key6(x.type, x.node, x.full) + " state " + x.pstate); }
	std::set<str> miss, extra;
	std::set_difference(want.begin(), want.end(), got.begin(), got.end(), std::inserter(miss, miss.end()));
	std::set_difference(got.begin(), got.end(), want.begin(), want.end(), std::inserter(extra, extra.end()));
	EXPECT("C06", "missing", miss.empty(), "missing proposals (type:node:text): %s", join(miss).c_str());
	EXPECT("C06", "extra", extra.empty(), "proposals the grammar does not allow: %s", join(extra).c_str());
	if (miss.empty() && extra.empty()) {
		// once for each way of dividing the tokens
		std::map<str, int> n;
		for (auto &x : m.items) n[key6(x.type, x.node, x.full)]++;
		for (auto &x : it) n[key6(x.type, x.node, x.full)]--;
		for (auto &e : n) EXPECT("C06", "repeated", e.second == 0, "proposal %s appears %d time(s) too %s", esc(e.first).c_str(), abs(e.second), e.second < 0 ? "many" : "few");
	}
	// text of each item: typed prefix + completion == full
	std::map<str, std::set<str>> comps;
	for (auto &x : m.items) comps[key6(x.type, x.node, x.full)].insert(x.completion);
	for (auto &x : it) {
		if (x.type == EC_COMP_UNKNOWN) continue;
		auto f = comps.find(key6(x.type, x.node, x.full));
		if (f == comps.end()) continue;
		EXPECT("C06", "completion-text", f->second.count(x.completion), "item '%s' would append '%s'", esc(x.full).c_str(), esc(x.completion).c_str());
		EXPECT("C07", "completion-text", f->second.count(x.completion), "item '%s' would append '%s'", esc(x.full).c_str(), esc(x.completion).c_str());
	}
	if (miss.empty() && extra.empty())
		EXPECT("C07", "pstate", wp == gp, "recorded parse states differ: got {%s} want {%s}", join(gp).c_str(), join(wp).c_str());
	else
		violate("C07", "items", "item set differs from the reference: missing {%s} extra {%s}", join(miss).c_str(), join(extra).c_str());
	ec_comp_free(c);
	if (!want.empty()) nontrivial(fnv(g.show() + show_toks(t) + "C"));
	if (want.empty()) ev("reference says: nothing to complete");
}

// C07: a merged list holds the items of both, in order, and is consistent
void check_merge(const Gram &g, const Built &b, const Toks &t1, const Toks &t2)
{
	for (auto t : {&t1, &t2}) {
		Model m(g);
		m.budget = (thorough() ? 20000 : 5000) * g_budget_x;
		m.complete(g.root, *t);
		if (m.items.size() > 500 * g_budget_x) skip_case("too-many-items");
		if (m.file_hit) return;
	}
	describe_append(" | merge completions of %s and %s", show_toks(t1).c_str(), show_toks(t2).c_str());
	struct ec_comp *c[2];
	vec<CItem> it[2];
	for (int i = 0; i < 2; i++) {
		struct ec_strvec *v = make_strvec(i ? t2 : t1);
		LCHECK(v);
		c[i] = ec_complete_strvec(b.root, v);
		ec_strvec_free(v);
		if (!c[i]) { violate("C07", "complete-error", "completion reported an error"); end_case(); }
		it[i] = read_comp(c[i], b, false);
	}
	EXPECT("C07", "merge", ec_comp_merge(c[0], c[1]) == 0, "merging two lists failed");
	vec<CItem> m = read_comp(c[0], b, true);
	auto key = [](const CItem &x) { return std::to_string(x.type) + ":" + std::to_string(x.node) + ":" + x.full + "|" + x.completion + "|" + x.display + " state " + x.pstate; };
	vec<str> want, got;
	for (auto &l : it) for (auto &x : l) want.push_back(key(x));
	for (auto &x : m) got.push_back(key(x));
	EXPECT("C07", "merge", got == want, "the merged list has %zu items, the two lists had %zu and %zu (or others)", got.size(), it[0].size(), it[1].size());
	for (auto &x : it[0]) ev("merged items"), (void)x;
	if (!it[0].empty() && !it[1].empty()) nontrivial(fnv(g.show() + show_toks(t1) + show_toks(t2) + "M"));
	ec_comp_free(c[0]);
}

Toks gen_partial(Rng &r, const Gram &g, const GenOpt &o)
{
	Toks t = gen_input(r, g, o);
	if (t.empty() || r.chance(1, 4)) { t.push_back(Tok{"", {}}); return t; }
	if (t.size() > 1 && r.coin()) t.resize(1 + r.below(t.size()));
	str &s = t.back().s;
	int k = r.range(0, 3);
	if (k == 0) s = "";
	else if (k == 1) s = s.substr(0, r.below(s.size() + 1));
	return t;
}

SCENARIO(gram, "random grammar graph over all node types (sharing, cycles through bypass, lexers) built by random construction routes; inputs from grammar walks plus mutations; non-trivial = the reference consumes at least one token or proposes at least one completion")
{
	(void)idx;
	GenOpt o = opt_for(r);
	Gram g = gen_gram(r, o);
	describe("%s", g.show().c_str());
	LeakCheck lk;
	Built b;
	if (!build(g, r, b)) { for (auto pr : {"C04", "C05"}) violate(pr, "build", "cannot build a valid grammar (node #%d): %s", b.failed, strerror(errno)); end_case(); }
	ev("grammars built");
	str head = current_desc();
	int n = thorough() ? 10 : 6;
	for (int i = 0; i < n; i++) {
		describe("%s", head.c_str());
		if (wants("C04") || wants("C05") || wants("C08") || wants("C02") || wants("C01")) check_parse(r, g, b, gen_input(r, g, o), true);
		if (wants("C06") || wants("C07") || wants("C08") || wants("C02") || wants("C01")) check_complete(g, b, gen_partial(r, g, o));
		if ((wants("C07") || wants("C01") || wants("C02")) && r.chance(1, 3)) { Toks a = gen_partial(r, g, o), c = gen_partial(r, g, o); check_merge(g, b, a, c); }
	}
	sample(current_desc());
	b.free_all();
	lk.check("C02", "after freeing the grammar and all results");
}
