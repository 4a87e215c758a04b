// C08: histories of parse/complete/dump/describe over one grammar. Every request is repeated at random
// later points and must give its first answer; results are kept across changes and release of the input
// they came from and of other results.
#include "checks.h"

static str comp_list(const struct ec_comp *c, const Built &b)
{
	str o;
	for (const struct ec_comp_item *i = ec_comp_iter_first(c, EC_COMP_ALL); i; i = ec_comp_iter_next((struct ec_comp_item *)i, EC_COMP_ALL)) {
		const char *s = ec_comp_item_get_str(i), *m = ec_comp_item_get_completion(i), *d = ec_comp_item_get_display(i);
		auto it = b.idx.find(ec_comp_item_get_node(i));
		const struct ec_pnode *ps = ec_comp_group_get_pstate(ec_comp_item_get_grp(i));
		o += std::to_string(ec_comp_item_get_type(i)) + ":" + std::to_string(it == b.idx.end() ? -1 : it->second) + ":" + (s ? s : "-") + ":" + (m ? m : "-") + ":" + (d ? d : "-") + "@" + (ps ? ser(ec_pnode_get_root((struct ec_pnode *)ps), b, ps) : str("-")) + "\n";
	}
	return o + std::to_string(ec_comp_count(c, EC_COMP_ALL));
}
static str config_dumps(const Built &b)
{
	return slurp_stream([&](FILE *f) {
		for (auto n : b.nodes) if (n) { ec_config_dump(f, ec_node_get_config(n)); fprintf(f, "%s|%s|%zu\n", ec_node_id(n), ec_node_get_type_name(n), ec_node_get_children_count(n)); }
	});
}
struct Kept { int kind; struct ec_pnode *p = NULL; struct ec_comp *c = NULL; str want; str req; };

SCENARIO(purity, "histories of 10..60 parse/complete/dump/describe requests over one random grammar, each request repeated later, results kept while inputs and sibling results are modified or released, node dumps and configurations compared before and after; non-trivial = a request with a match or proposals was repeated with other requests in between")
{
	(void)idx;
	LeakCheck lk;
	GenOpt o;
	o.max_nodes = r.range(3, 14); o.max_depth = r.range(1, 5); o.lexers = r.coin(); o.cycles = r.coin(); o.any_attr = o.lexers; o.file = false;
	Gram g = gen_gram(r, o);
	for (auto &x : g.n) { if (r.chance(1, 4)) x.help = "help text"; if (r.chance(1, 6)) x.desc = "<d>"; }
	describe("%s", g.show().c_str());
	Built b;
	if (!build(g, r, b, true)) { violate("C08", "build", "cannot build a valid grammar: %s", strerror(errno)); end_case(); }
	str ndump = slurp_stream([&](FILE *f) { ec_node_dump(f, b.root); });
	str cdump = config_dumps(b);
	struct Req { bool comp; Toks t; bool line; str text; str first; int runs = 0; bool big = false; };
	vec<Req> reqs;
	vec<Kept> kept;
	int nreq = r.range(2, 6);
	for (int i = 0; i < nreq; i++) {
		Req q; q.comp = r.coin(); q.t = q.comp ? gen_partial(r, g, o) : gen_input(r, g, o); q.line = r.chance(1, 4);
		if (q.line) { q.text = q.t.empty() ? "" : q.t[0].s; q.t = Toks{Tok{q.text, {}}}; }
		// bound the work with the reference
		Model m(g); m.budget = 3000;
		std::unique_ptr<MP> tr;
		if (q.comp) { m.complete(g.root, q.t); q.big = !m.items.empty(); } else q.big = m.parse(g.root, q.t, tr) != NOMATCH;
		reqs.push_back(q);
	}
	auto cleanup = [&] { for (auto &k : kept) { ec_pnode_free(k.p); ec_comp_free(k.c); } kept.clear(); };
	auto verify = [&](const char *after) {
		for (auto &k : kept) {
			str now = k.p ? ser(k.p, b) : comp_list(k.c, b);
			EXPECT("C08", "kept-result", now == k.want, "after %s the result of %s changed: now %s, was %s", after, k.req.c_str(), esc(now).c_str(), esc(k.want).c_str());
		}
		ev("kept results compared", kept.size());
	};
	int steps = r.range(10, thorough() ? 60 : 30);
	bool nt = false;
	for (int s = 0; s < steps; s++) {
		int op = r.range(0, 9);
		if (op <= 6) {
			Req &q = reqs[r.below(reqs.size())];
			str nm = str(q.comp ? "complete " : "parse ") + (q.line ? "text " : "") + show_toks(q.t);
			describe_append(" | %s", nm.c_str());
			Kept k; k.kind = q.comp; k.req = nm;
			str got;
			struct ec_strvec *v = make_strvec(q.t);
			LCHECK(v);
			if (q.comp) { k.c = q.line ? ec_complete(b.root, q.text.c_str()) : ec_complete_strvec(b.root, v); got = k.c ? comp_list(k.c, b) : "error"; }
			else { k.p = q.line ? ec_parse(b.root, q.text.c_str()) : ec_parse_strvec(b.root, v); got = k.p ? ser(k.p, b) : "error"; }
			EXPECT("C08", "input-changed", show_toks(read_strvec(v)) == show_toks(q.t), "the input vector was changed");
			if (q.runs++ == 0) q.first = got;
			else {
				EXPECT("C08", "repeat", got == q.first, "%s: answer %s, first answer %s", nm.c_str(), esc(got).c_str(), esc(q.first).c_str());
				ev("requests repeated");
				if (q.big && s > 1) nt = true;
			}
			k.want = got;
			if (k.p || k.c) kept.push_back(k);
			// change the input the result came from
			int how = r.range(0, 3);
			if (how == 1 && ec_strvec_len(v) > 0) { ec_strvec_set(v, r.below(ec_strvec_len(v)), "changed"); verify("changing the input"); }
			else if (how == 2 && ec_strvec_len(v) > 0) { ec_strvec_del_last(v); verify("shortening the input"); }
			else if (how == 3 && ec_strvec_len(v) > 0) { struct ec_dict *d = ec_dict(); ec_dict_set(d, "changed", NULL, NULL); ec_strvec_set_attrs(v, 0, d); verify("marking the input"); }
			ec_strvec_free(v);
			if (r.chance(1, 3)) verify("releasing the input");
		} else if (op == 7 && !kept.empty()) {
			size_t i = r.below(kept.size());
			describe_append(" | drop");
			ec_pnode_free(kept[i].p); ec_comp_free(kept[i].c);
			kept.erase(kept.begin() + (long)i);
			verify("releasing another result");
		} else if (op == 8 && !kept.empty()) {
			// modify a result: duplicates and annotations
			Kept &k = kept[r.below(kept.size())];
			if (k.p) {
				describe_append(" | dup and edit");
				struct ec_pnode *d = ec_pnode_dup(k.p);
				LCHECK(d);
				struct ec_dict *a = ec_pnode_get_attrs(d);
				if (a) ec_dict_set(a, "mark", NULL, NULL);
				if (ec_pnode_get_first_child(d)) ec_pnode_del_last_child(d);
				verify("editing a duplicate");
				ec_pnode_free(d);
				verify("releasing a duplicate");
				str dmp = slurp_stream([&](FILE *f) { ec_pnode_dump(f, k.p); });
				ev("tree dumps", !dmp.empty());
			} else {
				str dmp = slurp_stream([&](FILE *f) { ec_comp_dump(f, k.c); });
				ev("completion dumps", !dmp.empty());
			}
			verify("dumping a result");
		} else {
			describe_append(" | dump/desc");
			str d2 = slurp_stream([&](FILE *f) { ec_node_dump(f, b.root); });
			EXPECT("C08", "grammar-changed", d2 == ndump, "the dump of the grammar changed: %s, was %s", esc(d2).c_str(), esc(ndump).c_str());
			char *ds = ec_node_desc(b.root);
			if (ds) ec_free(ds);
			struct ec_node *f = ec_node_find(b.root, "id2");
			(void)f;
		}
		if (kept.size() > 8) { ec_pnode_free(kept[0].p); ec_comp_free(kept[0].c); kept.erase(kept.begin()); verify("releasing an old result"); }
	}
	verify("the whole history");
	str d2 = slurp_stream([&](FILE *f) { ec_node_dump(f, b.root); });
	EXPECT("C08", "grammar-changed", d2 == ndump, "the dump of the grammar changed: %s, was %s", esc(d2).c_str(), esc(ndump).c_str());
	EXPECT("C08", "config-changed", config_dumps(b) == cdump, "configurations of the grammar changed");
	// a grammar without history gives the same answers
	if (r.chance(1, 3)) {
		Built f;
		LCHECK(build(g, r, f, false));
		for (auto &q : reqs) {
			if (!q.runs) continue;
			struct ec_strvec *v = make_strvec(q.t);
			str got;
			if (q.comp) { struct ec_comp *c = q.line ? ec_complete(f.root, q.text.c_str()) : ec_complete_strvec(f.root, v); got = c ? comp_list(c, f) : "error"; ec_comp_free(c); }
			else { struct ec_pnode *p = q.line ? ec_parse(f.root, q.text.c_str()) : ec_parse_strvec(f.root, v); got = p ? ser(p, f) : "error"; ec_pnode_free(p); }
			ec_strvec_free(v);
			EXPECT("C08", "history", got == q.first, "a fresh grammar answers %s to %s; this one answered %s", esc(got).c_str(), show_toks(q.t).c_str(), esc(q.first).c_str());
			ev("answers compared with a grammar without history");
		}
		f.free_all();
	}
	if (nt) nontrivial(fnv(current_desc()));
	sample(current_desc());
	cleanup();
	b.free_all();
	lk.check("C02", "after releasing grammar and results");
}
