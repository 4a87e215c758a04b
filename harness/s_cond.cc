// C19: conditional nodes. Grammars rich in conditional nodes, whose conditions inspect the parse made so
// far, against a reference evaluator; syntax and reconfiguration of conditions.
#include "checks.h"

SCENARIO(cond, "random grammars where about a third of the containers are conditional nodes with random well-typed (and sometimes ill-typed) conditions over root/current/find/first_child/count/cmp/bool/or/and; parse trees and completions compared with the reference; condition texts mutated and the accept/refuse decision compared with a reference reader; non-trivial = a condition was evaluated both true and false, or an evaluation error was reported")
{
	(void)idx;
	LeakCheck lk;
	PropAs as({"C19", "C02", "C01"});
	// configuration: syntax decision, refused ones leave the node as it was
	if (r.chance(1, 3)) {
		struct ec_node *n = NULL; str cur;
		int k = r.range(1, 5);
		for (int i = 0; i < k; i++) {
			str c = gen_cond(r, r.range(0, 3), true);
			if (r.coin()) {
				static const vec<str> bits = {"(", ")", ",", "1", "a", "root()", "-", ".", " ", "\"", "\n", "9a", "#"};
				int m = r.range(1, 3);
				for (int j = 0; j < m; j++) { if (r.coin() && !c.empty()) c.erase(r.below(c.size()), 1); else c.insert(r.below(c.size() + 1), r.pick(bits)); }
			}
			bool want = cond_syntax(c);
			describe("condition '%s' after '%s'", esc(c).c_str(), esc(cur).c_str());
			struct ec_node *child = ec_node_str("kid", "a");
			LCHECK(child);
			bool ok;
			if (!n || r.chance(1, 3)) {
				struct ec_node *m = ec_node_cond("c", c.c_str(), child);
				ok = m != NULL;
				if (m) { ec_node_free(n); n = m; }
			} else {
				struct ec_config *d = ec_config_dict();
				LCHECK(ec_config_dict_set(d, "expr", ec_config_string(c.c_str())) == 0 && ec_config_dict_set(d, "child", ec_config_node(child)) == 0);
				ok = ec_node_set_config(n, d) == 0;
			}
			EXPECT("C19", "syntax", ok == want, "condition '%s' %s", esc(c).c_str(), ok ? "accepted although malformed" : "refused although well formed");
			ev(ok ? "conditions accepted" : "conditions refused");
			if (ok) { cur = c; nontrivial(fnv(c)); }
			if (n) {
				const struct ec_config *cf = ec_node_get_config(n);
				const struct ec_config *e = cf ? ec_config_dict_get(cf, "expr") : NULL;
				EXPECT("C19", "config", e && cur == e->string, "configured condition is '%s', last accepted one is '%s'", e ? esc(e->string).c_str() : "(none)", esc(cur).c_str());
				// behaviour of the condition in force, on the simplest tree
				Gram g; GN a; a.t = T_STR; a.s = "a"; a.id = "kid"; int ka = g.add(a); GN q; q.t = T_COND; q.s = cur; q.id = "c"; q.ch = {ka}; g.root = g.add(q);
				int w; bool err = false;
				std::unique_ptr<MP> tr; Model m(g);
				try { w = m.parse(g.root, toks_of({"a"}), tr); } catch (CondErr &) { err = true; w = NOMATCH; }
				struct ec_pnode *p = ec_parse(n, "a");
				if (err) EXPECT("C19", "eval-error", p == NULL, "a condition that cannot be evaluated did not make the parse fail");
				else { EXPECT("C19", "eval", p != NULL, "parse failed: %s", strerror(errno)); if (p) EXPECT("C19", "eval", ec_pnode_matches(p) == (w != NOMATCH), "node %s although its condition is %s", ec_pnode_matches(p) ? "matches" : "does not match", w != NOMATCH ? "true" : "false"); }
				ec_pnode_free(p);
				ev("conditions evaluated on a simple tree");
			}
		}
		ec_node_free(n);
		sample(current_desc());
		lk.check("C02", "conditional nodes");
		return;
	}
	GenOpt o;
	o.max_nodes = r.range(3, 18); o.max_depth = r.range(2, 6); o.lexers = r.chance(1, 4); o.cycles = r.chance(1, 3);
	o.file = false; o.cond = r.range(20, 60); o.cond_err = r.chance(1, 4);
	o.words = r.coin() ? vec<str>{"a", "b"} : vec<str>{"a", "b", "foo", "ab", ""};
	Gram g = gen_gram(r, o);
	str head = g.show();
	describe("%s", head.c_str());
	Built b;
	if (!build(g, r, b)) { violate("C19", "build", "cannot build a valid grammar (node #%d): %s", b.failed, strerror(errno)); end_case(); }
	int n = thorough() ? 10 : 6;
	for (int i = 0; i < n; i++) {
		Toks in = gen_input(r, g, o);
		describe("%s | parse %s", head.c_str(), show_toks(in).c_str());
		bool err = false;
		{ Model m(g); m.budget = thorough() ? 60000 : 15000; std::unique_ptr<MP> tr; try { m.parse(g.root, in, tr); } catch (CondErr &) { err = true; } }
		if (err) {
			ParseRes o2 = run_parse(b, in);
			EXPECT("C19", "eval-error", o2.p == NULL, "a condition that cannot be evaluated did not make the parse fail");
			ec_pnode_free(o2.p);
			ev("evaluation errors reported by the parse");
			nontrivial(fnv(head + show_toks(in)));
		} else { describe("%s", head.c_str()); check_parse(r, g, b, in, r.chance(1, 4)); }
		describe("%s", head.c_str());
		in = gen_partial(r, g, o);
		err = false;
		{ Model m(g); m.budget = thorough() ? 20000 : 5000; try { m.complete(g.root, in); } catch (CondErr &) { err = true; } }
		if (err) { describe("%s | complete %s", head.c_str(), show_toks(in).c_str()); struct ec_strvec *v = make_strvec(in); ec_comp_free(ec_complete_strvec(b.root, v)); ec_strvec_free(v); }
		else check_complete(g, b, in);
	}
	sample(current_desc());
	b.free_all();
	lk.check("C02", "conditional nodes");
}
