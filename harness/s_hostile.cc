// C01: API misuse that the library answers with an error or a harmless result: nodes that were never
// configured, wrong or missing arguments, extreme values.
#include "checks.h"

static const char *types[] = { "any", "bypass", "cmd", "cond", "dynamic", "empty", "expr", "file", "int", "many", "none", "once", "option", "or", "re", "re_lex", "seq", "sh_lex", "space", "str", "subset", "uint" };
SCENARIO(raw, "every node type created without configuration, alone or under random parents, then parsed, completed, dumped and described with random inputs; non-trivial = every case")
{
	(void)idx;
	LeakCheck lk;
	const char *t = types[r.below(sizeof types / sizeof *types)];
	describe("unconfigured %s", t);
	struct ec_node *n = ec_node(t, r.coin() ? "x" : EC_NO_ID);
	EXPECT("C01", "create", n != NULL, "cannot create a node of type %s", t);
	if (!n) return;
	int k = r.range(0, 6);
	struct ec_node *top = n;
	switch (k) {
	case 0: top = EC_NODE_SEQ("s", ec_node_str(EC_NO_ID, "a"), n); break;
	case 1: top = EC_NODE_OR("o", n, ec_node_str(EC_NO_ID, "a")); break;
	case 2: top = ec_node_many("m", n, 0, 3); break;
	case 3: top = ec_node_option("op", n); break;
	case 4: top = ec_node_sh_lex("sh", n); break;
	default: break;
	}
	LCHECK(top);
	describe_append(" in context %d", k);
	static const vec<str> w = {"", "a", "foo", "1", " ", "-", "'", "/"};
	for (int i = 0; i < 6; i++) {
		Toks in; int m = r.range(0, 3);
		for (int j = 0; j < m; j++) in.push_back(Tok{r.pick(w), {}});
		struct ec_strvec *v = make_strvec(in);
		ec_pnode_free(ec_parse_strvec(top, v));
		ec_comp_free(ec_complete_strvec(top, v));
		ec_strvec_free(v);
		ev("requests on unconfigured nodes");
	}
	slurp_stream([&](FILE *f) { ec_node_dump(f, top); });
	char *d = ec_node_desc(n);
	ec_free(d);
	(void)ec_node_get_config(n);
	size_t nc = ec_node_get_children_count(n);
	EXPECT("C15", "children", nc == 0, "an unconfigured %s reports %zu children", t, nc);
	for (size_t i : {nc, nc + 1, (size_t)SIZE_MAX}) {
		struct ec_node *c = NULL; unsigned refs;
		EXPECT("C15", "children", ec_node_get_child(n, i, &c, &refs) < 0 || c == NULL, "child number %zu of an unconfigured %s is reported", i, t);
	}
	nontrivial(fnv(current_desc()));
	ec_node_free(top);
	lk.check("C02", "unconfigured nodes");
}

// one misuse: refused (error / NULL) and everything it was given is released or untouched
SCENARIO(misuse, "every constructor and setter called with one wrong argument (missing child, text or identifier, node of another type, unknown type, malformed pattern), on a victim that is then used normally; refused calls must release what they consume and leave the victim unchanged; non-trivial = every case")
{
	(void)idx;
	LeakCheck lk;
	auto S = [] { return ec_node_str("k", "kid"); };
	struct ec_node *other = r.coin() ? ec_node_str("other", "o") : r.coin() ? ec_node("empty", "other") : ec_node_int("other", 0, 5, 10);
	struct ec_node *keep = S();
	LCHECK(other && keep);
	str before = slurp_stream([&](FILE *f) { ec_node_dump(f, other); });
	bool isstr = !strcmp(ec_node_get_type_name(other), "str");
	struct M { const char *name; std::function<bool()> f; };      // f: true when refused
	auto nil = [](struct ec_node *n) { bool z = n == NULL; ec_node_free(n); return z; };
	vec<M> ms = {
		{"seq_add on another type", [&] { return ec_node_seq_add(other, S()) < 0; }},
		{"or_add on another type", [&] { return ec_node_or_add(other, S()) < 0; }},
		{"subset_add on another type", [&] { return ec_node_subset_add(other, S()) < 0; }},
		{"bypass_set_child on another type", [&] { return ec_node_bypass_set_child(other, S()) < 0; }},
		{"once_set_child on another type", [&] { return ec_node_once_set_child(other, S()) < 0; }},
		{"option_set_child on another type", [&] { return ec_node_option_set_child(other, S()) < 0; }},
		{"many_set_params on another type", [&] { return ec_node_many_set_params(other, S(), 0, 1) < 0; }},
		{"re_set_regexp on another type", [&] { return ec_node_re_set_regexp(other, "a") < 0; }},
		{"str_set_str on another type", [&] { return isstr || ec_node_str_set_str(other, "a") < 0; }},
		{"re_lex_add on another type", [&] { return ec_node_re_lex_add(other, "a", 1, NULL) < 0; }},
		{"expr_set_val_node on another type", [&] { return ec_node_expr_set_val_node(other, S()) < 0; }},
		{"expr_add_bin_op on another type", [&] { return ec_node_expr_add_bin_op(other, S()) < 0; }},
		{"expr_add_pre_op on another type", [&] { return ec_node_expr_add_pre_op(other, S()) < 0; }},
		{"expr_add_post_op on another type", [&] { return ec_node_expr_add_post_op(other, S()) < 0; }},
		{"expr_add_parenthesis on another type", [&] { return ec_node_expr_add_parenthesis(other, S(), S()) < 0; }},
		{"seq_add without child", [&] { struct ec_node *n = ec_node("seq", "n"); bool z = ec_node_seq_add(n, NULL) < 0 && ec_node_get_children_count(n) == 0; ec_node_free(n); return z; }},
		{"or_add without child", [&] { struct ec_node *n = ec_node("or", "n"); bool z = ec_node_or_add(n, NULL) < 0 && ec_node_get_children_count(n) == 0; ec_node_free(n); return z; }},
		{"subset_add without child", [&] { struct ec_node *n = ec_node("subset", "n"); bool z = ec_node_subset_add(n, NULL) < 0 && ec_node_get_children_count(n) == 0; ec_node_free(n); return z; }},
		{"seq with a missing child", [&] { return nil(EC_NODE_SEQ("n", S(), NULL, ec_node_clone(keep))); }},
		{"or with a missing child", [&] { return nil(EC_NODE_OR("n", NULL, S(), ec_node_clone(keep))); }},
		{"subset with a missing child", [&] { return nil(EC_NODE_SUBSET("n", ec_node_clone(keep), S(), NULL)); }},
		{"cmd with a missing child", [&] { return nil(EC_NODE_CMD("n", "a b", ec_node_clone(keep), NULL, S())); }},
		{"many without child", [&] { return nil(ec_node_many("n", NULL, 0, 0)); }},
		{"option without child", [&] { return nil(ec_node_option("n", NULL)); }},
		{"once without child", [&] { return nil(ec_node_once("n", NULL)); }},
		{"bypass without child", [&] { return nil(ec_node_bypass("n", NULL)); }},
		{"sh_lex without child", [&] { return nil(ec_node_sh_lex("n", NULL)); }},
		{"re_lex without child", [&] { return nil(ec_node_re_lex("n", NULL)); }},
		{"cond without child", [&] { return nil(ec_node_cond("n", "1", NULL)); }},
		{"cond without text", [&] { return nil(ec_node_cond("n", NULL, S())); }},
		{"cmd without text", [&] { return nil(EC_NODE_CMD("n", NULL, S())); }},
		{"str without text", [&] { return nil(ec_node_str("n", NULL)); }},
		{"re without pattern", [&] { return nil(ec_node_re("n", NULL)); }},
		{"re with a malformed pattern", [&] { return nil(ec_node_re("n", r.pick(vec<str>{"(", "[a", "a{2,1}", "*a(", "\\"}).c_str())); }},
		{"re_lex_add with a malformed pattern", [&] { struct ec_node *n = ec_node_re_lex("n", S()); LCHECK(n); bool z = ec_node_re_lex_add(n, "(", 1, "x") < 0; ec_node_free(n); return z; }},
		{"unknown type", [&] { return nil(ec_node("nosuchtype", "n")); }},
		{"no identifier", [&] { return nil(ec_node("seq", NULL)); }},
		{"str without identifier", [&] { return nil(ec_node_str(NULL, "a")); }},
		{"many without identifier", [&] { return nil(ec_node_many(NULL, S(), 0, 0)); }},
		{"seq without identifier", [&] { return nil(EC_NODE_SEQ(NULL, S(), S())); }},
		{"subset without identifier", [&] { return nil(EC_NODE_SUBSET(NULL, S(), S())); }},
		{"or without identifier", [&] { return nil(EC_NODE_OR(NULL, S(), S())); }},
		{"cmd without identifier", [&] { return nil(EC_NODE_CMD(NULL, "a b", S())); }},
		{"cond without identifier", [&] { return nil(ec_node_cond(NULL, "1", S())); }},
		{"option without identifier", [&] { return nil(ec_node_option(NULL, S())); }},
		{"once without identifier", [&] { return nil(ec_node_once(NULL, S())); }},
		{"bypass without identifier", [&] { return nil(ec_node_bypass(NULL, S())); }},
		{"sh_lex without identifier", [&] { return nil(ec_node_sh_lex(NULL, S())); }},
		{"re_lex without identifier", [&] { return nil(ec_node_re_lex(NULL, S())); }},
		{"int without identifier", [&] { return nil(ec_node_int(NULL, 0, 1, 0)); }},
		{"dynamic without builder", [&] { return nil(ec_node_dynamic("n", NULL, NULL)); }},
		{"expression without value", [&] { struct ec_node *n = ec_node("expr", "n"); bool z = ec_node_expr_set_val_node(n, NULL) < 0; ec_node_free(n); return z; }},
		{"expression without operator", [&] { struct ec_node *n = ec_node("expr", "n"); bool z = ec_node_expr_add_bin_op(n, NULL) < 0 && ec_node_expr_add_pre_op(n, NULL) < 0 && ec_node_expr_add_post_op(n, NULL) < 0; ec_node_free(n); return z; }},
		{"half a parenthesis", [&] { struct ec_node *n = ec_node("expr", "n"); bool z = (r.coin() ? ec_node_expr_add_parenthesis(n, S(), NULL) : ec_node_expr_add_parenthesis(n, NULL, S())) < 0; ec_node_free(n); return z; }},
		{"integer value of something else", [&] { int64_t v; uint64_t u; struct ec_node *n = ec_node_int("n", 0, 9, 10); bool z = ec_node_int_getval(n, "12x", &v) < 0 && ec_node_int_getval(n, "", &v) < 0 && ec_node_uint_getval(n, "1", &u) < 0; ec_node_free(n); return z; }},
		{"configuration of a node without schema", [&] { struct ec_node *n = ec_node("empty", "n"); bool z = ec_node_set_config(n, ec_config_dict()) < 0; ec_node_free(n); return z; }},
		{"configuration that is not a dictionary", [&] { struct ec_node *n = ec_node("str", "n"); bool z = ec_node_set_config(n, ec_config_string("a")) < 0; ec_node_free(n); return z; }},
		{"parse with no grammar", [&] { struct ec_strvec *v = ec_strvec(); struct ec_pnode *p = ec_parse_strvec(NULL, v); ec_strvec_free(v); bool z = p == NULL; ec_pnode_free(p); return z; }},
		{"complete with no grammar", [&] { struct ec_strvec *v = ec_strvec(); struct ec_comp *p = ec_complete_strvec(NULL, v); ec_strvec_free(v); bool z = p == NULL; ec_comp_free(p); return z; }},
		{"parse with no text", [&] { struct ec_pnode *p = ec_parse(keep, NULL); bool z = p == NULL; ec_pnode_free(p); return z; }},
		{"complete with no text", [&] { struct ec_comp *p = ec_complete(keep, NULL); bool z = p == NULL; ec_comp_free(p); return z; }},
	};
	int n = r.range(1, 4);
	for (int i = 0; i < n; i++) {
		const M &m = r.pick(ms);
		describe("misuse: %s (other = %s)", m.name, ec_node_get_type_name(other));
		errno = 0;
		bool refused = m.f();
		for (auto pr : {"C01", "C15"}) EXPECT(pr, "accepted", refused, "%s was not refused", m.name);
		ev("misuses refused");
		for (auto pr : {"C01", "C15"}) EXPECT(pr, "victim", slurp_stream([&](FILE *f) { ec_node_dump(f, other); }) == before, "%s changed the node it was applied to", m.name);
		struct ec_pnode *p = ec_parse(keep, "kid");
		EXPECT("C01", "bystander", p && ec_pnode_matches(p), "%s damaged another node", m.name);
		ec_pnode_free(p);
		nontrivial(fnv(m.name));
	}
	sample(current_desc());
	ec_node_free(other); ec_node_free(keep);
	for (auto pr : {"C02", "C01", "C15", "C16"}) lk.check(pr, current_desc().c_str());
}
