// C29: a documented failure leaves errno set; a stored NULL is told apart from an absent key.
#include "checks.h"
#include <unistd.h>
#include <sys/stat.h>

namespace {
struct Bad {
	const char *name;
	std::function<bool()> f;      // true when the call reported a failure
};
struct ec_node **to_table(const struct ec_config *c) { size_t n; return ec_node_config_node_list_to_table(c, &n); }
struct ec_config *node_list(int n, ...) { va_list ap; va_start(ap, n); struct ec_config *c = ec_node_config_node_list_from_vargs(ap); va_end(ap); return c; }
int bad_parse(const struct ec_node *, struct ec_pnode *, const struct ec_strvec *) { errno = EPROTO; return -1; }
int bad_complete(const struct ec_node *, struct ec_comp *, const struct ec_strvec *) { errno = EPROTO; return -1; }
struct ec_node_type t_bad, t_dumb;
void types()
{
	static bool done = false;
	if (done) return;
	done = true;
	t_bad.name = "e-bad"; t_bad.parse = bad_parse; t_bad.complete = bad_complete;
	t_dumb.name = "e-dumb";
	LCHECK(ec_node_type_register(&t_bad, false) == 0 && ec_node_type_register(&t_dumb, false) == 0);
}
struct ec_node *wrap(Rng &r, struct ec_node *n)
{
	for (int d = r.range(0, 4); d > 0 && n; d--) switch (r.range(0, 7)) {
		case 0: n = EC_NODE_SEQ("q", ec_node("empty", "e"), n); break;
		case 1: n = EC_NODE_OR("o", ec_node_str("z", "zzz"), n); break;
		case 2: n = ec_node_many("m", n, 0, 0); break;
		case 3: n = ec_node_option("p", n); break;
		case 4: n = ec_node_once("1", n); break;
		case 5: n = EC_NODE_SUBSET("u", ec_node_str("z", "zzz"), n); break;
		case 6: n = ec_node_sh_lex("l", n); break;
		case 7: n = ec_node_bypass("b", n); break;
	}
	LCHECK(n);
	return n;
}
} // namespace

SCENARIO(errno, "calls that must be refused, on random objects of every kind, each with errno cleared before; stored NULL values looked up with a stale errno; non-trivial = every case")
{
	(void)idx;
	types();
	LeakCheck lk;
	// random objects
	vec<str> words; struct ec_strvec *sv = ec_strvec();
	LCHECK(sv);
	for (int i = r.range(0, 5); i > 0; i--) { words.push_back(rnd_str(r, 6)); LCHECK(ec_strvec_add(sv, words.back().c_str()) == 0); }
	struct ec_htable *ht = ec_htable(); struct ec_dict *di = ec_dict();
	LCHECK(ht && di);
	std::map<str, bool> keys;   // value is NULL?
	for (int i = r.chance(1, 4) ? 0 : r.range(0, 20); i > 0; i--) {
		str k = rnd_str(r, 5); bool nul = r.chance(1, 3);
		keys[k] = nul;
		LCHECK(ec_dict_set(di, k.c_str(), nul ? NULL : (void *)di, NULL) == 0);
		LCHECK(ec_htable_set(ht, k.c_str(), k.size() + 1, nul ? NULL : (void *)ht, NULL) == 0);
	}
	str absent; do absent = rnd_str(r, 5); while (keys.count(absent));
	struct ec_config *sc = NULL;
	switch (r.range(0, 4)) {
	case 0: sc = ec_config_bool(true); break;
	case 1: sc = ec_config_i64(-3); break;
	case 2: sc = ec_config_u64(3); break;
	case 3: sc = ec_config_string("s"); break;
	case 4: sc = ec_config_node(ec_node_str("x", "x")); break;
	}
	struct ec_config *cl = ec_config_list(), *cd = ec_config_dict(), *stray = ec_config_i64(1);
	LCHECK(sc && cl && cd && stray);
	for (int i = r.range(0, 3); i > 0; i--) { LCHECK(ec_config_list_add(cl, ec_config_i64(i)) == 0); LCHECK(ec_config_dict_set(cd, ("k" + std::to_string(i)).c_str(), ec_config_i64(i)) == 0); }
	struct ec_config *scalar_or_dict = r.coin() ? sc : cd, *scalar_or_list = r.coin() ? sc : cl;
	struct ec_node *nd = wrap(r, ec_node_str("s", "foo"));
	struct ec_node *bad = wrap(r, ec_node("e-bad", "n")), *dumb = wrap(r, ec_node("e-dumb", "n"));
	struct ec_comp *co = ec_complete(nd, "");
	LCHECK(co);
	size_t past = ec_strvec_len(sv) + (r.coin() ? 0 : r.chance(1, 3) ? SIZE_MAX / 2 : r.below(5));
	struct ec_comp_item *unk = (struct ec_comp_item *)ec_comp_iter_first(co, EC_COMP_UNKNOWN), *full = (struct ec_comp_item *)ec_comp_iter_first(co, EC_COMP_FULL);
	static const struct ec_config_schema ok_schema[] = { { "k1", "d", EC_CONFIG_TYPE_STRING, NULL }, { NULL, NULL, EC_CONFIG_TYPE_NONE, NULL } };
	// numbers
	str num; int64_t imin = INT64_MIN, imax = INT64_MAX; uint64_t umin = 0, umax = UINT64_MAX;
	static const vec<str> junk = {"", "-", "+", "x", "1x", "12 ", "--1", "1-", "0x", "99999999999999999999", "184467440737095516150", " ", "1 2", "\xff", "-1x"};
	static const vec<str> neg = {"-1", "-0", " -5", "-99999999999999999999", "-18446744073709551616"};
	int nk = r.range(0, 3);
	if (nk == 0) num = r.pick(junk);
	else if (nk == 1) { num = r.pick(neg); imin = 0; imax = 10; if (num == "-0") imin = 1; }
	else if (nk == 2) { num = "7"; imin = 8; umin = 8; }
	else { num = "7"; imax = 6; umax = 6; }
	str quote; { static const vec<str> u = {"'", "\"", "a 'b", "\"\\\"", "x\\", "'a' \"b c", "a\"'"}; quote = r.pick(u); }
	str ypath = scratch_dir() + "/errno.yaml";
	auto yaml = [&](const char *t) {
		FILE *f = fopen(ypath.c_str(), "w"); HCHECK(f); fputs(t, f); fclose(f);
		return true;
	};
	static const vec<const char *> docs = {
		"", "[", "- a\n- b\n", "type: nosuch\n", "string: a\n", "type: str\nstring: a\nfoo: b\n", "type: str\nstring: [a]\n", "type: str\nstring: {a: b}\n",
		"type: int\nmin: x\n", "type: int\nmin: [1]\n", "type: uint\nmin: -1\n", "type: uint\nmin: 1x\n", "type: uint\nmin: 99999999999999999999999\n", "type: uint\nbase: ''\n",
		"type: str\ntype: str\nstring: a\n", "type: str\nid: a\nid: b\nstring: a\n", "type: str\nhelp: a\nhelp: b\nstring: a\n", "type: str\nattrs: {a: b}\nattrs: {}\nstring: a\n",
		"type: [str]\n", "type: str\nid: [a]\nstring: a\n", "type: str\nhelp: {}\nstring: a\n", "type: str\nattrs: a\nstring: a\n", "type: str\nattrs: {a: [b]}\nstring: a\n", "type: str\nattrs: {[a]: b}\nstring: a\n",
		"[a]: b\n", "type: seq\nchildren: a\n", "type: seq\nchildren: [a]\n", "type: seq\nchildren:\n- type: str\n  string: [1]\n", "type: re_lex\nchild: {type: any}\npatterns: [{pattern: a, keep: maybe}]\n",
		"type: empty\nfoo: bar\n", "a: *x\n", "type: many\nchild: {type: any}\nmin: []\n", "type: option\n", "{type: option, child: {type: option, child: 3}}", "'", "\t", "type: any\nattr: [x]\n", "type: re\npattern: '('\n", "\xff\xfe", "type: space\nx: y\n"
	};
	const char *doc = r.pick(docs);
	vec<Bad> ops = {
		{"word at an index past the end replaced", [&] { return ec_strvec_set(sv, past, "x") < 0; }},
		{"attributes of a word past the end", [&] { return ec_strvec_set_attrs(sv, past, ec_dict()) < 0; }},
		{"slice past the end", [&] { struct ec_strvec *v = ec_strvec_ndup(sv, ec_strvec_len(sv) + 1 + r.below(3), r.below(3)); bool z = !v; ec_strvec_free(v); return z; }},
		{"slice longer than what remains", [&] { size_t o = r.below(ec_strvec_len(sv) + 1); struct ec_strvec *v = ec_strvec_ndup(sv, o, ec_strvec_len(sv) - o + 1 + r.below(9)); bool z = !v; ec_strvec_free(v); return z; }},
		{"last word of an empty vector removed", [&] { struct ec_strvec *v = ec_strvec(); errno = 0; bool z = ec_strvec_del_last(v) < 0; int e = errno; ec_strvec_free(v); errno = e; return z; }},
		{"unterminated line", [&] { char q; struct ec_strvec *v = ec_strvec_sh_lex_str(quote.c_str(), r.coin() ? EC_STRVEC_STRICT : (ec_strvec_flag_t)(EC_STRVEC_STRICT | EC_STRVEC_TRAILSP), r.coin() ? &q : NULL); bool z = !v; ec_strvec_free(v); return z; }},
		{"absent key of a dictionary", [&] { return ec_dict_get(di, absent.c_str()) == NULL; }},
		{"absent key of a dictionary removed", [&] { return ec_dict_del(di, absent.c_str()) < 0; }},
		{"absent key of a table", [&] { return ec_htable_get(ht, absent.c_str(), absent.size() + 1) == NULL; }},
		{"absent key of a table removed", [&] { return ec_htable_del(ht, absent.c_str(), absent.size() + 1) < 0; }},
		{"key of a table with another length", [&] { str k = keys.empty() ? absent : keys.begin()->first; k += "\1"; while (keys.count(k)) k += "\1"; return ec_htable_get(ht, k.c_str(), k.size()) == NULL && ec_htable_del(ht, k.c_str(), k.size()) < 0; }},
		{"lookup without key", [&] { return ec_dict_get(di, NULL) == NULL; }},
		{"number", [&] { int64_t v; return ec_str_parse_llint(num.c_str(), 10, imin, imax, &v) < 0; }},
		{"unsigned number", [&] { uint64_t v; return ec_str_parse_ullint(num.c_str(), 10, umin, umax, &v) < 0; }},
		{"element added to what is not a list", [&] { return ec_config_list_add(scalar_or_dict, ec_config_i64(1)) < 0; }},
		{"missing element added to a list", [&] { return ec_config_list_add(cl, NULL) < 0; }},
		{"element removed from what is not a list", [&] { return ec_config_list_del(scalar_or_dict, stray) < 0; }},
		{"elements of a scalar counted", [&] { return ec_config_count(sc) < 0; }},
		{"first element of what is not a list", [&] { return ec_config_list_first(scalar_or_dict) == NULL; }},
		{"value stored in what is not a dictionary", [&] { return ec_config_dict_set(scalar_or_list, "k", ec_config_i64(1)) < 0; }},
		{"value stored without key", [&] { return ec_config_dict_set(cd, NULL, ec_config_i64(1)) < 0; }},
		{"missing value stored", [&] { return ec_config_dict_set(cd, "k", NULL) < 0; }},
		{"absent key removed", [&] { return ec_config_dict_del(cd, "absent") < 0; }},
		{"key of what is not a dictionary removed", [&] { return ec_config_dict_del(scalar_or_list, "k1") < 0; }},
		{"what is not a dictionary validated", [&] { return ec_config_validate(scalar_or_list, ok_schema) < 0; }},
		{"validation without schema", [&] { return ec_config_validate(cd, NULL) < 0; }},
		{"validation of an ill-typed or unknown key", [&] { struct ec_config *c = ec_config_dict(); ec_config_dict_set(c, r.coin() ? "k1" : "k9", ec_config_i64(1)); errno = 0; bool z = ec_config_validate(c, ok_schema) < 0; int e = errno; ec_config_free(c); errno = e; return z; }},
		{"string without text", [&] { struct ec_config *c = ec_config_string(NULL); bool z = !c; ec_config_free(c); return z; }},
		{"node value without node", [&] { struct ec_config *c = ec_config_node(NULL); bool z = !c; ec_config_free(c); return z; }},
		{"nodes of what is not a list", [&] { return to_table(scalar_or_dict) == NULL; }},
		{"nodes of no configuration", [&] { return to_table(NULL) == NULL; }},
		{"nodes of a list of something else", [&] { struct ec_config *c = ec_config_list(); for (int i = r.range(0, 2); i > 0; i--) ec_config_list_add(c, ec_config_node(ec_node_str("a", "a"))); ec_config_list_add(c, ec_config_i64(1)); errno = 0; bool z = to_table(c) == NULL; int e = errno; ec_config_free(c); errno = e; return z; }},
		{"word without text added", [&] { return ec_strvec_add(sv, NULL) < 0; }},
		{"word replaced by no text", [&] { return ec_strvec_set(sv, r.below(ec_strvec_len(sv) + 1), NULL) < 0; }},
		{"array with a missing word", [&] { const char *a[3] = { "a", "b", "c" }; a[r.below(3)] = NULL; struct ec_strvec *v = ec_strvec_from_array(a, 3); bool z = !v; ec_strvec_free(v); return z; }},
		{"copy of no configuration", [&] { return ec_config_dup(NULL) == NULL; }},
		{"copy of no tree", [&] { return ec_pnode_dup(NULL) == NULL; }},
		{"use of no configuration", [&] { switch (r.range(0, 2)) { case 0: return ec_config_list_add(NULL, ec_config_i64(1)) < 0; case 1: return ec_config_dict_set(NULL, "k", ec_config_i64(1)) < 0; default: return ec_config_dict_del(NULL, "k") < 0; } }},
		{"list with a missing node", [&] { struct ec_node *a = ec_node_str("a", "a"), *b = ec_node_str("b", "b"), *m = NULL; errno = 0; struct ec_config *c = r.coin() ? node_list(0, a, m, b, EC_VA_END) : r.coin() ? node_list(0, m, a, b, EC_VA_END) : node_list(0, a, b, m, EC_VA_END); bool z = !c; ec_config_free(c); return z; }},
		{"parse without grammar", [&] { struct ec_pnode *p = ec_parse_strvec(NULL, sv); bool z = !p; ec_pnode_free(p); return z; }},
		{"parse of no text", [&] { struct ec_pnode *p = ec_parse(nd, NULL); bool z = !p; ec_pnode_free(p); return z; }},
		{"completion without grammar", [&] { struct ec_comp *c = ec_complete_strvec(NULL, sv); bool z = !c; ec_comp_free(c); return z; }},
		{"completion of no text", [&] { struct ec_comp *c = ec_complete(nd, NULL); bool z = !c; ec_comp_free(c); return z; }},
		{"parse with a failing callback", [&] { struct ec_pnode *p = ec_parse(bad, "foo"); bool z = !p; ec_pnode_free(p); return z; }},
		{"completion with a failing callback", [&] { struct ec_comp *c = ec_complete(bad, "foo"); bool z = !c; ec_comp_free(c); return z; }},
		{"parse with a type that cannot", [&] { struct ec_pnode *p = ec_parse(dumb, "foo"); bool z = !p; ec_pnode_free(p); return z; }},
		{"item given no text", [&] { return !full || (ec_comp_item_set_str(full, NULL) < 0); }},
		{"item given no display", [&] { return !full || (ec_comp_item_set_display(full, NULL) < 0); }},
		{"item given no completion", [&] { return !full || (ec_comp_item_set_completion(full, NULL) < 0); }},
		{"unknown item given a text", [&] { return !unk || (ec_comp_item_set_str(unk, "x") < 0); }},
		{"unknown item given a display", [&] { return !unk || (ec_comp_item_set_display(unk, "x") < 0); }},
		{"unknown item given a completion", [&] { return !unk || (ec_comp_item_set_completion(unk, "x") < 0); }},
		{"allocator replaced after start-up", [&] { return ec_malloc_register(r.coin() ? NULL : (ec_malloc_t)1, NULL, NULL) < 0; }},
		{"unreadable document", [&] { struct ec_node *n = ec_yaml_import((scratch_dir() + (r.coin() ? "/no/such" : "")).c_str()); bool z = !n; ec_node_free(n); return z; }},
		{"document", [&] { yaml(doc); errno = 0; struct ec_node *n = ec_yaml_import(ypath.c_str()); bool z = !n; ec_node_free(n); return z; }},
	};
	// fd 2 silenced while documents are refused
	fflush(stderr); int save = dup(2); { FILE *n = fopen("/dev/null", "w"); HCHECK(n); dup2(fileno(n), 2); fclose(n); }
	struct Back { int fd; ~Back() { fflush(stderr); dup2(fd, 2); close(fd); } } back{save};
	for (int i = r.range(4, 10); i > 0; i--) {
		const Bad &b = r.pick(ops);
		bool isnum = strstr(b.name, "number"), isdoc = !strcmp(b.name, "document");
		if (!full && strstr(b.name, "item given")) continue;
		if (!unk && strstr(b.name, "unknown item")) continue;
		describe("refusal: %s%s", b.name, isnum ? (" '" + esc(num) + "'").c_str() : isdoc ? (" " + esc(doc)).c_str() : "");
		errno = 0;
		bool failed = b.f();
		int e = errno;
		EXPECT("C29", "accepted", failed, "%s was not refused", b.name);
		EXPECT("C29", "errno", e != 0, "%s was refused and errno is not set", b.name);
		ev("refusals that set errno");
		ev((str("refused: ") + b.name).c_str());
		nontrivial(fnv(str(b.name) + (isnum ? num + std::to_string(nk) : isdoc ? str(doc) : absent)));
	}
	// a NULL value is not an absent one
	for (auto &k : keys) {
		describe("lookup of '%s' holding %s", esc(k.first).c_str(), k.second ? "NULL" : "a value");
		int st = r.coin() ? ENOENT : 0;
		errno = st;
		void *p = ec_dict_get(di, k.first.c_str());
		int e = errno;
		EXPECT("C29", "null-value", p == (k.second ? NULL : (void *)di), "wrong value");
		if (k.second) EXPECT("C29", "null-value", e == 0, "a stored NULL found in a dictionary leaves errno at %d", e);
		errno = st;
		p = ec_htable_get(ht, k.first.c_str(), k.first.size() + 1);
		e = errno;
		EXPECT("C29", "null-value", p == (k.second ? NULL : (void *)ht), "wrong value");
		if (k.second) { EXPECT("C29", "null-value", e == 0, "a stored NULL found in a table leaves errno at %d", e); ev("stored NULL values found"); }
	}
	sample(current_desc());
	ec_comp_free(co);
	ec_node_free(nd); ec_node_free(bad); ec_node_free(dumb);
	ec_config_free(sc); ec_config_free(cl); ec_config_free(cd); ec_config_free(stray);
	ec_htable_free(ht); ec_dict_free(di); ec_strvec_free(sv);
	unlink(ypath.c_str());
	lk.check("C02", "refused calls");
}
