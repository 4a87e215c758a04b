// C26: node types defined by an application. Some nodes of a random grammar are instances of types
// registered by the harness that mean the same as str, any, seq, or and option but are written against
// the public node API only. The grammar must behave like the reference, every callback must be
// given what the API documents, and verdicts, errors, items and attributes must come out as returned.
#include "checks.h"

namespace {
struct Priv {
	unsigned char zero[24];          // must be zero when the initialiser runs
	uint64_t magic;
	char *text;                      // x-str
	struct ec_node **tab; size_t len;  // x-seq, x-or, x-option
	bool from_cfg;
	unsigned char tail[5];           // odd size: the last byte is part of the area
};
enum { MAGIC = 0x5eed5eed };
struct Env {
	Rng *r = NULL;
	std::set<const struct ec_node *> live;
	uint64_t inits = 0, frees = 0, cfgs = 0, parses = 0, completes = 0;
	int fail_init = 0;
	int64_t fail_at = -1; int fail_kind = 0; bool failed = false;   // the n-th callback fails
	int64_t calls = 0;
	int attr_live = 0;               // attributes handed to the library and not yet released
	bool fancy = false;              // completion items are edited after they were added
	bool faults = false;             // an item is first added while memory is exhausted
	const void *noparse = NULL;
} *E;

#define SOFT(oracle, cond, ...) do { if (!(cond)) violate_soft("C26", oracle, __VA_ARGS__); } while (0)
Priv *priv(const struct ec_node *n) { return (Priv *)ec_node_priv(n); }

int x_init(struct ec_node *n)
{
	Priv *p = priv(n);
	const unsigned char *b = (const unsigned char *)p;
	for (size_t i = 0; i < sizeof *p; i++) SOFT("private-area", b[i] == 0, "byte %zu of a fresh private area is %d", i, b[i]);
	if (E->fail_init && --E->fail_init == 0) { errno = EPROTO; return -1; }
	p->magic = MAGIC;
	memset(p->tail, 0x77, sizeof p->tail);
	E->inits++;
	SOFT("init-once", E->live.insert(n).second, "a node was initialised twice");
	return 0;
}
void x_free(struct ec_node *n)
{
	Priv *p = priv(n);
	E->frees++;
	SOFT("free-once", E->live.erase(n) == 1 && p->magic == MAGIC, "the release callback ran for a node that is not live");
	for (size_t i = 0; i < p->len; i++) ec_node_free(p->tab[i]);
	ec_free(p->tab); p->tab = NULL; p->len = 0;
	ec_free(p->text); p->text = NULL;
}
bool gone_wrong(int &ret, int over)
{
	if (++E->calls != E->fail_at) return false;
	E->failed = true;
	if (E->fail_kind == 0) { errno = EPROTO; ret = -1; } else if (E->fail_kind == 1) { errno = EPROTO; ret = -7; } else { ret = over; if (over < 0) errno = EPROTO; }
	return true;
}
void attr_free(void *v) { free(v); E->attr_live--; }
void note_attr(struct ec_dict *d, const struct ec_node *n)
{
	if (!d) { SOFT("attrs", false, "no attribute dictionary"); return; }
	void **v = (void **)malloc(sizeof *v); *v = (void *)n;
	E->attr_live++;
	ec_dict_set(d, "x-issuer", v, attr_free);
}
void enter_parse(const struct ec_node *n, struct ec_pnode *ps)
{
	E->parses++;
	SOFT("node", priv(n)->magic == MAGIC && E->live.count(n), "a callback was given a node that is not live");
	SOFT("state", ec_pnode_get_node(ps) == n, "the parse state is at another node");
	SOFT("state", ec_pnode_get_first_child(ps) == NULL, "the parse state already has children");
	SOFT("state", ec_pnode_get_strvec(ps) == NULL, "the parse state already has tokens");
	struct ec_pnode *up = ec_pnode_get_parent(ps);
	if (up) SOFT("state", ec_pnode_get_last_child(up) == ps, "the parse state is not the last child of its parent");
	else SOFT("state", ec_pnode_get_root(ps) == ps, "the parse state has no parent and is not the root");
	note_attr(ec_pnode_get_attrs(ps), n);
}
void enter_complete(const struct ec_node *n, struct ec_comp *c)
{
	E->completes++;
	struct ec_pnode *ps = ec_comp_get_cur_pstate(c);
	SOFT("state", ps && ec_pnode_get_node(ps) == n, "the completion state is at another node");
	SOFT("state", ps && ec_pnode_get_first_child(ps) == NULL, "the completion state already has children");
	SOFT("group", ec_comp_get_cur_group(c) == NULL, "a completion group exists before the first item");
	SOFT("attrs", ec_comp_get_attrs(c) != NULL, "the completion list has no attributes");
}
size_t tally(const struct ec_comp *c) { return ec_comp_count(c, EC_COMP_ALL) * 1000000 + ec_comp_count(c, EC_COMP_FULL) * 10000 + ec_comp_count(c, EC_COMP_PARTIAL) * 100 + ec_comp_count(c, EC_COMP_UNKNOWN); }

// ---- x-str --------------------------------------------------------------------
int s_parse(const struct ec_node *n, struct ec_pnode *ps, const struct ec_strvec *v)
{
	int ret;
	enter_parse(n, ps);
	if (gone_wrong(ret, (int)ec_strvec_len(v) + 1)) return ret;
	if (ec_strvec_len(v) == 0 || strcmp(ec_strvec_val(v, 0), priv(n)->text)) return EC_PARSE_NOMATCH;
	return 1;
}
int s_complete(const struct ec_node *n, struct ec_comp *c, const struct ec_strvec *v)
{
	int ret;
	enter_complete(n, c);
	if (gone_wrong(ret, -1)) return ret < 0 ? ret : -1;
	const char *t = priv(n)->text;
	if (ec_strvec_len(v) != 1) return 0;
	const char *start = ec_strvec_val(v, 0);
	if (!ec_str_startswith(t, start)) return 0;
	if (E->faults && E->r->coin()) {
		size_t before = tally(c);
		bool had = ec_comp_get_cur_group(c) != NULL;
		fault_arm(E->r->range(1, 14), true);
		struct ec_comp_item *i = ec_comp_add_item(c, n, EC_COMP_FULL, start, t);
		uint64_t hit = fault_disarm();
		if (hit) {
			SOFT("item-refused", i == NULL, "an item was added although memory is exhausted");
			SOFT("item-refused", tally(c) == before, "an item that could not be added is counted");
			SOFT("item-refused", had || ec_comp_get_cur_group(c) == NULL || i, "an item that could not be added left a group");
			ev("items refused for lack of memory");
		} else { ec_comp_item_set_display(i, (str("<") + t + ">").c_str()); return i ? 0 : -1; }
	}
	bool fancy = E->fancy && E->r->coin();
	struct ec_comp_item *i = ec_comp_add_item(c, n, EC_COMP_FULL, start, fancy ? "something else" : t);
	if (!i) return -1;
	struct ec_comp_group *g = ec_comp_get_cur_group(c);
	SOFT("group", g && ec_comp_item_get_grp(i) == g && ec_comp_group_get_node(g) == n, "the item is not in the group of its node");
	if (g) { SOFT("group", ec_comp_group_get_attrs(g) != NULL, "the group has no attributes"); note_attr((struct ec_dict *)ec_comp_group_get_attrs(g), n); }
	if (fancy) {
		// a history of edits: each sets one of the three texts and nothing else, or is refused without effect
		str full = "something else", disp = full;
		bool has = !*start; str comp = has ? full : "";
		auto same = [&](const char *when) {
			const char *a = ec_comp_item_get_str(i), *b = ec_comp_item_get_display(i), *d = ec_comp_item_get_completion(i);
			SOFT("item-edit", a && full == a, "%s: text is '%s', not '%s'", when, a ? esc(a).c_str() : "NULL", esc(full).c_str());
			SOFT("item-edit", b && disp == b, "%s: displayed as '%s', not '%s'", when, b ? esc(b).c_str() : "NULL", esc(disp).c_str());
			SOFT("item-edit", has ? d && comp == d : d == NULL || str("something else").find(start) == 0, "%s: completion is '%s', not '%s'", when, d ? esc(d).c_str() : "NULL", has ? esc(comp).c_str() : "none");
		};
		if (str("something else").compare(0, strlen(start), start) == 0) { has = true; comp = str("something else").substr(strlen(start)); }
		same("new item");
		auto variant = [&](const str &x) {
			switch (E->r->below(6)) {
			case 0: return x;
			case 1: return str(x.size(), 'z');
			case 2: return x.substr(0, x.size() / 2);
			case 3: return x + "+";
			case 4: return str();
			default: return str(t); }
		};
		for (int k = E->r->range(0, 5); k > 0; k--) {
			int what = (int)E->r->below(3);
			str &x = what == 0 ? full : what == 1 ? disp : comp;
			str nx = variant(E->r->coin() ? x : E->r->coin() ? full : disp);
			bool bad = E->r->chance(1, 6);
			if (bad) fault_arm(1, false);
			int rc = what == 0 ? ec_comp_item_set_str(i, nx.c_str()) : what == 1 ? ec_comp_item_set_display(i, nx.c_str()) : ec_comp_item_set_completion(i, nx.c_str());
			uint64_t hit = bad ? fault_disarm() : 0;
			if (!hit) SOFT("item-edit", rc == 0, "an edit was refused");
			if (rc == 0) { x = nx; if (what == 2) has = true; }
			same("edited item");
		}
		if (ec_comp_item_set_str(i, t) < 0 || ec_comp_item_set_completion(i, t + strlen(start)) < 0) return -1;
		errno = 0;
		SOFT("item-edit", ec_comp_item_set_str(i, NULL) < 0 && ec_comp_item_set_completion(i, NULL) < 0 && ec_comp_item_set_display(i, NULL) < 0, "an item accepted a missing text");
		ev("items edited after they were added");
	}
	if (ec_comp_item_set_display(i, (str("<") + t + ">").c_str()) < 0) return -1;
	SOFT("item-edit", !strcmp(ec_comp_item_get_str(i), t) && !strcmp(ec_comp_item_get_completion(i), t + strlen(start)) && ec_comp_item_get_display(i) == str("<") + t + ">", "an edited item does not hold the texts set");
	return 0;
}
char *s_desc(const struct ec_node *n)
{
	char *o = NULL;
	if (ec_asprintf(&o, "x:%s", priv(n)->text) < 0) return NULL;
	return o;
}
int s_cfg(struct ec_node *n, const struct ec_config *c)
{
	E->cfgs++;
	const struct ec_config *s = ec_config_dict_get(c, "string");
	if (!s) { errno = EINVAL; return -1; }
	SOFT("config", ec_config_get_type(s) == EC_CONFIG_TYPE_STRING, "an ill-typed configuration reached the node type");
	if (!strcmp(s->string, "refuse me")) { errno = EPROTO; return -1; }
	char *t = (char *)ec_strdup(s->string);
	if (!t) return -1;
	ec_free(priv(n)->text);
	priv(n)->text = t;
	return 0;
}
const struct ec_config_schema *s_schema()
{
	static struct ec_config_schema s[2];
	s[0].key = "string"; s[0].desc = "text"; s[0].type = EC_CONFIG_TYPE_STRING;
	s[1].type = EC_CONFIG_TYPE_NONE;
	return s;
}
// ---- x-any: no completion callback ----------------------------------------------
int a_parse(const struct ec_node *n, struct ec_pnode *ps, const struct ec_strvec *v)
{
	int ret;
	enter_parse(n, ps);
	if (gone_wrong(ret, (int)ec_strvec_len(v) + 1)) return ret;
	return ec_strvec_len(v) ? 1 : EC_PARSE_NOMATCH;
}
// ---- containers -------------------------------------------------------------------
int q_parse(const struct ec_node *n, struct ec_pnode *ps, const struct ec_strvec *v)
{
	Priv *p = priv(n);
	int ret;
	enter_parse(n, ps);
	if (gone_wrong(ret, (int)ec_strvec_len(v) + 1)) return ret;
	size_t used = 0;
	for (size_t i = 0; i < p->len; i++) {
		struct ec_strvec *s = ec_strvec_ndup(v, used, ec_strvec_len(v) - used);
		if (!s) return -1;
		struct ec_pnode *last = ec_pnode_get_last_child(ps);
		ret = ec_parse_child(p->tab[i], ps, s);
		ec_strvec_free(s);
		if (ret < 0 || ret == EC_PARSE_NOMATCH) {
			SOFT("state", ec_pnode_get_last_child(ps) == last, "a child that does not match was left in the parse state");
			ec_pnode_free_children(ps);
			SOFT("state", ec_pnode_get_first_child(ps) == NULL && ec_pnode_get_last_child(ps) == NULL, "removed children are still there");
			return ret;
		}
		struct ec_pnode *now = ec_pnode_get_last_child(ps);
		SOFT("state", now && now != last && ec_pnode_get_node(now) == p->tab[i], "a child that matches is not the last one of the parse state");
		SOFT("state", now && ec_pnode_len(now) == (size_t)ret, "a child reports %d tokens and holds %zu", ret, now ? ec_pnode_len(now) : 0);
		if (now && E->r->chance(1, 4)) {
			// taken out and put back
			ec_pnode_unlink_child(now);
			SOFT("unlink", ec_pnode_get_parent(now) == NULL && ec_pnode_get_last_child(ps) == last, "an unlinked child is still linked");
			ec_pnode_link_child(ps, now);
			SOFT("link", ec_pnode_get_parent(now) == ps && ec_pnode_get_last_child(ps) == now, "a linked child is not the last one");
		}
		used += (size_t)ret;
	}
	return (int)used;
}
int q_comp(const struct ec_node *n, struct ec_comp *c, const struct ec_strvec *v, size_t k)
{
	Priv *p = priv(n);
	if (k >= p->len) return 0;
	struct ec_pnode *ps = ec_comp_get_cur_pstate(c);
	if (ec_complete_child(p->tab[k], c, v) < 0) return -1;
	SOFT("state", ec_comp_get_cur_pstate(c) == ps, "the completion state moved");
	for (size_t i = 0; i < ec_strvec_len(v); i++) {
		struct ec_strvec *s = ec_strvec_ndup(v, 0, i);
		if (!s) return -1;
		int ret = ec_parse_child(p->tab[k], ps, s);
		ec_strvec_free(s);
		if (ret < 0) return -1;
		if (ret == EC_PARSE_NOMATCH) continue;
		if ((size_t)ret == i) {
			s = ec_strvec_ndup(v, i, ec_strvec_len(v) - i);
			int rr = s ? q_comp(n, c, s, k + 1) : -1;
			ec_strvec_free(s);
			ec_pnode_del_last_child(ps);
			if (rr < 0) return -1;
		} else ec_pnode_del_last_child(ps);
	}
	return 0;
}
int q_complete(const struct ec_node *n, struct ec_comp *c, const struct ec_strvec *v)
{
	int ret;
	enter_complete(n, c);
	if (gone_wrong(ret, -1)) return ret < 0 ? ret : -1;
	return q_comp(n, c, v, 0);
}
int o_parse(const struct ec_node *n, struct ec_pnode *ps, const struct ec_strvec *v)
{
	int ret;
	enter_parse(n, ps);
	if (gone_wrong(ret, (int)ec_strvec_len(v) + 1)) return ret;
	for (size_t i = 0; i < priv(n)->len; i++) {
		ret = ec_parse_child(priv(n)->tab[i], ps, v);
		if (ret != EC_PARSE_NOMATCH) return ret;
		SOFT("state", ec_pnode_get_first_child(ps) == NULL, "a child that does not match was left in the parse state");
	}
	return EC_PARSE_NOMATCH;
}
int o_complete(const struct ec_node *n, struct ec_comp *c, const struct ec_strvec *v)
{
	int ret;
	enter_complete(n, c);
	if (gone_wrong(ret, -1)) return ret < 0 ? ret : -1;
	for (size_t i = 0; i < priv(n)->len; i++)
		if (ec_complete_child(priv(n)->tab[i], c, v) < 0) return -1;
	return 0;
}
int p_parse(const struct ec_node *n, struct ec_pnode *ps, const struct ec_strvec *v)
{
	int ret;
	enter_parse(n, ps);
	if (gone_wrong(ret, (int)ec_strvec_len(v) + 1)) return ret;
	ret = ec_parse_child(priv(n)->tab[0], ps, v);
	return ret == EC_PARSE_NOMATCH ? 0 : ret;
}
size_t c_count(const struct ec_node *n) { return priv(n)->len; }
int c_child(const struct ec_node *n, size_t i, struct ec_node **child, unsigned *refs)
{
	if (i >= priv(n)->len) return -1;
	*child = priv(n)->tab[i];
	*refs = priv(n)->from_cfg ? 2 : 1;
	return 0;
}
int c_cfg(struct ec_node *n, const struct ec_config *c)
{
	E->cfgs++;
	size_t len = 0;
	struct ec_node **t = ec_node_config_node_list_to_table(ec_config_dict_get(c, "children"), &len);
	if (!t) return -1;
	Priv *p = priv(n);
	for (size_t i = 0; i < p->len; i++) ec_node_free(p->tab[i]);
	ec_free(p->tab);
	p->tab = t; p->len = len; p->from_cfg = true;
	return 0;
}
const struct ec_config_schema *c_schema()
{
	static struct ec_config_schema sub[2], s[2];
	sub[0].desc = "child"; sub[0].type = EC_CONFIG_TYPE_NODE; sub[1].type = EC_CONFIG_TYPE_NONE;
	s[0].key = "children"; s[0].desc = "children"; s[0].type = EC_CONFIG_TYPE_LIST; s[0].subschema = sub;
	s[1].type = EC_CONFIG_TYPE_NONE;
	return s;
}

// ---- x-mix: adds items of its own before, between and after those of its children -------
struct MixItem { int type; str text; bool has; str comp; };
struct MixGrp { const struct ec_node *n; vec<const struct ec_node *> path; vec<MixItem> it; };
vec<MixGrp> *mix_exp; int mix_budget;
int m_complete(const struct ec_node *n, struct ec_comp *c, const struct ec_strvec *v)
{
	Rng &r = *E->r; Priv *p = priv(n);
	E->completes++;
	SOFT("group", ec_comp_get_cur_group(c) == NULL, "a completion group exists before the first item of a node");
	struct ec_pnode *me = ec_comp_get_cur_pstate(c);
	SOFT("state", me && ec_pnode_get_node(me) == n, "the completion state is at another node");
	ssize_t mine = -1;
	for (int k = r.range(0, 5); k > 0 && mix_budget > 0; k--, mix_budget--) {
		if (p->len && r.coin()) {
			struct ec_comp_group *g = ec_comp_get_cur_group(c);
			if (ec_complete_child(p->tab[r.below(p->len)], c, v) < 0) return -1;
			SOFT("group", ec_comp_get_cur_group(c) == g, "completing a child changed the current group of its parent");
			SOFT("state", ec_comp_get_cur_pstate(c) == me && ec_pnode_get_first_child(me) == NULL, "completing a child changed the state of its parent");
			continue;
		}
		int ty = r.pick(vec<int>{EC_COMP_UNKNOWN, EC_COMP_FULL, EC_COMP_PARTIAL});
		str t = r.pick(vec<str>{"", "a", "ab", "abc", "b"}), st = r.pick(vec<str>{"", "a", "ab", "zz"});
		bool has = r.coin();
		struct ec_comp_item *i = ec_comp_add_item(c, n, (enum ec_comp_type)ty, ty != EC_COMP_UNKNOWN && has ? st.c_str() : NULL, ty != EC_COMP_UNKNOWN ? t.c_str() : NULL);
		SOFT("item-add", i != NULL, "a valid item was refused");
		if (!i) return -1;
		if (mine < 0) {
			mine = (ssize_t)mix_exp->size();
			MixGrp g; g.n = n;
			for (struct ec_pnode *x = me; x; x = ec_pnode_get_parent(x)) g.path.push_back(ec_pnode_get_node(x));
			mix_exp->push_back(g);
		}
		bool pre = ty != EC_COMP_UNKNOWN && has && t.compare(0, st.size(), st) == 0;
		(*mix_exp)[(size_t)mine].it.push_back(MixItem{ty, t, pre, pre ? t.substr(st.size()) : ""});
	}
	return 0;
}
int m_parse(const struct ec_node *, struct ec_pnode *, const struct ec_strvec *) { return EC_PARSE_NOMATCH; }

struct ec_node_type t_str, t_any, t_seq, t_or, t_opt, t_mute, t_mix;
void types()
{
	static bool done;
	if (done) return;
	done = true;
	auto base = [](struct ec_node_type &t, const char *name, ec_parse_t parse, ec_complete_t comp) {
		memset(&t, 0, sizeof t);
		t.name = name; t.size = sizeof(Priv); t.init_priv = x_init; t.free_priv = x_free; t.parse = parse; t.complete = comp;
	};
	base(t_str, "x-str", s_parse, s_complete); t_str.schema = s_schema(); t_str.set_config = s_cfg; t_str.desc = s_desc;
	base(t_any, "x-any", a_parse, NULL);
	base(t_seq, "x-seq", q_parse, q_complete);
	base(t_or, "x-or", o_parse, o_complete);
	base(t_opt, "x-opt", p_parse, o_complete);
	base(t_mute, "x-mute", NULL, NULL);
	base(t_mix, "x-mix", m_parse, m_complete);
	for (auto t : {&t_seq, &t_or, &t_opt, &t_mix}) { t->schema = c_schema(); t->set_config = c_cfg; t->get_children_count = c_count; t->get_child = c_child; }
	for (auto t : {&t_str, &t_any, &t_seq, &t_or, &t_opt, &t_mute, &t_mix}) LCHECK(ec_node_type_register(t, false) == 0);
}

struct ec_node *mix_node(Rng &r, int depth)
{
	struct ec_node *n = ec_node_from_type(&t_mix, "m"); LCHECK(n);
	size_t k = depth > 0 ? (size_t)r.range(0, 3) : 0;
	Priv *p = priv(n);
	p->tab = (struct ec_node **)ec_calloc(k + 1, sizeof *p->tab); LCHECK(p->tab);
	for (size_t i = 0; i < k; i++) {
		struct ec_node *c = mix_node(r, depth - 1);
		if (r.chance(1, 4)) { c = ec_node_option("opt", c); LCHECK(c); }
		p->tab[p->len++] = c;
	}
	return n;
}
void mix(Rng &r)
{
	LeakCheck lk;
	vec<MixGrp> exp; mix_exp = &exp; mix_budget = 40;
	struct ec_node *n = mix_node(r, r.range(0, 3));
	char quote = r.chance(1, 3) ? "'\""[r.below(2)] : 0;       // inside an open quote of a command line
	if (quote) { n = ec_node_sh_lex("line", n); LCHECK(n); ev("items of mixed types added inside an open quote"); }
	struct ec_strvec *v = make_strvec(toks_of({(quote ? str(1, quote) : str()) + "a"})); LCHECK(v);
	struct ec_comp *c = ec_complete_strvec(n, v);
	LCHECK(c);
	if (r.coin() && c) {      // the list continues in another one
		struct ec_comp *d = ec_complete_strvec(n, v); LCHECK(d);
		if (d) EXPECT("C26", "merge", ec_comp_merge(c, d) == 0, "lists cannot be merged");
	}
	check_soft();
	if (quote) for (auto &g : exp) for (auto &x : g.it) if (x.type == EC_COMP_FULL) { x.text = quote + x.text + quote; if (x.has) x.comp += quote; }
	if (c) {
		// what an interactive user would have appended: the beginning common to all
		bool first = true; str common;
		for (auto &g : exp) for (auto &x : g.it) if (x.type != EC_COMP_UNKNOWN) {
			str z = x.has ? x.comp : "";
			if (first) common = z; else { size_t k = 0; while (k < common.size() && k < z.size() && common[k] == z[k]) k++; common.resize(k); }
			first = false;
		}
		char *ap = ec_editline_append_chars(c);
		for (auto pr : {"C26", "C23"}) EXPECT(pr, "append", first ? !ap || !*ap : ap && common == ap, "'%s' would be appended; the items have '%s' in common", ap ? esc(ap).c_str() : "NULL", first ? "nothing" : esc(common).c_str());
		ec_free(ap);
	}
	for (int f = 1; f <= 7; f++) {
		int ty = (f & 1 ? EC_COMP_UNKNOWN : 0) | (f & 2 ? EC_COMP_FULL : 0) | (f & 4 ? EC_COMP_PARTIAL : 0);
		size_t cnt = 0;
		for (auto &g : exp) for (auto &x : g.it) if (x.type & ty) cnt++;
		for (auto pr : {"C26", "C07"}) EXPECT(pr, "mixed-count", ec_comp_count(c, (enum ec_comp_type)ty) == cnt, "%zu items of types %d counted, %zu added", ec_comp_count(c, (enum ec_comp_type)ty), ty, cnt);
		struct ec_comp_item *i = ec_comp_iter_first(c, (enum ec_comp_type)ty);
		for (auto &g : exp) for (auto &x : g.it) if (x.type & ty) for (auto pr : {"C26", "C07"}) {
			EXPECT(pr, "mixed-items", i != NULL, "the iteration over types %d stops early", ty);
			if (!i) end_case();
			const char *t = ec_comp_item_get_str(i), *m = ec_comp_item_get_completion(i);
			EXPECT(pr, "mixed-items", ec_comp_item_get_type(i) == x.type && (x.type == EC_COMP_UNKNOWN ? !t : t && x.text == t) && (x.has ? m && x.comp == m : !m), "an item of type %d '%s' (+'%s') is listed where '%s' of type %d was added", (int)ec_comp_item_get_type(i), t ? t : "NULL", m ? m : "NULL", x.text.c_str(), x.type);
			const struct ec_comp_group *gr = ec_comp_item_get_grp(i);
			EXPECT(pr, "mixed-group", gr && ec_comp_group_get_node(gr) == g.n && ec_comp_item_get_node(i) == g.n, "an item is listed under another node");
			size_t k = 0;
			for (const struct ec_pnode *q = ec_comp_group_get_pstate(gr); q; q = ec_pnode_get_parent(q), k++) EXPECT(pr, "mixed-group", k < g.path.size() && ec_pnode_get_node(q) == g.path[k], "the state recorded for a group is not where its items were added");
			EXPECT(pr, "mixed-group", k == g.path.size(), "the state recorded for a group is cut");
			if (!strcmp(pr, "C07")) i = ec_comp_iter_next(i, (enum ec_comp_type)ty);
		}
		for (auto pr : {"C26", "C07"}) EXPECT(pr, "mixed-items", i == NULL, "the iteration over types %d lists too many items", ty);
	}
	size_t tot = 0; for (auto &g : exp) tot += g.it.size();
	ec_comp_free(c); ec_strvec_free(v); ec_node_free(n);
	for (auto pr : {"C26", "C02"}) lk.check(pr, "items of several kinds in one group");
	ev("groups filled around those of children", exp.size()); ev("items of mixed types added", tot);
}
struct ec_node *make(const GN &x, const vec<struct ec_node *> &ch, Rng &r, bool &handled)
{
	const struct ec_node_type *t = x.t == T_STR ? &t_str : x.t == T_ANY && x.s.empty() ? &t_any : x.t == T_SEQ ? &t_seq : x.t == T_OR ? &t_or : x.t == T_OPTION ? &t_opt : NULL;
	handled = t && r.chance(2, 3);
	if (!handled) return NULL;
	const char *id = x.id.empty() ? EC_NO_ID : x.id.c_str();
	struct ec_node *n = r.coin() ? ec_node(t->name, id) : ec_node_from_type(t, id);
	if (!n) return NULL;
	Priv *p = priv(n);
	if (x.t == T_STR) {
		struct ec_config *c = ec_config_dict();
		if (!c || ec_config_dict_set(c, "string", ec_config_string(x.s.c_str())) < 0 || ec_node_set_config(n, c) < 0) { ec_node_free(n); return NULL; }
	} else if (x.t != T_ANY && r.coin()) {
		struct ec_config *c = ec_config_dict(), *l = ec_config_list();
		for (auto k : ch) LCHECK(ec_config_list_add(l, ec_config_node(ec_node_clone(k))) == 0);
		LCHECK(ec_config_dict_set(c, "children", l) == 0);
		if (ec_node_set_config(n, c) < 0) { ec_node_free(n); return NULL; }
	} else if (x.t != T_ANY) {
		p->tab = (struct ec_node **)ec_calloc(ch.size() + 1, sizeof *p->tab);
		LCHECK(p->tab);
		for (auto k : ch) p->tab[p->len++] = ec_node_clone(k);
	}
	ev("nodes of application types");
	return n;
}

// every tree or parse state node of an application type carries the attribute its callback set
void check_attrs(struct ec_pnode *p)
{
	vec<const struct ec_pnode *> all;
	walk_nodes(p, all);
	for (auto x : all) {
		if (!E->live.count(ec_pnode_get_node(x))) continue;
		void **v = (void **)ec_dict_get(ec_pnode_get_attrs((struct ec_pnode *)x), "x-issuer");
		EXPECT("C26", "attrs", v && *v == (void *)ec_pnode_get_node(x), "an attribute set while parsing is lost in the tree");
		ev("attributes of parse nodes read back");
	}
}
} // namespace

SCENARIO(custom, "random grammars in which two thirds of the str, any, seq, or and option nodes are instances of application-defined types written against the public node API; compared with the reference; the n-th callback failing, initialisers failing, invalid configurations, items edited after addition or added without memory, attributes on trees and groups; non-trivial = an application callback ran in a request that matched or proposed something")
{
	(void)idx;
	types();
	Env env; env.r = &r; E = &env;
	struct Reset { ~Reset() { g_custom_build = NULL; E = NULL; } } reset;
	LeakCheck lk;
	GenOpt o;
	o.max_nodes = r.range(3, 16); o.max_depth = r.range(1, 5); o.lexers = r.coin(); o.cycles = r.chance(1, 3); o.any_attr = o.lexers; o.file = false;
	Gram g = gen_gram(r, o);
	describe("%s", g.show().c_str());
	g_custom_build = make;
	Built b;
	bool ok = build(g, r, b, true);
	check_soft();
	if (!ok) { violate("C26", "build", "cannot build a valid grammar (node #%d): %s", b.failed, strerror(errno)); end_case(); }
	str head = current_desc();
	env.fancy = r.coin(); env.faults = r.chance(1, 3);
	EXPECT("C26", "init-once", env.inits == env.live.size() && env.frees == 0, "%llu initialisations, %zu nodes, %llu releases", (unsigned long long)env.inits, env.live.size(), (unsigned long long)env.frees);
	// what a node says of itself
	for (size_t i = 0; i < b.nodes.size(); i++) {
		struct ec_node *n = b.nodes[i];
		if (!n || !env.live.count(n)) continue;
		const GN &x = g.n[i];
		const struct ec_node_type *t = x.t == T_STR ? &t_str : x.t == T_ANY ? &t_any : x.t == T_SEQ ? &t_seq : x.t == T_OR ? &t_or : &t_opt;
		EXPECT("C26", "identity", ec_node_type(n) == t && !strcmp(ec_node_get_type_name(n), t->name) && ec_node_type_schema(t) == t->schema && x.id == ec_node_id(n), "node #%zu is of another type", i);
		EXPECT("C26", "identity", ec_node_check_type(n, t) == 0 && ec_node_check_type(n, t == &t_or ? &t_seq : &t_or) < 0, "type check of node #%zu is wrong", i);
		char *d = ec_node_desc(n);
		str wd = !x.desc.empty() ? x.desc : x.t == T_STR ? "x:" + x.s : str("<") + t->name + ">";
		EXPECT("C26", "desc", d && wd == d, "node #%zu is described as '%s', not '%s'", i, d ? esc(d).c_str() : "NULL", esc(wd).c_str());
		ec_free(d);
		EXPECT("C26", "children", ec_node_get_children_count(n) == x.ch.size(), "node #%zu reports %zu children", i, ec_node_get_children_count(n));
		for (size_t k = 0; k <= x.ch.size(); k++) {
			struct ec_node *c = NULL; unsigned refs = 0;
			int ret = ec_node_get_child(n, k, &c, &refs);
			if (k < x.ch.size()) EXPECT("C26", "children", ret == 0 && c == b.nodes[x.ch[k]] && refs == (priv(n)->from_cfg ? 2u : 1u), "child %zu of node #%zu is wrong", k, i);
			else EXPECT("C26", "children", ret < 0, "node #%zu has one child too many", i);
		}
		if (r.chance(1, 4)) {
			// configurations the schema or the type refuses
			uint64_t c0 = env.cfgs;
			struct ec_config *c = NULL; bool reaches = false; str what;
			switch (r.range(0, 3)) {
			case 0: c = ec_config_string("x"); what = "not a dictionary"; break;
			case 1: c = ec_config_dict(); LCHECK(ec_config_dict_set(c, "nosuch", ec_config_bool(true)) == 0); what = "unknown key"; break;
			case 2: c = ec_config_dict(); LCHECK(ec_config_dict_set(c, t->schema && t != &t_str ? "children" : "string", ec_config_u64(1)) == 0); what = "wrong type"; break;
			case 3: c = ec_config_dict(); reaches = t->schema != NULL; what = "refused by the type"; if (t == &t_str && r.coin()) LCHECK(ec_config_dict_set(c, "string", ec_config_string("refuse me")) == 0); break;
			}
			str before = slurp_stream([&](FILE *f) { ec_node_dump(f, n); });
			int ret = ec_node_set_config(n, c);
			EXPECT("C26", "config", ret < 0, "a configuration (%s) was accepted", what.c_str());
			EXPECT("C26", "config", env.cfgs == c0 + (reaches ? 1 : 0), "a configuration (%s) was handed to the type %llu times", what.c_str(), (unsigned long long)(env.cfgs - c0));
			EXPECT("C26", "config", slurp_stream([&](FILE *f) { ec_node_dump(f, n); }) == before, "a refused configuration changed the node");
			ev("configurations refused for application types");
		}
		check_soft();
	}
	int n = thorough() ? 8 : 5;
	for (int i = 0; i < n; i++) {
		PropAs as({"C26"});
		Toks in = gen_input(r, g, o), pa = gen_partial(r, g, o);
		describe("%s", head.c_str());
		uint64_t p0 = env.parses, c0 = env.completes;
		check_parse(r, g, b, in, i == 0);
		check_soft();
		check_complete(g, b, pa);
		check_soft();
		ev("application parse callbacks", env.parses - p0);
		ev("application completion callbacks", env.completes - c0);
		EXPECT("C26", "attrs", env.attr_live == 0, "%d attribute(s) outlive the results that hold them", env.attr_live);
		// attributes in the tree, its duplicate and the recorded parse states
		struct ec_strvec *v = make_strvec(in), *w = make_strvec(pa);
		LCHECK(v && w);
		struct ec_pnode *p = ec_parse_strvec(b.root, v);
		if (p && ec_pnode_matches(p)) {
			check_attrs(p);
			struct ec_pnode *d = ec_pnode_dup(p);
			LCHECK(d);
			ec_pnode_free(p); p = d;
			check_attrs(p);
		}
		ec_pnode_free(p);
		struct ec_comp *c = ec_complete_strvec(b.root, w);
		if (c) {
			for (struct ec_comp_item *it = ec_comp_iter_first(c, EC_COMP_ALL); it; it = ec_comp_iter_next(it, EC_COMP_ALL)) {
				auto f = b.idx.find(ec_comp_item_get_node(it));
				if (f == b.idx.end() || !env.live.count(f->first)) continue;
				const GN &x = g.n[f->second];
				if (x.t == T_STR) {
					const char *di = ec_comp_item_get_display(it);
					EXPECT("C26", "display", di && str("<") + x.s + ">" == di, "item of '%s' is displayed as '%s'", esc(x.s).c_str(), di ? esc(di).c_str() : "NULL");
					ev("edited items read back");
				} else EXPECT("C26", "unknown", ec_comp_item_get_type(it) == EC_COMP_UNKNOWN && ec_comp_item_get_str(it) == NULL, "a type without completion proposes a text");
				if (ec_comp_item_get_type(it) == EC_COMP_UNKNOWN) EXPECT("C26", "item-edit", ec_comp_item_set_str(it, "a") < 0 && ec_comp_item_set_completion(it, "a") < 0 && ec_comp_item_set_display(it, "a") < 0, "an item without text accepted one");
			}
			note_attr(ec_comp_get_attrs(c), b.root);
		}
		ec_comp_free(c);
		EXPECT("C26", "attrs", env.attr_live == 0, "%d attribute(s) outlive the results that hold them", env.attr_live);
		check_soft();
		// one callback goes wrong
		bool fancy = env.fancy, faults = env.faults;
		env.fancy = env.faults = false;
		for (int what = 0; what < 2; what++) {
			env.calls = 0; env.fail_at = -1;
			if (what == 0) ec_pnode_free(ec_parse_strvec(b.root, v)); else ec_comp_free(ec_complete_strvec(b.root, w));
			if (env.calls == 0) continue;
			env.fail_at = 1 + (int64_t)r.below((uint64_t)env.calls);
			env.fail_kind = (int)r.below(3); env.calls = 0; env.failed = false;
			describe("%s | %s %s, callback %lld fails (%d)", head.c_str(), what ? "complete" : "parse", show_toks(what ? pa : in).c_str(), (long long)env.fail_at, env.fail_kind);
			LeakCheck l2;
			errno = 0;
			void *res;
			int e;
			if (what == 0) { res = ec_parse_strvec(b.root, v); e = errno; ec_pnode_free((struct ec_pnode *)res); }
			else { res = ec_complete_strvec(b.root, w); e = errno; ec_comp_free((struct ec_comp *)res); }
			HCHECK(env.failed);
			{ PropAs as29({"C29"}); EXPECT("C29", "errno", res != NULL || e != 0, "a request failed because of a callback and errno is not set"); }
			if (res == NULL) ev("requests failed by a callback with errno set");
			EXPECT("C26", "error", res == NULL, "a callback failed and the request still gave a result");
			EXPECT("C26", "error", env.calls == env.fail_at, "%lld more callback(s) ran after the failing one", (long long)(env.calls - env.fail_at));
			EXPECT("C26", "error", env.attr_live == 0, "%d attribute(s) outlive a failed request", env.attr_live);
			check_soft();
			for (auto pr : {"C26", "C02"}) l2.check(pr, "failed request");
			env.fail_at = -1;
			ev("failing callbacks");
			describe("%s", head.c_str());
			if (what == 0) check_parse(r, g, b, in, false); else check_complete(g, b, pa);
			check_soft();
		}
		env.fancy = fancy; env.faults = faults;
		if (env.parses > p0 || env.completes > c0) nontrivial(fnv(head + show_toks(in)));
		ec_strvec_free(v); ec_strvec_free(w);
	}
	describe("%s | items before, between and after children", head.c_str());
	mix(r);
	// initialisers that fail, types that cannot parse
	{
		describe("%s | failing initialiser", head.c_str());
		uint64_t f0 = env.frees;
		LeakCheck l2;
		env.fail_init = 1; errno = 0;
		struct ec_node *x = r.coin() ? ec_node("x-any", "id") : ec_node_from_type(&t_str, "id");
		EXPECT("C26", "init-fails", x == NULL && env.frees == f0, "a node whose initialiser fails was created or released");
		env.fail_init = 0;
		EXPECT("C26", "init-fails", ec_node("x-any", NULL) == NULL, "a node without identifier was created");
		for (auto pr : {"C26", "C02"}) l2.check(pr, "failing initialiser");
		x = ec_node("x-mute", "id");
		LCHECK(x);
		struct ec_node *top = r.coin() ? EC_NODE_SEQ("s", ec_node_str("a", "a"), x) : r.coin() ? EC_NODE_OR("o", ec_node_str("b", "b"), x) : x;
		LCHECK(top);
		Toks in = toks_of({"a", "c"});
		struct ec_strvec *v = make_strvec(in);
		LCHECK(v);
		struct ec_pnode *p = ec_parse_strvec(top, v);
		EXPECT("C26", "no-parse", p == NULL, "a type without parse callback parsed something");
		ec_pnode_free(p);
		ec_strvec_free(v);
		ec_node_free(top);
		check_soft();
		for (auto pr : {"C26", "C02"}) l2.check(pr, "type without callbacks");
	}
	sample(head);
	b.free_all();
	check_soft();
	EXPECT("C26", "free-once", env.live.empty() && env.inits == env.frees, "%zu node(s) of application types were not released", env.live.size());
	for (auto pr : {"C26", "C02"}) lk.check(pr, "grammar with application-defined types");
}
