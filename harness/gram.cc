#include "gram.h"
#include <regex.h>

const char *nt_name[NT_COUNT] = { "str", "any", "empty", "none", "space", "int", "uint", "re", "file",
	"seq", "or", "many", "option", "subset", "once", "bypass", "sh_lex", "re_lex", "cond", "dynamic" };

str show_toks(const Toks &t)
{
	str o = "[";
	for (size_t i = 0; i < t.size(); i++) {
		if (i) o += ",";
		o += "'" + esc(t[i].s) + "'";
		for (auto &a : t[i].attrs) o += "@" + a;
	}
	return o + "]";
}

str Gram::show(int i, int depth) const
{
	if (i < 0) i = root;
	const GN &x = n[i];
	str o = nt_name[x.t];
	o += "#" + std::to_string(i);
	if (depth > 12) return o + "^";
	switch (x.t) {
	case T_STR: case T_ANY: case T_RE: case T_COND: o += "('" + esc(x.s) + "')"; break;
	case T_INT: o += "(" + (x.has_min ? std::to_string(x.imin) : str("")) + ".." + (x.has_max ? std::to_string(x.imax) : str("")) + ",b" + std::to_string(x.base) + ")"; break;
	case T_UINT: o += "(" + (x.has_min ? std::to_string(x.umin) : str("")) + ".." + (x.has_max ? std::to_string(x.umax) : str("")) + ",b" + std::to_string(x.base) + ")"; break;
	case T_DYN: o += str(x.mn ? "!" : "") + (x.mx ? "?" : ""); break;
	case T_MANY: o += "{" + std::to_string(x.mn) + "," + std::to_string(x.mx) + "}"; break;
	case T_RE_LEX: o += "<"; for (auto &p : x.pats) o += esc(p.pat) + (p.keep ? "+" : "-") + p.attr + ";"; o += ">"; break;
	default: break;
	}
	if (!x.ch.empty()) {
		o += "(";
		for (size_t k = 0; k < x.ch.size(); k++) {
			if (k) o += ",";
			int c = x.ch[k];
			if (n[c].t == T_BYPASS && c <= i && !n[c].ch.empty()) o += "back#" + std::to_string(c);
			else o += show(c, depth + 1);
		}
		o += ")";
	}
	return o;
}

// families of words a sloppy comparison would mix up
vec<str> rich_words(Rng &r)
{
	vec<str> w;
	switch (r.range(0, 4)) {
	case 0: { // long words with a long common prefix
		static const int lens[] = { 15, 16, 17, 31, 32, 33, 63, 64, 65, 127, 128, 129, 255, 256, 257, 300, 1000 };
		str base; int L = lens[r.below(sizeof lens / sizeof *lens)];
		for (int i = 0; i < L; i++) base += (char)('a' + r.below(r.coin() ? 1 : 26));
		w = { base, base + "x", base + "yz", base.substr(0, base.size() - 1), base.substr(0, base.size() / 2), "a" };
		break; }
	case 1: w = { "foo", "Foo", "FOO", "fOO", "f", "F", "fo" }; break;
	case 2: w = { "\xc3\xa9", "\xc3", "\xc3\xa8", "\xff", "\x01", "\x80\x81", "e" }; break;
	case 3: { int n = r.range(3, 6); for (int i = 0; i < n; i++) { str s; int L = r.range(1, 9); for (int j = 0; j < L; j++) s += (char)('a' + r.below(2)); w.push_back(s); } break; }
	default: w = { "\\", "\"", "'", "#", "a b", "$x", "-", "--opt", "--opt=", "a\tb", "a\nb", "*" }; break;
	}
	return w;
}

vec<str> default_words()
{
	return { "a", "b", "aa", "ab", "abc", "foo", "foobar", "fo", "bar", "", "1", "12", "-3", "x y", " ", "'", "é" };
}

// ---- generation ------------------------------------------------------------
bool g_nullable(const Gram &g, int n)
{
	// conservative (over-approximate) nullability by fixpoint
	vec<char> nl(g.n.size(), 0);
	bool ch = true;
	while (ch) {
		ch = false;
		for (size_t i = 0; i < g.n.size(); i++) {
			if (nl[i]) continue;
			const GN &x = g.n[i];
			bool v = false;
			switch (x.t) {
			case T_EMPTY: case T_OPTION: case T_SUBSET: v = true; break;
			case T_MANY: v = x.mn == 0 || nl[x.ch[0]]; break;
			case T_SEQ: v = true; for (int c : x.ch) v = v && nl[c]; break;
			case T_OR: case T_DYN: for (int c : x.ch) v = v || nl[c]; break;
			case T_ONCE: case T_BYPASS: case T_COND: case T_SH_LEX: case T_RE_LEX: v = !x.ch.empty() && nl[x.ch[0]]; break;
			default: break;
			}
			if (v) { nl[i] = 1; ch = true; }
		}
	}
	return nl[n];
}

bool left_recursive(const Gram &g)
{
	size_t N = g.n.size();
	vec<char> nl(N);
	for (size_t i = 0; i < N; i++) nl[i] = g_nullable(g, (int)i);
	vec<vec<int>> e(N);
	for (size_t i = 0; i < N; i++) {
		const GN &x = g.n[i];
		if (x.t == T_SEQ) {
			for (int c : x.ch) { e[i].push_back(c); if (!nl[c]) break; }
		} else
			e[i] = x.ch;   // or, subset, many, option, ...: every child may be tried at the same place
	}
	vec<int> st(N, 0);
	std::function<bool(int)> dfs = [&](int v) {
		st[v] = 1;
		for (int c : e[v]) {
			if (st[c] == 1) return true;
			if (st[c] == 0 && dfs(c)) return true;
		}
		st[v] = 2;
		return false;
	};
	for (size_t i = 0; i < N; i++)
		if (st[i] == 0 && dfs((int)i)) return true;
	return false;
}

static const char *re_pool[] = { "a+", "[0-9]+", "f.*", "(a|b)*", "foo|bar", "x y", "a?b?c?", "[[:alpha:]]+", ".*", "(foo|fo)(bar)?", "é" };
static vec<vec<RePat>> relex_pool()
{
	return {
		{ {"[a-zA-Z_]+", true, "w"}, {"[0-9]+", true, "n"}, {"[ \t]+", false, ""} },
		{ {"foo", true, ""}, {"[a-z]+", true, "w"}, {"[^a-z]", true, "o"} },
		{ {"[ ]+", false, ""}, {"[^ ]+", true, ""} },
		{ {"a", true, "A"}, {"b", true, "B"} },
		{ {"ab|a", true, ""}, {"b*", true, ""}, {".", false, ""} },
	};
}

struct Gen {
	Rng &r; const GenOpt &o; Gram g; vec<int> knots; vec<int> open;
	Gen(Rng &rr, const GenOpt &oo) : r(rr), o(oo) {}
	str id(int i)
	{
		if (r.chance(1, 3)) return "";
		if (r.chance(1, 4)) return str("dup") + (char)('0' + r.below(3));
		return "id" + std::to_string(i);
	}
	int leaf()
	{
		GN x;
		int k = r.range(0, 19);
		if (k < 10) { x.t = T_STR; x.s = r.pick(o.words); }
		else if (k < 12) { x.t = T_ANY; if (o.any_attr && r.coin()) x.s = r.pick(vec<str>{"w", "n", "A", "o"}); }
		else if (k == 12) x.t = T_EMPTY;
		else if (k == 13) x.t = T_NONE;
		else if (k == 14) x.t = T_SPACE;
		else if (k == 15 && o.ints) {
			x.t = T_INT; x.has_min = x.has_max = true;
			x.imin = r.range(-20, 5); x.imax = x.imin + r.range(0, 40);
			if (r.chance(1, 3)) { x.imin = INT64_MIN; x.imax = INT64_MAX; }
		} else if (k == 16 && o.ints) {
			x.t = T_UINT; x.has_min = x.has_max = true;
			x.umin = r.below(5); x.umax = x.umin + r.below(30);
			if (r.chance(1, 3)) { x.umin = 0; x.umax = UINT64_MAX; }
		} else if (k == 17) { x.t = T_RE; x.s = re_pool[r.below(sizeof re_pool / sizeof *re_pool)]; }
		else if (k == 18 && o.file) x.t = T_FILE;
		else { x.t = T_STR; x.s = r.pick(o.words); }
		int i = g.add(x);
		g.n[i].id = id(i);
		return i;
	}
	int node(int depth)
	{
		if (o.sharing && g.n.size() > 2 && r.chance(1, 8)) {
			// share an already finished node (never one still open)
			for (int tries = 0; tries < 4; tries++) {
				int i = (int)r.below(g.n.size());
				if (std::find(open.begin(), open.end(), i) == open.end()) return i;
			}
		}
		if (o.cycles && !knots.empty() && r.chance(1, 6)) return r.pick(knots);
		if (depth <= 0 || (int)g.n.size() >= o.max_nodes || r.chance(1, 5)) return leaf();
		int i = g.add(GN());
		open.push_back(i);
		int k = r.range(0, 15);
		NT t;
		if (k < 4) t = T_SEQ; else if (k < 7) t = T_OR; else if (k < 9) t = T_MANY; else if (k < 11) t = T_OPTION;
		else if (k < 13) t = T_SUBSET; else if (k == 13) t = o.once ? T_ONCE : T_SEQ;
		else if (k == 14) t = T_BYPASS; else t = o.lexers ? (r.chance(2, 3) ? T_SH_LEX : T_RE_LEX) : T_SEQ;
		if (t == T_SUBSET && o.yaml_types) t = T_OR;
		if (o.cond && r.chance(o.cond, 100)) t = T_COND;
		if (o.dyn && r.chance(o.dyn, 100)) t = T_DYN;
		vec<int> ch; unsigned mn = 0, mx = 0; vec<RePat> pats;
		if (t == T_BYPASS && o.cycles) { g.n[i].t = T_BYPASS; knots.push_back(i); }
		int nch = 1;
		if (t == T_SEQ || t == T_OR) nch = r.chance(1, 12) ? 0 : r.range(1, 4);
		if (t == T_DYN) { nch = r.range(1, 3); mn = r.coin(); mx = o.dyn_fail && r.chance(1, 3); }
		if (t == T_SUBSET) nch = r.chance(1, 12) ? 0 : r.range(1, 4);
		for (int c = 0; c < nch; c++) ch.push_back(node(depth - 1));
		if ((t == T_SEQ || t == T_OR) && r.chance(1, 25)) { int more = r.range(1, 12); for (int c = 0; c < more; c++) ch.push_back(leaf()); }
		if (t == T_MANY) { mn = r.chance(1, 2) ? 0 : (unsigned)r.range(0, 3); mx = r.chance(1, 2) ? 0 : (unsigned)r.range(1, 4); if (r.chance(1, 20)) mx = mn ? mn - 1 : 0; if (r.chance(1, 30)) { mx = (unsigned)r.range(5, 300); mn = (unsigned)r.range(0, (int)mx); } }
		if (t == T_RE_LEX) { auto p = relex_pool(); pats = r.pick(p); }
		GN &x = g.n[i];
		x.t = t; x.ch = ch; x.mn = mn; x.mx = mx; x.pats = pats;
		x.id = id(i);
		if (t == T_COND) x.s = gen_cond(r, r.range(0, 4), o.cond_err);
		open.pop_back();
		return i;
	}
};

// starting at node c, without entering what dynamic nodes return: every loop closes on a bypass node
static bool loops_ok(const Gram &g, int root)
{
	vec<int> st(g.n.size(), 0); bool ok = true;
	std::function<void(int)> dfs = [&](int v) {
		st[v] = 1;
		if (g.n[v].t != T_DYN) for (int c : g.n[v].ch) { if (st[c] == 1) ok = ok && g.n[c].t == T_BYPASS; else if (st[c] == 0) dfs(c); }
		st[v] = 2;
	};
	dfs(root);
	return ok;
}
Gram gen_gram(Rng &r, const GenOpt &oin)
{
	GenOpt o = oin;
	if (o.words.empty()) {
		vec<str> d = default_words();
		int k = r.range(2, 6);
		if (r.chance(1, 4)) d = rich_words(r);
		for (int i = 0; i < k; i++) o.words.push_back(r.pick(d));
	}
	for (int t = 0; t < 50; t++) {
		Gen gn(r, o);
		gn.g.root = gn.node(o.max_depth);
		// a bypass knot that closes directly on itself or a left-recursive grammar is not meaningful
		if (left_recursive(gn.g)) continue;
		// a builder can only make a fresh copy of a sub-grammar whose loops go through bypass nodes
		for (auto &x : gn.g.n) if (x.t == T_DYN && x.mn) for (int c : x.ch) if (!loops_ok(gn.g, c)) x.mn = 0;
		return gn.g;
	}
	Gram g; GN x; x.t = T_STR; x.s = "a"; g.root = g.add(x);
	return g;
}

static str rand_word(Rng &r, const vec<str> &words)
{
	if (r.chance(1, 12)) { str s; int n = r.range(0, 5); for (int i = 0; i < n; i++) s += (char)r.range(1, 255); return s; }
	return r.pick(words);
}

void gen_walk(Rng &r, const Gram &g, int n, Toks &out, int &budget)
{
	if (--budget < 0) return;
	const GN &x = g.n[n];
	switch (x.t) {
	case T_STR: out.push_back(Tok{x.s, {}}); break;
	case T_ANY: out.push_back(Tok{r.pick(default_words()), x.s.empty() ? std::set<str>() : std::set<str>{x.s}}); break;
	case T_FILE: out.push_back(Tok{r.pick(default_words()), {}}); break;
	case T_SPACE: out.push_back(Tok{r.coin() ? " " : "\t ", {}}); break;
	case T_INT: out.push_back(Tok{std::to_string(x.has_min && x.imin > -1000 ? x.imin + (int64_t)r.below((uint64_t)(x.imax - x.imin) + 2) : r.range(-30, 30)), {}}); break;
	case T_UINT: out.push_back(Tok{std::to_string(x.umin + r.below(30)), {}}); break;
	case T_RE: { static const vec<str> p = {"a", "aaa", "12", "foo", "fx", "abab", "bar", "x y", "abc", "foobar", "é"}; out.push_back(Tok{r.pick(p), {}}); break; }
	case T_SEQ: for (int c : x.ch) gen_walk(r, g, c, out, budget); break;
	case T_OR: case T_DYN: if (!x.ch.empty()) gen_walk(r, g, r.pick(x.ch), out, budget); break;
	case T_MANY: { int k = r.range(0, 4); if (r.chance(2, 3)) { k = (int)x.mn + (int)r.below(3); if (x.mx && k > (int)x.mx) k = (int)x.mx; } for (int i = 0; i < k; i++) gen_walk(r, g, x.ch[0], out, budget); break; }
	case T_OPTION: if (r.coin()) gen_walk(r, g, x.ch[0], out, budget); break;
	case T_SUBSET: { vec<int> c = x.ch; for (size_t i = c.size(); i > 1; i--) std::swap(c[i - 1], c[r.below(i)]); for (int y : c) if (r.chance(2, 3)) gen_walk(r, g, y, out, budget); break; }
	case T_ONCE: case T_BYPASS: case T_COND: if (!x.ch.empty()) gen_walk(r, g, x.ch[0], out, budget); break;
	case T_SH_LEX: {
		Toks in; gen_walk(r, g, x.ch[0], in, budget);
		str l;
		for (auto &t : in) {
			if (!l.empty() || r.chance(1, 6)) l += r.chance(1, 5) ? "  " : " ";
			if (t.s.find('\'') == str::npos && (t.s.empty() || t.s.find_first_of(" \t\"\\#") != str::npos || r.chance(1, 5))) l += "'" + t.s + "'";
			else if (t.s.find_first_of("\"\\") == str::npos && r.chance(1, 6)) l += "\"" + t.s + "\"";
			else if (t.s == "'") l += "\\'";
			else l += t.s;
		}
		if (r.chance(1, 8)) l += " # comment";
		if (r.chance(1, 8)) l += " ";
		out.push_back(Tok{l, {}});
		break; }
	case T_RE_LEX: {
		Toks in; gen_walk(r, g, x.ch[0], in, budget);
		str l;
		for (auto &t : in) { if (!l.empty() && r.coin()) l += " "; l += t.s; }
		out.push_back(Tok{l, {}});
		break; }
	default: break;
	}
}

Toks gen_input(Rng &r, const Gram &g, const GenOpt &o)
{
	Toks t;
	vec<str> words = o.words;
	for (auto &x : g.n) if (x.t == T_STR) words.push_back(x.s);
	if (words.empty()) words = default_words();
	if (r.chance(3, 4)) { int b = 60; gen_walk(r, g, g.root, t, b); }
	else { int k = r.range(0, 6); for (int i = 0; i < k; i++) t.push_back(Tok{rand_word(r, words), {}}); }
	// mutations
	int m = r.chance(1, 2) ? 0 : r.range(1, 3);
	for (int i = 0; i < m; i++) {
		switch (r.range(0, 7)) {
		case 6: if (!t.empty()) { str &s = t[r.below(t.size())].s; if (!s.empty()) { char &c = s[r.below(s.size())]; if ((c | 32) >= 'a' && (c | 32) <= 'z') c ^= 32; } } break;
		case 7: if (!t.empty()) { str &s = t[r.below(t.size())].s; if (r.coin()) s += (char)r.range('a', 'z'); else if (!s.empty()) s += s.back(); } break;
		case 0: if (!t.empty()) t.erase(t.begin() + (long)r.below(t.size())); break;
		case 1: t.insert(t.begin() + (long)r.below(t.size() + 1), Tok{rand_word(r, words), {}}); break;
		case 2: if (!t.empty()) t[r.below(t.size())].s = rand_word(r, words); break;
		case 3: if (t.size() > 1) std::swap(t[r.below(t.size())], t[r.below(t.size())]); break;
		case 4: if (!t.empty()) t.push_back(t[r.below(t.size())]); break;
		case 5: if (!t.empty()) { str &s = t[r.below(t.size())].s; s = s.substr(0, r.below(s.size() + 1)); } break;
		}
	}
	size_t lim = 12;
	if (r.chance(1, 40) && !t.empty()) { lim = (size_t)r.range(13, 320); size_t per = 1 + r.below(t.size()); while (t.size() < lim) t.push_back(t[t.size() - per]); }
	if (t.size() > lim) t.resize(lim);
	for (auto &x : t) { size_t z = x.s.find('\0'); if (z != str::npos) x.s.resize(z); }
	return t;
}

// ---- building ----------------------------------------------------------------
static struct ec_config *cfg_children(const vec<struct ec_node *> &ch)
{
	struct ec_config *list = ec_config_list();
	if (!list) return NULL;
	for (struct ec_node *c : ch)
		if (ec_config_list_add(list, ec_config_node(ec_node_clone(c))) < 0) { ec_config_free(list); return NULL; }
	return list;
}
// add to config dict; frees value and dict on error
static struct ec_config *cset(struct ec_config *d, const char *k, struct ec_config *v)
{
	if (!d) { ec_config_free(v); return NULL; }
	if (!v) { ec_config_free(d); return NULL; }
	if (ec_config_dict_set(d, k, v) < 0) { ec_config_free(d); return NULL; }
	return d;
}
static struct ec_node *with_cfg(const char *type, const char *id, struct ec_config *c)
{
	if (!c) return NULL;
	struct ec_node *n = ec_node(type, id);
	if (!n) { ec_config_free(c); return NULL; }
	if (ec_node_set_config(n, c) < 0) { ec_node_free(n); return NULL; }
	return n;
}

DynEnv *g_dyn;
int dyn_choice(const GN &x, int n, const str &state)
{
	uint64_t h = fnv(state + "/" + std::to_string(n));
	uint64_t k = h % (x.ch.size() * (x.mx ? 2 : 1) + (x.mx ? 1 : 0));
	return k == x.ch.size() * 2 ? -1 : (int)(k % x.ch.size());
}
static struct ec_node *dyn_build(struct ec_pnode *pstate, void *opaque)
{
	HCHECK(g_dyn);
	int n = (int)(intptr_t)opaque;
	str st = ser(ec_pnode_get_root(pstate), *g_dyn->b, pstate);
	g_dyn->calls++;
	g_dyn->states.insert(st);
	const GN &x = g_dyn->g->n[n];
	int k = dyn_choice(x, n, st);
	if (k < 0) { g_dyn->nothing++; errno = ENOENT; return NULL; }
	if (!x.mn) return ec_node_clone(g_dyn->b->nodes[x.ch[k]]);
	Gram sub = *g_dyn->g; sub.root = x.ch[k];
	for (auto &y : sub.n) if (y.t == T_DYN) y.ch.clear();
	Rng r(fnv(st)); Built b2;
	if (!build(sub, r, b2)) return NULL;
	for (auto &e : b2.idx) g_dyn->b->idx[e.first] = e.second;
	g_dyn->fresh++;
	g_dyn->made.push_back(b2.root);
	return b2.root;
}
struct ec_node *(*g_custom_build)(const GN &x, const vec<struct ec_node *> &ch, Rng &r, bool &handled);
static struct ec_node *build_one(int self, const GN &x, const vec<struct ec_node *> &ch, Rng &r, int route)
{
	const char *id = x.id.empty() ? EC_NO_ID : x.id.c_str();
	if (g_custom_build) { bool done = false; struct ec_node *n = g_custom_build(x, ch, r, done); if (done) return n; }
	bool cfg = route < 0 ? r.chance(1, 3) : route == 1;
	auto child = [&]() { return ec_node_clone(ch[0]); };
	switch (x.t) {
	case T_STR:
		if (cfg) return with_cfg("str", id, cset(ec_config_dict(), "string", ec_config_string(x.s.c_str())));
		return ec_node_str(id, x.s.c_str());
	case T_ANY:
		if (x.s.empty()) return cfg ? ec_node("any", id) : ec_node_any(id, NULL);
		if (cfg) return with_cfg("any", id, cset(ec_config_dict(), "attr", ec_config_string(x.s.c_str())));
		return ec_node_any(id, x.s.c_str());
	case T_EMPTY: return ec_node("empty", id);
	case T_NONE: return ec_node("none", id);
	case T_SPACE: return ec_node("space", id);
	case T_FILE: return ec_node("file", id);
	case T_INT:
		if (!cfg && x.has_min && x.has_max) return ec_node_int(id, x.imin, x.imax, x.base);
		{
			struct ec_config *c = ec_config_dict();
			if (x.has_min) c = cset(c, "min", ec_config_i64(x.imin));
			if (x.has_max) c = cset(c, "max", ec_config_i64(x.imax));
			if (x.base != 0 || r.coin()) c = cset(c, "base", ec_config_u64(x.base));
			return with_cfg("int", id, c);
		}
	case T_UINT:
		if (!cfg && x.has_min && x.has_max) return ec_node_uint(id, x.umin, x.umax, x.base);
		{
			struct ec_config *c = ec_config_dict();
			if (x.has_min) c = cset(c, "min", ec_config_u64(x.umin));
			if (x.has_max) c = cset(c, "max", ec_config_u64(x.umax));
			if (x.base != 0 || r.coin()) c = cset(c, "base", ec_config_u64(x.base));
			return with_cfg("uint", id, c);
		}
	case T_RE:
		if (cfg) return with_cfg("re", id, cset(ec_config_dict(), "pattern", ec_config_string(x.s.c_str())));
		return ec_node_re(id, x.s.c_str());
	case T_SEQ: case T_OR: case T_SUBSET: {
		int k = route < 0 ? r.range(0, 2) : (route == 1 ? 1 : 0);
		if (x.t == T_SUBSET && k == 1) k = 0;
		if (k == 1) {
			struct ec_config *l = cfg_children(ch);
			if (!l) return NULL;
			return with_cfg(x.t == T_SEQ ? "seq" : "or", id, cset(ec_config_dict(), "children", l));
		}
		if (k == 2 && ch.size() <= 3) {
			struct ec_node *a[3] = { NULL, NULL, NULL };
			for (size_t i = 0; i < ch.size(); i++) a[i] = ec_node_clone(ch[i]);
			auto f = x.t == T_SEQ ? __ec_node_seq : x.t == T_OR ? __ec_node_or : __ec_node_subset;
			switch (ch.size()) {
			case 0: return f(id, EC_VA_END);
			case 1: return f(id, a[0], EC_VA_END);
			case 2: return f(id, a[0], a[1], EC_VA_END);
			default: return f(id, a[0], a[1], a[2], EC_VA_END);
			}
		}
		struct ec_node *n = ec_node(nt_name[x.t], id);
		if (!n) return NULL;
		auto add = x.t == T_SEQ ? ec_node_seq_add : x.t == T_OR ? ec_node_or_add : ec_node_subset_add;
		for (struct ec_node *c : ch)
			if (add(n, ec_node_clone(c)) < 0) { ec_node_free(n); return NULL; }
		return n; }
	case T_MANY: {
		if (!cfg) return ec_node_many(id, child(), x.mn, x.mx);
		struct ec_config *c = cset(ec_config_dict(), "child", ec_config_node(child()));
		if (c && (x.mn || r.coin())) c = cset(c, "min", ec_config_u64(x.mn));
		if (c && (x.mx || r.coin())) c = cset(c, "max", ec_config_u64(x.mx));
		return with_cfg("many", id, c); }
	case T_OPTION: if (!cfg) return ec_node_option(id, child()); return with_cfg("option", id, cset(ec_config_dict(), "child", ec_config_node(child())));
	case T_ONCE: if (!cfg) return ec_node_once(id, child()); return with_cfg("once", id, cset(ec_config_dict(), "child", ec_config_node(child())));
	case T_BYPASS: if (!cfg) return ec_node_bypass(id, child()); return with_cfg("bypass", id, cset(ec_config_dict(), "child", ec_config_node(child())));
	case T_DYN: return ec_node_dynamic(id, dyn_build, (void *)(intptr_t)self);
	case T_COND:
		if (!cfg) return ec_node_cond(id, x.s.c_str(), child());
		return with_cfg("cond", id, cset(cset(ec_config_dict(), "expr", ec_config_string(x.s.c_str())), "child", ec_config_node(child())));
	case T_SH_LEX: return ec_node_sh_lex(id, child());
	case T_RE_LEX: {
		if (cfg) {
			struct ec_config *l = ec_config_list();
			if (!l) return NULL;
			for (auto &p : x.pats) {
				struct ec_config *d = cset(ec_config_dict(), "pattern", ec_config_string(p.pat.c_str()));
				if (d) d = cset(d, "keep", ec_config_bool(p.keep));
				if (d && !p.attr.empty()) d = cset(d, "attr", ec_config_string(p.attr.c_str()));
				if (!d) { ec_config_free(l); return NULL; }
				if (ec_config_list_add(l, d) < 0) { ec_config_free(l); return NULL; }
			}
			struct ec_config *c = cset(ec_config_dict(), "patterns", l);
			if (c) c = cset(c, "child", ec_config_node(child()));
			return with_cfg("re_lex", id, c);
		}
		struct ec_node *n = ec_node_re_lex(id, child());
		if (!n) return NULL;
		for (auto &p : x.pats)
			if (ec_node_re_lex_add(n, p.pat.c_str(), p.keep, p.attr.empty() ? NULL : p.attr.c_str()) < 0) { ec_node_free(n); return NULL; }
		return n; }
	default: return NULL;
	}
}

void Built::free_all()
{
	if (keep) { for (auto n : nodes) ec_node_free(n); }
	nodes.clear(); idx.clear();
	ec_node_free(root);
	root = NULL;
}

static char *dupc(const str &s)
{
	// attribute strings owned by the node: allocate through the library allocator
	char *p = (char *)ec_malloc_func(s.size() + 1);
	if (p) memcpy(p, s.c_str(), s.size() + 1);
	return p;
}

bool build(const Gram &g, Rng &r, Built &b, bool keep_refs, int route)
{
	size_t N = g.n.size();
	vec<struct ec_node *> ref(N, NULL);
	vec<char> late(N, 0);
	auto fail = [&]() { for (auto n : ref) ec_node_free(n); return false; };
	// bypass nodes that are the target of a back edge are created first, linked last
	vec<int> order; vec<int> st(N, 0);
	std::function<void(int)> dfs = [&](int v) {
		st[v] = 1;
		for (int c : g.n[v].ch) {
			if (st[c] == 1) { HCHECK(g.n[c].t == T_BYPASS); late[c] = 1; }
			else if (st[c] == 0) dfs(c);
		}
		st[v] = 2;
		order.push_back(v);
	};
	dfs(g.root);
	for (size_t i = 0; i < N; i++)
		if (late[i]) {
			ref[i] = ec_node("bypass", g.n[i].id.empty() ? EC_NO_ID : g.n[i].id.c_str());
			if (!ref[i]) return fail();
		}
	for (int v : order) {
		if (!late[v]) {
			vec<struct ec_node *> ch;
			for (int c : g.n[v].ch) ch.push_back(ref[c]);
			ref[v] = build_one(v, g.n[v], ch, r, route);
			if (!ref[v]) { b.failed = v; return fail(); }
		}
		if (!g.n[v].help.empty()) {
			char *s = dupc(g.n[v].help);
			if (!s || ec_dict_set(ec_node_attrs(ref[v]), "help", s, ec_free_func) < 0) return fail();
		}
		if (!g.n[v].desc.empty()) {
			char *s = dupc(g.n[v].desc);
			if (!s || ec_dict_set(ec_node_attrs(ref[v]), "desc", s, ec_free_func) < 0) return fail();
		}
	}
	for (size_t i = 0; i < N; i++)
		if (late[i] && ec_node_bypass_set_child(ref[i], ec_node_clone(ref[g.n[i].ch[0]])) < 0) return fail();
	b.root = ec_node_clone(ref[g.root]);
	b.nodes = ref;
	b.idx.clear();
	for (size_t i = 0; i < N; i++) if (ref[i]) b.idx[ref[i]] = (int)i;
	b.keep = keep_refs;
	if (!keep_refs) for (auto n : ref) ec_node_free(n);
	return true;
}

struct ec_strvec *make_strvec(const Toks &t)
{
	struct ec_strvec *v = ec_strvec();
	if (!v) return NULL;
	for (size_t i = 0; i < t.size(); i++) {
		if (ec_strvec_add(v, t[i].s.c_str()) < 0) { ec_strvec_free(v); return NULL; }
		if (!t[i].attrs.empty()) {
			struct ec_dict *d = ec_dict();
			if (!d) { ec_strvec_free(v); return NULL; }
			for (auto &a : t[i].attrs)
				if (ec_dict_set(d, a.c_str(), NULL, NULL) < 0) { ec_dict_free(d); ec_strvec_free(v); return NULL; }
			if (ec_strvec_set_attrs(v, i, d) < 0) { ec_strvec_free(v); return NULL; }
		}
	}
	return v;
}

Toks read_strvec(const struct ec_strvec *v)
{
	Toks t;
	if (!v) return t;
	for (size_t i = 0; i < ec_strvec_len(v); i++) {
		Tok k;
		const char *s = ec_strvec_val(v, i);
		k.s = s ? s : "<null>";
		const struct ec_dict *d = ec_strvec_get_attrs(v, i);
		if (d) for (auto *it = ec_dict_iter(d); it; it = ec_dict_iter_next(it)) k.attrs.insert(ec_dict_iter_get_key(it));
		t.push_back(k);
	}
	return t;
}

// ---- trees ---------------------------------------------------------------------
std::unique_ptr<MP> mp_dup(const MP *m, MP *parent)
{
	std::unique_ptr<MP> n(new MP(m->g));
	n->has = m->has; n->toks = m->toks; n->parent = parent;
	for (auto &c : m->ch) n->ch.push_back(mp_dup(c.get(), n.get()));
	return n;
}
str ser(const MP *m, const MP *mark)
{
	str o = (m == mark ? "*" : "") + std::to_string(m->g) + (m->has ? show_toks(m->toks) : str("-"));
	if (!m->ch.empty()) {
		o += "{";
		for (auto &c : m->ch) o += ser(c.get(), mark) + ";";
		o += "}";
	}
	return o;
}
static str ser_rec(const struct ec_pnode *p, const Built &b, const struct ec_pnode *mark, int depth)
{
	if (depth > 5000) return "...";
	auto it = b.idx.find(ec_pnode_get_node(p));
	str o = p == mark ? "*" : "";
	if (it != b.idx.end()) o += std::to_string(it->second);
	else o += ec_pnode_get_node(p) ? str("?") + ec_node_get_type_name(ec_pnode_get_node(p)) : str("?null");
	const struct ec_strvec *v = ec_pnode_get_strvec(p);
	o += v ? show_toks(read_strvec(v)) : str("-");
	const struct ec_pnode *c = ec_pnode_get_first_child(p);
	if (c) {
		o += "{";
		for (; c; c = ec_pnode_next(c)) o += ser_rec(c, b, mark, depth + 1) + ";";
		o += "}";
	}
	return o;
}
str ser(const struct ec_pnode *p, const Built &b, const struct ec_pnode *mark) { return ser_rec(p, b, mark, 0); }

// ---- conditions ------------------------------------------------------------------
static str rnd_id(Rng &r) { return r.coin() ? str("dup") + (char)('0' + r.below(3)) : "id" + std::to_string(r.below(14)); }
static str gen_nodeset(Rng &r, int d, bool err);
static str gen_int(Rng &r, int d, bool err)
{
	if (d <= 0 || r.chance(1, 3)) {
		if (err && r.chance(1, 8)) return r.coin() ? "9223372036854775808" : "08";
		if (r.chance(1, 8)) return r.pick(vec<str>{"9223372036854775807", "010", "00", "65536"});
		return std::to_string(r.below(6));
	}
	return "count(" + gen_nodeset(r, d - 1, err) + ")";
}
static str sp(Rng &r) { return r.chance(1, 5) ? (r.coin() ? " " : "\t ") : ""; }
static str gen_nodeset(Rng &r, int d, bool err)
{
	int k = r.range(0, 7);
	if (d <= 0 || k <= 2) return (r.coin() ? "root" : "current") + sp(r) + "(" + sp(r) + ")";
	if (k <= 5) return "find(" + sp(r) + gen_nodeset(r, d - 1, err) + sp(r) + "," + sp(r) + rnd_id(r) + ")";
	return "first_child(" + gen_nodeset(r, d - 1, err) + sp(r) + ")";
}
str gen_cond(Rng &r, int d, bool err)
{
	if (err && r.chance(1, 15)) {
		static const vec<str> bad = {"nosuch()", "root(1)", "bool()", "or(1)", "and(1)", "first_child(1)", "find(root(), 1)", "find(a, b)", "cmp(eq, 1, a)", "cmp(xx, 1, 1)", "cmp(lt, a, b)", "cmp(ge, root(), root())", "count(1)", "99999999999999999999", "cmp(eq, 1)", "current(1)", "bool(1, 2)", "first_child()", "cmp(1, 1, 1)", "count(root(), root())", "find(root())"};
		return r.pick(bad);
	}
	switch (d <= 0 ? r.range(6, 9) : r.range(0, 9)) {
	case 0: case 1: { str s = (r.coin() ? "or" : "and") + sp(r) + "(" + gen_cond(r, d - 1, err); int n = r.range(1, 3); for (int i = 0; i < n; i++) s += sp(r) + "," + sp(r) + gen_cond(r, d - 1, err); return s + ")"; }
	case 2: return "bool(" + gen_cond(r, d - 1, err) + ")";
	case 3: case 4: {
		static const vec<str> op = {"eq", "ne", "lt", "gt", "le", "ge"};
		return "cmp(" + r.pick(op) + "," + sp(r) + gen_int(r, d, err) + "," + sp(r) + gen_int(r, d, err) + ")"; }
	case 5: {
		str op = r.coin() ? "eq" : "ne";
		int k = r.range(0, 2);
		if (k == 0) return "cmp(" + op + ", " + gen_nodeset(r, d, err) + ", " + gen_nodeset(r, d, err) + ")";
		if (k == 1) return "cmp(" + op + ", " + rnd_id(r) + "," + rnd_id(r) + ")";
		return "cmp(" + op + ", bool(" + gen_cond(r, d - 1, err) + "), bool(" + gen_nodeset(r, d, err) + "))"; }
	case 6: return gen_int(r, d, err);
	case 7: return r.chance(1, 6) ? r.pick(vec<str>{"_", "x.y", "A9", "root"}) : gen_nodeset(r, d + 1, err);
	default: return gen_nodeset(r, d + 2, err);
	}
}
struct CAst { int k; str s; vec<CAst> a; };    // k: 0 function, 1 string, 2 integer
static bool cond_lex(const str &s, vec<str> &t)
{
	auto al = [](char c) { return (c >= 'a' && c <= 'z') || (c >= 'A' && c <= 'Z') || c == '_'; };
	auto dg = [](char c) { return c >= '0' && c <= '9'; };
	for (size_t i = 0; i < s.size();) {
		size_t j = i;
		if (al(s[i])) { while (j < s.size() && (al(s[j]) || dg(s[j]) || s[j] == '.')) j++; }
		else if (dg(s[i])) { while (j < s.size() && dg(s[j])) j++; }
		else if (strchr("(),", s[i])) j++;
		else if (s[i] == ' ' || s[i] == '\t') { i++; continue; }
		else return false;
		t.push_back(s.substr(i, j - i));
		i = j;
	}
	return true;
}
static bool cond_arg(const vec<str> &t, size_t &p, CAst &o)
{
	if (p >= t.size() || strchr("(),", t[p][0])) return false;
	bool num = t[p][0] >= '0' && t[p][0] <= '9';
	o.s = t[p++]; o.k = num ? 2 : 1;
	if (num || p >= t.size() || t[p] != "(") return true;
	// identifier followed by "(": only a function call can continue
	p++; o.k = 0;
	if (p < t.size() && t[p] == ")") { p++; return true; }
	for (;;) {
		o.a.emplace_back();
		if (!cond_arg(t, p, o.a.back())) return false;
		if (p >= t.size()) return false;
		if (t[p] == ")") { p++; return true; }
		if (t[p] != ",") return false;
		p++;
	}
}
static bool cond_parse(const str &s, CAst &o)
{
	vec<str> t; size_t p = 0;
	return cond_lex(s, t) && cond_arg(t, p, o) && p == t.size();
}
bool cond_syntax(const str &s) { CAst a; return cond_parse(s, a); }
struct CVal { int t = 0; std::set<MP *> ns; bool b = false; int64_t i = 0; str s; };   // 0 set 1 bool 2 int 3 str
static bool truth(const CVal &v) { return v.t == 0 ? !v.ns.empty() : v.t == 1 ? v.b : v.t == 2 ? v.i != 0 : !v.s.empty(); }
static CVal ceval(const Gram &g, const CAst &a, MP *self)
{
	CVal o;
	if (a.k == 1) { o.t = 3; o.s = a.s; return o; }
	if (a.k == 2) { o.t = 2; if (!ref_int(a.s, 0, o.i)) throw CondErr(); return o; }
	vec<CVal> in;
	for (auto &x : a.a) in.push_back(ceval(g, x, self));
	size_t n = in.size();
	auto need = [](bool c) { if (!c) throw CondErr(); };
	if (a.s == "root") { need(n == 0); o.ns.insert(self->root()); }
	else if (a.s == "current") { need(n == 0); o.ns.insert(self); }
	else if (a.s == "bool") { need(n == 1); o.t = 1; o.b = truth(in[0]); }
	else if (a.s == "or" || a.s == "and") { need(n >= 2); size_t i = 0; while (i < n - 1 && truth(in[i]) != (a.s == "or")) i++; o = in[i]; }
	else if (a.s == "first_child") { need(n == 1 && in[0].t == 0); for (MP *m : in[0].ns) if (!m->ch.empty()) o.ns.insert(m->ch[0].get()); }
	else if (a.s == "find") {
		need(n == 2 && in[0].t == 0 && in[1].t == 3);
		std::function<void(MP *)> f = [&](MP *m) { if (g.n[m->g].id == in[1].s) o.ns.insert(m); for (auto &c : m->ch) f(c.get()); };
		for (MP *m : in[0].ns) f(m);
	} else if (a.s == "count") { need(n == 1 && in[0].t == 0); o.t = 2; o.i = (int64_t)in[0].ns.size(); }
	else if (a.s == "cmp") {
		need(n == 3 && in[0].t == 3 && in[1].t == in[2].t);
		const str &op = in[0].s; const CVal &x = in[1], &y = in[2];
		need(op == "eq" || op == "ne" || ((op == "lt" || op == "gt" || op == "le" || op == "ge") && x.t == 2));
		bool eq = x.t == 0 ? x.ns == y.ns : x.t == 1 ? x.b == y.b : x.t == 2 ? x.i == y.i : x.s == y.s;
		o.t = 1;
		o.b = op == "eq" ? eq : op == "ne" ? !eq : op == "lt" ? x.i < y.i : op == "gt" ? x.i > y.i : op == "le" ? x.i <= y.i : x.i >= y.i;
	} else throw CondErr();
	return o;
}
bool cond_eval(const Gram &g, const str &s, MP *self)
{
	static std::map<str, CAst> cache;
	if (cache.size() > 2000) cache.clear();
	auto it = cache.find(s);
	if (it == cache.end()) { CAst a; HCHECK(cond_parse(s, a)); it = cache.emplace(s, a).first; }
	return truth(ceval(g, it->second, self));
}

// ---- reference semantics -----------------------------------------------------
void Model::tick()
{
	if (++steps > budget) skip_case("model-budget");
}

static Toks sub(const Toks &t, size_t off, size_t n = (size_t)-1)
{
	Toks o;
	for (size_t i = off; i < t.size() && i - off < n; i++) o.push_back(t[i]);
	return o;
}

int Model::parse_child(int n, MP *p, const Toks &t)
{
	if (++depth > 400) skip_case("model-depth");
	MP *c = p->link(n);
	int ret = do_parse(n, c, t);
	depth--;
	if (ret == NOMATCH) { p->pop(); return NOMATCH; }
	HCHECK((size_t)ret <= t.size());
	c->has = true; c->toks = sub(t, 0, (size_t)ret);
	return ret;
}

int Model::parse(int n, const Toks &t, std::unique_ptr<MP> &tree)
{
	tree.reset(new MP(n));
	int ret = do_parse(n, tree.get(), t);
	if (ret == NOMATCH) { tree->ch.clear(); return ret; }
	tree->has = true; tree->toks = sub(t, 0, (size_t)ret);
	return ret;
}

static bool tree_has(const MP *m, int g)
{
	if (m->g == g) return true;
	for (auto &c : m->ch) if (tree_has(c.get(), g)) return true;
	return false;
}

void Model::subset(MP *self, const vec<int> &tab, const Toks &t, Sub &out)
{
	// largest number of distinct children, first found in declaration order wins ties
	vec<std::unique_ptr<MP>> best;
	Sub bs;
	size_t base = self->ch.size();
	for (size_t i = 0; i < tab.size(); i++) {
		tick();
		int ret = parse_child(tab[i], self, t);
		if (ret == NOMATCH) continue;
		vec<int> rest = tab;
		rest.erase(rest.begin() + (long)i);
		Sub s;
		subset(self, rest, sub(t, (size_t)ret), s);
		if (s.nodes + 1 > bs.nodes) {
			best.clear();
			for (size_t k = base; k < self->ch.size(); k++) best.push_back(std::move(self->ch[k]));
			bs.nodes = s.nodes + 1; bs.len = s.len + (size_t)ret;
		}
		self->ch.resize(base);
	}
	for (auto &b : best) self->ch.push_back(std::move(b));
	out = bs;
}

static bool cspace(unsigned char c) { return c == ' ' || (c >= 9 && c <= 13); }

int Model::do_parse(int n, MP *self, const Toks &t)
{
	tick();
	const GN &x = g.n[n];
	switch (x.t) {
	case T_STR: return !t.empty() && t[0].s == x.s ? 1 : NOMATCH;
	case T_ANY:
		if (t.empty()) return NOMATCH;
		if (!x.s.empty() && !t[0].attrs.count(x.s)) return NOMATCH;
		return 1;
	case T_FILE: return t.empty() ? NOMATCH : 1;
	case T_EMPTY: return 0;
	case T_NONE: return NOMATCH;
	case T_SPACE:
		if (t.empty() || t[0].s.empty()) return NOMATCH;
		for (unsigned char c : t[0].s) if (!cspace(c)) return NOMATCH;
		return 1;
	case T_INT: {
		int64_t v;
		if (t.empty() || !ref_int(t[0].s, x.base, v)) return NOMATCH;
		if (x.has_min && v < x.imin) return NOMATCH;
		if (x.has_max && v > x.imax) return NOMATCH;
		return 1; }
	case T_UINT: {
		uint64_t v;
		if (t.empty() || !ref_uint(t[0].s, x.base, v)) return NOMATCH;
		if (x.has_min && v < x.umin) return NOMATCH;
		if (x.has_max && v > x.umax) return NOMATCH;
		return 1; }
	case T_RE: return !t.empty() && ref_re_full(x.s, t[0].s) ? 1 : NOMATCH;
	case T_SEQ: {
		size_t off = 0;
		for (int c : x.ch) {
			int ret = parse_child(c, self, sub(t, off));
			if (ret == NOMATCH) { self->ch.clear(); return NOMATCH; }
			off += (size_t)ret;
		}
		return (int)off; }
	case T_OR:
		for (int c : x.ch) {
			int ret = parse_child(c, self, t);
			if (ret != NOMATCH) return ret;
		}
		return NOMATCH;
	case T_MANY: {
		size_t off = 0, count = 0;
		while (x.mx == 0 || count < x.mx) {
			int ret = parse_child(x.ch[0], self, sub(t, off));
			if (ret == NOMATCH) break;
			if (ret == 0) { self->pop(); break; }
			off += (size_t)ret; count++;
		}
		if (count < x.mn) { self->ch.clear(); return NOMATCH; }
		return (int)off; }
	case T_OPTION: { int ret = parse_child(x.ch[0], self, t); return ret == NOMATCH ? 0 : ret; }
	case T_SUBSET: {
		if (t.empty()) return NOMATCH;
		Sub s; subset(self, x.ch, t, s);
		return (int)s.len; }
	case T_ONCE:
		if (tree_has(self->root(), x.ch[0])) return NOMATCH;
		return parse_child(x.ch[0], self, t);
	case T_BYPASS: return parse_child(x.ch[0], self, t);
	case T_DYN: {
		str st = ser(self->root(), self);
		dyn_states.insert(st);
		int k = dyn_choice(x, n, st);
		if (k < 0) throw CondErr();
		return parse_child(x.ch[k], self, t); }
	case T_COND: {
		int ret = parse_child(x.ch[0], self, t);
		if (ret == NOMATCH) return NOMATCH;
		if (!cond_eval(g, x.s, self)) { self->pop(); return NOMATCH; }
		return ret; }
	case T_SH_LEX: case T_RE_LEX: {
		Toks in;
		if (!t.empty()) {
			if (x.t == T_SH_LEX) {
				ShLex l = ref_shlex(t[0].s, true, false);
				if (!l.ok) return NOMATCH;
				in = toks_of(l.w);
			} else if (!ref_relex(x.pats, t[0].s, in)) return NOMATCH;
		}
		int ret = parse_child(x.ch[0], self, in);
		if (ret == NOMATCH) return NOMATCH;
		if ((size_t)ret != in.size()) { self->pop(); return NOMATCH; }
		return t.empty() ? 0 : 1; }
	default: HCHECK(!"type");
	}
	return NOMATCH;
}

void Model::complete(int n, const Toks &t)
{
	items.clear();
	complete_child(n, NULL, t);
}

void Model::seq_complete(const vec<int> &tab, size_t k, MP *self, const Toks &t)
{
	tick();
	if (k >= tab.size()) return;
	complete_child(tab[k], self, t);
	for (size_t i = 0; i < t.size(); i++) {
		int ret = parse_child(tab[k], self, sub(t, 0, i));
		if (ret == NOMATCH) continue;
		if ((size_t)ret == i) seq_complete(tab, k + 1, self, sub(t, i));
		self->pop();
	}
}

void Model::many_complete(int child, unsigned max, MP *self, const Toks &t)
{
	tick();
	complete_child(child, self, t);
	if (max == 1) return;
	if (max) max--;
	for (size_t i = 1; i < t.size(); i++) {
		int ret = parse_child(child, self, sub(t, 0, i));
		if (ret == NOMATCH) continue;
		if ((size_t)ret == i) many_complete(child, max, self, sub(t, i));
		self->pop();
	}
}

void Model::subset_complete(vec<int> tab, MP *self, const Toks &t)
{
	tick();
	for (int c : tab) complete_child(c, self, t);
	for (size_t i = 0; i < tab.size(); i++) {
		int ret = parse_child(tab[i], self, t);
		if (ret == NOMATCH) continue;
		vec<int> rest = tab;
		rest.erase(rest.begin() + (long)i);
		subset_complete(rest, self, sub(t, (size_t)ret));
		self->pop();
	}
}

void Model::complete_child(int n, MP *cur, const Toks &t)
{
	tick();
	if (++depth > 400) skip_case("model-depth");
	std::unique_ptr<MP> holder;
	MP *self;
	if (cur) self = cur->link(n);
	else { holder.reset(new MP(n)); self = holder.get(); }
	const GN &x = g.n[n];
	switch (x.t) {
	case T_STR:
		if (t.size() == 1 && x.s.compare(0, t[0].s.size(), t[0].s) == 0)
			items.push_back(Item{EC_COMP_FULL, n, t[0].s, x.s, x.s.substr(t[0].s.size()), x.s, ser(self->root(), self), ngrp++});
		break;
	case T_NONE: break;
	case T_SEQ: seq_complete(x.ch, 0, self, t); break;
	case T_OR: for (int c : x.ch) complete_child(c, self, t); break;
	case T_MANY: many_complete(x.ch[0], x.mx, self, t); break;
	case T_OPTION: case T_BYPASS: case T_COND: complete_child(x.ch[0], self, t); break;
	case T_ONCE: if (!tree_has(self->root(), x.ch[0])) complete_child(x.ch[0], self, t); break;
	case T_SUBSET: subset_complete(x.ch, self, t); break;
	case T_SH_LEX:
		if (t.size() == 1) {
			ShLex l = ref_shlex(t[0].s, false, true);
			if (!l.ok || l.ambiguous_trail) skip_case("ambiguous-shlex");
			size_t before = items.size();
			complete_child(x.ch[0], self, toks_of(l.w));
			if (l.quote)
				for (size_t i = before; i < items.size(); i++)
					if (items[i].type == EC_COMP_FULL) {
						items[i].full = str(1, l.quote) + items[i].full + l.quote;
						items[i].completion += l.quote;
						items[i].quoted = true;
					}
		}
		break;
	case T_DYN: {
		str st = ser(self->root(), self);
		dyn_states.insert(st);
		int k = dyn_choice(x, n, st);
		if (k < 0) throw CondErr();
		complete_child(x.ch[k], self, t);
		break; }
	case T_FILE: file_hit = true; break;
	default:
		if (t.size() == 1) items.push_back(Item{EC_COMP_UNKNOWN, n, "", "", "", "", ser(self->root(), self), ngrp++});
		break;
	}
	if (cur) cur->pop();
	depth--;
}

// ---- reference lexers ---------------------------------------------------------
ShLex ref_shlex(const str &l, bool strict, bool trailsp)
{
	ShLex o; o.ok = true;
	size_t i = 0, n = l.size();
	bool last_blank = true;     // an empty line counts as ending in a blank
	while (i < n) {
		if (cspace((unsigned char)l[i])) { i++; last_blank = true; continue; }
		last_blank = false;
		if (l[i] == '#') {
			while (i < n && l[i] != '\n' && l[i] != '\r') i++;
			if (i < n) { i++; if (i == n) o.ambiguous_trail = true; }
			continue;
		}
		str w; bool open = false;
		while (i < n && !cspace((unsigned char)l[i])) {
			char c = l[i++];
			if (c == '\'') {
				size_t e = l.find('\'', i);
				if (e == str::npos) { w += l.substr(i); i = n; open = true; o.quote = c; break; }
				w += l.substr(i, e - i); i = e + 1;
			} else if (c == '"') {
				bool closed = false;
				while (i < n) {
					if (l[i] == '"') { closed = true; i++; break; }
					if (l[i] == '\\') { i++; if (i >= n) break; }
					w += l[i++];
				}
				if (!closed) { open = true; o.quote = c; break; }
			} else if (c == '\\') {
				if (i >= n) { open = true; break; }
				w += l[i++];
			} else w += c;
		}
		if (open && strict) { o.ok = false; o.err = EBADMSG; return o; }
		o.w.push_back(w);
	}
	if (trailsp && last_blank) o.w.push_back("");
	return o;
}

static std::map<str, regex_t> &re_cache() { static std::map<str, regex_t> m; return m; }
static regex_t *re_get(const str &p)
{
	auto it = re_cache().find(p);
	if (it == re_cache().end()) {
		if (re_cache().size() > 2000) { for (auto &e : re_cache()) regfree(&e.second); re_cache().clear(); }
		regex_t r;
		if (regcomp(&r, p.c_str(), REG_EXTENDED) != 0) return NULL;
		it = re_cache().emplace(p, r).first;
	}
	return &it->second;
}
bool pat_ok(const str &p) { return re_get(p) != NULL; }
bool ref_re_full(const str &pat, const str &text)
{
	regex_t *r = re_get("^(" + pat + ")$");
	LCHECK(r);
	return regexec(r, text.c_str(), 0, NULL, 0) == 0;
}
bool ref_relex(const vec<RePat> &p, const str &text, Toks &out)
{
	size_t off = 0;
	while (off < text.size()) {
		bool hit = false;
		for (auto &x : p) {
			regex_t *r = re_get("^(" + x.pat + ")");
			LCHECK(r);
			regmatch_t m;
			if (regexec(r, text.c_str() + off, 1, &m, 0) != 0 || m.rm_eo <= 0) continue;
			if (x.keep) { Tok t; t.s = text.substr(off, (size_t)m.rm_eo); if (!x.attr.empty()) t.attrs.insert(x.attr); out.push_back(t); }
			off += (size_t)m.rm_eo; hit = true;
			break;
		}
		if (!hit) return false;
	}
	return true;
}

// integers: [blanks][sign][0x|0 prefix as strtol]digits, whole text, in range of 64 bits
static bool int_digits(const str &t, unsigned base, bool &neg, unsigned __int128 &v)
{
	size_t i = 0;
	while (i < t.size() && cspace((unsigned char)t[i])) i++;
	neg = false;
	if (i < t.size() && (t[i] == '+' || t[i] == '-')) { neg = t[i] == '-'; i++; }
	auto dig = [](char c) -> int {
		if (c >= '0' && c <= '9') return c - '0';
		if (c >= 'a' && c <= 'z') return c - 'a' + 10;
		if (c >= 'A' && c <= 'Z') return c - 'A' + 10;
		return 99;
	};
	if ((base == 0 || base == 16) && i + 2 < t.size() && t[i] == '0' && (t[i + 1] == 'x' || t[i + 1] == 'X') && dig(t[i + 2]) < 16) { i += 2; base = 16; }
	else if (base == 0) base = i < t.size() && t[i] == '0' ? 8 : 10;
	if (i >= t.size()) return false;
	v = 0;
	const unsigned __int128 lim = (unsigned __int128)1 << 100;
	for (; i < t.size(); i++) {
		int d = dig(t[i]);
		if (d >= (int)base) return false;
		if (v < lim) v = v * base + (unsigned)d;
	}
	return true;
}
bool ref_int(const str &t, unsigned base, int64_t &out)
{
	bool neg; unsigned __int128 v;
	if (!int_digits(t, base, neg, v)) return false;
	if (neg) { if (v > ((unsigned __int128)1 << 63)) return false; out = (int64_t)(0 - (uint64_t)v); }
	else { if (v > (((unsigned __int128)1 << 63) - 1)) return false; out = (int64_t)(uint64_t)v; }
	return true;
}
bool ref_uint(const str &t, unsigned base, uint64_t &out)
{
	bool neg; unsigned __int128 v;
	if (!int_digits(t, base, neg, v)) return false;
	if (v > UINT64_MAX) return false;
	if (neg) return false;   // see DESIGN.md: negative text is not an unsigned integer
	out = (uint64_t)v;
	return true;
}
