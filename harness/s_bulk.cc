// The same oracles at sizes the other workloads do not reach: thousands of elements, very long texts,
// deep nesting. Each case drives one kind of object; the kinds are those the property under check is about.
#include "gram.h"
#include "checks.h"
#include <array>

namespace {

int size_of(Rng &r, int lo, int hi)
{
	static const vec<int> edge = {7, 8, 9, 15, 16, 17, 31, 32, 33, 63, 64, 65, 127, 128, 129, 255, 256, 257, 511, 512, 513, 1023, 1024, 1025, 2047, 2048, 4095, 4096, 4097};
	if (r.coin()) for (int k = 0; k < 6; k++) { int v = r.pick(edge); if (v >= lo && v <= hi) return v; }
	return r.range(lo, hi);
}
str text_of(Rng &r, size_t n)
{
	static const char alpha[] = "abcdefghijklmnopqrstuvwxyz0123456789_-.";
	str s; s.reserve(n);
	for (size_t i = 0; i < n; i++) s += alpha[r.below(sizeof alpha - 1)];
	return s;
}
GN mk(NT t, const str &s = "") { GN x; x.t = t; x.s = s; x.id = "i"; return x; }

// ---- grammars ------------------------------------------------------------------
void grammar(Rng &r)
{
	Gram g; Toks in; vec<Toks> ins; bool completes = true;
	int kind = r.range(0, 10);
	str what;
	switch (kind) {
	case 0: { // long sequence
		int n = size_of(r, 15, 160); GN s = mk(T_SEQ);
		for (int i = 0; i < n; i++) { str w = r.chance(1, 3) ? "w" : "w" + std::to_string(i); s.ch.push_back(g.add(mk(T_STR, w))); in.push_back(Tok{w, {}}); }
		g.root = g.add(s); what = "sequence of " + std::to_string(n);
		break; }
	case 1: { // many choices
		int n = size_of(r, 30, 450); GN s = mk(T_OR);
		for (int i = 0; i < n; i++) s.ch.push_back(g.add(r.chance(1, 20) ? mk(T_ANY) : mk(T_STR, (r.coin() ? "aa" : "ab") + std::to_string(i))));
		g.root = g.add(s); in.push_back(Tok{g.n[s.ch[r.below((uint64_t)n)]].s, {}}); if (in[0].s.empty()) in[0].s = "x";
		what = "choice of " + std::to_string(n);
		for (auto w : {"", "a", "aa", "ab1", "ab12", "b"}) ins.push_back(toks_of({w}));
		break; }
	case 2: { // long repetition, bounds near the count
		int n = size_of(r, 15, 300); GN m = mk(T_MANY); m.ch = {g.add(r.coin() ? mk(T_STR, "x") : mk(T_ANY))};
		m.mn = r.coin() ? 0 : (unsigned)(n + r.range(-2, 2)); m.mx = r.coin() ? 0 : (unsigned)(n + r.range(-2, 2));
		static const vec<unsigned> huge = {255, 256, 257, 258, 65535, 65536, 65537, 65538, 65550, 0x7fffffffu, 0x80000000u, 0x80000001u, 0xfffffffeu};
		if (r.chance(1, 3)) { m.mx = r.pick(huge); n = r.range(0, 30); if (m.mn > (unsigned)n + 2) m.mn = r.coin() ? 0 : (unsigned)n; }
		if (r.chance(1, 6)) { m.mn = r.pick(huge); m.mx = r.coin() ? 0 : 0xfffffffeu; n = r.range(0, 30); }
		if (m.mx && m.mn > m.mx) m.mn = m.mx;
		g.root = g.add(m);
		for (int i = 0; i < n; i++) in.push_back(Tok{"x", {}});
		completes = n <= 40;
		what = "repetition of " + std::to_string(n);
		break; }
	case 3: { // deep nesting
		int n = size_of(r, 20, 120); int c = g.add(mk(T_STR, "deep"));
		for (int i = 0; i < n; i++) { static const vec<int> ts = {T_SEQ, T_OR, T_OPTION, T_BYPASS, T_ONCE}; GN x = mk((NT)r.pick(ts)); if (x.t == T_ONCE) x.id = "o" + std::to_string(i); x.ch = {c}; c = g.add(x); }
		g.root = c; in.push_back(Tok{"deep", {}}); ins.push_back(toks_of({"d"}));
		what = "nesting of " + std::to_string(n);
		break; }
	case 4: { // long texts
		size_t n = (size_t)size_of(r, 200, r.chance(1, 4) ? 70000 : 9000); str t = text_of(r, n);
		GN s = mk(T_OR); s.ch = {g.add(mk(T_STR, t)), g.add(mk(T_STR, t + "z")), g.add(mk(T_STR, t.substr(0, n - 1)))};
		g.root = g.add(s); in.push_back(Tok{t, {}}); ins.push_back(toks_of({t.substr(0, n / 2)})); ins.push_back(toks_of({t.substr(0, n - 1)})); ins.push_back(toks_of({t + "zz"}));
		what = "text of " + std::to_string(n);
		break; }
	case 5: { // subset
		int n = r.range(5, 7); GN s = mk(T_SUBSET); vec<int> ord;
		for (int i = 0; i < n; i++) { s.ch.push_back(g.add(mk(T_STR, "s" + std::to_string(i)))); ord.push_back(i); }
		for (int i = n; i > 1; i--) std::swap(ord[(size_t)i - 1], ord[r.below((uint64_t)i)]);
		g.root = g.add(s);
		int k = r.range(1, 4);
		for (int i = 0; i < k; i++) in.push_back(Tok{"s" + std::to_string(ord[(size_t)i]), {}});
		what = "subset of " + std::to_string(n);
		break; }
	case 6: { // once under a repetition of many choices
		int n = size_of(r, 10, 40); GN o = mk(T_OR); vec<str> w;
		for (int i = 0; i < n; i++) { GN x = mk(T_ONCE); x.id = "once" + std::to_string(i); GN y = mk(T_STR, "o" + std::to_string(i)); y.id = "id" + std::to_string(i); x.ch = {g.add(y)}; o.ch.push_back(g.add(x)); w.push_back(y.s); }
		GN m = mk(T_MANY); m.ch = {g.add(o)}; g.root = g.add(m);
		for (size_t i = w.size(); i > 1; i--) std::swap(w[i - 1], w[r.below(i)]);
		size_t k = r.below(w.size() + 1); for (size_t i = 0; i < k; i++) in.push_back(Tok{w[i], {}});
		if (k && r.coin()) in.push_back(Tok{w[r.below(k)], {}});
		completes = k <= 12;
		what = "once among " + std::to_string(n);
		break; }
	case 7: { // command line
		int n = size_of(r, 10, 120); GN m = mk(T_MANY); m.ch = {g.add(mk(T_ANY))}; GN l = mk(T_SH_LEX); l.ch = {g.add(m)}; g.root = g.add(l);
		str line; for (int i = 0; i < n; i++) line += (i ? " " : "") + (r.chance(1, 5) ? "'" + text_of(r, (size_t)size_of(r, 1, 300)) + " x'" : text_of(r, (size_t)r.range(1, 12)));
		in.push_back(Tok{line, {}}); completes = n <= 40;
		what = "command line of " + std::to_string(n) + " words";
		break; }
	case 8: { // regular expression lexer over a long text
		int n = size_of(r, 10, 150); GN m = mk(T_MANY); m.ch = {g.add(mk(T_ANY))}; GN l = mk(T_RE_LEX); l.ch = {g.add(m)};
		l.pats = {RePat{"[a-z]+", true, "word"}, RePat{"[0-9]+", true, "num"}, RePat{"[=+]", true, ""}, RePat{"[ ]+", false, ""}};
		g.root = g.add(l);
		str line; for (int i = 0; i < n; i++) line += r.chance(1, 12) ? (r.coin() ? str((size_t)size_of(r, 60, 3000), 'q') : str((size_t)size_of(r, 60, 600), '7')) : r.pick(vec<str>{"abc", "12", "=", " ", "+", "x", "  "});
		in.push_back(Tok{line, {}}); completes = false;
		what = "lexed text of " + std::to_string(n) + " pieces";
		break; }
	case 9: { // a long part in front of the rest of a sequence
		int n = size_of(r, 5, 40); GN m = mk(T_MANY); m.ch = {g.add(r.coin() ? mk(T_STR, "x") : mk(T_ANY))};
		GN s = mk(T_SEQ); s.ch = {g.add(m), g.add(mk(T_STR, "end")), g.add(mk(T_STR, "after"))}; if (r.coin()) s.ch.erase(s.ch.begin() + 1);
		g.root = g.add(s);
		for (int i = 0; i < n; i++) in.push_back(Tok{"x", {}});
		Toks u = in; u.push_back(Tok{"e", {}}); ins.push_back(u); u.back().s = "end"; ins.push_back(u); u.push_back(Tok{"a", {}}); ins.push_back(u); u.back().s = "after"; ins.push_back(u);
		what = "sequence after " + std::to_string(n);
		break; }
	default: { // nested repetitions of sequences
		int rows = r.range(3, 20), cols = r.range(2, 12); GN s = mk(T_SEQ);
		s.ch = {g.add(mk(T_STR, "row"))}; GN inner = mk(T_MANY); inner.ch = {g.add(mk(T_INT))}; g.n[inner.ch[0]].base = 10; inner.mn = r.coin() ? 1 : 0; s.ch.push_back(g.add(inner));
		GN m = mk(T_MANY); m.ch = {g.add(s)}; g.root = g.add(m);
		for (int i = 0; i < rows; i++) { in.push_back(Tok{"row", {}}); for (int j = r.range(0, cols); j > 0; j--) in.push_back(Tok{std::to_string(r.range(-999, 999)), {}}); }
		completes = false;
		what = "rows " + std::to_string(rows);
		break; }
	}
	describe("large grammar: %s", what.c_str());
	LeakCheck lk;
	Built b;
	bool ok = build(g, r, b);
	LCHECK(ok);
	str head = current_desc();
	ins.push_back(in);
	for (int k = 0; k < 3; k++) {
		Toks t = in;
		if (t.empty()) continue;
		switch (r.range(0, 4)) {
		case 0: t.pop_back(); break;
		case 1: t.push_back(Tok{"extra", {}}); break;
		case 2: t[r.below(t.size())].s += "?"; break;
		case 3: t.erase(t.begin() + (long)r.below(t.size())); break;
		case 4: t.back().s = t.back().s.substr(0, t.back().s.size() / 2); break;
		}
		ins.push_back(t);
	}
	g_budget_x = 60;
	struct Reset { ~Reset() { g_budget_x = 1; } } reset;
	for (auto &t : ins) {
		describe("%s", head.c_str());
		check_parse(r, g, b, t, t.size() <= 400);
		if (completes) { check_complete(g, b, t); Toks u = t; u.push_back(Tok{"", {}}); if (u.size() < 60) check_complete(g, b, u); }
	}
	if (completes && r.chance(1, 3)) check_merge(g, b, ins[0], ins.back());
	b.free_all();
	lk.check("C02", "large grammar");
	ev("large grammars");
	nontrivial(fnv(what));
}

// ---- string vectors ---------------------------------------------------------------
void strvec(Rng &r)
{
	LeakCheck lk;
	int n = size_of(r, 100, 3000);
	describe("string vector of %d", n);
	struct ec_strvec *v = ec_strvec(); LCHECK(v);
	vec<str> m;
	for (int i = 0; i < n; i++) { str s = text_of(r, r.chance(1, 200) ? (size_t)size_of(r, 1000, 70000) : (size_t)r.range(0, 8)); LCHECK(ec_strvec_add(v, s.c_str()) == 0); m.push_back(s); }
	auto same = [&](const struct ec_strvec *x, const vec<str> &w, const char *when) {
		EXPECT("C12", "value", ec_strvec_len(x) == w.size(), "%s: %zu words, expected %zu", when, ec_strvec_len(x), w.size());
		for (size_t i = 0; i < w.size(); i++) { const char *s = ec_strvec_val(x, i); EXPECT("C12", "value", s && w[i] == s, "%s: word %zu of %zu is wrong", when, i, w.size()); }
	};
	same(v, m, "after additions");
	struct ec_strvec *d = ec_strvec_dup(v); LCHECK(d);
	EXPECT("C12", "cmp", ec_strvec_cmp(v, d) == 0, "a duplicate differs");
	size_t off = r.below(m.size()), len = r.below(m.size() - off + 1);
	struct ec_strvec *s = ec_strvec_ndup(v, off, len); LCHECK(s);
	vec<str> ms(m.begin() + (long)off, m.begin() + (long)(off + len)), md = m;
	for (int k = 0; k < 30; k++) {
		size_t i = r.below(m.size()); str w = text_of(r, (size_t)r.range(0, 5));
		LCHECK(ec_strvec_set(d, i, w.c_str()) == 0); md[i] = w;
		if (r.chance(1, 4)) { struct ec_dict *a = ec_dict(); LCHECK(a && ec_dict_set(a, "k", NULL, NULL) == 0 && ec_strvec_set_attrs(v, i, a) == 0); EXPECT("C12", "attrs", ec_strvec_get_attrs(d, i) == NULL || !ec_dict_has_key(ec_strvec_get_attrs(d, i), "k"), "attributes set on a vector appear in its duplicate"); }
	}
	same(v, m, "after editing a duplicate"); same(d, md, "edited duplicate"); same(s, ms, "slice");
	EXPECT("C12", "cmp", (ec_strvec_cmp(v, d) == 0) == (m == md), "comparison is wrong");
	ec_strvec_sort(d, NULL); std::sort(md.begin(), md.end()); same(d, md, "sorted");
	for (size_t k = r.below(m.size()); k > 0; k--) { LCHECK(ec_strvec_del_last(v) == 0); m.pop_back(); }
	same(v, m, "after removals"); same(s, ms, "slice after removals");
	// texts that differ only far from their beginning
	{
		str a = text_of(r, (size_t)size_of(r, 40, 5000)), b = a; size_t at = r.coin() ? a.size() - 1 : r.below(a.size());
		if (r.coin()) b[at] = '#'; else if (r.coin()) b += "x"; else b.pop_back();
		const char *pa[2] = {"w", a.c_str()}, *pb[2] = {"w", b.c_str()};
		struct ec_strvec *x = ec_strvec_from_array(pa, 2), *y = ec_strvec_from_array(pb, 2), *z = ec_strvec_from_array(pa, 2); LCHECK(x && y && z);
		EXPECT("C12", "cmp", ec_strvec_cmp(x, y) != 0 && ec_strvec_cmp(y, x) != 0, "texts of %zu bytes that differ compare equal", a.size());
		EXPECT("C12", "cmp", ec_strvec_cmp(x, z) == 0, "equal texts of %zu bytes differ", a.size());
		ec_strvec_free(x); ec_strvec_free(y); ec_strvec_free(z);
	}
	// many duplicates of one vector alive together
	if (r.chance(1, 3)) {
		int k = size_of(r, 100, r.chance(1, 8) ? 66000 : 1100); vec<struct ec_strvec *> cp; vec<str> mm = {"one", "two", "three"};
		const char *pm[3] = {"one", "two", "three"}; struct ec_strvec *x = ec_strvec_from_array(pm, 3); LCHECK(x);
		for (int i = 0; i < k; i++) { struct ec_strvec *y = i & 1 ? ec_strvec_dup(x) : ec_strvec_ndup(x, 0, 3); LCHECK(y); cp.push_back(y); }
		struct ec_strvec *last = cp.back(); cp.pop_back();
		{ struct ec_dict *a = ec_dict(); LCHECK(a && ec_dict_set(a, "k", NULL, NULL) == 0 && ec_strvec_set_attrs(last, 1, a) == 0); }
		EXPECT("C12", "attrs", ec_strvec_get_attrs(x, 1) == NULL || !ec_dict_has_key(ec_strvec_get_attrs(x, 1), "k"), "attributes set on duplicate %d appear in the vector", k);
		bool first = r.coin();
		if (first) { ec_strvec_free(x); x = NULL; }
		for (auto *y : cp) ec_strvec_free(y);
		same(last, mm, "last of many duplicates"); if (x) same(x, mm, "vector duplicated many times");
		ec_strvec_free(x); ec_strvec_free(last);
		ev("vectors duplicated many times");
	}
	ec_strvec_free(v); same(s, ms, "slice of a released vector"); ec_strvec_free(s); ec_strvec_free(d);
	lk.check("C02", "large vectors");
	ev("large string vectors"); nontrivial((uint64_t)n);
}
void shlex(Rng &r)
{
	LeakCheck lk;
	int n = size_of(r, 60, 1500), big = r.chance(1, 3) ? r.range(0, n - 1) : -1; str line; vec<str> w;
	for (int i = 0; i < n; i++) {
		str x = text_of(r, i == big ? (size_t)size_of(r, 8000, 30000) : r.chance(1, 60) ? (size_t)size_of(r, 100, 8000) : (size_t)r.range(1, 10));
		int q = r.range(0, 3);
		if (q == 0) { w.push_back(x + " \\"); line += "'" + x + " \\' "; }
		else if (q == 1) { w.push_back(x + "\""); line += "\"" + x + "\\\"\"\t"; }
		else { w.push_back(x); line += x + (r.chance(1, 4) ? "   " : "\n"); }
	}
	describe("command line of %d words, %zu bytes", n, line.size());
	char q = '\0';
	struct ec_strvec *v = ec_strvec_sh_lex_str(line.c_str(), EC_STRVEC_STRICT, &q);
	EXPECT("C09", "long-line", v != NULL, "a long command line was refused: %s", strerror(errno));
	if (!v) end_case();
	EXPECT("C09", "long-line", q == '\0', "a quote is said to be missing");
	EXPECT("C09", "long-line", ec_strvec_len(v) == w.size(), "%zu words, expected %zu", ec_strvec_len(v), w.size());
	for (size_t i = 0; i < w.size() && i < ec_strvec_len(v); i++) EXPECT("C09", "long-line", w[i] == ec_strvec_val(v, i), "word %zu is wrong", i);
	ec_strvec_free(v);
	lk.check("C02", "long command line");
	ev("long command lines"); nontrivial(fnv(line));
}
// ---- keys that share their hash ----
uint32_t inv32(uint32_t a) { uint32_t x = a; for (int i = 0; i < 5; i++) x *= 2 - a * x; return x; }
uint32_t unscramble(uint32_t k) { k *= inv32(0x1b873593u); k = (k >> 15) | (k << 17); return k * inv32(0xcc9e2d51u); }
// keys of 8 * n bytes: each pair of blocks has two forms that leave any state of the hash the same, whatever the seed
vec<str> colliding(Rng &r, int n, bool nozero, size_t max)
{
	vec<std::array<str, 2>> pairs;
	for (int tries = 0; (int)pairs.size() < n && tries < 1000; tries++) {
		uint32_t a = (uint32_t)r.next(), b = (uint32_t)r.next(), k[4] = {unscramble(a), unscramble(b), unscramble(a ^ (1u << 18)), unscramble(b ^ (1u << 31))};
		std::array<str, 2> p = {str((char *)k, 8), str((char *)(k + 2), 8)};
		if (nozero && (p[0].find('\0') != str::npos || p[1].find('\0') != str::npos)) continue;
		pairs.push_back(p);
	}
	vec<str> out; str tail = text_of(r, r.below(4));
	for (uint32_t m = 0; m < (1u << pairs.size()) && out.size() < max; m++) { str k; for (size_t i = 0; i < pairs.size(); i++) k += pairs[i][m >> i & 1]; out.push_back(k + tail); }
	return out;
}
// ---- vectors and tables ---------------------------------------------------------------
void gvec(Rng &r)
{
	LeakCheck lk;
	size_t sz = (size_t)size_of(r, 1, 300); int n = size_of(r, 100, sz > 32 ? 600 : 4000);
	describe("generic vector of %d elements of %zu bytes", n, sz);
	struct ec_vec *v = ec_vec(sz, r.coin() ? 0 : (size_t)r.range(0, n), NULL, NULL); LCHECK(v);
	vec<str> m;
	for (int i = 0; i < n; i++) { str e = text_of(r, sz); LCHECK(ec_vec_add_by_ref(v, (void *)e.data()) == 0); m.push_back(e); }
	auto same = [&](const struct ec_vec *x, const vec<str> &w, const char *when) {
		EXPECT("C25", "value", ec_vec_len(x) == w.size(), "%s: %zu elements, expected %zu", when, ec_vec_len(x), w.size());
		vec<char> buf(sz);
		for (size_t i = 0; i < w.size(); i++) { EXPECT("C25", "value", ec_vec_get(buf.data(), x, i) == 0 && !memcmp(buf.data(), w[i].data(), sz), "%s: element %zu is wrong", when, i); }
	};
	same(v, m, "after additions");
	struct ec_vec *d = ec_vec_dup(v); LCHECK(d); same(d, m, "duplicate");
	size_t off = r.below(m.size()), len = r.below(m.size() - off + 1);
	struct ec_vec *s = ec_vec_ndup(v, off, len); LCHECK(s);
	ec_vec_free(v);
	vec<str> ms(m.begin() + (long)off, m.begin() + (long)(off + len));
	same(s, ms, "slice");
	str e = text_of(r, sz); LCHECK(ec_vec_add_by_ref(s, (void *)e.data()) == 0); ms.push_back(e);
	same(s, ms, "extended slice"); same(d, m, "duplicate after extending a slice");
	ec_vec_free(s); ec_vec_free(d);
	lk.check("C02", "large vectors");
	ev("large generic vectors"); nontrivial((uint64_t)n * 1000 + sz);
}
void table(Rng &r)
{
	LeakCheck lk;
	int n = size_of(r, 200, 9000); bool dict = r.coin(); size_t kl = r.chance(1, 4) ? (size_t)size_of(r, 100, 3000) : 12;
	if (kl > 12) n = n > 400 ? 400 : n;
	describe("%s with %d keys of up to %zu bytes", dict ? "dictionary" : "hash table", n, kl);
	struct ec_htable *h = NULL; struct ec_dict *d = NULL;
	if (dict) d = ec_dict(); else h = ec_htable();
	LCHECK(h || d);
	std::map<str, uintptr_t> m; vec<str> order;
	str pre = r.coin() ? "" : text_of(r, kl / 2);
	auto set = [&](const str &k, uintptr_t v) { return dict ? ec_dict_set(d, k.c_str(), (void *)v, NULL) : ec_htable_set(h, k.data(), k.size(), (void *)v, NULL); };
	auto get = [&](const str &k) { return (uintptr_t)(dict ? ec_dict_get(d, k.c_str()) : ec_htable_get(h, k.data(), k.size())); };
	for (int i = 0; i < n; i++) {
		str k = pre + (r.coin() ? "k" + std::to_string(i) : text_of(r, (size_t)r.range(1, (int)kl)));
		if (!dict && r.chance(1, 5)) k += str(1, '\0') + std::to_string(i);
		LCHECK(set(k, (uintptr_t)i + 1) == 0);
		if (!m.count(k)) order.push_back(k);
		m[k] = (uintptr_t)i + 1;
	}
	auto check = [&](const char *when) {
		size_t L = dict ? ec_dict_len(d) : ec_htable_len(h);
		EXPECT("C13", "length", L == m.size(), "%s: %zu entries, expected %zu", when, L, m.size());
		for (auto &e : m) EXPECT("C13", "value", get(e.first) == e.second, "%s: the value of a key is wrong", when);
		size_t seen = 0; std::set<str> ks;
		if (dict) for (auto *i = ec_dict_iter(d); i; i = ec_dict_iter_next(i)) { str k = ec_dict_iter_get_key(i); seen++; ks.insert(k); auto f = m.find(k); EXPECT("C13", "iterate", f != m.end() && f->second == (uintptr_t)ec_dict_iter_get_val(i), "%s: iteration shows a wrong entry", when); }
		else for (auto *i = ec_htable_iter(h); i; i = ec_htable_iter_next(i)) { seen++; const void *k = ec_htable_iter_get_key(i); (void)k; }
		EXPECT("C13", "iterate", seen == m.size() && (!dict || ks.size() == m.size()), "%s: iteration visits %zu entries of %zu", when, seen, m.size());
		for (int k = 0; k < 20; k++) { str x = text_of(r, 14); if (m.count(x)) continue; EXPECT("C13", "absent", dict ? !ec_dict_has_key(d, x.c_str()) : !ec_htable_has_key(h, x.data(), x.size()), "%s: a key that was never set is found", when); }
	};
	if (r.chance(1, 3)) {
		vec<str> ks = colliding(r, r.range(1, 7), dict, 128); size_t same = 0; vec<str> left;
		for (size_t i = 0; i < ks.size(); i++) {
			if (ec_murmurhash3(ks[i].data(), (int)ks[i].size(), 1) == ec_murmurhash3(ks[0].data(), (int)ks[0].size(), 1)) same++;
			if (r.chance(1, 6)) { left.push_back(ks[i]); continue; }
			LCHECK(set(ks[i], 100000 + i) == 0); if (!m.count(ks[i])) order.push_back(ks[i]); m[ks[i]] = 100000 + i;
		}
		for (auto &k : left) if (!m.count(k)) EXPECT("C13", "absent", dict ? !ec_dict_has_key(d, k.c_str()) : !ec_htable_has_key(h, k.data(), k.size()), "a key that was never set is found among keys of the same hash");
		if (same == ks.size() && same > 1) ev("tables with keys of the same hash");
	}
	check("after additions");
	for (size_t i = order.size(); i > 1; i--) std::swap(order[i - 1], order[r.below(i)]);
	size_t k = r.below(order.size());
	for (size_t i = 0; i < k; i++) { LCHECK((dict ? ec_dict_del(d, order[i].c_str()) : ec_htable_del(h, order[i].data(), order[i].size())) == 0); m.erase(order[i]); }
	check("after removals");
	for (size_t i = 0; i < k && i < 200; i++) EXPECT("C13", "absent", dict ? !ec_dict_has_key(d, order[i].c_str()) : !ec_htable_has_key(h, order[i].data(), order[i].size()), "a removed key is still found");
	struct ec_htable *h2 = h ? ec_htable_dup(h) : NULL; struct ec_dict *d2 = d ? ec_dict_dup(d) : NULL;
	LCHECK(h2 || d2);
	ec_htable_free(h); ec_dict_free(d); h = h2; d = d2;
	check("duplicate");
	ec_htable_free(h); ec_dict_free(d);
	lk.check("C02", "large tables");
	ev("large tables"); nontrivial((uint64_t)n * 10000 + kl);
}
// ---- configurations ----------------------------------------------------------------------
void config(Rng &r)
{
	LeakCheck lk;
	int n = size_of(r, 50, 1200), depth = r.range(2, 60);
	describe("configuration with %d elements, depth %d", n, depth);
	// {list: [0..n), text: long, deep: [[[...]]]}
	struct ec_config *c = ec_config_dict(), *l = ec_config_list();
	LCHECK(c && l);
	for (int i = 0; i < n; i++) LCHECK(ec_config_list_add(l, ec_config_u64((uint64_t)i)) == 0);
	LCHECK(ec_config_dict_set(c, "list", l) == 0);
	str t = text_of(r, (size_t)size_of(r, 500, 70000));
	LCHECK(ec_config_dict_set(c, "text", ec_config_string(t.c_str())) == 0);
	struct ec_config *x = ec_config_i64(-7); LCHECK(x);
	for (int i = 0; i < depth; i++) { struct ec_config *y = ec_config_list(); LCHECK(y && ec_config_list_add(y, x) == 0); x = y; }
	LCHECK(ec_config_dict_set(c, "deep", x) == 0);
	for (int i = 0; i < 60; i++) LCHECK(ec_config_dict_set(c, ("k" + std::to_string(i)).c_str(), ec_config_bool(i & 1)) == 0);
	// schema
	vec<struct ec_config_schema> s; struct ec_config_schema e; vec<str> names; vec<vec<struct ec_config_schema>> sub((size_t)depth + 1);
	auto put = [&](vec<struct ec_config_schema> &o, const char *k, enum ec_config_type ty, const struct ec_config_schema *sb) { memset(&e, 0, sizeof e); e.key = k; e.desc = "d"; e.type = ty; e.subschema = sb; o.push_back(e); };
	auto end = [&](vec<struct ec_config_schema> &o) { memset(&e, 0, sizeof e); o.push_back(e); };
	put(sub[0], NULL, EC_CONFIG_TYPE_INT64, NULL); end(sub[0]);
	for (int i = 1; i < depth; i++) { put(sub[(size_t)i], NULL, EC_CONFIG_TYPE_LIST, sub[(size_t)i - 1].data()); end(sub[(size_t)i]); }
	vec<struct ec_config_schema> num; put(num, NULL, EC_CONFIG_TYPE_UINT64, NULL); end(num);
	for (int i = 0; i < 60; i++) names.push_back("k" + std::to_string(i));
	for (auto &k : names) put(s, k.c_str(), EC_CONFIG_TYPE_BOOL, NULL);
	put(s, "list", EC_CONFIG_TYPE_LIST, num.data()); put(s, "text", EC_CONFIG_TYPE_STRING, NULL); put(s, "deep", EC_CONFIG_TYPE_LIST, sub[(size_t)depth - 1].data()); end(s);
	EXPECT("C14", "schema", ec_config_schema_validate(s.data()) == 0, "a large schema is refused");
	EXPECT("C14", "validate", ec_config_validate(c, s.data()) == 0, "a conforming configuration is refused");
	struct ec_config *d = ec_config_dup(c); LCHECK(d);
	auto same = [&](struct ec_config *q, const char *when) {
		struct ec_config *ql = ec_config_dict_get(q, "list");
		EXPECT("C14", "value", ql && ec_config_count(ql) == n, "%s: %d elements, expected %d", when, (int)(ql ? ec_config_count(ql) : -1), n);
		uint64_t i = 0; for (struct ec_config *y = ec_config_list_first(ql); y; y = ec_config_list_next(ql, y)) { EXPECT("C14", "value", y->u64 == i, "%s: element %llu is wrong", when, (unsigned long long)i); i++; }
		EXPECT("C14", "value", i == (uint64_t)n, "%s: the list shows %llu elements", when, (unsigned long long)i);
		struct ec_config *qt = ec_config_dict_get(q, "text"); EXPECT("C14", "value", qt && t == qt->string, "%s: the text is wrong", when);
		int k = 0; struct ec_config *y = ec_config_dict_get(q, "deep");
		while (y && ec_config_get_type(y) == EC_CONFIG_TYPE_LIST) { y = ec_config_list_first(y); k++; }
		EXPECT("C14", "value", k == depth && y && y->i64 == -7, "%s: depth %d, expected %d", when, k, depth);
	};
	same(c, "built"); same(d, "duplicate");
	EXPECT("C14", "cmp", ec_config_cmp(c, d) == 0, "a duplicate differs");
	// one deep or late difference
	struct ec_config *y;
	if (r.coin()) { y = ec_config_dict_get(d, "deep"); while (ec_config_get_type(y) == EC_CONFIG_TYPE_LIST) y = ec_config_list_first(y); y->i64 = 8; }
	else { struct ec_config *dl = ec_config_dict_get(d, "list"); y = ec_config_list_first(dl); for (int i = n - 1; i > 0; i--) y = ec_config_list_next(dl, y); y->u64 = 1000000; }
	EXPECT("C14", "cmp", ec_config_cmp(c, d) != 0, "a difference is not seen");
	same(c, "after editing the duplicate");
	LCHECK(ec_config_list_add(ec_config_dict_get(d, "list"), ec_config_bool(true)) == 0);
	EXPECT("C14", "validate", ec_config_validate(d, s.data()) < 0, "an ill-typed last element is accepted");
	ec_config_free(d);
	same(c, "after releasing the duplicate");
	slurp_stream([&](FILE *f) { ec_config_dump(f, c); });
	ec_config_free(c);
	lk.check("C02", "large configurations");
	ev("large configurations"); nontrivial((uint64_t)n * 100 + (uint64_t)depth);
}

struct Kind { void (*fn)(Rng &); vec<const char *> props; };
const vec<Kind> &kinds()
{
	static const vec<Kind> k = {
		{grammar, {"C01", "C02", "C04", "C05", "C06", "C07", "C08"}}, {strvec, {"C01", "C02", "C12"}}, {shlex, {"C01", "C02", "C09"}},
		{gvec, {"C01", "C02", "C25"}}, {table, {"C01", "C02", "C13"}}, {config, {"C01", "C02", "C14"}},
	};
	return k;
}

} // namespace

SCENARIO(bulk, "large objects: sequences, choices, repetitions and nesting of up to hundreds of nodes or tokens, texts of up to 70000 bytes, vectors and tables of thousands of entries, deep configurations; sizes around powers of two; same references; non-trivial = distinct sizes and shapes")
{
	vec<const Kind *> use;
	for (auto &k : kinds()) { bool w = g_prop.empty(); for (auto p : k.props) if (wants(p)) w = true; if (w) use.push_back(&k); }
	HCHECK(!use.empty());
	use[idx % use.size()]->fn(r);
}
