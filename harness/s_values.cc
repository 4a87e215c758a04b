// Value types: string vectors (C12), shell lexing (C09), generic vectors (C25), hash tables and
// dictionaries (C13), configuration trees (C14). Each scenario drives a random history of
// operations on several live objects and compares every object with a model after every step.
// When C03 is under check, allocations made by an operation may be made to fail: a failed operation
// must leave every object as it was.
#include <sstream>
#include "checks.h"

str rnd_str(Rng &r, int maxlen)
{
	static const char alpha[] = "ab c\t\"'\\#xyz0-_.\n\xc3\xff";
	int n = r.chance(1, 20) ? r.range(0, maxlen * 8) : r.range(0, maxlen);
	str s;
	for (int i = 0; i < n; i++) s += r.chance(1, 12) ? (char)r.range(1, 255) : alpha[r.below(sizeof alpha - 1)];
	return s;
}

// arm a random allocation failure for the next operation (C03 runs only)
bool maybe_fault(Rng &r)
{
	if (!wants("C03") || !r.chance(1, 3)) return false;
	fault_arm(r.range(1, 8), r.chance(1, 4));
	return true;
}
// evaluate the outcome of an operation; true if it took effect
bool outcome(const char *prop, const char *op, bool ok)
{
	uint64_t n = fault_disarm();
	if (n) ev("operations run with a failing allocation");
	if (ok) return true;
	if (n) { ev("operations that reported the failed allocation"); return false; }
	violate(prop, "unexpected-error", "%s failed: %s", op, strerror(errno));
	end_case();
}
const char *pr3(const char *p) { return wants("C03") && !g_prop.empty() ? "C03" : p; }

// ---- C12 -------------------------------------------------------------------
struct MElt { str s; bool has = false; std::set<str> attrs; };
struct MVec { struct ec_strvec *v; vec<MElt> m; };
static str show(const vec<MElt> &m)
{
	str o = "[";
	for (auto &e : m) {
		o += "'" + esc(e.s) + "'";
		if (e.has) { o += "{"; for (auto &a : e.attrs) o += a + ","; o += "}"; }
		o += " ";
	}
	return o + "]";
}
static str show(const struct ec_strvec *v)
{
	vec<MElt> m;
	for (size_t i = 0; i < ec_strvec_len(v); i++) {
		MElt e;
		const char *s = ec_strvec_val(v, i);
		e.s = s ? s : "<null>";
		const struct ec_dict *d = ec_strvec_get_attrs(v, i);
		if (d) { e.has = true; for (auto *it = ec_dict_iter(d); it; it = ec_dict_iter_next(it)) e.attrs.insert(ec_dict_iter_get_key(it)); }
		m.push_back(e);
	}
	return show(m);
}
static struct ec_dict *mk_attrs(const std::set<str> &a)
{
	struct ec_dict *d = ec_dict();
	LCHECK(d);
	for (auto &k : a) LCHECK(ec_dict_set(d, k.c_str(), NULL, NULL) == 0);
	return d;
}
static int rev_cmp(const char *a, const char *b) { return strcmp(b, a); }
static int len_cmp(const char *a, const char *b) { size_t x = strlen(a), y = strlen(b); return x < y ? -1 : x > y; }

SCENARIO(strvec, "random histories (8..60 operations) over up to 5 live string vectors that share elements through duplication; every vector is compared with its model after every operation; non-trivial = at least one duplicate was later modified or outlived its source")
{
	(void)idx;
	LeakCheck lk;
	vec<MVec> h;
	str log;
	auto add = [&](struct ec_strvec *v, const vec<MElt> &m) { h.push_back(MVec{v, m}); };
	int n = r.range(8, thorough() ? 120 : 60);
	bool shared_mod = false; int dups = 0;
	for (int step = 0; step < n; step++) {
		int op = r.range(0, 11);
		if (h.empty()) op = r.chance(1, 3) ? 1 : 0;
		size_t k = h.empty() ? 0 : r.below(h.size());
		char b[64];
		snprintf(b, sizeof b, " op%d@%zu", op, k);
		log += b;
		describe("strvec history:%s", log.c_str());
		switch (op) {
		case 0: {
			if (h.size() >= 5) break;
			maybe_fault(r);
			struct ec_strvec *v = ec_strvec();
			if (outcome(pr3("C12"), "ec_strvec", v != NULL)) add(v, {});
			break; }
		case 1: {
			if (h.size() >= 5) break;
			vec<str> w; int c = r.range(0, 5); vec<const char *> a; vec<MElt> m;
			for (int i = 0; i < c; i++) w.push_back(rnd_str(r, 6));
			for (auto &s : w) { MElt e; e.s = s.c_str(); m.push_back(e); }
			for (auto &s : w) a.push_back(s.c_str());
			maybe_fault(r);
			struct ec_strvec *v = ec_strvec_from_array(a.data(), a.size());
			if (outcome(pr3("C12"), "ec_strvec_from_array", v != NULL)) add(v, m);
			break; }
		case 2: case 3: {
			str s = rnd_str(r, 8).c_str();
			maybe_fault(r);
			int ret = ec_strvec_add(h[k].v, s.c_str());
			if (outcome(pr3("C12"), "ec_strvec_add", ret == 0)) { MElt e; e.s = s; h[k].m.push_back(e); }
			break; }
		case 4: {
			str s = rnd_str(r, 8).c_str();
			size_t i = r.below(h[k].m.size() + 1);
			if (i >= h[k].m.size()) {
				EXPECT("C12", "bounds", ec_strvec_set(h[k].v, i, s.c_str()) < 0, "set past the end succeeded");
				break;
			}
			if (dups) shared_mod = true;
			maybe_fault(r);
			int ret = ec_strvec_set(h[k].v, i, s.c_str());
			if (outcome(pr3("C12"), "ec_strvec_set", ret == 0)) { MElt e; e.s = s; h[k].m[i] = e; }
			break; }
		case 5: {
			int ret = ec_strvec_del_last(h[k].v);
			EXPECT("C12", "del_last", (ret == 0) == !h[k].m.empty(), "del_last returned %d on a vector of %zu", ret, h[k].m.size());
			if (ret == 0 && !h[k].m.empty()) h[k].m.pop_back();
			if (dups) shared_mod = true;
			break; }
		case 6: {
			if (h.size() >= 5) break;
			maybe_fault(r);
			struct ec_strvec *v = ec_strvec_dup(h[k].v);
			if (outcome(pr3("C12"), "ec_strvec_dup", v != NULL)) { add(v, h[k].m); dups++; }
			break; }
		case 7: {
			if (h.size() >= 5) break;
			size_t L = h[k].m.size();
			size_t off = r.chance(1, 6) ? (size_t)-1 - r.below(3) : r.below(L + 2);
			size_t len = r.chance(1, 6) ? (size_t)-1 - r.below(3) : r.below(L + 2);
			if (r.chance(1, 6)) len = (size_t)0 - off + r.below(L + 1);   // off + len wraps
			bool good = off <= L && len <= L - off;
			describe_append(" ndup(%zu,%zu) of %zu", off, len, L);
			if (good) maybe_fault(r);
			struct ec_strvec *v = ec_strvec_ndup(h[k].v, off, len);
			if (!good) {
				fault_disarm();
				if (v) { violate("C12", "bounds", "ndup(%zu,%zu) of a vector of %zu succeeded", off, len, L); end_case(); }
				break;
			}
			if (outcome(pr3("C12"), "ec_strvec_ndup", v != NULL)) { add(v, vec<MElt>(h[k].m.begin() + (long)off, h[k].m.begin() + (long)(off + len))); dups++; }
			break; }
		case 8: {
			std::set<str> a; int c = r.range(0, 3);
			for (int i = 0; i < c; i++) a.insert("k" + std::to_string(r.range(0, 3)));
			bool null = r.chance(1, 8);
			struct ec_dict *d = null ? NULL : mk_attrs(a);
			size_t i = r.below(h[k].m.size() + 1);
			if (i >= h[k].m.size()) {
				// the attributes are released by the failing call
				EXPECT("C12", "bounds", ec_strvec_set_attrs(h[k].v, i, d) < 0, "set_attrs past the end succeeded");
				break;
			}
			if (dups) shared_mod = true;
			maybe_fault(r);
			int ret = ec_strvec_set_attrs(h[k].v, i, d);
			if (outcome(pr3("C12"), "ec_strvec_set_attrs", ret == 0)) { h[k].m[i].has = !null; h[k].m[i].attrs = null ? std::set<str>() : a; }
			break; }
		case 9: {
			if (h.size() < 2 && r.chance(2, 3)) break;
			ec_strvec_free(h[k].v);
			h.erase(h.begin() + (long)k);
			if (dups) shared_mod = true;
			break; }
		case 10: {
			static int (*const cmps[])(const char *, const char *) = { NULL, strcmp, rev_cmp, len_cmp };
			int c = r.range(0, 3);
			vec<MElt> before = h[k].m;
			ec_strvec_sort(h[k].v, cmps[c]);
			auto cmp = cmps[c] ? cmps[c] : strcmp;
			// same multiset of (word, attributes), in order
			vec<str> a, b2; vec<MElt> now;
			EXPECT("C12", "sort", ec_strvec_len(h[k].v) == before.size(), "sorting changed the length");
			for (size_t i = 0; i < ec_strvec_len(h[k].v); i++) {
				MElt e; e.s = ec_strvec_val(h[k].v, i);
				const struct ec_dict *d = ec_strvec_get_attrs(h[k].v, i);
				if (d) { e.has = true; for (auto *it = ec_dict_iter(d); it; it = ec_dict_iter_next(it)) e.attrs.insert(ec_dict_iter_get_key(it)); }
				now.push_back(e);
				if (i) EXPECT("C12", "sort", cmp(now[i - 1].s.c_str(), e.s.c_str()) <= 0, "not sorted at %zu", i);
			}
			for (auto &e : before) a.push_back(show(vec<MElt>{e}));
			for (auto &e : now) b2.push_back(show(vec<MElt>{e}));
			std::sort(a.begin(), a.end()); std::sort(b2.begin(), b2.end());
			EXPECT("C12", "sort", a == b2, "sorting lost or changed elements: %s -> %s", show(before).c_str(), show(now).c_str());
			h[k].m = now;
			ev("sorts");
			break; }
		case 11: {
			str d = slurp_stream([&](FILE *f) { ec_strvec_dump(f, h[k].v); });
			for (auto &e : h[k].m) EXPECT("C12", "dump", d.find(e.s) != str::npos, "dump does not show '%s'", esc(e.s).c_str());
			break; }
		}
		ev("string vector operations");
		for (size_t i = 0; i < h.size(); i++) {
			str g = show(h[i].v), w = show(h[i].m);
			EXPECT(pr3("C12"), "value", g == w, "vector %zu is %s, expected %s", i, g.c_str(), w.c_str());
			EXPECT("C12", "bounds", ec_strvec_val(h[i].v, h[i].m.size()) == NULL, "a word exists past the end");
			EXPECT("C12", "bounds", ec_strvec_get_attrs(h[i].v, h[i].m.size() + 1) == NULL, "attributes exist past the end");
			for (size_t j = 0; j < h.size(); j++) {
				vec<str> a, b2;
				for (auto &e : h[i].m) a.push_back(e.s);
				for (auto &e : h[j].m) b2.push_back(e.s);
				EXPECT("C12", "cmp", (ec_strvec_cmp(h[i].v, h[j].v) == 0) == (a == b2), "comparison says %s for %s and %s",
					a == b2 ? "different" : "equal", w.c_str(), show(h[j].m).c_str());
			}
		}
	}
	for (auto &x : h) ec_strvec_free(x.v);
	sample(current_desc());
	if (shared_mod) nontrivial(fnv(log));
	lk.check(wants("C03") && !g_prop.empty() ? "C03" : "C02", "after releasing every vector");
}

// ---- C09 -------------------------------------------------------------------
static str gen_line(Rng &r)
{
	static const vec<str> frag = { "a", "foo", "bar", " ", "  ", "\t", "\n", "\r", "\v", "'", "\"", "\\", "#", "''", "\"\"", "'a b'", "\"a b\"",
		"\\ ", "\\\"", "\\'", "\\\\", "\\n", "# c", " # c\n", "x'y'z", "x\"y\"z", "'#'", "\"#\"", "\\#", "a#b", "\xc3\xa9", "\xff", "$x", "`", "'\\'", "\"\\a\"", "'\"'", "\"'\"" };
	str l;
	if (r.chance(1, 40)) { // around the internal word limit
		int n = r.range(8185, 8200);
		l = str((size_t)n, 'w');
		if (r.coin()) l = "a '" + l + (r.coin() ? "'" : "");
		if (r.coin()) l += " tail";
		return l;
	}
	int n = r.range(0, 10);
	for (int i = 0; i < n; i++) l += r.chance(1, 8) ? rnd_str(r, 4) : r.pick(frag);
	return l;
}

// quote a word so that a shell-like splitter returns it unchanged
static str quote_word(Rng &r, const str &w)
{
	str o;
	if (w.empty()) return r.coin() ? "''" : "\"\"";
	size_t i = 0;
	while (i < w.size()) {
		size_t n = 1 + r.below(w.size() - i);
		str p = w.substr(i, n);
		int k = r.range(0, 2);
		if (k == 0 && p.find('\'') == str::npos) o += "'" + p + "'";
		else if (k == 1) {
			o += "\"";
			for (char c : p) { if (c == '"' || c == '\\' || (c != '\n' && r.chance(1, 10))) o += '\\'; o += c; }
			o += "\"";
		} else
			for (size_t j = 0; j < p.size(); j++) {
				char c = p[j];
				if (strchr(" \t\n\v\f\r'\"\\", c) || (c == '#' && o.empty()) || r.chance(1, 10)) o += '\\';
				o += c;
			}
		i += n;
	}
	return o;
}

static str show_w(const vec<str> &w) { str o = "["; for (auto &s : w) o += "'" + esc(s) + "' "; return o + "]"; }

SCENARIO(shlex, "command lines from fragments (quotes, escapes, comments, blanks, long words), the four flag combinations, compared with an independent splitter; plus words -> quoted line -> words round trips; non-trivial = two words or more, or an unterminated quote")
{
	(void)idx;
	LeakCheck lk;
	for (int rep = 0; rep < 4; rep++) {
		str line = gen_line(r);
		size_t z = line.find('\0'); if (z != str::npos) line.resize(z);
		int flags = r.range(0, 3);
		bool strict = flags & EC_STRVEC_STRICT, tr = flags & EC_STRVEC_TRAILSP;
		describe("sh_lex flags=%d line='%s'", flags, esc(line).substr(0, 3000).c_str());
		ShLex w = ref_shlex(line, strict, tr);
		char q = 0;
		bool useq = r.chance(3, 4);
		errno = 0;
		struct ec_strvec *v = ec_strvec_sh_lex_str(line.c_str(), (ec_strvec_flag_t)flags, useq ? &q : NULL);
		int err = errno;
		ev("lines split");
		if (!w.ok) {
			if (v) { ec_strvec_free(v); violate("C09", "strict", "an unterminated line was accepted"); end_case(); }
			EXPECT("C09", "strict", err == EBADMSG, "unterminated line reported as '%s'", strerror(err));
			ev("unterminated lines refused");
			nontrivial(fnv(line) ^ (uint64_t)flags);
			continue;
		}
		if (!v) { violate("C09", "split", "refused: %s", strerror(err)); end_case(); }
		vec<str> g;
		for (size_t i = 0; i < ec_strvec_len(v); i++) g.push_back(ec_strvec_val(v, i));
		for (size_t i = 0; i < g.size(); i++) EXPECT("C09", "attrs", ec_strvec_get_attrs(v, i) == NULL || ec_dict_len(ec_strvec_get_attrs(v, i)) == 0, "a word carries attributes");
		ec_strvec_free(v);
		bool same = g == w.w;
		if (!same && w.ambiguous_trail && tr) { vec<str> alt = w.w; if (!alt.empty() && alt.back().empty()) alt.pop_back(); else alt.push_back(""); same = g == alt; }
		EXPECT("C09", "split", same, "got %s expected %s", show_w(g).c_str(), show_w(w.w).c_str());
		if (useq && !strict) EXPECT("C09", "quote", q == w.quote, "reported open quote '%c', expected '%c'", q ? q : '-', w.quote ? w.quote : '-');
		if (g.size() >= 2 || w.quote) nontrivial(fnv(line) ^ (uint64_t)flags);
		sample(current_desc());
	}
	// round trip
	vec<str> words; int n = r.range(0, 5); str line = r.coin() ? "" : " ";
	for (int i = 0; i < n; i++) {
		str s = rnd_str(r, 6).c_str();
		words.push_back(s);
		if (i) line += r.coin() ? " " : " \t";
		line += quote_word(r, s);
	}
	if (r.coin() && n) line += " ";
	if (r.chance(1, 4)) line += n ? " # tail 'x" : "# tail \"";
	describe("round trip line='%s'", esc(line).c_str());
	struct ec_strvec *v = ec_strvec_sh_lex_str(line.c_str(), EC_STRVEC_STRICT, NULL);
	if (!v) { violate("C09", "round-trip", "a correctly quoted line was refused"); end_case(); }
	vec<str> g;
	for (size_t i = 0; i < ec_strvec_len(v); i++) g.push_back(ec_strvec_val(v, i));
	ec_strvec_free(v);
	EXPECT("C09", "round-trip", g == words, "got %s expected %s", show_w(g).c_str(), show_w(words).c_str());
	ev("quoting round trips");
	EXPECT("C09", "null", ec_strvec_sh_lex_str(NULL, (ec_strvec_flag_t)0, NULL) == NULL, "NULL line accepted");
	lk.check("C02", "after splitting");
}

// ---- C25 -------------------------------------------------------------------
// elements own a token; the monitor checks that each token is copied and released exactly once
static std::map<uint64_t, int> g_tok_live;
static uint64_t g_tok_next;
struct VElt { uint64_t tok; uint64_t val; };
static void velt_free(void *p)
{
	VElt e; memcpy(&e, p, sizeof e);
	auto it = g_tok_live.find(e.tok);
	if (it == g_tok_live.end()) { violate_soft("C25", "free-once", "destructor called on an element that is not live"); return; }
	g_tok_live.erase(it);
}
static void velt_copy(void *d, void *s)
{
	VElt e; memcpy(&e, s, sizeof e);
	if (!g_tok_live.count(e.tok)) violate_soft("C25", "copy", "copy callback called on an element that is not live");
	e.tok = ++g_tok_next;
	g_tok_live[e.tok] = 1;
	memcpy(d, &e, sizeof e);
}

// copy function without release function: a copy is recognisable, its generation is one more
static uint64_t g_cp_calls;
static void vgen_copy(void *d, void *s)
{
	VElt e; memcpy(&e, s, sizeof e);
	e.tok++;
	g_cp_calls++;
	memcpy(d, &e, sizeof e);
}
// value of the bytes after the first eight of a plain element
static unsigned char vpat(uint64_t v, size_t j) { return (unsigned char)((v >> (8 * (j % 8))) + j * 37); }

SCENARIO(vec, "random histories over generic vectors of element sizes 1..24 with and without copy/free callbacks; every vector compared with its model after every operation, owned elements tracked one by one; non-trivial = a vector was duplicated and both copies used afterwards")
{
	(void)idx;
	LeakCheck lk;
	g_tok_live.clear();
	struct H { struct ec_vec *v; vec<uint64_t> m; };
	vec<H> h;
	// plain: no callback, or copy and release callbacks, or copy only (gen), or release only
	bool owned = r.coin(), gen = owned && r.chance(1, 4), nocopy = owned && !gen && r.chance(1, 6);
	static const size_t sizes[] = { 1, 2, 4, 8, 8, 3, 24, 5, 7, 9, 16, 17, 40, 64, 255, 256, 257, 1000 };
	int kind = r.range(0, (int)(sizeof sizes / sizeof *sizes) - 1);
	size_t es = owned ? sizeof(VElt) : sizes[kind];
	uint64_t mask = es >= 8 ? ~0ULL : ((1ULL << (es * 8)) - 1);
	str log = gen ? "copy only" : nocopy ? "release only" : owned ? "owned" : "plain size " + std::to_string(es);
	bool nt = false; int dups = 0;
	EXPECT("C25", "bounds", ec_vec(0, 0, NULL, NULL) == NULL, "vector of zero-sized elements created");
	auto check = [&]() {
		for (auto &x : h) {
			EXPECT(pr3("C25"), "len", ec_vec_len(x.v) == x.m.size(), "length %zu expected %zu", ec_vec_len(x.v), x.m.size());
			char buf[1024];
			for (size_t i = 0; i < x.m.size(); i++) {
				memset(buf, 0, 16);
				EXPECT("C25", "get", ec_vec_get(buf, x.v, i) == 0, "get(%zu) failed", i);
				uint64_t v = 0;
				if (gen) { VElt e; memcpy(&e, buf, sizeof e); v = e.val + ((uint64_t)e.tok << 32); }
				else if (owned) { VElt e; memcpy(&e, buf, sizeof e); v = e.val; EXPECT("C25", "owned", g_tok_live.count(e.tok), "element %zu was released", i); }
				else memcpy(&v, buf, es < 8 ? es : 8);
				for (size_t j = 8; !owned && j < es; j++) EXPECT("C25", "value", (unsigned char)buf[j] == vpat(x.m[i], j), "byte %zu of element %zu changed", j, i);
				EXPECT(pr3("C25"), "value", v == x.m[i], "element %zu is %llx expected %llx", i, (unsigned long long)v, (unsigned long long)x.m[i]);
			}
			memset(buf, 0x33, sizeof buf);
			EXPECT("C25", "bounds", ec_vec_get(buf, x.v, x.m.size()) < 0, "get past the end succeeded");
			EXPECT("C25", "bounds", ec_vec_get(buf, x.v, (size_t)-1) < 0, "get past the end succeeded");
		}
		size_t total = 0;
		for (auto &x : h) total += x.m.size();
		if (owned && !gen) EXPECT(pr3("C25"), "conservation", g_tok_live.size() == total, "%zu elements live, %zu held by vectors", g_tok_live.size(), total);
		check_soft();
	};
	int n = r.range(6, thorough() ? 100 : 40);
	bool grow = r.chance(1, 12);
	if (grow) n += r.range(20, 200);
	for (int s = 0; s < n; s++) {
		int op = grow && r.chance(3, 4) ? 1 : r.range(0, 7);
		if (h.empty()) op = 0;
		size_t k = h.empty() ? 0 : r.below(h.size());
		log += " op" + std::to_string(op) + "@" + std::to_string(k);
		describe("vec %s", log.c_str());
		switch (op) {
		case 0: {
			if (h.size() >= 4) break;
			size_t pre = r.chance(1, 2) ? 0 : r.below(9);
			maybe_fault(r);
			struct ec_vec *v = ec_vec(es, pre, gen ? vgen_copy : owned && !nocopy ? velt_copy : NULL, owned && !gen ? velt_free : NULL);
			if (outcome(pr3("C25"), "ec_vec", v != NULL)) h.push_back(H{v, {}});
			break; }
		case 1: case 2: case 3: {
			uint64_t val = r.next() & mask;
			int ret;
			VElt e;
			if (gen) {
				val &= 0xffffffff;
				e.tok = 0; e.val = val;
				maybe_fault(r);
				ret = ec_vec_add_by_ref(h[k].v, &e);
			} else if (owned) {
				e.tok = ++g_tok_next; e.val = val; g_tok_live[e.tok] = 1;
				maybe_fault(r);
				ret = ec_vec_add_by_ref(h[k].v, &e);
			} else {
				char buf[1024]; memset(buf, 0, 16); memcpy(buf, &val, 8);
				for (size_t j = 8; j < es; j++) buf[j] = (char)vpat(val, j);
				bool typed = r.coin();
				maybe_fault(r);
				if (typed && es == 1) ret = ec_vec_add_u8(h[k].v, (uint8_t)val);
				else if (typed && es == 2) ret = ec_vec_add_u16(h[k].v, (uint16_t)val);
				else if (typed && es == 4) ret = ec_vec_add_u32(h[k].v, (uint32_t)val);
				else if (typed && es == 8 && r.coin()) ret = ec_vec_add_u64(h[k].v, val);
				else if (typed && es == 8) ret = ec_vec_add_ptr(h[k].v, (void *)(uintptr_t)val);
				else ret = ec_vec_add_by_ref(h[k].v, buf);
			}
			if (outcome(pr3("C25"), "ec_vec_add", ret == 0)) h[k].m.push_back(val);
			else if (owned && !gen) g_tok_live.erase(e.tok);
			break; }
		case 4: { // wrong-size typed additions are refused
			size_t before = ec_vec_len(h[k].v);
			if (es != 1) EXPECT("C25", "type", ec_vec_add_u8(h[k].v, 1) < 0, "8-bit value added to a vector of size %zu", es);
			if (es != 2) EXPECT("C25", "type", ec_vec_add_u16(h[k].v, 1) < 0, "16-bit value added to a vector of size %zu", es);
			if (es != 4) EXPECT("C25", "type", ec_vec_add_u32(h[k].v, 1) < 0, "32-bit value added to a vector of size %zu", es);
			if (es != 8) { EXPECT("C25", "type", ec_vec_add_u64(h[k].v, 1) < 0, "64-bit value added to a vector of size %zu", es);
				EXPECT("C25", "type", ec_vec_add_ptr(h[k].v, NULL) < 0, "pointer added to a vector of size %zu", es); }
			EXPECT("C25", "type", ec_vec_len(h[k].v) == before, "a refused addition changed the vector");
			break; }
		case 5: {
			if (h.size() >= 4 || nocopy) break;
			maybe_fault(r);
			struct ec_vec *v = ec_vec_dup(h[k].v);
			if (outcome(pr3("C25"), "ec_vec_dup", v != NULL)) { h.push_back(H{v, h[k].m}); if (gen) for (auto &y : h.back().m) y += 1ULL << 32; dups++; }
			break; }
		case 6: {
			if (h.size() >= 4 || nocopy) break;
			size_t L = h[k].m.size();
			size_t off = r.chance(1, 6) ? (size_t)-1 - r.below(3) : r.below(L + 2);
			size_t len = r.chance(1, 6) ? (size_t)-1 - r.below(3) : r.below(L + 2);
			if (r.chance(1, 6)) len = (size_t)0 - off + r.below(L + 1);
			bool good = off <= L && len <= L - off;
			describe_append(" ndup(%zu,%zu) of %zu", off, len, L);
			if (good) maybe_fault(r);
			struct ec_vec *v = ec_vec_ndup(h[k].v, off, len);
			if (!good) { if (v) { violate("C25", "bounds", "ndup(%zu,%zu) of a vector of %zu succeeded", off, len, L); end_case(); } break; }
			if (outcome(pr3("C25"), "ec_vec_ndup", v != NULL)) { h.push_back(H{v, vec<uint64_t>(h[k].m.begin() + (long)off, h[k].m.begin() + (long)(off + len))}); if (gen) for (auto &y : h.back().m) y += 1ULL << 32; dups++; }
			break; }
		case 7:
			ec_vec_free(h[k].v);
			h.erase(h.begin() + (long)k);
			if (dups) nt = true;
			break;
		}
		if (dups && op >= 1 && op <= 3) nt = true;
		ev("generic vector operations");
		check();
	}
	for (auto &x : h) ec_vec_free(x.v);
	h.clear();
	check();
	ec_vec_free(NULL);
	EXPECT("C25", "null", ec_vec_len(NULL) == 0, "length of no vector");
	sample(current_desc());
	if (nt) nontrivial(fnv(log));
	lk.check(wants("C03") && !g_prop.empty() ? "C03" : "C02", "after releasing every vector");
}

// ---- C13 -------------------------------------------------------------------
static std::map<void *, str> g_val_live;    // values owned by the tables
static uint64_t g_val_freed;
static void val_free(void *p)
{
	if (p == NULL) return;
	auto it = g_val_live.find(p);
	if (it == g_val_live.end()) { violate_soft("C13", "free-once", "destructor called twice, or on a value it does not own"); return; }
	g_val_live.erase(it);
	g_val_freed++;
	free(p);
}
static void *new_val(const str &s)
{
	char *p = (char *)malloc(s.size() + 1);
	memcpy(p, s.c_str(), s.size() + 1);
	g_val_live[p] = s;
	return p;
}

struct TabModel { std::map<str, std::pair<void *, bool>> m; };   // key -> (value, owned)

template <class T> struct TabApi;
struct HtApi {
	typedef struct ec_htable T;
	static T *make() { return ec_htable(); }
	static T *dup(const T *t) { return ec_htable_dup(t); }
	static void release(T *t) { ec_htable_free(t); }
	static size_t len(const T *t) { return ec_htable_len(t); }
	static int set(T *t, const str &k, void *v, void (*f)(void *)) { return ec_htable_set(t, k.data(), k.size(), v, f); }
	static int del(T *t, const str &k) { return ec_htable_del(t, k.data(), k.size()); }
	static void *get(const T *t, const str &k) { return ec_htable_get(t, k.data(), k.size()); }
	static bool has(const T *t, const str &k) { return ec_htable_has_key(t, k.data(), k.size()); }
	static vec<std::pair<str, void *>> all(const T *t, size_t lim) {
		vec<std::pair<str, void *>> o;
		for (auto *i = ec_htable_iter(t); i && o.size() < lim; i = ec_htable_iter_next(i))
			o.emplace_back(str((const char *)ec_htable_iter_get_key(i), ec_htable_iter_get_key_len(i)), ec_htable_iter_get_val(i));
		return o;
	}
	static str dump(const T *t) { return slurp_stream([&](FILE *f) { ec_htable_dump(f, t); }); }
	static const char *name() { return "htable"; }
};
struct DictApi {
	typedef struct ec_dict T;
	static T *make() { return ec_dict(); }
	static T *dup(const T *t) { return ec_dict_dup(t); }
	static void release(T *t) { ec_dict_free(t); }
	static size_t len(const T *t) { return ec_dict_len(t); }
	static int set(T *t, const str &k, void *v, void (*f)(void *)) { return ec_dict_set(t, k.c_str(), v, f); }
	static int del(T *t, const str &k) { return ec_dict_del(t, k.c_str()); }
	static void *get(const T *t, const str &k) { return ec_dict_get(t, k.c_str()); }
	static bool has(const T *t, const str &k) { return ec_dict_has_key(t, k.c_str()); }
	static vec<std::pair<str, void *>> all(const T *t, size_t lim) {
		vec<std::pair<str, void *>> o;
		for (auto *i = ec_dict_iter(t); i && o.size() < lim; i = ec_dict_iter_next(i)) o.emplace_back(ec_dict_iter_get_key(i), ec_dict_iter_get_val(i));
		return o;
	}
	static str dump(const T *t) { return slurp_stream([&](FILE *f) { ec_dict_dump(f, t); }); }
	static const char *name() { return "dict"; }
};

template <class A> static void table_case(Rng &r, bool binary)
{
	LeakCheck lk;
	for (auto &e : g_val_live) free(e.first);
	g_val_live.clear();
	struct H { typename A::T *t; std::map<str, std::pair<void *, bool>> m; };
	vec<H> h;
	// key pool: small, so that replacement and deletion hit; sometimes large, so that the table grows
	vec<str> keys;
	int nk = r.chance(1, 4) ? r.range(60, 200) : r.range(2, 12);
	for (int i = 0; i < nk; i++) {
		str k;
		if (r.chance(1, 2)) k = "key" + std::to_string(i);
		else { k = rnd_str(r, 12); if (!binary) k = k.c_str(); else if (r.chance(1, 3)) k += str("\0x", 2); }
		if (binary && k.empty()) k = str("\0", 1);
		keys.push_back(k);
		if (binary && r.chance(1, 4)) keys.push_back(k + str(1, '\0'));       // prefix relations
		if (r.chance(1, 4) && k.size() > 1) keys.push_back(k.substr(0, k.size() - 1));
	}
	str log; uint64_t vn = 0; bool shared = false; int dups = 0;
	auto check = [&](bool deep) {
		check_soft();
		std::set<void *> held;
		for (auto &x : h) {
			EXPECT(pr3("C13"), "len", A::len(x.t) == x.m.size(), "%s holds %zu keys, expected %zu", A::name(), A::len(x.t), x.m.size());
			for (auto &e : x.m) {
				if (e.second.second && e.second.first) held.insert(e.second.first);
				if (!deep) continue;
				EXPECT(pr3("C13"), "get", A::get(x.t, e.first) == e.second.first, "key '%s' does not give the last value stored", esc(e.first).c_str());
				EXPECT(pr3("C13"), "has", A::has(x.t, e.first), "key '%s' is missing", esc(e.first).c_str());
			}
			if (!deep) continue;
			const str &k = r.pick(keys);
			EXPECT("C13", "has", A::has(x.t, k) == (x.m.count(k) != 0), "has_key('%s') is wrong", esc(k).c_str());
			if (!x.m.count(k)) EXPECT("C13", "get", A::get(x.t, k) == NULL, "absent key '%s' gives a value", esc(k).c_str());
			auto all = A::all(x.t, x.m.size() + 3);
			std::map<str, void *> seen;
			for (auto &e : all) {
				EXPECT("C13", "iterate", seen.emplace(e.first, e.second).second, "key '%s' visited twice", esc(e.first).c_str());
				auto f = x.m.find(e.first);
				EXPECT("C13", "iterate", f != x.m.end() && f->second.first == e.second, "iteration gives key '%s' with another value", esc(e.first).c_str());
			}
			EXPECT("C13", "iterate", seen.size() == x.m.size(), "iteration visited %zu of %zu keys", seen.size(), x.m.size());
		}
		// every owned value still reachable is live; every live one is reachable
		for (void *p : held) EXPECT(pr3("C13"), "owned", g_val_live.count(p), "a value still stored was released");
		EXPECT(pr3("C13"), "owned", held.size() == g_val_live.size(), "%zu values live, %zu reachable", g_val_live.size(), held.size());
	};
	int n = r.range(8, nk > 20 ? 260 : 60);
	static int dummy[4];
	for (int s = 0; s < n; s++) {
		int op = r.range(0, 9);
		if (h.empty()) op = 8;
		size_t k = h.empty() ? 0 : r.below(h.size());
		if (log.size() < 1500) log += " " + std::to_string(op) + "@" + std::to_string(k);
		describe("%s history (%d keys):%s", A::name(), nk, log.c_str());
		switch (op) {
		case 0: case 1: case 2: case 3: case 4: {
			const str &key = r.pick(keys);
			int mode = r.range(0, 4);
			if (mode == 4) {   // no value, but a release callback
				static long calls;
				struct C { static void cb(void *p) { EXPECT("C13", "callback", p == NULL, "release callback of a null value got %p", p); calls++; } };
				auto *t = A::make(); LCHECK(t);
				calls = 0;
				LCHECK(A::set(t, key, NULL, C::cb) == 0); LCHECK(A::set(t, key + "x", NULL, C::cb) == 0);
				auto *t2 = A::dup(t); LCHECK(t2);
				EXPECT("C13", "callback", calls == 0, "released while stored");
				if (r.coin()) { LCHECK(A::del(t, key) == 0); } else A::set(t, key, &dummy[0], NULL);
				EXPECT("C13", "callback", calls == 0 && A::has(t2, key), "released while a duplicate holds it");
				A::release(t2);
				EXPECT("C13", "callback", calls == 1, "callback called %ld times for a null value let go by its last holder", calls);
				A::release(t);
				EXPECT("C13", "callback", calls == 2, "callback called %ld times for two null values", calls);
				ev("null values with a callback");
				break;
			}
			void *v = mode <= 1 ? new_val("v" + std::to_string(vn++)) : mode == 2 ? (void *)&dummy[r.below(4)] : NULL;
			bool own = mode <= 1;
			maybe_fault(r);
			int ret = A::set(h[k].t, key, v, own ? val_free : NULL);
			bool ok = outcome(pr3("C13"), "set", ret == 0);
			check_soft();
			if (ok) {
				if (dups) shared = true;
				h[k].m[key] = { v, own };
			} else if (own) EXPECT(pr3("C13"), "set-error", !g_val_live.count(v), "a failing set did not release the value");
			break; }
		case 5: case 6: {
			const str &key = r.pick(keys);
			bool had = h[k].m.count(key);
			int ret = A::del(h[k].t, key);
			EXPECT("C13", "del", (ret == 0) == had, "del('%s') returned %d, key was %s", esc(key).c_str(), ret, had ? "present" : "absent");
			h[k].m.erase(key);
			if (dups) shared = true;
			break; }
		case 7: {
			if (h.size() >= 4) break;
			maybe_fault(r);
			auto *t = A::dup(h[k].t);
			if (outcome(pr3("C13"), "dup", t != NULL)) { h.push_back(H{t, h[k].m}); dups++; }
			break; }
		case 8: {
			if (h.size() >= 4) break;
			maybe_fault(r);
			auto *t = A::make();
			if (outcome(pr3("C13"), "create", t != NULL)) h.push_back(H{t, {}});
			break; }
		case 9: {
			if (h.size() < 2 && r.chance(3, 4)) { A::dump(h[k].t); break; }
			A::release(h[k].t);
			h.erase(h.begin() + (long)k);
			if (dups) shared = true;
			break; }
		}
		ev("table operations");
		check(nk <= 20 || s % 16 == 0);
	}
	check(true);
	// invalid arguments release the value and change nothing
	if (!h.empty()) {
		void *v = new_val("bad");
		int ret = binary ? ec_htable_set((struct ec_htable *)h[0].t, "k", 0, v, val_free) : ec_dict_set((struct ec_dict *)h[0].t, NULL, v, val_free);
		EXPECT("C13", "invalid", ret < 0, "set with an invalid key succeeded");
		EXPECT("C13", "invalid", !g_val_live.count(v), "a refused set did not release the value");
		check(true);
	}
	for (auto &x : h) A::release(x.t);
	h.clear();
	check(false);
	sample(current_desc());
	if (shared) nontrivial(fnv(log) ^ (uint64_t)nk);
	lk.check(wants("C03") && !g_prop.empty() ? "C03" : "C02", "after releasing every table");
}

SCENARIO(htable, "random histories over hash tables with binary keys (prefixes, embedded zeros, growth past several resizes), owned and borrowed values, duplicated tables; every table compared with its model; non-trivial = a table was modified or released after being duplicated")
{
	(void)idx;
	table_case<HtApi>(r, true);
	EXPECT("C13", "null", ec_htable_get(NULL, "a", 1) == NULL && !ec_htable_has_key(NULL, "a", 1) && ec_htable_del(NULL, "a", 1) < 0, "operations on no table");
	ec_htable_free(NULL);
}
SCENARIO(dict, "the same histories over string-keyed dictionaries")
{
	(void)idx;
	table_case<DictApi>(r, false);
}

// ---- C14 -------------------------------------------------------------------
struct MC { int t = 0; bool b = false; int64_t i = 0; uint64_t u = 0; str s; struct ec_node *n = NULL; vec<MC> l; std::map<str, MC> d; };
static struct ec_node *g_cfg_nodes[3];
static str show(const MC &m)
{
	switch (m.t) {
	case EC_CONFIG_TYPE_BOOL: return m.b ? "true" : "false";
	case EC_CONFIG_TYPE_INT64: return "i" + std::to_string(m.i);
	case EC_CONFIG_TYPE_UINT64: return "u" + std::to_string(m.u);
	case EC_CONFIG_TYPE_STRING: return "'" + esc(m.s) + "'";
	case EC_CONFIG_TYPE_NODE: for (int k = 0; k < 3; k++) if (m.n == g_cfg_nodes[k]) return "node" + std::to_string(k); return "node?";
	case EC_CONFIG_TYPE_LIST: { str o = "["; for (auto &x : m.l) o += show(x) + ","; return o + "]"; }
	case EC_CONFIG_TYPE_DICT: { str o = "{"; for (auto &x : m.d) o += esc(x.first) + ":" + show(x.second) + ","; return o + "}"; }
	}
	return "?";
}
static MC read_cfg(const struct ec_config *c)
{
	MC m; m.t = ec_config_get_type(c);
	switch (m.t) {
	case EC_CONFIG_TYPE_BOOL: m.b = c->boolean; break;
	case EC_CONFIG_TYPE_INT64: m.i = c->i64; break;
	case EC_CONFIG_TYPE_UINT64: m.u = c->u64; break;
	case EC_CONFIG_TYPE_STRING: m.s = c->string; break;
	case EC_CONFIG_TYPE_NODE: m.n = c->node; break;
	case EC_CONFIG_TYPE_LIST:
		for (struct ec_config *x = ec_config_list_first((struct ec_config *)c); x; x = ec_config_list_next((struct ec_config *)c, x)) m.l.push_back(read_cfg(x));
		break;
	case EC_CONFIG_TYPE_DICT:
		for (auto *i = ec_dict_iter(c->dict); i; i = ec_dict_iter_next(i)) m.d[ec_dict_iter_get_key(i)] = read_cfg((struct ec_config *)ec_dict_iter_get_val(i));
		break;
	}
	return m;
}
static int64_t rnd_i64(Rng &r)
{
	static const int64_t v[] = { 0, 1, -1, INT64_MIN, INT64_MAX, INT64_MIN + 1, 42, -42, (int64_t)1 << 32 };
	return r.coin() ? v[r.below(9)] : (int64_t)r.next();
}
// key names: short, long with a common beginning, each a prefix of the next, differing in the middle
static str key_name(int style, int i)
{
	switch (style) {
	case 1: return "a_long_common_prefix_" + std::to_string(i);
	case 2: return str((size_t)i + 1, 'k');
	case 3: return "key" + str((size_t)i, '_') + "tail";
	case 4: { static const char *const b[] = {"ids", "attrs_", "helper", "type2", "hid", "xtype"}; return str(b[i % 6]) + (i < 6 ? "" : std::to_string(i)); }
	default: return "k" + std::to_string(i);
	}
}
static MC gen_mc(Rng &r, int depth)
{
	MC m;
	int k = depth <= 0 ? r.range(1, 5) : r.range(1, 7);
	m.t = k;
	switch (k) {
	case EC_CONFIG_TYPE_BOOL: m.b = r.coin(); break;
	case EC_CONFIG_TYPE_INT64: m.i = rnd_i64(r); break;
	case EC_CONFIG_TYPE_UINT64: m.u = (uint64_t)rnd_i64(r); break;
	case EC_CONFIG_TYPE_STRING: m.s = rnd_str(r, 8).c_str(); break;
	case EC_CONFIG_TYPE_NODE: m.n = g_cfg_nodes[r.below(3)]; break;
	case EC_CONFIG_TYPE_LIST: { int n = r.range(0, 4); for (int i = 0; i < n; i++) m.l.push_back(gen_mc(r, depth - 1)); break; }
	case EC_CONFIG_TYPE_DICT: { int n = r.range(0, 4); for (int i = 0; i < n; i++) m.d[key_name(r.chance(2, 3) ? 0 : r.range(1, 4), r.range(0, 5))] = gen_mc(r, depth - 1); break; }
	}
	return m;
}
// build; under fault injection returns NULL having released everything
static struct ec_config *mk_cfg(Rng &r, const MC &m)
{
	switch (m.t) {
	case EC_CONFIG_TYPE_BOOL: return ec_config_bool(m.b);
	case EC_CONFIG_TYPE_INT64: return ec_config_i64(m.i);
	case EC_CONFIG_TYPE_UINT64: return ec_config_u64(m.u);
	case EC_CONFIG_TYPE_STRING: return ec_config_string(m.s.c_str());
	case EC_CONFIG_TYPE_NODE: return ec_config_node(ec_node_clone(m.n));
	case EC_CONFIG_TYPE_LIST: {
		struct ec_config *c = ec_config_list();
		if (!c) return NULL;
		for (auto &x : m.l) if (ec_config_list_add(c, mk_cfg(r, x)) < 0) { ec_config_free(c); return NULL; }
		return c; }
	default: {
		struct ec_config *c = ec_config_dict();
		if (!c) return NULL;
		vec<const str *> ks;
		for (auto &x : m.d) ks.push_back(&x.first);
		for (size_t i = ks.size(); i > 1; i--) std::swap(ks[i - 1], ks[r.below(i)]);
		for (auto *k : ks) if (ec_config_dict_set(c, k->c_str(), mk_cfg(r, m.d.at(*k))) < 0) { ec_config_free(c); return NULL; }
		return c; }
	}
}
// schemas kept alive by the arena
struct Arena { vec<vec<struct ec_config_schema> *> v; vec<str *> s; ~Arena() { for (auto *x : v) delete x; for (auto *x : s) delete x; } 
	const char *keep(const str &x) { s.push_back(new str(x)); return s.back()->c_str(); } };
static const struct ec_config_schema *gen_schema(Rng &r, Arena &a, bool list, int depth)
{
	int style = r.coin() ? 0 : r.range(1, 4);
	auto *v = new vec<struct ec_config_schema>;
	a.v.push_back(v);
	int n = list ? 1 : r.range(1, 5);
	std::set<int> used;
	for (int i = 0; i < n; i++) {
		struct ec_config_schema s; memset(&s, 0, sizeof s);
		int k;
		do k = r.range(0, 6); while (used.count(k));
		used.insert(k);
		s.key = list ? NULL : a.keep(key_name(style, k));
		s.desc = a.keep("what " + std::to_string(r.below(1000000)) + " is for");
		s.type = (enum ec_config_type)(depth <= 0 ? r.range(1, 5) : r.range(1, 7));
		if (s.type == EC_CONFIG_TYPE_LIST) s.subschema = gen_schema(r, a, true, depth - 1);
		if (s.type == EC_CONFIG_TYPE_DICT) s.subschema = gen_schema(r, a, false, depth - 1);
		v->push_back(s);
	}
	struct ec_config_schema e; memset(&e, 0, sizeof e);
	v->push_back(e);
	return v->data();
}
static MC gen_conf(Rng &r, const struct ec_config_schema *s);
static MC gen_conf_elt(Rng &r, const struct ec_config_schema &s)
{
	MC m;
	if (s.type == EC_CONFIG_TYPE_LIST) { m.t = s.type; int n = r.range(0, 3); for (int i = 0; i < n; i++) m.l.push_back(gen_conf_elt(r, s.subschema[0])); return m; }
	if (s.type == EC_CONFIG_TYPE_DICT) return gen_conf(r, s.subschema);
	do m = gen_mc(r, 0); while (m.t != (int)s.type);
	return m;
}
static MC gen_conf(Rng &r, const struct ec_config_schema *s)
{
	MC m; m.t = EC_CONFIG_TYPE_DICT;
	for (; s->type != EC_CONFIG_TYPE_NONE; s++) if (r.chance(3, 4)) m.d[s->key] = gen_conf_elt(r, *s);
	return m;
}
static bool conforms(const MC &m, const struct ec_config_schema *s);
static bool conforms_elt(const MC &m, const struct ec_config_schema &s)
{
	if (m.t != (int)s.type) return false;
	if (m.t == EC_CONFIG_TYPE_LIST) { for (auto &x : m.l) if (!conforms_elt(x, s.subschema[0])) return false; return true; }
	if (m.t == EC_CONFIG_TYPE_DICT) return conforms(m, s.subschema);
	return true;
}
static bool conforms(const MC &m, const struct ec_config_schema *s)
{
	for (auto &e : m.d) {
		const struct ec_config_schema *x = s;
		while (x->type != EC_CONFIG_TYPE_NONE && e.first != x->key) x++;
		if (x->type == EC_CONFIG_TYPE_NONE || !conforms_elt(e.second, *x)) return false;
	}
	return true;
}
// all sub-trees, to mutate one
static void subtrees(MC *m, vec<MC *> &o)
{
	o.push_back(m);
	for (auto &x : m->l) subtrees(&x, o);
	for (auto &x : m->d) subtrees(&x.second, o);
}
static void mutate(Rng &r, MC &m)
{
	vec<MC *> o; subtrees(&m, o);
	MC *x = o[r.below(o.size())];
	switch (r.range(0, 3)) {
	case 0: if (x != &m || r.chance(1, 4)) *x = gen_mc(r, 1); break;
	case 1: if (x->t == EC_CONFIG_TYPE_LIST && !x->l.empty()) x->l.erase(x->l.begin() + (long)r.below(x->l.size())); else if (x->t == EC_CONFIG_TYPE_LIST) x->l.push_back(gen_mc(r, 0)); break;
	case 2: if (x->t == EC_CONFIG_TYPE_DICT) x->d[key_name(r.coin() ? 0 : r.range(1, 4), r.range(0, 8))] = gen_mc(r, 1); break;
	case 3: if (x->t == EC_CONFIG_TYPE_DICT && !x->d.empty()) { auto it = x->d.begin(); std::advance(it, (long)r.below(x->d.size())); x->d.erase(it); } break;
	}
}
// does the dump text show the value?
static void check_dump(const MC &m, const str &dump)
{
	auto has = [&](const str &s) { EXPECT("C14", "dump", dump.find(s) != str::npos, "dump does not contain '%s': %s", esc(s).c_str(), esc(dump).c_str()); };
	switch (m.t) {
	case EC_CONFIG_TYPE_BOOL: has(m.b ? "type=bool val=true\n" : "type=bool val=false\n"); break;
	case EC_CONFIG_TYPE_INT64: has("type=int64 val=" + std::to_string(m.i) + "\n"); break;
	case EC_CONFIG_TYPE_UINT64: has("type=uint64 val=" + std::to_string(m.u) + "\n"); break;
	case EC_CONFIG_TYPE_STRING: has("type=string val=" + m.s + "\n"); break;
	case EC_CONFIG_TYPE_LIST: has("type=list"); for (auto &x : m.l) check_dump(x, dump); break;
	case EC_CONFIG_TYPE_DICT: has("type=dict"); for (auto &x : m.d) { has("key=" + x.first + " "); check_dump(x.second, dump); } break;
	}
}

SCENARIO(config, "random configuration trees (all types, nesting, boundary integers) and random schemas: build, read back, compare, duplicate, edit, validate against the schema, dump; non-trivial = the tree has a container below the root or validation was decided by a nested element")
{
	(void)idx;
	LeakCheck lk;
	for (int i = 0; i < 3; i++) { g_cfg_nodes[i] = ec_node("empty", EC_NO_ID); LCHECK(g_cfg_nodes[i]); }
	uint64_t after_nodes = alloc_mark();
	const char *P = pr3("C14");
	// --- trees
	MC a = gen_mc(r, 3);
	describe("config %s", show(a).c_str());
	bool faulty = maybe_fault(r);
	struct ec_config *c = mk_cfg(r, a);
	if (!outcome(P, "building a configuration", c != NULL)) {
		uint64_t n = alloc_live_count_since(after_nodes);
		EXPECT("C03", "leak", n == 0, "%llu allocations left after a failed construction", (unsigned long long)n);
		for (int i = 0; i < 3; i++) ec_node_free(g_cfg_nodes[i]);
		lk.check("C03", "after a failed construction");
		return;
	}
	(void)faulty;
	EXPECT("C14", "read", show(read_cfg(c)) == show(a), "read back %s", show(read_cfg(c)).c_str());
	ev("configurations built");
	maybe_fault(r);
	struct ec_config *d = ec_config_dup(c);
	if (!outcome(P, "ec_config_dup", d != NULL)) { d = ec_config_dup(c); LCHECK(d); }
	EXPECT("C14", "dup", show(read_cfg(d)) == show(a), "duplicate is %s", show(read_cfg(d)).c_str());
	EXPECT("C14", "cmp", ec_config_cmp(c, d) == 0 && ec_config_cmp(d, c) == 0 && ec_config_cmp(c, c) == 0, "a configuration differs from its duplicate");
	MC b = a;
	int nm = r.range(1, 2);
	for (int i = 0; i < nm; i++) mutate(r, b);
	describe("config %s versus %s", show(a).c_str(), show(b).c_str());
	struct ec_config *e = mk_cfg(r, b);
	LCHECK(e);
	bool eq = show(a) == show(b);
	EXPECT("C14", "cmp", (ec_config_cmp(c, e) == 0) == eq, "comparison says %s", eq ? "different" : "equal");
	EXPECT("C14", "cmp", (ec_config_cmp(e, c) == 0) == eq, "comparison (swapped) says %s", eq ? "different" : "equal");
	EXPECT("C14", "cmp", ec_config_cmp(c, NULL) != 0 && ec_config_cmp(NULL, c) != 0, "comparison with nothing says equal");
	ev("comparisons", 2);
	// a duplicate is independent
	if (a.t == EC_CONFIG_TYPE_DICT) {
		str k = "k" + std::to_string(r.range(0, 5));
		EXPECT("C14", "count", ec_config_count(d) == (ssize_t)a.d.size(), "count of a dict of %zu is %zd", a.d.size(), ec_config_count(d));
		struct ec_config *g = ec_config_dict_get(c, k.c_str());
		EXPECT("C14", "dict", (g != NULL) == (a.d.count(k) != 0), "dict_get('%s') is %s", k.c_str(), g ? "present" : "absent");
		MC nv = gen_mc(r, 1), m2 = a;
		struct ec_config *v = mk_cfg(r, nv);
		maybe_fault(r);
		int ret = ec_config_dict_set(d, k.c_str(), v);
		if (outcome(P, "ec_config_dict_set", ret == 0)) m2.d[k] = nv;
		EXPECT(P, "dict", show(read_cfg(d)) == show(m2), "after set: %s expected %s", show(read_cfg(d)).c_str(), show(m2).c_str());
		str k2 = "k" + std::to_string(r.range(0, 5));
		ret = ec_config_dict_del(d, k2.c_str());
		EXPECT("C14", "dict", (ret == 0) == (m2.d.count(k2) != 0), "dict_del returned %d", ret);
		m2.d.erase(k2);
		EXPECT("C14", "dict", show(read_cfg(d)) == show(m2), "after del: %s expected %s", show(read_cfg(d)).c_str(), show(m2).c_str());
	} else if (a.t == EC_CONFIG_TYPE_LIST) {
		MC m2 = a, nv = gen_mc(r, 1);
		EXPECT("C14", "count", ec_config_count(d) == (ssize_t)a.l.size(), "count of a list of %zu is %zd", a.l.size(), ec_config_count(d));
		EXPECT("C14", "list", ec_config_list_add(d, mk_cfg(r, nv)) == 0, "list_add failed");
		m2.l.push_back(nv);
		size_t k = r.below(m2.l.size());
		struct ec_config *x = ec_config_list_first(d);
		for (size_t i = 0; i < k && x; i++) x = ec_config_list_next(d, x);
		if (!x) { violate("C14", "list", "element %zu is missing", k); end_case(); }
		EXPECT("C14", "list", show(read_cfg(x)) == show(m2.l[k]), "element %zu is %s", k, show(read_cfg(x)).c_str());
		EXPECT("C14", "list", ec_config_list_del(d, x) == 0, "list_del failed");
		m2.l.erase(m2.l.begin() + (long)k);
		EXPECT("C14", "list", show(read_cfg(d)) == show(m2), "after del: %s expected %s", show(read_cfg(d)).c_str(), show(m2).c_str());
	} else {
		EXPECT("C14", "type", ec_config_count(d) < 0, "a scalar has a count");
		EXPECT("C14", "type", ec_config_dict_set(d, "k", ec_config_bool(true)) < 0, "a key was set in a scalar");
		EXPECT("C14", "type", ec_config_list_add(d, ec_config_bool(true)) < 0, "an element was added to a scalar");
		EXPECT("C14", "type", ec_config_dict_get(d, "k") == NULL && ec_config_list_first(d) == NULL, "a scalar has elements");
	}
	EXPECT("C14", "dup", show(read_cfg(c)) == show(a), "editing a duplicate changed the original to %s", show(read_cfg(c)).c_str());
	str dump = slurp_stream([&](FILE *f) { ec_config_dump(f, c); });
	check_dump(a, dump);
	ev("dumps");
	ec_config_free(e);
	ec_config_free(d);
	EXPECT("C14", "dup", show(read_cfg(c)) == show(a), "releasing a duplicate changed the original");
	ec_config_free(c);
	ec_config_free(NULL);
	if (!a.l.empty() || !a.d.empty()) nontrivial(fnv(show(a) + show(b)));
	sample(current_desc());
	// --- schemas
	{
		Arena ar;
		const struct ec_config_schema *s = gen_schema(r, ar, false, 2);
		EXPECT("C14", "schema", ec_config_schema_validate(s) == 0, "a well-formed schema was refused");
		str sd = slurp_stream([&](FILE *f) { ec_config_schema_dump(f, s); });
		for (const struct ec_config_schema *x = s; x->type != EC_CONFIG_TYPE_NONE; x++) {
			EXPECT("C14", "schema", ec_config_schema_lookup(s, x->key) == x, "lookup of '%s' gives another element", x->key);
			EXPECT("C14", "schema", ec_config_schema_type(x) == x->type && ec_config_schema_sub(x) == x->subschema, "accessors");
			EXPECT("C14", "schema", sd.find(str("key=") + x->key + " ") != str::npos, "dump misses '%s'", x->key);
			bool line = false; std::istringstream is(sd);
			for (str l; std::getline(is, l);) if (l.find(str("key=") + x->key + " ") != str::npos && l.find(x->desc) != str::npos) line = true;
			EXPECT("C14", "schema", line, "the dump does not show '%s' with its description", x->key);
		}
		EXPECT("C14", "schema", ec_config_schema_lookup(s, "nosuchkey") == NULL, "lookup of an absent key");
		for (int t = 0; t < 3; t++) {
			MC m = gen_conf(r, s);
			int k = t == 0 ? 0 : r.range(1, 2);
			for (int i = 0; i < k; i++) mutate(r, m);
			struct ec_config *v = mk_cfg(r, m);
			LCHECK(v);
			describe("validate %s against %s", show(m).c_str(), esc(sd).c_str());
			bool want = m.t == EC_CONFIG_TYPE_DICT && conforms(m, s);
			errno = 0;
			int ret = ec_config_validate(v, s), e = errno;
			EXPECT("C29", "errno", ret == 0 || e != 0, "a configuration was refused and errno is not set");
			EXPECT("C14", "validate", (ret == 0) == want, "validation %s, expected %s", ret == 0 ? "passed" : "failed", want ? "pass" : "fail");
			EXPECT("C14", "validate", show(read_cfg(v)) == show(m), "validation changed the configuration");
			ec_config_free(v);
			ev(want ? "valid configurations" : "invalid configurations");
			nontrivial(fnv(show(m) + sd));
		}
		// ill-formed schemas are refused
		struct ec_config_schema bad[3]; memset(bad, 0, sizeof bad);
		bad[0].key = "x"; bad[0].desc = "d"; bad[0].type = (enum ec_config_type)r.range(1, 5);
		const char *what = "";
		static const struct ec_config_schema sub[] = { { "y", "d", EC_CONFIG_TYPE_BOOL, NULL }, { NULL, NULL, EC_CONFIG_TYPE_NONE, NULL } };
		static const struct ec_config_schema sub2[] = { { NULL, "d", EC_CONFIG_TYPE_BOOL, NULL }, { NULL, "d", EC_CONFIG_TYPE_BOOL, NULL }, { NULL, NULL, EC_CONFIG_TYPE_NONE, NULL } };
		static const struct ec_config_schema none[] = { { NULL, NULL, EC_CONFIG_TYPE_NONE, NULL } };
		switch (r.range(0, 9)) {
		case 0: what = "duplicate key"; bad[1] = bad[0]; break;
		case 1: what = "missing key"; bad[0].key = NULL; break;
		case 2: what = "reserved key"; { static const char *const k[] = { "id", "attrs", "help", "type" }; bad[0].key = k[r.below(4)]; } break;
		case 3: what = "scalar with subschema"; bad[0].subschema = sub; break;
		case 4: what = "list without subschema"; bad[0].type = EC_CONFIG_TYPE_LIST; break;
		case 5: what = "dict without subschema"; bad[0].type = EC_CONFIG_TYPE_DICT; break;
		case 6: what = "list with a keyed subschema"; bad[0].type = EC_CONFIG_TYPE_LIST; bad[0].subschema = sub; break;
		case 7: what = "list with two element schemas"; bad[0].type = EC_CONFIG_TYPE_LIST; bad[0].subschema = sub2; break;
		case 8: what = "dict with an empty subschema"; bad[0].type = EC_CONFIG_TYPE_DICT; bad[0].subschema = none; break;
		case 9: what = "nested keyless dict"; bad[0].type = EC_CONFIG_TYPE_DICT; bad[0].subschema = sub2; break;
		}
		describe("ill-formed schema: %s", what);
		errno = 0;
		EXPECT("C14", "schema", ec_config_schema_validate(bad) < 0, "accepted a schema with: %s", what);
		EXPECT("C29", "errno", errno != 0, "a schema was refused and errno is not set");
		ev("ill-formed schemas refused");
		// one defect anywhere in a well-formed schema
		{
			Arena ab;
			const struct ec_config_schema *g = gen_schema(r, ab, false, 2);
			vec<struct ec_config_schema> &v = *ab.v[r.below(ab.v.size())];
			size_t L = v.size() - 1, at = r.below(L);
			bool list = v[0].key == NULL;
			static const char *const res[] = { "id", "attrs", "help", "type" };
			str w;
			switch (r.range(0, 5)) {
			case 0: case 1: if (!list && L > 1) { size_t o = r.below(L - 1); if (o >= at) o++; v[at].key = ab.keep(v[o].key); w = "entries " + std::to_string(at) + " and " + std::to_string(o) + " have the same key"; } break;
			case 2: if (list) { v[at].key = "x"; w = "a list element with a key"; } else { v[at].key = NULL; w = "no key at " + std::to_string(at); } break;
			case 3: if (!list) { v[at].key = res[r.below(4)]; w = "reserved key at " + std::to_string(at); } break;
			case 4: if (v[at].subschema) { v[at].subschema = r.coin() ? NULL : none; w = "container without subschema at " + std::to_string(at); } else { v[at].subschema = r.coin() ? sub : none; w = "scalar with subschema at " + std::to_string(at); } break;
			case 5: v[at].type = (enum ec_config_type)r.range(8, 11); w = "unknown type at " + std::to_string(at); break;
			}
			if (!w.empty()) {
				str gd = v[at].type <= EC_CONFIG_TYPE_DICT ? slurp_stream([&](FILE *f) { ec_config_schema_dump(f, g); }) : str();
				describe("ill-formed schema: %s: %s", w.c_str(), esc(gd).c_str());
				errno = 0;
				EXPECT("C14", "schema", ec_config_schema_validate(g) < 0, "accepted a schema with: %s", w.c_str());
				EXPECT("C29", "errno", errno != 0, "a schema was refused and errno is not set");
				nontrivial(fnv(w + gd));
				ev("ill-formed schemas refused");
			}
		}
		for (auto *k : { "id", "attrs", "help", "type" }) EXPECT("C14", "reserved", ec_config_key_is_reserved(k), "'%s' not reserved", k);
		EXPECT("C14", "reserved", !ec_config_key_is_reserved("k1") && !ec_config_key_is_reserved("i") && !ec_config_key_is_reserved("") && !ec_config_key_is_reserved("types") && !ec_config_key_is_reserved("attr") && !ec_config_key_is_reserved("ID"), "an ordinary key is reserved");
	}
	for (int i = 0; i < 3; i++) ec_node_free(g_cfg_nodes[i]);
	lk.check(wants("C03") && !g_prop.empty() ? "C03" : "C02", "after releasing every configuration");
}
