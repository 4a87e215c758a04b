// C10: regular-expression terminals and lexers against an independent regular-expression matcher.
// C11: integer nodes against exact 128-bit arithmetic.
#include "checks.h"

// ---- reference regular expressions -------------------------------------------
struct Rx;
typedef std::shared_ptr<Rx> RxP;
struct Rx { enum K { LIT, DOT, SET, CAT, ALT, REP } k; char c = 0; bool neg = false; str set; vec<RxP> ch; int lo = 0, hi = -1; };
typedef std::set<size_t> Ends;
static void rx_ends(const Rx &x, const str &t, size_t pos, Ends &out)
{
	switch (x.k) {
	case Rx::LIT: if (pos < t.size() && t[pos] == x.c) out.insert(pos + 1); return;
	case Rx::DOT: if (pos < t.size()) out.insert(pos + 1); return;
	case Rx::SET: if (pos < t.size() && (x.set.find(t[pos]) != str::npos) != x.neg) out.insert(pos + 1); return;
	case Rx::ALT: for (auto &c : x.ch) rx_ends(*c, t, pos, out); return;
	case Rx::CAT: {
		Ends cur{pos};
		for (auto &c : x.ch) { Ends n; for (size_t p : cur) rx_ends(*c, t, p, n); cur.swap(n); }
		out.insert(cur.begin(), cur.end());
		return; }
	case Rx::REP: {
		Ends cur{pos}, mine;
		for (int i = 0; !cur.empty(); i++) {
			if (i >= x.lo) { bool grew = false; for (size_t p : cur) grew |= mine.insert(p).second; if (!grew && i > x.lo) break; }
			if (x.hi >= 0 && i >= x.hi) break;
			Ends n;
			for (size_t p : cur) rx_ends(*x.ch[0], t, p, n);
			cur.swap(n);
			if (i > 200) break;
		}
		out.insert(mine.begin(), mine.end());
		return; }
	}
}
static str rx_show(const Rx &x)
{
	auto q = [](char c) { str s; if (strchr(".[]()*+?{}|^$\\", c)) s += '\\'; return s + c; };
	switch (x.k) {
	case Rx::LIT: return q(x.c);
	case Rx::DOT: return ".";
	case Rx::SET: return str(x.neg ? "[^" : "[") + x.set + "]";
	case Rx::CAT: { str s; for (auto &c : x.ch) s += c->k == Rx::ALT ? "(" + rx_show(*c) + ")" : rx_show(*c); return s; }
	case Rx::ALT: { str s; for (size_t i = 0; i < x.ch.size(); i++) s += (i ? "|" : "") + rx_show(*x.ch[i]); return s; }
	case Rx::REP: {
		bool par = x.ch[0]->k == Rx::CAT || x.ch[0]->k == Rx::ALT || x.ch[0]->k == Rx::REP;
		str s = par ? "(" + rx_show(*x.ch[0]) + ")" : rx_show(*x.ch[0]);
		if (x.lo == 0 && x.hi < 0) return s + "*";
		if (x.lo == 1 && x.hi < 0) return s + "+";
		if (x.lo == 0 && x.hi == 1) return s + "?";
		if (x.hi < 0) return s + "{" + std::to_string(x.lo) + ",}";
		if (x.lo == x.hi) return s + "{" + std::to_string(x.lo) + "}";
		return s + "{" + std::to_string(x.lo) + "," + std::to_string(x.hi) + "}"; }
	}
	return "";
}
static const char *RXALPHA = "abc01 =+-.*";
static RxP rx_gen(Rng &r, int d)
{
	RxP x(new Rx);
	int k = d <= 0 ? r.range(0, 4) : r.range(0, 9);
	if (k <= 1) { x->k = Rx::LIT; x->c = r.chance(3, 4) ? "abc"[r.below(3)] : RXALPHA[r.below(strlen(RXALPHA))]; }
	else if (k == 2) x->k = r.chance(1, 3) ? Rx::DOT : Rx::LIT, x->c = 'a';
	else if (k <= 4) { static const vec<str> sets = {"ab", "abc", "01", " ", "a-", "=+", "c"}; x->k = Rx::SET; x->set = r.pick(sets); x->neg = r.chance(1, 5); }
	else if (k <= 6) { x->k = Rx::CAT; int n = r.range(2, 3); for (int i = 0; i < n; i++) x->ch.push_back(rx_gen(r, d - 1)); }
	else if (k == 7) { x->k = Rx::ALT; int n = r.range(2, 3); for (int i = 0; i < n; i++) x->ch.push_back(rx_gen(r, d - 1)); }
	else { x->k = Rx::REP; x->ch.push_back(rx_gen(r, d - 1)); switch (r.range(0, 4)) { case 0: x->lo = 0; break; case 1: case 2: x->lo = 1; break; case 3: x->lo = 0; x->hi = 1; break; default: x->lo = r.range(0, 2); x->hi = x->lo + r.range(0, 2); if (x->hi == 0) x->hi = 1; } }
	return x;
}
static void rx_walk(Rng &r, const Rx &x, str &out)
{
	if (out.size() > 40) return;
	switch (x.k) {
	case Rx::LIT: out += x.c; return;
	case Rx::DOT: out += RXALPHA[r.below(strlen(RXALPHA))]; return;
	case Rx::SET: if (x.neg) { for (int i = 0; i < 8; i++) { char c = RXALPHA[r.below(strlen(RXALPHA))]; if (x.set.find(c) == str::npos) { out += c; return; } } } else out += x.set[r.below(x.set.size())]; return;
	case Rx::CAT: for (auto &c : x.ch) rx_walk(r, *c, out); return;
	case Rx::ALT: rx_walk(r, *x.ch[r.below(x.ch.size())], out); return;
	case Rx::REP: { int n = r.range(x.lo, x.hi < 0 ? x.lo + 3 : x.hi); for (int i = 0; i < n; i++) rx_walk(r, *x.ch[0], out); return; }
	}
}
static str mutate(Rng &r, str s)
{
	int k = r.range(0, 6);
	if (k == 0 && !s.empty()) s.erase(r.below(s.size()), 1);
	else if (k == 1) s.insert(r.below(s.size() + 1), 1, RXALPHA[r.below(strlen(RXALPHA))]);
	else if (k == 2) s = " " + s;
	else if (k == 3) s += "ab"[r.below(2)];
	else if (k == 4 && !s.empty()) s[r.below(s.size())] = (char)r.range(1, 255);
	return s;
}

static int set_pattern(Rng &r, struct ec_node *n, const str &p)
{
	if (r.coin()) return ec_node_re_set_regexp(n, p.c_str());
	struct ec_config *c = ec_config_dict();
	LCHECK(c && ec_config_dict_set(c, "pattern", ec_config_string(p.c_str())) == 0);
	return ec_node_set_config(n, c);
}

SCENARIO(re, "random extended regular expressions over literals, sets, groups, alternation and bounded repetition; tokens drawn from the pattern and mutated, patterns replaced and bad ones offered in between; regexp lexers with 1..6 patterns (kept/dropped, attributes) over concatenations of drawn pieces; lexers with up to 60 keywords over texts with pieces of up to 4097 bytes; non-trivial = a token or text the patterns accept")
{
	(void)idx;
	LeakCheck lk;
	static const vec<str> bad = {"(", "[a", "a{2,1}", "*", "a{1", ")", "[z-a]", "\\"};
	auto isbad = [&](const str &s) { return !pat_ok(s); };
	if (r.chance(1, 40)) {
		// long texts, many patterns
		int kw = r.chance(1, 3) ? r.range(5, 60) : 0;
		static const vec<int> lens = {60, 63, 64, 65, 100, 127, 128, 129, 200, 255, 256, 257, 300, 1000, 1023, 1024, 1025, 4000, 4095, 4096, 4097};
		auto run = [&](char c) { return str(r.chance(1, 3) ? (size_t)r.pick(lens) : (size_t)r.range(1, 6), c); };
		struct ec_node *child = ec_node_many("m", ec_node("any", "e"), 0, 0), *n = ec_node_re_lex("lex", child); LCHECK(n);
		for (int i = 0; i < kw; i++) LCHECK(ec_node_re_lex_add(n, (":" + std::to_string(100 + i)).c_str(), 1, NULL) == 0);
		LCHECK(ec_node_re_lex_add(n, "[a-c]+", 1, "w") == 0 && ec_node_re_lex_add(n, "[0-2]+", 1, NULL) == 0 && ec_node_re_lex_add(n, " +", 0, NULL) == 0);
		str t; vec<str> want; int np = r.range(1, 80), last = -1;
		for (int i = 0; i < np; i++) {
			int k = (int)r.below(kw ? 4 : 3); if (k == last && k != 3) continue; // a run of the same kind would join the one before
			if (last == 3 && k == 1) continue; // the digits of a keyword would still be cut in two, left to the other workload
			str w = k == 0 ? run('b') : k == 1 ? run('1') : k == 2 ? run(' ') : ":" + std::to_string(100 + (int)r.below((uint64_t)kw));
			t += w; if (k != 2) want.push_back(w); last = k;
		}
		bool ok = !r.chance(1, 5); if (!ok) t += "?";
		describe("re_lex with %d keywords on a text of %zu bytes, %zu pieces", kw, t.size(), want.size());
		Built b; b.idx[n] = 0; b.idx[child] = 1; b.root = n;
		ParseRes o = run_parse(b, Toks{Tok{t, {}}});
		if (!o.p) { violate("C10", "error", "lexing a long text reported an error"); end_case(); }
		EXPECT("C10", "long", o.match == ok, "a long text is %s", o.match ? "accepted" : "refused");
		if (o.match) {
			const struct ec_pnode *c = ec_pnode_get_first_child(o.p); vec<str> got; if (c) for (auto &x : read_strvec(ec_pnode_get_strvec(c))) got.push_back(x.s);
			size_t i = 0; while (i < got.size() && i < want.size() && got[i] == want[i]) i++;
			EXPECT("C10", "long", got == want, "a long text is cut into %zu pieces, expected %zu; piece %zu differs", got.size(), want.size(), i);
			ev("long texts cut"); nontrivial(fnv(t));
		}
		ec_pnode_free(o.p); ec_node_free(n);
	} else if (r.coin()) {
		// terminal
		RxP x = rx_gen(r, r.range(0, 3));
		str ps = rx_show(*x);
		describe("re '%s'", esc(ps).c_str());
		struct ec_node *n = NULL;
		if (r.coin()) n = ec_node_re("id", ps.c_str());
		else { n = ec_node("re", "id"); LCHECK(n); if (set_pattern(r, n, ps) < 0) { violate("C10", "config", "pattern '%s' refused", esc(ps).c_str()); ec_node_free(n); end_case(); } }
		if (!n) { violate("C10", "config", "pattern '%s' refused", esc(ps).c_str()); end_case(); }
		int rounds = r.range(3, 10);
		bool any = false;
		for (int i = 0; i < rounds; i++) {
			if (r.chance(1, 6)) {
				const str &b = r.pick(bad);
				if (isbad(b)) {
					describe_append(" | set bad '%s'", b.c_str());
					EXPECT("C10", "config", set_pattern(r, n, b) < 0, "ill-formed pattern '%s' accepted", b.c_str());
					ev("ill-formed patterns refused");
				}
			}
			if (r.chance(1, 6)) {
				x = rx_gen(r, r.range(0, 3)); ps = rx_show(*x);
				describe_append(" | set '%s'", esc(ps).c_str());
				EXPECT("C10", "config", set_pattern(r, n, ps) == 0, "pattern '%s' refused", esc(ps).c_str());
				ev("patterns replaced");
			}
			str t; rx_walk(r, *x, t);
			if (r.coin()) t = mutate(r, t);
			Ends e; rx_ends(*x, t, 0, e);
			bool want = e.count(t.size());
			Toks in{Tok{t, {}}};
			if (r.chance(1, 3)) in.push_back(Tok{"next", {}});
			describe_append(" | parse %s", show_toks(in).c_str());
			Built b; b.idx[n] = 0; b.root = n;
			ParseRes o = run_parse(b, in);
			if (!o.p) { violate("C10", "error", "parsing reported an error"); end_case(); }
			EXPECT("C10", "match", o.match == want, "token '%s' %s by '%s'", esc(t).c_str(), o.match ? "accepted" : "refused", esc(ps).c_str());
			if (o.match) {
				EXPECT("C10", "length", o.len == 1, "consumed %zu tokens", o.len);
				const char *s = ec_strvec_val(ec_pnode_get_strvec(o.p), 0);
				EXPECT("C10", "token", s && t == s, "tree holds '%s'", s ? esc(s).c_str() : "(null)");
			}
			ec_pnode_free(o.p);
			ev(want ? "tokens accepted" : "tokens refused");
			if (want && !t.empty()) { any = true; nontrivial(fnv(ps + "\1" + t)); }
		}
		{ Built b; b.idx[n] = 0; b.root = n; ParseRes o = run_parse(b, Toks()); if (o.p) { EXPECT("C10", "match", !o.match, "empty input accepted"); ec_pnode_free(o.p); } else violate("C10", "error", "parsing nothing reported an error"); }
		if (any) sample(current_desc());
		ec_node_free(n);
	} else {
		// lexer
		struct P { RxP x; str ps; bool keep; str attr; bool eol = false; };
		vec<P> tab;
		static const vec<str> attrs = {"", "", "A", "B", "long attr"};
		auto newp = [&] { P p; p.x = rx_gen(r, r.range(0, 2)); p.ps = rx_show(*p.x); p.keep = r.chance(3, 4); p.attr = r.pick(attrs); if (r.chance(1, 6)) { p.eol = r.chance(1, 3); p.ps = str(r.chance(3, 4) ? "^(" : "(") + p.ps + (p.eol ? ")$" : ")"); ev("anchored lexer patterns"); } return p; };
		// child shapes: k elements of some kind
		int shape = r.range(0, 4), k = r.range(0, 4);
		str ca = shape == 3 ? "A" : "";
		struct ec_node *child = NULL, *elt = ca.empty() ? ec_node("any", "e") : ec_node_any("e", "A");
		LCHECK(elt);
		if (shape == 1) child = ec_node_many("m", elt, 0, (unsigned)k);          // at most k (0: no limit)
		else if (shape == 2) child = ec_node_many("m", elt, (unsigned)k, 0);     // at least k
		else if (shape == 4) { child = ec_node_many("m", EC_NODE_OR("o", ec_node_str("s", "a"), ec_node_str("s2", "ab"), ec_node_str("s3", "b")), 0, 0); ec_node_free(elt); }
		else child = ec_node_many("m", elt, 0, 0);
		struct ec_node *n = ec_node_re_lex("lex", child);
		LCHECK(n);
		describe("re_lex child shape %d k %d;", shape, k);
		auto add = [&](const P &p) {
			describe_append(" add %s'%s'%s", p.keep ? "" : "drop ", esc(p.ps).c_str(), p.attr.empty() ? "" : (":" + p.attr).c_str());
			EXPECT("C10", "config", ec_node_re_lex_add(n, p.ps.c_str(), p.keep, p.attr.empty() ? NULL : p.attr.c_str()) == 0, "pattern '%s' refused", esc(p.ps).c_str());
			tab.push_back(p);
		};
		int np = r.range(1, 6);
		for (int i = 0; i < np; i++) add(newp());
		int rounds = r.range(3, 8);
		for (int i = 0; i < rounds; i++) {
			if (r.chance(1, 6)) { const str &b = r.pick(bad); if (isbad(b)) { describe_append(" | add bad '%s'", b.c_str()); EXPECT("C10", "config", ec_node_re_lex_add(n, b.c_str(), 1, NULL) < 0, "ill-formed pattern '%s' accepted", b.c_str()); ev("ill-formed patterns refused"); } }
			if (r.chance(1, 6)) { describe_append(" |"); add(newp()); }
			str t; int pieces = r.range(0, 5);
			for (int j = 0; j < pieces; j++) rx_walk(r, *r.pick(tab).x, t);
			if (r.chance(1, 3)) t = mutate(r, t);
			if (t.size() > 60) t.resize(60);
			// reference cut
			Toks cut; bool ok = true;
			for (size_t off = 0; off < t.size();) {
				size_t best = 0;
				str rest = t.substr(off);
				for (auto &p : tab) {
					Ends e; rx_ends(*p.x, rest, 0, e);
					if (p.eol) { bool z = e.count(rest.size()); e.clear(); if (z) e.insert(rest.size()); }
					if (e.empty() || *e.rbegin() == 0) continue;
					best = *e.rbegin();
					if (p.keep) { Tok w; w.s = rest.substr(0, best); if (!p.attr.empty()) w.attrs.insert(p.attr); cut.push_back(w); }
					break;
				}
				if (!best) { ok = false; break; }
				off += best;
			}
			size_t took = 0;
			if (ok) {
				for (auto &w : cut) {
					if (shape == 1 && k && took >= (size_t)k) break;
					if (shape == 3 && !w.attrs.count("A")) break;
					if (shape == 4 && w.s != "a" && w.s != "b" && w.s != "ab") break;
					took++;
				}
			}
			bool want = ok && took == cut.size() && !(shape == 2 && took < (size_t)k);
			Toks in{Tok{t, {}}};
			if (r.chance(1, 4)) in.push_back(Tok{"next", {}});
			describe_append(" | parse %s", show_toks(in).c_str());
			Built b; b.idx[n] = 0; b.idx[child] = 1; b.root = n;
			ParseRes o = run_parse(b, in);
			if (!o.p) { violate("C10", "error", "lexing reported an error"); end_case(); }
			EXPECT("C10", "match", o.match == want, "text '%s' %s (reference cut: %s %s)", esc(t).c_str(), o.match ? "accepted" : "refused", ok ? "ok" : "impossible", show_toks(cut).c_str());
			if (o.match) {
				EXPECT("C10", "length", o.len == 1, "consumed %zu tokens", o.len);
				const struct ec_pnode *c = ec_pnode_get_first_child(o.p);
				if (!c) { violate("C10", "pieces", "no tree below the lexer"); end_case(); }
				Toks got = read_strvec(ec_pnode_get_strvec(c));
				EXPECT("C10", "pieces", show_toks(got) == show_toks(cut), "text '%s' was cut into %s; reference %s", esc(t).c_str(), show_toks(got).c_str(), show_toks(cut).c_str());
				EXPECT("C10", "token", show_toks(read_strvec(ec_pnode_get_strvec(o.p))) == show_toks(Toks{in[0]}), "the lexer's own token changed");
				ev("texts cut and accepted");
				if (!cut.empty()) nontrivial(fnv(current_desc().substr(0, 400) + t));
			} else {
				EXPECT("C10", "trace", ec_pnode_get_first_child(o.p) == NULL && ec_pnode_get_strvec(o.p) == NULL, "refused text left a trace");
				ev(ok ? "texts cut but refused by the child" : "texts that cannot be cut");
			}
			ec_pnode_free(o.p);
		}
		sample(current_desc());
		ec_node_free(n);
	}
	lk.check("C02", "regular expression nodes");
}

// ---- integers -------------------------------------------------------------------
static str in_base(Rng &r, unsigned __int128 v, unsigned base)
{
	str s;
	do { unsigned d = (unsigned)(v % base); s += (char)(d < 10 ? '0' + d : (r.coin() ? 'a' : 'A') + d - 10); v /= base; } while (v);
	std::reverse(s.begin(), s.end());
	return s;
}
static __int128 pick_val(Rng &r, const vec<__int128> &edges)
{
	if (r.chance(2, 3)) return r.pick(edges) + r.range(-2, 2);
	switch (r.range(0, 4)) {
	case 0: return (__int128)(int64_t)r.next();
	case 1: return (__int128)(uint64_t)r.next();
	case 2: return r.range(-20, 300);
	case 3: return ((__int128)r.next() << r.range(0, 20)) - r.range(0, 5);
	default: return ((__int128)1 << r.range(0, 70)) * (r.coin() ? 1 : -1);
	}
}
static str int_text(Rng &r, __int128 v, unsigned base)
{
	unsigned b = base ? base : (unsigned)(r.coin() ? 10 : r.coin() ? 16 : 8);
	if (r.chance(1, 8)) b = (unsigned)r.range(2, 36);
	bool neg = v < 0;
	str s = in_base(r, neg ? (unsigned __int128)-v : (unsigned __int128)v, b < 2 || b > 36 ? 10 : b);
	if (r.chance(1, 6)) s = str((size_t)r.range(1, 30), '0') + s;
	if (b == 16 && r.coin()) s = (r.coin() ? "0x" : "0X") + s;
	if (b == 8 && r.coin()) s = "0" + s;
	if (neg) s = "-" + s; else if (r.chance(1, 8)) s = "+" + s;
	switch (r.range(0, 19)) {
	case 0: return " " + s;
	case 1: return s + " ";
	case 2: return s + "x";
	case 3: return "";
	case 4: return "-";
	case 5: return "0x";
	case 6: return s + "." ;
	case 7: return "--" + s;
	case 8: return "\t " + s;
	case 9: return s.substr(0, r.below(s.size() + 1));
	case 10: return "zz" + s;
	case 11: return s + s;
	case 12: return "+-" + s;
	case 13: return "0" ;
	default: return s;
	}
}

SCENARIO(ints, "int/uint nodes with random bases and bounds (none, one, both, extreme), reconfigured and offered impossible bounds along the way; tokens around bounds, 2^63, 2^64, prefixes, signs, blanks, garbage; verdict and value compared with 128-bit arithmetic; non-trivial = accepted token")
{
	(void)idx;
	LeakCheck lk;
	bool sg = r.coin();
	__int128 TMIN = sg ? (__int128)INT64_MIN : 0, TMAX = sg ? (__int128)INT64_MAX : (__int128)UINT64_MAX;
	vec<__int128> edges = {0, 1, -1, (__int128)INT64_MAX, (__int128)INT64_MIN, (__int128)UINT64_MAX, (__int128)INT32_MAX, (__int128)INT32_MIN, (__int128)UINT32_MAX};
	bool hmin = false, hmax = false; __int128 mn = 0, mx = 0; unsigned base = 0;
	auto mk = [&](__int128 v) { return sg ? ec_config_i64((int64_t)v) : ec_config_u64((uint64_t)v); };
	auto clampv = [&](__int128 v) { return v < TMIN ? TMIN : v > TMAX ? TMAX : v; };
	struct ec_node *n = NULL;
	auto gen = [&](bool &a, bool &b, __int128 &lo, __int128 &hi, unsigned &bs) {
		a = r.coin(); b = r.coin();
		lo = clampv(pick_val(r, edges)); hi = clampv(pick_val(r, edges));
		static const unsigned bases[] = {0, 0, 10, 10, 16, 8, 2, 36, 3, 1, 37, 64};
		bs = bases[r.below(12)];
	};
	auto show = [&](bool a, bool b, __int128 lo, __int128 hi, unsigned bs) {
		Rng q(1);
		str s = sg ? "int" : "uint";
		if (a) s += " min " + str(lo < 0 ? "-" : "") + in_base(q, (unsigned __int128)(lo < 0 ? -lo : lo), 10);
		if (b) s += " max " + str(hi < 0 ? "-" : "") + in_base(q, (unsigned __int128)(hi < 0 ? -hi : hi), 10);
		return s + " base " + std::to_string(bs);
	};
	describe("%s", sg ? "int" : "uint");
	auto config = [&](struct ec_node *nd, bool a, bool b, __int128 lo, __int128 hi, unsigned bs) {
		struct ec_config *c = ec_config_dict();
		LCHECK(c);
		if (a) LCHECK(ec_config_dict_set(c, "min", mk(lo)) == 0);
		if (b) LCHECK(ec_config_dict_set(c, "max", mk(hi)) == 0);
		if (bs || r.coin()) LCHECK(ec_config_dict_set(c, "base", ec_config_u64(bs)) == 0);
		return ec_node_set_config(nd, c);
	};
	if (r.coin()) {
		gen(hmin, hmax, mn, mx, base);
		hmin = hmax = true;
		describe("%s (constructor)", show(hmin, hmax, mn, mx, base).c_str());
		n = sg ? ec_node_int("i", (int64_t)mn, (int64_t)mx, base) : ec_node_uint("i", (uint64_t)mn, (uint64_t)mx, base);
		for (auto pr : {"C11", "C15"}) EXPECT(pr, "bounds", (n != NULL) == (mn <= mx), "constructor %s", n ? "accepted crossed bounds" : "refused valid bounds");
		if (!n) { lk.check("C02", "refused integer node"); nontrivial(fnv(current_desc())); return; }
	} else {
		n = ec_node(sg ? "int" : "uint", "i");
		LCHECK(n);
	}
	int rounds = r.range(4, 14);
	for (int i = 0; i < rounds; i++) {
		if (r.chance(1, 3)) {
			bool a, b; __int128 lo, hi; unsigned bs;
			gen(a, b, lo, hi, bs);
			describe_append(" | set %s", show(a, b, lo, hi, bs).c_str());
			int ret = config(n, a, b, lo, hi, bs);
			bool ok = !(a && b && lo > hi);
			for (auto pr : {"C11", "C15"}) EXPECT(pr, "bounds", (ret == 0) == ok, "configuration %s", ret == 0 ? "with crossed bounds accepted" : "with valid bounds refused");
			if (ok) { hmin = a; hmax = b; mn = lo; mx = hi; base = bs; ev("bounds changed"); } else ev("crossed bounds refused");
		}
		vec<__int128> e2 = edges;
		if (hmin) for (int k = 0; k < 4; k++) e2.push_back(mn);
		if (hmax) for (int k = 0; k < 4; k++) e2.push_back(mx);
		str t = int_text(r, pick_val(r, e2), base);
		bool want; __int128 val = 0;
		if (base == 1 || base > 36) want = false;
		else if (sg) { int64_t v; want = ref_int(t, base, v); if (want) val = v; }
		else { uint64_t v; want = ref_uint(t, base, v); if (want) val = v; }
		bool text_ok = want; __int128 tv = val;
		if (want && hmin && val < mn) want = false;
		if (want && hmax && val > mx) want = false;
		describe_append(" | '%s'", esc(t).c_str());
		Toks in{Tok{t, {}}}; if (r.chance(1, 4)) in.push_back(Tok{"1", {}});
		Built b; b.idx[n] = 0; b.root = n;
		ParseRes o = run_parse(b, in);
		if (!o.p) { violate("C11", "error", "parsing reported an error"); end_case(); }
		for (auto pr : {"C11", "C15"}) EXPECT(pr, "match", o.match == want, "token '%s' %s by %s", esc(t).c_str(), o.match ? "accepted" : "refused", show(hmin, hmax, mn, mx, base).c_str());
		EXPECT("C11", "length", o.len == (want ? 1u : 0u), "consumed %zu tokens", o.len);
		ec_pnode_free(o.p);
		errno = 0;
		if (sg) {
			int64_t v = 77; int ret = ec_node_int_getval(n, t.c_str(), &v);
			EXPECT("C11", "value", (ret == 0) == want && (!want || v == (int64_t)val), "value of '%s': %lld (ret %d)", esc(t).c_str(), (long long)v, ret);
			uint64_t u; EXPECT("C11", "value", ec_node_uint_getval(n, t.c_str(), &u) < 0, "signed node answers as unsigned");
			int64_t lo = hmin ? (int64_t)mn : INT64_MIN, hi = hmax ? (int64_t)mx : INT64_MAX;
			errno = 0; v = 77; ret = ec_str_parse_llint(t.c_str(), base, lo, hi, &v);
			EXPECT("C29", "errno", ret == 0 || errno != 0, "'%s' was refused and errno is not set", esc(t).c_str());
			EXPECT("C11", "string", (ret == 0) == want && (!want || v == (int64_t)val), "parse of '%s': %lld (ret %d)", esc(t).c_str(), (long long)v, ret);
		} else {
			uint64_t v = 77; int ret = ec_node_uint_getval(n, t.c_str(), &v);
			EXPECT("C11", "value", (ret == 0) == want && (!want || v == (uint64_t)val), "value of '%s': %llu (ret %d)", esc(t).c_str(), (unsigned long long)v, ret);
			int64_t s; EXPECT("C11", "value", ec_node_int_getval(n, t.c_str(), &s) < 0, "unsigned node answers as signed");
			uint64_t lo = hmin ? (uint64_t)mn : 0, hi = hmax ? (uint64_t)mx : UINT64_MAX;
			errno = 0; v = 77; ret = ec_str_parse_ullint(t.c_str(), base, lo, hi, &v);
			EXPECT("C29", "errno", ret == 0 || errno != 0, "'%s' was refused and errno is not set", esc(t).c_str());
			EXPECT("C11", "string", (ret == 0) == want && (!want || v == (uint64_t)val), "parse of '%s': %llu (ret %d)", esc(t).c_str(), (unsigned long long)v, ret);
		}
		ev(want ? "integers accepted" : text_ok ? "integers refused by a bound" : "texts that are no integer");
		(void)tv;
		if (want) nontrivial(fnv(show(hmin, hmax, mn, mx, base) + t));
	}
	sample(current_desc());
	ec_node_free(n);
	lk.check("C02", "integer nodes");
}
