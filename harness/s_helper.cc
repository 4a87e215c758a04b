// C27: string, memory and hash helpers against independent definitions.
#include "checks.h"
#include <ecoli_murmurhash.h>

namespace {
// a string placed so that reading one byte past its terminator is seen by the address sanitizer
struct Tight {
	char *p;
	explicit Tight(const str &s) : p((char *)malloc(s.size() + 1)) { memcpy(p, s.c_str(), s.size() + 1); }
	~Tight() { free(p); }
	Tight(const Tight &) = delete;
};
str rnd(Rng &r, int max)
{
	static const char al[] = "ab \t\n\v\f\r\x80\xff\xa0%sAB01-";
	str s; int n = r.chance(1, 20) ? r.range(0, 4 * max) : r.range(0, max);
	for (int i = 0; i < n; i++) s += al[r.below(sizeof al - 1)];
	return s;
}
uint32_t ref_hash(const unsigned char *d, int len, uint32_t h)
{
	auto rot = [](uint32_t x, int n) { return (x << n) | (x >> (32 - n)); };
	int i = 0;
	for (; i + 4 <= len; i += 4) {
		uint32_t k = (uint32_t)d[i] | (uint32_t)d[i + 1] << 8 | (uint32_t)d[i + 2] << 16 | (uint32_t)d[i + 3] << 24;
		h ^= rot(k * 0xcc9e2d51u, 15) * 0x1b873593u;
		h = rot(h, 13) * 5 + 0xe6546b64u;
	}
	uint32_t k = 0;
	for (int j = len - 1; j >= i; j--) k = k << 8 | d[j];
	if (i < len) h ^= rot(k * 0xcc9e2d51u, 15) * 0x1b873593u;
	h ^= (uint32_t)len;
	h ^= h >> 16; h *= 0x85ebca6bu; h ^= h >> 13; h *= 0xc2b2ae35u; h ^= h >> 16;
	return h;
}
int call_vasprintf(char **o, const char *fmt, ...) { va_list ap; va_start(ap, fmt); int n = ec_vasprintf(o, fmt, ap); va_end(ap); return n; }
} // namespace

SCENARIO(helper, "prefix and blank tests, formatted strings, string and memory duplication and growth (also with exhausted memory), hashes of every length and alignment, each on tightly allocated random data against its definition; non-trivial = every case")
{
	(void)idx;
	LeakCheck lk;
	for (int k = 0; k < 8; k++) {
		// prefixes
		str a = rnd(r, 12), b = r.coin() ? rnd(r, 12) : a.substr(0, r.below(a.size() + 1)) + (r.coin() ? "" : rnd(r, 3));
		{
			Tight x(a), y(b);
			size_t n = 0; while (n < a.size() && n < b.size() && a[n] == b[n]) n++;
			describe("strings '%s' and '%s'", esc(a).c_str(), esc(b).c_str());
			EXPECT("C27", "common", ec_strcmp_count(x.p, y.p) == n, "common length %zu, definition %zu", ec_strcmp_count(x.p, y.p), n);
			EXPECT("C27", "startswith", !!ec_str_startswith(x.p, y.p) == (n == b.size()), "starts-with gives %d", ec_str_startswith(x.p, y.p));
			bool sp = true; for (char c : a) if (!strchr(" \t\n\v\f\r", c)) sp = false;
			EXPECT("C27", "is-space", ec_str_is_space(x.p) == sp, "only-blanks gives %d", (int)ec_str_is_space(x.p));
			nontrivial(fnv(a + "/" + b));
			// duplication
			bool fault = r.chance(1, 5);
			if (fault) fault_arm(1, false);
			char *d = (char *)ec_strdup(x.p);
			uint64_t hit = fault_disarm();
			EXPECT("C27", "strdup", hit ? d == NULL : d && a == d, "duplicate of '%s' is '%s'", esc(a).c_str(), d ? esc(d).c_str() : "NULL");
			if (d) d[a.size()] = 0;
			ec_free(d);
			size_t lim = r.chance(1, 8) ? SIZE_MAX : r.below(a.size() + 4);
			// at most lim bytes may be read
			char *cut = (char *)malloc(std::min(lim, a.size() + 1) + (lim == 0));
			memcpy(cut, a.c_str(), std::min(lim, a.size() + 1));
			if (fault) fault_arm(1, false);
			d = (char *)ec_strndup(cut, lim);
			hit = fault_disarm();
			EXPECT("C27", "strndup", hit ? d == NULL : d && a.substr(0, std::min(lim, a.size())) == d, "first %zu bytes of '%s' are '%s'", lim, esc(a).c_str(), d ? esc(d).c_str() : "NULL");
			ec_free(d); free(cut);
			ev("strings compared with their definition", 2);
		}
		// formatted strings
		{
			long num = (long)r.next(); int w = r.range(0, 30);
			char want[2000];
			snprintf(want, sizeof want, "%s|%*ld|%.3s|%c%%", a.c_str(), w, num, b.c_str(), 'z');
			char *o = (char *)0x1;
			bool fault = r.chance(1, 5);
			if (fault) fault_arm(1, false);
			int n = r.coin() ? ec_asprintf(&o, "%s|%*ld|%.3s|%c%%", a.c_str(), w, num, b.c_str(), 'z') : call_vasprintf(&o, "%s|%*ld|%.3s|%c%%", a.c_str(), w, num, b.c_str(), 'z');
			uint64_t hit = fault_disarm();
			describe("formatted string '%s'%s", esc(want).c_str(), hit ? " without memory" : "");
			if (hit) EXPECT("C27", "asprintf", n < 0 && o == NULL, "formatting without memory gave %d", n);
			else { EXPECT("C27", "asprintf", n == (int)strlen(want) && o && !strcmp(o, want), "formatted as '%s' (%d)", o ? esc(o).c_str() : "NULL", n); ec_free(o); }
			o = (char *)0x1;
			n = ec_asprintf(&o, "%s", "");
			EXPECT("C27", "asprintf", n == 0 && o && !*o, "an empty format gave %d", n);
			ec_free(o);
			ev("formatted strings");
		}
		// memory areas
		{
			size_t n = r.below(200), m = r.below(400);
			describe("area of %zu bytes resized to %zu", n, m);
			uint64_t live = alloc_stats().live;
			unsigned char *p = (unsigned char *)(r.coin() ? ec_malloc(n) : ec_malloc_func(n));
			LCHECK(p);
			for (size_t i = 0; i < n; i++) p[i] = (unsigned char)(i * 7 + k);
			bool fault = r.chance(1, 4) && m > 0;
			if (fault) fault_arm(1, false);
			unsigned char *q = m ? (unsigned char *)ec_realloc(p, m) : p;
			uint64_t hit = fault_disarm();
			if (hit) { EXPECT("C27", "realloc", q == NULL, "an area was resized without memory"); q = p; m = n; }
			LCHECK(q);
			for (size_t i = 0; i < std::min(n, m); i++) EXPECT("C27", "realloc", q[i] == (unsigned char)(i * 7 + k), "byte %zu of a resized area changed", i);
			if (m) memset(q, 1, m);
			if (r.coin()) ec_free(q); else ec_free_func(q);
			size_t cn = n, cs = 3;
			if (r.chance(1, 8)) { cn = 1 + r.below(300); cs = 1 + r.below(300); if (r.chance(1, 8)) cn *= 20; }
			describe("array of %zu elements of %zu bytes", cn, cs);
			unsigned char *z = (unsigned char *)ec_calloc(cn, cs);
			LCHECK(z || !cn);
			for (size_t i = 0; i < cn * cs; i++) EXPECT("C27", "calloc", z[i] == 0, "byte %zu of a fresh array is %d", i, z[i]);
			ec_free(z);
			// sizes whose product cannot be represented, by little or by far
			{
				unsigned a = 2 + (unsigned)r.below(60);
				size_t x = ((size_t)1 << a) + (r.coin() ? 0 : r.below((uint64_t)1 << (a > 20 ? 20 : a)));
				size_t y = SIZE_MAX / x + 1 + (r.coin() ? 0 : r.below(1000));
				if (r.chance(1, 6)) y = SIZE_MAX - r.below(3);
				if (r.coin()) std::swap(x, y);
				describe("array of %zu elements of %zu bytes", x, y);
				z = (unsigned char *)ec_calloc(x, y);
				EXPECT("C27", "calloc", z == NULL, "an array larger than the address space was given");
				ec_free(z);
			}
			ec_free(NULL); ec_free_func(NULL);
			EXPECT("C27", "memory", alloc_stats().live == live, "released areas are still held by the allocator");
			ev("areas resized");
		}
		// hashes
		{
			int len = r.chance(1, 4) ? r.range(0, 300) : r.range(0, 20);
			uint32_t seed = (uint32_t)r.next();
			int off = r.range(0, 3);
			unsigned char *d = (unsigned char *)malloc((size_t)(len + off) + (len + off == 0));
			for (int i = 0; i < len + off; i++) d[i] = (unsigned char)r.next();
			uint32_t want = ref_hash(d + off, len, seed), got = ec_murmurhash3(d + off, len, seed);
			describe("hash of %d bytes at offset %d", len, off);
			EXPECT("C27", "hash", got == want, "hash 0x%x, definition 0x%x", got, want);
			free(d);
			ev("hashes");
		}
	}
	sample(current_desc());
	for (auto pr : {"C27", "C02"}) lk.check(pr, "helpers");
}
