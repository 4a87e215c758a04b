// Worker: runs cases [from, from+count) of one scenario in this process.
#include "common.h"
#include <signal.h>
#include <sys/mman.h>
#include <sys/time.h>
#include <sys/wait.h>
#include <sys/stat.h>
#include <fcntl.h>
#include <unistd.h>
#include <unordered_set>
#include <regex.h>
#include <yaml.h>
#include <dirent.h>
#include <sys/stat.h>
#include <fcntl.h>
#include <histedit.h>
// coverage builds only (make SAN=--coverage HEXTRA=-DVMON_COV): counters are written although exit handlers are skipped
#ifdef VMON_COV
extern "C" void __gcov_dump(void);
static void leave(int rc) { __gcov_dump(); _exit(rc); }
#else
static void leave(int rc) { _exit(rc); }
#endif

str g_prop;
bool g_verbose;
static bool g_thorough;
static str g_scratch;
static const char *g_scen_name = "";
static uint64_t g_cur;

static vec<Scenario> &scens() { static vec<Scenario> v; return v; }
ScenReg::ScenReg(const char *name, scen_fn fn, const char *rule)
{
	scens().push_back(Scenario{name, fn, rule});
}

bool thorough() { return g_thorough; }
str scratch_dir() { return g_scratch; }

uint64_t fnv(const void *p, size_t n, uint64_t h)
{
	const unsigned char *c = (const unsigned char *)p;
	for (size_t i = 0; i < n; i++) { h ^= c[i]; h *= 0x100000001b3ULL; }
	h ^= h >> 29; h *= 0xff51afd7ed558ccdULL; h ^= h >> 32;
	return h;
}

str esc(const str &s)
{
	str o;
	char b[8];
	for (unsigned char c : s) {
		if (c == '\\') o += "\\\\";
		else if (c == '\n') o += "\\n";
		else if (c == '\t') o += "\\t";
		else if (c < 32 || c >= 127) { snprintf(b, sizeof b, "\\x%02x", c); o += b; }
		else o += (char)c;
	}
	return o;
}

str slurp_stream(const std::function<void(FILE *)> &f)
{
	char *buf = NULL; size_t n = 0;
	FILE *s = open_memstream(&buf, &n);
	HCHECK(s != NULL);
	f(s);
	fclose(s);
	str r(buf, n);
	free(buf);
	return r;
}

// ---- progress shared with the driver --------------------------------------
struct Progress { uint64_t magic, cur, done, state; char desc[16384 - 32]; };
static Progress g_prog_local, *g_prog = &g_prog_local;

void describe(const char *fmt, ...)
{
	va_list ap; va_start(ap, fmt);
	vsnprintf(g_prog->desc, sizeof g_prog->desc, fmt, ap);
	va_end(ap);
}
void describe_append(const char *fmt, ...)
{
	size_t l = strnlen(g_prog->desc, sizeof g_prog->desc);
	va_list ap; va_start(ap, fmt);
	if (l < sizeof g_prog->desc - 1)
		vsnprintf(g_prog->desc + l, sizeof g_prog->desc - l, fmt, ap);
	va_end(ap);
}
str current_desc() { return g_prog->desc; }

// ---- verdicts -------------------------------------------------------------
static str g_as;
bool wants(const char *prop) { return g_prop.empty() || g_prop == (g_as.empty() ? prop : g_as.c_str()); }
PropAs::PropAs(std::initializer_list<const char *> props) : save(g_as)
{
	g_as = *props.begin();
	for (auto p : props) if (g_prop == p) g_as = p;
}
PropAs::~PropAs() { g_as = save; }
static uint64_t g_nviol, g_nother;
static bool g_soft;
static void report(const char *prop, const char *oracle, const char *fmt, va_list ap)
{
	char *m = NULL;
	if (vasprintf(&m, fmt, ap) < 0) m = NULL;
	bool mine = wants(prop);
	if (!g_as.empty()) prop = g_as.c_str();
	if (mine) g_nviol++; else if (g_nother++ > 20) { free(m); return; }
	printf("%s\t%s\t%s\t%s\t%llu\t%s\t%s\n", mine ? "V" : "O", prop, oracle, g_scen_name,
		(unsigned long long)g_cur, esc(m ? m : "").c_str(), esc(g_prog->desc).c_str());
	fflush(stdout);
	free(m);
}
void violate(const char *prop, const char *oracle, const char *fmt, ...)
{
	va_list ap; va_start(ap, fmt);
	report(prop, oracle, fmt, ap);
	va_end(ap);
	if (wants(prop)) throw CaseAbort();
}
void violate_soft(const char *prop, const char *oracle, const char *fmt, ...)
{
	if (g_soft) return;
	g_soft = true;
	va_list ap; va_start(ap, fmt);
	report(prop, oracle, fmt, ap);
	va_end(ap);
}
void check_soft() { if (g_soft && g_nviol) throw CaseAbort(); }
static std::map<str, uint64_t> g_ev;
void ev(const char *e, uint64_t n) { g_ev[e] += n; }
void skip_case(const char *why) { ev((str("skipped:") + why).c_str()); throw CaseAbort(); }
void harness_bug(const char *fmt, ...)
{
	va_list ap; va_start(ap, fmt);
	fprintf(stderr, "HARNESS-BUG scenario=%s idx=%llu: ", g_scen_name, (unsigned long long)g_cur);
	vfprintf(stderr, fmt, ap);
	fprintf(stderr, "\n  case: %s\n", esc(g_prog->desc).c_str());
	va_end(ap);
	fflush(stdout);
	_exit(2);
}

static std::unordered_set<uint64_t> g_sigs;
static uint64_t g_judged;
void nontrivial(uint64_t sig) { g_sigs.insert(sig); g_judged++; }
static vec<str> g_samples;
static uint64_t g_sample_seen;
void sample(const str &s)
{
	g_sample_seen++;
	if (g_samples.size() < 3 || (g_samples.size() < 6 && (g_sample_seen & (g_sample_seen - 1)) == 0))
		g_samples.push_back(s.substr(0, 600));
}

// ---- allocator ------------------------------------------------------------
extern "C" void __asan_poison_memory_region(void const volatile *addr, size_t size) __attribute__((weak));
extern "C" void __asan_unpoison_memory_region(void const volatile *addr, size_t size) __attribute__((weak));
static const size_t HDR = 32;
struct Hdr { uint64_t magic; uint64_t id; size_t size; const char *file; };
enum { K_EC, K_LIBC, K_REGEX, K_FILE, K_DIR, K_YAML, K_EL, K_HIST };
struct Live { size_t size; uint64_t id; const char *file; unsigned line; int kind; };
// open-addressing table: pointer -> Live (no allocation churn inside callbacks)
struct LiveMap {
	struct E { uintptr_t k; Live v; };
	vec<E> t; size_t n = 0, used = 0;
	LiveMap() { t.resize(1 << 12); }
	size_t h(uintptr_t k) const { return (size_t)((k >> 4) * 0x9e3779b97f4a7c15ULL >> 20); }
	E *find(uintptr_t k) {
		size_t m = t.size() - 1;
		for (size_t i = h(k) & m;; i = (i + 1) & m) {
			if (t[i].k == k) return &t[i];
			if (t[i].k == 0) return NULL;
		}
	}
	void put(uintptr_t k, const Live &v) {
		if ((used + 1) * 2 > t.size()) rehash();
		size_t m = t.size() - 1;
		for (size_t i = h(k) & m;; i = (i + 1) & m) {
			if (t[i].k == 0 || t[i].k == 1) {
				if (t[i].k == 0) used++;
				t[i].k = k; t[i].v = v; n++;
				return;
			}
		}
	}
	void del(E *e) { e->k = 1; n--; }
	void rehash() {
		vec<E> o; o.swap(t);
		size_t sz = 1 << 12;
		while (sz < n * 4) sz *= 2;
		t.resize(sz); n = used = 0;
		for (auto &e : o) if (e.k > 1) put(e.k, e.v);
	}
};
static LiveMap &live() { static LiveMap *m = new LiveMap; return *m; }
static uint64_t g_next_id = 1, g_nalloc, g_nfree, g_livebytes;
static bool g_armed, g_all; static int64_t g_fail_at; static uint64_t g_seen, g_failed;
static const uint64_t RUNAWAY = 3ULL << 30;

vec<FaultCtx> *g_fault_ctx;
extern "C" char __executable_start[], etext[];
__attribute__((noinline)) static FaultCtx call_context()
{
	uint64_t h = 0x1234, near_ = 0; int n = 0;
	uintptr_t *fp = (uintptr_t *)__builtin_frame_address(0);
	while (n < 14) {
		uintptr_t *next = (uintptr_t *)fp[0], ret = fp[1];
		if (ret < (uintptr_t)__executable_start || ret > (uintptr_t)etext) break;
		ret -= (uintptr_t)__executable_start;
		h = fnv(&ret, sizeof ret, h);
		if (++n == 8) near_ = h;
		if (next <= fp || (char *)next - (char *)fp > 65536) break;
		fp = next;
	}
	if (n < 8) near_ = h;
	return FaultCtx{near_, h};
}
vec<uint64_t> fault_choose(Rng &r, const vec<FaultCtx> &c, size_t cap)
{
	static std::unordered_map<uint64_t, uint32_t> cn, cf;
	vec<uint64_t> ord, out;
	for (size_t i = 0; i < c.size(); i++) ord.push_back(i);
	for (size_t i = ord.size(); i > 1; i--) std::swap(ord[i - 1], ord[r.below(i)]);
	std::set<uint64_t> done;
	auto take = [&](uint64_t i) { if (!done.insert(i).second) return; cn[c[i].near_]++; cf[c[i].far_]++; out.push_back(i + 1); nontrivial(c[i].near_); };
	for (uint64_t i : ord) if (out.size() < cap && !cn.count(c[i].near_)) { take(i); ev("failures in a call chain not failed before in this process"); }
	size_t far = cap / 4, extra = cap / 12 + 1;
	for (uint64_t i : ord) if (out.size() < cap && far && !cf.count(c[i].far_)) { take(i); far--; }
	for (uint64_t i : ord) if (out.size() < cap && extra) { if (!done.count(i)) { take(i); extra--; } }
	return out;
}
static bool should_fail()
{
	if (!g_armed) return false;
	g_seen++;
	if (g_fault_ctx) g_fault_ctx->push_back(call_context());
	if ((int64_t)g_seen == g_fail_at || (g_all && (int64_t)g_seen > g_fail_at)) {
		g_failed++;
		return true;
	}
	return false;
}
static void runaway()
{
	printf("R\t%s\t%s\t%s\t%llu\tmemory use without bound (more than %llu bytes live)\t%s\n", g_prop.c_str(), "runaway-memory",
		g_scen_name, (unsigned long long)g_cur, (unsigned long long)RUNAWAY, esc(g_prog->desc).c_str());
	fflush(stdout);
	_exit(4);
}
static void *raw_alloc(size_t size, const char *file, unsigned line)
{
	char *p = (char *)malloc(size + HDR);
	if (p == NULL) { errno = ENOMEM; return NULL; }
	// fill fresh memory so that uninitialised use is deterministic and visible
	memset(p + HDR, 0xa5, size);
	Hdr *hd = (Hdr *)p;
	hd->magic = 0x5afe5afe5afe5afeULL; hd->id = g_next_id; hd->size = size; hd->file = file;
	if (__asan_poison_memory_region) __asan_poison_memory_region(p, HDR);
	live().put((uintptr_t)(p + HDR), Live{size, g_next_id++, file, line, K_EC});
	g_nalloc++; g_livebytes += size;
	if (g_livebytes > RUNAWAY) runaway();
	return p + HDR;
}
static void *h_malloc(size_t size, const char *file, unsigned line)
{
	if (should_fail()) { errno = ENOMEM; return NULL; }
	return raw_alloc(size, file, line);
}
static void bad_free(const char *what, const void *p, const char *file, unsigned line)
{
	const char *b = file ? strrchr(file, '/') : NULL;
	printf("F\t%s\t%s\t%s\t%llu\t%s of a pointer that is not a live allocation of the registered allocator, at %s:%u\t%s\n",
		g_prop.c_str(), "foreign-or-double-free", g_scen_name, (unsigned long long)g_cur, what,
		b ? b + 1 : (file ? file : "?"), line, esc(g_prog->desc).c_str());
	(void)p;
	fflush(stdout);
	abort();
}
static void h_free(void *ptr, const char *file, unsigned line)
{
	if (ptr == NULL) return;
	auto *e = live().find((uintptr_t)ptr);
	if (e == NULL || e->v.kind != K_EC) bad_free("release", ptr, file, line);
	char *p = (char *)ptr - HDR;
	if (__asan_unpoison_memory_region) __asan_unpoison_memory_region(p, HDR);
	g_nfree++; g_livebytes -= e->v.size;
	live().del(e);
	free(p);
}
static void *h_realloc(void *ptr, size_t size, const char *file, unsigned line)
{
	if (ptr == NULL) return h_malloc(size, file, line);
	auto *e = live().find((uintptr_t)ptr);
	if (e == NULL || e->v.kind != K_EC) bad_free("resize", ptr, file, line);
	if (should_fail()) { errno = ENOMEM; return NULL; }
	size_t old = e->v.size;
	void *n = raw_alloc(size, file, line);
	if (n == NULL) return NULL;
	memcpy(n, ptr, old < size ? old : size);
	h_free(ptr, file, line);
	return n;
}

// ---- libc resources the library takes directly ------------------------------
// The library's objects are linked with these symbols renamed (see Makefile), so that only calls
// made by the library itself come here.
static void track(const void *p, size_t size, int kind, const char *what)
{
	live().put((uintptr_t)p, Live{size, g_next_id++, what, 0, kind});
}
static bool untrack(const void *p, int kind)
{
	auto *e = live().find((uintptr_t)p);
	if (e == NULL || e->v.kind != kind) return false;
	live().del(e);
	return true;
}
DirFault g_dirfault;
extern "C" {
void *mon_malloc(size_t n)
{
	if (should_fail()) { errno = ENOMEM; return NULL; }
	void *p = malloc(n);
	if (p) { memset(p, 0xa5, n); track(p, n, K_LIBC, "libc malloc"); }
	return p;
}
void *mon_calloc(size_t a, size_t b)
{
	if (should_fail()) { errno = ENOMEM; return NULL; }
	void *p = calloc(a, b);
	if (p) track(p, a * b, K_LIBC, "libc calloc");
	return p;
}
void mon_free(void *p)
{
	if (p == NULL) return;
	auto *e = live().find((uintptr_t)p);
	if (e && e->v.kind == K_EC) bad_free("libc free()", p, "library", 0);
	if (e && e->v.kind == K_LIBC) live().del(e);
	free(p);
}
void *mon_realloc(void *q, size_t n)
{
	auto *e = q ? live().find((uintptr_t)q) : NULL;
	if (e && e->v.kind == K_EC) bad_free("libc realloc()", q, "library", 0);
	if (should_fail()) { errno = ENOMEM; return NULL; }
	if (e) live().del(e);
	void *p = realloc(q, n);
	if (p) track(p, n, K_LIBC, "libc realloc");
	return p;
}
char *mon_strdup(const char *s)
{
	if (should_fail()) { errno = ENOMEM; return NULL; }
	char *p = strdup(s);
	if (p) track(p, strlen(p) + 1, K_LIBC, "libc strdup");
	return p;
}
char *mon_strndup(const char *s, size_t n)
{
	if (should_fail()) { errno = ENOMEM; return NULL; }
	char *p = strndup(s, n);
	if (p) track(p, strlen(p) + 1, K_LIBC, "libc strndup");
	return p;
}
int mon_vasprintf(char **out, const char *fmt, va_list ap)
{
	if (should_fail()) { errno = ENOMEM; *out = (char *)(uintptr_t)0x5a5a5a5a5a5a; return -1; }
	int r = vasprintf(out, fmt, ap);
	if (r >= 0) track(*out, (size_t)r + 1, K_LIBC, "libc vasprintf");
	return r;
}
int mon_asprintf(char **out, const char *fmt, ...)
{
	va_list ap; va_start(ap, fmt);
	int r = mon_vasprintf(out, fmt, ap);
	va_end(ap);
	return r;
}
int mon_regcomp(regex_t *re, const char *s, int fl)
{
	if (should_fail()) return REG_ESPACE;
	int r = regcomp(re, s, fl);
	if (r == 0) track(re->buffer, sizeof *re, K_REGEX, "regcomp");
	return r;
}
void mon_regfree(regex_t *re)
{
	if (!untrack(re->buffer, K_REGEX)) bad_free("regfree()", re, "library", 0);
	regfree(re);
}
FILE *mon_fopen(const char *p, const char *m)
{
	FILE *f = fopen(p, m);
	if (f) track(f, 0, K_FILE, "fopen");
	return f;
}
FILE *mon_open_memstream(char **b, size_t *n)
{
	if (should_fail()) { errno = ENOMEM; return NULL; }
	FILE *f = open_memstream(b, n);
	if (f) track(f, 0, K_FILE, "open_memstream");
	return f;
}
int mon_fclose(FILE *f)
{
	if (!untrack(f, K_FILE)) bad_free("fclose()", f, "library", 0);
	return fclose(f);
}
struct dirent *mon_readdir(DIR *d)
{
	if (g_dirfault.read_fail_at && --g_dirfault.read_fail_at == 0) { errno = EIO; g_dirfault.hit++; return NULL; }
	struct dirent *e = readdir(d);
	static union { struct dirent d; char raw[sizeof(struct dirent) + 512]; } copy;
	if (!e || !g_dirfault.no_type) return e;
	memcpy(&copy, e, e->d_reclen < sizeof copy ? e->d_reclen : sizeof copy);
	copy.d.d_type = DT_UNKNOWN;
	return &copy.d;
}
int mon_fstatat(int fd, const char *name, struct stat *st, int flags)
{
	if (g_dirfault.stat_fail_at && --g_dirfault.stat_fail_at == 0) { g_dirfault.stat_name = name; errno = ENOENT; memset(st, 0x41, sizeof *st); return -1; }
	return fstatat(fd, name, st, flags);
}
DIR *mon_opendir(const char *p)
{
	if (g_dirfault.open_err) { errno = g_dirfault.open_err; g_dirfault.hit++; return NULL; }
	DIR *d = opendir(p);
	if (d) track(d, 0, K_DIR, "opendir");
	return d;
}
int mon_closedir(DIR *d)
{
	if (!untrack(d, K_DIR)) bad_free("closedir()", d, "library", 0);
	return closedir(d);
}
}
// libyaml objects the library owns; keyed by address + 1 so that they never clash with memory blocks
extern "C" {
int mon_yaml_parser_initialize(yaml_parser_t *p)
{
	if (should_fail()) { errno = ENOMEM; return 0; }
	int r = yaml_parser_initialize(p);
	if (r) track((char *)p + 1, 0, K_YAML, "yaml parser");
	return r;
}
void mon_yaml_parser_delete(yaml_parser_t *p)
{
	if (!untrack((char *)p + 1, K_YAML)) bad_free("yaml_parser_delete()", p, "library", 0);
	yaml_parser_delete(p);
}
int mon_yaml_parser_load(yaml_parser_t *p, yaml_document_t *d)
{
	if (should_fail()) { errno = ENOMEM; memset(d, 0x5a, sizeof *d); return 0; }
	int r = yaml_parser_load(p, d);
	if (r) track((char *)d + 1, 0, K_YAML, "yaml document");
	return r;
}
void mon_yaml_document_delete(yaml_document_t *d)
{
	if (!untrack((char *)d + 1, K_YAML)) bad_free("yaml_document_delete()", d, "library", 0);
	yaml_document_delete(d);
}
}
// libedit objects the library owns
extern "C" {
EditLine *mon_el_init(const char *n, FILE *i, FILE *o, FILE *e)
{
	if (should_fail()) { errno = ENOMEM; return NULL; }
	EditLine *el = el_init(n, i, o, e);
	if (el) track(el, 0, K_EL, "el_init");
	return el;
}
void mon_el_end(EditLine *el)
{
	if (!untrack(el, K_EL)) bad_free("el_end()", el, "library", 0);
	el_end(el);
}
History *mon_history_init(void)
{
	if (should_fail()) { errno = ENOMEM; return NULL; }
	History *h = history_init();
	if (h) track(h, 0, K_HIST, "history_init");
	return h;
}
void mon_history_end(History *h)
{
	if (!untrack(h, K_HIST)) bad_free("history_end()", h, "library", 0);
	history_end(h);
}
// every request takes at most one further word-sized argument
int mon_history(History *h, HistEvent *evp, int op, void *arg)
{
	auto *e = live().find((uintptr_t)h);
	if (e == NULL || e->v.kind != K_HIST) bad_free("history() use", h, "library", 0);
	return history(h, evp, op, arg);
}
}
bool alloc_is_live(const void *p) { return live().find((uintptr_t)p) != NULL; }
AllocStats alloc_stats() { return AllocStats{g_nalloc, g_nfree, live().n, g_livebytes}; }
uint64_t alloc_mark() { return g_next_id; }
uint64_t alloc_live_count_since(uint64_t mark)
{
	uint64_t n = 0;
	for (auto &e : live().t) if (e.k > 1 && e.v.id >= mark) n++;
	return n;
}
vec<str> alloc_live_since(uint64_t mark, size_t max)
{
	vec<str> r;
	for (auto &e : live().t) {
		if (e.k <= 1 || e.v.id < mark) continue;
		if (r.size() >= max) break;
		const char *b = e.v.file ? strrchr(e.v.file, '/') : NULL;
		char t[256];
		if (e.v.kind != K_EC) snprintf(t, sizeof t, "resource from %s (%zu bytes)", e.v.file, e.v.size);
		else snprintf(t, sizeof t, "%zu bytes from %s:%u", e.v.size, b ? b + 1 : "?", e.v.line);
		r.push_back(t);
	}
	std::sort(r.begin(), r.end());
	return r;
}
void fault_arm(int64_t nth, bool all) { g_armed = true; g_all = all; g_fail_at = nth; g_seen = g_failed = 0; }
uint64_t fault_disarm() { uint64_t f = g_armed ? g_failed : 0; g_armed = false; return f; }
uint64_t fault_count() { return g_seen; }
bool fault_is_armed() { return g_armed; }
FaultPause::FaultPause() : was(g_armed) { g_armed = false; }
FaultPause::~FaultPause() { g_armed = was; }

void LeakCheck::check(const char *prop, const char *what)
{
	// cheap test first: ids are monotonic, so scan only when something is live
	uint64_t n = alloc_live_count_since(mark);
	if (n == 0) return;
	str d;
	for (auto &s : alloc_live_since(mark)) d += (d.empty() ? "" : "; ") + s;
	violate(prop, "leak", "%s: %llu allocation(s) never released: %s", what, (unsigned long long)n, d.c_str());
}

static int null_log(int type, enum ec_log_level level, void *opaque, const char *s)
{
	(void)type; (void)level; (void)opaque; (void)s;
	return 0;
}
int alloc_register() { return ec_malloc_register(h_malloc, h_free, h_realloc); }
void alloc_install()
{
	if (alloc_register() < 0) harness_bug("cannot register allocator");
	ec_log_fct_register(null_log, NULL);
	if (ec_init() < 0) harness_bug("ec_init failed");
}

// ---- hang watchdog (CPU time of this process, per case) --------------------
static void on_prof(int)
{
	char b[512];
	int n = snprintf(b, sizeof b, "H\t%s\thang\t%s\t%llu\tcase exceeded its CPU budget\t-\n",
		g_prop.c_str(), g_scen_name, (unsigned long long)g_cur);
	ssize_t w = write(1, b, (size_t)n); (void)w;
	_exit(5);
}
// waiting for something that never comes (input, a lock): cases take milliseconds
static void on_alarm(int)
{
	char b[512];
	int n = snprintf(b, sizeof b, "H\t%s\tblocked\t%s\t%llu\tcase did not return for 60 s, without using its CPU budget\t-\n",
		g_prop.c_str(), g_scen_name, (unsigned long long)g_cur);
	ssize_t w = write(1, b, (size_t)n); (void)w;
	_exit(5);
}
static void arm_cpu(int sec)
{
	alarm(sec ? 60 : 0);
	struct itimerval it; memset(&it, 0, sizeof it);
	it.it_value.tv_sec = sec;
	setitimer(ITIMER_PROF, &it, NULL);
}

// Run one case in a child process: for state of the library that lasts as long as the process.
static int g_cpu = 30;
void run_forked(const std::function<void()> &f)
{
	int p[2];
	HCHECK(pipe(p) == 0);
	fflush(stdout); fflush(stderr);
	pid_t pid = fork();
	HCHECK(pid >= 0);
	if (pid == 0) {
		close(p[0]);
		g_ev.clear(); g_sigs.clear(); g_nviol = 0;
		uint64_t na = g_nalloc;
		arm_cpu(g_cpu);
		try { f(); } catch (CaseAbort &) {}
		fault_disarm();
		FILE *o = fdopen(p[1], "w");
		for (auto &e : g_ev) fprintf(o, "E\t%s\t%llu\n", e.first.c_str(), (unsigned long long)e.second);
		for (uint64_t s : g_sigs) fprintf(o, "G\t\t%llu\n", (unsigned long long)s);
		fprintf(o, "A\t\t%llu\n", (unsigned long long)(g_nalloc - na));
		fclose(o);
		fflush(stdout); fflush(stderr);
		leave(g_nviol ? 1 : 0);
	}
	close(p[1]);
	FILE *in = fdopen(p[0], "r");
	char line[512];
	while (fgets(line, sizeof line, in)) {
		char *t1 = strchr(line, '\t'), *t2 = t1 ? strchr(t1 + 1, '\t') : NULL;
		if (!t2) continue;
		uint64_t v = strtoull(t2 + 1, NULL, 10);
		if (line[0] == 'E') ev(str(t1 + 1, (size_t)(t2 - t1 - 1)).c_str(), v);
		else if (line[0] == 'G') nontrivial(v);
		else if (line[0] == 'A') g_nalloc += v;
	}
	fclose(in);
	int st = 0;
	while (waitpid(pid, &st, 0) < 0 && errno == EINTR) {}
	if (WIFSIGNALED(st)) {
		if (WTERMSIG(st) == SIGABRT) abort();
		signal(WTERMSIG(st), SIG_DFL); raise(WTERMSIG(st));
		_exit(77);
	}
	if (WEXITSTATUS(st) == 1) { g_nviol++; throw CaseAbort(); }
	if (WEXITSTATUS(st) != 0) _exit(WEXITSTATUS(st));
}

int main(int argc, char **argv)
{
	str scen, progress, sigs;
	uint64_t seed = 1, from = 0, count = 1; int cpu = 30;
	for (int i = 1; i < argc; i++) {
		str a = argv[i];
		auto val = [&]() -> const char * { if (i + 1 >= argc) { fprintf(stderr, "missing value\n"); exit(2); } return argv[++i]; };
		if (a == "--scenario") scen = val();
		else if (a == "--prop") g_prop = val();
		else if (a == "--seed") seed = strtoull(val(), NULL, 0);
		else if (a == "--from") from = strtoull(val(), NULL, 0);
		else if (a == "--count") count = strtoull(val(), NULL, 0);
		else if (a == "--progress") progress = val();
		else if (a == "--sigs") sigs = val();
		else if (a == "--scratch") g_scratch = val();
		else if (a == "--cpu") cpu = atoi(val());
		else if (a == "--thorough") g_thorough = true;
		else if (a == "-v") g_verbose = true;
		else if (a == "--list") { for (auto &s : scens()) printf("%s\t%s\n", s.name, s.rule); return 0; }
		else { fprintf(stderr, "unknown option %s\n", a.c_str()); return 2; }
	}
	if (g_scratch.empty()) g_scratch = "/tmp/vmon." + std::to_string(getpid());
	mkdir(g_scratch.c_str(), 0700);
	if (!progress.empty()) {
		int fd = open(progress.c_str(), O_RDWR | O_CREAT, 0600);
		if (fd < 0 || ftruncate(fd, sizeof(Progress)) < 0) { perror("progress"); return 2; }
		void *m = mmap(NULL, sizeof(Progress), PROT_READ | PROT_WRITE, MAP_SHARED, fd, 0);
		if (m == MAP_FAILED) { perror("mmap"); return 2; }
		g_prog = (Progress *)m;
		close(fd);
	}
	const Scenario *sc = NULL;
	for (auto &s : scens()) if (scen == s.name) sc = &s;
	if (sc == NULL) { fprintf(stderr, "unknown scenario %s\n", scen.c_str()); return 2; }
	g_scen_name = sc->name;
	g_prog->magic = 0x56504d4f4eULL;
	signal(SIGPROF, on_prof);
	signal(SIGALRM, on_alarm);
	signal(SIGPIPE, SIG_IGN);
	g_cpu = cpu;
	if (scen != "init" && scen != "start") alloc_install();   // that one starts the library itself, in child processes
	uint64_t ran = 0;
	for (uint64_t i = from; i < from + count; i++) {
		g_cur = i; g_soft = false; g_as.clear();
		g_prog->desc[0] = 0;
		g_prog->cur = i;
		arm_cpu(cpu);
		uint64_t h = fnv(sc->name, strlen(sc->name));
		Rng r(h ^ (seed * 0x9e3779b97f4a7c15ULL) ^ (i * 0xd1342543de82ef95ULL));
		r.next();
		uint64_t j0 = g_judged;
		try { sc->fn(r, i); } catch (CaseAbort &) {}
		fault_disarm();
		if (g_judged == j0) g_judged++;
		ran++;
		g_prog->done = ran;
		if (g_nviol) break;   // a violating process is not trusted further
	}
	arm_cpu(0);
	if (!sigs.empty()) {
		FILE *f = fopen(sigs.c_str(), "wb");
		if (f) { for (uint64_t s : g_sigs) fwrite(&s, 8, 1, f); fclose(f); }
	}
	printf("S\tran\t%llu\n", (unsigned long long)ran);
	printf("S\tjudged\t%llu\n", (unsigned long long)g_judged);
	for (auto &e : g_ev) printf("E\t%s\t%llu\n", esc(e.first).c_str(), (unsigned long long)e.second);
	printf("E\tlibrary allocations monitored\t%llu\n", (unsigned long long)g_nalloc);
	for (auto &s : g_samples) printf("X\t%s\n", esc(s).c_str());
	printf("D\tdone\t%llu\n", (unsigned long long)g_nviol);
	fflush(stdout);
	leave(g_nviol ? 1 : 0);
}
