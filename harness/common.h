// Shared runtime of the monitors: PRNG, tracking/faulting allocator, verdicts,
// evidence counters, scenario registry.
#pragma once
#include <stdint.h>
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
#include <errno.h>
#include <stdarg.h>
#include <limits.h>
#include <string>
#include <vector>
#include <map>
#include <set>
#include <functional>
#include <algorithm>
#include <memory>

extern "C" {
#define operator operator_
#define typename typename_
#include <ecoli.h>
#include <ecoli_editline.h>
#include <ecoli_yaml.h>
#undef operator
#undef typename
}

typedef std::string str;
template <class T> using vec = std::vector<T>;

struct Rng {
	uint64_t s;
	explicit Rng(uint64_t seed = 1) : s(seed) {}
	uint64_t next() {
		uint64_t z = (s += 0x9e3779b97f4a7c15ULL);
		z = (z ^ (z >> 30)) * 0xbf58476d1ce4e5b9ULL;
		z = (z ^ (z >> 27)) * 0x94d049bb133111ebULL;
		return z ^ (z >> 31);
	}
	// uniform in [0, n)
	uint64_t below(uint64_t n) { return n ? next() % n : 0; }
	int range(int lo, int hi) { return lo + (int)below((uint64_t)(hi - lo + 1)); }
	bool chance(int num, int den) { return (int)below((uint64_t)den) < num; }
	bool coin() { return next() & 1; }
	template <class T> const T &pick(const vec<T> &v) { return v[below(v.size())]; }
};

uint64_t fnv(const void *p, size_t n, uint64_t h = 0xcbf29ce484222325ULL);
inline uint64_t fnv(const str &s) { return fnv(s.data(), s.size()); }

// ---- verdicts -------------------------------------------------------------
struct CaseAbort {};            // thrown to leave a case early
extern str g_prop;              // property being checked ("" = all)
extern bool g_verbose;
bool wants(const char *prop);   // is that property the one under check?
// Report a violation of `prop`. Ends the case (CaseAbort) when `prop` is the property under
// check; otherwise it is only logged and the remaining oracles still run.
void violate(const char *prop, const char *oracle, const char *fmt, ...)
	__attribute__((format(printf, 3, 4)));
// same, but usable from C callbacks: records, does not throw
void violate_soft(const char *prop, const char *oracle, const char *fmt, ...)
	__attribute__((format(printf, 3, 4)));
void check_soft();              // throws if a soft violation was recorded
// harness cannot continue this case (its own resource problem, budget): skip
[[noreturn]] void skip_case(const char *why);
// internal error of the harness itself: exit 2
[[noreturn]] void harness_bug(const char *fmt, ...) __attribute__((format(printf, 1, 2)));
#define EXPECT(prop, oracle, cond, ...) do { if (!(cond)) violate(prop, oracle, __VA_ARGS__); } while (0)
[[noreturn]] inline void end_case() { throw CaseAbort(); }
#define HCHECK(c) do { if (!(c)) harness_bug("%s:%d: %s", __FILE__, __LINE__, #c); } while (0)

// a call of the library the case depends on was refused although it is valid: whatever the property
// under check promises cannot hold there
#define LCHECK(c) do { if (!(c)) violate(g_prop.empty() ? "C01" : g_prop.c_str(), "setup", "valid request refused: %s (%s:%d)", #c, __FILE__, __LINE__); } while (0)

// While alive, verdicts of every property count as verdicts of the given ones (a workload that drives
// an oracle written for another property).
struct PropAs { PropAs(std::initializer_list<const char *> props); ~PropAs(); str save; };

// description of the current case (shown on crash); keep short
void describe(const char *fmt, ...) __attribute__((format(printf, 1, 2)));
void describe_append(const char *fmt, ...) __attribute__((format(printf, 1, 2)));
str current_desc();

// ---- evidence -------------------------------------------------------------
void ev(const char *event, uint64_t n = 1);      // count an observed event
void nontrivial(uint64_t sig);                   // this case is distinct/non-trivial
void sample(const str &s);                       // keep a few written-out cases
str esc(const str &s);                           // printable, single line

// ---- tracking allocator ---------------------------------------------------
struct AllocStats {
	uint64_t n_alloc, n_free, live, live_bytes;
};
void alloc_install();            // ec_malloc_register + ec_init
int alloc_register();            // ec_malloc_register only
void run_forked(const std::function<void()> &f);
AllocStats alloc_stats();
uint64_t alloc_mark();           // id of the next allocation
vec<str> alloc_live_since(uint64_t mark, size_t max = 8);  // descriptions
uint64_t alloc_live_count_since(uint64_t mark);
// fault injection
void fault_arm(int64_t nth, bool all_following);   // nth allocation from now fails
uint64_t fault_disarm();         // returns number of failures delivered
uint64_t fault_count();          // allocations seen since arm
// call context of each allocation seen while armed: a short and a longer piece of the call chain
struct FaultCtx { uint64_t near_, far_; };
extern vec<FaultCtx> *g_fault_ctx;   // recorded there when not NULL
// choose which of the recorded allocation points to fail: those in call contexts this process has failed
// least often come first
vec<uint64_t> fault_choose(Rng &r, const vec<FaultCtx> &c, size_t cap);
bool alloc_is_live(const void *p);
bool fault_is_armed();

// what the library sees of directories
struct DirFault { int open_err = 0; int read_fail_at = 0; bool no_type = false; int stat_fail_at = 0; str stat_name; uint64_t hit = 0; };
extern DirFault g_dirfault;

// leak oracle: on destruction-time call check()
struct LeakCheck {
	uint64_t mark;
	LeakCheck() : mark(alloc_mark()) {}
	void check(const char *prop, const char *what);
};

// scope guard for fault suspension
struct FaultPause {
	FaultPause(); ~FaultPause();
	bool was;
};

// ---- scenarios ------------------------------------------------------------
typedef void (*scen_fn)(Rng &r, uint64_t idx);
struct Scenario { const char *name; scen_fn fn; const char *rule; };
struct ScenReg { ScenReg(const char *name, scen_fn fn, const char *rule); };
#define SCENARIO(name, rule) \
	static void scen_##name(Rng &r, uint64_t idx); \
	static ScenReg reg_##name(#name, scen_##name, rule); \
	static void scen_##name(Rng &r, uint64_t idx)

bool thorough();
str scratch_dir();               // per-worker scratch directory
str slurp_stream(const std::function<void(FILE *)> &f);
