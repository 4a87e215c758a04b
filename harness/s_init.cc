// C24: start-up/shut-down order, logging, registration. Every case runs in a child process because the
// registrations last as long as the process.
#include "common.h"

namespace {

// ---- traced start-up functions ----------------------------------------------
enum { NF = 16 };
struct Mod {
	struct ec_init rec;
	bool has_init, has_exit, registered;
	int fail_at;           // init call number that fails (0 = never)
	int calls;
	bool probe;            // uses the library from its callbacks
};
Mod g_mod[NF];
struct Call { bool exit; int id; };
vec<Call> g_calls;
void smoke(const char *when);

int do_init(int id)
{
	Mod &m = g_mod[id];
	g_calls.push_back(Call{false, id});
	m.calls++;
	if (m.fail_at == m.calls) { errno = EPERM; return m.calls % 3 == 0 ? -1 : -2 - m.calls % 7; }
	if (m.probe && m.rec.priority > 75) smoke("in a start-up function of a later priority");
	return 0;
}
void do_exit(int id)
{
	Mod &m = g_mod[id];
	g_calls.push_back(Call{true, id});
	(void)m;
}
template <int N> int t_init() { return do_init(N); }
template <int N> void t_exit() { do_exit(N); }
template <int N> struct Fill { static void go() { g_mod[N - 1].rec.init = t_init<N - 1>; g_mod[N - 1].rec.exit = t_exit<N - 1>; Fill<N - 1>::go(); } };
template <> struct Fill<0> { static void go() {} };

// the parts of the library that need its start-up: command expressions, conditions, dictionaries
bool try_smoke(str &why)
{
	bool ok = false;
	struct ec_node *n = NULL;
	struct ec_pnode *p = NULL;
	do {
		n = EC_NODE_CMD("c", "a|b [c]");
		if (!n) { why = "command node not built"; break; }
		p = ec_parse(n, "x");
		if (!p || ec_pnode_matches(p)) { why = "command node matched a wrong word"; break; }
		ec_pnode_free(p); p = NULL;
		const struct ec_strvec *v; (void)v;
		struct ec_node *cmd = n;
		n = ec_node_sh_lex("l", cmd);
		if (!n) { why = "sh_lex not built"; break; }
		p = ec_parse(n, "b c");
		if (!p || !ec_pnode_matches(p) || ec_pnode_len(p) != 1) { why = "command node refused its line"; break; }
		ec_pnode_free(p); p = NULL;
		ec_node_free(n);
		n = ec_node_cond("d", "cmp(eq, count(find(root(), z)), count(find(root(), d)))", ec_node_any("z", NULL));
		if (!n) { why = "condition node not built"; break; }
		p = ec_parse(n, "q");
		if (!p) { why = "condition failed"; break; }
		ec_pnode_free(p); p = NULL;
		ec_node_free(n); n = NULL;
		// each operator of command expressions, each condition function
		static const struct { const char *e, *yes, *no; } cmds[] = {
			{"a|b", "b", "a b"}, {"a,b", "b a", "c"}, {"a [b]", "a", "b"}, {"a+ b", "a a b", "b"}, {"a* b", "b", "c"}, {"(a|b) c", "b c", "c"}, {"a b", "a b", "a c"},
		};
		bool bad = false;
		for (auto &c : cmds) {
			n = ec_node_sh_lex("l", EC_NODE_CMD("c", c.e));
			for (int k = 0; n && k < 2 && !bad; k++) {
				p = ec_parse(n, k ? c.no : c.yes);
				if (!p || !!ec_pnode_matches(p) != !k) { why = str("command '") + c.e + "' misjudged '" + (k ? c.no : c.yes) + "'"; bad = true; }
				ec_pnode_free(p); p = NULL;
			}
			if (!n) { why = str("command '") + c.e + "' not built"; bad = true; }
			ec_node_free(n); n = NULL;
			if (bad) break;
		}
		if (bad) break;
		static const struct { const char *e; int m; } conds[] = {
			{"root()", 1}, {"current()", 1}, {"bool(root())", 1}, {"bool(find(root(), y))", 0}, {"find(root(), d)", 1}, {"find(root(), y)", 0}, {"first_child(root())", 1}, {"find(first_child(root()), z)", 1}, {"first_child(first_child(root()))", 0}, {"or(find(root(), y), root())", 1}, {"or(find(root(), y), 0)", 0}, {"and(root(), current())", 1}, {"and(root(), find(root(), y))", 0}, {"count(root())", 1}, {"cmp(eq, root(), current())", 1}, {"cmp(ge, count(find(root(), d)), 1)", 1}, {"cmp(lt, count(find(root(), d)), 1)", 0},
		};
		for (auto &c : conds) {
			n = ec_node_cond("d", c.e, ec_node_any("z", NULL));
			if (!n) { why = str("condition '") + c.e + "' not built"; bad = true; break; }
			p = ec_parse(n, "q");
			if (!p || (!!ec_pnode_matches(p) != !!c.m)) { why = str("condition '") + c.e + "' is " + (!p ? "an error" : c.m ? "false" : "true"); bad = true; }
			ec_pnode_free(p); p = NULL;
			ec_node_free(n); n = NULL;
			if (bad) break;
		}
		ok = !bad;
	} while (0);
	ec_pnode_free(p);
	ec_node_free(n);
	return ok;
}
void smoke(const char *when)
{
	if (fault_is_armed()) return;
	str why;
	if (!try_smoke(why)) violate_soft("C24", "not-usable", "%s: %s", when, why.c_str());
	ev("library used from start-up functions or between start and stop");
}

// ---- log --------------------------------------------------------------------
struct Got { int sink; int type; int level; void *opaque; str text; };
vec<Got> g_got;
int g_sink_ret;
int sink(int which, int type, enum ec_log_level l, void *o, const char *s)
{
	g_got.push_back(Got{which, type, (int)l, o, s});
	return g_sink_ret;
}
int sink0(int t, enum ec_log_level l, void *o, const char *s) { return sink(0, t, l, o, s); }
int sink1(int t, enum ec_log_level l, void *o, const char *s) { return sink(1, t, l, o, s); }

int call_vlog(int type, enum ec_log_level level, const char *fmt, ...)
{
	va_list ap; va_start(ap, fmt);
	int r = ec_vlog(type, level, fmt, ap);
	va_end(ap);
	return r;
}

// ---- second allocator ---------------------------------------------------------
uint64_t g_b_calls;
void *b_malloc(size_t n, const char *, unsigned) { g_b_calls++; return malloc(n); }
void b_free(void *p, const char *, unsigned) { g_b_calls++; free(p); }
void *b_realloc(void *p, size_t n, const char *, unsigned) { g_b_calls++; return realloc(p, n); }

struct Machine {
	Rng &r;
	str log;
	explicit Machine(Rng &rr) : r(rr) {}
	bool started = false, ever_started = false;
	int alloc = 0;             // 0 libc, 1 tracking, 2 b_*
	int cur_sink = -1; void *opaque = NULL;
	int level = EC_LOG_WARNING;
	std::map<str, int> types; // known log types
	std::set<int> used;
	uint64_t sig = 0;
	bool overridden = false;
	uint64_t cycle_mark = 0; bool typed = false;

	void note(const char *fmt, ...) __attribute__((format(printf, 2, 3)))
	{
		char b[400]; va_list ap; va_start(ap, fmt); vsnprintf(b, sizeof b, fmt, ap); va_end(ap);
		log += log.empty() ? "" : "; "; log += b;
		if (log.size() > 6000) log.erase(0, log.size() - 6000);
		describe("%s", log.c_str());
		sig = fnv(b, strlen(b), sig ^ 0x1234567);
	}

	// ---- start/stop
	void reg_mod()
	{
		int id = -1;
		for (int i = 0; i < NF; i++) if (!g_mod[i].registered) { id = i; break; }
		if (id < 0) return;
		Mod &m = g_mod[id];
		static const unsigned prios[] = {0, 0, 1, 39, 40, 41, 49, 50, 51, 74, 75, 76, 76, 98, 99, 99, 99, 100, 120, 0x7fffffffu, 0x80000000u, 0xffffffffu};
		m.rec.priority = r.chance(1, 3) ? (unsigned)r.below(100) : prios[r.below(sizeof prios / sizeof *prios)];
		m.has_init = r.chance(7, 8); m.has_exit = r.chance(7, 8);
		if (!m.has_init) m.rec.init = NULL;
		if (!m.has_exit) m.rec.exit = NULL;
		m.fail_at = m.has_init && r.chance(1, 5) ? r.range(1, 3) : 0;
		m.probe = !overridden && r.chance(1, 3);
		m.registered = true;
		note("register m%d prio=%u%s%s fail@%d", id, m.rec.priority, m.has_init ? " init" : "", m.has_exit ? " exit" : "", m.fail_at);
		ec_init_register(&m.rec);
		ev("start-up functions registered");
	}
	void start()
	{
		g_calls.clear();
		cycle_mark = alloc_mark(); typed = false;
		bool fault = r.chance(1, 4);
		int nth = fault ? (r.chance(1, 3) ? r.range(1, 20) : r.range(1, 2500)) : 0;
		bool all = r.coin();
		if (fault) note("start with allocation %d%s failing", nth, all ? "+" : "");
		else note("start");
		if (fault) fault_arm(nth, all);
		errno = 0;
		int ret = ec_init();
		uint64_t hit = fault ? fault_disarm() : 0;
		check_soft();
		// order, once, first failing one is the last called
		std::set<int> seen;
		unsigned last = 0;
		bool failed = false;
		for (size_t i = 0; i < g_calls.size(); i++) {
			Call &c = g_calls[i];
			EXPECT("C24", "order", !c.exit, "a shut-down function ran during start");
			EXPECT("C24", "once", seen.insert(c.id).second, "start-up function m%d ran twice in one start", c.id);
			EXPECT("C24", "order", g_mod[c.id].rec.priority >= last, "start-up function m%d (priority %u) ran after priority %u",
				c.id, g_mod[c.id].rec.priority, last);
			last = g_mod[c.id].rec.priority;
			EXPECT("C24", "stop-at-failure", !failed, "start-up function m%d ran after a failed one", c.id);
			if (g_mod[c.id].fail_at == g_mod[c.id].calls) failed = true;
		}
		if (failed) EXPECT("C24", "failure-reported", ret == -1, "a start-up function failed but ec_init() returned %d", ret);
		else if (!hit) EXPECT("C24", "start", ret == 0, "ec_init() returned %d although nothing failed", ret);
		EXPECT("C24", "start", ret == 0 || ret == -1, "ec_init() returned %d", ret);
		if (ret == 0) {
			for (int i = 0; i < NF; i++)
				if (g_mod[i].registered && g_mod[i].has_init)
					EXPECT("C24", "once", seen.count(i), "start-up function m%d did not run", i);
		} else if (!hit) {
			// everything of a lower priority than the failing one had its turn
			for (int i = 0; i < NF; i++)
				if (g_mod[i].registered && g_mod[i].has_init && g_mod[i].rec.priority < last)
					EXPECT("C24", "once", seen.count(i), "start-up function m%d was skipped", i);
		} else ev("starts failed by an allocation failure");
		order.clear();
		for (auto &c : g_calls) order.push_back(c.id);
		start_failed = ret < 0;
		failing = failed ? g_calls.back().id : -1;
		started = true; ever_started = true;
		ev("starts"); ev("start-up calls observed", g_calls.size());
		if (ret < 0) { ev("failing starts"); stop(); return; }
		if (!overridden) smoke("after start");
		check_soft();
	}
	vec<int> order; bool start_failed = false; int failing = -1;
	void stop()
	{
		note("stop");
		g_calls.clear();
		ec_exit();
		check_soft();
		std::set<int> seen;
		vec<int> got;
		unsigned last = UINT_MAX;
		for (auto &c : g_calls) {
			EXPECT("C24", "order", c.exit, "a start-up function ran during stop");
			EXPECT("C24", "once", seen.insert(c.id).second, "shut-down function m%d ran twice in one stop", c.id);
			EXPECT("C24", "order", g_mod[c.id].rec.priority <= last, "shut-down function m%d (priority %u) ran after priority %u",
				c.id, g_mod[c.id].rec.priority, last);
			last = g_mod[c.id].rec.priority;
			got.push_back(c.id);
		}
		// those started are stopped, in exactly the reverse order
		vec<int> want, have;
		for (size_t i = order.size(); i-- > 0;) if (g_mod[order[i]].has_exit && order[i] != failing) want.push_back(order[i]);
		std::set<int> ws(want.begin(), want.end());
		for (int i : got) if (ws.count(i)) have.push_back(i);
		if (want != have) {
			str a, b;
			for (int i : want) a += " m" + std::to_string(i);
			for (int i : have) b += " m" + std::to_string(i);
			violate("C24", "reverse-order", "shut-down functions ran as%s, reverse of the start is%s", b.c_str(), a.c_str());
		}
		if (!start_failed)
			for (int i = 0; i < NF; i++)
				if (g_mod[i].registered && g_mod[i].has_exit)
					EXPECT("C24", "once", seen.count(i), "shut-down function m%d did not run", i);
		started = false; order.clear(); failing = -1;
		ev("stops"); ev("shut-down calls observed", g_calls.size());
		// log types last as long as the process
		uint64_t n = typed ? 0 : alloc_live_count_since(cycle_mark);
		if (n) {
			str d; for (auto &s : alloc_live_since(cycle_mark)) d += (d.empty() ? "" : "; ") + s;
			if (start_failed) violate("C03", "leak", "%llu allocation(s) of a failed start never released: %s", (unsigned long long)n, d.c_str());
			else violate("C02", "leak", "%llu allocation(s) of a start never released: %s", (unsigned long long)n, d.c_str());
		}
	}

	// ---- allocator registration
	void reg_alloc()
	{
		int k = r.range(0, 5);
		errno = 0;
		if (k < 2) {
			int miss = r.range(1, 7);
			int ret = ec_malloc_register(miss & 1 ? NULL : b_malloc, miss & 2 ? NULL : b_free, miss & 4 ? NULL : b_realloc);
			note("register an incomplete allocator (%d)", miss);
			EXPECT("C24", "allocator", ret == -1, "an allocator with missing functions was accepted");
			EXPECT("C24", "allocator", errno == EINVAL || (ever_started && errno == EBUSY), "errno %d", errno);
		} else if (started) {
			int ret = ec_malloc_register(b_malloc, b_free, b_realloc);
			note("replace the allocator while started");
			EXPECT("C24", "allocator", ret == -1 && errno == EBUSY, "replacing the allocator after start-up returned %d, errno %d", ret, errno);
			ev("late allocator replacements refused");
		} else if (!ever_started) {
			int ret = k == 2 ? ec_malloc_register(b_malloc, b_free, b_realloc) : alloc_register();
			note("register allocator %s", k == 2 ? "B" : "A");
			EXPECT("C24", "allocator", ret == 0, "registering an allocator before start-up returned %d, errno %d", ret, errno);
			alloc = k == 2 ? 2 : 1;
			ev("allocators registered");
		}
		probe_alloc();
	}
	void probe_alloc()
	{
		uint64_t b0 = g_b_calls, a0 = alloc_stats().n_alloc, mark = alloc_mark();
		str text(r.below(40), 'x');
		struct ec_strvec *v = ec_strvec();
		LCHECK(v != NULL);
		for (int i = 0; i < 3; i++) LCHECK(ec_strvec_add(v, text.c_str()) == 0);
		uint64_t nb = g_b_calls - b0, na = alloc_stats().n_alloc - a0;
		EXPECT("C24", "allocator-used", (nb > 0) == (alloc == 2), "allocator %d is registered, %llu calls to allocator 2", alloc, (unsigned long long)nb);
		EXPECT("C24", "allocator-used", (na > 0) == (alloc == 1), "allocator %d is registered, %llu calls to allocator 1", alloc, (unsigned long long)na);
		ec_strvec_free(v);
		if (alloc != 2) {
			uint64_t n = alloc_live_count_since(mark);
			EXPECT("C02", "leak", n == 0, "%llu allocation(s) kept by a released string vector", (unsigned long long)n);
		}
		ev("allocator in force probed");
	}
	void alloc_fns()
	{
		// the allocation helpers themselves, under whichever allocator is in force
		static const size_t sz[] = {0, 1, 2, 3, 7, 64, 1000, (size_t)1 << 31, (size_t)1 << 32, ((size_t)1 << 32) + 1, (size_t)1 << 62, (size_t)1 << 63, SIZE_MAX / 2, SIZE_MAX / 3, SIZE_MAX};
		size_t n = sz[r.below(sizeof sz / sizeof *sz)], m = sz[r.below(sizeof sz / sizeof *sz)];
		unsigned __int128 t = (unsigned __int128)n * m;
		if (alloc == 0) return;    // the macro then calls libc directly
		if (t > SIZE_MAX || t < 100000) {
			unsigned char *p = (unsigned char *)__ec_calloc(n, m, "x", 1);
			note("calloc %zu x %zu", n, m);
			if (t > SIZE_MAX) EXPECT("C01", "calloc", p == NULL, "an array of %zu x %zu bytes was allocated", n, m);
			else {
				LCHECK(p != NULL || t == 0);
				for (size_t i = 0; i < (size_t)t; i++) EXPECT("C01", "calloc", p[i] == 0, "byte %zu of a fresh array is %d", i, p[i]);
				if (p) memset(p, 0xee, (size_t)t);
				ec_free_func(p);
			}
			ev("array allocations");
		}
	}
	// ---- log
	str rand_name()
	{
		static const char *const names[] = {"", "a", "ab", "abc", "log", "node", "malloc", "logx", "lo", "Node", "\xc3\xa9t\xc3\xa9", "with space", "%s%n", "exactly12chr", "longer than twelve characters"};
		if (r.chance(1, 10)) return str(r.below(300), (char)('a' + r.below(4)));
		if (r.chance(1, 3)) return "t" + std::to_string(r.below(30));
		return names[r.below(sizeof names / sizeof *names)];
	}
	void reg_type()
	{
		str n = rand_name();
		char *buf = strdup(n.c_str());
		bool fault = r.chance(1, 6);
		if (fault) fault_arm(r.range(1, 2), false);
		int id = ec_log_type_register(buf);
		typed = true;
		uint64_t hit = fault ? fault_disarm() : 0;
		memset(buf, '#', n.size());
		free(buf);
		note("log type '%s' -> %d%s", n.substr(0, 40).c_str(), id, hit ? " (allocation failed)" : "");
		auto it = types.find(n);
		if (hit) {
			EXPECT("C24", "log-type", id == -1, "registering a log type while an allocation fails returned %d", id);
			ev("log types refused for lack of memory");
		} else {
			EXPECT("C24", "log-type", id >= 0, "registering a log type failed");
			if (it != types.end()) EXPECT("C24", "log-type", it->second == id, "log type '%s' was number %d and is now %d", n.c_str(), it->second, id);
			else EXPECT("C24", "log-type", !used.count(id), "log type '%s' got number %d, which is already '%s'", n.c_str(), id, ec_log_name(id));
			types[n] = id; used.insert(id);
			ev("log types registered");
		}
		check_types();
	}
	void check_types()
	{
		for (auto &t : types) {
			const char *s = ec_log_name(t.second);
			EXPECT("C24", "log-type", s && t.first == s, "log type %d was '%s' and is now '%s'", t.second, t.first.c_str(), s ? s : "NULL");
		}
		static const int bad[] = {-1, -2, INT_MIN, INT_MAX, 1000000};
		for (int b : bad) {
			const char *s = ec_log_name(b);
			EXPECT("C24", "log-type", s && !strcmp(s, "unknown"), "log type %d is named '%s'", b, s ? s : "NULL");
		}
		int top = used.empty() ? 0 : *used.rbegin() + 1;
		(void)top;
		ev("log type names checked", types.size());
	}
	void set_sink()
	{
		int k = r.range(-1, 1);
		void *o = r.coin() ? NULL : (void *)(uintptr_t)(0x1000 + r.below(5) * 16);
		int ret = k < 0 ? ec_log_fct_register(NULL, o) : ec_log_fct_register(k ? sink1 : sink0, o);
		note("sink %d opaque %p", k, o);
		EXPECT("C24", "log", ret == 0, "ec_log_fct_register() returned %d", ret);
		cur_sink = k; opaque = k < 0 ? NULL : o;
		ev("log sinks registered");
	}
	void set_level()
	{
		static const unsigned lv[] = {0, 1, 2, 3, 4, 5, 6, 7, 8, 9, 100, 0x7fffffffu, 0x80000000u, 0xffffffffu};
		unsigned l = lv[r.below(sizeof lv / sizeof *lv)];
		int ret = ec_log_level_set((enum ec_log_level)l);
		note("level %u", l);
		if (l <= EC_LOG_DEBUG) { EXPECT("C24", "log-level", ret == 0, "level %u refused", l); level = (int)l; }
		else EXPECT("C24", "log-level", ret == -1, "level %u accepted", l);
		EXPECT("C24", "log-level", (int)ec_log_level_get() == level, "level is %d, %d was set", (int)ec_log_level_get(), level);
	}
	str rand_text()
	{
		static const char *const t[] = {"", "x", "hello\n", "two\nlines\n", "%s %d %n", "100%", "\xff\xfe", "\x1b[0m"};
		switch (r.below(4)) {
		case 0: return str(r.below(60000), 'L');
		case 1: { str s; size_t n = r.below(200); for (size_t i = 0; i < n; i++) s += (char)r.range(1, 255); return s; }
		default: return t[r.below(sizeof t / sizeof *t)];
		}
	}
	void log_msg()
	{
		int type;
		if (r.chance(1, 4) || types.empty()) { static const int b[] = {-1, 0, 1, 5, 1000000, INT_MAX, INT_MIN}; type = b[r.below(7)]; }
		else { auto it = types.begin(); std::advance(it, r.below(types.size())); type = it->second; }
		int lvl = (int)r.below(8);
		str a = rand_text();
		int num = (int)r.next();
		str want; char nb[64];
		g_got.clear();
		g_sink_ret = r.chance(1, 4) ? -1 : r.chance(1, 8) ? 7 : 0;
		int form = (int)r.below(4);
		bool fault = r.chance(1, 10);
		char *mem = NULL; size_t msz = 0;
		FILE *save = stderr, *ms = open_memstream(&mem, &msz);
		HCHECK(ms != NULL);
		note("log type %d level %d form %d, %zu bytes%s", type, lvl, form, a.size(), fault ? ", allocation fails" : "");
		if (fault) fault_arm(1, false);
		stderr = ms;
		int ret;
		switch (form) {
		case 0: ret = ec_log(type, (enum ec_log_level)lvl, "%s", a.c_str()); want = a; break;
		case 1: ret = ec_log(type, (enum ec_log_level)lvl, "%s:%d:%s\n", a.c_str(), num, "end"); snprintf(nb, sizeof nb, ":%d:end\n", num); want = a + nb; break;
		case 2: ret = call_vlog(type, (enum ec_log_level)lvl, "<%5.2f|%s|%c>", 2.5, a.c_str(), 'q'); want = "< 2.50|" + a + "|q>"; break;
		default: ret = ec_log(type, (enum ec_log_level)lvl, "plain 100%%"); want = "plain 100%"; break;
		}
		stderr = save;
		uint64_t hit = fault ? fault_disarm() : 0;
		fclose(ms);
		str out(mem, msz); free(mem);
		if (hit) {
			EXPECT("C24", "log", ret < 0 || !g_got.empty() || !out.empty() || (cur_sink < 0 && lvl > level), "a message lost for lack of memory was reported as logged");
			for (auto &g : g_got) EXPECT("C24", "log", g.text == want, "a message was altered for lack of memory");
			ev("messages logged while memory is exhausted");
			return;
		}
		if (cur_sink >= 0) {
			EXPECT("C24", "log", out.empty(), "a message sent to the registered sink was also printed: %s", esc(out.substr(0, 200)).c_str());
			EXPECT("C24", "log", g_got.size() == 1, "the sink got %zu calls for one message", g_got.size());
			Got &g = g_got[0];
			EXPECT("C24", "log", g.sink == cur_sink, "sink %d got the message of sink %d", g.sink, cur_sink);
			EXPECT("C24", "log", g.type == type && g.level == lvl, "message of type %d level %d arrived as type %d level %d", type, lvl, g.type, g.level);
			EXPECT("C24", "log", g.opaque == opaque, "the sink got another opaque pointer");
			EXPECT("C24", "log", g.text == want, "message '%s' arrived as '%s'", esc(want.substr(0, 200)).c_str(), esc(g.text.substr(0, 200)).c_str());
			EXPECT("C24", "log", ret == g_sink_ret, "the sink returned %d, ec_log() %d", g_sink_ret, ret);
			ev("messages seen by a sink");
		} else {
			EXPECT("C24", "log", g_got.empty(), "an unregistered sink got a message");
			if (lvl > level) {
				EXPECT("C24", "log-default", out.empty(), "level %d printed while the level is %d", lvl, level);
				ev("messages filtered by the default sink");
			} else {
				EXPECT("C24", "log-default", out.size() >= want.size() && out.substr(out.size() - want.size()) == want,
					"default sink printed '%s' for '%s'", esc(out.substr(0, 200)).c_str(), esc(want.substr(0, 200)).c_str());
				EXPECT("C24", "log-default", out.find(ec_log_name(type)) != str::npos && out.find(std::to_string(lvl)) != str::npos,
					"default sink printed '%s' for type '%s' level %d", esc(out.substr(0, 100)).c_str(), ec_log_name(type), lvl);
				ev("messages printed by the default sink");
			}
			EXPECT("C24", "log-default", ret == 0, "ec_log() returned %d", ret);
		}
	}

	// ---- node types
	struct NT { struct ec_node_type t; int id; };
	vec<std::unique_ptr<NT>> nts;
	vec<std::unique_ptr<str>> names;
	std::map<str, const struct ec_node_type *> reg;
	static int np_parse(const struct ec_node *, struct ec_pnode *, const struct ec_strvec *) { return EC_PARSE_NOMATCH; }
	void reg_node_type()
	{
		static const char *const nm[] = {"str", "int", "seq", "mine", "mine2", "", "strx", "st", "STR", "re_lex", "any"};
		str n = nm[r.below(sizeof nm / sizeof *nm)];
		bool ov = r.chance(2, 5);
		nts.push_back(std::make_unique<NT>());
		names.push_back(std::make_unique<str>(n));
		NT &t = *nts.back();
		memset(&t.t, 0, sizeof t.t);
		t.t.name = names.back()->c_str();
		t.t.parse = np_parse;
		const struct ec_node_type *before = ec_node_type_lookup(n.c_str());
		auto it = reg.find(n);
		if (it != reg.end()) EXPECT("C24", "node-type", before == it->second, "node type '%s' is not the one registered last", n.c_str());
		errno = 0;
		int ret = ec_node_type_register(&t.t, ov);
		note("node type '%s'%s -> %d", n.c_str(), ov ? " override" : "", ret);
		const struct ec_node_type *after = ec_node_type_lookup(n.c_str());
		if (before && !ov) {
			EXPECT("C24", "node-type", ret == -1 && errno == EEXIST, "a second node type '%s' was accepted (%d, errno %d)", n.c_str(), ret, errno);
			EXPECT("C24", "node-type", after == before, "a refused node type '%s' is used", n.c_str());
			ev("duplicate node types refused");
			t.t.name = "refused";      // the caller may reuse it
		} else {
			EXPECT("C24", "node-type", ret == 0, "node type '%s' was refused (errno %d)", n.c_str(), errno);
			EXPECT("C24", "node-type", after == &t.t, "node type '%s' is not the one just registered", n.c_str());
			reg[n] = &t.t;
			if (before) { overridden = true; ev("node types overridden"); } else ev("node types registered");
		}
		check_node_types();
	}
	void check_node_types()
	{
		for (auto &e : reg) {
			EXPECT("C24", "node-type", ec_node_type_lookup(e.first.c_str()) == e.second, "node type '%s' was lost", e.first.c_str());
			struct ec_node *n = ec_node(e.first.c_str(), "id");
			EXPECT("C24", "node-type", n != NULL && ec_node_type(n) == e.second, "a node of type '%s' is not of the registered type", e.first.c_str());
			ec_node_free(n);
		}
		static const char *const builtin[] = {"seq", "or", "str", "int", "uint", "many", "option", "any", "cmd", "cond", "dynamic", "expr", "file", "none", "empty", "once", "re", "re_lex", "sh_lex", "space", "subset", "bypass"};
		str dump = slurp_stream([](FILE *f) { ec_node_type_dump(f); });
		for (auto b : builtin) {
			const struct ec_node_type *t = ec_node_type_lookup(b);
			EXPECT("C24", "node-type", t && !strcmp(ec_node_type_name(t), b), "node type '%s' is not found", b);
			EXPECT("C24", "node-type", ("\n" + dump).find("\n" + str(b) + "\n") != str::npos, "node type '%s' is not listed", b);
		}
		errno = 0;
		EXPECT("C24", "node-type", ec_node_type_lookup("no such type") == NULL && errno == ENOENT, "an unknown node type was found");
		errno = 0;
		EXPECT("C24", "node-type", ec_node("no such type", "id") == NULL && errno == ENOENT, "a node of an unknown type was built");
		ev("node type lookups", reg.size() + 24);
	}
	// messages of the library itself carry a known type and a valid level
	void own_logs()
	{
		if (cur_sink < 0) return;
		g_got.clear(); g_sink_ret = 0;
		struct ec_node *n = ec_node("no such type", "id"); ec_node_free(n);
		n = ec_node_any("own", NULL); ec_node_free(n);
		for (auto &g : g_got) {
			EXPECT("C24", "log", strcmp(ec_log_name(g.type), "unknown") != 0, "a message of the library has the unregistered type %d", g.type);
			EXPECT("C24", "log", g.level >= 0 && g.level <= EC_LOG_DEBUG && g.opaque == opaque && g.sink == cur_sink, "a message of the library has level %d", g.level);
		}
		ev("messages of the library itself", g_got.size());
	}

	void run()
	{
		Fill<NF>::go();
		// names known from the library itself
		for (int id = 0; strcmp(ec_log_name(id), "unknown"); id++) {
			str n = ec_log_name(id);
			int again = ec_log_type_register(n.c_str());
			EXPECT("C24", "log-type", again == id, "log type '%s' is number %d and registering its name gives %d", n.c_str(), id, again);
			types[n] = id; used.insert(id);
		}
		for (auto n : {"log", "malloc", "node"}) EXPECT("C24", "log-type", types.count(n), "the library has no log type '%s'", n);
		check_types();
		if (r.chance(2, 3)) { LCHECK(alloc_register() == 0); alloc = 1; note("register allocator A"); }
		if (r.chance(4, 5)) set_sink();
		if (r.chance(1, 10)) {
			int many = r.range(40, 400);
			for (int i = 0; i < many; i++) {
				str nm = "bulk" + std::to_string(i); int id = ec_log_type_register(nm.c_str());
				EXPECT("C24", "log-type", id >= 0 && !used.count(id), "log type '%s' got number %d", nm.c_str(), id);
				types[nm] = id; used.insert(id);
			}
			typed = true; note("%d more log types", many); check_types(); ev("start-ups with many log types");
		}
		int n = r.range(5, 40), focus = (int)r.below(4);
		for (int i = 0; i < n; i++) {
			int k = (int)r.below(14);
			if (r.coin()) k = focus == 0 ? (int)r.below(4) : focus == 1 ? 6 + (int)r.below(5) : focus == 2 ? 11 : 4;
			switch (k) {
			case 0: case 1: if (!started) reg_mod(); break;
			case 2: case 3: if (started) stop(); else if (!overridden) start(); break;
			case 4: reg_alloc(); break;
			case 5: probe_alloc(); alloc_fns(); break;
			case 6: case 7: reg_type(); break;
			case 8: if (r.chance(1, 3)) set_sink(); else log_msg(); break;
			case 9: set_level(); break;
			case 10: log_msg(); break;
			case 11: reg_node_type(); break;
			case 12: own_logs(); break;
			case 13: check_types(); check_node_types(); break;
			}
			check_soft();
		}
		if (!overridden && !started) start();
		if (started) stop();
		check_types();
		nontrivial(sig);
		ev("histories");
	}
};

} // namespace

SCENARIO(init, "distinct histories of registrations, starts, stops, log and level operations")
{
	(void)idx;
	run_forked([&] { Machine m(r); m.run(); });
}

// A start during which one allocation (or one and all later ones) fails: it is reported and can be
// undone and repeated, or it has no effect at all.
SCENARIO(start, "one start of the library recorded, then started again with chosen allocation points failing (call chains least failed first), alone or with all later ones; after each the library must be either fully usable or stopped cleanly, and a normal start must work; non-trivial = an allocation of a start was made to fail")
{
	(void)idx;
	run_forked([&] {
		LCHECK(alloc_register() == 0);
		vec<FaultCtx> ctx;
		uint64_t mark = alloc_mark();
		str why;
		auto leak = [&](const char *p, const char *when) {
			uint64_t n = alloc_live_count_since(mark);
			if (!n) return;
			str d; for (auto &s : alloc_live_since(mark)) d += (d.empty() ? "" : "; ") + s;
			violate(p, "leak", "%llu allocation(s) of %s never released: %s", (unsigned long long)n, when, d.c_str());
		};
		describe("start");
		g_fault_ctx = &ctx;
		fault_arm(-1, false);
		int ret = ec_init();
		g_fault_ctx = NULL;
		fault_disarm();
		EXPECT("C24", "start", ret == 0, "ec_init() returned %d", ret);
		if (!try_smoke(why)) violate("C24", "not-usable", "after start: %s", why.c_str());
		ec_exit();
		leak("C02", "a start and its use");
		for (uint64_t k : fault_choose(r, ctx, thorough() ? 80 : 30)) {
			bool all = r.chance(1, 4);
			describe("start with allocation %llu of %zu failing%s", (unsigned long long)k, ctx.size(), all ? " and all later ones" : "");
			mark = alloc_mark();
			fault_arm((int64_t)k, all);
			ret = ec_init();
			uint64_t hit = fault_disarm();
			EXPECT("C24", "start", ret == 0 || ret == -1, "ec_init() returned %d", ret);
			if (hit) ev("failures delivered during a start");
			if (ret == 0) {
				why.clear();
				if (!try_smoke(why)) violate("C03", "unreported", "the failure was not reported and the library is not usable: %s", why.c_str());
				if (hit) ev("failures during a start without effect");
			} else EXPECT("C03", "spurious", hit, "ec_init() failed although no allocation did");
			ec_exit();
			leak("C03", "an interrupted start");
			describe_append("; start again");
			mark = alloc_mark();
			ret = ec_init();
			if (ret != 0) violate("C03", "retry", "a start after a failed start fails although memory is available");
			why.clear();
			if (r.chance(1, 4) && !try_smoke(why)) violate("C03", "retry", "after a failed start and a normal one: %s", why.c_str());
			ec_exit();
			leak("C03", "a start after a failed start");
		}
		ev("starts");
	});
}
