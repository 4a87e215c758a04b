// C03: every allocation point of a program of library calls fails in turn (alone, or together with
// all later ones); the failing call must report it or deliver its normal result, nothing may leak or
// be released twice, and the same call must then succeed on the same objects.
#include "checks.h"

struct PE { const char *name; prog_fn fn; int weight; };
static vec<PE> &progs() { static vec<PE> v; return v; }
ProgReg::ProgReg(const char *name, prog_fn fn, int w) { for (int i = 0; i < w; i++) progs().push_back(PE{name, fn, w}); }

str show_comp(const struct ec_comp *c, const Built &b)
{
	FaultPause fp;
	std::multiset<str> s;
	for (const struct ec_comp_item *i = ec_comp_iter_first(c, EC_COMP_ALL); i; i = ec_comp_iter_next((struct ec_comp_item *)i, EC_COMP_ALL)) {
		const char *t = ec_comp_item_get_str(i), *m = ec_comp_item_get_completion(i);
		auto it = b.idx.find(ec_comp_item_get_node(i));
		s.insert(std::to_string(ec_comp_item_get_type(i)) + ":" + std::to_string(it == b.idx.end() ? -1 : it->second) + ":" + (t ? t : "-") + ":" + (m ? m : "-"));
	}
	str o = std::to_string(ec_comp_count(c, EC_COMP_ALL)) + "{";
	for (auto &x : s) o += esc(x) + " ";
	return o + "}";
}

// ---- grammars ---------------------------------------------------------------
struct GramProg : Prog {
	Gram g; GenOpt o; uint64_t bseed; Built b; vec<Toks> in, part; struct ec_pnode *last = NULL; bool built = false;
	explicit GramProg(Rng &r)
	{
		o.max_nodes = r.range(2, 8); o.max_depth = r.range(1, 4);
		o.lexers = r.coin(); o.cycles = r.chance(1, 3); o.any_attr = o.lexers; o.file = false;
		g = gen_gram(r, o);
		for (auto &x : g.n) if (r.chance(1, 4)) x.help = "some help"; 
		for (auto &x : g.n) if (r.chance(1, 6)) x.desc = "<desc>";
		bseed = r.next();
		for (int i = 0; i < 2; i++) { in.push_back(gen_input(r, g, o)); part.push_back(gen_partial(r, g, o)); }
		// keep the enumeration short: small reference cost only
		for (auto &t : in) { Model m(g); m.budget = 400; std::unique_ptr<MP> tr; m.parse(g.root, t, tr); }
		for (auto &t : part) { Model m(g); m.budget = 200; m.complete(g.root, t); }
	}
	str show() override { return g.show() + " parse " + show_toks(in[0]) + show_toks(in[1]) + " complete " + show_toks(part[0]) + show_toks(part[1]); }
	size_t n() override { return 9; }
	bool step(size_t i, str &out) override
	{
		switch (i) {
		case 0: { Rng r(bseed); built = build(g, r, b); out = built ? "built" : ""; return built; }
		case 1: case 4: {
			struct ec_strvec *v = make_strvec(in[i == 4]);
			if (!v) return false;
			struct ec_pnode *p = ec_parse_strvec(b.root, v);
			ec_strvec_free(v);
			if (!p) return false;
			{ FaultPause fp; out = ser(p, b); ec_pnode_free(last); last = p; }
			return true; }
		case 2: case 5: {
			struct ec_strvec *v = make_strvec(part[i == 5]);
			if (!v) return false;
			struct ec_comp *c = ec_complete_strvec(b.root, v);
			ec_strvec_free(v);
			if (!c) return false;
			out = show_comp(c, b);
			ec_comp_free(c);
			return true; }
		case 3: {
			struct ec_pnode *d = ec_pnode_dup(last);
			if (!d) return false;
			{ FaultPause fp; out = ser(d, b); }
			ec_pnode_free(d);
			return true; }
		case 6: {
			// string front ends
			str s;
			for (auto &t : in[0]) s += t.s + " ";
			struct ec_pnode *p = ec_parse(b.root, s.c_str());
			if (!p) return false;
			{ FaultPause fp; out = ser(p, b); }
			ec_pnode_free(p);
			struct ec_comp *c = ec_complete(b.root, s.c_str());
			if (!c) return false;
			out += show_comp(c, b);
			ec_comp_free(c);
			return true; }
		case 7: {
			char *d = ec_node_desc(b.root);
			if (!d) return false;
			out = d; ec_free(d);
			return true; }
		case 8: {
			// merging two lists
			struct ec_strvec *v = make_strvec(part[0]);
			if (!v) return false;
			struct ec_comp *c = ec_complete_strvec(b.root, v);
			struct ec_comp *d = c ? ec_complete_strvec(b.root, v) : NULL;
			ec_strvec_free(v);
			if (!c || !d) { ec_comp_free(c); return false; }
			if (ec_comp_merge(c, d) < 0) { ec_comp_free(c); return false; }
			out = show_comp(c, b);
			ec_comp_free(c);
			return true; }
		}
		return true;
	}
	void cleanup() override { ec_pnode_free(last); last = NULL; if (built) b.free_all(); built = false; b = Built(); }
};
static std::unique_ptr<Prog> mk_gram(Rng &r) { return std::unique_ptr<Prog>(new GramProg(r)); }
static ProgReg reg_g("gram", mk_gram, 6);

SCENARIO(oom, "random program of library calls (build, configure, parse, complete, duplicate, merge, evaluate, import ...); each allocation point of the program fails in turn, alone or with all later ones; non-trivial = at least one injected failure was delivered")
{
	const PE &pe = progs()[idx % progs().size()];
	LeakCheck lk;
	std::unique_ptr<Prog> p = pe.fn(r);
	describe("[%s] %s", pe.name, p->show().c_str());
	str head = current_desc();
	size_t n = p->n();
	vec<str> base(n);
	vec<FaultCtx> ctx;
	g_fault_ctx = &ctx;
	fault_arm(-1, false);
	for (size_t i = 0; i < n; i++)
		if (!p->step(i, base[i])) { g_fault_ctx = NULL; fault_disarm(); describe_append(" | step %zu without fault", i); violate("C03", "baseline", "step %zu failed although memory is available: %s", i, strerror(errno)); p->cleanup(); end_case(); }
	g_fault_ctx = NULL;
	uint64_t total = fault_count();
	fault_disarm();
	p->cleanup();
	lk.check("C03", "program without faults");
	lk.check("C02", "program without faults");
	vec<uint64_t> pts = fault_choose(r, ctx, thorough() ? 200 : 60);
	ev("allocation points in programs", total);
	ev("allocation points made to fail", pts.size());
	bool any = false;
	for (uint64_t k : pts) {
		bool all = r.chance(1, 5);
		describe("%s | allocation %llu of %llu fails%s", head.c_str(), (unsigned long long)k, (unsigned long long)total, all ? " with all later ones" : "");
		str hd = current_desc();
		LeakCheck l2;
		fault_arm((int64_t)k, all);
		bool first = true;
		for (size_t i = 0; i < n; i++) {
			str o;
			describe("%s | step %zu", hd.c_str(), i);
			errno = 0;
			bool ok = p->step(i, o);
			int e = errno;
			if (!ok) {
				EXPECT("C29", "errno", e != 0, "step %zu reported the failed allocation and errno is not set", i);
				if (!first) { violate("C03", "retry", "step %zu fails although memory is available again: %s", i, strerror(errno)); p->cleanup(); end_case(); }
				first = false;
				uint64_t f = fault_disarm();
				if (f == 0) { violate("C03", "spurious", "step %zu failed without an allocation failure", i); p->cleanup(); end_case(); }
				ev("injected failures reported by the call");
				any = true;
				o.clear();
				describe("%s | retry of step %zu", hd.c_str(), i);
				ok = p->step(i, o);
				if (!ok) { violate("C03", "retry", "step %zu fails again although memory is available: %s", i, strerror(errno)); p->cleanup(); end_case(); }
			}
			EXPECT("C03", "result", o == base[i], "step %zu gave %s; normally %s", i, esc(o).c_str(), esc(base[i]).c_str());
		}
		uint64_t f = fault_disarm();
		if (first && f) { ev("injected failures absorbed without effect"); any = true; }
		p->cleanup();
		l2.check("C03", "after a failed allocation");
		l2.check("C02", "after a failed allocation");
	}
	if (any) nontrivial(fnv(head));
	sample(head);
}
