#pragma once
#include "gram.h"
struct ParseRes { struct ec_pnode *p = NULL; bool match = false, input_ok = true; size_t len = 0; str tree; };
extern uint64_t g_budget_x;       // multiplies what the reference may spend on one request
ParseRes run_parse(const Built &b, const Toks &t, const struct ec_node *node = NULL);
void check_parse(Rng &r, const Gram &g, const Built &b, const Toks &t, bool api);
void check_complete(const Gram &g, const Built &b, const Toks &t);
void check_tree_api(Rng &r, struct ec_pnode *p, const Built &b);
void walk_nodes(const struct ec_pnode *p, vec<const struct ec_pnode *> &out);
void check_merge(const Gram &g, const Built &b, const Toks &t1, const Toks &t2);
Toks gen_partial(Rng &r, const Gram &g, const GenOpt &o);
struct CItem { int type; int node; const struct ec_node *nd; bool has_str, has_comp; str full, completion, display, pstate; const struct ec_comp_group *grp; };
vec<CItem> read_comp(const struct ec_comp *c, const Built &b, bool check);
str rnd_str(Rng &r, int maxlen);
bool maybe_fault(Rng &r);
bool outcome(const char *prop, const char *op, bool ok);
const char *pr3(const char *p);
// ---- fault enumeration ------------------------------------------------------
// A program is a list of steps over library objects. step() returns false when the library reported
// an error, having left the objects as they were before that step; out is a canonical rendering of
// the result. cleanup() releases everything.
struct Prog {
	virtual ~Prog() {}
	virtual size_t n() = 0;
	virtual bool step(size_t i, str &out) = 0;
	virtual void cleanup() = 0;
	virtual str show() = 0;
};
typedef std::unique_ptr<Prog> (*prog_fn)(Rng &r);
struct ProgReg { ProgReg(const char *name, prog_fn fn, int weight); };
str show_comp(const struct ec_comp *c, const Built &b);
