// Abstract grammars, their construction through the library's public API, and
// the reference semantics (parser / completer) the monitors compare against.
#pragma once
#include "common.h"

struct Tok {
	str s;
	std::set<str> attrs;
	bool operator==(const Tok &o) const { return s == o.s && attrs == o.attrs; }
};
typedef vec<Tok> Toks;
inline Toks toks_of(const vec<str> &v) { Toks t; for (auto &s : v) t.push_back(Tok{s, {}}); return t; }

enum NT { T_STR, T_ANY, T_EMPTY, T_NONE, T_SPACE, T_INT, T_UINT, T_RE, T_FILE,
	T_SEQ, T_OR, T_MANY, T_OPTION, T_SUBSET, T_ONCE, T_BYPASS, T_SH_LEX, T_RE_LEX, T_COND, T_DYN, NT_COUNT };
extern const char *nt_name[NT_COUNT];

struct RePat { str pat; bool keep; str attr; };   // attr "" = none
struct GN {
	NT t = T_EMPTY;
	str id;
	str s;                    // str value / any attr / regex
	bool has_min = false, has_max = false;
	int64_t imin = 0, imax = 0;
	uint64_t umin = 0, umax = 0;
	unsigned base = 10;
	unsigned mn = 0, mx = 0;
	vec<int> ch;
	vec<RePat> pats;
	str help, desc;           // optional attributes used by the help engine
};
struct Gram {
	vec<GN> n;
	int root = 0;
	str show(int i = -1, int depth = 0) const;
	int add(const GN &g) { n.push_back(g); return (int)n.size() - 1; }
};

struct GenOpt {
	int max_nodes = 14;
	bool lexers = true;       // allow sh_lex/re_lex inside
	bool cycles = true;
	bool sharing = true;
	bool ints = true;
	bool once = true;
	bool any_attr = false;
	bool file = true;
	int cond = 0;             // percentage of containers that are conditional nodes
	int dyn = 0;              // percentage of containers that are dynamic nodes
	bool dyn_fail = false;    // allow builders that return nothing
	bool cond_err = false;    // allow conditions whose evaluation fails
	bool yaml_types = false;  // only types with a complete configuration schema
	int max_depth = 5;
	vec<str> words;           // alphabet
};
Gram gen_gram(Rng &r, const GenOpt &o);
bool left_recursive(const Gram &g);
// random token vector biased towards the language of g
Toks gen_input(Rng &r, const Gram &g, const GenOpt &o);
// random walk producing a (probably) matching vector
void gen_walk(Rng &r, const Gram &g, int n, Toks &out, int &budget);
vec<str> default_words();
vec<str> rich_words(Rng &r);
bool g_nullable(const Gram &g, int n);

// ---- building ----
struct Built {
	struct ec_node *root = NULL;
	vec<struct ec_node *> nodes;                    // by grammar index; borrowed unless keep_refs
	std::map<const struct ec_node *, int> idx;
	bool keep = false;                       // nodes[] hold references
	int failed = -1;
	void free_all();
};
// build through random construction routes; on allocation failure returns false, having released everything
// when set, may build a node itself (handled = true), e.g. as an application-defined type
extern struct ec_node *(*g_custom_build)(const GN &x, const vec<struct ec_node *> &ch, Rng &r, bool &handled);
bool build(const Gram &g, Rng &r, Built &b, bool keep_refs = false, int force_route = -1);
struct ec_strvec *make_strvec(const Toks &t);        // NULL on allocation failure
str show_toks(const Toks &t);
Toks read_strvec(const struct ec_strvec *v);

// ---- reference trees ----
struct MP {
	int g; bool has = false; Toks toks; MP *parent = NULL; vec<std::unique_ptr<MP>> ch;
	explicit MP(int gi) : g(gi) {}
	MP *root() { MP *p = this; while (p->parent) p = p->parent; return p; }
	MP *link(int gi) { ch.emplace_back(new MP(gi)); ch.back()->parent = this; return ch.back().get(); }
	void pop() { ch.pop_back(); }
};
std::unique_ptr<MP> mp_dup(const MP *m, MP *parent = NULL);
str ser(const MP *m, const MP *mark = NULL);
// serialise a library parse tree with the same notation
str ser(const struct ec_pnode *p, const Built &b, const struct ec_pnode *mark = NULL);

// ---- conditions ----
struct CondErr {};                 // thrown by the model: the request is an error (condition or builder)
// ---- dynamic nodes ----
// GN of a dynamic node: ch = what the builder may return, mn = 1: a fresh copy at each call, mx = 1: may
// return nothing. The choice is a hash of the parse made so far.
int dyn_choice(const GN &x, int n, const str &state);      // index in ch, or -1: nothing
struct DynEnv {
	const Gram *g; struct Built *b;
	std::set<str> states;          // parse states the builders were given
	uint64_t calls = 0, fresh = 0, nothing = 0;
	vec<struct ec_node *> made;    // fresh nodes handed out
};
extern DynEnv *g_dyn;
str gen_cond(Rng &r, int depth, bool err);
bool cond_syntax(const str &s);    // does the text follow the condition grammar?
bool cond_eval(const Gram &g, const str &s, MP *self);
const int NOMATCH = INT_MAX;
struct Model {
	const Gram &g;
	uint64_t steps = 0, budget = 200000;
	int depth = 0;
	explicit Model(const Gram &gr) : g(gr) {}
	// parse tokens with node n inside tree p; links a child on success
	int parse_child(int n, MP *p, const Toks &t);
	// top-level parse
	int parse(int n, const Toks &t, std::unique_ptr<MP> &tree);
	int do_parse(int n, MP *self, const Toks &t);
	struct Item {
		int type; int node; str start, full, completion, display; str pstate; uint64_t grp;
		bool quoted = false;
	};
	vec<Item> items;
	uint64_t ngrp = 0;
	void complete(int n, const Toks &t);
	std::set<str> dyn_states;              // states in which a dynamic node was consulted
	bool file_hit = false;                 // a file node was asked to complete
private:
	struct Sub { size_t nodes = 0, len = 0; };
	void subset(MP *self, const vec<int> &tab, const Toks &t, Sub &out);
	void complete_child(int n, MP *cur, const Toks &t);
	void seq_complete(const vec<int> &tab, size_t k, MP *self, const Toks &t);
	void many_complete(int child, unsigned max, MP *self, const Toks &t);
	void subset_complete(vec<int> tab, MP *self, const Toks &t);
	void tick();
};

// reference lexers
struct ShLex { bool ok; bool ambiguous_trail = false; vec<str> w; char quote = 0; int err = 0; };
ShLex ref_shlex(const str &line, bool strict, bool trailsp);
bool ref_relex(const vec<RePat> &p, const str &text, Toks &out);
bool ref_re_full(const str &pat, const str &text);
bool ref_int(const str &t, unsigned base, int64_t &v);     // complete signed integer text?
bool ref_uint(const str &t, unsigned base, uint64_t &v);
bool pat_ok(const str &pat);
