// C03: further programs for the fault enumeration: conditional, dynamic, command, expression and file
// nodes, YAML import, the interactive layer.
#include "checks.h"
#include <fcntl.h>
#include <unistd.h>
#include <sys/mman.h>
#include <sys/stat.h>
#include <histedit.h>

static struct ec_comp *lib_complete(const struct ec_node *n, const Toks &t)
{
	struct ec_strvec *v = make_strvec(t);
	if (!v) return NULL;
	struct ec_comp *c = ec_complete_strvec(n, v);
	ec_strvec_free(v);
	return c;
}
static struct ec_pnode *lib_parse(const struct ec_node *n, const Toks &t)
{
	struct ec_strvec *v = make_strvec(t);
	if (!v) return NULL;
	struct ec_pnode *p = ec_parse_strvec(n, v);
	ec_strvec_free(v);
	return p;
}

// ---- conditional and dynamic nodes --------------------------------------------
struct CtxProg : Prog {
	Gram g; GenOpt o; uint64_t bseed; Built b; vec<Toks> in, part; bool built = false, dyn; DynEnv env; std::map<const struct ec_node *, int> idx0;
	CtxProg(Rng &r, bool d) : dyn(d)
	{
		o.max_nodes = r.range(2, 7); o.max_depth = r.range(1, 4); o.lexers = r.chance(1, 4); o.cycles = r.chance(1, 4); o.file = false;
		o.words = {"a", "b"}; o.once = false;
		if (d) o.dyn = r.range(25, 60); else o.cond = r.range(25, 60);
		g = gen_gram(r, o);
		bseed = r.next();
		for (int k = 0; k < 12 && (in.size() < 2 || part.size() < 2); k++) {
			Toks t = gen_input(r, g, o), c = gen_partial(r, g, o);
			try { Model m(g); m.budget = 300; std::unique_ptr<MP> tr; m.parse(g.root, t, tr); if (in.size() < 2) in.push_back(t); } catch (CondErr &) {}
			try { Model m(g); m.budget = 150; m.complete(g.root, c); if (part.size() < 2) part.push_back(c); } catch (CondErr &) {}
		}
	}
	str show() override { str s = g.show(); for (auto &t : in) s += " parse " + show_toks(t); for (auto &t : part) s += " complete " + show_toks(t); return s; }
	size_t n() override { return 1 + in.size() + part.size(); }
	bool step(size_t i, str &out) override
	{
		if (i == 0) { Rng r(bseed); built = build(g, r, b, true); if (built) { env = DynEnv(); env.g = &g; env.b = &b; g_dyn = &env; idx0 = b.idx; } return built; }
		i--;
		if (i < in.size()) {
			struct ec_pnode *p = lib_parse(b.root, in[i]);
			if (p) { FaultPause fp; out = ser(p, b); ec_pnode_free(p); }
			env.made.clear(); b.idx = idx0;
			return p != NULL;
		}
		struct ec_comp *c = lib_complete(b.root, part[i - in.size()]);
		if (c) { out = show_comp(c, b); ec_comp_free(c); }
		env.made.clear(); b.idx = idx0;
		return c != NULL;
	}
	void cleanup() override { if (built) b.free_all(); built = false; b = Built(); g_dyn = NULL; }
};
static std::unique_ptr<Prog> mk_cond(Rng &r) { return std::unique_ptr<Prog>(new CtxProg(r, false)); }
static std::unique_ptr<Prog> mk_dyn(Rng &r) { return std::unique_ptr<Prog>(new CtxProg(r, true)); }
static ProgReg reg_c("cond", mk_cond, 1), reg_d("dynamic", mk_dyn, 1);

// ---- command nodes ------------------------------------------------------------
struct CmdProg : Prog {
	str a, b; struct ec_node *x = NULL, *n_ = NULL; bool cfg; vec<Toks> in;
	explicit CmdProg(Rng &r)
	{
		static const vec<str> ex = {"foo x", "foo [x] bar*", "(x|bar)+ foo", "x, bar, foo", "a|x bar", "[x|foo] bar", "x+", "((a) x)", "a,b|x c", "[a [b [x]]]", "x* x", "foo"};
		a = r.pick(ex); b = r.pick(ex); cfg = r.coin();
		static const vec<str> w = {"foo", "bar", "a", "b", "7", ""};
		for (int i = 0; i < 2; i++) { Toks t; int k = r.range(0, 4); while (k--) t.push_back(Tok{r.pick(w), {}}); in.push_back(t); }
	}
	str show() override { return "cmd '" + a + "' then '" + b + "' on " + show_toks(in[0]) + show_toks(in[1]); }
	size_t n() override { return 7; }
	bool step(size_t i, str &out) override
	{
		Built none;
		switch (i) {
		case 0: x = ec_node_int("x", 0, 9, 10); return x != NULL;
		case 1: {
			struct ec_node *c = ec_node_clone(x);
			n_ = EC_NODE_CMD("cmd", a.c_str(), c);
			return n_ != NULL; }
		case 2: case 5: { struct ec_pnode *p = lib_parse(n_, in[i == 5]); if (!p) return false; { FaultPause fp; out = std::to_string(ec_pnode_matches(p)) + ":" + std::to_string(ec_pnode_len(p)); } ec_pnode_free(p); return true; }
		case 3: case 6: { struct ec_comp *c = lib_complete(n_, in[i == 6]); if (!c) return false; out = show_comp(c, none); ec_comp_free(c); return true; }
		case 4: {
			struct ec_config *d = ec_config_dict(), *l = ec_config_list(), *e = ec_config_string(b.c_str()), *k = ec_config_node(ec_node_clone(x));
			if (!d || !l || !e || !k) { ec_config_free(d); ec_config_free(l); ec_config_free(e); ec_config_free(k); return false; }
			bool ok = ec_config_list_add(l, k) == 0;
			if (!ok) { ec_config_free(d); ec_config_free(l); ec_config_free(e); return false; }
			ok = ec_config_dict_set(d, "expr", e) == 0;
			if (!ok) { ec_config_free(d); ec_config_free(l); return false; }
			ok = ec_config_dict_set(d, "children", l) == 0;
			if (!ok) { ec_config_free(d); return false; }
			return ec_node_set_config(n_, d) == 0; }
		}
		return true;
	}
	void cleanup() override { ec_node_free(n_); ec_node_free(x); n_ = x = NULL; }
};
static std::unique_ptr<Prog> mk_cmd(Rng &r) { return std::unique_ptr<Prog>(new CmdProg(r)); }
static ProgReg reg_m("cmd", mk_cmd, 1);

// ---- expressions --------------------------------------------------------------
struct XV { int v; };
static int x_var(void **res, void *, const struct ec_pnode *p) { XV *v = (XV *)ec_malloc(sizeof *v); if (!v) return -1; v->v = atoi(ec_strvec_val(ec_pnode_get_strvec(p), 0)); *res = v; return 0; }
static int x_pre(void **res, void *, void *a, const struct ec_pnode *) { ((XV *)a)->v = -((XV *)a)->v; *res = a; return 0; }
static int x_post(void **res, void *, void *a, const struct ec_pnode *) { XV *v = (XV *)ec_malloc(sizeof *v); if (!v) return -1; v->v = ((XV *)a)->v * ((XV *)a)->v; ec_free(a); *res = v; return 0; }
static int x_bin(void **res, void *, void *a, const struct ec_pnode *op, void *b)
{
	XV *v = (XV *)ec_malloc(sizeof *v); if (!v) return -1;
	char c = *ec_strvec_val(ec_pnode_get_strvec(op), 0); int x = ((XV *)a)->v, y = ((XV *)b)->v;
	v->v = c == '+' ? x + y : c == '-' ? x - y : x * y % 1000;
	ec_free(a); ec_free(b); *res = v; return 0;
}
static int x_par(void **res, void *, const struct ec_pnode *, const struct ec_pnode *, void *a) { *res = a; return 0; }
static void x_free(void *a, void *) { ec_free(a); }
struct ExprProg : Prog {
	struct ec_node *n_ = NULL; struct ec_pnode *p = NULL; Toks in, part; bool late;
	explicit ExprProg(Rng &r)
	{
		late = r.coin();   // the value node is replaced once the operators are known
		std::function<void(int)> e = [&](int d) {
			int k = d <= 0 ? 0 : r.range(0, 6);
			if (k <= 1) in.push_back(Tok{std::to_string(r.range(0, 9)), {}});
			else if (k <= 3) { e(d - 1); in.push_back(Tok{r.pick(vec<str>{"+", "*", "-"}), {}}); e(d - 1); }
			else if (k == 4) { in.push_back(Tok{"!", {}}); e(d - 1); }
			else if (k == 5) { e(0); in.push_back(Tok{"^", {}}); }
			else { in.push_back(Tok{"(", {}}); e(d - 1); in.push_back(Tok{")", {}}); }
		};
		e(2);
		if (in.size() > 7) in.resize(1);
		part = in; if (part.size() > 2) part.resize(2); part.push_back(Tok{"", {}});
	}
	str show() override { return "expression " + show_toks(in) + " complete " + show_toks(part); }
	size_t n() override { return 11; }
	bool step(size_t i, str &out) override
	{
		struct ec_node *a, *c; Built none;
		switch (i) {
		case 0: n_ = ec_node("expr", "e"); return n_ != NULL;
		case 1: return ec_node_expr_set_val_node(n_, ec_node_int("v", late ? 20 : 0, late ? 30 : 9, 10)) == 0;
		case 7: return !late || ec_node_expr_set_val_node(n_, ec_node_int("v", 0, 9, 10)) == 0;
		case 2: return ec_node_expr_add_bin_op(n_, ec_node_str("m", "*")) == 0;
		case 3: return ec_node_expr_add_bin_op(n_, EC_NODE_OR("b", ec_node_str("p", "+"), ec_node_str("s", "-"))) == 0;
		case 4: return ec_node_expr_add_pre_op(n_, ec_node_str("n", "!")) == 0;
		case 5: return ec_node_expr_add_post_op(n_, ec_node_str("q", "^")) == 0;
		case 6: a = ec_node_str("o", "("); c = ec_node_str("c", ")"); return ec_node_expr_add_parenthesis(n_, a, c) == 0;
		case 8: p = lib_parse(n_, in); if (!p) return false; out = std::to_string(ec_pnode_matches(p)) + ":" + std::to_string(ec_pnode_len(p)); return true;
		case 9: {
			struct ec_node_expr_eval_ops ops = {};
			ops.eval_var = x_var; ops.eval_pre_op = x_pre; ops.eval_post_op = x_post; ops.eval_bin_op = x_bin; ops.eval_parenthesis = x_par; ops.eval_free = x_free;
			void *res = NULL;
			if (ec_node_expr_eval(&res, n_, p, &ops, NULL) < 0) return false;
			out = std::to_string(((XV *)res)->v); ec_free(res);
			return true; }
		case 10: { struct ec_comp *q = lib_complete(n_, part); if (!q) return false; out = show_comp(q, none); ec_comp_free(q); return true; }
		}
		return true;
	}
	void cleanup() override { ec_pnode_free(p); ec_node_free(n_); p = NULL; n_ = NULL; }
};
static std::unique_ptr<Prog> mk_expr(Rng &r) { return std::unique_ptr<Prog>(new ExprProg(r)); }
static ProgReg reg_x("expr", mk_expr, 1);

// ---- file names ---------------------------------------------------------------
struct FileProg : Prog {
	struct ec_node *n_ = NULL; str d, in;
	explicit FileProg(Rng &r)
	{
		d = scratch_dir() + "/oomdir";
		mkdir(d.c_str(), 0700); mkdir((d + "/sub").c_str(), 0700); mkdir((d + "/.hid").c_str(), 0700);
		for (auto f : {"/subfile", "/other", "/.hidden", "/sub/x"}) { int fd = open((d + f).c_str(), O_CREAT | O_WRONLY, 0600); if (fd >= 0) close(fd); }
		if (symlink("sub", (d + "/lnk").c_str()) < 0) {}
		in = d + r.pick(vec<str>{"/", "/s", "/sub/", "/zz", "/.", "/lnk", "/nosuch/x", "/lnk/"});
		if (r.chance(1, 6)) in = "";
	}
	str show() override { return "complete file '" + in + "'"; }
	size_t n() override { return 2; }
	bool step(size_t i, str &out) override
	{
		if (i == 0) { n_ = ec_node("file", "f"); return n_ != NULL; }
		Built none;
		struct ec_comp *c = lib_complete(n_, Toks{Tok{in, {}}});
		if (!c) return false;
		out = show_comp(c, none); ec_comp_free(c);
		return true;
	}
	void cleanup() override { ec_node_free(n_); n_ = NULL; }
};
static std::unique_ptr<Prog> mk_file(Rng &r) { return std::unique_ptr<Prog>(new FileProg(r)); }
static ProgReg reg_f("file", mk_file, 1);

// ---- YAML ---------------------------------------------------------------------
struct YamlProg : Prog {
	struct ec_node *n_ = NULL; str path, text;
	explicit YamlProg(Rng &r)
	{
		path = scratch_dir() + "/oom.yaml";
		static const vec<str> docs = {
			"type: str\nstring: a\nhelp: some help\n",
			"type: seq\nid: s\nattrs: {k: v, l: w}\nchildren:\n  - &x {type: str, string: a}\n  - *x\n  - {type: int, min: 1, max: 0x10, base: 10}\n",
			"type: re_lex\npatterns:\n - {pattern: '[a-z]+', keep: true, attr: w}\n - {pattern: ' +', keep: false}\nchild: {type: any, attr: w}\n",
			"type: option\nchild: {type: or, children: [{type: many, min: 1, max: 2, child: {type: uint, max: 3}}, {type: option, child: {type: str, string: b}}]}\n",
			"type: cmd\nexpr: foo x [y]\nchildren:\n - {type: int, id: x}\n - {type: any, id: y}\n",
			"type: cond\nexpr: cmp(eq, 1, 1)\nchild: {type: once, child: {type: str, string: a}}\n",
			"&loop\ntype: or\nchildren:\n - {type: str, string: a}\n - {type: seq, children: [{type: str, string: b}, *loop]}\n" };
		text = r.pick(docs);
		int fd = open(path.c_str(), O_WRONLY | O_CREAT | O_TRUNC, 0600);
		HCHECK(fd >= 0 && write(fd, text.data(), text.size()) == (ssize_t)text.size());
		close(fd);
	}
	str show() override { return "import " + esc(text); }
	size_t n() override { return 2; }
	bool step(size_t i, str &out) override
	{
		Built none;
		if (i == 0) {
			int save = dup(2), nul = open("/dev/null", O_WRONLY);
			fflush(stderr); dup2(nul, 2); close(nul);
			n_ = ec_yaml_import(path.c_str());
			fflush(stderr); dup2(save, 2); close(save);
			if (!n_) return false;
			FaultPause fp;
			out = slurp_stream([&](FILE *f) { if (ec_node_get_config(n_)) fprintf(f, "config %zu", ec_config_count(ec_node_get_config(n_))); fprintf(f, " %s %s", ec_node_get_type_name(n_), ec_node_id(n_)); const char *h = (const char *)ec_dict_get(ec_node_attrs(n_), "help"); fprintf(f, " %s %zu", h ? h : "-", ec_dict_len(ec_node_attrs(n_))); });
			return true;
		}
		struct ec_comp *c = lib_complete(n_, Toks{Tok{"", {}}});
		if (!c) return false;
		out = show_comp(c, none); ec_comp_free(c);
		return true;
	}
	void cleanup() override { ec_node_free(n_); n_ = NULL; }
};
static std::unique_ptr<Prog> mk_yaml(Rng &r) { return std::unique_ptr<Prog>(new YamlProg(r)); }
static ProgReg reg_y("yaml", mk_yaml, 1);

// ---- interactive layer --------------------------------------------------------
struct EditProg : Prog {
	struct ec_editline *e = NULL; struct ec_node *g = NULL; FILE *in = NULL, *out_ = NULL, *err = NULL; int ifd = -1, ofd = -1; str line, hist; unsigned fl; size_t cur;
	explicit EditProg(Rng &r)
	{
		setenv("TERM", "dumb", 1);
		line = r.pick(vec<str>{"", "show", "show ", "sh", "show foo", "show fo", "show foo ", "show 1", "zz", "show zz ", "set \"fo"});
		cur = r.chance(1, 3) ? r.below(line.size() + 1) : line.size();
		hist = r.coin() ? scratch_dir() + "/oomhist" : "";
		fl = r.coin() ? 0 : EC_EDITLINE_DISABLE_HISTORY;
	}
	str show() override { return "editline on '" + line + "' cursor " + std::to_string(cur) + (hist.empty() ? "" : " history file") + " flags " + std::to_string(fl); }
	size_t n() override { return 12; }
	bool put()
	{
		FaultPause fp;
		EditLine *el = ec_editline_get_el(e);
		const LineInfo *li = el_line(el);
		el_cursor(el, (int)(li->lastchar - li->cursor)); li = el_line(el);
		el_deletestr(el, (int)(li->lastchar - li->buffer));
		if (!line.empty()) el_insertstr(el, line.c_str());
		el_cursor(el, -(int)(line.size() - cur));
		return true;
	}
	str shown()
	{
		FaultPause fp;
		fflush(out_);
		str o; char b[512]; ssize_t k; off_t p = 0;
		while ((k = pread(ofd, b, sizeof b, p)) > 0) { o.append(b, (size_t)k); p += k; }
		if (ftruncate(ofd, 0) < 0) {}
		lseek(ofd, 0, SEEK_SET); lseek(fileno(out_), 0, SEEK_SET);
		return o;
	}
	str helps(struct ec_editline_help *h, ssize_t k) { str o; for (ssize_t i = 0; i < k; i++) o += str(h[i].desc ? h[i].desc : "(null)") + "=" + (h[i].help ? h[i].help : "(null)") + ";"; ec_editline_free_helps(h, (size_t)k); return o; }
	bool step(size_t i, str &out) override
	{
		switch (i) {
		case 0: {
			struct ec_node *s = ec_node_str("a", "foo");
			if (!s) return false;
			char *h = (char *)ec_strdup("the foo");
			if (!h) { ec_node_free(s); return false; }
			if (ec_dict_set(ec_node_attrs(s), "help", h, ec_free_func) < 0) { ec_node_free(s); return false; }
			struct ec_node *alt = EC_NODE_OR("o", s, ec_node_str("b", "foobar"), ec_node_int("i", 0, 9, 10));
			struct ec_node *seq = EC_NODE_SEQ("s", EC_NODE_OR("k", ec_node_str("c", "show"), ec_node_str("d", "set")), ec_node_option("p", alt));
			g = ec_node_sh_lex("l", seq);
			return g != NULL; }
		case 1: {
			{
				FaultPause fp;
				if (!in) {
					ifd = memfd_create("i", 0); ofd = memfd_create("o", 0);
					in = fdopen(dup(ifd), "r"); out_ = fdopen(dup(ofd), "w"); err = fopen("/dev/null", "w");
					str t = line + "\nsecond line\n";
					HCHECK(pwrite(ifd, t.data(), t.size(), 0) == (ssize_t)t.size());
				}
			}
			e = ec_editline("t", in, out_, err, fl);
			return e != NULL; }
		case 2: ec_editline_set_node(e, g); return ec_editline_set_history(e, 5, hist.empty() ? NULL : hist.c_str()) == 0;
		case 3: return ec_editline_set_prompt(e, "$ ") == 0 && ec_editline_set_prompt_esc(e, "# ", '\1') == 0;
		case 4: { put(); char *l = ec_editline_curline(e, true); if (!l) return false; out = l; ec_free(l); return true; }
		case 5: { struct ec_editline_help *h = NULL; ssize_t k = ec_editline_get_helps(e, line.substr(0, cur).c_str(), line.c_str(), &h); if (k < 0) return false; out = helps(h, k); return true; }
		case 6: { put(); struct ec_editline_help *h = NULL; char *full = NULL; int pos = -1; ssize_t k = ec_editline_get_suggestions(e, &h, &full, &pos); if (k < 0) { ec_free(full); return false; } out = helps(h, k) + "/" + (full ? full : "(null)") + "/" + std::to_string(pos); ec_free(full); return true; }
		case 7: case 8: {
			put(); shown();
			int rc = ec_editline_complete(ec_editline_get_el(e), i == 7 ? '?' : '\t');
			str s = shown();
			FaultPause fp;
			const LineInfo *li = el_line(ec_editline_get_el(e));
			str l(li->buffer, (size_t)(li->lastchar - li->buffer));
			if (rc == CC_ERROR || rc < 0) return false;
			out = l + "|" + s;
			return true; }
		case 9: {
			struct ec_comp *c = ec_complete(g, line.c_str());
			if (!c) return false;
			char **m = NULL; ssize_t k = ec_editline_get_completions(c, &m);
			if (k < 0) { ec_comp_free(c); return false; }
			for (ssize_t j = 0; j < k; j++) out += str(m[j]) + ",";
			ec_editline_free_completions(m, (size_t)k);
			char *a = ec_editline_append_chars(c);
			if (!a && k > 0) { ec_comp_free(c); return false; }
			out += a ? a : "(none)"; ec_free(a); ec_comp_free(c);
			return true; }
		case 10: {
			// a line lost to a failure is not read again: the retry reads the same text
			if (lseek(ifd, 0, SEEK_SET) < 0) {}
			char *l = ec_editline_gets(e);
			if (!l) return false;
			out = l; ec_free(l);
			return true; }
		case 11: {
			if (lseek(ifd, 0, SEEK_SET) < 0) {}
			struct ec_pnode *p = ec_editline_parse(e, g);
			if (!p) return false;
			out = std::to_string(ec_pnode_matches(p)); ec_pnode_free(p);
			return true; }
		}
		return true;
	}
	void cleanup() override
	{
		ec_editline_free(e); ec_node_free(g); e = NULL; g = NULL;
		if (in) { fclose(in); fclose(out_); fclose(err); close(ifd); close(ofd); in = out_ = err = NULL; ifd = ofd = -1; }
		if (!hist.empty()) unlink(hist.c_str());
	}
};
static std::unique_ptr<Prog> mk_edit(Rng &r) { return std::unique_ptr<Prog>(new EditProg(r)); }
static ProgReg reg_e("editline", mk_edit, 1);
