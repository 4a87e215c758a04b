// C23: the interactive layer. An ec_editline is driven over memory-backed streams (lines read with
// gets/parse, edit buffer set through libedit) or over a pseudo terminal (typed keys), under random
// histories of settings; every helper is compared with the completion engine and the grammar.
#include "checks.h"
#include <histedit.h>
#include <unistd.h>
#include <fcntl.h>
#include <termios.h>
#include <pty.h>
#include <sys/mman.h>
#include <sys/stat.h>

// The screen of a terminal session is a memory file that never fills up (a full pseudo terminal
// would block the library's write); libedit is told that this one descriptor is a terminal.
static int screen_fd = -1;
extern "C" int isatty(int fd) throw()
{
	if (fd >= 0 && fd == screen_fd) return 1;
	struct termios t;
	return tcgetattr(fd, &t) == 0;
}

namespace {
struct Streams {
	FILE *in = NULL, *out = NULL, *err = NULL; int wfd = -1, ofd = -1; bool tty = false; off_t seen = 0; str typed;
	bool open_mem()
	{
		int i = memfd_create("in", 0), o = memfd_create("out", 0);
		if (i < 0 || o < 0) return false;
		wfd = i; ofd = o;
		in = fdopen(dup(i), "r"); out = fdopen(dup(o), "w"); err = fopen("/dev/null", "w");
		lseek(i, 0, SEEK_SET);
		return in && out && err;
	}
	bool open_pty()
	{
		int s;
		if (openpty(&wfd, &s, NULL, NULL, NULL) < 0) return false;
		struct termios t;
		tcgetattr(s, &t); cfmakeraw(&t); tcsetattr(s, TCSANOW, &t);
		fcntl(wfd, F_SETFL, O_NONBLOCK);
		// keys come from the terminal; the screen is a file, which never fills up
		ofd = memfd_create("out", 0);
		in = fdopen(s, "r"); out = fdopen(dup(ofd), "w"); err = fopen("/dev/null", "w");
		tty = true;
		if (out) screen_fd = fileno(out);
		return ofd >= 0 && in && out && err;
	}
	// make bytes available to the reader
	void feed(const str &s)
	{
		if (tty) { HCHECK(write(wfd, s.data(), s.size()) == (ssize_t)s.size()); return; }
		// the descriptor shares its offset with the reader: append without moving it
		struct stat st; fstat(wfd, &st);
		HCHECK(pwrite(wfd, s.data(), s.size(), st.st_size) == (ssize_t)s.size());
	}
	str drain()
	{
		fflush(out);
		str o; char b[4096]; ssize_t n;
		if (tty) while (read(wfd, b, sizeof b) > 0) ;    // an echo, if any
		while ((n = pread(ofd, b, sizeof b, seen)) > 0) { o.append(b, (size_t)n); seen += n; }
		return o;
	}
	~Streams()
	{
		screen_fd = -1;
		if (in) fclose(in);
		if (out) fclose(out);
		if (err) fclose(err);
		if (wfd >= 0) close(wfd);
		if (ofd >= 0) close(ofd);
	}
};

str node_desc(const Gram &g, int n)
{
	if (n < 0) return "?";
	if (g.n[n].t == T_STR) return g.n[n].s;
	return str("<") + nt_name[g.n[n].t] + ">";
}

std::multiset<str> words(const str &s)
{
	std::multiset<str> w; str cur;
	for (char c : s) { if (isspace((unsigned char)c)) { if (!cur.empty()) w.insert(cur); cur.clear(); } else cur += c; }
	if (!cur.empty()) w.insert(cur);
	return w;
}

struct Ref {
	bool ok = false;                // completion engine gave a list
	vec<str> disp;                  // candidates
	str common; bool any = false;   // longest common text to append
	size_t nfp = 0, all = 0;
	bool partial1 = false;
	std::multiset<std::pair<str, str>> helps;
};

Ref ref_for(const Gram &g, const Built &b, const str &line)
{
	Ref R;
	struct ec_comp *c = ec_complete(b.root, line.c_str());
	if (!c) return R;
	R.ok = true;
	R.all = ec_comp_count(c, EC_COMP_ALL);
	std::set<const struct ec_comp_group *> seen;
	for (struct ec_comp_item *i = ec_comp_iter_first(c, EC_COMP_ALL); i; i = ec_comp_iter_next(i, EC_COMP_ALL)) {
		int ty = ec_comp_item_get_type(i);
		if (ty != EC_COMP_UNKNOWN) {
			R.nfp++;
			R.disp.push_back(ec_comp_item_get_display(i));
			str m = ec_comp_item_get_completion(i);
			if (!R.any) { R.common = m; R.any = true; }
			else { size_t k = 0; while (k < R.common.size() && k < m.size() && R.common[k] == m[k]) k++; R.common.resize(k); }
			if (ty == EC_COMP_PARTIAL) R.partial1 = true;
		}
		const struct ec_comp_group *gr = ec_comp_item_get_grp(i);
		if (!seen.insert(gr).second) continue;
		str help, desc;
		bool first = true;
		for (const struct ec_pnode *p = ec_comp_group_get_pstate(gr); p; p = ec_pnode_get_parent(p)) {
			auto it = b.idx.find(ec_pnode_get_node(p));
			int n = it == b.idx.end() ? -1 : it->second;
			if (first) { desc = node_desc(g, n); first = false; }
			if (n >= 0 && !g.n[n].help.empty()) { help = g.n[n].help; break; }
		}
		R.helps.insert({desc, help});
	}
	ec_comp_free(c);
	return R;
}

std::multiset<std::pair<str, str>> with_return(const Ref &R, bool match)
{
	auto h = R.helps;
	if (match) h.insert({"<return>", "Validate command."});
	return h;
}
str show_helps(const std::multiset<std::pair<str, str>> &h) { str o; for (auto &x : h) o += "(" + esc(x.first) + ": " + esc(x.second) + ") "; return o; }

bool lib_match(const Built &b, const str &line)
{
	struct ec_pnode *p = ec_parse(b.root, line.c_str());
	if (!p) skip_case("parse-error");
	bool m = ec_pnode_matches(p);
	ec_pnode_free(p);
	return m;
}

void check_helps(const char *what, struct ec_editline_help *h, ssize_t n, const std::multiset<std::pair<str, str>> &want, bool match)
{
	EXPECT("C23", "helps", n >= 0, "%s failed: %s", what, strerror(errno));
	std::multiset<std::pair<str, str>> got;
	for (ssize_t i = 0; i < n; i++) {
		EXPECT("C23", "helps", h[i].desc && h[i].help, "%s: entry %zd is incomplete", what, i);
		got.insert({h[i].desc, h[i].help});
	}
	EXPECT("C23", "helps", got == want, "%s gave %s; expected %s", what, show_helps(got).c_str(), show_helps(want).c_str());
	if (match) EXPECT("C23", "helps", n > 0 && !strcmp(h[0].desc, "<return>"), "%s: validation is not the first entry", what);
}

// sets the edit buffer of libedit
bool set_buffer(EditLine *el, const str &line, size_t cur)
{
	const LineInfo *li = el_line(el);
	el_cursor(el, (int)(li->lastchar - li->cursor));
	li = el_line(el);
	el_deletestr(el, (int)(li->lastchar - li->buffer));
	if (!line.empty() && el_insertstr(el, line.c_str()) < 0) return false;
	el_cursor(el, -(int)(line.size() - cur));
	li = el_line(el);
	return str(li->buffer, (size_t)(li->lastchar - li->buffer)) == line && (size_t)(li->cursor - li->buffer) == cur;
}
str buffer(EditLine *el, size_t &cur)
{
	const LineInfo *li = el_line(el);
	cur = (size_t)(li->cursor - li->buffer);
	return str(li->buffer, (size_t)(li->lastchar - li->buffer));
}

str quote(Rng &r, const str &w)
{
	bool plain = !w.empty();
	for (char c : w) if (!isalnum((unsigned char)c) && !strchr("_-./<>:,", c)) plain = false;
	if (plain && r.chance(7, 8)) return w;
	if (w.find('\'') == str::npos && r.coin()) return "'" + w + "'";
	str o = "\"";
	for (char c : w) { if (c == '"' || c == '\\') o += '\\'; o += c; }
	return o + "\"";
}

str gen_line(Rng &r, const Gram &inner, const GenOpt &o, bool tabs = false)
{
	tabs = tabs && r.chance(1, 3);
	if (r.chance(1, 12)) return "";
	Toks t = r.coin() ? gen_input(r, inner, o) : gen_partial(r, inner, o);
	str s;
	for (size_t i = 0; i < t.size(); i++) {
		if (i) s += tabs && r.coin() ? r.pick(vec<str>{"\t", " \t", "\t "}) : r.chance(1, 10) ? "  " : " ";
		str w;
		for (char c : t[i].s) if ((unsigned char)c >= 32 && (unsigned char)c < 127) w += c;
		bool last = i + 1 == t.size();
		if (last && w.empty()) break;
		str q = quote(r, w);
		if (last && r.chance(1, 8) && q.size() > 1 && (q[0] == '"' || q[0] == '\'')) q.pop_back();
		s += q;
	}
	if (r.chance(1, 4)) s += tabs && r.coin() ? "\t" : " ";
	if (r.chance(1, 12)) s = " " + s;
	if (r.chance(1, 15)) s += r.pick(vec<str>{" #note", "\"", "'", " zz", "\\"});
	if (s.size() > 600) s.resize(600);
	return s;
}

struct Case {
	Rng &r; Gram g, inner; GenOpt o; Built b; str log;
	explicit Case(Rng &rr) : r(rr) {}
	void note(const str &s) { log += " " + s; describe("%s", log.c_str()); }
	bool make()
	{
		o.max_nodes = r.range(3, 12); o.max_depth = r.range(2, 5);
		o.lexers = false; o.cycles = r.chance(1, 3); o.file = false;
		if (r.chance(1, 3)) { static const vec<str> w = {"a", "ab", "abc", "abd"}; o.words = w; }
		// libedit runs in the C locale here: printable ASCII only
		if (o.words.empty()) for (auto &w : default_words()) { bool ok = true; for (char c : w) if ((unsigned char)c < 32 || (unsigned char)c > 126 || c == '?') ok = false; if (ok) o.words.push_back(w); }
		inner = gen_gram(r, o);
		for (auto &x : inner.n) {
			if (r.chance(1, 3)) x.help = r.pick(vec<str>{"some help", "Help.", "a b c", "%s %d", "help for this very long description that goes on"});
		}
		g = inner;
		if (r.chance(9, 10)) {
			GN s; s.t = T_SH_LEX; s.id = "line"; s.ch = {g.root};
			if (r.chance(1, 4)) s.help = "the line";
			g.root = g.add(s);
		}
		log = g.show();
		describe("%s", log.c_str());
		return build(g, r, b);
	}
	Toks line_toks(const str &s) { return Toks{Tok{s, {}}}; }
	str model_tree(const str &line)
	{
		Model m(g); m.budget = 20000;
		std::unique_ptr<MP> t;
		m.parse(g.root, line_toks(line), t);
		return ser(t.get());
	}
	// cheap refusal of inputs whose completion explodes
	void cost(const str &line) { Model m(g); m.budget = 3000; m.complete(g.root, line_toks(line)); if (m.items.size() > 300) skip_case("too-many-items"); }
};

void check_list_api(Case &C, const str &line, const Ref &R)
{
	struct ec_comp *c = ec_complete(C.b.root, line.c_str());
	LCHECK(c);
	char **mt = (char **)1;
	ssize_t n = ec_editline_get_completions(c, &mt);
	vec<str> got;
	for (ssize_t i = 0; i < n; i++) got.push_back(mt[i]);
	EXPECT("C23", "candidates", n == (ssize_t)R.disp.size() && got == R.disp, "%zd candidates listed, the completion engine has %zu (or others)", n, R.disp.size());
	if (n >= 0) ec_editline_free_completions(mt, (size_t)n);
	char *ap = ec_editline_append_chars(c);
	EXPECT("C23", "common", (ap != NULL) == R.any && (!ap || R.common == ap), "would append '%s'; common to all candidates is '%s'", ap ? ap : "(none)", R.common.c_str());
	ec_free(ap);
	ec_comp_free(c);
	ev("candidate lists compared");
	if (R.nfp > 1) ev("candidate lists with several candidates");
	if (R.nfp > 1 && !R.common.empty()) ev("candidate lists with a common extension");
}

str hist_size_path(const str &d, int k) { return d + "/hist" + std::to_string(k); }
str read_file(const str &p)
{
	FILE *f = fopen(p.c_str(), "r"); if (!f) return "(none)";
	str s; char b[4096]; size_t n;
	while ((n = fread(b, 1, sizeof b, f)) > 0) s.append(b, n);
	fclose(f);
	return s;
}

// reference history: libedit's own, driven beside the one of the library
struct HistRef {
	History *h = NULL; HistEvent ev; str file, mirror;
	void set(size_t size, const str &f, const str &m)
	{
		if (h) history_end(h);
		h = NULL; file = f; mirror = m;
		if (!size) { file.clear(); return; }
		h = history_init();
		history(h, &ev, H_SETSIZE, (int)size);
		history(h, &ev, H_SETUNIQUE, 1);
		if (!file.empty()) history(h, &ev, H_LOAD, mirror.c_str());
	}
	void enter(const str &l)
	{
		if (!h) return;
		bool blank = true;
		for (char c : l) if (!isspace((unsigned char)c)) blank = false;
		if (blank) return;
		history(h, &ev, H_ENTER, l.c_str());
		if (!file.empty()) history(h, &ev, H_SAVE, mirror.c_str());
	}
	~HistRef() { if (h) history_end(h); }
};

void complete_key(Case &C, struct ec_editline *e, Streams &st, const str &line, size_t cur, char key)
{
	EditLine *el = ec_editline_get_el(e);
	if (!set_buffer(el, line, cur)) skip_case("line-not-accepted-by-libedit");
	str head = line.substr(0, cur);
	Ref R = ref_for(C.g, C.b, head);
	if (!R.ok) skip_case("completion-error");
	bool match = lib_match(C.b, line);
	st.drain();
	int rc = ec_editline_complete(el, key);
	str out = st.drain();
	size_t c2; str l2 = buffer(el, c2);
	EXPECT("C23", "key", rc != CC_ERROR, "completion key reported an error");
	if (key == '?') {
		EXPECT("C23", "key", l2 == line && c2 == cur, "asking for help changed the line to '%s'", l2.c_str());
		str all;
		for (auto &h : with_return(R, match)) all += h.first + " " + h.second + "\n";
		EXPECT("C23", "shown-help", words(out) == words(all), "help shows '%s'; expected '%s'", esc(out).c_str(), esc(all).c_str());
		ev("help keys");
	} else if (!R.any || R.common.empty()) {
		EXPECT("C23", "key", l2 == line && c2 == cur, "nothing to append but the line became '%s'", l2.c_str());
		str all; for (auto &d : R.disp) all += d + "\n";
		EXPECT("C23", "shown-candidates", words(out) == words(all), "shows '%s'; candidates are '%s'", esc(out).c_str(), esc(all).c_str());
		ev("completion keys that list");
	} else {
		str add = R.common + (R.nfp == 1 ? " " : "");
		bool ok = l2 == head + add + line.substr(cur) && c2 == cur + add.size();
		if (!ok && R.nfp == 1 && R.partial1) ok = l2 == head + R.common + line.substr(cur);
		EXPECT("C23", "inserted", ok, "line became '%s' (cursor %zu); expected '%s'", l2.c_str(), c2, (head + add + line.substr(cur)).c_str());
		ev("completion keys that insert");
	}
	if (R.all) nontrivial(fnv(C.g.show() + "|" + head + key));
}
}

str shell_line(Rng &r, const Gram &inner, const GenOpt &o) { return gen_line(r, inner, o); }

SCENARIO(editline, "random grammar with help texts; an editline over memory streams or a pseudo terminal; random history of lines read, helpers called, completion and help keys, prompt/history settings; non-trivial = the completion engine has at least one proposal at the cursor")
{
	(void)idx;
	setenv("TERM", "dumb", 1);
	LeakCheck lk;
	Case C(r);
	LCHECK(C.make());
	Streams st;
	bool tty = r.chance(1, 4);
	if (tty && !st.open_pty()) { ev("no pseudo terminal available"); tty = false; }
	if (!tty && !st.open_mem()) harness_bug("memfd");
	unsigned fl = 0;
	if (r.chance(1, 4)) fl |= EC_EDITLINE_DISABLE_SIGNALS;
	if (r.chance(1, 4)) fl |= EC_EDITLINE_DISABLE_HISTORY;
	if (r.chance(1, 6)) fl |= EC_EDITLINE_DISABLE_COMPLETION;
	if (r.chance(1, 4)) fl |= EC_EDITLINE_DEFAULT_SIGHANDLER;
	C.note(std::string("| editline flags ") + std::to_string(fl) + (tty ? " tty" : ""));
	if (!tty) fl &= ~(unsigned)EC_EDITLINE_DISABLE_SIGNALS;    // terminal settings need a terminal
	struct ec_editline *e = ec_editline("test", st.in, st.out, st.err, fl);
	if (!e) { violate("C23", "create", "cannot create an editline: %s", strerror(errno)); end_case(); }
	EditLine *el = ec_editline_get_el(e);
	str d = scratch_dir();
	for (int k = 0; k < 4; k++) { unlink(hist_size_path(d, k).c_str()); unlink((hist_size_path(d, k) + ".ref").c_str()); }
	HistRef hr;
	hr.set(fl & EC_EDITLINE_DISABLE_HISTORY ? 0 : EC_EDITLINE_HISTORY_SIZE, "", "");
	int nops = r.range(4, thorough() ? 24 : 14);
	bool eof = false;
	str prompt = "> ";
	for (int k = 0; k < nops; k++) {
		char *(*pf)(EditLine *) = NULL;
		EXPECT("C23", "prompt", el_get(el, EL_PROMPT, &pf) == 0 && pf && prompt == pf(el), "the prompt shown is '%s'; expected '%s'", pf ? pf(el) : "(none)", prompt.c_str());
		int op = r.range(0, 13);
		if (eof && (op <= 3)) op = 4;
		switch (op) {
		case 0: case 1: case 2: case 3: {
			str line = gen_line(r, C.inner, C.o, !tty), fed = line, want = line;
			if (tty) {
				// typed keys, including cursor motion, help and completion
				fed.clear(); want.clear();
				size_t cur = 0;
				bool comp = !(fl & EC_EDITLINE_DISABLE_COMPLETION);
				ec_editline_set_node(e, C.b.root);
				for (size_t i = 0; i <= line.size(); i++) {
					int what = r.range(0, 24);
					if (what == 0) { fed += '\001'; cur = 0; }
					else if (what == 1) { fed += '\005'; cur = want.size(); }
					else if (what == 2 && cur > 0) { fed += '\002'; cur--; }
					else if (what == 3 && cur > 0) { fed += "\010"; want.erase(--cur, 1); }
					else if (what == 4) { fed += '?'; if (!comp) want.insert(cur++, "?"); else C.cost(want); }
					else if (what == 5 && comp) {
						C.cost(want.substr(0, cur));
						Ref R = ref_for(C.g, C.b, want.substr(0, cur));
						if (R.partial1) skip_case("partial-candidate");
						fed += '\t';
						str add = R.any && !R.common.empty() ? R.common + (R.nfp == 1 ? " " : "") : "";
						want.insert(cur, add); cur += add.size();
						ev("keys typed: completion");
					}
					if (i < line.size() && line[i] != '?') { fed += line[i]; want.insert(cur++, 1, line[i]); }
				}
				if (fed.size() > 3000 || want.size() > 900) skip_case("long-line");
				C.note("type '" + esc(fed) + "'");
				fed += "\r";
				ev("lines typed on a terminal");
			} else {
				eof = r.chance(1, 8);
				if (eof && line.empty()) line = want = fed = "x";
				if (!eof) fed += "\n";
				C.note("read '" + esc(fed) + "'");
				ev(eof ? "lines ended by end of file" : "lines read from a stream");
			}
			st.feed(fed);
			if (op == 3) {
				C.cost(want);
				str wt = C.model_tree(want);
				struct ec_pnode *p = ec_editline_parse(e, C.b.root);
				str gt = p ? ser(p, C.b) : str("error");
				EXPECT("C23", "parse-line", gt == wt, "parse of the line read gives %s; expected %s", gt.c_str(), wt.c_str());
				ec_pnode_free(p);
				EXPECT("C23", "node", ec_editline_get_node(e) == C.b.root, "parsing did not attach the node");
				ev("lines parsed");
			} else {
				if (tty) ec_editline_set_node(e, C.b.root);
				char *got = ec_editline_gets(e);
				EXPECT("C23", "line", got && want == got, "returned '%s'; typed '%s'", got ? esc(got).c_str() : "(none)", esc(want).c_str());
				ec_free(got);
			}
			hr.enter(want);
			if (!hr.file.empty()) {
				str a = read_file(hr.file), m = read_file(hr.mirror);
				EXPECT("C23", "history-file", a == m, "history file holds '%s'; expected '%s'", esc(a).c_str(), esc(m).c_str());
				ev("history files compared");
			}
			st.drain();
			nontrivial(fnv(fed + C.g.show()));
			break; }
		case 4: case 5: {
			str line = gen_line(r, C.inner, C.o, true);
			C.cost(line);
			size_t cur = r.chance(2, 3) ? line.size() : r.below(line.size() + 1);
			char key = r.chance(1, 3) ? '?' : '\t';
			C.note(str(key == '?' ? "help" : "complete") + " at " + std::to_string(cur) + " of '" + esc(line) + "'");
			C.cost(line.substr(0, cur));
			ec_editline_set_node(e, C.b.root);
			complete_key(C, e, st, line, cur, key);
			break; }
		case 6: {
			str line = gen_line(r, C.inner, C.o, true);
			size_t cur = r.chance(2, 3) ? line.size() : r.below(line.size() + 1);
			str head = line.substr(0, cur);
			C.cost(head);
			C.note("lists at '" + esc(head) + "'");
			Ref R = ref_for(C.g, C.b, head);
			if (!R.ok) skip_case("completion-error");
			check_list_api(C, head, R);
			ec_editline_set_node(e, C.b.root);
			struct ec_editline_help *h = NULL;
			bool match = lib_match(C.b, line);
			ssize_t n = ec_editline_get_helps(e, head.c_str(), line.c_str(), &h);
			check_helps("contextual help", h, n, with_return(R, match), match);
			st.drain();
			if (n >= 0) {
				EXPECT("C23", "shown-help", ec_editline_print_helps(e, h, (size_t)n) >= 0, "cannot show help");
				str all; for (ssize_t i = 0; i < n; i++) all += str(h[i].desc) + " " + h[i].help + "\n";
				str out = st.drain();
				EXPECT("C23", "shown-help", words(out) == words(all), "help shows '%s'; expected '%s'", esc(out).c_str(), esc(all).c_str());
				ec_editline_free_helps(h, (size_t)n);
			}
			ev("contextual helps compared");
			if (n > 1) ev("contextual helps with several entries");
			if (R.all) nontrivial(fnv(C.g.show() + "|" + head + "L"));
			break; }
		case 7: {
			str line = gen_line(r, C.inner, C.o, true);
			C.note("suggest for '" + esc(line) + "'");
			C.cost(line);
			size_t cur = r.below(line.size() + 1);
			if (!set_buffer(el, line, cur)) skip_case("line-not-accepted-by-libedit");
			ec_editline_set_node(e, C.b.root);
			// longest prefix that is empty or ends in a blank at which the grammar can stop or continue
			bool found = false; str at; bool match = false; Ref R;
			for (size_t n = line.size() + 1; n-- > 0 && !found;) {
				if (n > 0 && !isspace((unsigned char)line[n - 1])) continue;
				at = line.substr(0, n);
				C.cost(at);
				R = ref_for(C.g, C.b, at);
				if (!R.ok) skip_case("completion-error");
				match = lib_match(C.b, at);
				found = match || R.all;
			}
			struct ec_editline_help *h = NULL; char *full = NULL; int pos = -1;
			bool wf = r.chance(3, 4), wp = r.chance(3, 4);
			ssize_t n = ec_editline_get_suggestions(e, &h, wf ? &full : NULL, wp ? &pos : NULL);
			EXPECT("C23", "suggestions", n >= 0, "suggestions failed: %s", strerror(errno));
			if (wf) EXPECT("C23", "suggestions", full && line == full, "full line is '%s'", full ? full : "(none)");
			if (!found) EXPECT("C23", "suggestions", n == 0, "%zd suggestions although nothing can continue", n);
			else {
				if (wp) EXPECT("C23", "suggestions", pos == (int)at.size(), "position %d; the line can be continued from %zu", pos, at.size());
				check_helps("suggestions", h, n, with_return(R, match), match);
			}
			if (n >= 0) ec_editline_free_helps(h, (size_t)n);
			ec_free(full);
			ev("suggestions compared");
			break; }
		case 8: {
			str line = gen_line(r, C.inner, C.o, true);
			size_t cur = r.below(line.size() + 1);
			if (!set_buffer(el, line, cur)) skip_case("line-not-accepted-by-libedit");
			char *a = ec_editline_curline(e, true), *z = ec_editline_curline(e, false);
			EXPECT("C23", "curline", a && line.substr(0, cur) == a, "text before the cursor is '%s' in '%s' at %zu", a ? a : "(none)", line.c_str(), cur);
			EXPECT("C23", "curline", z && line == z, "line is '%s'; buffer holds '%s'", z ? z : "(none)", line.c_str());
			ec_free(a); ec_free(z);
			ev("edit buffers compared");
			break; }
		case 9: case 10: {
			size_t size = r.pick(vec<size_t>{0, 1, 2, 5, 128, 1000});
			int f = r.range(-1, 3);
			str path = f < 0 ? "" : hist_size_path(d, f);
			if (r.chance(1, 12)) { path = d + "/nosuchdir/hist"; }
			C.note("history " + std::to_string(size) + (path.empty() ? "" : " file " + std::to_string(f)));
			int rc = ec_editline_set_history(e, size, path.empty() ? NULL : path.c_str());
			EXPECT("C23", "history", rc == 0, "cannot set the history: %s", strerror(errno));
			hr.set(size, path, path.find("nosuchdir") != str::npos ? path : path + ".ref");
			ev("history settings");
			break; }
		case 11: {
			const char *pr = r.pick(vec<const char *>{"", "> ", "very long prompt $ ", "x", NULL});
			bool esc_ = r.coin();
			C.note(str("prompt ") + (pr ? pr : "(null)"));
			char buf[64]; if (pr) snprintf(buf, sizeof buf, "%s", pr);
			int rc = esc_ ? ec_editline_set_prompt_esc(e, pr ? buf : NULL, '\1') : ec_editline_set_prompt(e, pr ? buf : NULL);
			EXPECT("C23", "prompt", rc == 0, "cannot set the prompt");
			memset(buf, '#', sizeof buf - 1);
			prompt = pr ? pr : "";
			ev("prompt settings");
			break; }
		case 12: {
			vec<str> m; int n = r.range(0, 12);
			for (int i = 0; i < n; i++) m.push_back(r.pick(vec<str>{"a", "B", "abc", "zz", "", "a-very-long-candidate-that-takes-most-of-the-screen-width-of-a-terminal-line-xxxxx", "x y"}));
			vec<const char *> p; str all;
			for (auto &x : m) { p.push_back(x.c_str()); all += x + "\n"; }
			st.drain();
			int rc = ec_editline_print_cols(e, p.data(), p.size());
			str out = st.drain();
			EXPECT("C23", "shown-candidates", rc == 0 && words(out) == words(all), "shows '%s'; candidates are '%s'", esc(out).c_str(), esc(all).c_str());
			ev("candidate tables shown");
			break; }
		case 13: {
			ec_editline_set_node(e, NULL);
			EXPECT("C23", "node", ec_editline_get_node(e) == NULL, "node still attached");
			// keys without a grammar do nothing harmful
			if (set_buffer(el, "a b", 2)) {
				ec_editline_complete(el, r.coin() ? '?' : '\t');
				size_t c; EXPECT("C23", "key", buffer(el, c) == "a b", "completing without grammar changed the line");
				struct ec_editline_help *h = NULL;
				ssize_t n = ec_editline_get_helps(e, "a", "a", &h);
				EXPECT("C23", "helps", n < 0, "help without grammar returned %zd entries", n);
				n = ec_editline_get_suggestions(e, &h, NULL, NULL);
				EXPECT("C23", "suggestions", n < 0, "suggestions without grammar returned %zd entries", n);
			}
			st.drain();
			break; }
		}
	}
	if (r.coin()) { ec_editline_free(e); C.b.free_all(); } else { C.b.free_all(); ec_editline_free(e); }
	sample(current_desc());
	lk.check("C02", "after releasing the editline and the grammar");
	lk.check("C23", "after releasing the editline and the grammar");
}
