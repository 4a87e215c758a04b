// C21: file name completion against the directory, inside a scratch directory.
#include "checks.h"
#include <sys/stat.h>
#include <dirent.h>
#include <unistd.h>
#include <fcntl.h>

static const vec<str> &names()
{
	static const vec<str> n = { "foo", "foobar", "fo", "f o", " lead", "a'b", "a\"q", ".hid", ".hdir", "..x", "...", "-x", "é", "dir1", "dir2", "d", "bar", "x#y", "back\\s", "tab\tx", "new\nl", "%s%n", "~", "*", str(120, 'L'), str(255, 'M') };
	return n;
}
struct Ent { str name; bool dir; };
static vec<Ent> list_dir(const str &d)
{
	vec<Ent> o;
	DIR *p = opendir(d.c_str());
	if (!p) return o;
	while (struct dirent *e = readdir(p)) {
		struct stat st;
		if (fstatat(dirfd(p), e->d_name, &st, AT_SYMLINK_NOFOLLOW) < 0) continue;
		o.push_back(Ent{e->d_name, S_ISDIR(st.st_mode)});
	}
	closedir(p);
	return o;
}
static void wipe(const str &d)
{
	for (auto &e : list_dir(d)) {
		if (e.name == "." || e.name == "..") continue;
		str p = d + "/" + e.name;
		if (e.dir) wipe(p); else unlink(p.c_str());
	}
	rmdir(d.c_str());
}
static str mk_tree(Rng &r, const str &d, int depth)
{
	str log;
	int n = r.range(0, 8);
	for (int i = 0; i < n; i++) {
		str nm = r.pick(names()), p = d + "/" + nm;
		if (p.size() > 2000) continue;
		int k = r.range(0, 9);
		int rc;
		if (k < 4) { int fd = open(p.c_str(), O_CREAT | O_EXCL | O_WRONLY, 0600); rc = fd < 0 ? -1 : 0; if (fd >= 0) close(fd); }
		else if (k < 7) { rc = mkdir(p.c_str(), 0700); if (rc == 0 && depth > 0 && r.coin()) { str sub = mk_tree(r, p, depth - 1); log += nm + "/{" + sub + "} "; continue; } }
		else if (k == 7) rc = symlink(r.coin() ? "." : "nowhere", p.c_str());
		else if (k == 8) rc = symlink(r.pick(names()).c_str(), p.c_str());
		else rc = mkfifo(p.c_str(), 0600);
		if (rc == 0) log += nm + (k < 4 ? "" : k < 7 ? "/" : k < 9 ? "@" : "|") + " ";
	}
	if (r.chance(1, 300)) {
		int big = r.range(50, 400);
		for (int i = 0; i < big; i++) {
			str p = d + "/n" + std::to_string(i);
			if (r.chance(1, 4)) HCHECK(mkdir(p.c_str(), 0700) == 0); else { int fd = open(p.c_str(), O_CREAT | O_EXCL | O_WRONLY, 0600); HCHECK(fd >= 0); close(fd); }
		}
		log += "n0..n" + std::to_string(big - 1) + " ";
		ev("directories with many entries");
	}
	return log;
}
// what completing the path must propose
struct Prop { int type; str full, comp, disp; bool operator<(const Prop &o) const { return std::tie(type, full, comp, disp) < std::tie(o.type, o.full, o.comp, o.disp); } bool operator==(const Prop &o) const { return !(*this < o) && !(o < *this); } };
static std::multiset<Prop> expect(const str &input)
{
	std::multiset<Prop> o;
	size_t s = input.rfind('/');
	str dir = s == str::npos ? str("") : input.substr(0, s + 1), base = s == str::npos ? input : input.substr(s + 1);
	struct stat st;
	str eff = dir.empty() ? str(".") : dir;
	if (lstat(eff.c_str(), &st) < 0 || !S_ISDIR(st.st_mode)) return o;
	for (auto &e : list_dir(eff)) {
		if (e.name.compare(0, base.size(), base) != 0) continue;
		if (e.name[0] == '.' && base[0] != '.') continue;
		str nm = e.name + (e.dir ? "/" : "");
		o.insert(Prop{e.dir ? EC_COMP_PARTIAL : EC_COMP_FULL, dir + nm, nm.substr(base.size()), nm});
	}
	return o;
}
static str show(const std::multiset<Prop> &m) { str o; for (auto &x : m) o += (x.type == EC_COMP_PARTIAL ? "P<" : "F<") + esc(x.full) + "|" + esc(x.comp) + "|" + esc(x.disp) + "> "; return o; }

SCENARIO(file, "random directory trees (files, directories, links to directories/files/nothing, fifos; hidden, quoted, blank, non-ASCII and very long names) in a scratch directory; paths typed relative, absolute, through links, with ./ ../ //, in missing or non-directories; directory entry types withheld, directory open/read failures injected; proposals compared with an independent listing; non-trivial = at least one proposal")
{
	(void)idx;
	LeakCheck lk;
	static str top = scratch_dir() + "/files";
	wipe(top);
	HCHECK(mkdir(top.c_str(), 0700) == 0 && chdir(top.c_str()) == 0);
	str log = mk_tree(r, top, 2);
	struct ec_node *file = ec_node("file", "f");
	struct ec_node *alt = EC_NODE_OR("o", ec_node_clone(file), ec_node_str("w", "foo"), ec_node_str("w2", "nodir/word"));
	struct ec_node *seq = EC_NODE_SEQ("s", ec_node_str("cat", "cat"), ec_node_many("m", ec_node_clone(file), 0, 0));
	struct ec_node *sh = ec_node_sh_lex("l", ec_node_clone(seq));
	LCHECK(file && alt && seq && sh);
	Built b; b.idx[file] = 0;
	g_dirfault = DirFault();
	vec<str> subdirs = {"", "./", "../files/", top + "/", "//", "nodir/", "./././"};
	subdirs[4] = "dir1//";
	for (auto &e : list_dir(top)) if (e.name != "." && e.name != "..") subdirs.push_back(e.name + "/");
	int n = thorough() ? 24 : 12;
	for (int i = 0; i < n; i++) {
		str d = r.pick(subdirs);
		if (r.chance(1, 4)) { auto l = list_dir(d.empty() ? "." : d); if (!l.empty()) d += r.pick(l).name + "/"; }
		str in = d;
		auto here = list_dir(d.empty() ? "." : d);
		int k = r.range(0, 6);
		if (k == 0) {} else if (k <= 3 && !here.empty()) { const str &nm = r.pick(here).name; in += nm.substr(0, r.below(nm.size() + 1)); }
		else if (k == 4) in += r.pick(vec<str>{".", "..", "...", "/", "f", "zz", "-"});
		else in += r.pick(names()).substr(0, 2);
		if (r.chance(1, 60)) in = str(r.range(200, 6000), 'a') + (r.coin() ? "/b" : "");
		g_dirfault = DirFault();
		int mode = r.range(0, 11);
		g_dirfault.no_type = mode >= 8;
		if (mode == 6) g_dirfault.open_err = r.pick(vec<int>{EACCES, EMFILE, ENOENT, ENOMEM});
		if (mode == 7) g_dirfault.read_fail_at = r.range(1, 6);
		if (mode == 11) g_dirfault.stat_fail_at = r.range(1, 4);   // an entry vanishes while it is looked at
		std::multiset<Prop> want = expect(in), got;
		if (g_dirfault.open_err) want.clear();
		int ctx = r.range(0, 3);
		struct ec_strvec *v = ec_strvec();
		const struct ec_node *root = file; char quote = 0;
		if (ctx == 1) root = alt;
		if (ctx >= 2) { root = seq; ec_strvec_add(v, "cat"); int m = r.range(0, 2); for (int j = 0; j < m; j++) ec_strvec_add(v, "whatever"); }
		ec_strvec_add(v, in.c_str());
		if (ctx == 3 && in.find_first_of(" \t\n'\"\\#") == str::npos && !in.empty()) {
			root = sh; ec_strvec_free(v); v = ec_strvec();
			if (r.coin()) quote = r.coin() ? '\'' : '"';
			ec_strvec_add(v, ("cat " + (quote ? str(1, quote) : str("")) + in).c_str());
		}
		describe("tree { %s} | ctx %d quote %c, mode %d: complete '%s'", esc(log).c_str(), ctx, quote ? quote : '-', mode, esc(in).c_str());
		struct ec_comp *c = ec_complete_strvec(root, v);
		ec_strvec_free(v);
		uint64_t hit = g_dirfault.hit;
		str gone = g_dirfault.stat_name;
		g_dirfault = DirFault();
		ev(hit ? "completions with an injected directory failure" : "completions compared with the directory");
		if (mode == 7 && hit) {
			// what was read before the failure is not passed off as the content
			for (const struct ec_comp_item *x = c ? ec_comp_iter_first(c, EC_COMP_ALL) : NULL; x; x = ec_comp_iter_next((struct ec_comp_item *)x, EC_COMP_ALL))
				if (ec_comp_item_get_node(x) == file) { violate("C21", "unreadable", "entries of a directory that cannot be read were proposed"); break; }
			ec_comp_free(c);
			continue;
		}
		if (!gone.empty()) {
			ev("entries that vanish during the completion");
			for (auto it = want.begin(); it != want.end();) if (it->disp == gone || it->disp == gone + "/") it = want.erase(it); else ++it;
		}
		if (!c) { violate("C21", "error", "completion failed: %s", strerror(errno)); end_case(); }
		size_t others = 0;
		PropAs as({"C21"});
		for (auto &x : read_comp(c, b, true)) {
			if (x.nd != file) { others++; continue; }
			if (x.type == EC_COMP_UNKNOWN) { violate("C21", "type", "file node proposed an item without text"); continue; }
			str full = x.full, comp = x.completion;
			if (quote && x.type == EC_COMP_FULL) {
				EXPECT("C21", "quote", full.size() >= 2 && full[0] == quote && full.back() == quote && !comp.empty() && comp.back() == quote, "item <%s> in an open quote is not closed by its completion <%s>", esc(full).c_str(), esc(comp).c_str());
				full = full.substr(1, full.size() - 2); comp.pop_back();
			}
			got.insert(Prop{x.type, full, comp, x.display});
		}
		EXPECT("C21", "items", got == want, "proposed %s; the directory holds %s", show(got).c_str(), show(want).c_str());
		size_t wo = ctx == 1 ? (str("foo").compare(0, in.size(), in) == 0) + (str("nodir/word").compare(0, in.size(), in) == 0) : 0;
		EXPECT("C21", "others", others == wo, "%zu proposals of the other nodes, expected %zu", others, wo);
		ec_comp_free(c);
		if (want.empty()) ev("paths with nothing to propose"); else nontrivial(fnv(log + in));
		for (auto &x : want) { ev(x.type == EC_COMP_PARTIAL ? "directories proposed" : "files proposed"); if (x.disp[0] == '.') ev("hidden entries proposed"); }
		// any single word is a path
		struct ec_pnode *p = ec_parse(file, in.c_str());
		EXPECT("C21", "parse", p && ec_pnode_matches(p) && ec_pnode_len(p) == 1, "file node does not match a word");
		ec_pnode_free(p);
	}
	struct ec_strvec *e = ec_strvec();
	struct ec_pnode *p = ec_parse_strvec(file, e);
	EXPECT("C21", "parse", p && !ec_pnode_matches(p), "file node matches nothing");
	ec_pnode_free(p);
	struct ec_comp *c = ec_complete_strvec(file, e);
	EXPECT("C21", "empty", c && ec_comp_count(c, EC_COMP_ALL) == 0, "proposals for no word");
	ec_comp_free(c); ec_strvec_free(e);
	sample(current_desc());
	ec_node_free(file); ec_node_free(alt); ec_node_free(seq); ec_node_free(sh);
	HCHECK(chdir("/") == 0);
	wipe(top);
	lk.check("C02", "file nodes");
	lk.check("C21", "file nodes");
}
