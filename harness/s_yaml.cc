// C22: YAML import. A random grammar is written as a YAML document in varied styles, imported, and the
// result compared node by node (type, identifier, configuration, attributes, sharing) and by behaviour
// with the description. Documents made invalid at one place must be refused, arbitrary mutations must
// not crash, leak or leave libyaml or file handles behind.
#include "checks.h"
#include <unistd.h>
#include <fcntl.h>
#include <sys/stat.h>

enum YK { Y_SCALAR, Y_SEQ, Y_MAP, Y_ALIAS };
struct Y {
	YK k = Y_SCALAR; str s, anchor; vec<Y> it; vec<std::pair<Y, Y>> kv; bool node = false;
	static Y sc(const str &s) { Y y; y.s = s; return y; }
	static Y al(const str &s) { Y y; y.k = Y_ALIAS; y.s = s; return y; }
	static Y seq(vec<Y> v = {}) { Y y; y.k = Y_SEQ; y.it = v; return y; }
	static Y map() { Y y; y.k = Y_MAP; return y; }
	void put(const str &k2, const Y &v) { kv.push_back({sc(k2), v}); }
	Y *get(const str &k2) { for (auto &p : kv) if (p.first.k == Y_SCALAR && p.first.s == k2) return &p.second; return NULL; }
	bool drop(const str &k2) { for (size_t i = 0; i < kv.size(); i++) if (kv[i].first.s == k2) { kv.erase(kv.begin() + (long)i); return true; } return false; }
};

// ---- writer -----------------------------------------------------------------
struct YW {
	Rng &r; str o;
	explicit YW(Rng &rr) : r(rr) {}
	static bool plain_ok(const str &s)
	{
		if (s.empty()) return false;
		for (char c : s) if (!isalnum((unsigned char)c) && c != '_') return false;
		return true;
	}
	str scalar(const str &s)
	{
		if (plain_ok(s) && r.chance(3, 4)) return s;
		bool printable = true;
		for (char c : s) if ((unsigned char)c < 0x20 || c == 0x7f) printable = false;
		if (printable && r.coin()) { str q = "'"; for (char c : s) { q += c; if (c == '\'') q += c; } return q + "'"; }
		str q = "\"";
		for (char c : s) {
			unsigned char u = (unsigned char)c;
			if (c == '"' || c == '\\') { q += '\\'; q += c; }
			else if (c == '\n' && r.coin()) q += "\\n";
			else if (c == '\t') q += "\\t";
			else if (u < 0x20 || u == 0x7f) { char b[8]; snprintf(b, sizeof b, "\\x%02x", u); q += b; }
			else q += c;
		}
		return q + "\"";
	}
	str anchor(const Y &y) { return y.anchor.empty() ? "" : "&" + y.anchor + " "; }
	void flow(const Y &y)
	{
		str sp = r.coin() ? " " : "";
		switch (y.k) {
		case Y_SCALAR: o += anchor(y) + scalar(y.s); break;
		case Y_ALIAS: o += "*" + y.s + " "; break;
		case Y_SEQ:
			o += anchor(y) + "[" + sp;
			for (size_t i = 0; i < y.it.size(); i++) { if (i) o += "," + sp; flow(y.it[i]); }
			o += sp + "]";
			break;
		case Y_MAP:
			o += anchor(y) + "{" + sp;
			for (size_t i = 0; i < y.kv.size(); i++) {
				if (i) o += ", ";
				if (y.kv[i].first.k != Y_SCALAR) { o += "? "; flow(y.kv[i].first); o += " "; } else flow(y.kv[i].first);
				o += ": "; flow(y.kv[i].second);
			}
			o += sp + "}";
			break;
		}
	}
	void nl() { if (r.chance(1, 12)) o += " # note: [x"; o += "\n"; if (r.chance(1, 15)) o += "\n"; }
	void pad(int n) { o += str((size_t)n, ' '); }
	// writes y after "key:" or "-"; leaves the cursor at the start of a line
	void value(const Y &y, int ind, bool in_seq)
	{
		if (y.k == Y_SCALAR && y.anchor.empty() && !y.s.empty() && y.s.find('\n') == str::npos && isgraph((unsigned char)y.s[0]) && r.chance(1, 10)) {
			bool ok = true; for (char c : y.s) if ((unsigned char)c < 0x20 || c == 0x7f) ok = false;
			if (ok) { o += " |-\n"; pad(ind + 2); o += y.s + "\n"; return; }
		}
		if (y.k == Y_SCALAR || y.k == Y_ALIAS || (y.k == Y_SEQ && y.it.empty()) || (y.k == Y_MAP && y.kv.empty()) || r.chance(1, 5)) {
			o += " "; flow(y); nl();
			return;
		}
		if (!y.anchor.empty()) o += " &" + y.anchor;
		if (y.k == Y_MAP && in_seq && y.anchor.empty() && r.coin()) { o += " "; map(y, ind + 2, true); return; }
		nl();
		int step = r.range(1, 4);
		if (y.k == Y_MAP) map(y, ind + step, false);
		else seq(y, in_seq ? ind + step : ind + r.range(0, 2));
	}
	void map(const Y &y, int ind, bool first_inline)
	{
		bool f = first_inline;
		for (auto &p : y.kv) {
			if (!f) pad(ind);
			f = false;
			if (p.first.k != Y_SCALAR) { o += "? "; flow(p.first); o += "\n"; pad(ind); o += ":"; }
			else { o += scalar(p.first.s); o += ":"; }
			value(p.second, ind, false);
		}
	}
	void seq(const Y &y, int ind)
	{
		for (auto &x : y.it) { pad(ind); o += "-"; value(x, ind, true); }
	}
	str doc(const Y &y)
	{
		if (r.chance(1, 6)) o += "# a grammar\n";
		if (r.chance(1, 6)) o += "%YAML 1.1\n---\n"; else if (r.chance(1, 4)) o += "---\n";
		if (y.k == Y_SCALAR || y.k == Y_ALIAS || r.chance(1, 5) || (y.k == Y_MAP && y.kv.empty()) || (y.k == Y_SEQ && y.it.empty())) { flow(y); o += "\n"; }
		else {
			if (!y.anchor.empty()) { if (o.find("---") == str::npos && r.coin()) o += "--- &" + y.anchor + "\n"; else o += "&" + y.anchor + "\n"; }
			if (y.k == Y_MAP) map(y, 0, false); else seq(y, 0);
		}
		if (r.chance(1, 8)) o += "...\n";
		return o;
	}
};

// ---- description of a grammar -------------------------------------------------
struct YGen {
	Rng &r; const Gram &g; vec<int> uses; vec<char> seen;
	std::map<int, std::map<str, str>> attrs;      // expected attributes by node
	YGen(Rng &rr, const Gram &gg) : r(rr), g(gg), uses(gg.n.size(), 0), seen(gg.n.size(), 0)
	{
		vec<char> v(g.n.size(), 0);
		std::function<void(int)> f = [&](int i) { if (v[i]) return; v[i] = 1; for (int c : g.n[i].ch) { uses[c]++; f(c); } };
		f(g.root);
		uses[g.root]++;
	}
	str num(int64_t v)
	{
		if (v >= 0 && r.chance(1, 4)) { char b[40]; snprintf(b, sizeof b, r.coin() ? "0x%llx" : "0%llo", (unsigned long long)v); return b; }
		return std::to_string(v);
	}
	str unum(uint64_t v)
	{
		if (r.chance(1, 4)) { char b[40]; snprintf(b, sizeof b, r.coin() ? "0x%llx" : "0%llo", (unsigned long long)v); return b; }
		return std::to_string(v);
	}
	Y node(int i)
	{
		if (seen[i]) return Y::al("n" + std::to_string(i));
		seen[i] = 1;
		const GN &x = g.n[i];
		Y m = Y::map();
		m.node = true;
		if (uses[i] > 1 || r.chance(1, 10)) m.anchor = "n" + std::to_string(i);
		vec<str> keys = {"type"};
		if (!x.id.empty()) keys.push_back("id");
		auto &at = attrs[i];
		if (r.chance(1, 4)) keys.push_back("help");
		if (r.chance(1, 5)) keys.push_back("attrs");
		switch (x.t) {
		case T_STR: keys.push_back("string"); break;
		case T_ANY: if (!x.s.empty()) keys.push_back("attr"); break;
		case T_INT: case T_UINT:
			if (x.has_min) keys.push_back("min");
			if (x.has_max) keys.push_back("max");
			keys.push_back("base");
			break;
		case T_RE: keys.push_back("pattern"); break;
		case T_SEQ: case T_OR: keys.push_back("children"); break;
		case T_MANY: keys.push_back("child"); if (x.mn || r.coin()) keys.push_back("min"); if (x.mx || r.coin()) keys.push_back("max"); break;
		case T_COND: keys.push_back("expr"); keys.push_back("child"); break;
		case T_RE_LEX: keys.push_back("patterns"); keys.push_back("child"); break;
		default: keys.push_back("child");
		}
		for (size_t a = keys.size(); a > 1; a--) std::swap(keys[a - 1], keys[r.below(a)]);
		for (auto &k : keys) {
			Y v;
			if (k == "type") v = Y::sc(nt_name[x.t]);
			else if (k == "id") v = Y::sc(x.id);
			else if (k == "help") { str h = r.pick(vec<str>{"some help", "", "é: \"q\" 'x'", "two\nlines", "# not a comment", "true"}); at["help"] = h; v = Y::sc(h); }
			else if (k == "attrs") {
				v = Y::map();
				int n = r.range(0, 3);
				for (int a = 0; a < n; a++) { str ak = r.pick(vec<str>{"k1", "k2", "a b", "desc", "type", "id"}); if (at.count(ak)) continue; str av = r.pick(vec<str>{"v", "", "12", "x: y", "- z"}); at[ak] = av; v.put(ak, Y::sc(av)); }
			} else if (k == "child") v = node(x.ch[0]);
			else if (k == "children") { v = Y::seq(); for (int c : x.ch) v.it.push_back(node(c)); }
			else if (k == "min") v = Y::sc(x.t == T_INT ? num(x.imin) : unum(x.t == T_UINT ? x.umin : x.mn));
			else if (k == "max") v = Y::sc(x.t == T_INT ? num(x.imax) : unum(x.t == T_UINT ? x.umax : x.mx));
			else if (k == "base") v = Y::sc(unum(x.base));
			else if (k == "patterns") {
				v = Y::seq();
				for (auto &p : x.pats) {
					Y d = Y::map();
					vec<int> ord = {0, 1, 2};
					for (size_t a = 3; a > 1; a--) std::swap(ord[a - 1], ord[r.below(a)]);
					for (int q : ord) {
						if (q == 0) d.put("pattern", Y::sc(p.pat));
						if (q == 1) { if (p.keep) d.put("keep", Y::sc(r.pick(vec<str>{"true", "True", "TRUE"}))); else d.put("keep", Y::sc(r.pick(vec<str>{"false", "False"}))); }
						if (q == 2 && !p.attr.empty()) d.put("attr", Y::sc(p.attr));
					}
					v.it.push_back(d);
				}
			} else v = Y::sc(x.s);
			m.put(k, v);
		}
		return m;
	}
};

static Gram yaml_gram(Rng &r, GenOpt &o)
{
	for (int t = 0; t < 30; t++) {
		Gram g = gen_gram(r, o);
		for (auto &x : g.n) {
			if (x.t == T_EMPTY || x.t == T_NONE || x.t == T_SPACE || x.t == T_FILE) { x.t = T_STR; x.s = r.pick(o.words); }
			if (x.t == T_SUBSET) x.t = T_OR;
			if (x.t == T_SH_LEX) x.t = T_OPTION;
			if (x.t == T_INT || x.t == T_UINT) x.base = r.chance(1, 3) ? (unsigned)r.pick(vec<int>{0, 2, 8, 10, 16, 36}) : 10;
			if ((x.t == T_INT || x.t == T_UINT) && r.chance(1, 3)) x.has_min = false;
			if ((x.t == T_INT || x.t == T_UINT) && r.chance(1, 3)) x.has_max = false;
		}
		if (!left_recursive(g)) return g;
	}
	Gram g; GN x; x.t = T_STR; x.s = "a"; g.root = g.add(x);
	return g;
}

str yaml_text(Rng &r, const Gram &g) { YGen yg(r, g); Y doc = yg.node(g.root); YW w(r); return w.doc(doc); }
Gram yaml_grammar(Rng &r, GenOpt &o) { return yaml_gram(r, o); }

// ---- import ---------------------------------------------------------------------
static struct ec_node *import(const str &text, const str &path)
{
	int fd = open(path.c_str(), O_WRONLY | O_CREAT | O_TRUNC, 0600);
	HCHECK(fd >= 0 && write(fd, text.data(), text.size()) == (ssize_t)text.size());
	close(fd);
	errno = 0;
	struct ec_node *n = ec_yaml_import(path.c_str());
	int e = errno;
	EXPECT("C29", "errno", n != NULL || e != 0, "a document was refused and errno is not set");
	if (n == NULL) ev("refused documents with errno set");
	return n;
}
struct Quiet {
	int save;
	Quiet() { fflush(stderr); save = dup(2); int n = open("/dev/null", O_WRONLY); dup2(n, 2); close(n); }
	~Quiet() { fflush(stderr); dup2(save, 2); close(save); }
};
static str cfg_str(const struct ec_config *c, const char *k) { const struct ec_config *e = c ? ec_config_dict_get(c, k) : NULL; return e && ec_config_get_type(e) == EC_CONFIG_TYPE_STRING ? str(e->string) : str("\1none"); }

// compares the imported node with the description; fills the built map
static void walk(const Gram &g, YGen &yg, int i, struct ec_node *n, Built &b)
{
	if (!n) { violate("C22", "structure", "node #%d is missing", i); end_case(); }
	if (b.nodes[i]) { EXPECT("C22", "sharing", b.nodes[i] == n, "node #%d is described once but imported as two nodes", i); return; }
	EXPECT("C22", "sharing", !b.idx.count(n), "nodes #%d and #%d are described separately but imported as one", i, b.idx.count(n) ? b.idx[n] : -1);
	b.nodes[i] = n; b.idx[n] = i;
	const GN &x = g.n[i];
	ev("imported nodes compared with their description");
	EXPECT("C22", "type", str(ec_node_get_type_name(n)) == nt_name[x.t], "node #%d has type %s, described as %s", i, ec_node_get_type_name(n), nt_name[x.t]);
	str id = x.id.empty() ? EC_NO_ID : x.id;
	EXPECT("C22", "id", id == ec_node_id(n), "node #%d has identifier '%s', described as '%s'", i, ec_node_id(n), id.c_str());
	std::map<str, str> got;
	for (struct ec_dict_elt_ref *it = ec_dict_iter(ec_node_attrs(n)); it; it = ec_dict_iter_next(it)) got[ec_dict_iter_get_key(it)] = ec_dict_iter_get_val(it) ? (const char *)ec_dict_iter_get_val(it) : "(null)";
	if (got != yg.attrs[i]) {
		str a, w; for (auto &e : got) a += e.first + "=" + e.second + ";"; for (auto &e : yg.attrs[i]) w += e.first + "=" + e.second + ";";
		violate("C22", "attrs", "node #%d has attributes {%s}, described {%s}", i, esc(a).c_str(), esc(w).c_str());
	}
	const struct ec_config *c = ec_node_get_config(n);
	auto sub = [&](const char *k) -> const struct ec_config * { return c ? ec_config_dict_get(c, k) : NULL; };
	auto expect_s = [&](const char *k, const str &w) { EXPECT("C22", "config", cfg_str(c, k) == w, "node #%d: %s is '%s', described '%s'", i, k, esc(cfg_str(c, k)).c_str(), esc(w).c_str()); };
	auto expect_n = [&](const char *k, bool has, bool sgn, int64_t s, uint64_t u) {
		const struct ec_config *e = sub(k);
		if (!has) { if (x.t != T_MANY) EXPECT("C22", "config", e == NULL, "node #%d: %s is set, not described", i, k); return; }
		EXPECT("C22", "config", e && ec_config_get_type(e) == (sgn ? EC_CONFIG_TYPE_INT64 : EC_CONFIG_TYPE_UINT64) && (sgn ? e->i64 == s : e->u64 == u), "node #%d: %s is not the described value", i, k);
	};
	switch (x.t) {
	case T_STR: expect_s("string", x.s); break;
	case T_ANY: if (!x.s.empty()) expect_s("attr", x.s); else EXPECT("C22", "config", sub("attr") == NULL, "node #%d has an attribute filter", i); break;
	case T_RE: expect_s("pattern", x.s); break;
	case T_COND: expect_s("expr", x.s); break;
	case T_INT: expect_n("min", x.has_min, true, x.imin, 0); expect_n("max", x.has_max, true, x.imax, 0); break;
	case T_UINT: expect_n("min", x.has_min, false, 0, x.umin); expect_n("max", x.has_max, false, 0, x.umax); break;
	case T_MANY: expect_n("min", x.mn != 0, false, 0, x.mn); expect_n("max", x.mx != 0, false, 0, x.mx); break;
	default: break;
	}
	if (x.t == T_SEQ || x.t == T_OR) {
		const struct ec_config *l = sub("children"), *e = l ? ec_config_list_first((struct ec_config *)l) : NULL;
		for (int ch : x.ch) {
			if (!e) { violate("C22", "children", "node #%d has fewer children than described", i); end_case(); }
			walk(g, yg, ch, e->node, b);
			e = ec_config_list_next((struct ec_config *)l, (struct ec_config *)e);
		}
		EXPECT("C22", "children", e == NULL, "node #%d has more children than described", i);
	} else if (!x.ch.empty()) {
		const struct ec_config *e = sub("child");
		if (!e) { violate("C22", "children", "node #%d has no child", i); end_case(); }
		walk(g, yg, x.ch[0], e->node, b);
	}
	size_t k = ec_node_get_children_count(n);
	EXPECT("C22", "children", k == x.ch.size(), "node #%d reports %zu children, described %zu", i, k, x.ch.size());
}

static void all_maps(Y &y, vec<Y *> &nodes, vec<Y *> &maps)
{
	if (y.k == Y_MAP) { maps.push_back(&y); if (y.node) nodes.push_back(&y); }
	for (auto &x : y.it) all_maps(x, nodes, maps);
	for (auto &p : y.kv) all_maps(p.second, nodes, maps);
}
// one change that makes the document describe no grammar; returns what was done, "" if not possible here
static str spoil(Rng &r, Y &doc)
{
	vec<Y *> nodes, maps;
	all_maps(doc, nodes, maps);
	Y &m = *nodes[r.below(nodes.size())];
	str ty = m.get("type")->s;
	Y junk = r.pick(vec<Y>{Y::seq(), Y::seq({Y::sc("a")}), Y::map(), Y::seq({Y::seq({Y::sc("a"), Y::sc("b")})})});
	if (junk.k == Y_MAP && r.coin()) junk.put("k", Y::sc("v"));
	switch (r.range(0, 21)) {
	case 0: m.drop("type"); return "no type";
	case 1: m.get("type")->s = r.pick(vec<str>{"nosuch", "", "STR", "seq ", "node_or"}); return "unknown type";
	case 2: *m.get("type") = junk; return "type is not a scalar";
	case 3: m.drop("id"); m.put("id", junk); return "id is not a scalar";
	case 4: m.drop("help"); m.put("help", junk); return "help is not a scalar";
	case 5: { m.drop("attrs"); Y v = r.pick(vec<Y>{Y::sc("x"), Y::seq({Y::sc("x")})}); m.put("attrs", v); return "attrs is not a mapping"; }
	case 6: { m.drop("attrs"); Y v = Y::map(); v.put("a", Y::sc("b")); if (r.coin()) v.put("k", junk); else v.kv.push_back({Y::seq({Y::sc("x")}), Y::sc("v")}); m.put("attrs", v); return "attribute is not a scalar"; }
	case 7: m.kv.insert(m.kv.begin() + (long)r.below(m.kv.size() + 1), {Y::sc(r.pick(vec<str>{"zzz", "", "child_", "Children", "keep"})), r.coin() ? Y::sc("1") : junk}); return "unknown key";
	case 8: m.kv.push_back({junk, Y::sc("1")}); if (m.kv.back().first.k == Y_SCALAR) return ""; return "key is not a scalar";
	case 9: for (auto k : {"string", "attr", "pattern", "expr", "min", "max", "base"}) if (Y *v = m.get(k)) { *v = junk; return str(k) + " is not a scalar"; } return "";
	case 10: for (auto k : {"child", "children", "patterns"}) if (Y *v = m.get(k)) { *v = r.pick(vec<Y>{Y::sc("x"), Y::sc("")}); return str(k) + " is a scalar"; } return "";
	case 11: if (Y *v = m.get("children")) { v->it.insert(v->it.begin() + (long)r.below(v->it.size() + 1), r.coin() ? Y::sc("x") : Y::seq()); return "a child is not a node"; } if (Y *v = m.get("child")) { *v = Y::seq({*v}); return "child is a list"; } return "";
	case 12: case 13: {
		str k = r.pick(vec<str>{"min", "max", "base"});
		if (ty != "int" && ty != "uint" && !m.get("child") && !m.get("children")) {   // any leaf will do
			for (auto &e : vec<std::pair<Y, Y>>(m.kv)) if (e.first.s != "id" && e.first.s != "help" && e.first.s != "attrs") m.drop(e.first.s);
			ty = r.coin() ? "int" : "uint";
			m.put("type", Y::sc(ty));
		}
		if ((ty != "int" && ty != "uint" && ty != "many") || (ty == "many" && k == "base")) return "";
		bool sgn = ty == "int" && k != "base";
		vec<str> bad = {"", " ", "x", "1x", "0x", "99999999999999999999999", "1 2", "--1", "1.5", "true", "1 ", "08", "+-1", "1e3", "1_0", "\t", "0x1g", "1-", "1-2"};
		if (sgn) bad.insert(bad.end(), {"9223372036854775808", "-9223372036854775809"});
		else bad.insert(bad.end(), {"-1", "-0", "18446744073709551616", " -3", "\t-1", " -18446744073709551615", "\n -0x1"});
		m.drop(k);
		str b2 = r.chance(1, 3) ? bad[bad.size() - 1 - r.below(sgn ? 2 : 7)] : r.pick(bad);   // the bounds of the type more often
		m.put(k, Y::sc(b2));
		return k + " is '" + b2 + "'"; }
	case 14: if (ty == "many") { str k = r.coin() ? "min" : "max"; m.drop(k); m.put(k, Y::sc(r.pick(vec<str>{"4294967296", "18446744073709551615"}))); return "repetition bound out of range"; } return "";
	case 15: {
		static const std::map<str, str> req = {{"str", "string"}, {"re", "pattern"}, {"seq", "children"}, {"or", "children"}, {"many", "child"}, {"option", "child"}, {"once", "child"}, {"bypass", "child"}, {"cond", "expr"}, {"re_lex", "child"}};
		auto it = req.find(ty);
		if (it == req.end()) return "";
		str k = it->second; if (ty == "cond" && r.coin()) k = "child";
		m.drop(k); return "no " + k; }
	case 16: if (ty == "re") { m.get("pattern")->s = r.pick(vec<str>{"(", "[", "a{2,1}", "\\"}); return "bad pattern"; } if (ty == "cond") { m.get("expr")->s = r.pick(vec<str>{"", "foo(", "root(", ")", "root() root()"}); return "bad condition"; } return "";
	case 17: if (Y *v = m.get("patterns")) if (!v->it.empty()) {
			Y &p = v->it[r.below(v->it.size())];
			switch (r.range(0, 6)) {
			case 5: *p.get("pattern") = junk; return "pattern is not a scalar";
			case 6: if (r.coin() && p.get("keep")) { *p.get("keep") = junk; return "keep is not a scalar"; } p.kv.insert(p.kv.begin() + (long)r.below(p.kv.size() + 1), {Y::seq({Y::sc("a"), Y::sc("b")}), Y::sc("c")}); return "key in pattern is not a scalar";
			case 0: p.drop("keep"); p.put("keep", Y::sc(r.pick(vec<str>{"", "yes", "1", "truee", "t"}))); return "keep is not a boolean";
			case 1: p.drop("pattern"); return "no pattern";
			case 2: p.get("pattern")->s = "("; return "bad pattern";
			case 3: p.put("zzz", Y::sc("1")); return "unknown key in pattern";
			case 4: p = r.coin() ? Y::sc("x") : Y::seq({Y::sc("x")}); return "pattern is not a mapping";
			}
		}
		return "";
	case 18: m.put(r.pick(vec<str>{"type", "id", "help", "attrs"}), Y()); { str k = m.kv.back().first.s; Y v = k == "attrs" ? Y::map() : k == "type" ? Y::sc(ty) : Y::sc("x"); m.kv.back().second = v; bool had = false; for (size_t i = 0; i + 1 < m.kv.size(); i++) if (m.kv[i].first.s == k) had = true; if (!had) m.put(k, v); return k + " twice"; }
	case 19: { Y v = Y::al("undefined_anchor"); if (r.coin()) m.put("help", v); else if (Y *c = m.get("child")) *c = v; else m.put("id", v); return "undefined anchor"; }
	case 20: { Y w = r.coin() ? Y::seq({doc}) : Y::map(); if (w.k == Y_MAP) w.put("grammar", doc); doc = w; return "root is not a node"; }
	case 21: doc = r.pick(vec<Y>{Y::sc("str"), Y::seq(), Y::map(), Y::sc("")}); return "root is not a node";
	}
	return "";
}

SCENARIO(yaml, "random grammars (all importable node types, shared nodes and loops through anchors) written as YAML in block/flow/quoted/literal styles with attributes, help texts, hexadecimal and octal numbers; import compared node by node and by parsing and completing; one-place errors of 20 kinds and unreadable files must be refused; text mutations must neither crash nor leak; non-trivial = a grammar of at least 3 nodes was imported, or an invalid document refused")
{
	(void)idx;
	LeakCheck lk;
	PropAs as({"C22", "C02", "C01"});
	str path = scratch_dir() + "/g.yaml";
	GenOpt o;
	o.max_nodes = r.range(1, 14); o.max_depth = r.range(0, 5); o.lexers = r.coin(); o.cycles = r.coin(); o.file = false;
	o.any_attr = o.lexers; o.cond = r.chance(1, 3) ? 15 : 0;
	o.words = r.coin() ? vec<str>{"a", "b", "ab"} : vec<str>{"foo", "a b", "", "x:y", "- z", "é", "a\nb", "\t", "'", "\"", "#", "null", "*x", "&x", "12", "true", "[", "{"};
	int mode = r.range(0, 9);
	if (mode == 9) {
		// command nodes: same answers as the node built by the constructor
		static const vec<str> ex = {"foo x", "foo [x] y*", "(x|y)+ foo", "x, y, foo", "a|x y", "[x|foo] y", "x+", "((a) x)"};
		str e = r.pick(ex);
		o.cycles = false; o.max_nodes = 3; o.max_depth = 1; o.words = {"foo", "a", "b"}; o.cond = 0;
		Gram g; vec<int> us;
		for (int k = 0; k < 2; k++) { Gram p = yaml_gram(r, o); int off = (int)g.n.size(); for (auto x : p.n) { x.id = ""; for (int &c : x.ch) c += off; g.n.push_back(x); } us.push_back(p.root + off); g.n[us.back()].id = k ? "y" : "x"; }
		GN h; h.t = T_SEQ; h.ch = us; g.root = g.add(h);
		YGen yg(r, g);
		Y m = Y::map(), l = Y::seq();
		for (int u : us) l.it.push_back(yg.node(u));
		m.put("type", Y::sc("cmd"));
		m.put("expr", Y::sc(e));
		m.put("children", l);
		if (r.coin()) std::swap(m.kv[0], m.kv[2]);
		YW w(r); str text = w.doc(m);
		describe("cmd '%s' x=%s y=%s | %s", e.c_str(), g.show(us[0]).c_str(), g.show(us[1]).c_str(), esc(text).c_str());
		struct ec_node *n; { Quiet q; n = import(text, path); }
		if (!n) { violate("C22", "refused", "a valid document was refused"); end_case(); }
		Built b; LCHECK(build(g, r, b, true));
		struct ec_node *c = EC_NODE_CMD(EC_NO_ID, e.c_str(), ec_node_clone(b.nodes[us[0]]), ec_node_clone(b.nodes[us[1]]));
		LCHECK(c);
		for (int k = 0; k < 6; k++) {
			Toks in; int nt = r.range(0, 4);
			for (int a = 0; a < nt; a++) { Gram g2 = g; g2.root = us[r.below(2)]; if (r.coin()) { Toks t = gen_input(r, g2, o); in.insert(in.end(), t.begin(), t.end()); } else in.push_back(Tok{r.pick(o.words), {}}); }
			struct ec_strvec *v = make_strvec(in);
			struct ec_pnode *p1 = ec_parse_strvec(n, v), *p2 = ec_parse_strvec(c, v);
			EXPECT("C22", "cmd", p1 && p2 && ec_pnode_matches(p1) == ec_pnode_matches(p2) && ec_pnode_len(p1) == ec_pnode_len(p2), "parsing %s differs from the command built through the API", show_toks(in).c_str());
			ec_pnode_free(p1); ec_pnode_free(p2);
			if (in.size() < 4) {
				struct ec_comp *c1 = ec_complete_strvec(n, v), *c2 = ec_complete_strvec(c, v);
				LCHECK(c2);
				std::set<str> s1, s2; Built none;
				if (c1) for (auto &x : read_comp(c1, none, false)) s1.insert(std::to_string(x.type) + x.full);
				for (auto &x : read_comp(c2, none, false)) s2.insert(std::to_string(x.type) + x.full);
				EXPECT("C22", "cmd", c1 && s1 == s2, "completing %s differs from the command built through the API", show_toks(in).c_str());
				ec_comp_free(c1); ec_comp_free(c2);
			}
			ec_strvec_free(v);
		}
		ev("imported commands compared");
		ec_node_free(n); ec_node_free(c); b.free_all();
		nontrivial(fnv(text));
		lk.check("C22", "imported command");
		return;
	}
	Gram g = yaml_gram(r, o);
	YGen yg(r, g);
	Y doc = yg.node(g.root);
	str head = g.show();
	if (mode >= 3 && mode <= 5) {
		str why = spoil(r, doc);
		for (int k = 0; k < 8 && why.empty(); k++) why = spoil(r, doc);
		if (why.empty()) { doc.put("zzz", Y::sc("x")); why = "unknown key"; }
		YW w(r); str text = w.doc(doc);
		describe("invalid (%s): %s", why.c_str(), esc(text).c_str());
		struct ec_node *n; { Quiet q; n = import(text, path); }
		EXPECT("C22", "accepted", n == NULL, "an invalid document (%s) was accepted", why.c_str());
		ec_node_free(n);
		ev("invalid documents refused");
		nontrivial(fnv(text));
		sample(current_desc());
		lk.check("C22", "refused document");
		return;
	}
	if (mode == 6 || mode == 7) {
		YW w(r); str text = w.doc(doc);
		int k = r.range(1, 6);
		static const vec<str> bits = {"\n", "  ", "- ", ": ", "\t", "{", "}", "[", "]", "*n0", "&n1 ", "|", "'", "\"", "type", "children:", "\xc3", "\xff", "?", "---\n", "!!int ", "<<: *n0\n", "#", "0"};
		for (int i = 0; i < k && !text.empty(); i++) switch (r.range(0, 5)) {
			case 0: text.erase(r.below(text.size()), (size_t)r.range(1, 4)); break;
			case 1: text.insert(r.below(text.size() + 1), r.pick(bits)); break;
			case 2: text[r.below(text.size())] = (char)r.range(1, 255); break;
			case 3: text.resize(r.below(text.size() + 1)); break;
			case 4: { size_t a = r.below(text.size()), n = (size_t)r.range(1, 20); text.insert(r.below(text.size() + 1), text.substr(a, n)); break; }
			case 5: { size_t a = text.find('\n', r.below(text.size())); if (a != str::npos) { size_t e2 = text.find('\n', a + 1); text.erase(a, e2 == str::npos ? str::npos : e2 - a); } break; }
		}
		describe("mutated: %s", esc(text).c_str());
		struct ec_node *n; { Quiet q; n = import(text, path); }
		if (n) { slurp_stream([&](FILE *f) { ec_node_dump(f, n); if (ec_node_get_config(n)) ec_config_dump(f, ec_node_get_config(n)); }); ev("mutated documents still accepted"); } else ev("mutated documents refused");
		ec_node_free(n);
		nontrivial(fnv(text));
		lk.check("C22", "mutated document");
		return;
	}
	if (mode == 8 && r.coin()) {
		// files that cannot be read, extreme documents
		int k = r.range(0, 5);
		struct ec_node *n = NULL;
		describe("unreadable or extreme document %d", k);
		Quiet q;
		if (k == 0) n = ec_yaml_import((scratch_dir() + "/missing.yaml").c_str());
		else if (k == 1) n = ec_yaml_import(scratch_dir().c_str());
		else if (k == 2) n = import("", path);
		else if (k == 3) n = import("# nothing\n---\n...\n", path);
		else if (k == 4) { str t, e; int d = r.range(100, 900); for (int i = 0; i < d; i++) { t += "{type: option, child: "; e += "}"; } n = import(t + "x" + e, path); }
		else { str t(r.below(3000), r.coin() ? '[' : '{'); n = import(t, path); }
		EXPECT("C22", "accepted", n == NULL, "document kind %d was accepted", k);
		ev("unreadable or extreme documents refused");
		lk.check("C22", "unreadable document");
		return;
	}
	YW w(r); str text = w.doc(doc);
	describe("%s | %s", head.c_str(), esc(text).c_str());
	struct ec_node *n; { Quiet q; n = import(text, path); }
	if (!n) { violate("C22", "refused", "a valid document was refused"); end_case(); }
	Built b; b.root = n; b.nodes.assign(g.n.size(), NULL);
	walk(g, yg, g.root, n, b);
	if (g.n.size() >= 3) nontrivial(fnv(text));
	str hd = current_desc();
	for (int i = 0; i < 4; i++) {
		bool err = false;
		Toks in = gen_input(r, g, o);
		try { Model m(g); m.budget = 15000; std::unique_ptr<MP> tr; m.parse(g.root, in, tr); } catch (CondErr &) { err = true; }
		if (!err) { describe("%s", hd.c_str()); check_parse(r, g, b, in, false); }
		in = gen_partial(r, g, o); err = false;
		try { Model m(g); m.budget = 5000; m.complete(g.root, in); } catch (CondErr &) { err = true; }
		if (!err) { describe("%s", hd.c_str()); check_complete(g, b, in); }
	}
	sample(hd);
	b.nodes.clear();
	b.free_all();
	lk.check("C22", "imported grammar");
}
