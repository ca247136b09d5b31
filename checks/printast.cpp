// BUILD: variant=san
// Property: the ABNF, tree and DOT renderings of an expression each describe exactly that expression: read by a
// reader of that notation, it denotes the language of the automaton compiled from the expression itself.
#include "rex.hpp"
#include <map>
extern "C" { // src/libre/{ast,print}.h, exported for re(1); the headers are not C++
struct ast;
enum ast_print_lang { AST_PRINT_NONE, AST_PRINT_DOT, AST_PRINT_ABNF, AST_PRINT_PCRE, AST_PRINT_TREE };
int ast_print(FILE *, const struct ast *, const struct fsm_options *, enum re_flags, enum ast_print_lang);
struct ast *re_parse(enum re_dialect, int (*)(void *), void *, enum re_flags, struct re_err *, int *);
struct ast *ast_new_from_fsm(const struct fsm *);
void ast_free(struct ast *);
}
using namespace model; using namespace fsmx; using namespace rx;
static const unsigned INF = ~0u;

// what a rendering says, independently of which one it is
struct E { enum T { EMPTY, CAT, ALT, SET, REP, GROUP, ANCHOR, SUB, RIP } t = EMPTY; Bits set; unsigned lo = 0, hi = 0; char anchor = 0; unsigned id = 0; std::vector<E> k; };
struct Bad : std::runtime_error { using std::runtime_error::runtime_error; };
static E one(E::T t) { E e; e.t = t; return e; }
static Bits fold(Bits b) { Bits r = b; for (int i = 'a'; i <= 'z'; i++) { if (b[i]) r.set(i - 32); if (b[i - 32]) r.set(i); } return r; }
// the set an expression for one character stands for
static bool as_set(const E &e, Bits *out) {
	switch (e.t) {
	case E::SET: *out = e.set; return true;
	case E::RIP: *out = Bits(); return true;
	case E::ALT: { Bits r; for (auto &k : e.k) { Bits x; if (!as_set(k, &x)) return false; r |= x; } *out = r; return true; }
	case E::SUB: { Bits a, b; if (!as_set(e.k[0], &a) || !as_set(e.k[1], &b)) return false; *out = a & ~b; return true; }
	case E::GROUP: return as_set(e.k[0], out);
	default: return false;
	}
}
// to the PCRE text of the same meaning, all explicit
static void pcre(const E &e, const char *dollar, std::string &o) {
	char b[40];
	switch (e.t) {
	case E::EMPTY: o += "(?:)"; break;
	case E::RIP: o += "[^\\x00-\\xff]"; break;
	case E::SET: case E::SUB: { Bits s; if (!as_set(e, &s)) throw Bad("subtraction of other than characters"); if (s.none()) { o += "[^\\x00-\\xff]"; break; }
		o += "["; for (int l = 0; l < 256; l++) if (s[l]) { int h = l; while (h < 255 && s[h + 1]) h++; snprintf(b, sizeof b, "\\x%02x-\\x%02x", l, h); o += b; l = h; } o += "]"; break; }
	case E::CAT: o += "(?:"; for (auto &k : e.k) pcre(k, dollar, o); o += ")"; break;
	case E::ALT: o += "(?:"; for (size_t i = 0; i < e.k.size(); i++) { if (i) o += "|"; pcre(e.k[i], dollar, o); } o += ")"; break;
	case E::GROUP: o += "(?:"; pcre(e.k[0], dollar, o); o += ")"; break;
	case E::ANCHOR: o += "(?:"; o += e.anchor == '^' ? "^" : dollar; o += ")"; break;
	case E::REP: o += "(?:"; pcre(e.k[0], dollar, o); o += ")"; if (e.hi == INF) snprintf(b, sizeof b, "{%u,}", e.lo); else snprintf(b, sizeof b, "{%u,%u}", e.lo, e.hi); o += b; break;
	}
}

// ---- ABNF (RFC 5234, RFC 7405, with prose-vals for anchors and " - " as EBNF's exception)
struct Abnf {
	const std::string &s; size_t i = 0; bool dead = false;
	explicit Abnf(const std::string &t) : s(t) {}
	[[noreturn]] void bad(const char *w) { throw Bad(std::string(w) + " at offset " + std::to_string(i)); }
	bool lit(const char *t) { size_t n = strlen(t); if (s.compare(i, n, t) == 0) { i += n; return true; } return false; }
	bool digit() { return i < s.size() && isdigit((unsigned char)s[i]); }
	unsigned num() { if (!digit()) bad("number"); unsigned long v = 0; while (digit()) { v = v * 10 + (s[i++] - '0'); if (v > 1000000) bad("count"); } return (unsigned)v; }
	unsigned hex2() { unsigned v = 0; int n = 0; while (i < s.size() && isxdigit((unsigned char)s[i])) { v = v * 16 + (isdigit((unsigned char)s[i]) ? s[i] - '0' : toupper(s[i]) - 'A' + 10); i++; n++; } if (!n) bad("hex digits"); if (v > 255) bad("byte value"); return v; }
	E rulelist() { if (!lit("e = ")) bad("rule name"); E e = alternation(); if (!lit("\n\n") || i != s.size()) bad("end of the rule"); return e; }
	E alternation() { E e = one(E::ALT); do e.k.push_back(concat()); while (lit(" / ")); return e.k.size() == 1 ? E(e.k[0]) : e; }
	bool more() { return i + 1 < s.size() && s[i] == ' ' && !strchr("/-])\n", s[i + 1]); }
	E concat() { E e = one(E::CAT); e.k.push_back(except()); while (more()) { i++; e.k.push_back(except()); } return e.k.size() == 1 ? E(e.k[0]) : e; }
	E except() { E a = repetition(); if (!lit(" - ")) return a; E e = one(E::SUB); e.k.push_back(a); e.k.push_back(repetition()); return e; }
	E repetition() {
		bool any = false; unsigned lo = 0, hi = INF; if (digit()) { lo = hi = num(); any = true; } if (lit("*")) { if (!any) lo = 0; hi = digit() ? num() : INF; any = true; }
		if (any && hi < lo) bad("range of repetition"); E k = element(); if (!any) return k; E e = one(E::REP); e.lo = lo; e.hi = hi; e.k.push_back(k); return e;
	}
	E element() {
		if (lit("OCTET")) { E e = one(E::SET); e.set.set(); return e; }
		if (lit("<^>")) { E e = one(E::ANCHOR); e.anchor = '^'; return e; }
		if (lit("<$>")) { E e = one(E::ANCHOR); e.anchor = '$'; return e; }
		if (lit("<RIP>")) return one(E::RIP);
		if (lit("(")) { E e = one(E::GROUP); e.k.push_back(alternation()); if (!lit(")")) bad("closing parenthesis"); return e; }
		if (lit("[ ")) { E e = one(E::REP); e.lo = 0; e.hi = 1; e.k.push_back(alternation()); if (!lit(" ]")) bad("closing bracket"); return e; }
		bool cs = false, str = false; if (lit("%s\"")) cs = str = true; else if (lit("%i\"")) str = true; else if (lit("\"")) str = true;
		if (str) { std::vector<E> v; while (i < s.size() && s[i] != '"') { unsigned char ch = s[i++]; if (ch < 0x20 || ch > 0x7e) bad("byte in a string"); E e = one(E::SET); e.set.set(ch); if (!cs) e.set = fold(e.set); v.push_back(e); } if (!lit("\"")) bad("closing quote"); if (v.empty()) return one(E::EMPTY); if (v.size() == 1) return v[0]; E e = one(E::CAT); e.k = v; return e; }
		if (lit("%x")) { unsigned a = hex2(); E e = one(E::SET); if (lit("-")) { unsigned b = hex2(); if (b < a) bad("range"); for (unsigned x = a; x <= b; x++) e.set.set(x); return e; } e.set.set(a);
			if (i < s.size() && s[i] == '.') { E q = one(E::CAT); q.k.push_back(e); while (lit(".")) { E x = one(E::SET); x.set.set(hex2()); q.k.push_back(x); } return q; } return e; }
		bad("element");
	}
};

static unsigned flag_names(const std::string &t) { unsigned f = 0; static const struct { const char *n; unsigned v; } A[] = {{"icase", RE_ICASE}, {"text", RE_TEXT}, {"multi", RE_MULTI}, {"reverse", RE_REVERSE}, {"single", RE_SINGLE}, {"zone", RE_ZONE}}; std::istringstream is(t); std::string w; while (is >> w) { bool ok = false; for (auto &a : A) if (w == a.n) { f |= a.v; ok = true; } if (!ok) throw Bad("flag " + w); } return f; }
static const unsigned NAMED = RE_ICASE | RE_TEXT | RE_MULTI | RE_REVERSE | RE_SINGLE | RE_ZONE;

// ---- the indented tree
struct Tree {
	const std::string &s; size_t i = 0; std::vector<std::string> ids;
	explicit Tree(const std::string &t) : s(t) {}
	[[noreturn]] void bad(const std::string &w) { throw Bad(w + " at offset " + std::to_string(i)); }
	bool lit(const std::string &t) { if (s.compare(i, t.size(), t) == 0) { i += t.size(); return true; } return false; }
	void need(const std::string &t) { if (!lit(t)) bad("expected " + pbt::show(t)); }
	std::string until(const std::string &t) { size_t e = s.find(t, i); if (e == std::string::npos) bad("no " + t); std::string r = s.substr(i, e - i); i = e + t.size(); return r; }
	unsigned num() { if (lit("inf")) return INF; if (i >= s.size() || !isdigit((unsigned char)s[i])) bad("number"); unsigned long v = 0; while (i < s.size() && isdigit((unsigned char)s[i])) v = v * 10 + (s[i++] - '0'); return (unsigned)v; }
	unsigned ch() { if (s.compare(i, 2, "\\x") == 0 && i + 4 < s.size() && s[i + 4] == '\'' && isxdigit((unsigned char)s[i + 2]) && isxdigit((unsigned char)s[i + 3])) { unsigned v = strtoul(s.substr(i + 2, 2).c_str(), 0, 16); i += 4; return v; } if (i >= s.size()) bad("character"); return (unsigned char)s[i++]; }
	E node(size_t depth, unsigned flags) {
		need(std::string(depth * 4, ' ')); std::string ptr = until(" "); if (ptr.substr(0, 2) != "0x") bad("pointer"); bool dead = false;
		if (lit("(f: ")) { std::string f = until(") "); dead = false; (void)f; }
		if (lit("pos:(")) flags |= flag_names(until(")")), need(" "); if (lit("neg:(")) flags &= ~flag_names(until(")")), need(" "); need("-- ");
		E e; bool ic = flags & RE_ICASE;
		if (lit("EMPTY \n")) return e;
		if (lit("RIP\n")) return one(E::RIP);
		if (lit("CONCAT (") || s.compare(i, 5, "ALT (") == 0) { bool alt = lit("ALT ("); e.t = alt ? E::ALT : E::CAT; unsigned n = num(); need("):\n"); while (n--) e.k.push_back(node(depth + 1, flags)); return e; }
		if (lit("LITERAL '")) { if (i >= s.size()) bad("character"); e.t = E::SET; e.set.set((unsigned char)s[i++]); if (ic) e.set = fold(e.set); need("'\n"); return e; }
		if (lit("RANGE ")) { need(ptr + ": '"); unsigned a = ch(); need("'-'"); unsigned b = ch(); need("'\n"); if (b < a) bad("range"); e.t = E::SET; for (; a <= b; a++) e.set.set(a); if (ic) e.set = fold(e.set); return e; }
		if (lit("REPEAT {")) { e.t = E::REP; e.lo = num(); need(","); e.hi = num(); need("}\n"); e.k.push_back(node(depth + 1, flags)); return e; }
		if (lit("GROUP ")) { need(ptr + ": "); e.t = E::GROUP; e.id = num(); need("\n"); e.k.push_back(node(depth + 1, flags)); return e; }
		if (lit("ANCHOR ")) { e.t = E::ANCHOR; e.anchor = s[i++]; if (e.anchor != '^' && e.anchor != '$') bad("anchor"); need("\n"); return e; }
		if (lit("SUBTRACT ")) { need(ptr + ":\n"); e.t = E::SUB; e.k.push_back(node(depth + 1, flags)); e.k.push_back(node(depth + 1, flags)); return e; }
		bad("node type");
	}
	E run(unsigned flags) { E e = node(0, flags); if (i != s.size()) bad("something after the tree"); return e; }
};

// ---- DOT
struct Dot {
	std::map<std::string, std::string> label; std::map<std::string, std::vector<std::string>> kids; std::string root; std::map<std::string, int> parents;
	explicit Dot(const std::string &t) {
		std::istringstream is(t); std::string l; if (!std::getline(is, l) || l != "digraph G {") throw Bad("first line"); bool end = false;
		while (std::getline(is, l)) {
			if (end) throw Bad("something after the graph"); if (l == "}") { end = true; continue; } if (l.empty()) continue; if (l[0] != '\t') throw Bad("line " + l); l = l.substr(1);
			if (l.substr(0, 7) == "root = ") { root = l.substr(7); if (root.empty() || root.back() != ';') throw Bad("root"); root.pop_back(); continue; }
			if (l.substr(0, 5) == "node " || l.substr(0, 5) == "edge " || l.substr(0, 7) == "splines") continue;
			size_t a = l.find(" -> "), b = l.find(" [ label = <{");
			if (b != std::string::npos && (a == std::string::npos || a > b)) { std::string n = l.substr(0, b), r = l.substr(b + 13); if (r.size() < 6 || r.substr(r.size() - 5) != "}> ];") throw Bad("label " + l); r.resize(r.size() - 5); if (!label.emplace(n, r).second) throw Bad("two labels for " + n); continue; }
			if (a != std::string::npos && l.back() == ';') { std::string to = l.substr(a + 4); to.pop_back(); kids[l.substr(0, a)].push_back(to); parents[to]++; continue; }
			throw Bad("line " + l);
		}
		if (!end) throw Bad("no closing brace");
	}
	static unsigned ch(std::string t) { // one character as written in a record label
		if (t.size() == 4 && t.substr(0, 2) == "\\x") return strtoul(t.c_str() + 2, 0, 16);
		static const std::map<std::string, int> M = {{"&amp;", '&'}, {"&quot;", '"'}, {"&#x5D;", ']'}, {"&#x3C;", '<'}, {"&#x3E;", '>'}, {"&#x2423;", ' '}, {"\\a", 7}, {"\\b", 8}, {"\\f", 12}, {"\\n", 10}, {"\\r", 13}, {"\\t", 9}, {"\\v", 11}, {"\\{", '{'}, {"\\}", '}'}, {"\\|", '|'}, {"\\\\", '\\'}};
		auto it = M.find(t); if (it != M.end()) return it->second; if (t.size() != 1 || strchr("{}|\\<>&\"", t[0])) throw Bad("character " + t); return (unsigned char)t[0];
	}
	static unsigned count(const std::string &t) { if (t == "&#x221e;") return INF; if (t.empty() || !isdigit((unsigned char)t[0])) throw Bad("count " + t); return strtoul(t.c_str(), 0, 10); }
	E node(const std::string &n, unsigned flags) {
		auto it = label.find(n); if (it == label.end()) throw Bad("node " + n + " has no label"); std::string l = it->second, arg; size_t p = l.find("}|{"); if (p != std::string::npos) { arg = l.substr(p + 3); l.resize(p); }
		std::string type = l; p = l.find("|flags:"); if (p != std::string::npos) { type = l.substr(0, p); std::string fl = l.substr(p + 7); size_t q;
			if ((q = fl.find(" pos(")) != std::string::npos) flags |= flag_names(fl.substr(q + 5, fl.find(')', q) - q - 5)); if ((q = fl.find(" neg(")) != std::string::npos) flags &= ~flag_names(fl.substr(q + 5, fl.find(')', q) - q - 5)); }
		E e; bool ic = flags & RE_ICASE; auto &ks = kids[n]; size_t want = 0;
		if (type == "EMPTY") ; else if (type == "RIP") e.t = E::RIP;
		else if (type == "CONCAT" || type == "ALT") { e.t = type == "ALT" ? E::ALT : E::CAT; want = count(arg); }
		else if (type == "LITERAL") { e.t = E::SET; e.set.set(ch(arg)); }
		else if (type == "RANGE") { e.t = E::SET; size_t q = arg.find(" &ndash; "); if (q == std::string::npos) throw Bad("range " + arg); unsigned a = ch(arg.substr(0, q)), b = ch(arg.substr(q + 9)); if (b < a) throw Bad("range " + arg); for (; a <= b; a++) e.set.set(a); }
		else if (type == "REPEAT") { e.t = E::REP; want = 1; if (arg.substr(0, 6) != "&#x7b;" || arg.size() < 12 || arg.substr(arg.size() - 6) != "&#x7d;") throw Bad("repeat " + arg); std::string m = arg.substr(6, arg.size() - 12); size_t q = m.find(", "); if (q == std::string::npos) throw Bad("repeat " + arg); e.lo = count(m.substr(0, q)); e.hi = count(m.substr(q + 2)); }
		else if (type == "GROUP") { e.t = E::GROUP; want = 1; if (arg.size() < 2 || arg[0] != '#') throw Bad("group " + arg); e.id = count(arg.substr(1)); }
		else if (type == "ANCHOR") { e.t = E::ANCHOR; if (arg != "^" && arg != "$") throw Bad("anchor " + arg); e.anchor = arg[0]; }
		else if (type == "SUBTRACT") { e.t = E::SUB; want = 2; }
		else throw Bad("type " + type);
		if (ic && e.t == E::SET) e.set = fold(e.set);
		if (ks.size() != want) throw Bad("node " + n + " of type " + type + " has " + std::to_string(ks.size()) + " children, not " + std::to_string(want));
		for (auto &k : ks) { if (parents[k] != 1) throw Bad("node " + k + " has " + std::to_string(parents[k]) + " parents"); e.k.push_back(node(k, flags)); } return e;
	}
	E run(unsigned flags) { std::string top; for (auto &l : label) if (!parents.count(l.first)) { if (!top.empty()) throw Bad("two roots"); top = l.first; } if (top.empty()) throw Bad("no root"); if (root != top) throw Bad("root is said to be " + root + ", but it is " + top); return node(top, flags); }
};

static void groups(const E &e, std::vector<unsigned> &v) { if (e.t == E::GROUP) v.push_back(e.id); for (auto &k : e.k) groups(k, v); }

static std::string render(const struct ast *a, const struct fsm_options *o, int flags, enum ast_print_lang lang, pbt::Ctx &c) {
	char *b = nullptr; size_t n = 0; FILE *f = open_memstream(&b, &n); int r = ast_print(f, a, o, (enum re_flags)flags, lang); fclose(f); std::string s(b, n); free(b); REQ(c, r == 0, "print", "ast_print failed"); return s;
}
static const struct { const char *n; enum ast_print_lang l; } L[] = {{"abnf", AST_PRINT_ABNF}, {"tree", AST_PRINT_TREE}, {"dot", AST_PRINT_DOT}};

static void check(pbt::Ctx &c, const struct ast *a, const struct fsm_options &o, int flags, int printflags, const Nfa &m, const char *dollar, int which, int compflags, const std::string &what) {
	std::string p = render(a, &o, printflags, L[which].l, c), ctx = what + " as " + L[which].n + ":\n" + p; if (p.size() > 30000) c.discard();
	E e; try { switch (L[which].l) { case AST_PRINT_ABNF: { Abnf r(p); e = r.rulelist(); break; } case AST_PRINT_TREE: { Tree r(p); e = r.run(printflags); break; } default: { Dot r(p); e = r.run(printflags); } } } catch (Bad &b) { c.fail(std::string(L[which].n) + ":syntax", std::string(b.what()) + "\n" + ctx); }
	if (L[which].l != AST_PRINT_ABNF && flags >= 0) { std::vector<unsigned> g; groups(e, g); std::sort(g.begin(), g.end()); for (size_t i = 1; i < g.size(); i++) REQ(c, g[i] != g[i - 1], std::string(L[which].n) + ":group", "group number " + std::to_string(g[i]) + " is shown twice\n" + ctx); }
	std::string t; try { pcre(e, dollar, t); } catch (Bad &) { c.discard(); }
	if (t.size() > 8000) c.discard(); struct re_err err; Fsm g(rex::comp(RE_PCRE, t, compflags, &err));
	if (!g.f) { if (err.e == RE_EUNSUPPORTED) c.discard(); c.fail(std::string(L[which].n) + ":reject", "reads as " + t + ", rejected: " + re_strerror(err.e) + "\n" + ctx); }
	rex::determinise(c, g, 4000); Nfa q = extract(c, g); std::string w;
	try { if (!equivalent(m, q, CMP_LANG, &w, 20000)) c.fail(std::string(L[which].n) + (accepts(m, w) ? ":missed" : ":matched"), "input " + pbt::show(w) + " is " + (accepts(m, w) ? "" : "not ") + "in the language but the text reads as " + t + "\n" + ctx); } catch (TooBig &) { c.discard(); }
}

static void expr(pbt::Ctx &c, enum re_dialect d, const std::string &txt, int flags, int implied, int anchors) {
	struct fsm_options o; memset(&o, 0, sizeof o); if (c.chance(1, 4)) o.always_hex = 1; int which = (int)c.draw(3);
	c.describe([&](std::ostream &s) { s << L[which].n << " of dialect " << d << " " << pbt::show(txt) << " flags 0x" << std::hex << flags << (o.always_hex ? " hex" : ""); });
	struct re_err err; Fsm f(rex::comp(d, txt, flags, &err)); if (!f.f) c.discard();
	rex::StrSrc s{&txt, 0}; int unsat = 0; struct ast *a = re_parse(d, rex::str_getc, &s, (enum re_flags)(flags | implied), &err, c.chance(1, 2) ? &unsat : nullptr);
	REQ(c, a, "parse", "re_parse fails where re_comp does not");
	rex::determinise(c, f, 2000); Nfa m = extract(c, f); const char *dollar = anchors >> A_ENDNL & 1 ? "$" : "\\z"; bool dup = d != RE_PCRE; (void)dup;
	int pf = flags | implied; if (c.chance(1, 5)) pf ^= RE_ICASE; // whatever it is told, the rendering is relative to it
	struct Free { struct ast *a; ~Free() { ast_free(a); } } fr{a};
	// ICASE is explicit in what is read; the other flags apply as given
	check(c, a, o, L[which].l == AST_PRINT_TREE ? 0 : -1, pf, m, dollar, which, (flags | implied) & ~RE_ICASE, pbt::show(txt));
	if (!empty_lang(m) && txt.size() > 1) c.nontrivial(); c.count(L[which].n);
}
static void shape(pbt::Ctx &c, const P &t, int *mask) { if (expanded(t) > 120) c.discard(); anchors_in(t, mask); if ((*mask >> A_END & 1) && (*mask >> A_ENDNL & 1)) c.discard(); if (!tidy(t)) c.discard(); }

PBT_CASE(pcre, 6, "the language is not empty and the expression is longer than one byte") {
	Opts o; o.d = PCRE; o.width = 3; o.inline_flags = c.chance(1, 2); o.anchors = c.chance(1, 2); Gen g(c, o); int mask = 0;
	int flags = 0; if (c.chance(1, 4)) { flags |= RE_ICASE; g.ic = true; } if (c.chance(1, 4)) flags |= RE_SINGLE; if (c.chance(1, 5)) flags |= RE_ANCHORED; g.dotall = flags & RE_SINGLE;
	P t = g.run(); if (g.txt.size() > 250) c.discard(); shape(c, t, &mask); expr(c, RE_PCRE, g.txt, flags, 0, mask);
}
PBT_CASE(dialects, 4, "the language is not empty and the expression is longer than one byte") {
	static const enum re_dialect A[] = {RE_NATIVE, RE_SQL, RE_GLOB, RE_LIKE, RE_LITERAL}; enum re_dialect d = A[c.draw(5)]; std::string txt; int fl = 0, mask = 0;
	if (c.chance(1, 4)) fl |= RE_ICASE;
	if (d == RE_NATIVE || d == RE_SQL) { Opts o; o.d = d == RE_NATIVE ? NATIVE : SQL; o.width = 3; Gen g(c, o); P t = g.run(); shape(c, t, &mask); txt = g.txt; }
	else { int n = c.range(0, 8); for (int i = 0; i < n; i++) txt += c.chance(1, 5) ? (char)c.draw(256) : "abAb*?%_cd\n"[c.draw(11)]; }
	if (txt.size() > 200) c.discard(); expr(c, d, txt, fl, d == RE_NATIVE ? 0 : RE_ANCHORED | RE_SINGLE, mask);
}
PBT_CASE(automaton, 3, "the language is not empty and the automaton has more than one state") {
	GenOpts o; o.max_states = 4; o.ids = false; o.eager = false; o.must_start = false; Nfa a = gen_nfa(c, o); struct fsm_options po; memset(&po, 0, sizeof po); if (c.chance(1, 4)) po.always_hex = 1; int which = (int)c.draw(3);
	c.describe([&](std::ostream &s) { s << L[which].n << (po.always_hex ? " hex " : " ") << model::dump(a); });
	Fsm f(build(c, a)); struct ast *t = ast_new_from_fsm(f); REQ(c, t, "new_from_fsm", "failed"); struct Free { struct ast *a; ~Free() { ast_free(a); } } fr{t};
	check(c, t, po, -1, 0, a, "\\z", which, RE_ANCHORED, model::dump(a)); if (!empty_lang(a) && a.n() > 1) c.nontrivial(); c.count(L[which].n);
}
