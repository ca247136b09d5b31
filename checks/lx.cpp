// BUILD: variant=san progs=lx libs=-rdynamic
// Property: lexers generated by lx from generated specifications split inputs into the tokens, texts and positions that
// greedy tokenisation of the specification's zones gives; ambiguous specifications are refused.
// Oracle: each pattern's language computed here by automaton algebra (complete minimal DFAs), zones as unions of those,
// a direct tokeniser over them. The generated C is compiled and run in every I/O, buffer and getc configuration.
#include "codegen.hpp"
#include "rex.hpp"
#include "gv.hpp"
#include <dlfcn.h>
#include <sys/wait.h>
using namespace model; using namespace fsmx; using namespace codegen;

// ---- languages: complete minimal DFAs over all bytes
struct L { std::vector<std::vector<short>> to; std::vector<char> fin; int n() const { return (int)fin.size(); } };
static const size_t CAP = 120;
static Nfa nfa_of(const L &l) { Nfa a; for (int i = 0; i < l.n(); i++) { a.add(); a.st[i].end = l.fin[i]; } a.start = 0; for (int i = 0; i < l.n(); i++) { std::map<int, Bits> m; for (int b = 0; b < 256; b++) m[l.to[i][b]].set(b); for (auto &e : m) a.st[i].edges.push_back({e.second, e.first}); } return a; }
static L lang(pbt::Ctx &c, const Nfa &a) {
	try {
		std::vector<int> cls; auto sy = reps({&a}, &cls); Dfa d = subset(a, CMP_LANG, 600, &sy); auto cl = moore(d); std::map<int, int> at; for (size_t i = 0; i < sy.size(); i++) at[cls[sy[i]]] = (int)i;
		std::map<int, int> num; std::vector<int> rep; std::vector<int> q{0}; num[cl[0]] = 0; rep.push_back(0); L l;
		for (size_t i = 0; i < rep.size(); i++) { l.fin.push_back(d.lab[rep[i]].end); l.to.emplace_back(256); std::vector<int> t; for (size_t k = 0; k < sy.size(); k++) { int x = d.to[rep[i]][k]; auto r = num.insert({cl[x], (int)num.size()}); if (r.second) rep.push_back(x); t.push_back(r.first->second); } for (int b = 0; b < 256; b++) l.to[i][b] = (short)t[at[cls[b]]]; }
		if (l.fin.size() > CAP) c.discard(); return l;
	} catch (TooBig &) { c.discard(); }
}
static L prod(pbt::Ctx &c, const L &a, const L &b, std::function<bool(bool, bool)> op) {
	Nfa r; std::map<std::pair<int, int>, int> id; std::vector<std::pair<int, int>> v; auto get = [&](int x, int y) { auto p = std::make_pair(x, y); auto it = id.find(p); if (it != id.end()) return it->second; int k = r.add(); id[p] = k; v.push_back(p); return k; }; r.start = get(0, 0);
	for (size_t i = 0; i < v.size(); i++) { if (v.size() > 2000) c.discard(); int x = v[i].first, y = v[i].second; r.st[i].end = op(a.fin[x], b.fin[y]); std::map<std::pair<int, int>, Bits> m; for (int k = 0; k < 256; k++) m[{a.to[x][k], b.to[y][k]}].set(k); for (auto &e : m) { int t = get(e.first.first, e.first.second); r.st[i].edges.push_back({e.second, t}); } }
	return lang(c, r);
}
static L alt(pbt::Ctx &c, const L &a, const L &b) { return prod(c, a, b, [](bool x, bool y) { return x || y; }); }
static L sub(pbt::Ctx &c, const L &a, const L &b) { return prod(c, a, b, [](bool x, bool y) { return x && !y; }); }
static L inter(pbt::Ctx &c, const L &a, const L &b) { return prod(c, a, b, [](bool x, bool y) { return x && y; }); }
static L comp(L a) { for (auto &f : a.fin) f = !f; return a; }
static L cat(pbt::Ctx &c, const L &a, const L &b) { Nfa x = nfa_of(a), y = nfa_of(b); int base = x.n(); for (auto &s : y.st) { x.st.push_back(s); for (auto &e : x.st.back().edges) e.second += base; } for (int i = 0; i < base; i++) if (x.st[i].end) { x.st[i].end = false; x.st[i].eps.insert(base); } return lang(c, x); }
static L star(pbt::Ctx &c, const L &a, bool zero, bool more) { Nfa x = nfa_of(a); int s = x.add(), e = x.add(); x.st[s].eps.insert(0); x.start = s; for (int i = 0; i < s; i++) if (x.st[i].end) { x.st[i].end = false; x.st[i].eps.insert(e); } x.st[e].end = true; if (zero) x.st[s].eps.insert(e); if (more) x.st[e].eps.insert(s); return lang(c, x); }
static L rev(pbt::Ctx &c, const L &a) { return lang(c, rx::reverse_nfa(nfa_of(a))); }
static L lit(pbt::Ctx &c, const std::string &s) { Nfa a; a.start = a.add(); for (unsigned char ch : s) { int t = a.add(); Bits b; b.set(ch); a.st[t - 1].add(b, t); } a.st[a.n() - 1].end = true; return lang(c, a); }
static L any1(pbt::Ctx &c) { Nfa a; a.start = a.add(); a.add(); Bits b; b.set(); a.st[0].add(b, 1); a.st[1].end = true; return lang(c, a); }
static bool none(const L &l) { for (char f : l.fin) if (f) return false; return true; }

// ---- specifications
struct Map { L l; int tok, to; };
struct Zone { int parent; std::vector<Map> maps; std::vector<std::pair<std::string, L>> vars; Nfa dfa; Dfa d; std::vector<std::vector<int>> t; std::vector<int> acc; };
struct Spec { std::vector<Zone> z; int toks = 0; std::string txt; bool ambiguous = false, nullable = false, nested = false; std::vector<std::string> bits; };
static const char *const TOK[] = {"alpha", "b", "c_1", "_d", "e9", "word", "x", "y"};
struct Ex { L l; std::string txt; int prec; };
enum { PRIM, POST, PRE, CATP = 4, SUB, AND, ALT };

struct SpecGen {
	pbt::Ctx &c; Spec s; int budget = 60; bool rich; std::string ops;
	SpecGen(pbt::Ctx &c, bool rich) : c(c), rich(rich) {}
	std::string sp() { switch (c.weighted({20, 3, 2, 1})) { case 0: return " "; case 1: return "\n"; case 2: return "\t"; default: return " # it's \"/ c\n"; } }
	std::string osp() { return c.chance(1, 2) ? "" : sp(); }
	int chr() { switch (c.weighted({14, 4, 2})) { case 0: return "abcd"[c.draw(4)]; case 1: return " \n/*-\"'01"[c.draw(9)]; default: { int b = (int)c.draw(256); return b; } } }
	std::string chars(int max) { std::string r; int n = 1 + (int)c.small(max - 1); if (n > max) n = max; while (n--) r += (char)chr(); return r; }
	std::string quote(const std::string &w) { // "..." with escapes
		std::string o = "\""; bool hexed = false;
		for (unsigned char ch : w) { char b[8]; bool need = ch == '"' || ch == '\\' || ch == 0, afterhex = hexed && isxdigit(ch); hexed = false;
			if (need || afterhex || c.chance(1, 6)) {
				const char *e = strchr("\\\"\f\n\r\t\v", ch); if (ch && e && c.chance(2, 3)) { o += '\\'; o += "\\\"fnrtv"[e - "\\\"\f\n\r\t\v"]; continue; }
				if (c.chance(1, 2)) { snprintf(b, sizeof b, c.chance(1, 2) ? "\\x%02x" : c.chance(1, 2) ? "\\x%X" : "\\x%03X", ch); hexed = true; } else { snprintf(b, sizeof b, "\\%03o", ch); hexed = true; } o += b; continue; }
			o += (char)ch; }
		return o + "\"";
	}
	Ex leaf(int z) {
		for (;;) switch (c.weighted({10, 6, 8, 4, 3})) {
		case 0: { std::string w = chars(4); for (auto &ch : w) if (ch == '\'' || ch == 0) ch = 'q'; if (c.chance(1, 120)) w = std::string(c.range(500, 520), 'k'), s.bits.push_back("long"); s.bits.push_back(w); if (w.size() > 100) { if (!rich) continue; c.count("long-literal"); if (w.size() > CAP) w.resize(100); } return {lit(c, w), "'" + w + "'", PRIM}; }
		case 1: { std::string w = chars(4); s.bits.push_back(w); return {lit(c, w), quote(w), PRIM}; }
		case 2: { rx::Opts o; o.d = rx::NATIVE; o.anchors = false; o.depth = 1; o.width = 3; o.max_count = 3; rx::Gen g(c, o); g.dotall = true; g.ic = c.chance(1, 6); rx::P t = g.run(); if (g.txt.size() > 300 || g.txt.empty() || g.txt.find('/') != std::string::npos || g.txt.find('\0') != std::string::npos || rx::expanded(t) > 40) { if (budget-- < 0) c.discard(); continue; }
			L l = lang(c, rx::to_nfa(t, false)); for (int i = 0; i < 2; i++) s.bits.push_back(rx::subject(c, t)); return {l, "/" + g.txt + "/" + (g.ic ? "i" : c.chance(1, 10) ? "s" : ""), PRIM}; }
		case 3: { std::vector<std::pair<std::string, L>> v; for (int k = z; k >= 0; k = s.z[k].parent) for (auto &x : s.z[k].vars) { bool sh = false; for (auto &y : v) sh |= y.first == x.first; if (!sh) v.push_back(x); if (!sh && k != z) v.push_back(x); } if (v.empty()) continue; auto &x = v[c.draw(v.size())]; c.count("variable"); return {x.second, x.first, PRIM}; }
		default: { std::set<int> ts; for (auto &m : s.z[z].maps) if (m.tok >= 0) ts.insert(m.tok); if (ts.empty()) continue; auto it = ts.begin(); std::advance(it, c.draw(ts.size())); Ex e{lit(c, ""), std::string("$") + TOK[*it], PRIM}; bool first = true; for (auto &m : s.z[z].maps) if (m.tok == *it) { e.l = first ? m.l : alt(c, e.l, m.l); first = false; } c.count("token-reference"); return e; }
		}
	}
	std::string wrap(const Ex &e, int p) { return e.prec > p || c.chance(1, 12) ? "(" + osp() + e.txt + osp() + ")" : e.txt; }
	// operators need not accept an operand which matches nothing; only a whole mapping is ever made so, by its exit
	Ex expr(int z, int depth) { for (;;) { Ex e = expr_any(z, depth); if (!none(e.l)) return e; } }
	Ex expr_any(int z, int depth) {
		if (budget-- < 0) c.discard();
		if (depth <= 0 || c.chance(1, 2)) return leaf(z);
		switch (c.weighted({3, 3, 3, 8, 4, 2, 5, 1, 2})) {
		case 0: { Ex e = expr(z, depth - 1); return {star(c, e.l, true, true), wrap(e, POST) + osp() + "*", POST}; }
		case 1: { Ex e = expr(z, depth - 1); return {star(c, e.l, false, true), wrap(e, POST) + osp() + "+", POST}; }
		case 2: { Ex e = expr(z, depth - 1); return {star(c, e.l, true, false), wrap(e, POST) + osp() + "?", POST}; }
		case 3: { Ex a = expr(z, depth - 1), b = expr(z, depth - 1); return {cat(c, a.l, b.l), wrap(a, PRE) + sp() + wrap(b, CATP), CATP}; }
		case 4: { Ex a = expr(z, depth - 1), b = expr(z, depth - 1); c.count("subtract"); return {sub(c, a.l, b.l), wrap(a, CATP) + osp() + (c.chance(1, 3) ? "\\" : "-") + sp() + wrap(b, CATP), SUB}; }
		case 5: { Ex a = expr(z, depth - 1), b = expr(z, depth - 1); c.count("and"); return {inter(c, a.l, b.l), wrap(a, AND) + osp() + "&" + osp() + wrap(b, SUB), AND}; }
		case 6: { Ex a = expr(z, depth - 1), b = expr(z, depth - 1); return {alt(c, a.l, b.l), wrap(a, ALT) + osp() + "|" + osp() + wrap(b, AND), ALT}; }
		case 7: { Ex e = expr(z, depth - 1); if (c.chance(1, 2)) { c.count("complement"); return {comp(e.l), "~" + osp() + wrap(e, PRE), PRE}; } return {e.l, "^" + osp() + wrap(e, PRE), PRE}; }
		default: { Ex e = expr(z, depth - 1); c.count("reverse"); return {rev(c, e.l), "!" + osp() + wrap(e, PRE), PRE}; }
		}
	}
	// would this mapping make its zone ambiguous, or accept nothing at all?
	bool awkward(int z, const L &l, int tok, int to) { if (l.fin[0] || none(l)) return true; for (auto &m : s.z[z].maps) if ((m.tok != tok || m.to != to) && !none(inter(c, m.l, l))) return true; return false; }
	void add(int z, const L &l, int tok, int to) { for (auto &m : s.z[z].maps) if (m.tok == tok && m.to == to) { m.l = alt(c, m.l, l); return; } s.z[z].maps.push_back({l, tok, to}); }
	std::string arrow(int tok) { return tok < 0 ? "" : osp() + "->" + osp() + "$" + TOK[tok]; }
	// an expression usable as a mapping of zone `z` (whose exit has to be subtracted), usually one that is not ambiguous
	Ex mapping(int z, int in, int tok, int to, const L *exit, L *out) {
		for (int i = 0;; i++) { budget = 40; Ex e = expr(in, rich ? 3 : 2); *out = exit ? sub(c, e.l, *exit) : e.l; if (!awkward(z, *out, tok, to) || c.chance(1, 40)) return e; if (i > 8) c.discard(); }
	}
	int token() { return c.chance(1, 4) ? -1 : (int)c.draw(8); }
	// a zone entry known to be unambiguous: `exit` of the child itself is never checked against anything but the child's own
	void things(int z, const L *exit, int depth) {
		int n = c.range(1, depth ? 3 : 5), made = 0;
		while (n-- > 0 || !made) {
			s.txt += osp();
			switch (c.weighted({10, 2, depth < 3 ? 3u : 0u, depth < 3 ? 1u : 0u})) {
			case 0: { int tok = token(); L l; Ex e = mapping(z, z, tok, -1, exit, &l); add(z, l, tok, -1); s.txt += e.txt + arrow(tok) + osp() + ";"; made++; break; }
			case 1: { static const char *const nm[] = {"v", "name", "W_2", "alpha"}; std::string name = nm[c.draw(4)]; budget = 40; Ex e = expr(z, 2); s.txt += name + osp() + "=" + osp() + e.txt + osp() + ";"; bool have = false; for (auto &v : s.z[z].vars) if (v.first == name) { v.second = e.l; have = true; } if (!have) s.z[z].vars.push_back({name, e.l}); break; }
			case 2: { // from .. to
				int k = c.chance(1, 4) ? 2 : 1, child = -1; std::string t; s.nested = true;
				for (int i = 0; i < k; i++) { int tok = token(); L l; Ex e = mapping(z, z, tok, child < 0 ? -2 : child, exit, &l); if (child < 0) { child = (int)s.z.size(); s.z.emplace_back(); s.z[child].parent = z; } add(z, l, tok, child); t += (i ? osp() + "," + osp() : "") + e.txt + arrow(tok); }
				t += osp() + ".." + osp(); k = c.chance(1, 4) ? 2 : 1; L ex; for (int i = 0; i < k; i++) { int tok = token(); L l; Ex e = mapping(child, z, tok, z, nullptr, &l); add(child, l, tok, z); ex = i ? alt(c, ex, l) : l; t += (i ? osp() + "," + osp() : "") + e.txt + arrow(tok); }
				s.txt += t; made++; c.count("zone");
				if (c.chance(2, 5)) { L b = sub(c, any1(c), ex); add(child, b, -1, -1); s.txt += osp() + ";"; c.count("implicit-zone"); } else { s.txt += osp() + "{"; things(child, &ex, depth + 1); s.txt += "}"; } break; }
			default: { int tok = token(); L l; Ex e = mapping(z, z, tok, -2, exit, &l); int child = (int)s.z.size(); s.z.emplace_back(); s.z[child].parent = z; add(z, l, tok, child); s.txt += e.txt + arrow(tok) + osp() + "{"; things(child, nullptr, depth + 1); s.txt += "}"; made++; c.count("one-way-zone"); s.nested = true; }
			}
		}
		s.txt += osp();
	}
	void run() { s.z.emplace_back(); s.z[0].parent = -1; things(0, nullptr, 0); if (s.z.size() > 12) c.discard(); finish(); }
	void finish() {
		for (auto &z : s.z) {
			Nfa a; a.start = a.add(); for (size_t i = 0; i < z.maps.size(); i++) { Nfa m = nfa_of(z.maps[i].l); int base = a.n(); for (auto &st : m.st) { a.st.push_back(st); for (auto &e : a.st.back().edges) e.second += base; if (st.end) a.st.back().ids.insert((id_t)i); } a.st[0].eps.insert(base); }
			std::vector<int> cls; auto sy = reps({&a}, &cls); try { z.d = subset(a, CMP_IDS, 3000, &sy); } catch (TooBig &) { c.discard(); } auto lv = live(z.d); std::map<int, int> at; for (size_t i = 0; i < sy.size(); i++) at[cls[sy[i]]] = (int)i;
			for (int i = 0; i < z.d.n(); i++) { z.t.emplace_back(256); for (int b = 0; b < 256; b++) { int x = z.d.to[i][at[cls[b]]]; z.t[i][b] = lv[x] ? x : -1; } auto &l = z.d.lab[i]; z.acc.push_back(l.end ? (int)*l.ids.begin() : -1); if (l.end && l.ids.size() > 1) s.ambiguous = true; }
			if (z.d.lab[0].end) s.nullable = true;
		}
	}
	// text that mostly lexes
	std::string input() {
		std::string w; int z = 0, st = 0; size_t len = c.draw(c.chance(1, 5) ? 80 : 20);
		while (w.size() < len) {
			if (c.chance(1, 25)) { if (!s.bits.empty() && c.chance(1, 2)) w += s.bits[c.draw(s.bits.size())]; else w += (char)chr(); continue; }
			Zone &Z = s.z[z]; std::vector<unsigned char> ok; for (int i = 0; i < 12; i++) { int b = i < 8 ? "abcd \n01"[i] : (int)c.draw(256); if (Z.t[st][b] >= 0) ok.push_back((unsigned char)b); } if (ok.size() < 3) for (int b = 0; b < 256; b++) if (Z.t[st][b] >= 0) ok.push_back((unsigned char)b);
			bool stop = ok.empty() || (Z.acc[st] >= 0 && c.chance(1, 3));
			if (stop) { if (Z.acc[st] >= 0) { int to = Z.maps[Z.acc[st]].to; if (to >= 0) z = to; st = 0; } else st = 0; if (ok.empty() && st == 0 && w.empty()) break; if (c.chance(1, 40)) break; if (Z.t[0] == std::vector<int>(256, -1)) break; continue; }
			unsigned char ch = ok[c.draw(ok.size())]; w += (char)ch; st = Z.t[st][ch];
		}
		return w;
	}
};
enum { T_EOF = 100, T_UNKNOWN = 101, T_ERROR = 102 };
struct Tok { int tok; size_t start, end; int zone; size_t need; bool exact; };
static std::vector<Tok> tokenise(const Spec &s, const std::string &w, bool *interesting, size_t cap) {
	std::vector<Tok> r; size_t pos = 0; int z = 0; size_t need = 0;
	for (;;) {
		const Zone &Z = s.z[z]; size_t start = pos; int st = 0; while (pos < w.size()) { int t = Z.t[st][(unsigned char)w[pos]]; if (t < 0) break; st = t; pos++; }
		bool eof = pos == w.size(), acc = Z.acc[st] >= 0; size_t used = pos - start + (eof ? 0 : 1); if (used > need) need = used; if (used > cap) { r.push_back({T_ERROR, start, pos, z, need, false}); return r; }
		auto push = [&](int t, bool ex) { if (pos - start + (t == T_UNKNOWN && !eof) + 1 > cap) { r.push_back({T_ERROR, start, pos, z, need, false}); return false; } r.push_back({t, start, pos, z, need, ex}); return true; };
		if (eof && pos == start) { r.push_back({T_EOF, start, pos, z, need, true}); return r; }
		if (!acc) { push(T_UNKNOWN, true); return r; }
		const Map &m = Z.maps[Z.acc[st]];
		if (eof && m.tok < 0 && m.to < 0) { bool dead = Z.parent >= 0 && &m == &Z.maps.back() && Z.maps.size() > 1; for (size_t i = 0; i + 1 < Z.maps.size(); i++) if (Z.maps[i].to != Z.parent) dead = false; if (dead) { *interesting = true; push(T_UNKNOWN, true); } else push(T_EOF, false); return r; }
		if (m.to >= 0) z = m.to; if (m.tok >= 0) { if (!push(m.tok, true)) return r; r.back().zone = z; }
	}
}
// ---- generated lexer configurations
struct Conf { int io, getc; bool dyn, xbuf, nobuf, xpos, xname, xex, xcomments, hex; std::string e, t; int conc; int low, high, factor; bool fixarr; bool unbuf() const { return xbuf || nobuf; } };
static const char *const IO[] = {"getc", "str", "pair"}, *const GC[] = {"fgetc", "sgetc", "agetc", "fdgetc", ""};
static Conf gen_conf(pbt::Ctx &c) {
	Conf f; f.io = (int)c.draw(3); f.getc = (int)c.draw(5); f.dyn = c.chance(1, 2); f.nobuf = c.chance(1, 12); f.xbuf = c.chance(1, 6) && !f.nobuf; f.xpos = c.chance(1, 6); f.xname = c.chance(1, 5); f.xex = c.chance(1, 3); f.xcomments = c.chance(1, 4); f.hex = c.chance(1, 5);
	if (c.chance(1, 3)) f.e = c.chance(1, 2) ? "p_" : "Foo"; if (c.chance(1, 3)) f.t = "T_"; f.conc = c.chance(1, 4) ? c.range(2, 8) : 1; static const int low[] = {0, 1, 2, 3, 16}; f.low = low[c.draw(5)]; f.high = c.chance(1, 2) ? 0 : c.range(1, 40); f.factor = c.chance(1, 4) ? 3 : 2; if (f.high) f.high += f.factor; f.fixarr = c.chance(1, 2); return f;
}
static std::string args(const Conf &f) {
	std::string a = std::string(" -k ") + IO[f.io]; if (f.io == 0 && *GC[f.getc]) a += std::string(" -g ") + GC[f.getc]; a += f.nobuf ? "" : f.dyn ? " -b dyn" : " -b fixed"; if (f.xbuf) a += " -x buf"; if (f.xpos) a += " -x pos"; if (f.xname) a += " -x name"; if (f.xex) a += " -x example"; if (f.xcomments) a += " -x comments"; if (f.hex) a += " -X";
	if (!f.e.empty()) a += " -e " + f.e; if (!f.t.empty()) a += " -t " + f.t; if (f.conc > 1) a += " -C " + std::to_string(f.conc); return a;
}
struct Run { int status; std::string err; };
static Run lx(pbt::Ctx &c, const std::string &a, const std::string &out) {
	const char *bin = getenv("PROG_LX"); int r = system((std::string(bin) + a + " < " + c.scratch + "/spec.lx > " + out + " 2> " + c.scratch + "/lx.err").c_str());
	return {WIFEXITED(r) ? WEXITSTATUS(r) : 1000 + WTERMSIG(r), read_file(c.scratch + "/lx.err", 6000)};
}
static bool crashed(const Run &r) { return r.status >= 128 || r.err.find("Sanitizer") != std::string::npos || r.err.find("runtime error") != std::string::npos; }
static std::string upper(std::string s) { for (auto &ch : s) ch = (char)toupper((unsigned char)ch); return s; }
static std::string driver(const Spec &, const Conf &f) {
	std::string A = f.e.empty() ? "lx_" : f.e, LX = f.e + "lx"; std::ostringstream o;
	o << "#include <stdio.h>\n#include <stddef.h>\n#include <stdlib.h>\n#include <string.h>\n";
	if (f.low) o << "#define LX_DYN_LOW " << f.low << "\n"; if (f.high) o << "#define LX_DYN_HIGH " << f.high << "\n"; if (f.factor != 2) o << "#define LX_DYN_FACTOR " << f.factor << "\n"; if (!f.dyn && f.fixarr) o << "#define LX_FIXED_SIZE 4096\n";
	o << "#define LX_HEADER \"gen.h\"\n#include \"gen.h\"\n#include \"gen.c\"\n#include <unistd.h>\n";
	o << "typedef void (*cb_t)(void *o, int tok, const char *text, long len, const unsigned *pos, const char *name);\ntypedef void (*ex_t)(void *o, int tok, const char *text);\nstatic const unsigned char *in_p, *in_e;\nstatic int my_getc(struct " << LX << " *lx) { return in_p == in_e ? EOF : *in_p++; }\n";
	return o.str();
}
static std::string driver_main(const Spec &s, const Conf &f) {
	std::string A = f.e.empty() ? "lx_" : f.e, LX = f.e + "lx", T = f.t.empty() ? "TOK_" : f.t; std::ostringstream o; std::set<int> used; for (auto &z : s.z) for (auto &m : z.maps) if (m.tok >= 0) used.insert(m.tok);
	o << "int drv(const char *in, size_t n, int usebuf, size_t cap, size_t rd, cb_t cb, ex_t ex, void *o) {\n\tstruct " << LX << " lx; unsigned pos[6]; int i, stop = 0; char *rb = malloc(rd);\n";
	if (!f.nobuf) o << (f.dyn ? "\tstruct lx_dynbuf buf = { 0 };\n" : "\tstruct lx_fixedbuf buf;\n");
	if (!f.dyn && !f.nobuf) o << (f.fixarr ? "" : "\tbuf.a = malloc(cap);\n") << "\tbuf.p = buf.a; buf.len = cap;\n";
	o << "\t" << A << "init(&lx);\n";
	if (f.io == 0) switch (f.getc) {
		case 0: o << "\tint fd[2]; pipe(fd); write(fd[1], in, n); close(fd[1]); FILE *fp = fdopen(fd[0], \"r\"); lx.lgetc = " << A << "fgetc; lx.getc_opaque = fp;\n"; break;
		case 1: o << "\tconst char *sp = in; lx.lgetc = " << A << "sgetc; lx.getc_opaque = &sp;\n"; break;
		case 2: o << "\tstruct lx_arr arr; arr.p = (char *)in; arr.len = n; lx.lgetc = " << A << "agetc; lx.getc_opaque = &arr;\n"; break;
		case 3: o << "\tint fd[2]; pipe(fd); write(fd[1], in, n); close(fd[1]); struct lx_fd d; d.buf = rb; d.p = rb; d.bufsz = rd; d.len = 0; d.fd = fd[0]; lx.lgetc = " << A << "dgetc; lx.getc_opaque = &d;\n"; break;
		default: o << "\tin_p = (const unsigned char *)in; in_e = in_p + n; lx.lgetc = my_getc;\n"; }
	else if (f.io == 1) o << "\tif (rd & 1) " << A << "input_str(&lx, in); else lx.p = in;\n"; else o << "\tlx.p = in; lx.e = in + n;\n";
	if (!f.unbuf()) o << "\tif (usebuf) { lx.buf_opaque = &buf; lx.push = " << A << (f.dyn ? "dynpush" : "fixedpush") << "; lx.clear = " << A << (f.dyn ? "dynclear" : "fixedclear") << "; lx.free = " << (f.dyn ? A + "dynfree" : "NULL") << "; }\n";
	o << "\twhile (stop < 3) {\n\t\tint t, k = -1; const char *name = 0, *text = 0; long len = -1;\n";
	if (!f.xex) { o << "\t\tif (!stop) {\n"; for (int t : used) o << "\t\t\tex(o, " << t << ", " << A << "example(lx.z, " << T << upper(TOK[t]) << "));\n"; o << "\t\t}\n"; }
	o << "\t\tt = " << A << "next(&lx);\n\t\tswitch (t) {\n"; for (int t : used) o << "\t\tcase " << T << upper(TOK[t]) << ": k = " << t << "; break;\n"; o << "\t\tcase " << T << "EOF: k = 100; break;\n\t\tcase " << T << "UNKNOWN: k = 101; break;\n\t\tcase " << T << "ERROR: k = 102; break;\n\t\t}\n";
	if (!f.xname) o << "\t\tname = " << A << "name(t);\n"; if (!f.unbuf()) o << "\t\tif (usebuf) { text = buf.a; len = buf.p - buf.a - 1; }\n";
	if (!f.xpos) o << "\t\tpos[0] = lx.start.byte; pos[1] = lx.start.line; pos[2] = lx.start.col; pos[3] = lx.end.byte; pos[4] = lx.end.line; pos[5] = lx.end.col;\n";
	o << "\t\tcb(o, k, text, len, " << (f.xpos ? "NULL" : "pos") << ", name);\n\t\tif (k == 102) break;\n\t\tif (k >= 100 || k < 0) stop++;\n\t}\n";
	if (f.io == 0 && f.getc == 0) o << "\tfclose(fp);\n"; if (f.io == 0 && f.getc == 3) o << "\tclose(fd[0]);\n";
	o << (f.nobuf ? "" : f.dyn ? "\t" + A + "dynfree(&buf);\n" : f.fixarr ? "" : "\tfree(buf.a);\n") << "\tfree(rb); return 0;\n}\n"; return o.str();
}
struct Obs { int tok; bool has_text, has_pos, has_name; std::string text, name; unsigned pos[6]; };
struct Seen { std::vector<Obs> v; std::vector<std::vector<std::pair<int, std::string>>> ex; };
static void cb(void *o, int tok, const char *text, long len, const unsigned *pos, const char *name) { Seen *s = (Seen *)o; Obs b; b.tok = tok; b.has_text = text && len >= 0; if (b.has_text) b.text.assign(text, len); b.has_pos = pos; if (pos) memcpy(b.pos, pos, sizeof b.pos); b.has_name = name; if (name) b.name = name; s->v.push_back(b); }
static void ex(void *o, int tok, const char *text) { Seen *s = (Seen *)o; if (s->ex.size() <= s->v.size()) s->ex.resize(s->v.size() + 1); s->ex[s->v.size()].push_back({tok, text ? text : "\1none"}); }
static std::string show_tok(const std::string &w, int tok, size_t a, size_t b) { return (tok == T_EOF ? "EOF" : tok == T_UNKNOWN ? "UNKNOWN" : tok == T_ERROR ? "ERROR" : tok < 0 ? "?" : TOK[tok]) + std::string(" ") + std::to_string(a) + "-" + std::to_string(b) + " " + pbt::show(w.substr(a, b - a)); }
// an example's unprintable characters appear as \xHH
static std::string unhex(const std::string &x) { std::string r; for (size_t i = 0; i < x.size(); i++) if (x[i] == '\\' && i + 3 < x.size() && x[i + 1] == 'x' && isxdigit((unsigned char)x[i + 2]) && isxdigit((unsigned char)x[i + 3])) r += (char)strtoul(x.substr(i + 2, 2).c_str(), nullptr, 16), i += 3; else r += x[i]; return r; }
static void compare(pbt::Ctx &c, const Spec &s, const std::string &w0, const Conf &f, bool usebuf, size_t cap, const Seen &got, const std::string &ctx0) {
	std::string w = w0; bool z = f.io == 1 || (f.io == 0 && f.getc == 1); if (z && w.find('\0') != std::string::npos) w.resize(w.find('\0'));
	bool in = false; auto want = tokenise(s, w, &in, f.dyn || !usebuf || f.unbuf() ? (size_t)-1 : cap); auto full = [&]() { std::string r = ctx0 + "\nexpected:"; for (auto &t : want) r += " [" + show_tok(w, t.tok, t.start, t.end) + "]"; r += "\ngot:"; for (auto &t : got.v) { r += std::string(" [") + (t.tok == T_EOF ? "EOF" : t.tok == T_UNKNOWN ? "UNKNOWN" : t.tok == T_ERROR ? "ERROR" : t.tok < 0 ? "?" : TOK[t.tok]); if (t.has_text) r += " " + pbt::show(t.text); if (t.has_pos) r += " " + std::to_string(t.pos[0]) + "-" + std::to_string(t.pos[3]); r += "]"; } return r; };
	auto at = [&](size_t p, unsigned *o) { o[0] = (unsigned)p; o[1] = 1; o[2] = 1; for (size_t i = 0; i < p; i++) if (w[i] == '\n') { o[1]++; o[2] = 1; } else o[2]++; };
	int zone = 0;
	for (size_t i = 0; i < want.size(); i++) {
		REQ(c, i < got.v.size(), "missing", full()); auto &g = got.v[i]; auto &e = want[i];
		if (i < got.ex.size()) for (auto &x : got.ex[i]) { bool has = false; for (auto &m : s.z[zone].maps) if (m.tok == x.first && !none(m.l)) has = true; if (!has || x.second.size() >= 45) continue; const Zone &Z = s.z[zone]; auto walk = [&](const std::string &x) { int st = 0; for (unsigned char ch : x) if (st >= 0) st = Z.t[st][ch]; return st; }; int st = walk(x.second); if (st < 0 || Z.acc[st] < 0 || Z.maps[Z.acc[st]].tok != x.first) st = walk(unhex(x.second));
			bool nul = false; if (st < 0 || Z.acc[st] < 0 || Z.maps[Z.acc[st]].tok != x.first) nul = st >= 0 && Z.t[st][0] >= 0; REQ(c, nul || (st >= 0 && Z.acc[st] >= 0 && Z.maps[Z.acc[st]].tok == x.first), "example", "example of " + std::string(TOK[x.first]) + " in zone " + std::to_string(zone) + ": " + pbt::show(x.second) + "\n" + full()); c.count("example"); }
		REQ(c, g.tok == e.tok, "token", "token " + std::to_string(i) + "\n" + full()); zone = e.zone;
		if (e.tok == T_ERROR) { c.count("buffer-full"); return; }
		if (g.has_name) REQ(c, g.name == (e.tok == T_EOF ? "EOF" : e.tok == T_UNKNOWN ? "UNKNOWN" : upper(TOK[e.tok])), "name", g.name + "\n" + full());
		if (e.tok < 100 && usebuf && !f.unbuf()) REQ(c, g.has_text && g.text == w.substr(e.start, e.end - e.start), "text", "token " + std::to_string(i) + "\n" + full());
		if (g.has_pos && e.exact) { unsigned p[6]; at(e.start, p); at(e.end, p + 3); REQ(c, !memcmp(p, g.pos, sizeof p), e.tok == T_UNKNOWN ? "position:unknown" : "position", "token " + std::to_string(i) + " at byte " + std::to_string(g.pos[0]) + " line " + std::to_string(g.pos[1]) + " col " + std::to_string(g.pos[2]) + " to " + std::to_string(g.pos[3]) + "/" + std::to_string(g.pos[4]) + "/" + std::to_string(g.pos[5]) + "\n" + full()); }
	}
	for (size_t i = want.size(); i < got.v.size(); i++) REQ(c, got.v[i].tok == T_EOF, "after-end", full());
	if (want.size() > 2) c.nontrivial(); if (want.back().tok == T_UNKNOWN) c.count("unknown"); if (in) c.count("dead-end"); for (auto &t : want) if (t.zone) { c.count("zones-visited"); break; }
}
static void one(pbt::Ctx &c, bool rich) {
	SpecGen g(c, rich); g.run(); Spec &s = g.s; Conf f = gen_conf(c); std::string d = c.scratch; c.describe([&](std::ostream &o) { o << s.txt << "\n# lx" << args(f) << (s.ambiguous ? " # ambiguous" : "") << (s.nullable ? " # accepts the empty string" : ""); });
	REQ(c, write_file(d + "/spec.lx", s.txt), "harness", "write"); std::string ctx = s.txt + "\n# lx" + args(f) + "\n";
	Run r = lx(c, " -l c" + args(f), d + "/gen.c"); REQ(c, !crashed(r), "lx:crash", ctx + r.err);
	if (s.ambiguous || s.nullable) { c.count(s.ambiguous ? "ambiguous" : "nullable"); REQ(c, r.status == 1 && !r.err.empty(), s.ambiguous ? "accepts-ambiguous" : "accepts-empty", ctx + "exit status " + std::to_string(r.status) + "\n" + r.err); c.nontrivial(); return; }
	if (r.status == 1 && r.err.find("Unsupported operator") != std::string::npos) { c.count("unsupported"); c.discard(); } // a regex libre declines; that is P01's business
	REQ(c, r.status == 0, "refused", ctx + "exit status " + std::to_string(r.status) + "\n" + r.err);
	r = lx(c, " -l h" + args(f), d + "/gen.h"); REQ(c, r.status == 0 && !crashed(r), "lx:h", ctx + r.err);
	REQ(c, write_file(d + "/drv.c", driver(s, f) + driver_main(s, f)), "harness", "write");
	int k = system(("gcc -std=gnu99 -w -shared -fPIC -I " + d + " -o " + d + "/gen.so " + d + "/drv.c > " + d + "/cc.err 2>&1").c_str()); REQ(c, k == 0, "compile", ctx + read_file(d + "/cc.err", 2000));
	void *h = dlopen((d + "/gen.so").c_str(), RTLD_NOW | RTLD_LOCAL); REQ(c, h, "load", dlerror()); auto fn = (int (*)(const char *, size_t, int, size_t, size_t, void (*)(void *, int, const char *, long, const unsigned *, const char *), void (*)(void *, int, const char *), void *))dlsym(h, "drv"); REQ(c, fn, "load", "drv");
	static Guarded mem;
	for (int n = c.range(3, 12); n--;) { std::string w = g.input(); bool ub = !c.chance(1, 8); size_t cap = f.io && c.chance(1, 5) ? (size_t)c.range(1, 12) : 4096, rd = (size_t)c.range(1, 9); if (cap < 4096 && !f.dyn && f.fixarr) c.count("small-fixed"); Seen seen; const char *p = mem.at_end(w.c_str(), f.io == 2 || (f.io == 0 && f.getc == 2) ? w.size() : w.size() + 1);
		std::string cx = ctx + "input " + pbt::show(w) + (ub ? "" : " (no buffer)") + (f.dyn ? "" : " capacity " + std::to_string(cap)); if (c.verbose) { printf("input %s\n", pbt::show(w).c_str()); fflush(stdout); }
		fn(p, w.size(), ub, cap, rd, cb, ex, &seen); compare(c, s, w, f, ub, cap, seen, cx); }
	dlclose(h);
}
PBT_CASE(spec, 6, "a token stream of three or more, or a refusal") { one(c, false); }
PBT_CASE(rich, 4, "as spec; larger expressions") { one(c, true); }
// what lx must refuse, with a message and no crash
PBT_CASE(refuse, 1, "always") {
	SpecGen g(c, false); g.s.z.emplace_back(); g.s.z[0].parent = -1; std::string pre; if (c.chance(1, 2)) { g.things(0, nullptr, 1); pre = g.s.txt; }
	static const char *const bad[] = {"nosuch -> $a;", "'{' .. '}' { nosuch -> $a; }", "'{' .. '}' { '[' .. ']' { 'x' nosuch -> $a; } }", "'{' { nosuch; }", "/a/q -> $a;", "\"\\x100\" -> $a;", "\"\\777\" -> $a;", "/(/ -> $a;", "/[z-a]/ -> $a;", "'a' -> $a", "'a' -> ;", "'a' .. 'b' -> $a {", "'a' }", "'a", "/a", "v = ;", "'a' | ;", "-> $a;", "'' -> $a;", "'b'* -> $a;", "~'a' -> $a;", "'x' .. ;", "'x' -> $a 'y';", "'zz' -> $a; 'zz' -> $b;", "'zz' -> $a; 'z' 'z';", "'zz' { 'a'; } 'zz' { 'a'; }", "'zz' .. 'q'; 'zz' -> $a;", "'zz' .. 'q' { /q/ -> $a; 'q'? 'p' -> $b; } 'zz' .. 'r';", "@ -> $a;", "'x' .. 'y' -> $a, 'y' -> $b;"};
	std::string spec = pre + " " + bad[c.draw(sizeof bad / sizeof *bad)]; c.describe([&](std::ostream &o) { o << spec; }); REQ(c, write_file(c.scratch + "/spec.lx", spec), "harness", "write"); Run r = lx(c, c.chance(1, 2) ? " -l test" : " -l c -b dyn -g fgetc", c.scratch + "/out"); REQ(c, !crashed(r), "refuse:crash", spec + "\n" + r.err); REQ(c, r.status == 1, "refuse:accepted", spec + "\nexit status " + std::to_string(r.status) + r.err); REQ(c, !r.err.empty(), "refuse:silent", spec); c.nontrivial();
}
// the dump program: prints one line per token
PBT_CASE(dump, 1, "a token stream of three or more") {
	SpecGen g(c, false); g.run(); Spec &s = g.s; if (s.ambiguous || s.nullable) c.discard(); Conf f = gen_conf(c); f.e = f.t = ""; f.hex = false; f.low = f.high = 0; f.factor = 2; f.fixarr = false; if (f.io == 0 && f.getc == 4) f.getc = 0; std::string d = c.scratch, a = args(f), ctx = s.txt + "\n# lx" + a + "\n"; c.describe([&](std::ostream &o) { o << ctx; });
	REQ(c, write_file(d + "/spec.lx", s.txt), "harness", "write"); std::string src = "#define LX_HEADER \"/dev/null\"\n#include <stdio.h>\n"; static const char *const ls[] = {"h", "c", "dump"};
	for (int i = 0; i < 3; i++) { Run r = lx(c, std::string(" -l ") + ls[i] + a, d + "/out"); if (r.status == 1 && r.err.find("Unsupported operator") != std::string::npos) c.discard(); REQ(c, r.status == 0 && !crashed(r), "dump:lx", ctx + r.err); src += read_file(d + "/out", 1 << 24); } REQ(c, write_file(d + "/dump.c", src), "harness", "write");
	int k = system(("gcc -std=gnu99 -w -o " + d + "/dump " + d + "/dump.c > " + d + "/cc.err 2>&1").c_str()); REQ(c, k == 0, "dump:compile", ctx + read_file(d + "/cc.err", 2000)); bool arg = f.io || f.getc == 1 || f.getc == 2;
	for (int n = c.range(1, 4); n--;) { std::string w = g.input(); if (arg && w.find('\0') != std::string::npos) w.resize(w.find('\0')); REQ(c, write_file(d + "/in", w), "harness", "write"); std::string cmd = d + "/dump"; if (arg) { cmd += " '"; for (char ch : w) if (ch == '\'') cmd += "'\\''"; else cmd += ch; cmd += "'"; } cmd += " < " + d + "/in > " + d + "/out 2>" + d + "/err"; k = system(cmd.c_str());
		bool in = false; auto want = tokenise(s, w, &in, f.dyn || f.unbuf() ? (size_t)-1 : 256); if (want.back().tok == T_ERROR) continue; std::string exp; auto lc = [&](size_t p, size_t *l, size_t *cl) { *l = *cl = 1; for (size_t i = 0; i < p; i++) if (w[i] == '\n') { ++*l; *cl = 1; } else ++*cl; };
		std::string got = read_file(d + "/out", 1 << 24); ctx += "input " + pbt::show(w) + "\noutput:\n" + pbt::show(got); REQ(c, k == 0, "dump:status", ctx); size_t at = 0;
		for (auto &t : want) {
			if (!f.xpos) { size_t l1, c1, l2, c2; lc(t.start, &l1, &c1); lc(t.end, &l2, &c2); std::string p = std::to_string(t.start); if (t.end != t.start) p += "-" + std::to_string(t.end); p += ":" + std::to_string(l1); if (l2 != l1) p += "-" + std::to_string(l2); p += "," + std::to_string(c1); if (c2 != c1) p += "-" + std::to_string(c2); p += ": "; if (t.exact) { REQ(c, !got.compare(at, p.size(), p), "dump:position", ctx + "\nexpected " + p); at += p.size(); } else { at = got.find(": ", at); REQ(c, at != std::string::npos, "dump:position", ctx); at += 2; } }
			std::string x = w.substr(t.start, t.end - t.start); x = x.substr(0, x.find('\0')); std::string q = t.tok == T_EOF ? "<EOF>\n" : t.tok == T_UNKNOWN ? "lexically uncategorised:" : f.xname ? "<#" : "<" + upper(TOK[t.tok]) + (f.unbuf() ? "" : " '" + x + "'") + ">\n";
			if (f.unbuf() && t.tok < 100 && !f.xname) q = "<" + upper(TOK[t.tok]); REQ(c, !got.compare(at, q.size(), q), "dump:token", ctx + "\nexpected " + q + " at " + std::to_string(at)); at += q.size(); if (t.tok != T_EOF && (t.tok == T_UNKNOWN || f.xname || f.unbuf())) { at = got.find('\n', at); REQ(c, at != std::string::npos, "dump:line", ctx); at++; }
		}
		if (want.size() > 2) c.nontrivial(); if (want.back().tok == T_UNKNOWN) c.count("unknown"); }
}
// Graphviz: the zones' automata, which mapping each end state stands for, and where it leads. Read with hex labels, which
// are exact; the plain labels must then say the same. Ambiguous specifications are drawn too, with every mapping.
static Bits hex_label(pbt::Ctx &c, const std::string &l, const std::string &t) {
	Bits r; if (l == "/./") return ~r; bool cls = l.size() > 1 && l[0] == '[', inv = cls && l[1] == '^'; size_t i = inv ? 2 : cls, e = l.size() - cls;
	auto one = [&]() { REQ(c, i + 4 <= e && l[i] == '\\' && l[i + 1] == 'x' && isxdigit((unsigned char)l[i + 2]) && isxdigit((unsigned char)l[i + 3]), "dot:label", l + "\n" + t); int v = (int)strtoul(l.substr(i + 2, 2).c_str(), NULL, 16); i += 4; return v; };
	REQ(c, i < e, "dot:label", t); while (i < e) { int lo = one(), hi = lo; if (i < e && l[i] == '-') { i++; hi = one(); } for (; lo <= hi; lo++) r.set(lo); } REQ(c, cls || r.count() == 1, "dot:label", l + "\n" + t); return inv ? ~r : r;
}
PBT_CASE(dot, 2, "two or more zones, or an ambiguous specification") {
	SpecGen g(c, c.chance(1, 3)); g.run(); Spec &s = g.s; std::string d = c.scratch, a = c.chance(1, 4) ? " -n" : ""; if (c.chance(1, 4)) a += " -C " + std::to_string(c.range(2, 5)); std::string ctx = s.txt + "\n# lx -l dot -X" + a + "\n"; c.describe([&](std::ostream &o) { o << ctx; });
	REQ(c, write_file(d + "/spec.lx", s.txt), "harness", "write"); bool nfa = a.compare(0, 3, " -n") == 0;
	Run r = lx(c, " -l dot -X" + a, d + "/out"); REQ(c, !crashed(r), "dot:crash", ctx + r.err); if (r.status == 1 && r.err.find("Unsupported operator") != std::string::npos) c.discard(); REQ(c, r.status == 0, "dot:refused", ctx + r.err);
	std::string t = read_file(d + "/out", 1 << 24); ctx += t; gv::Dot D = gv::DotReader(c, t).read(false);
	struct Z { Nfa a; std::map<int, int> num; std::vector<std::set<std::string>> lab; std::map<int, std::pair<int, int>> to; int start = -1; }; std::map<int, Z> zs; int global = -1;
	auto name = [&](const std::string &n) { int z, st, k = 0; REQ(c, sscanf(n.c_str(), "z%dS%d%n", &z, &st, &k) == 2 && k == (int)n.size(), "dot:name", n + "\n" + ctx); Z &Q = zs[z]; auto it = Q.num.find(st); if (it == Q.num.end()) { it = Q.num.emplace(st, Q.a.add()).first; Q.lab.emplace_back(); } return std::make_pair(z, it->second); };
	for (auto &n : D.nodes) { if (n.first[0] == '*' || n.first == "start" || n.first == "subgraph" || n.first.compare(0, 8, "cluster_") == 0) continue; auto p = name(n.first); auto &at = n.second; if (!at.count("shape") || at.at("shape") != "doublecircle") continue; Z &Q = zs[p.first]; Q.a.st[p.second].end = true; REQ(c, at.count("label"), "dot:label", n.first + "\n" + ctx); std::string l = at.at("label"); for (const char *x : {"<font color=\"red\">", "</font>"}) { size_t k = l.find(x); if (k != std::string::npos) l.erase(k, strlen(x)); }
		for (size_t i = 0; i <= l.size();) { size_t e = l.find("<br/>", i); if (e == std::string::npos) e = l.size(); if (e > i) Q.lab[p.second].insert(l.substr(i, e - i)); i = e + 5; } }
	std::vector<std::pair<std::string, Bits>> labels;
	for (auto &e : D.edges) {
		if (e.from == "start") { auto p = name(e.to); REQ(c, global < 0, "dot:start", ctx); global = p.first; zs[global].start = p.second; continue; }
		auto x = name(e.from), y = name(e.to); if (!e.attr.count("label")) { REQ(c, e.attr.count("style") && e.attr.at("style") == "dashed" && !zs[x.first].to.count(x.second), "dot:edge", ctx); zs[x.first].to[x.second] = y; continue; }
		REQ(c, x.first == y.first, "dot:edge", e.from + " " + e.to + "\n" + ctx); const std::string &l = e.attr.at("label"); if (l == "&#x3B5;") { REQ(c, nfa, "dot:epsilon", ctx); zs[x.first].a.st[x.second].eps.insert(y.second); continue; } Bits b = hex_label(c, l, ctx); labels.push_back({e.from + " " + e.to, b}); zs[x.first].a.st[x.second].add(b, y.second); }
	REQ(c, global >= 0, "dot:start", ctx); std::vector<std::pair<int, int>> q{{0, global}}; std::map<int, int> at{{0, global}}; std::vector<std::pair<std::set<std::pair<int, int>>, std::set<std::string>>> later;
	for (size_t i = 0; i < q.size(); i++) { // model zone, drawn zone: the same words lead to the same mappings
		Zone &M = s.z[q[i].first]; Z &Q = zs[q[i].second]; REQ(c, Q.start >= 0, "dot:zone", "zone " + std::to_string(q[i].second) + " is entered nowhere\n" + ctx); Q.a.start = Q.start; std::string w = "zone " + std::to_string(q[i].first) + " drawn as z" + std::to_string(q[i].second) + ": ";
		Nfa m; m.start = m.add(); for (auto &x : M.maps) { Nfa b = nfa_of(x.l); int base = m.n(); for (auto &st : b.st) { m.st.push_back(st); for (auto &e : m.st.back().edges) e.second += base; if (st.end) m.st.back().ids.insert((id_t)(&x - &M.maps[0])); } m.st[0].eps.insert(base); }
		Nfa o = Q.a; for (int k = 0; k < o.n(); k++) { o.st[k].ids.clear(); if (o.st[k].end) o.st[k].ids.insert((id_t)k); }
		Dfa A, B; try { auto sy = reps({&m, &o}); A = subset(m, CMP_IDS, 3000, &sy); B = subset(o, CMP_IDS, 3000, &sy); } catch (TooBig &) { c.discard(); }
		std::set<std::pair<int, int>> seen{{0, 0}}; std::vector<std::pair<int, int>> st{{0, 0}};
		while (!st.empty()) { auto p = st.back(); st.pop_back(); auto &x = A.lab[p.first], &y = B.lab[p.second]; REQ(c, x.end == y.end, "dot:language", w + "end\n" + ctx);
			if (x.end) { std::set<std::pair<int, int>> want; std::set<std::string> got, tw, tg; for (id_t k : x.ids) want.insert({M.maps[k].tok, M.maps[k].to}); for (id_t k : y.ids) got.insert(Q.lab[k].begin(), Q.lab[k].end()); for (auto &k : want) if (k.first >= 0) tw.insert(std::string("$") + TOK[k.first]); for (auto &k : got) if (k[0] == '$') tg.insert(k); std::set<std::string> zg; for (auto &k : got) if (k[0] != '$') zg.insert(k); std::set<int> zw; for (auto &k : want) if (k.second >= 0) zw.insert(k.second);
				REQ(c, tw == tg, "dot:tokens", w + "tokens of an end\n" + ctx); REQ(c, zw.empty() == zg.empty(), "dot:zones", w + ctx);
				if (want.size() == 1 && zg.size() == 1 && zw.size() == 1) { int to = *zw.begin(); for (id_t k : y.ids) { auto it = Q.to.find((int)k); REQ(c, it != Q.to.end() && *zg.begin() == "z" + std::to_string(it->second.first), "dot:edge", w + "label and edge differ\n" + ctx); Z &T = zs[it->second.first]; REQ(c, T.start < 0 || T.start == it->second.second, "dot:edge", w + ctx); T.start = it->second.second; if (!at.count(to)) at[to] = it->second.first, q.push_back({to, it->second.first}); } }
				if (want.size() == 1 && zw.empty()) for (id_t k : y.ids) REQ(c, !Q.to.count((int)k), "dot:edge", w + ctx);
				later.push_back({want, zg}); }
			for (size_t k = 0; k < A.sym.size(); k++) { std::pair<int, int> n{A.to[p.first][k], B.to[p.second][k]}; if (seen.insert(n).second) st.push_back(n); } }
	}
	for (auto &l : later) { std::set<std::string> w; bool all = true; for (auto &k : l.first) if (k.second >= 0) { if (at.count(k.second)) w.insert("z" + std::to_string(at[k.second])); else all = false; } if (all) REQ(c, w == l.second, "dot:zones", ctx); }
	Run r2 = lx(c, " -l dot" + a, d + "/out2"); REQ(c, r2.status == 0 && !crashed(r2), "dot:plain", ctx + r2.err); std::string t2 = read_file(d + "/out2", 1 << 24); gv::Dot P = gv::DotReader(c, t2).read(false); REQ(c, P.edges.size() == D.edges.size() && P.nodes == D.nodes, "dot:plain", ctx + t2);
	size_t i = 0; for (auto &e : P.edges) { if (!e.attr.count("label") || e.attr.at("label") == "&#x3B5;") continue; const std::string &l = e.attr.at("label"); REQ(c, i < labels.size() && labels[i].first == e.from + " " + e.to && !l.empty() && gv::label_is(gv::dot_tokens(c, l), l, labels[i].second), "dot:plain-label", l + "\n" + ctx + t2); i++; }
	if (s.ambiguous) c.count("ambiguous"); if (s.nullable) c.count("nullable"); if (nfa) c.count("nfa"); if (s.z.size() > 1 || s.ambiguous) c.nontrivial();
}
