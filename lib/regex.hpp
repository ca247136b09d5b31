// Reference regular expressions: grammar-directed generators that emit the text of an expression in a
// dialect together with its meaning (a tree over byte sets and anchors), an exact translation of the
// tree into the reference NFA for "search" semantics (anchors included), and a sampler of matching text.
#pragma once
#include <memory>
#include "model.hpp"
namespace rx {
using model::Bits; using model::Nfa;

struct Node; typedef std::shared_ptr<Node> P;
struct Node {
	enum T { EMPTY, SET, CAT, ALT, REP, GROUP, ANCHOR } t = EMPTY;
	Bits set; std::vector<P> k; int min = 1, max = 1; // max -1: unbounded
	int anchor = 0; int cap = -1; // capture number or -1
};
enum { A_START = 1, A_END = 2, A_ENDNL = 3 };
inline P mk(Node::T t) { P p = std::make_shared<Node>(); p->t = t; return p; }
inline P mkset(const Bits &b) { P p = mk(Node::SET); p->set = b; return p; }
inline P mkbyte(int b) { Bits s; s.set(b & 255); return mkset(s); }
inline P mkrep(P e, int lo, int hi) { P p = mk(Node::REP); p->min = lo; p->max = hi; p->k.push_back(e); return p; }
inline P mkcat(std::vector<P> v) { P p = mk(Node::CAT); p->k = std::move(v); return p; }
inline P mkalt(std::vector<P> v) { P p = mk(Node::ALT); p->k = std::move(v); return p; }

inline Bits rng(int a, int b) { Bits s; for (int i = a; i <= b; i++) s.set(i); return s; }
inline Bits icase(Bits b) { for (int i = 'a'; i <= 'z'; i++) if (b[i] || b[i - 32]) { b.set(i); b.set(i - 32); } return b; }

// --- byte classes, written from the definitions and not from the code
inline Bits cls(const std::string &n) {
	Bits up = rng('A', 'Z'), lo = rng('a', 'z'), di = rng('0', '9'), r;
	if (n == "alnum") return up | lo | di; if (n == "alpha") return up | lo; if (n == "ascii") return rng(0, 127);
	if (n == "cntrl") { r = rng(0, 31); r.set(127); return r; } if (n == "digit") return di; if (n == "graph") return rng(33, 126);
	if (n == "hspace" || n == "blank") { r.set(9); r.set(32); return r; }
	if (n == "hspace_pcre") { r.set(9); r.set(32); r.set(0xa0); return r; }
	if (n == "lower") return lo; if (n == "upper") return up; if (n == "print") return rng(32, 126);
	if (n == "punct") return rng(33, 126) & ~(up | lo | di);
	if (n == "space") { r = rng(9, 13); r.set(32); return r; }
	if (n == "spchr") { r.set(32); return r; }
	if (n == "vspace") return rng(10, 13); if (n == "vspace_pcre") { r = rng(10, 13); r.set(0x85); return r; }
	if (n == "word") { r = up | lo | di; r.set('_'); return r; } if (n == "xdigit") return di | rng('a', 'f') | rng('A', 'F');
	if (n == "nl") { r.set(10); return r; } if (n == "bsr") { r = rng(10, 13); r.set(0x85); return r; }
	if (n == "any") { r.set(); return r; }
	abort();
}

// --- NFA with search semantics
struct Raw { struct S { std::vector<std::pair<Bits, int>> e; std::vector<std::pair<int, int>> eps; }; std::vector<S> s; int add() { s.emplace_back(); if (s.size() > 1500) throw model::TooBig(); return (int)s.size() - 1; } };
inline int thompson(Raw &r, const P &n, int from) { // returns the exit state
	switch (n->t) {
	case Node::EMPTY: return from;
	case Node::SET: { int t = r.add(); r.s[from].e.push_back({n->set, t}); return t; }
	case Node::ANCHOR: { int t = r.add(); r.s[from].eps.push_back({n->anchor, t}); return t; }
	case Node::CAT: { for (auto &k : n->k) from = thompson(r, k, from); return from; }
	case Node::GROUP: return thompson(r, n->k[0], from);
	case Node::ALT: { int out = r.add(); for (auto &k : n->k) { int i = r.add(); r.s[from].eps.push_back({0, i}); int o = thompson(r, k, i); r.s[o].eps.push_back({0, out}); } return out; }
	case Node::REP: {
		for (int i = 0; i < n->min; i++) from = thompson(r, n->k[0], from);
		int out = r.add();
		if (n->max < 0) { int l = r.add(); r.s[from].eps.push_back({0, l}); int o = thompson(r, n->k[0], l); r.s[o].eps.push_back({0, l}); r.s[l].eps.push_back({0, out}); return out; }
		r.s[from].eps.push_back({0, out});
		for (int i = n->min; i < n->max; i++) { int b = r.add(); r.s[from].eps.push_back({0, b}); from = thompson(r, n->k[0], b); r.s[from].eps.push_back({0, out}); }
		return out; }
	}
	abort();
}
// search: the expression may match anywhere in the input. Otherwise it must match all of it.
inline Nfa to_nfa(const P &root, bool search = true) {
	Raw r; int s0 = r.add(), head = s0;
	if (search) { int l = r.add(); Bits any; any.set(); r.s[l].e.push_back({any, l}); r.s[s0].eps.push_back({0, l}); head = r.add(); r.s[l].eps.push_back({0, head}); }
	int out = thompson(r, root, head);
	if (search) { int l = r.add(); Bits any; any.set(); r.s[l].e.push_back({any, l}); r.s[out].eps.push_back({0, l}); out = l; }
	// modes: consumed yet? x remaining input {unknown, exactly "\n", none}
	Nfa a; std::map<std::pair<int, int>, int> id; std::vector<std::pair<int, int>> q;
	auto get = [&](int st, int mode) { auto k = std::make_pair(st, mode); auto it = id.find(k); if (it != id.end()) return it->second; int x = a.add(); id[k] = x; q.push_back(k); return x; };
	auto M = [](int L, int e) { return L * 3 + e; };
	a.start = get(s0, M(0, 0));
	for (size_t i = 0; i < q.size(); i++) {
		int st = q[i].first, L = q[i].second / 3, E = q[i].second % 3, x = id[q[i]];
		if (st == out && (E == 0 || E == 2)) a.st[x].end = true;
		for (auto &e : r.s[st].e) {
			if (E == 0) { int y = get(e.second, M(1, 0)); a.st[x].add(e.first, y); }
			else if (E == 1 && e.first['\n']) { int y = get(e.second, M(1, 2)); Bits b; b.set('\n'); a.st[x].add(b, y); }
		}
		for (auto &e : r.s[st].eps) {
			auto go = [&](int mode) { int y = get(e.second, mode); a.st[x].eps.insert(y); };
			switch (e.first) {
			case 0: go(M(L, E)); break;
			case A_START: if (!L) go(M(L, E)); break;
			case A_END: if (E != 1) go(M(L, 2)); break;
			case A_ENDNL: if (E == 0) { go(M(L, 1)); go(M(L, 2)); } else go(M(L, E)); break;
			}
		}
	}
	return a;
}
inline Nfa reverse_nfa(const Nfa &a) { // same language mirrored, one new start
	Nfa r; for (int i = 0; i < a.n(); i++) r.add(); int s = r.add(); r.start = s;
	for (int i = 0; i < a.n(); i++) { for (auto &e : a.st[i].edges) r.st[e.second].add(e.first, i); for (int t : a.st[i].eps) r.st[t].eps.insert(i); if (a.st[i].end) r.st[s].eps.insert(i); }
	if (a.start >= 0) r.st[a.start].end = true;
	return r;
}
inline unsigned char pick_byte(pbt::Ctx &c, const Bits &b) {
	int n = (int)b.count(); if (!n) return 'a'; int k = (int)c.draw(std::min(n, 4)); if (n > 4 && c.chance(1, 2)) k = (int)c.draw(n);
	for (int i = 0; i < 256; i++) if (b[i] && k-- == 0) return (unsigned char)i; return 'a';
}
// text the expression could match, ignoring anchors
inline void sample(pbt::Ctx &c, const P &n, std::string &o) {
	if (o.size() > 200) return;
	switch (n->t) {
	case Node::EMPTY: case Node::ANCHOR: break;
	case Node::SET: if (n->set.any()) o += (char)pick_byte(c, n->set); break;
	case Node::CAT: for (auto &k : n->k) sample(c, k, o); break;
	case Node::GROUP: sample(c, n->k[0], o); break;
	case Node::ALT: if (!n->k.empty()) sample(c, n->k[c.draw(n->k.size())], o); break;
	case Node::REP: { int hi = n->max < 0 ? n->min + 3 : n->max; int t = c.range(n->min, std::max(n->min, std::min(hi, n->min + 3))); while (t-- > 0) sample(c, n->k[0], o); break; }
	}
}
inline std::string subject(pbt::Ctx &c, const P &n) { // near-match text
	std::string w; sample(c, n, w);
	switch (c.weighted({6, 2, 2, 2, 2, 2, 1})) {
	case 1: w = std::string(1, (char)model::gen_byte(c)) + w; break;
	case 2: w += (char)model::gen_byte(c); break;
	case 3: w += '\n'; break;
	case 4: if (!w.empty()) w.erase(c.draw(w.size()), 1); break;
	case 5: if (!w.empty()) w[c.draw(w.size())] = (char)model::gen_byte(c); break;
	case 6: w = "\n" + w; break;
	}
	if (c.chance(1, 8)) for (char &ch : w) if (isalpha((unsigned char)ch)) ch ^= 32;
	return w;
}
inline bool has(const P &n, std::function<bool(const Node &)> f) { if (f(*n)) return true; for (auto &k : n->k) if (has(k, f)) return true; return false; }
inline bool has_anchor(const P &n) { return has(n, [](const Node &x) { return x.t == Node::ANCHOR; }); }
inline bool can_consume(const P &n) { if (n->t == Node::SET) return n->set.any(); if (n->t == Node::REP && n->max == 0) return false; for (auto &k : n->k) if (can_consume(k)) return true; return false; }
// every ^ sits where nothing can have been consumed before it, and every $ where nothing can be consumed after it
inline bool tidy(const P &n, bool before = false, bool after = false) {
	switch (n->t) {
	case Node::ANCHOR: return n->anchor == A_START ? !before : !after;
	case Node::CAT: { size_t m = n->k.size(); std::vector<char> suf(m + 1, after); for (size_t i = m; i-- > 0;) suf[i] = suf[i + 1] || can_consume(n->k[i]);
		for (size_t i = 0; i < m; i++) { if (!tidy(n->k[i], before, suf[i + 1])) return false; before = before || can_consume(n->k[i]); } return true; }
	case Node::REP: { if (n->max == 0) return true; bool more = n->max != 1 && can_consume(n->k[0]); return tidy(n->k[0], before || more, after || more); }
	default: for (auto &k : n->k) if (!tidy(k, before, after)) return false; return true;
	}
}
inline bool has_kind(const P &n, bool start) { return has(n, [&](const Node &x) { return x.t == Node::ANCHOR && (x.anchor == A_START) == start; }); }
// an end anchor somewhere before a start anchor
inline bool crossed(const P &n) {
	if (n->t == Node::REP) { if (n->max == 0) return false; if (n->max != 1 && has_kind(n->k[0], true) && has_kind(n->k[0], false)) return true; }
	if (n->t == Node::CAT) { bool e = false; for (auto &k : n->k) { if (e && has_kind(k, true)) return true; e = e || has_kind(k, false); } }
	for (auto &k : n->k) if (crossed(k)) return true;
	return false;
}
inline void anchors_in(const P &n, int *mask) { if (n->t == Node::ANCHOR) *mask |= 1 << n->anchor; for (auto &k : n->k) anchors_in(k, mask); }
// $ and \z in different parts of one sequence, other than side by side
inline bool mixed_ends(const P &n) {
	if (n->t == Node::CAT || (n->t == Node::REP && n->max != 1)) for (size_t i = 0; i < n->k.size(); i++) for (size_t j = 0; j < n->k.size(); j++) {
		if (n->t == Node::CAT && i == j) continue;
		int a = 0, b = 0; anchors_in(n->k[i], &a); anchors_in(n->k[j], &b); if (!(a >> A_ENDNL & 1) || !(b >> A_END & 1)) continue;
		if (n->t == Node::CAT && n->k[i]->t == Node::ANCHOR && n->k[j]->t == Node::ANCHOR && (i + 1 == j || j + 1 == i)) continue;
		return true; }
	for (auto &k : n->k) if (mixed_ends(k)) return true;
	return false;
}
inline int n_anchors(const P &n) { int s = n->t == Node::ANCHOR; for (auto &k : n->k) s += n_anchors(k); return s; }
inline bool repeated_anchor(const P &n, bool optional) { if (n->t == Node::REP && (optional || n->max != 1) && has_anchor(n->k[0])) return true; for (auto &k : n->k) if (repeated_anchor(k, optional)) return true; return false; }
inline double expanded(const P &n) { double s = 1; for (auto &k : n->k) s += expanded(k); if (n->t == Node::REP) { s *= n->max < 0 ? n->min + 1 : n->max; if (s < 1) s = 1; } return s; }
inline int size(const P &n) { int s = 1; for (auto &k : n->k) s += size(k); return s; }

// --- generators
enum Dialect { PCRE, NATIVE, SQL };
struct Opts {
	Dialect d = PCRE; bool anchors = true, groups = true, counts = true, classes = true, inline_flags = true, escapes = true, empty_alts = true, captures = true, highbytes = true, newline_set = true;
	int depth = 3, width = 4, max_count = 4; bool unbounded = true;
};
struct Gen {
	pbt::Ctx &c; Opts o; bool ic = false, dotall = false, ext = false; int ncap = 0, names = 0; bool end_nl = true;
	std::string txt; int budget = 40;
	Gen(pbt::Ctx &c, const Opts &o) : c(c), o(o) {}
	Bits fold(const Bits &b) { return ic ? icase(b) : b; }
	static std::string hex(int b, bool up) { char s[8]; snprintf(s, sizeof s, up ? "%02X" : "%02x", b); return s; }
	static std::string oct3(int b) { char s[8]; snprintf(s, sizeof s, "%03o", b); return s; }
	int byte() {
		int b;
		switch (c.weighted({14, 2, 3, 1})) {
		case 0: b = "abcd"[c.draw(4)]; break;
		case 1: b = "ABcAZz019_"[c.draw(10)]; break;
		case 2: { static const unsigned char sp[] = {'\n', '\r', '\t', ' ', '-', ']', '}', '/', '"', '\\', '^', '$', '.', '|', '(', ')', '*', '+', '?', '{', '[', '#', ',', ':', '=', '!', '<', '&', '%', '_', 0, 7, 11, 12, 27, 127}; b = sp[c.draw(sizeof sp)]; break; }
		default: b = (int)c.draw(256);
		}
		if (!o.highbytes && b > 127) b &= 127;
		return b;
	}
	// the text of a literal byte outside a class
	std::string lit(int b) {
		if (o.d == SQL) { return std::string(1, (char)b); }
		bool pcre = o.d == PCRE;
		std::string special = pcre ? "\\^$?*+.|(){[" : "\\^$?*+.|(){[";
		bool must = special.find((char)b) != std::string::npos && b;
		if (b == 0) { if (!pcre) return c.chance(1, 2) ? "\\x00" : "\\000"; static const char *z[] = {"\\x00", "\\000", "\\x{0}", "(?:\\0)", "(?:\\x)", "\\o{0}"}; return z[c.draw(o.groups ? 6 : 3)]; }
		if (o.escapes && c.chance(1, 10)) {
			switch (c.draw(pcre ? 4 : 2)) {
			case 0: return "\\x" + hex(b, c.chance(1, 2));
			case 1: if (pcre) { if (b < 64) return "\\0" + oct3(b).substr(1); return "\\x{" + hex(b, c.chance(1, 2)) + "}"; } return "\\" + oct3(b);
			case 2: return "\\x{" + hex(b, c.chance(1, 2)) + "}";
			default: return "\\o{" + oct3(b) + "}";
			}
		}
		const char *ctl = pcre ? "\f\n\r\t\a\033" : "\f\n\r\t\v"; const char *nm = pcre ? "fnrtae" : "fnrtv";
		for (int i = 0; ctl[i]; i++) if (b == ctl[i] && (ext || c.chance(1, 2))) return std::string("\\") + nm[i];
		if (ext && (b == ' ' || b == '#' || b == 11 || (b >= 9 && b <= 13))) { if (b == ' ' || b == '#') return std::string("\\") + (char)b; return "\\x" + hex(b, false); }
		if (must) { if (pcre && (b == ')' || 1) && c.chance(1, 12) && b != '\\') return std::string("\\Q") + (char)b + "\\E"; return std::string("\\") + (char)b; }
		if (pcre && b > 32 && b < 127 && !isalnum(b) && b != '_' && c.chance(1, 6)) return std::string("\\") + (char)b; // needless escape
		return std::string(1, (char)b);
	}
	// inside a bracket expression; `last`: nothing follows before the closing bracket
	std::string clit(int b) {
		bool pcre = o.d == PCRE;
		if (b == 0) return pcre ? "\\x{0}" : "\\x00";
		if (b == 8 && pcre && c.chance(1, 2)) return "\\b";
		if (b == '\\' || b == ']' || b == '-' || b == '^' || b == '[') {
			if (b == '[' && c.chance(1, 3)) return pcre ? "\\[" : "["; // never followed by ':' '.' '=' in what we emit
			if (!pcre) { if (b == '\\') return "\\\\"; if (b == '^') return "\\^"; if (b == '-') return "\\-"; if (b == ']') return "\\]"; return "\\x5b"; }
			return std::string("\\") + (char)b;
		}
		if (o.escapes && c.chance(1, 10)) {
			switch (c.draw(pcre ? 4 : 2)) {
			case 0: return "\\x" + hex(b, c.chance(1, 2));
			case 1: if (pcre) { if (b < 64) return "\\0" + oct3(b).substr(1); return "\\x{" + hex(b, c.chance(1, 2)) + "}"; } return "\\x" + hex(b, true);
			case 2: return "\\x{" + hex(b, c.chance(1, 2)) + "}";
			default: return "\\o{" + oct3(b) + "}";
			}
		}
		const char *ctl = pcre ? "\f\n\r\t\a\033" : "\f\n\r\t\v"; const char *nm = pcre ? "fnrtae" : "fnrtv";
		for (int i = 0; ctl[i]; i++) if (b == ctl[i] && c.chance(1, 2)) return std::string("\\") + nm[i];
		return std::string(1, (char)b);
	}
	static Bits escclass(char ch) {
		switch (ch) { case 'd': return cls("digit"); case 'D': return ~cls("digit"); case 's': return cls("space"); case 'S': return ~cls("space"); case 'w': return cls("word"); case 'W': return ~cls("word");
		case 'h': return cls("hspace_pcre"); case 'H': return ~cls("hspace_pcre"); case 'v': return cls("vspace_pcre"); case 'V': return ~cls("vspace_pcre"); case 'N': return ~cls("nl"); } abort();
	}
	const std::vector<std::string> &posix() {
		static const std::vector<std::string> pc = {"alnum", "alpha", "ascii", "blank", "cntrl", "digit", "graph", "lower", "print", "punct", "space", "upper", "word", "xdigit"},
			na = {"alnum", "alpha", "ascii", "hspace", "cntrl", "digit", "graph", "lower", "print", "punct", "space", "upper", "vspace", "word", "xdigit"};
		return o.d == PCRE ? pc : na;
	}
	P bracket() {
		txt += "["; bool inv = c.chance(1, 4); if (inv) txt += "^"; Bits s; bool any = false;
		if (c.chance(1, 12)) { // leading ']'
			if (c.chance(1, 3)) { int hi = ']' + 1 + (int)c.draw(20); txt += "]-" + clit(hi == '^' ? hi = '_' : hi); s |= rng(']', hi); } else { txt += "]"; s.set(']'); }
			any = true;
		} else if (c.chance(1, 12)) { txt += "-"; s.set('-'); any = true; }
		int n = c.range(any ? 0 : 1, 3);
		for (int i = 0; i < n; i++) {
			switch (c.weighted({5, 3, 2, o.d == PCRE ? 2u : 0u})) {
			case 0: { int b = byte(); if (b == ':' || b == '.' || b == '=') b = 'e'; txt += clit(b); s.set(b); break; }
			case 1: { int a = byte(), b = byte(); if (c.chance(1, 2)) { a = "aAZ0m"[c.draw(5)]; b = a + (int)c.draw(8); } if (a > b) std::swap(a, b); if (a == ':' || a == '.' || a == '=') a = '/'; if (b < a) b = a;
				if (a == ']' || b == ']') { a = b = '\\'; } txt += clit(a) + "-"; if (b == '-') txt += "\\-"; else txt += clit(b); s |= rng(a, b); break; }
			case 2: { const std::string &nm = c.pick(posix()); txt += "[:" + nm + ":]"; Bits k = cls(nm); if (ic && o.d == PCRE && (nm == "upper" || nm == "lower")) k = cls("alpha"); s |= k; break; }
			case 3: { char e = "dDsSwWhHvV"[c.draw(10)]; txt += std::string("\\") + e; s |= escclass(e); break; }
			}
		}
		if (c.chance(1, 12)) { txt += "-"; s.set('-'); }
		txt += "]"; s = fold(s); return mkset(inv ? ~s : s);
	}
	P sql_bracket() {
		auto part = [&](bool first) {
			Bits s; int n = c.range(1, 3); bool inv = false;
			if (first) { inv = c.chance(1, 4); if (inv) txt += "^"; if (c.chance(1, 10)) { txt += "-"; s.set('-'); } }
			for (int i = 0; i < n; i++) switch (c.weighted({4, 2, 2})) {
			case 0: { int b = sqlbyte(); txt += (char)b; s.set(b); break; }
			case 1: { int a = sqlbyte(), b = sqlbyte(); if (a > b) std::swap(a, b); txt += (char)a; txt += "-"; txt += (char)b; s |= rng(a, b); break; }
			default: { static const char *nm[] = {"ALNUM", "ALPHA", "DIGIT", "LOWER", "SPACE", "UPPER", "WHITESPACE"}; static const char *rn[] = {"alnum", "alpha", "digit", "lower", "spchr", "upper", "space"}; int k = (int)c.draw(7); txt += std::string("[:") + nm[k] + ":]"; s |= cls(rn[k]); break; }
			}
			s = fold(s); return inv ? ~s : s;
		};
		txt += "["; Bits s = part(true);
		if (c.chance(1, 6)) { txt += "^"; s &= ~part(false); }
		txt += "]"; return mkset(s);
	}
	int sqlbyte() { for (int i = 0; i < 20; i++) { int b = byte(); if (b && !strchr("_%()?*+|[]^-{}:", b)) return b; } return 'a'; }
	void ws() { if (!ext || o.d != PCRE) return; while (c.chance(1, 6)) switch (c.draw(4)) { case 0: txt += " "; break; case 1: txt += "\t"; break; case 2: txt += "\n"; break; default: txt += "#c)|*+\n"; } }
	P atom(int depth) {
		budget--;
		unsigned wg = o.groups && depth > 0 && budget > 0 ? 4 : 0, wa = o.anchors && o.d != SQL ? 2 : 0, wc = o.classes ? 3 : 0;
		switch (c.weighted({10, wc, 2, wg, wa, o.d == PCRE && o.classes ? 2u : 0u, o.d == PCRE && o.inline_flags ? 1u : 0u, o.d == SQL ? 2u : 0u, o.d == PCRE && o.escapes ? 1u : 0u})) {
		case 0: { int b = o.d == SQL ? sqlbyte() : byte(); txt += lit(b); return mkset(fold(mkbyte(b)->set)); }
		case 1: return o.d == SQL ? sql_bracket() : bracket();
		case 2: { txt += o.d == SQL ? "_" : "."; Bits b; b.set(); if (!dotall) b.reset('\n'); return mkset(b); }
		case 3: {
			int kind = o.d == PCRE ? (int)c.weighted({4, 4, 0, o.inline_flags ? 2u : 0u}) : 0; P g = mk(Node::GROUP);
			bool si = ic, sd = dotall, se = ext;
			if (kind == 0 && !o.captures && o.d == PCRE) kind = 1;
			if (kind == 0) { txt += "("; g->cap = ++ncap; } else if (kind == 1) txt += "(?:"; else if (kind == 2) { g->cap = ++ncap; txt += "(?<n" + std::to_string(names++) + ">"; }
			else { txt += "(?"; flags(); txt += ":"; }
			g->k.push_back(alts(depth - 1)); txt += ")"; ic = si; dotall = sd; ext = se; return g; }
		case 4: { P a = mk(Node::ANCHOR);
			switch (c.weighted({4, 4, o.d == PCRE && o.escapes ? 1u : 0u, o.d == PCRE && o.escapes ? 1u : 0u, o.d == PCRE && o.escapes ? 1u : 0u})) {
			case 0: txt += "^"; a->anchor = A_START; break; case 1: txt += "$"; a->anchor = o.d == PCRE ? A_ENDNL : A_END; break;
			case 2: txt += "\\A"; a->anchor = A_START; break; case 3: txt += "\\Z"; a->anchor = A_ENDNL; break; case 4: txt += "\\z"; a->anchor = A_END; break; }
			return a; }
		case 5: { char e = "dDsSwWhHvVN"[c.draw(11)]; txt += std::string("\\") + e; return mkset(escclass(e)); }
		case 6: { txt += "(?"; flags(); txt += ")"; return mk(Node::EMPTY); }
		case 7: { txt += "%"; Bits b; b.set(); if (!dotall) b.reset('\n'); return mkrep(mkset(b), 0, -1); }
		default: switch (c.range(1, 2)) {
			case 0: { txt += "\\Ra"; P a = mk(Node::ALT); a->k = {mkcat({mkbyte(13), mkbyte(10)}), mkset(cls("bsr"))}; int b = 'a'; return mkcat({a, mkset(fold(mkbyte(b)->set))}); }
			case 1: { std::vector<P> v; txt += "\\Q"; int n = c.range(0, 3); for (int i = 0; i < n; i++) { int b = byte(); if (!b || b == '\\') b = '*'; txt += (char)b; v.push_back(mkset(fold(mkbyte(b)->set))); } txt += "\\E"; if (c.chance(1, 4)) txt += "\\E"; return mkcat(v); }
			default: txt += "(?#" ; { int n = c.range(0, 3); while (n--) txt += "x*[|"[c.draw(4)]; } txt += ")"; return mk(Node::EMPTY); }
		}
	}
	void flags() { // one flag on either side of '-', as the dialect documents
		bool any = false; static const char fl[] = "isx";
		auto set = [&](char f, bool v) { if (f == 'i') ic = v; else if (f == 's') dotall = v; else if (f == 'x') ext = v; };
		char on = 0; if (c.chance(2, 3)) { on = fl[c.draw(c.chance(1, 5) ? 3 : 2)]; if (c.chance(1, 12)) on = 'n'; txt += on; any = true; }
		if (!any || c.chance(1, 4)) { char off = fl[c.draw(c.chance(1, 5) ? 3 : 2)]; if (off == on) off = on == 'i' ? 's' : 'i'; txt += "-"; txt += off; set(off, false); }
		if (on) set(on, true);
	}
	P piece(int depth, bool *noquant) {
		size_t at = txt.size(); P a = atom(depth); *noquant = false;
		if (a->t == Node::EMPTY || (a->t == Node::CAT)) { *noquant = true; return a; } // (?i), comments, multi-atom escapes
		if (!o.counts) return a;
		if (a->t == Node::REP) return a; // '%'
		if (a->t == Node::ANCHOR) return a; // a count applied to an anchor is an error
		(void)at;
		unsigned wrep = o.unbounded ? 1 : 0;
		switch (c.weighted({10, 2 * wrep, 2 * wrep, 2, 2, (a->t == Node::ANCHOR) ? 0u : 1u})) {
		case 0: return a;
		case 1: ws(); txt += "*"; return mkrep(a, 0, -1);
		case 2: ws(); txt += "+"; return mkrep(a, 1, -1);
		case 3: ws(); txt += "?"; return mkrep(a, 0, 1);
		case 4: case 5: {
			ws(); int lo = (int)c.draw(o.max_count), hi = lo + (int)c.draw(3); int k = (int)c.weighted({3, 3, o.d == PCRE && o.unbounded ? 2u : 0u});
			if (k == 0) { txt += "{" + std::to_string(lo) + "}"; return mkrep(a, lo, lo); }
			if (k == 1) { txt += "{" + std::to_string(lo) + "," + std::to_string(hi) + "}"; return mkrep(a, lo, hi); }
			txt += "{" + std::to_string(lo) + ",}"; return mkrep(a, lo, -1); }
		}
		return a;
	}
	P cat(int depth) {
		std::vector<P> v; int n = c.range(1, o.width); if (o.empty_alts && o.d != NATIVE && c.chance(1, 10)) n = 0;
		for (int i = 0; i < n; i++) { bool nq; ws(); v.push_back(piece(depth, &nq)); }
		ws(); return mkcat(v);
	}
	P alts(int depth) {
		int n = c.chance(1, 3) ? c.range(2, 3) : 1; if (n == 1) return cat(depth);
		P a = mk(Node::ALT); for (int i = 0; i < n; i++) { if (i) txt += "|"; a->k.push_back(cat(depth)); } return a;
	}
	// Alternatives that are copies of one another except in one place: a bound, a range end, a byte, an element more or less.
	struct Elem { int kind = 0, a = 'a', b = 'a', lo = 1, hi = 1; bool inv = false, cap = true; std::vector<std::vector<Elem>> sub; };
	typedef std::vector<Elem> Seq;
	Elem elem(int depth) { Elem e; e.kind = (int)c.weighted({5, 2, depth > 0 ? 3u : 0u}); e.a = 'a' + (int)c.draw(4); e.b = e.a + (int)c.draw(4); e.inv = c.chance(1, 5); e.cap = o.d != PCRE || c.chance(1, 2);
		if (c.chance(2, 5)) bounds(e); if (e.kind == 2) { int n = c.range(1, 2); for (int i = 0; i < n; i++) e.sub.push_back(seq(depth - 1)); } return e; }
	void bounds(Elem &e) { switch (c.draw(5)) { case 0: e.lo = 0; e.hi = -1; break; case 1: e.lo = 1; e.hi = -1; break; case 2: e.lo = 0; e.hi = 1; break; default: e.lo = (int)c.draw(3); e.hi = e.lo + (int)c.draw(3); } }
	Seq seq(int depth) { Seq s; int n = c.range(1, 3); for (int i = 0; i < n; i++) s.push_back(elem(depth)); return s; }
	void vary(Seq &s) {
		size_t i = s.empty() ? 0 : c.draw(s.size()); if (s.empty()) { s.push_back(elem(0)); return; } Elem &e = s[i];
		if (e.kind == 2 && c.chance(1, 2)) { vary(e.sub[c.draw(e.sub.size())]); return; }
		switch (c.weighted({3, 3, 4, 1, 1, 1, 1, 1})) {
		case 0: e.a = 'a' + (e.a - 'a' + 1) % 4; if (e.b < e.a) e.b = e.a; break; case 1: e.b++; if (e.kind == 0) e.a = 'a' + (int)c.draw(4); break;
		case 2: if (c.chance(1, 3)) bounds(e); else if (e.hi == -1 || c.chance(1, 2)) e.hi = e.hi == -1 ? e.lo + 1 : e.hi + 1; else { e.lo++; if (e.hi < e.lo) e.hi = e.lo; } break;
		case 3: e.inv = !e.inv; break; case 4: s.erase(s.begin() + i); if (s.empty() && (o.d == NATIVE || !o.empty_alts)) s.push_back(elem(0)); break; case 5: { Elem d = s[i]; s.insert(s.begin() + i, d); break; } case 6: if (i + 1 < s.size()) std::swap(s[i], s[i + 1]); break;
		default: if (e.kind == 2) { if (o.d == PCRE) e.cap = !e.cap; Seq t = e.sub[0]; vary(t); e.sub.push_back(t); } else { Elem g; g.kind = 2; g.cap = o.d != PCRE || c.chance(1, 2); g.sub.push_back(Seq{e}); s[i] = g; } }
	}
	P render(const Seq &s) { std::vector<P> v; for (auto &e : s) { P a;
			if (e.kind == 0) { txt += lit(e.a); a = mkset(fold(mkbyte(e.a)->set)); }
			else if (e.kind == 1) { txt += e.inv ? "[^" : "["; txt += (char)e.a; txt += '-'; txt += (char)e.b; txt += ']'; Bits b = fold(rng(e.a, e.b)); a = mkset(e.inv ? ~b : b); }
			else { a = mk(Node::GROUP); if (e.cap) { txt += "("; a->cap = ++ncap; } else txt += "(?:"; a->k.push_back(renderalts(e.sub)); txt += ")"; }
			if (e.lo == 1 && e.hi == 1) { v.push_back(a); continue; }
			if (e.lo == 0 && e.hi == -1) txt += "*"; else if (e.lo == 1 && e.hi == -1) txt += "+"; else if (e.lo == 0 && e.hi == 1) txt += "?";
			else { int hi = e.hi == -1 && o.d != PCRE ? e.lo + 2 : e.hi; txt += "{" + std::to_string(e.lo) + (hi == e.lo && c.chance(1, 2) ? "" : hi == -1 ? "," : "," + std::to_string(hi)) + "}"; v.push_back(mkrep(a, e.lo, hi)); continue; }
			v.push_back(mkrep(a, e.lo, e.hi)); }
		return mkcat(v); }
	P renderalts(const std::vector<Seq> &s) { if (s.size() == 1) return render(s[0]); P a = mk(Node::ALT); for (size_t i = 0; i < s.size(); i++) { if (i) txt += "|"; a->k.push_back(render(s[i])); } return a; }
	P twins() {
		txt.clear(); std::vector<Seq> s{seq(2)}; int n = c.range(1, 4); for (int i = 0; i < n; i++) { Seq t = s[c.draw(s.size())]; if (c.chance(9, 10)) vary(t); s.push_back(t); }
		if (o.d == SQL || !o.anchors || c.chance(1, 4)) return renderalts(s);
		P a = mk(Node::ANCHOR), z = mk(Node::ANCHOR), g = mk(Node::GROUP); a->anchor = A_START; z->anchor = o.d == PCRE ? A_ENDNL : A_END;
		txt = o.d == PCRE ? "^(?:" : "^("; if (o.d != PCRE) g->cap = ++ncap; g->k.push_back(renderalts(s)); txt += ")$"; return mkcat({a, g, z});
	}
	P run() { txt.clear(); if (o.d == NATIVE && c.chance(1, 60)) return mk(Node::EMPTY); return alts(o.depth); }
};
} // namespace rx
