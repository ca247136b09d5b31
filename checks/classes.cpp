// BUILD: variant=san libs=-lpcre2-8
// Property: named and escaped character classes contain exactly the bytes they are defined to contain.
// Oracle: class definitions written from POSIX/PCRE/SQL (lib/regex.hpp), every byte executed; PCRE2 itself for PCRE.
#include "rex.hpp"
#include "pcre2x.hpp"
using namespace model; using namespace fsmx; using namespace rx;

struct K { const char *txt; const char *name; bool neg; };
static const K PC[] = {{"\\d", "digit", 0}, {"\\D", "digit", 1}, {"\\s", "space", 0}, {"\\S", "space", 1}, {"\\w", "word", 0}, {"\\W", "word", 1}, {"\\h", "hspace_pcre", 0}, {"\\H", "hspace_pcre", 1}, {"\\v", "vspace_pcre", 0}, {"\\V", "vspace_pcre", 1}, {"\\N", "nl", 1}, {".", "nl", 1}, {"\\R", "bsr", 0}};
static const char *PB[] = {"alnum", "alpha", "ascii", "blank", "cntrl", "digit", "graph", "lower", "print", "punct", "space", "upper", "word", "xdigit"};
static const char *NB[] = {"alnum", "alpha", "ascii", "hspace", "cntrl", "digit", "graph", "lower", "print", "punct", "space", "upper", "vspace", "word", "xdigit"};
static const char *SB[][2] = {{"ALNUM", "alnum"}, {"ALPHA", "alpha"}, {"DIGIT", "digit"}, {"LOWER", "lower"}, {"SPACE", "spchr"}, {"UPPER", "upper"}, {"WHITESPACE", "space"}};

static void verify(pbt::Ctx &c, enum re_dialect d, const std::string &re, const Bits &s, int lo, int hi, int flags, const char *what) {
	c.describe([&](std::ostream &o) { o << (d == RE_PCRE ? "pcre " : d == RE_NATIVE ? "native " : "sql ") << pbt::show(re) << " flags " << flags; });
	struct re_err err; Fsm f(rex::comp(d, re, flags | RE_ANCHORED, &err)); if (!f.f && err.e == RE_EUNSUPPORTED) c.discard(); REQ(c, f.f, "reject", pbt::show(re) + " is rejected: " + re_strerror(err.e));
	rex::determinise(c, f); fsm_state_t e; pcre2x::Re p(d == RE_PCRE ? "\\A(?:" + re + ")\\z" : "a", flags & RE_ICASE, flags & RE_SINGLE, false);
	for (int b = 0; b < 256; b++) for (int n = lo; n <= lo + (b % 7 == 3 ? 1 : 0); n++) { std::string w(n, (char)b); bool want = s[b] && n >= lo && n <= hi; if (n == 0) want = lo == 0;
		if (d == RE_PCRE && p.code) { int pw = p.match(w); if (pw >= 0 && pw != want) c.fail("oracle", "PCRE2 and the class definition disagree on byte " + std::to_string(b) + " in " + pbt::show(re)); }
		int r = exec(f, w, &e); REQ(c, r == want, what, pbt::show(re) + " flags " + std::to_string(flags) + ": byte " + std::to_string(b) + " x" + std::to_string(n) + (want ? " is in the class but not matched" : " is not in the class but matched")); }
	Nfa m; m.add(); m.start = 0; int cur = 0; for (int i = 0; i < hi; i++) { int n = m.add(); m.st[cur].add(s, n); cur = n; } m.st[cur].end = true; require_equiv(c, m, extract(c, f), CMP_LANG, what);
	if (s.any() && !s.all()) c.nontrivial();
}
static void quant(pbt::Ctx &c, std::string &re, int &lo, int &hi) { lo = hi = 1; if (c.chance(1, 5)) { re += "{2}"; lo = hi = 2; } }
PBT_CASE(single, 1, "one class alone, every byte executed; neither empty nor everything") {
	int d = (int)c.draw(3), lo, hi, flags = 0; std::string re; Bits s; if (c.chance(1, 4)) flags |= RE_ICASE;
	if (d == 0) { if (c.chance(1, 3)) { const K &k = PC[c.draw(12)]; re = k.txt; s = cls(k.name); if (k.neg) s = ~s; if (*k.txt == '.' && c.chance(1, 3)) { flags |= RE_SINGLE; s.set(); } }
		else { int i = (int)c.draw(14); bool n = c.chance(1, 3); re = std::string(n ? "[^[:" : "[[:") + PB[i] + ":]]"; s = cls(PB[i]); if (flags) s = icase(s); if (n) s = ~s; } }
	else if (d == 1) { int i = (int)c.draw(15); bool n = c.chance(1, 3); re = std::string(n ? "[^[:" : "[[:") + NB[i] + ":]]"; s = cls(NB[i]); if (flags) s = icase(s); if (n) s = ~s; }
	else { int i = (int)c.draw(7); bool n = c.chance(1, 3); re = std::string(n ? "[^[:" : "[[:") + SB[i][0] + ":]]"; s = cls(SB[i][1]); if (flags) s = icase(s); if (n) s = ~s; }
	if (d != 2) quant(c, re, lo, hi); else lo = hi = 1;
	verify(c, d == 0 ? RE_PCRE : d == 1 ? RE_NATIVE : RE_SQL, re, s, lo, hi, flags, "single");
}
PBT_CASE(mixed, 4, "as single; one to four classes, ranges and literals in a bracket expression") {
	int d = (int)c.draw(3), lo, hi, flags = 0; if (c.chance(1, 4)) flags |= RE_ICASE; Opts o; o.d = d == 0 ? PCRE : d == 1 ? NATIVE : SQL; Gen g(c, o); g.ic = flags; P t = d == 2 ? g.sql_bracket() : g.bracket(); std::string re = g.txt;
	if (d != 2) quant(c, re, lo, hi); else lo = hi = 1; verify(c, d == 0 ? RE_PCRE : d == 1 ? RE_NATIVE : RE_SQL, re, t->set, lo, hi, flags, "mixed");
}
PBT_CASE(names, 1, "a bracketed name in a dialect: known names only are accepted") {
	int d = (int)c.draw(3); std::string nm; bool known = false; int k = (int)c.draw(36); nm = k < 14 ? PB[k] : k < 29 ? NB[k - 14] : SB[k - 29][0];
	if (c.chance(1, 4)) { size_t i = c.draw(nm.size() + 1); if (i < nm.size() && c.chance(1, 2)) nm.erase(i, 1); else nm.insert(i, 1, "aAz9^"[c.draw(5)]); }
	if (d == 0) { for (auto x : PB) known |= nm == x; } else if (d == 1) { for (auto x : NB) known |= nm == x; } else for (auto &x : SB) known |= nm == x[0];
	std::string re = "[[:" + nm + ":]]"; c.describe([&](std::ostream &s) { s << "dialect " << d << " " << re; });
	struct re_err err; Fsm f(rex::comp(d == 0 ? RE_PCRE : d == 1 ? RE_NATIVE : RE_SQL, re, RE_ANCHORED, &err));
	if (known) { REQ(c, f.f, "unknown", re + " is rejected: " + re_strerror(err.e)); c.nontrivial(); }
	else if (d == 0) REQ(c, !f.f, "accepted", re + " is not a class of PCRE but is accepted"); // elsewhere this is a bracket expression of letters
}
