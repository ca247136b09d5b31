// BUILD: variant=san
// Property: parsing any byte string in any dialect succeeds or reports an error with a message and positions inside the input.
// Oracle: sanitizers (memory, undefined behaviour, aborts), the per-case time limit, and the error contract; the three
// entry points must agree on whether the string parses; a compiled automaton must be usable.
#include "rex.hpp"
#include <re/literal.h>
#include <fcntl.h>
#include <unistd.h>
using namespace model; using namespace fsmx; using namespace rx;
static const char *DN[] = {"pcre", "native", "sql", "glob", "like", "literal"};
static const enum re_dialect D[] = {RE_PCRE, RE_NATIVE, RE_SQL, RE_GLOB, RE_LIKE, RE_LITERAL};

static void contract(pbt::Ctx &c, int d, const std::string &re, const struct re_err &e, const char *what) {
	REQ(c, e.e != RE_ESUCCESS && e.e != 0, "no-error", std::string(what) + " failed without an error code");
	const char *m = re_strerror(e.e); REQ(c, m && *m, "message", "no message for error " + std::to_string((int)e.e));
	if (e.e & RE_MARK) { REQ(c, e.start.byte <= e.end.byte, "pos-order", std::string(what) + ": error " + m + " start " + std::to_string(e.start.byte) + " is after end " + std::to_string(e.end.byte));
		REQ(c, e.end.byte <= re.size(), "pos-range", std::string(what) + ": error " + m + " position " + std::to_string(e.start.byte) + "-" + std::to_string(e.end.byte) + " beyond input of " + std::to_string(re.size()) + " bytes"); }
	if (e.e & RE_ESC) REQ(c, memchr(e.esc, 0, sizeof e.esc), "esc", "unterminated escape text"); if (e.e & RE_GROUP) REQ(c, memchr(e.set, 0, sizeof e.set), "set", "unterminated set text");
	if (c.chance(1, 16) && re.find('\0') == std::string::npos) { fflush(stderr); int k = dup(2), nul = open("/dev/null", O_WRONLY); dup2(nul, 2); re_perror(D[d], &e, c.chance(1, 2) ? "file" : nullptr, re.c_str()); fflush(stderr); dup2(k, 2); close(k); close(nul); }
}
static void oracle(pbt::Ctx &c, const std::string &re) {
	int d = (int)c.weighted({6, 3, 3, 1, 1, 1}), flags = 0; if (c.chance(1, 2)) { static const int F[] = {RE_ICASE, RE_SINGLE, RE_ANCHORED, RE_EXTENDED, RE_END_NL, RE_REVERSE, RE_TEXT, RE_MULTI, RE_ZONE, RE_SAVE_LINKAGE_INFO}; int n = c.range(1, 3); while (n--) flags |= F[c.draw(10)]; }
	c.describe([&](std::ostream &s) { s << DN[d] << " " << pbt::show(re) << " flags " << flags; });
	struct re_err e1, e2, e3; memset(&e1, 0, sizeof e1); memset(&e2, 0, sizeof e2); memset(&e3, 0, sizeof e3);
	rex::StrSrc s{&re, 0}; auto a = re_is_anchored(D[d], rex::str_getc, &s, (enum re_flags)flags, &e1); if (a == RE_IS_ANCHORED_ERROR) contract(c, d, re, e1, "re_is_anchored");
	s = rex::StrSrc{&re, 0}; enum re_literal_category cat; char *p = nullptr; size_t n = 0; int r = re_is_literal(D[d], rex::str_getc, &s, (enum re_flags)flags, &e2, &cat, &p, &n); if (r == 1 && cat != RE_LITERAL_UNSATISFIABLE) { for (size_t i = 0; i < n; i++) (void)*(volatile char *)(p + i); free(p); } if (r == -1) contract(c, d, re, e2, "re_is_literal");
	REQ(c, (r == -1) == (a == RE_IS_ANCHORED_ERROR), "agree", "re_is_literal and re_is_anchored disagree on whether this parses");
	if (a == RE_IS_ANCHORED_ERROR) { REQ(c, e1.e == e2.e && e1.start.byte == e2.start.byte && e1.end.byte == e2.end.byte, "agree-error", "different errors reported for the same text"); c.count(re_strerror(e1.e)); }
	bool big = false; int run = 0; for (unsigned char ch : re) { run = isdigit(ch) ? run + 1 : 0; if (run > 2) big = true; } if (std::count(re.begin(), re.end(), '{') > 2) big = true;
	if (big) { c.count("counts-too-large-to-compile"); if (a == RE_IS_ANCHORED_ERROR) c.nontrivial(); return; }
	Fsm f(rex::comp(D[d], re, flags, &e3)); if (!f.f) contract(c, d, re, e3, "re_comp");
	REQ(c, !f.f == (a == RE_IS_ANCHORED_ERROR), "agree-comp", std::string("re_comp ") + (f.f ? "accepts" : "rejects") + " what re_is_anchored " + (f.f ? "rejects" : "accepts"));
	if (f.f) { c.count("accepted"); fsm_state_t st; (void)fsm_getstart(f, &st); REQ(c, fsm_countstates(f) > 0, "empty", "an automaton without states"); } else c.count("rejected");
	if (re.size() > 1) c.nontrivial();
	if (c.chance(1, 8)) { s = rex::StrSrc{&re, 0}; struct fsm *g = re_comp(D[d], rex::str_getc, &s, nullptr, (enum re_flags)flags, nullptr); REQ(c, !g == !f.f, "null-err", "passing no error struct changes the verdict"); if (g) fsm_free(g); }
}
PBT_CASE(bytes, 2, "the text has at least two bytes") { int n = c.range(0, 24); std::string s; for (int i = 0; i < n; i++) s += (char)c.draw(c.chance(1, 3) ? 256 : 128); oracle(c, s); }
PBT_CASE(soup, 6, "as bytes") { // fragments of the dialects' syntax
	static const char *T[] = {"a", "b", "Z", "0", "1", "9", " ", "\n", "^", "$", ".", "|", "*", "+", "?", "(", ")", "(", ")", "[", "]", "[^", "[]", "[^]", "-", "{", "}", "{2}", "{1,3}", "{,2}", "{2,}", "{3,1}", "{0}", ",", "\\", "\\\\", "\\n", "\\d", "\\D", "\\w", "\\s", "\\h", "\\v", "\\N", "\\R", "\\X", "\\b", "\\B", "\\A", "\\z", "\\Z", "\\G", "\\K", "\\Q", "\\E", "\\x", "\\x4", "\\x41", "\\x{", "\\x{41}", "\\x{110000}", "\\x{ffffffffff}", "\\o{101}", "\\o{", "\\0", "\\07", "\\777", "\\1", "\\g1", "\\k<a>", "\\cA", "\\c", "\\p{L}", "\\u0041", "(?", "(?:", "(?i)", "(?-i)", "(?i-s:", "(?x)", "(?n)", "(?^)", "(?#", "(?#c)", "(?<n>", "(?P<n>", "(?'n'", "(?=", "(?!", "(?<=", "(?>", "(?|", "(?R)", "(*", "(*ACCEPT)", "(*UTF)", "[:", ":]", "[:alpha:]", "[[:alpha:]]", "[[:^alpha:]]", "[:ALNUM:]", "[[:foo:]]", "[.", "[=", "a-z", "z-a", "\\d-", "-\\d", "%", "_", "#", "\xff", "\x80", "\xc3\xa9", "*?", "+?", "??", "*+", "}{"};
	int n = c.range(0, 10); std::string s; for (int i = 0; i < n; i++) { if (c.chance(1, 15)) s += (char)c.draw(256); else s += T[c.draw(sizeof T / sizeof *T)]; } oracle(c, s); }
PBT_CASE(mutant, 4, "as bytes") { // a valid expression with a few byte edits
	Opts o; o.d = c.chance(1, 2) ? PCRE : c.chance(1, 2) ? NATIVE : SQL; o.width = 3; Gen g(c, o); P t = g.run(); if (expanded(t) > 300) c.discard(); std::string s = g.txt; int n = c.range(0, 3);
	while (n--) { size_t i = s.empty() ? 0 : c.draw(s.size() + 1); switch (c.draw(3)) { case 0: if (i < s.size()) s.erase(i, 1 + c.draw(3)); break; case 1: s.insert(i, 1, "()[]{}\\^$|?*+-:,#&\0"[c.draw(19)]); break; default: if (i < s.size()) s[i] = (char)c.draw(128); } }
	if (s.size() > 200) c.discard(); oracle(c, s); }
PBT_CASE(deep, 1, "as bytes") { // nesting and length
	int n = c.chance(1, 4) ? c.range(50, 400) : c.range(2, 60); std::string s; switch (c.draw(6)) { case 0: s = std::string(n, '(') + "a" + std::string(c.chance(1, 2) ? n : c.range(0, n), ')'); break; case 1: for (int i = 0; i < n; i++) s += "(?:"; s += "a"; for (int i = 0; i < n; i++) s += ")"; break;
	case 2: s = std::string(n, '['); break; case 3: for (int i = 0; i < n; i++) s += "a|"; break; case 4: for (int i = 0; i < n; i++) s += "(a|b"; for (int i = 0; i < n; i++) s += ")"; break; default: s = std::string(n * 4, 'a'); }
	oracle(c, s); }
