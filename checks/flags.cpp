// BUILD: variant=san
// Property: every compilation flag transforms the language of an expression exactly as documented.
// Oracle: the generated tree's exact automaton with the flag applied in the model (case folding, dot, whole-match,
// mirror), the language of the same expression compiled without the flag, and a table for re_flags().
#include "rex.hpp"
#include <errno.h>
using namespace model; using namespace fsmx; using namespace rx;

static void same(pbt::Ctx &c, const Nfa &m, const Nfa &g, const std::string &ctx) {
	std::string w; try { if (!equivalent(m, g, CMP_LANG, &w, 20000)) c.fail(accepts(m, w) ? "missed" : "matched", ctx + "\ninput " + pbt::show(w) + ": expected " + (accepts(m, w) ? "a match" : "no match")); } catch (TooBig &) { c.discard(); }
}
static void shape(pbt::Ctx &c, const P &t) { int m = 0; anchors_in(t, &m); if (mixed_ends(t)) c.discard(); if (!tidy(t)) c.discard(); if (expanded(t) > 150) c.discard(); }
static void end_only(P &n) { if (n->t == Node::ANCHOR && n->anchor == A_ENDNL) n->anchor = A_END; for (auto &k : n->k) end_only(k); }
static const enum re_dialect D[] = {RE_PCRE, RE_NATIVE, RE_SQL};
static const char *DN[] = {"pcre", "native", "sql"};

PBT_CASE(model, 6, "the language is not empty and the compiled automaton was compared exactly with the model under the flags") {
	int d = (int)c.draw(3); Opts o; o.d = d == 0 ? PCRE : d == 1 ? NATIVE : SQL; o.width = 3; o.inline_flags = d == 0; Gen g(c, o);
	int flags = 0; if (c.chance(1, 2)) { flags |= RE_ICASE; g.ic = true; } if (c.chance(1, 2)) { flags |= RE_SINGLE; } if (d == 0 && c.chance(1, 6)) { flags |= RE_EXTENDED; g.ext = true; }
	g.dotall = d == 2 || (flags & RE_SINGLE); bool anch = c.chance(1, 2), rev = c.chance(1, 3); if (anch) flags |= RE_ANCHORED; if (rev) flags |= RE_REVERSE;
	if (c.chance(1, 5)) flags |= RE_TEXT; if (c.chance(1, 5)) flags |= RE_MULTI; if (c.chance(1, 5)) flags |= RE_ZONE; if (c.chance(1, 8)) flags |= RE_SAVE_LINKAGE_INFO;
	P t = g.run(); if (g.txt.size() > 300) c.discard(); shape(c, t);
	c.describe([&](std::ostream &s) { s << DN[d] << " " << pbt::show(g.txt) << " flags 0x" << std::hex << flags; });
	struct re_err err; Fsm f(rex::comp(D[d], g.txt, flags, &err)); if (!f.f) { if (err.e == RE_EUNSUPPORTED) c.discard(); c.fail("reject", std::string("rejected: ") + re_strerror(err.e)); }
	if (anch) end_only(t);
	Nfa m = to_nfa(t, !(anch || d == 2)); if (rev) m = reverse_nfa(m);
	rex::determinise(c, f); Nfa n = extract(c, f); if (!empty_lang(n)) c.nontrivial();
	same(c, m, n, std::string(DN[d]) + " expression " + pbt::show(g.txt) + " flags " + std::to_string(flags));
	if (rev) c.count("reversed"); if (anch) c.count("anchored-flag"); if (flags & RE_ICASE) c.count("icase"); if (flags & RE_SINGLE) c.count("single");
}
PBT_CASE(mirror, 2, "the expression compiles with and without RE_REVERSE and its language is not a set of palindromes only") {
	static const enum re_dialect A[] = {RE_PCRE, RE_NATIVE, RE_SQL, RE_GLOB, RE_LIKE, RE_LITERAL}; enum re_dialect d = A[c.draw(6)]; std::string txt; int fl = 0;
	if (d == RE_PCRE || d == RE_NATIVE || d == RE_SQL) { Opts o; o.d = d == RE_PCRE ? PCRE : d == RE_NATIVE ? NATIVE : SQL; o.width = 3; o.anchors = c.chance(1, 2); Gen g(c, o); P t = g.run(); shape(c, t); txt = g.txt; if (c.chance(1, 3)) fl |= RE_ANCHORED; }
	else { int n = c.range(0, 8); for (int i = 0; i < n; i++) txt += "abAb*?%_cd\n"[c.draw(11)]; }
	if (c.chance(1, 4)) fl |= RE_ICASE; if (txt.size() > 200) c.discard();
	c.describe([&](std::ostream &s) { s << "dialect " << d << " " << pbt::show(txt) << " flags " << fl; });
	Fsm f(rex::comp(d, txt, fl)), r(rex::comp(d, txt, fl | RE_REVERSE)); REQ(c, !f.f == !r.f, "reject", "compiles only one way with RE_REVERSE"); if (!f.f) c.discard();
	rex::determinise(c, f); rex::determinise(c, r); Nfa a = reverse_nfa(extract(c, f)), b = extract(c, r);
	std::string w; try { if (!equivalent(extract(c, f), b, CMP_LANG, &w, 20000)) c.nontrivial(); } catch (TooBig &) { c.discard(); }
	same(c, a, b, "RE_REVERSE of " + pbt::show(txt));
}
PBT_CASE(inert, 1, "the expression compiles") { // flags documented without an effect on the language
	Opts o; o.width = 3; int d = (int)c.draw(2); o.d = d ? NATIVE : PCRE; Gen g(c, o); P t = g.run(); shape(c, t);
	int fl = 0; if (c.chance(1, 2)) fl |= RE_ICASE; static const int I[] = {RE_TEXT, RE_MULTI, RE_ZONE, RE_SAVE_LINKAGE_INFO}; int add = I[c.draw(4)];
	c.describe([&](std::ostream &s) { s << DN[d] << " " << pbt::show(g.txt) << " flags " << fl << " plus " << add; });
	Fsm f(rex::comp(D[d], g.txt, fl)), r(rex::comp(D[d], g.txt, fl | add)); REQ(c, !f.f == !r.f, "reject", "acceptance depends on an inert flag"); if (!f.f) c.discard(); c.nontrivial();
	rex::determinise(c, f); rex::determinise(c, r); same(c, extract(c, f), extract(c, r), "inert flag " + std::to_string(add) + " on " + pbt::show(g.txt));
}
PBT_CASE(letters, 1, "the flag string is not empty") {
	std::string s; int n = c.range(0, 6); for (int i = 0; i < n; i++) s += c.chance(5, 6) ? "aigmrsz"[c.draw(7)] : (char)c.range(1, 127);
	c.describe([&](std::ostream &o) { o << "re_flags " << pbt::show(s); }); if (n) c.nontrivial();
	enum re_flags f = (enum re_flags)0; errno = 0; int r = re_flags(s.c_str(), &f); bool ok = s.find_first_not_of("aigmrsz") == std::string::npos;
	REQ(c, r == (ok ? 0 : -1), "verdict", "re_flags returned " + std::to_string(r)); if (!ok) { REQ(c, errno == EINVAL, "errno", "errno not EINVAL"); return; }
	static const struct { char ch; int f; } T[] = {{'a', RE_ANCHORED}, {'i', RE_ICASE}, {'r', RE_REVERSE}, {'s', RE_SINGLE}}; int want = 0, mask = 0;
	for (auto &t : T) { mask |= t.f; if (s.find(t.ch) != std::string::npos) want |= t.f; }
	REQ(c, ((int)f & mask) == want, "bits", "re_flags(" + pbt::show(s) + ") = " + std::to_string((int)f));
	REQ(c, !((int)f & (RE_EXTENDED | RE_END_NL | RE_SAVE_LINKAGE_INFO)), "extra", "flags without a letter were set");
}
