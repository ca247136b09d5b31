// BUILD: variant=san
// Property: re_is_literal and re_is_anchored tell the truth about the language.
// Oracle: the exact automaton of the generated tree against the automaton of the reported literal/anchoring.
#include "rex.hpp"
#include <re/literal.h>
using namespace model; using namespace fsmx; using namespace rx;

static const char *DN[] = {"pcre", "native", "sql", "glob", "like", "literal"};
static const enum re_dialect D[] = {RE_PCRE, RE_NATIVE, RE_SQL, RE_GLOB, RE_LIKE, RE_LITERAL};
static P anchor(int k) { P a = mk(Node::ANCHOR); a->anchor = k; return a; }
static bool same(const Nfa &a, const Nfa &b, std::string *w) { return equivalent(a, b, CMP_LANG, w, 20000); }
// whole: the dialect matches whole inputs
static void oracle(pbt::Ctx &c, int d, const std::string &re, const P &tree, int flags, int expect_literal, const std::string &lit, int expect_anch) {
	c.describe([&](std::ostream &s) { s << DN[d] << " " << pbt::show(re) << " flags " << flags; });
	if (expanded(tree) > 200) c.discard(); bool whole = d >= 2 || (flags & RE_ANCHORED);
	struct re_err err; memset(&err, 0, sizeof err); rex::StrSrc s{&re, 0}; enum re_literal_category cat = (enum re_literal_category)99; char *p = nullptr; size_t n = 0;
	int r = re_is_literal(D[d], rex::str_getc, &s, (enum re_flags)flags, &err, &cat, &p, &n); std::string text; if (r == 1 && cat != RE_LITERAL_UNSATISFIABLE && n) { REQ(c, p, "null", "literal of length > 0 without text"); text.assign(p, n); } if (r == 1) free(p);
	std::string ctx = std::string(DN[d]) + " expression " + pbt::show(re) + " flags " + std::to_string(flags);
	if (r == -1) { if (err.e == RE_EUNSUPPORTED) c.discard(); c.fail("error", ctx + ": re_is_literal failed: " + re_strerror(err.e)); }
	Nfa m; std::string w; try { m = to_nfa(tree, !whole);
		if (r == 1) { c.count(cat == RE_LITERAL_UNSATISFIABLE ? "unsatisfiable" : "literal"); c.nontrivial();
			if (cat == RE_LITERAL_UNSATISFIABLE) { REQ(c, empty_lang(m), "unsat", ctx + ": called unsatisfiable, yet it can match"); }
			else { REQ(c, !(cat & ~3), "category", "bad category " + std::to_string(cat)); std::vector<P> v; if (cat & 1) v.push_back(anchor(A_START)); std::string body = text; int ea = A_END;
				int mask = 0; anchors_in(tree, &mask); if ((cat & 2) && (mask >> A_ENDNL & 1)) { REQ(c, !body.empty() && body.back() == '\n', "newline", ctx + ": literal of an end anchor that allows a newline does not include it"); body.pop_back(); ea = A_ENDNL; } // by design: the optional newline is listed
				for (unsigned char ch : body) v.push_back(mkbyte(ch)); if (cat & 2) v.push_back(anchor(ea));
				if (!same(m, to_nfa(mkcat(v), !whole), &w)) c.fail("literal", ctx + " is reported to be the literal " + pbt::show(text) + " category " + std::to_string(cat) + ", but they differ on input " + pbt::show(w)); } }
		else { c.count("not-literal"); if (expect_literal >= 0) c.fail("not-literal", ctx + ": a plain literal is not reported as one"); }
		if (expect_literal >= 0 && cat != RE_LITERAL_UNSATISFIABLE) { REQ(c, text == lit, "text", ctx + ": literal text " + pbt::show(text) + " expected " + pbt::show(lit)); REQ(c, (int)cat == expect_literal, "category", ctx + ": category " + std::to_string(cat) + " expected " + std::to_string(expect_literal)); }
		s = rex::StrSrc{&re, 0}; memset(&err, 0, sizeof err); auto a = re_is_anchored(D[d], rex::str_getc, &s, (enum re_flags)flags, &err);
		REQ(c, a != RE_IS_ANCHORED_ERROR, "anchored-error", ctx + ": re_is_anchored failed although the expression parses"); REQ(c, a >= 0 && a <= 3, "anchored-range", "re_is_anchored returned " + std::to_string(a));
		if (!empty_lang(m) && !whole) {
			if (a & RE_IS_ANCHORED_START) { c.count("start"); c.nontrivial(); if (!same(m, to_nfa(mkcat({anchor(A_START), tree}), true), &w)) c.fail("anchored-start", ctx + " is reported anchored at the start, but matches elsewhere in " + pbt::show(w)); }
			if (a & RE_IS_ANCHORED_END) { c.count("end"); c.nontrivial(); int mask = 0; anchors_in(tree, &mask); if (!same(m, to_nfa(mkcat({tree, anchor(mask >> A_ENDNL & 1 ? A_ENDNL : A_END)}), true), &w)) c.fail("anchored-end", ctx + " is reported anchored at the end, but matches elsewhere in " + pbt::show(w)); }
			if (expect_anch >= 0) REQ(c, (a & expect_anch) == expect_anch, "anchored-missed", ctx + ": re_is_anchored says " + std::to_string(a) + ", expected at least " + std::to_string(expect_anch)); }
	} catch (TooBig &) { c.discard(); }
}
static void shape(pbt::Ctx &c, const P &t) { int m = 0; anchors_in(t, &m); if ((m >> A_END & 1) && (m >> A_ENDNL & 1)) c.discard(); if (!tidy(t)) c.discard(); }

PBT_CASE(plain, 4, "reported as a literal or anchored, and the report was compared with the model") { // literals with optional anchors: must be recognised
	int d = (int)c.draw(2); Opts o; o.d = d ? NATIVE : PCRE; Gen g(c, o); int cat = 0; std::vector<P> v; std::string lit;
	if (c.chance(1, 2)) { cat |= 1; g.txt += "^"; v.push_back(anchor(A_START)); if (c.chance(1, 6)) { g.txt += "^"; v.push_back(anchor(A_START)); } }
	int n = c.range(0, 6); for (int i = 0; i < n; i++) { int b = g.byte(); if (d == 0 && b == 0) b = 'z'; if (b == '\n') b = 'n'; g.txt += g.lit(b); v.push_back(mkbyte(b)); lit += (char)b; }
	if (c.chance(1, 2)) { cat |= 2; g.txt += "$"; v.push_back(anchor(d ? A_END : A_ENDNL)); if (!d) lit += "\n"; }
	oracle(c, d, g.txt, mkcat(v), 0, cat, lit, cat);
}
PBT_CASE(wild, 3, "as plain") { // wildcard dialects
	int d = 3 + (int)c.draw(3); std::string p; std::vector<P> v; int n = c.range(0, 5); bool any = false; Bits all; all.set();
	for (int i = 0; i < n; i++) { unsigned char ch = c.chance(1, 6) ? "?*_%"[c.draw(4)] : c.chance(1, 5) ? (int)c.draw(256) : "ab"[c.draw(2)]; p += (char)ch;
		if ((d == 3 && ch == '?') || (d == 4 && ch == '_')) { v.push_back(mkset(all)); any = true; } else if ((d == 3 && ch == '*') || (d == 4 && ch == '%')) { v.push_back(mkrep(mkset(all), 0, -1)); any = true; } else v.push_back(mkbyte(ch)); }
	(void)any; oracle(c, d, p, mkcat(v), 0, -1, "", -1);
}
PBT_CASE(near, 5, "as plain") { // literals with something small added: groups, classes of one, counts, inline flags
	int d = (int)c.draw(2); Opts o; o.d = d ? NATIVE : PCRE; o.width = c.range(1, 4); o.depth = 2; o.max_count = 2; int fl = 0; Gen g(c, o); if (c.chance(1, 8)) { fl |= RE_ICASE; g.ic = true; } if (c.chance(1, 8)) { fl |= RE_ANCHORED; }
	std::vector<P> v; if (c.chance(1, 2)) { g.txt += "^"; v.push_back(anchor(A_START)); }
	int n = c.range(0, 4); for (int i = 0; i < n; i++) { bool nq; if (c.chance(2, 3)) { int b = "abcA1"[c.draw(5)]; g.txt += (char)b; v.push_back(mkset(g.fold(mkbyte(b)->set))); } else v.push_back(g.piece(c.range(0, 1), &nq)); }
	if (c.chance(1, 2)) { g.txt += "$"; v.push_back(anchor(d || (fl & RE_ANCHORED) ? A_END : A_ENDNL)); }
	P t = mkcat(v); shape(c, t); if (fl & RE_ANCHORED && has_anchor(t)) c.discard(); oracle(c, d, g.txt, t, fl, -1, "", -1);
}
PBT_CASE(grammar, 4, "as plain") {
	int d = (int)c.draw(3); Opts o; o.d = d == 0 ? PCRE : d == 1 ? NATIVE : SQL; o.width = 3; Gen g(c, o); if (d == 2) g.dotall = true; P t = g.run(); shape(c, t); oracle(c, d, g.txt, t, 0, -1, "", -1);
}
