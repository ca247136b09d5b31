// BUILD: variant=san
// Property: glob, like, literal and SQL patterns denote exactly the documented language over all bytes.
// Oracle: for glob/like/literal a direct wildcard matcher and an exact automaton; for SQL an automaton of the generated tree.
#include "rex.hpp"
using namespace model; using namespace fsmx; using namespace rx;

static void oracle(pbt::Ctx &c, enum re_dialect d, const std::string &re, const P &tree, int flags, const std::vector<std::string> &more = {}) {
	c.describe([&](std::ostream &s) { s << (d == RE_GLOB ? "glob " : d == RE_LIKE ? "like " : d == RE_SQL ? "sql " : "literal ") << pbt::show(re) << " flags " << flags; });
	struct re_err err; Fsm f(rex::comp(d, re, flags, &err));
	if (!f.f) { if (err.e == RE_EUNSUPPORTED) { c.count("unsupported"); c.discard(); } c.fail("reject", "libre rejects " + pbt::show(re) + ": " + re_strerror(err.e) + " at " + std::to_string(err.start.byte)); }
	if (expanded(tree) > 300) c.discard();
	rex::determinise(c, f); std::string ctx = "pattern " + pbt::show(re) + " flags " + std::to_string(flags);
	Nfa m = to_nfa(tree, false); int yes = 0, no = 0;
	auto one = [&](const std::string &w) { bool want = accepts(m, w); fsm_state_t e; int got = exec(f, w, &e);
		REQ(c, got == want, want ? "missed" : "matched", ctx + "\ninput " + pbt::show(w) + ": expected " + (want ? "a match" : "no match") + ", libfsm says " + std::to_string(got)); (want ? yes : no)++; };
	for (auto &w : more) one(w);
	for (int i = 0; i < 5; i++) one(subject(c, tree));
	try { Nfa g = extract(c, f); std::string w; if (!equivalent(m, g, CMP_LANG, &w, 20000)) c.fail(accepts(m, w) ? "missed" : "matched", ctx + "\ninput " + pbt::show(w) + ": expected " + (accepts(m, w) ? "a match" : "no match"));
		c.count("equivalent"); if (!empty_lang(g)) c.nontrivial(); } catch (TooBig &) { c.count("too-big"); if (yes && no) c.nontrivial(); }
	if (yes) c.count("some-match"); if (no) c.count("some-nonmatch");
}
static bool wild(const std::string &p, char one, char many, const std::string &w, bool ic) { // textbook matcher
	std::vector<char> row(w.size() + 1, 0); row[0] = 1; auto up = [&](unsigned char ch) { return ic ? tolower(ch) : (int)ch; };
	for (unsigned char ch : p) { std::vector<char> n(w.size() + 1, 0);
		for (size_t i = 0; i <= w.size(); i++) { if (ch == (unsigned char)many) n[i] = row[i] || (i && n[i - 1]); else if (i) n[i] = row[i - 1] && (ch == (unsigned char)one || (ch < 128 && (unsigned char)w[i - 1] < 128 ? up(ch) == up(w[i - 1]) : ch == (unsigned char)w[i - 1])); }
		row = n; } return row.back(); }
static void wildcard(pbt::Ctx &c, enum re_dialect d, char one, char many) {
	int flags = 0; bool ic = c.chance(1, 4); if (ic) flags |= RE_ICASE; std::string p; std::vector<P> v; int n = c.range(0, 12);
	for (int i = 0; i < n; i++) { Bits b;
		switch (c.weighted({10, 3, 3, 2})) {
		case 0: { int k = "abAbc%_?*\\[]\n"[c.draw(13)]; p += (char)k; break; }
		case 1: p += one; break; case 2: p += many; break; default: p += (char)c.draw(256); }
		unsigned char ch = p.back();
		if (one && ch == (unsigned char)one) { b.set(); v.push_back(mkset(b)); } else if (many && ch == (unsigned char)many) { b.set(); v.push_back(mkrep(mkset(b), 0, -1)); }
		else { b.set(ch); v.push_back(mkset(ic ? icase(b) : b)); } }
	P t = mkcat(v); std::vector<std::string> more;
	if (one) for (int i = 0; i < 3; i++) { std::string w = subject(c, t); Nfa m = to_nfa(t, false); REQ(c, accepts(m, w) == wild(p, one, many, w, ic), "oracle", "the two oracles disagree on " + pbt::show(p) + " " + pbt::show(w)); more.push_back(w); }
	if (ic) for (unsigned char ch : p) if (ch >= 128) c.discard(); // case of high bytes is locale business
	oracle(c, d, p, t, flags, more);
}
PBT_CASE(glob, 3, "the language is not empty and was compared exactly with the model") { wildcard(c, RE_GLOB, '?', '*'); }
PBT_CASE(like, 3, "as glob") { wildcard(c, RE_LIKE, '_', '%'); }
PBT_CASE(literal, 3, "as glob") { wildcard(c, RE_LITERAL, 0, 0); }
PBT_CASE(twins, 3, "as glob; SQL alternatives that are copies of one another but for one bound, range end, byte or element") {
	Opts o; o.d = SQL; Gen g(c, o); g.dotall = true; int flags = 0; if (c.chance(1, 6)) { g.ic = true; flags |= RE_ICASE; }
	P t = g.twins(); if (g.txt.size() > 300 || expanded(t) > 250) c.discard(); oracle(c, RE_SQL, g.txt, t, flags);
}
PBT_CASE(sql, 8, "as glob") {
	Opts o; o.d = SQL; o.classes = true; o.max_count = 4; o.depth = 3; o.width = 3; o.unbounded = true; Gen g(c, o); g.dotall = true; int flags = 0; if (c.chance(1, 4)) { g.ic = true; flags |= RE_ICASE; }
	P t = g.run(); if (g.txt.size() > 300) c.discard(); oracle(c, RE_SQL, g.txt, t, flags);
}
