// BUILD: variant=san
// Property: native-dialect expressions denote the language of their structure.
// Oracle: an exact automaton built from the generated syntax tree; compared by language equivalence (shortest
// distinguishing input), plus direct execution on near-match inputs.
#include "rex.hpp"
using namespace model; using namespace fsmx; using namespace rx;

static void oracle(pbt::Ctx &c, enum re_dialect d, const std::string &re, const P &tree, int flags, bool search) { if (expanded(tree) > 250) c.discard();
	c.describe([&](std::ostream &s) { s << "/" << pbt::show(re) << "/ flags " << flags; });
	struct re_err err; Fsm f(rex::comp(d, re, flags, &err));
	if (!f.f) { if (err.e == RE_EUNSUPPORTED) { c.count("unsupported"); c.discard(); } c.fail("reject", "libre rejects " + pbt::show(re) + ": " + re_strerror(err.e) + " at " + std::to_string(err.start.byte)); }
	rex::determinise(c, f); std::string ctx = "expression " + pbt::show(re) + " flags " + std::to_string(flags);
	Nfa m; try { m = to_nfa(tree, search); } catch (TooBig &) { c.discard(); }
	int yes = 0, no = 0;
	for (int i = 0; i < 6; i++) { std::string w = subject(c, tree); bool want = accepts(m, w); fsm_state_t e; int got = exec(f, w, &e);
		REQ(c, got == want, want ? "missed" : "matched", ctx + "\ninput " + pbt::show(w) + ": expected " + (want ? "a match" : "no match") + ", libfsm says " + std::to_string(got)); (want ? yes : no)++; }
	try { Nfa g = extract(c, f); std::string w; if (!equivalent(m, g, CMP_LANG, &w, 20000)) c.fail(accepts(m, w) ? "missed" : "matched", ctx + "\ninput " + pbt::show(w) + ": expected " + (accepts(m, w) ? "a match" : "no match"));
		c.count("equivalent"); if (!empty_lang(g)) c.nontrivial(); } catch (TooBig &) { c.count("too-big"); if (yes && no) c.nontrivial(); }
	if (has_anchor(tree)) c.count("anchored"); if (yes) c.count("some-match"); if (no) c.count("some-nonmatch");
}
static void shape(pbt::Ctx &c, const P &t) { bool td = tidy(t); if (!td && (crossed(t) || n_anchors(t) > 2 || repeated_anchor(t, n_anchors(t) > 1))) c.discard(); }
static void go(pbt::Ctx &c, Opts o) {
	o.d = NATIVE; Gen g(c, o); int flags = 0; if (c.chance(1, 4)) { flags |= RE_ICASE; g.ic = true; } if (c.chance(1, 5)) { flags |= RE_SINGLE; g.dotall = true; }
	P t = g.run(); if (g.txt.size() > 400) c.discard(); shape(c, t); oracle(c, RE_NATIVE, g.txt, t, flags, true);
}
PBT_CASE(grammar, 6, "the language is not empty and was compared exactly with the model (or both verdicts were sampled)") { Opts o; go(c, o); }
PBT_CASE(plain, 3, "as grammar; no anchors: concatenation, alternation, counts, groups") { Opts o; o.anchors = false; o.depth = 4; o.width = 3; o.max_count = c.chance(1, 8) ? 8 : 4; go(c, o); }
PBT_CASE(twins, 3, "as grammar; alternatives that are copies of one another but for one bound, range end, byte or element") {
	Opts o; o.d = NATIVE; Gen g(c, o); int flags = 0; if (c.chance(1, 6)) { flags |= RE_ICASE; g.ic = true; }
	P t = g.twins(); if (g.txt.size() > 300) c.discard(); shape(c, t); oracle(c, RE_NATIVE, g.txt, t, flags, true);
}
PBT_CASE(classes, 3, "as grammar; mostly bracket expressions") {
	Opts o; o.d = NATIVE; Gen g(c, o); int flags = 0; if (c.chance(1, 3)) { flags |= RE_ICASE; g.ic = true; }
	std::vector<P> v; int n = c.range(1, 3); g.txt = "^"; { P a = mk(Node::ANCHOR); a->anchor = A_START; v.push_back(a); }
	for (int i = 0; i < n; i++) { if (c.chance(4, 5)) v.push_back(g.bracket()); else { bool nq; v.push_back(g.piece(1, &nq)); } }
	g.txt += "$"; { P a = mk(Node::ANCHOR); a->anchor = A_END; v.push_back(a); }
	P t = mkcat(v); shape(c, t); oracle(c, RE_NATIVE, g.txt, t, flags, true);
}
