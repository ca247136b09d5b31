// BUILD: variant=san
// Property: fsm_equal and fsm_empty decide language equality and emptiness.
#include "fsmx.hpp"
using namespace model; using namespace fsmx;
PBT_CASE(equal, 4, "neither language empty, at least one automaton nondeterministic or different in shape") {
	GenOpts o; o.max_states = 6; o.ids = c.chance(1, 4); Nfa a = gen_nfa(c, o), b; int how = (int)c.weighted({3, 3, 2, 1});
	if (how == 0) { b = a; } // reshaped, same language
	else if (how == 1) { b = a; int k = (int)c.draw(b.n()); switch (c.draw(3)) { case 0: b.st[k].end = !b.st[k].end; b.st[k].ids.clear(); break; case 1: b.st[k].add(gen_bits(c), (int)c.draw(b.n())); break; default: if (!b.st[k].edges.empty()) { auto &e = b.st[k].edges[c.draw(b.st[k].edges.size())]; for (int i = 0; i < 256; i++) if (e.first[i]) { if (e.first.count() > 1) e.first.reset(i); break; } } } }
	else if (how == 2) b = gen_nfa(c, o); else { b = gen_nfa(c, o); b.start = 0; }
	c.describe([&](std::ostream &s) { s << dump(a) << dump(b); });
	try { subset(a, 0, 200); subset(b, 0, 200); } catch (TooBig &) { c.discard(); }
	Fsm fa(build(c, a)), fb(build(c, b));
	auto form = [&](struct fsm *f) { int k = (int)c.draw(4); if (k >= 1) REQ(c, fsm_determinise(f), "det", "failed"); if (k >= 2) REQ(c, fsm_minimise(f), "min", "failed"); if (k == 3 && fsm_countstates(f)) REQ(c, fsm_shuffle(f, (unsigned)c.draw(99)), "shuffle", "failed"); };
	if (how == 0) { form(fb); if (c.chance(1, 2)) form(fa); }
	std::string w; bool want = equivalent(a, b, CMP_LANG, &w);
	std::string ctx = "witness " + pbt::show(w) + "\n" + dump(a) + dump(b);
	int r = fsm_equal(fa, fb); REQ(c, r == (want ? 1 : 0), want ? "equal:no" : "equal:yes", "fsm_equal gave " + std::to_string(r) + "\n" + ctx);
	int s = fsm_equal(fb, fa); REQ(c, s == r, "equal:asymmetric", ctx);
	REQ(c, fsm_equal(fa, fa) == 1, "equal:reflexive", ctx);
	// operands are not changed
	if (how) { Nfa a2 = extract(c, fa); require_equiv(c, a, a2, CMP_IDS, "equal:damaged"); REQ(c, a2.n() == a.n(), "equal:damaged", ctx); }
	if (!empty_lang(a) && !empty_lang(b)) { c.nontrivial(); c.count(want ? "equal" : "different"); }
}
PBT_CASE(empty, 2, "an automaton with end states, some unreachable") {
	GenOpts o; o.max_states = 8; o.must_start = false; Nfa a = gen_nfa(c, o);
	if (a.start < 0) c.discard();
	if (c.chance(1, 2)) { int cut = (int)c.draw(a.n()); for (auto &s : a.st) { for (auto &e : s.edges) if (e.second == cut) e.second = a.start; s.eps.erase(cut); } }
	c.describe([&](std::ostream &s) { s << dump(a); });
	Fsm f(build(c, a)); bool want = empty_lang(a); int r = fsm_empty(f); REQ(c, r == (want ? 1 : 0), want ? "empty:no" : "empty:yes", "fsm_empty gave " + std::to_string(r) + "\n" + dump(a));
	bool e = false; for (auto &s : a.st) e |= s.end; if (e && a.n() > 1) c.nontrivial(); if (want) c.count("empty");
}
