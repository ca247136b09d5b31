// BUILD: variant=san
// Property: fsm_remove_epsilons and fsm_reverse keep (resp. mirror) the language; fsm_remove_epsilons keeps ids and outputs.
#include "fsmx.hpp"
using namespace model; using namespace fsmx;

static Nfa mirrored(const Nfa &a) {
	Nfa r; for (int i = 0; i <= a.n(); i++) r.add(); r.start = a.n();
	for (int i = 0; i < a.n(); i++) { for (auto &e : a.st[i].edges) r.st[e.second].add(e.first, i); for (int t : a.st[i].eps) r.st[t].eps.insert(i); if (a.st[i].end) r.st[a.n()].eps.insert(i); }
	if (a.start >= 0) r.st[a.start].end = true;
	return r;
}
PBT_CASE(epsilons, 5, "an NFA with at least one epsilon edge") {
	GenOpts o; o.eager = c.chance(1, 3); o.max_states = c.chance(1, 8) ? 24 : 8; o.big_ids = true; Nfa a = gen_nfa(c, o);
	if (c.chance(1, 3)) { int k = c.range(1, 6); for (int i = 0; i < k; i++) a.st[c.draw(a.n())].eps.insert((int)c.draw(a.n())); } // epsilon-heavy
	c.describe([&](std::ostream &s) { s << dump(a); });
	Fsm f(build(c, a));
	REQ(c, fsm_remove_epsilons(f) == 1, "remove_epsilons", "failed\n" + dump(a));
	Nfa g = extract(c, f);
	REQ(c, !g.has_eps() && !fsm_has(f, fsm_hasepsilons), "left", "epsilons remain\n" + dump(a) + dump(g));
	REQ(c, g.start >= 0, "start", "no start state afterwards");
	require_equiv(c, a, g, CMP_IDS | CMP_EAGER, "epsilons");
	if (a.has_eps()) c.nontrivial(); if (a.has_ids()) c.count("ids"); if (a.has_eager()) c.count("eager");
}
PBT_CASE(reverse, 4, "an automaton whose language is non-empty and has a word that is not a palindrome") {
	GenOpts o; o.ids = c.chance(1, 4); o.max_states = c.chance(1, 8) ? 20 : 7; o.dfa = c.chance(1, 3); Nfa a = gen_nfa(c, o);
	c.describe([&](std::ostream &s) { s << dump(a); });
	Fsm f(build(c, a));
	REQ(c, fsm_reverse(f) == 1, "reverse", "failed\n" + dump(a));
	Nfa g = extract(c, f), m = mirrored(a);
	require_equiv(c, m, g, CMP_LANG, "reverse");
	REQ(c, fsm_reverse(f) == 1, "reverse2", "failed the second time\n" + dump(a));
	Nfa h = extract(c, f); require_equiv(c, a, h, CMP_LANG, "involution");
	std::string w; bool same = true; try { same = equivalent(a, m, CMP_LANG, &w); } catch (TooBig &) {}
	if (!empty_lang(a) && !same) c.nontrivial();
}
PBT_CASE(brzozowski, 2, "reverse-determinise twice gives the minimal DFA (>2 states)") {
	GenOpts o; o.ids = false; o.max_states = 6; Nfa a = gen_nfa(c, o);
	c.describe([&](std::ostream &s) { s << dump(a); });
	Dfa d; try { subset(mirrored(a), 0, 300); d = subset(a, 0, 300); } catch (TooBig &) { c.discard(); }
	if (empty_lang(a)) c.discard();
	Fsm f(build(c, a));
	REQ(c, fsm_reverse(f) && fsm_determinise(f) && fsm_reverse(f) && fsm_determinise(f), "op", "failed\n" + dump(a));
	Fsm h(build(c, a)); REQ(c, fsm_determinise(h) && fsm_minimise(h), "op", "failed");
	Nfa g = extract(c, f); require_equiv(c, a, g, CMP_LANG, "brzozowski");
	// the double reversal is already minimal up to dead states, and to the start state reversal introduces for several end states
	REQ(c, fsm_trim(f, FSM_TRIM_START_AND_END_REACHABLE, NULL) >= 0, "trim", "failed");
	REQ(c, fsm_countstates(f) >= minimal_states(d) && fsm_countstates(f) <= minimal_states(d) + 1 && fsm_countstates(h) == minimal_states(d), "brzozowski:size", "sizes " + std::to_string(fsm_countstates(f)) + " and " + std::to_string(fsm_countstates(h)) + ", minimal is " + std::to_string(minimal_states(d)) + "\n" + dump(a));
	if (minimal_states(d) > 2) c.nontrivial();
}
