// BUILD: variant=san
// Property: fsm_determinise yields a DFA for the same language with the same end ids and eager outputs.
#include "fsmx.hpp"
using namespace model; using namespace fsmx;

static void oracle(pbt::Ctx &c, const Nfa &a) {
	c.describe([&](std::ostream &s) { s << dump(a); });
	Fsm f(build(c, a));
	if (a.start < 0) { fsm_determinise(f); Nfa g = extract(c, f); REQ(c, g.start < 0, "nostart", "a start state appeared"); return; } // nothing to determinise: only required not to fall over
	Dfa d; try { d = subset(a, CMP_IDS | CMP_EAGER, 800); } catch (TooBig &) { c.discard(); }
	if (c.chance(1, 4)) { // with a state limit
		struct fsm_determinise_config cfg;
		Fsm u(fsm_clone(f)); REQ(c, u.f && fsm_determinise(u), "determinise", "failed\n" + dump(a));
		size_t need = std::max((size_t)a.n(), (size_t)fsm_countstates(u));
		cfg.state_limit = c.draw(need + 4);
		enum fsm_determinise_with_config_res r = fsm_determinise_with_config(f, &cfg);
		REQ(c, r != FSM_DETERMINISE_WITH_CONFIG_ERRNO, "limit:errno", dump(a));
		if (r == FSM_DETERMINISE_WITH_CONFIG_STATE_LIMIT_REACHED) {
			REQ(c, cfg.state_limit != 0, "limit:zero", "limit 0 means none\n" + dump(a));
			REQ(c, need > cfg.state_limit, "limit:early", "limit " + std::to_string(cfg.state_limit) + " reported though " + std::to_string(need) + " states suffice\n" + dump(a));
			// the input is left with its meaning intact
			Nfa g = extract(c, f); require_equiv(c, a, g, CMP_IDS | CMP_EAGER, "limit:damaged"); c.count("limit-reached"); c.nontrivial(); return;
		}
		if (cfg.state_limit) REQ(c, fsm_countstates(f) <= cfg.state_limit + 1, "limit:exceeded", "limit " + std::to_string(cfg.state_limit) + " but " + std::to_string(fsm_countstates(f)) + " states\n" + dump(a));
	} else REQ(c, fsm_determinise(f) == 1, "determinise", "failed\n" + dump(a));
	Nfa g = extract(c, f);
	REQ(c, fsm_all(f, fsm_isdfa), "isdfa", dump(a) + "got\n" + dump(g));
	REQ(c, is_dfa(g), "notdfa", dump(a) + "got\n" + dump(g));
	require_equiv(c, a, g, CMP_IDS | CMP_EAGER, "language");
	// every state of the result is reachable
	std::vector<char> seen(g.n(), 0); std::vector<int> st{g.start}; seen[g.start] = 1; int cnt = 0;
	while (!st.empty()) { int x = st.back(); st.pop_back(); cnt++; for (auto &e : g.st[x].edges) if (!seen[e.second]) { seen[e.second] = 1; st.push_back(e.second); } }
	REQ(c, cnt == g.n(), "unreachable", "unreachable states in the DFA\n" + dump(a) + "got\n" + dump(g));
	// and execution agrees
	for (int i = 0; i < 3; i++) { std::string w = gen_word(c, a); fsm_state_t e; int r = exec(f, w, &e); REQ(c, r == (int)accepts(a, w), "exec", "word " + pbt::show(w) + "\n" + dump(a)); }
	if (!is_dfa(a)) c.nontrivial();
	if (a.has_ids()) c.count("endids"); if (a.has_eager()) c.count("eager"); if (a.has_eps()) c.count("epsilons");
}
PBT_CASE(small, 10, "an NFA with epsilons or nondeterminism (or whose state limit is reached)") {
	GenOpts o; o.eager = c.chance(1, 3); o.big_ids = true; o.must_start = !c.chance(1, 40); oracle(c, gen_nfa(c, o));
}
PBT_CASE(large, 2, "an NFA with epsilons or nondeterminism, up to 40 states") {
	GenOpts o; o.eager = c.chance(1, 4); o.max_states = 40; o.id_range = 8; oracle(c, gen_nfa(c, o));
}
PBT_CASE(union_like, 3, "many word-shaped branches with shared prefixes, loops and overlapping labels") {
	// branches off one start state: exercises the pairwise grouping and its caches
	Nfa a; a.add(); a.start = 0; int br = c.range(2, 14);
	for (int i = 0; i < br; i++) {
		int cur = 0; int len = c.range(1, 4);
		if (c.chance(1, 2)) { int t = a.add(); a.st[0].eps.insert(t); cur = t; }
		if (c.chance(1, 3)) { Bits b; b.set(); a.st[cur].add(b, cur); }
		for (int k = 0; k < len; k++) { int t = a.add(); a.st[cur].add(gen_bits(c), t); if (c.chance(1, 6)) a.st[t].add(gen_bits(c), t); cur = t; }
		a.st[cur].end = true; a.st[cur].ids.insert(i); if (c.chance(1, 4)) a.st[cur].add(gen_bits(c), cur);
	}
	oracle(c, a);
}
