// BUILD: variant=san
// Property: fsm_minimise keeps the language, end ids and eager outputs of a DFA, and gives the unique smallest trimmed DFA.
#include "fsmx.hpp"
using namespace model; using namespace fsmx;

// canonical numbering of a DFA by breadth-first search; equal strings <=> isomorphic
static std::string canon(const Nfa &g) {
	if (g.start < 0) return "none";
	std::vector<int> num(g.n(), -1), order{g.start}; num[g.start] = 0;
	for (size_t i = 0; i < order.size(); i++) for (int b = 0; b < 256; b++) for (auto &e : g.st[order[i]].edges) if (e.first[b] && num[e.second] < 0) { num[e.second] = (int)order.size(); order.push_back(e.second); }
	std::ostringstream o; o << g.n() << ";";
	for (int x : order) { o << (g.st[x].end ? "E" : "-"); for (auto i : g.st[x].ids) o << i << ","; o << "/"; for (auto i : g.st[x].eager) o << i << ",";
		std::map<int, std::string> m; for (auto &e : g.st[x].edges) m[num[e.second]] += e.first.to_string(); for (auto &p : m) o << p.first << ":" << p.second << ";"; }
	return o.str();
}
// with eager outputs, which states may merge is decided on the trimmed automaton
static void oracle(pbt::Ctx &c, const Nfa &a, bool predet) {
	c.describe([&](std::ostream &s) { s << dump(a); });
	Dfa d; try { d = subset(a, CMP_IDS | CMP_EAGER, 800); } catch (TooBig &) { c.discard(); }
	Fsm f(build(c, a));
	if (!predet) REQ(c, fsm_determinise(f), "determinise", "failed");
	unsigned before = fsm_countstates(f);
	REQ(c, fsm_minimise(f) == 1, "minimise", "failed\n" + dump(a));
	Nfa g = extract(c, f);
	std::string both = "input\n" + dump(a) + "result\n" + dump(g);
	if (empty_lang(a)) { REQ(c, empty_lang(g), "empty", both); REQ(c, g.n() <= 1, "empty:states", both); if (a.n() > 1) c.nontrivial(); return; }
	REQ(c, is_dfa(g), "notdfa", both);
	require_equiv(c, a, g, CMP_IDS, "language");
	// states from which no accepting state is reachable are trimmed away, with their eager outputs: what is left must agree
	Nfa b; {
		auto l = live(d); std::vector<int> m(d.n(), -1); for (int i = 0; i < d.n(); i++) if (l[i]) { m[i] = b.add(); b.st[m[i]].end = d.lab[i].end; b.st[m[i]].ids = d.lab[i].ids; b.st[m[i]].eager = d.lab[i].eager; }
		b.start = m[0]; std::vector<int> cls; std::vector<unsigned char> sy = reps({&a}, &cls);
		std::map<int, int> repof; for (size_t k = 0; k < sy.size(); k++) repof[cls[sy[k]]] = (int)k;
		for (int i = 0; i < d.n(); i++) if (m[i] >= 0) for (int ch = 0; ch < 256; ch++) { int t = d.to[i][repof[cls[ch]]]; if (m[t] >= 0) { Bits bb; bb.set(ch); b.st[m[i]].add(bb, m[t]); } }
	}
	require_equiv(c, b, g, CMP_IDS | CMP_EAGER, "eager");
	size_t want = minimal_states(subset(b, CMP_IDS | CMP_EAGER));
	REQ(c, (size_t)g.n() == want, (size_t)g.n() > want ? "not-minimal" : "too-small", "minimal DFA has " + std::to_string(want) + " states, got " + std::to_string(g.n()) + "\n" + both);
	// idempotent, and canonical: shuffled, determinised again and minimised gives the same automaton
	std::string k = canon(g);
	Fsm h(fsm_clone(f)); REQ(c, h.f, "clone", "failed");
	if (c.chance(1, 2)) REQ(c, fsm_shuffle(h, (unsigned)c.draw(1000)), "shuffle", "failed");
	REQ(c, fsm_minimise(h), "minimise2", "failed");
	REQ(c, canon(extract(c, h)) == k, "canonical", "re-minimising a shuffled copy differs\n" + both);
	if (before > (unsigned)g.n() && g.n() > 1) { c.nontrivial(); c.count("merged"); } else if (g.n() > 2) c.nontrivial();
	if (a.has_ids()) c.count("endids"); if (a.has_eager()) c.count("eager");
}
PBT_CASE(dfa, 5, "a DFA that loses states, or whose minimal form has >2 states") { GenOpts o; o.dfa = true; o.max_states = c.chance(1, 4) ? 30 : 10; o.id_range = 2; o.eager = c.chance(1, 4); o.big_ids = true; oracle(c, gen_nfa(c, o), true); }
PBT_CASE(nfa, 4, "as dfa, via determinisation of an NFA") { GenOpts o; o.max_states = c.chance(1, 4) ? 16 : 7; o.id_range = 2; o.eager = c.chance(1, 4); oracle(c, gen_nfa(c, o), false); }
PBT_CASE(copies, 4, "a DFA made redundant by duplicating states of a smaller DFA") {
	GenOpts o; o.dfa = true; o.max_states = 6; o.id_range = 2; o.eager = c.chance(1, 5); Nfa a = gen_nfa(c, o), b; int k = c.range(2, 4);
	for (int j = 0; j < k; j++) for (auto &s : a.st) { int x = b.add(); b.st[x].end = s.end; b.st[x].ids = s.ids; b.st[x].eager = s.eager; }
	b.start = a.start;
	for (int j = 0; j < k; j++) for (int i = 0; i < a.n(); i++) for (auto &e : a.st[i].edges) { Bits rest = e.first; if (e.first.count() > 1 && c.chance(1, 2)) { Bits half; int n = 0; for (int ch = 0; ch < 256; ch++) if (rest[ch] && (n++ & 1)) half.set(ch); rest &= ~half; b.st[j * a.n() + i].add(half, (int)c.draw(k) * a.n() + e.second); } b.st[j * a.n() + i].add(rest, (int)c.draw(k) * a.n() + e.second); }
	oracle(c, b, true);
}
