// BUILD: variant=san
// Property: fsm_trim removes exactly the dead states, keeps the rest (edges, ends, ids, outputs), and reports distances and counts.
#include "fsmx.hpp"
using namespace model; using namespace fsmx;
static std::vector<char> reach(const Nfa &a) { std::vector<char> s(a.n(), 0); std::vector<int> st; if (a.start >= 0) { s[a.start] = 1; st.push_back(a.start); } while (!st.empty()) { int x = st.back(); st.pop_back(); auto go = [&](int y) { if (!s[y]) { s[y] = 1; st.push_back(y); } }; for (int y : a.st[x].eps) go(y); for (auto &e : a.st[x].edges) go(e.second); } return s; }
PBT_CASE(trim, 1, "an automaton where at least one state is removed and at least one remains") {
	GenOpts o; o.eager = c.chance(1, 3); o.max_states = c.chance(1, 6) ? 40 : 9; o.must_start = false; o.big_ids = true; o.dfa = c.chance(1, 4); Nfa a = gen_nfa(c, o);
	c.describe([&](std::ostream &s) { s << dump(a); });
	bool both = c.chance(1, 2); bool want_sed = c.chance(1, 2);
	Fsm f(build(c, a));
	std::vector<char> r = reach(a); std::vector<unsigned> dist(a.n(), UINT_MAX);
	{ std::deque<int> q; for (int i = 0; i < a.n(); i++) if (a.st[i].end && r[i]) { dist[i] = 0; q.push_back(i); }
	  while (!q.empty()) { int x = q.front(); q.pop_front(); for (int i = 0; i < a.n(); i++) if (r[i] && dist[i] == UINT_MAX) { bool p = a.st[i].eps.count(x); for (auto &e : a.st[i].edges) if (e.second == x) p = true; if (p) { dist[i] = dist[x] + 1; q.push_back(i); } } } }
	std::vector<int> map(a.n(), -1); int k = 0; for (int i = 0; i < a.n(); i++) if (r[i] && (!both || dist[i] != UINT_MAX)) map[i] = k++;
	unsigned *sed = NULL;
	long n = fsm_trim(f, both ? FSM_TRIM_START_AND_END_REACHABLE : FSM_TRIM_START_REACHABLE, want_sed ? &sed : NULL);
	struct Fr { unsigned *p; ~Fr() { free(p); } } fr{sed};
	REQ(c, n >= 0, "trim", "failed\n" + dump(a));
	Nfa g = extract(c, f);
	std::string ctx = std::string(both ? "both" : "start") + "\n" + dump(a) + "got\n" + dump(g);
	REQ(c, g.n() == k, "count", "expected " + std::to_string(k) + " states to remain\n" + ctx);
	if (a.n() > 0) REQ(c, n == a.n() - k, "removed", "returned " + std::to_string(n) + ", removed " + std::to_string(a.n() - k) + "\n" + ctx);
	if (a.start >= 0 && map[a.start] >= 0) REQ(c, g.start == map[a.start], "start", ctx); else REQ(c, g.start < 0, "start", "start state should be gone\n" + ctx);
	for (int i = 0; i < a.n(); i++) {
		if (map[i] < 0) continue; const State &x = a.st[i], &y = g.st[map[i]];
		REQ(c, x.end == y.end && x.ids == y.ids && x.eager == y.eager, "metadata", "state " + std::to_string(i) + "\n" + ctx);
		std::set<int> e; for (int t : x.eps) if (map[t] >= 0) e.insert(map[t]); REQ(c, e == y.eps, "eps", ctx);
		std::map<int, Bits> m, w; for (auto &q : x.edges) if (map[q.second] >= 0) m[map[q.second]] |= q.first; for (auto &q : y.edges) w[q.second] |= q.first;
		REQ(c, m.size() == w.size(), "edges", ctx); for (auto &q : m) REQ(c, w[q.first] == q.second, "edges", ctx);
	}
	if (want_sed && both && a.n()) { REQ(c, sed || g.n() == 0, "distances", "no distances returned"); for (int i = 0; i < a.n(); i++) if (map[i] >= 0) REQ(c, sed[map[i]] == dist[i], "distance", "state " + std::to_string(i) + " is " + std::to_string(dist[i]) + " from an end, reported " + std::to_string(sed[map[i]]) + "\n" + ctx); }
	// a second trim finds nothing
	if (g.n()) { long n2 = fsm_trim(f, both ? FSM_TRIM_START_AND_END_REACHABLE : FSM_TRIM_START_REACHABLE, NULL); REQ(c, n2 == 0 && (int)fsm_countstates(f) == g.n(), "idempotent", ctx); }
	if (k && k < a.n()) c.nontrivial(); if (want_sed && both && k > 1) c.count("distances");
}
