// BUILD: variant=san
// Property: fsm_generate_matches yields exactly one accepted word per distinct path of at most max_length edge groups
// from the start to an end state, depth first, with the end state each word reaches; PRUNE and HALT mean what they say.
#include "fsmx.hpp"
using namespace model; using namespace fsmx;
struct Item { std::string w; unsigned end; size_t depth; };
struct Rec { std::vector<Item> v; std::function<int(size_t)> act; std::string err; size_t last_steps = 0; const struct fsm *f; };
static enum fsm_generate_matches_cb_res cb(const struct fsm *f, size_t depth, size_t mc, size_t steps, const char *in, size_t len, fsm_state_t end, void *o) {
	Rec *r = (Rec *)o; size_t k = r->v.size();
	if (r->err.empty()) {
		if (f != r->f) r->err = "callback was given another automaton";
		if (mc != k) r->err = "match count " + std::to_string(mc) + " on callback " + std::to_string(k);
		if (k && steps <= r->last_steps) r->err = "steps did not increase";
		if (in[len] != '\0') r->err = "input is not terminated";
		if (end >= fsm_countstates(f) || !fsm_isend(f, end)) r->err = "end_state is not an end state";
	}
	r->last_steps = steps; r->v.push_back({std::string(in, len), end, depth});
	int a = r->act ? r->act(k) : 0;
	return a == 2 ? FSM_GENERATE_MATCHES_CB_RES_HALT : a == 1 ? FSM_GENERATE_MATCHES_CB_RES_PRUNE : FSM_GENERATE_MATCHES_CB_RES_CONTINUE;
}
// state sequence of a word in a DFA, empty if it falls off
static std::vector<int> path(const Nfa &a, const std::string &w) {
	std::vector<int> p{a.start};
	for (unsigned char ch : w) { int to = -1; for (auto &e : a.st[p.back()].edges) if (e.first[ch]) to = e.second; if (to < 0) return {}; p.push_back(to); }
	return p;
}
// number of distinct accepting paths of at most n edges
static double count_paths(const Nfa &a, size_t n) {
	std::vector<double> cur(a.n(), 0); cur[a.start] = 1; double t = 0;
	for (size_t k = 0; k <= n; k++) { std::vector<double> nx(a.n(), 0); for (int i = 0; i < a.n(); i++) { if (a.st[i].end) t += cur[i]; for (auto &e : a.st[i].edges) nx[e.second] += cur[i]; } cur = nx; }
	return t;
}
PBT_CASE(paths, 30, "at least two words are generated and the graph has a cycle, a dead end, or a bound that cuts paths off") {
	GenOpts o; o.eps = false; o.dfa = true; o.eager = c.chance(1, 6); o.max_states = c.chance(1, 6) ? 24 : 7; o.must_start = true; Nfa a = gen_nfa(c, o);
	size_t max = 1 + c.small(c.chance(1, 8) ? 40 : 9);
	while (max > 1 && count_paths(a, max) > 3000) max--;
	double want = count_paths(a, max); if (want > 3000) c.discard();
	bool rnd = c.chance(1, 3); if (rnd) srand((unsigned)c.draw(1000));
	c.describe([&](std::ostream &s) { s << "max " << max << " random " << rnd << "\n" << dump(a); });
	bool any_end = false; for (auto &s : a.st) any_end |= s.end;
	Fsm f(build(c, a)); Rec r; r.f = f;
	int rc = fsm_generate_matches(f, max, rnd, cb, &r);
	std::string ctx = "max_length " + std::to_string(max) + "\n" + dump(a);
	if (!r.err.empty()) c.fail("callback", r.err + "\n" + ctx);
	REQ(c, rc == 1, "result", "returned " + std::to_string(rc) + "\n" + ctx);
	Nfa g = extract(c, f);
	require_equiv(c, a, g, CMP_IDS, "changed");
	if (!r.v.empty()) REQ(c, g.start >= 0, "start", "the automaton lost its start state\n" + ctx);
	std::set<std::vector<int>> seen; std::vector<std::vector<int>> seq;
	for (auto &it : r.v) {
		std::string at = "word " + pbt::show(it.w) + "\n" + ctx;
		REQ(c, it.w.size() <= max, "too_long", at); REQ(c, accepts(a, it.w), "not_a_match", at);
		auto p = path(g, it.w); REQ(c, !p.empty(), "not_a_match", at);
		REQ(c, p.back() == (int)it.end, "end_state", "reaches " + std::to_string(p.back()) + ", reported " + std::to_string(it.end) + " for " + at);
		fsm_state_t es; REQ(c, exec(f, it.w, &es) == 1 && es == it.end, "end_state", "fsm_exec disagrees for " + at);
		REQ(c, seen.insert(path(a, it.w)).second, "duplicate", at); seq.push_back(p);
	}
	REQ(c, (double)seen.size() == want, "missed", std::to_string(seen.size()) + " of " + std::to_string((long)want) + " paths generated\n" + ctx);
	// depth first: paths with a common prefix are contiguous
	{ std::set<std::vector<int>> closed; std::vector<int> prev;
	  for (auto &p : seq) { size_t k = 0; while (k < p.size() && k < prev.size() && p[k] == prev[k]) k++;
	    for (size_t j = k + 1; j <= prev.size(); j++) closed.insert(std::vector<int>(prev.begin(), prev.begin() + j));
	    for (size_t j = k + 1; j <= p.size(); j++) REQ(c, !closed.count(std::vector<int>(p.begin(), p.begin() + j)), "depth_first", "returned to a branch already left\n" + ctx);
	    prev = p; } }
	if (r.v.size() > 1 && (g.n() < a.n() || want < count_paths(a, max + 3))) c.nontrivial();
	// again, pruning some words, and stopping early
	if (!rnd && r.v.size() > 1 && r.v.size() < 400) {
		std::set<std::string> pruned; unsigned den = 2 + c.draw(6);
		for (auto &it : r.v) if (c.chance(1, den)) pruned.insert(it.w);
		std::vector<std::string> w2; for (auto &it : r.v) { bool cut = false; for (size_t k = 0; k < it.w.size() && !cut; k++) cut = pruned.count(it.w.substr(0, k)); if (!cut) w2.push_back(it.w); }
		int halt = c.chance(1, 2) ? (int)c.draw(w2.size()) : -1;
		Rec q; q.f = f; q.act = [&](size_t k) { return (int)k == halt ? 2 : (int)pruned.count(q.v[k].w); };
		rc = fsm_generate_matches(f, max, 0, cb, &q);
		if (!q.err.empty()) c.fail("callback2", q.err + "\n" + ctx);
		REQ(c, rc == 1, "result2", "returned " + std::to_string(rc) + "\n" + ctx);
		if (halt >= 0) w2.resize(halt + 1);
		std::vector<std::string> got; for (auto &it : q.v) got.push_back(it.w);
		std::string d = "pruned"; for (auto &x : pruned) d += " " + pbt::show(x); d += "; expected"; for (auto &x : w2) d += " " + pbt::show(x); d += "; got"; for (auto &x : got) d += " " + pbt::show(x);
		REQ(c, got == w2, "prune", (halt >= 0 ? "halt at " + std::to_string(halt) + " " : "") + d + "\n" + ctx);
		if (!pruned.empty()) c.count("pruned"); if (halt >= 0) c.count("halted");
	}
}
// the first word is a shortest-path-bounded answer: a bound below the shortest match gives nothing, at it gives something
PBT_CASE(bound, 30, "a long shortest match (more than 4 symbols)") {
	size_t n = 1 + c.draw(c.chance(1, 6) ? 200 : c.chance(1, 25) ? 5000 : 20); Nfa a; int s = a.add(); a.start = 0; std::string w;
	for (size_t i = 0; i < n; i++) { int t = a.add(); Bits b = gen_bits(c); if (b.none()) b.set('a'); a.st[s].add(b, t); s = t; }
	a.st[s].end = true;
	// harmless extras: states and edges that lead nowhere
	for (int k = (int)c.draw(3); k > 0; k--) a.add();
	Fsm f(build(c, a)); c.describe([&](std::ostream &o) { o << "chain " << n << "\n" << dump(a); });
	long d = (long)c.draw(5) - 2; long max = (long)n + d; if (max < 1) max = 1;
	Rec r; r.f = f; int rc = fsm_generate_matches(f, max, c.chance(1, 2), cb, &r);
	if (!r.err.empty()) c.fail("callback", r.err);
	REQ(c, rc == 1 && r.v.size() == (size_t)(max >= (long)n), "bound", "chain of " + std::to_string(n) + ", bound " + std::to_string(max) + ": rc " + std::to_string(rc) + ", " + std::to_string(r.v.size()) + " words\n" + dump(a));
	if (!r.v.empty()) REQ(c, r.v[0].w.size() == n && accepts(a, r.v[0].w), "word", pbt::show(r.v[0].w) + "\n" + dump(a));
	if (n > 4) c.nontrivial();
	errno = 0; Rec z; z.f = f; REQ(c, fsm_generate_matches(f, 0, 0, cb, &z) == 0 && errno == EINVAL && z.v.empty(), "zero", "a bound of 0 is an error");
}

// very many words: layers of parallel edges, states shared or not; the words are counted and every one is checked
PBT_CASE(many, 1, "more than ten thousand words") {
	Nfa a; int s = a.add(); a.start = 0; std::vector<int> layer{s}; double want = 0, paths = 1; size_t depth = 0; double top = c.chance(1, 3) ? 150000 : 30000;
	while (depth < 40) {
		int k = c.range(1, 12), m = c.chance(1, 3) ? 1 : c.range(1, k); if (paths * k > top) break; std::vector<int> nx; for (int i = 0; i < m; i++) nx.push_back(a.add());
		std::vector<int> perm(256); for (int i = 0; i < 256; i++) perm[i] = i; for (int i = 0; i < k; i++) std::swap(perm[i], perm[i + c.draw(256 - i)]);
		for (int from : layer) for (int i = 0; i < k; i++) { Bits b; b.set(perm[i]); a.st[from].add(b, nx[i % m]); }
		layer = nx; depth++; paths *= m; for (int t : nx) if (c.chance(1, 6)) a.st[t].end = true;
	}
	for (int t : layer) a.st[t].end = true; 
	{ std::vector<double> cur(a.n(), 0); cur[0] = 1; for (size_t k = 0; k <= depth; k++) { std::vector<double> nx(a.n(), 0); for (int i = 0; i < a.n(); i++) if (cur[i]) { std::set<int> to; for (auto &e : a.st[i].edges) to.insert(e.second); if (a.st[i].end) want += cur[i]; for (int t : to) nx[t] += cur[i]; } cur = nx; } }
	if (!depth || want > 400000) c.discard(); c.describe([&](std::ostream &o) { o << "layers " << depth << " words " << want << "\n"; });
	std::string ctx = std::to_string(depth) + " layers, " + std::to_string((long)want) + " words expected";
	Fsm f(build(c, a)); Rec r; r.f = f; size_t max = c.chance(1, 4) ? 1 + c.draw(depth + 3) : depth + c.draw(100); int rc = fsm_generate_matches(f, max, c.chance(1, 3), cb, &r);
	if (!r.err.empty()) c.fail("callback", r.err + "\n" + ctx); REQ(c, rc == 1, "result", std::to_string(rc));
	std::set<std::vector<int>> seen; Nfa g = extract(c, f); std::vector<std::vector<int>> tab(g.n(), std::vector<int>(256, -1)); for (int i = 0; i < g.n(); i++) for (auto &e : g.st[i].edges) for (int ch = 0; ch < 256; ch++) if (e.first[ch]) tab[i][ch] = e.second;
	for (auto &it : r.v) { REQ(c, it.w.size() <= max, "too_long", pbt::show(it.w) + "\n" + ctx); int at = g.start; std::vector<int> p{at}; for (unsigned char ch : it.w) { REQ(c, at >= 0 && tab[at][ch] >= 0, "not_a_match", pbt::show(it.w) + "\n" + ctx); at = tab[at][ch]; p.push_back(at); }
		REQ(c, g.st[at].end && at == (int)it.end, "end_state", pbt::show(it.w) + "\n" + ctx); REQ(c, seen.insert(p).second, "duplicate", pbt::show(it.w) + "\n" + ctx); }
	if (max >= depth) REQ(c, (double)seen.size() == want, "missed", std::to_string(seen.size()) + " generated\n" + ctx); if (seen.size() > 10000) c.nontrivial();
}
