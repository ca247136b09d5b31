// BUILD: variant=san internal=1
// Property: shortest paths are real and of least cost under any cost function, or report the goal as unreachable;
// an example word leads to its state, is the most legible one, and fits its buffer.
#include "fsmx.hpp"
extern "C" {
#include <fsm/cost.h>
#include <adt/path.h>
}
using namespace model; using namespace fsmx;

static unsigned bytecost[256]; static unsigned salt; static int kind;
static unsigned costfn(fsm_state_t from, fsm_state_t to, char ch) {
	unsigned b = (unsigned char)ch;
	switch (kind) {
	case 0: return 1;
	case 1: return bytecost[b];
	case 2: return (from * 7 + to * 13 + b * salt) % 97;
	case 3: return (from * 7 + to * 13 + b * salt) % 3 == 0 ? FSM_COST_INFINITY : 1 + b % 5;
	case 4: return 0x60000000u + ((from + to + b) % 4) * 0x10000000u;
	case 5: return 0;
	default: return fsm_cost_legible(from, to, ch);
	}
}
static const uint64_t INF = ~(uint64_t)0;
static std::vector<uint64_t> bellman(const Nfa &a, int s) { // true distances; sums that do not fit an unsigned are infinite
	std::vector<uint64_t> d(a.n(), INF); d[s] = 0;
	for (bool ch = true; ch;) { ch = false;
		for (int i = 0; i < a.n(); i++) if (d[i] != INF) for (auto &e : a.st[i].edges) for (int b = 0; b < 256; b++) if (e.first[b]) {
			uint64_t w = costfn(i, e.second, (char)b); if (w == FSM_COST_INFINITY) continue; uint64_t nd = d[i] + w; if (nd >= FSM_COST_INFINITY) continue;
			if (nd < d[e.second]) { d[e.second] = nd; ch = true; } } }
	return d;
}
PBT_CASE(paths, 4, "a goal reachable by at least one edge, or an unreachable goal") {
	GenOpts o; o.eps = false; o.ids = false; o.max_states = 9; Nfa a = gen_nfa(c, o);
	kind = (int)c.draw(7); salt = (unsigned)c.draw(1000); for (auto &b : bytecost) b = (unsigned)c.draw(6);
	int s = c.chance(1, 2) ? a.start : (int)c.draw(a.n());
	if (c.chance(1, 20)) a.start = -1; // paths between states do not need a start state
	c.describe([&](std::ostream &x) { x << dump(a) << "cost kind " << kind << " from " << s; });
	Fsm f(build(c, a)); std::vector<uint64_t> d = bellman(a, s);
	for (int g = 0; g < a.n(); g++) {
		struct path *p = fsm_shortest(f, s, g, costfn);
		std::string ctx = "from " + std::to_string(s) + " to " + std::to_string(g) + " cost kind " + std::to_string(kind) + "\n" + dump(a);
		REQ(c, p, "shortest:null", ctx);
		std::vector<std::pair<int, int>> v; for (struct path *q = p; q; q = q->next) v.push_back({(int)q->state, (unsigned char)q->c});
		path_free(NULL, p);
		bool has = false; for (auto &q : v) has |= q.first == g;
		if (d[g] == INF) { REQ(c, !has, "shortest:unreachable", "the path contains a goal which can't be reached, " + ctx); c.nontrivial(); c.count("unreachable"); continue; }
		REQ(c, has, "shortest:missed", "reported unreachable, " + ctx);
		REQ(c, v[0].first == s && v.back().first == g, "shortest:ends", "the path does not lead from start to goal, " + ctx);
		uint64_t sum = 0; std::string txt;
		for (size_t i = 1; i < v.size(); i++) {
			bool edge = false; for (auto &e : a.st[v[i - 1].first].edges) if (e.second == v[i].first && e.first[v[i].second]) edge = true;
			REQ(c, edge, "shortest:edge", "step " + std::to_string(i) + " of the path is not an edge, " + ctx);
			sum += costfn(v[i - 1].first, v[i].first, (char)v[i].second);
		}
		REQ(c, sum == d[g], "shortest:cost", "the path costs " + std::to_string(sum) + ", the least is " + std::to_string(d[g]) + ", " + ctx);
		if (v.size() > 1) c.nontrivial();
		if (v.size() > 3) c.count("long");
	}
}

// all readings of an example's text that lead from the start to the goal; least cost, or INF
static uint64_t reading(const Nfa &a, const std::string &t, size_t i, int s, int goal, std::map<std::pair<size_t, int>, uint64_t> &memo) {
	if (i == t.size()) return s == goal ? 0 : INF;
	auto it = memo.find({i, s}); if (it != memo.end()) return it->second; memo[{i, s}] = INF; uint64_t best = INF;
	auto take = [&](int b, size_t len) { for (auto &e : a.st[s].edges) if (e.first[b]) { uint64_t r = reading(a, t, i + len, e.second, goal, memo); if (r != INF) best = std::min(best, r + fsm_cost_legible(0, 0, (char)b)); } };
	take((unsigned char)t[i], 1);
	auto hex = [](char h) { return h >= '0' && h <= '9' ? h - '0' : h >= 'a' && h <= 'f' ? h - 'a' + 10 : -1; };
	if (i + 3 < t.size() && t[i] == '\\' && t[i + 1] == 'x' && hex(t[i + 2]) >= 0 && hex(t[i + 3]) >= 0) { int b = hex(t[i + 2]) * 16 + hex(t[i + 3]); if (b < 32 || b > 126) take(b, 4); }
	memo[{i, s}] = best; return best;
}
PBT_CASE(examples, 4, "an example of at least one character") {
	GenOpts o; o.eps = false; o.ids = false; o.max_states = 9; o.must_start = false; Nfa a = gen_nfa(c, o); if (!a.n()) c.discard();
	c.describe([&](std::ostream &x) { x << dump(a); });
	Fsm f(build(c, a)); kind = 6;
	if (a.start < 0) { char b[4]; errno = 0; REQ(c, fsm_example(f, 0, b, sizeof b) == -1 && errno == EINVAL, "example:nostart", "an automaton without a start state has examples"); return; }
	std::vector<uint64_t> d = bellman(a, a.start);
	for (int g = 0; g < a.n(); g++) {
		std::string ctx = "state " + std::to_string(g) + "\n" + dump(a);
		int n = fsm_example(f, g, NULL, 0); REQ(c, n >= 0, "example:size", ctx);
		std::vector<char> buf(n + 1, '#'); int m = fsm_example(f, g, buf.data(), buf.size());
		REQ(c, m == n, "example:size", "length differs with the buffer size, " + ctx);
		REQ(c, strlen(buf.data()) == (size_t)n, "example:terminated", ctx);
		std::string full(buf.data()); ctx = "example " + pbt::show(full) + " for " + ctx;
		for (unsigned char ch : full) REQ(c, ch >= 32 && ch < 127, "example:printable", ctx);
		if (d[g] == INF) { REQ(c, full.empty(), "example:unreachable", ctx); continue; }
		std::map<std::pair<size_t, int>, uint64_t> memo; uint64_t r = reading(a, full, 0, a.start, g, memo);
		REQ(c, r != INF, "example:leads", ctx);
		REQ(c, r <= d[g], "example:legible", "the example costs " + std::to_string(r) + ", the least is " + std::to_string(d[g]) + ", " + ctx);
		if (n) c.nontrivial();
		// any smaller buffer gets a terminated prefix
		size_t sz = c.draw(n + 2); std::vector<char> sm(sz, '#'); m = fsm_example(f, g, sz ? sm.data() : NULL, sz);
		REQ(c, m == n, "example:size", ctx);
		if (sz) { size_t l = strnlen(sm.data(), sz); REQ(c, l < sz, "example:unterminated", "buffer of " + std::to_string(sz) + ", " + ctx);
			REQ(c, full.compare(0, l, sm.data(), l) == 0, "example:prefix", "a buffer of " + std::to_string(sz) + " got " + pbt::show(std::string(sm.data(), l)) + ", " + ctx);
			REQ(c, (size_t)n >= sz ? l + 5 > sz : l == (size_t)n, "example:short", "a buffer of " + std::to_string(sz) + " got " + pbt::show(std::string(sm.data(), l)) + ", " + ctx); }
	}
}
