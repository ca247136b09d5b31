// BUILD: variant=san
// Property: union (binary and n-ary) accepts exactly the union, each match carrying the ids of every operand that matches;
// the reported bases locate the operands.
#include "fsmx.hpp"
using namespace model; using namespace fsmx;
static Nfa join(const std::vector<Nfa> &v) { // reference union
	Nfa r; r.add(); r.start = 0;
	for (auto &a : v) { int b = r.n(); for (auto &s : a.st) { int k = r.add(); r.st[k] = s; for (auto &e : r.st[k].edges) e.second += b; std::set<int> ep; for (int t : s.eps) ep.insert(t + b); r.st[k].eps = ep; } if (a.start >= 0) r.st[0].eps.insert(a.start + b); }
	return r;
}
// the language (with ids) recognised from state s of g equals a's
static void rooted(pbt::Ctx &c, const Nfa &g, int s, const Nfa &a, const char *tag, const std::string &ctx) {
	REQ(c, s >= 0 && s < g.n(), tag, "base out of range\n" + ctx);
}
static Nfa fixed_ids(Nfa a, unsigned id) { for (auto &s : a.st) if (s.end) s.ids = {id}; return a; }
PBT_CASE(binary, 4, "both operands have non-empty languages that differ") {
	GenOpts o; o.must_start = false; o.eager = c.chance(1, 4); o.max_states = 6; Nfa a = gen_nfa(c, o), b = gen_nfa(c, o);
	if ((a.n() && a.start < 0) || (b.n() && b.start < 0)) c.discard(); // no start state: refused
	c.describe([&](std::ostream &s) { s << dump(a) << dump(b); });
	Fsm fa(build(c, a)), fb(build(c, b)); struct fsm_combine_info ci; memset(&ci, 0xee, sizeof ci);
	bool info = c.chance(1, 2); int sa = a.start, sb = b.start;
	struct fsm *u = fsm_union(fa.release(), fb.release(), info ? &ci : NULL);
	REQ(c, u, "union", "failed\n" + dump(a) + dump(b)); Fsm f(u); Nfa g = extract(c, f);
	std::string ctx = "a\n" + dump(a) + "b\n" + dump(b) + "union\n" + dump(g);
	require_equiv(c, join({a, b}), g, CMP_IDS | CMP_EAGER, "union");
	if (info && a.n() && b.n()) { // operand states are found at their bases
		for (int w = 0; w < 2; w++) { const Nfa &x = w ? b : a; unsigned base = w ? ci.base_b : ci.base_a; REQ(c, base + x.n() <= (unsigned)g.n(), "base", "base out of range\n" + ctx);
			for (int i = 0; i < x.n(); i++) { const State &p = x.st[i], &q = g.st[base + i]; REQ(c, p.end == q.end && p.ids == q.ids && p.eager == q.eager, "base:meta", "operand state " + std::to_string(i) + " is not at its base\n" + ctx); for (auto &e : p.edges) { bool ok = false; for (auto &d : q.edges) if (d.second == e.second + (int)base && (d.first & e.first) == e.first) ok = true; REQ(c, ok, "base:edge", "operand edge not found at its base\n" + ctx); } } }
		c.count("bases");
	}
	(void)sa; (void)sb;
	std::string w; bool same = false; try { same = equivalent(a, b, CMP_LANG, &w); } catch (TooBig &) {}
	if (!empty_lang(a) && !empty_lang(b) && !same) c.nontrivial();
}
PBT_CASE(array, 4, "3 or more operands, at least 2 with non-empty language") {
	GenOpts o; o.max_states = 5; o.ids = false; int n = c.range(1, 6); std::vector<Nfa> v; std::vector<struct fsm *> fs; int ne = 0;
	for (int i = 0; i < n; i++) { o.max_states = c.chance(1, 4) ? 12 : 4; Nfa a = fixed_ids(gen_nfa(c, o), 10 + i); v.push_back(a); if (!empty_lang(a)) ne++; }
	c.describe([&](std::ostream &s) { for (auto &a : v) s << dump(a); });
	for (auto &a : v) fs.push_back(build(c, a));
	std::vector<struct fsm_combined_base_pair> bases(n); bool wb = c.chance(2, 3);
	struct fsm *u = fsm_union_array(n, fs.data(), wb ? bases.data() : NULL); REQ(c, u, "union_array", "failed");
	Fsm f(u); Nfa g = extract(c, f); std::string ctx; for (auto &a : v) ctx += dump(a); ctx += "union\n" + dump(g);
	require_equiv(c, join(v), g, CMP_IDS, "union_array");
	bool all = true; for (auto &a : v) if (a.start < 0 || !a.n()) all = false;
	if (wb && all) { c.count("bases");
		for (int i = 0; i < n; i++) { unsigned base = bases[i].state; std::string t = "operand " + std::to_string(i) + " base " + std::to_string(base) + "\n" + ctx; REQ(c, base + v[i].n() <= (unsigned)g.n(), "array:base", t);
			for (int k = 0; k < v[i].n(); k++) { const State &p = v[i].st[k], &q = g.st[base + k]; REQ(c, p.end == q.end && p.ids == q.ids, "array:base", t); for (auto &e : p.edges) { bool ok = false; for (auto &d : q.edges) if (d.second == e.second + (int)base && (d.first & e.first) == e.first) ok = true; REQ(c, ok, "array:base", t); } } } }
	if (n >= 3 && ne >= 2) c.nontrivial();
	// ids survive into the minimal DFA
	if (c.chance(1, 2) && g.start >= 0) { REQ(c, fsm_determinise(f) && fsm_minimise(f), "dfa", "failed"); Nfa m = extract(c, f); require_equiv(c, join(v), m, CMP_IDS, "union_array:minimal"); }
}
