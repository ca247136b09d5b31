// BUILD: variant=san
// Property: fsm_concat(a,b) accepts exactly the words uv with u in L(a) and v in L(b), carrying b's ids (ids of a may also be carried where a's end state becomes an end state again, but no others).
#include "fsmx.hpp"
using namespace model; using namespace fsmx;
static Nfa cat(const Nfa &a, const Nfa &b) {
	Nfa r; r.start = a.start; for (auto &s : a.st) { int k = r.add(); r.st[k] = s; r.st[k].end = false; r.st[k].ids.clear(); if (s.end && b.start >= 0) r.st[k].eps.insert(b.start + a.n()); }
	for (auto &s : b.st) { int k = r.add(); r.st[k] = s; for (auto &e : r.st[k].edges) e.second += a.n(); std::set<int> ep; for (int t : s.eps) ep.insert(t + a.n()); r.st[k].eps = ep; }
	return r;
}
PBT_CASE(concat, 1, "both operands have non-empty languages, neither only the empty word") {
	GenOpts o; o.must_start = !c.chance(1, 10); o.max_states = 6; o.eager = c.chance(1, 5); Nfa a = gen_nfa(c, o), b = gen_nfa(c, o);
	for (auto &q : a.st) { std::set<model::id_t> n; for (auto i : q.ids) n.insert(i | 0x40000000u); q.ids = n; } // told apart from b's
	auto strip = [&](Nfa g) { std::set<model::id_t> as; for (auto &q : a.st) as.insert(q.ids.begin(), q.ids.end()); for (auto &q : g.st) for (auto i : std::set<model::id_t>(q.ids)) if (as.count(i)) q.ids.erase(i); return g; };
	c.describe([&](std::ostream &s) { s << dump(a) << dump(b); });
	bool a_ends = false; for (auto &q : a.st) a_ends |= q.end;
	if (a.n() == 0 || b.n() == 0) c.discard(); // the API treats an automaton without states as "nothing built yet"
	if (a.start < 0 || b.start < 0 || !a_ends) { // refused, or the empty language
		Fsm fa(build(c, a)), fb(build(c, b)); struct fsm *u = fsm_concat(fa, fb, NULL);
		if (!u) { c.count("refused"); return; } fa.release(); fb.release(); Fsm f(u); Nfa g = extract(c, f); REQ(c, empty_lang(g), "empty", "concatenation with the empty language is not empty\n" + dump(a) + dump(b) + dump(g)); c.count("empty"); return;
	}
	Fsm fa(build(c, a)), fb(build(c, b)); struct fsm_combine_info ci; memset(&ci, 0xee, sizeof ci); bool info = c.chance(1, 2);
	struct fsm *u = fsm_concat(fa.release(), fb.release(), info ? &ci : NULL); REQ(c, u, "concat", "failed"); Fsm f(u); Nfa g = extract(c, f), want = cat(a, b);
	std::string ctx = "a\n" + dump(a) + "b\n" + dump(b) + "concat\n" + dump(g);
	require_equiv(c, want, strip(g), CMP_IDS | CMP_EAGER, "concat");
	if (info) for (int w = 0; w < 2; w++) { const Nfa &x = w ? b : a; unsigned base = w ? ci.base_b : ci.base_a; REQ(c, base + x.n() <= (unsigned)g.n(), "base", ctx);
		for (int i = 0; i < x.n(); i++) for (auto &e : x.st[i].edges) { bool ok = false; for (auto &d : g.st[base + i].edges) if (d.second == e.second + (int)base && (d.first & e.first) == e.first) ok = true; REQ(c, ok, "base", "operand edge not found at its base\n" + ctx); } }
	if (c.chance(1, 2)) { REQ(c, fsm_determinise(f), "dfa", "failed"); if (c.chance(1, 2)) { REQ(c, fsm_minimise(f), "min", "failed"); Nfa m = extract(c, f); require_equiv(c, want, strip(m), CMP_IDS, "concat:minimal"); } else { Nfa m = extract(c, f); require_equiv(c, want, strip(m), CMP_IDS | CMP_EAGER, "concat:dfa"); } }
	bool triv = false; for (auto *x : {&a, &b}) { Nfa e; e.add(); e.start = 0; e.st[0].end = true; std::string w; try { if (empty_lang(*x) || equivalent(*x, e, 0, &w)) triv = true; } catch (TooBig &) {} }
	if (!triv) c.nontrivial(); if (a.has_ids()) c.count("left-ids"); if (b.has_ids()) c.count("right-ids");
}
