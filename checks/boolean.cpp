// BUILD: variant=san
// Property: complement, completion, intersection and subtraction compute exactly the boolean set operation on languages.
#include "fsmx.hpp"
using namespace model; using namespace fsmx;
static std::string two(const Nfa &a, const Nfa &b, const Nfa &g, const std::string &w) { return "word " + pbt::show(w) + "\na\n" + dump(a) + "b\n" + dump(b) + "result\n" + dump(g); }
static struct fsm *mk(pbt::Ctx &c, const Nfa &a, int form) { struct fsm *f = build(c, a); if (form >= 1) REQ(c, fsm_determinise(f), "determinise", "failed"); if (form >= 2) REQ(c, fsm_minimise(f), "minimise", "failed"); return f; }
PBT_CASE(complement, 3, "the language is neither empty nor everything") {
	GenOpts o; o.max_states = 7; o.dfa = c.chance(1, 3); o.must_start = c.chance(3, 4); Nfa a = gen_nfa(c, o); if (a.start < 0 && a.has_eps()) c.discard();
	c.describe([&](std::ostream &s) { s << dump(a); });
	try { subset(a, 0, 300); } catch (TooBig &) { c.discard(); }
	Fsm f(mk(c, a, a.start < 0 ? 0 : (int)c.draw(3)));
	REQ(c, fsm_complement(f) == 1, "complement", "failed\n" + dump(a));
	Nfa g = extract(c, f); std::string w; bool ok;
	try { ok = equivalent_op(g, a, a, [](bool x, bool) { return !x; }, &w); } catch (TooBig &) { c.discard(); }
	REQ(c, ok, "complement", two(a, a, g, w));
	REQ(c, fsm_complement(f) == 1, "complement2", "failed"); Nfa h = extract(c, f); require_equiv(c, a, h, CMP_LANG, "involution");
	if (!empty_lang(a) && !empty_lang(g)) c.nontrivial();
}
static int always(const struct fsm *, fsm_state_t) { return 1; }
static unsigned chosen; static int some(const struct fsm *, fsm_state_t s) { return chosen >> (s & 31) & 1; }
PBT_CASE(complete, 3, "an automaton that is not complete") {
	GenOpts o; o.max_states = 8; o.dfa = !c.chance(1, 4); Nfa a = gen_nfa(c, o); if (!o.dfa) try { subset(a, 0, 200); } catch (TooBig &) { c.discard(); }
	static int (*const P[])(const struct fsm *, fsm_state_t) = {fsm_isany, always, fsm_isend, fsm_hasoutgoing, fsm_hasincoming, some, some}; int which = (int)c.draw(7); auto pred = P[which]; chosen = which > 4 ? (unsigned)c.draw(1u << 9) : 0;
	c.describe([&](std::ostream &s) { s << dump(a) << "predicate " << which << " " << chosen; });
	Fsm f(build(c, a)); bool was = fsm_all(f, fsm_iscomplete), dfa = fsm_all(f, fsm_isdfa); REQ(c, dfa || !o.dfa, "isdfa", dump(a));
	if (dfa) for (int i = 0; i < a.n(); i++) { Bits u; for (auto &e : a.st[i].edges) u |= e.first; REQ(c, !!fsm_iscomplete(f, i) == u.all(), "iscomplete", "state " + std::to_string(i) + "\n" + dump(a)); }
	std::vector<char> sel; for (int i = 0; i < a.n(); i++) sel.push_back((char)!!pred(f, i)); bool any = std::count(sel.begin(), sel.end(), 1);
	REQ(c, fsm_complete(f, pred) == 1, "complete", "failed");
	REQ(c, fsm_all(f, fsm_isdfa), "notdfa", dump(a)); Nfa g = extract(c, f); require_equiv(c, a, g, CMP_IDS, "complete"); auto full = [&](int i) { Bits u; for (auto &e : g.st[i].edges) u |= e.first; return u.all(); };
	if (which < 2) REQ(c, fsm_all(f, fsm_iscomplete), "incomplete", dump(a)); for (int i = 0; i < g.n(); i++) if (!dfa && pred(f, i)) REQ(c, full(i) || (which == 4 && i == g.n() - 1) || which == 4, "incomplete", dump(a) + dump(g));
	if (dfa) { // the states that were chosen, and no others, get the labels they lack, to one new dead state
		REQ(c, g.n() == a.n() + (any ? 1 : 0), "states", std::to_string(g.n()) + " states\n" + dump(a) + dump(g));
		for (int i = 0; i < a.n(); i++) { std::vector<int> x(256, -1), y(256, -1); for (auto &e : a.st[i].edges) for (int b = 0; b < 256; b++) if (e.first[b]) x[b] = e.second; for (auto &e : g.st[i].edges) for (int b = 0; b < 256; b++) if (e.first[b]) y[b] = e.second; for (int b = 0; b < 256; b++) REQ(c, y[b] == (x[b] < 0 && sel[i] ? a.n() : x[b]), "edges", "state " + std::to_string(i) + " byte " + std::to_string(b) + " leads to " + std::to_string(y[b]) + "\n" + dump(a) + dump(g)); REQ(c, g.st[i].end == a.st[i].end, "ends", dump(a) + dump(g)); }
		if (any) { REQ(c, full(a.n()) && !g.st[a.n()].end && g.st[a.n()].edges.size() && g.st[a.n()].eps.empty(), "dead", dump(g)); for (auto &e : g.st[a.n()].edges) REQ(c, e.second == a.n(), "dead", dump(g)); } }
	if (!was) c.nontrivial();
}
PBT_CASE(intersect, 4, "both languages non-empty and different") {
	GenOpts o; o.max_states = 5; o.must_start = true; Nfa a = gen_nfa(c, o), b = gen_nfa(c, o); if (c.chance(1, 2)) { b = a; for (int i = c.range(1, 3); i--;) { int k = (int)c.draw(b.n()); if (c.chance(1, 2)) b.st[k].end = !b.st[k].end, b.st[k].ids.clear(); else b.st[k].add(gen_bits(c), (int)c.draw(b.n())); } }
	c.describe([&](std::ostream &s) { s << dump(a) << dump(b); });
	try { subset(a, 0, 120); subset(b, 0, 120); } catch (TooBig &) { c.discard(); }
	Fsm fa(mk(c, a, (int)c.draw(3))), fb(mk(c, b, (int)c.draw(3)));
	struct fsm *u = fsm_intersect(fa.release(), fb.release()); REQ(c, u, "intersect", "failed\n" + dump(a) + dump(b)); Fsm f(u); Nfa g = extract(c, f); std::string w; bool ok;
	try { ok = equivalent_op(g, a, b, [](bool x, bool y) { return x && y; }, &w); } catch (TooBig &) { c.discard(); }
	REQ(c, ok, "intersect", two(a, b, g, w)); try { if (!empty_lang(a) && !empty_lang(b) && !equivalent(a, b, 0, &w)) c.nontrivial(); } catch (TooBig &) {}
	if (!empty_lang(g)) c.count("overlap");
}
PBT_CASE(subtract, 4, "both languages non-empty and different") {
	GenOpts o; o.max_states = 5; Nfa a = gen_nfa(c, o), b = gen_nfa(c, o); if (c.chance(1, 2)) { b = a; for (int i = c.range(1, 3); i--;) { int k = (int)c.draw(b.n()); if (c.chance(1, 2)) b.st[k].end = !b.st[k].end, b.st[k].ids.clear(); else b.st[k].add(gen_bits(c), (int)c.draw(b.n())); } }
	c.describe([&](std::ostream &s) { s << dump(a) << dump(b); });
	try { subset(a, 0, 120); subset(b, 0, 120); } catch (TooBig &) { c.discard(); }
	Fsm fa(mk(c, a, (int)c.draw(3))), fb(mk(c, b, (int)c.draw(3)));
	struct fsm *u = fsm_subtract(fa.release(), fb.release()); REQ(c, u, "subtract", "failed\n" + dump(a) + dump(b)); Fsm f(u); Nfa g = extract(c, f); std::string w; bool ok;
	try { ok = equivalent_op(g, a, b, [](bool x, bool y) { return x && !y; }, &w); } catch (TooBig &) { c.discard(); }
	REQ(c, ok, "subtract", two(a, b, g, w)); try { if (!empty_lang(a) && !empty_lang(b) && !equivalent(a, b, 0, &w)) c.nontrivial(); } catch (TooBig &) {}
	if (!empty_lang(g)) c.count("remainder");
}
PBT_CASE(charset, 2, "some but not all of the language survives") {
	GenOpts o; o.max_states = 7; Nfa a = gen_nfa(c, o); Bits cs = gen_bits(c) | gen_bits(c); if (c.chance(1, 2)) cs |= gen_bits(c); std::string s; for (int i = 0; i < 256; i++) if (cs[i]) s += (char)i;
	if (c.chance(1, 3)) std::reverse(s.begin(), s.end());
	c.describe([&](std::ostream &o) { o << dump(a) << pbt::show(s); });
	try { subset(a, 0, 300); } catch (TooBig &) { c.discard(); }
	Fsm fa(mk(c, a, c.range(1, 2))); struct fsm *u = fsm_intersect_charset(fa.release(), s.size(), s.data()); REQ(c, u, "charset", "failed\n" + dump(a)); Fsm f(u); Nfa g = extract(c, f);
	Nfa b; b.add(); b.start = 0; b.st[0].end = true; if (cs.any()) b.st[0].add(cs, 0); std::string w; bool ok; try { ok = equivalent_op(g, a, b, [](bool x, bool y) { return x && y; }, &w); } catch (TooBig &) { c.discard(); }
	REQ(c, ok, "charset", "charset " + pbt::show(s) + " " + two(a, b, g, w)); try { if (!empty_lang(g) && !equivalent(a, g, 0, &w)) c.nontrivial(); } catch (TooBig &) {}
}
PBT_CASE(laws, 3, "three non-empty pairwise different languages") {
	// algebraic identities evaluated by the library alone, checked by the model
	GenOpts o; o.max_states = 4; o.ids = false; Nfa a = gen_nfa(c, o), b = gen_nfa(c, o);
	c.describe([&](std::ostream &s) { s << dump(a) << dump(b); });
	try { subset(a, 0, 60); subset(b, 0, 60); } catch (TooBig &) { c.discard(); }
	auto A = [&] { return mk(c, a, (int)c.draw(3)); }; auto B = [&] { return mk(c, b, (int)c.draw(3)); };
	auto neg = [&](struct fsm *f) { REQ(c, fsm_complement(f), "complement", "failed"); return f; };
	auto two_ = [&](struct fsm *x, struct fsm *y, int op) { struct fsm *r = op == 0 ? fsm_union(x, y, NULL) : op == 1 ? fsm_intersect(x, y) : fsm_subtract(x, y); REQ(c, r, "op", "failed"); return r; };
	struct fsm *l, *r; int law = (int)c.draw(5);
	switch (law) {
	case 0: l = neg(two_(A(), B(), 0)); r = two_(neg(A()), neg(B()), 1); break;        // De Morgan
	case 1: l = neg(two_(A(), B(), 1)); r = two_(neg(A()), neg(B()), 0); break;
	case 2: l = two_(A(), B(), 2); r = two_(A(), neg(B()), 1); break;                   // a - b = a & ~b
	case 3: l = two_(two_(A(), B(), 2), two_(A(), B(), 1), 0); r = A(); break;           // partition
	default: l = two_(A(), two_(A(), B(), 0), 1); r = A(); break;                        // absorption
	}
	Fsm fl(l), fr(r); Nfa x = extract(c, l), y = extract(c, r); std::string w; bool ok; try { ok = equivalent(x, y, 0, &w); } catch (TooBig &) { c.discard(); }
	REQ(c, ok, "law", "law " + std::to_string(law) + " word " + pbt::show(w) + "\na\n" + dump(a) + "b\n" + dump(b) + "left\n" + dump(x) + "right\n" + dump(y));
	int eq = fsm_equal(l, r); REQ(c, eq == 1, "law:equal", "fsm_equal gave " + std::to_string(eq) + " for law " + std::to_string(law) + "\na\n" + dump(a) + "b\n" + dump(b));
	try { if (!empty_lang(a) && !empty_lang(b) && !equivalent(a, b, 0, &w)) c.nontrivial(); } catch (TooBig &) {}
}
