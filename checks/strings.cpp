// BUILD: variant=san
// Property: multi-string automata find exactly the given strings, and report whose they are.
// Oracle: naive substring/prefix/suffix search for sampled inputs, an exact automaton of the set for all inputs,
// and for ids an exact automaton labelled with the ids of the strings found.
#include "rex.hpp"
using namespace model; using namespace fsmx; using namespace rx;

struct Str { std::string s; bool id; fsm_end_id_t v; };
struct Words { std::vector<Str> v; int flags; bool cstr; };
static Words gen(pbt::Ctx &c, bool allow_nul) {
	Words r; r.flags = 0; r.cstr = !allow_nul; int n = (int)c.small(c.chance(1, 20) ? 30 : 7); int mode = c.weighted({6, 3, 2});
	for (int i = 0; i < n; i++) { std::string s; int len = (int)c.small(c.chance(1, 10) ? 20 : 6);
		if (!r.v.empty() && c.chance(1, 2)) { const std::string &o = r.v[c.draw(r.v.size())].s; size_t a = c.draw(o.size() + 1), b = c.draw(o.size() - a + 1); s = o.substr(a, b); if (c.chance(1, 3)) s = o; }
		for (int k = 0; k < len; k++) { unsigned char ch = mode == 0 ? "ab"[c.draw(2)] : mode == 1 ? "abc"[c.draw(3)] : (unsigned char)c.draw(256); s += (char)ch; }
		if (!allow_nul) { std::string t; for (char ch : s) if (ch) t += ch; s = t; }
		r.v.push_back({s, false, 0}); }
	r.flags = (int)c.draw(4); if (c.chance(1, 5)) r.flags |= RE_STRINGS_AC_AUTOMATON; return r;
}
static bool L(int f) { return f & RE_STRINGS_ANCHOR_LEFT; }
static bool R(int f) { return f & (RE_STRINGS_ANCHOR_RIGHT | RE_STRINGS_AC_AUTOMATON); }
static bool hit(const std::string &s, const std::string &w, int f) {
	if (L(f) && R(f)) return s == w; if (L(f)) return w.compare(0, s.size(), s) == 0; if (R(f)) return w.size() >= s.size() && w.compare(w.size() - s.size(), s.size(), s) == 0; return w.find(s) != std::string::npos; }
static Nfa model_of(const Words &x, bool ids) {
	Nfa a; int s0 = a.add(); a.start = s0; Bits any; any.set(); if (!L(x.flags)) a.st[s0].add(any, s0);
	for (auto &q : x.v) { int cur = a.add(); a.st[s0].eps.insert(cur); for (unsigned char ch : q.s) { int n = a.add(); Bits b; b.set(ch); a.st[cur].add(b, n); cur = n; }
		if (!R(x.flags)) { int n = a.add(); a.st[cur].eps.insert(n); a.st[n].add(any, n); cur = n; } a.st[cur].end = true; if (ids && q.id) a.st[cur].ids.insert(q.v); }
	return a; }
static void desc(pbt::Ctx &c, const Words &x) { c.describe([&](std::ostream &s) { s << (x.cstr ? "str" : "raw") << " flags " << x.flags << " {"; for (auto &q : x.v) { s << " " << pbt::show(q.s); if (q.id) s << "#" << q.v; } s << " }"; }); }
static struct fsm *make(pbt::Ctx &c, const Words &x) {
	bool plain = x.cstr; for (auto &q : x.v) plain = plain && !q.id;
	if (plain && c.chance(1, 2)) { std::vector<const char *> p; for (auto &q : x.v) p.push_back(q.s.c_str()); return re_strings(nullptr, p.data(), p.size(), (enum re_strings_flags)x.flags); }
	struct re_strings *g = re_strings_new(); REQ(c, g, "new", "re_strings_new failed");
	for (auto &q : x.v) { int r = x.cstr && c.chance(1, 2) ? re_strings_add_str(g, q.s.c_str(), q.id ? &q.v : nullptr) : re_strings_add_raw(g, q.s.data(), q.s.size(), q.id ? &q.v : nullptr); REQ(c, r, "add", "re_strings_add failed"); }
	struct fsm *f = re_strings_build(g, nullptr, (enum re_strings_flags)x.flags); re_strings_free(g); return f; }
static std::string input(pbt::Ctx &c, const Words &x) {
	std::string w; int n = c.range(0, 3); for (int i = 0; i < n; i++) { if (!x.v.empty() && c.chance(2, 3)) { const std::string &o = x.v[c.draw(x.v.size())].s; size_t a = c.chance(1, 2) ? 0 : c.draw(o.size() + 1); w += o.substr(a, c.chance(1, 2) ? std::string::npos : c.draw(o.size() - a + 1)); } else { int k = c.range(0, 3); while (k--) w += (char)gen_byte(c); } } return w; }
static void run(pbt::Ctx &c, Words &x, bool ids) {
	desc(c, x); Fsm f(make(c, x)); REQ(c, f.f, "build", "failed"); Nfa g = extract(c, f), m = model_of(x, ids);
	REQ(c, is_dfa(g), "dfa", "the automaton is not deterministic\n" + dump(g)); int yes = 0;
	for (int i = 0; i < 6; i++) { std::string w = input(c, x); bool want = false; std::set<id_t> idw; for (auto &q : x.v) if (hit(q.s, w, x.flags)) { want = true; if (q.id) idw.insert(q.v); }
		REQ(c, accepts(m, w) == want, "oracle", "the two oracles disagree on " + pbt::show(w)); fsm_state_t e; int r = exec(f, w, &e); if (want) yes++;
		REQ(c, r == want, want ? "missed" : "matched", "input " + pbt::show(w) + ": expected " + std::to_string(want) + ", got " + std::to_string(r));
		if (r == 1 && ids) { REQ(c, g.st[e].ids == idw, "ids", "input " + pbt::show(w) + ": wrong ids reported"); } }
	require_equiv(c, m, g, ids ? CMP_IDS : CMP_LANG, ids ? "ids" : "language"); if (x.v.size() > 1 && !empty_lang(m)) c.nontrivial(); if (yes) c.count("hit"); c.count("flags" + std::to_string(x.flags));
}
static void give_ids(pbt::Ctx &c, Words &x, bool all) { for (auto &q : x.v) if (all || c.chance(1, 2)) { q.id = true; q.v = gen_id(c, c.chance(1, 2) ? 3 : 12, true); } }
PBT_CASE(plain, 15, "two strings or more; the automaton was compared exactly with the set") { Words x = gen(c, c.chance(1, 2)); run(c, x, false); }
PBT_CASE(ids_end, 15, "as plain; strings carry ids and the match is anchored at the right") { Words x = gen(c, c.chance(1, 2)); if (!R(x.flags)) x.flags |= c.chance(1, 2) ? RE_STRINGS_ANCHOR_RIGHT : RE_STRINGS_AC_AUTOMATON; give_ids(c, x, c.chance(1, 2)); run(c, x, true); }
PBT_CASE(ids_tail, 6, "as plain; strings carry ids, no right anchor: inputs that end with a string") { // the part of the ids_open language that must hold in any reading
	Words x = gen(c, c.chance(1, 2)); x.flags &= RE_STRINGS_ANCHOR_LEFT; give_ids(c, x, true); desc(c, x); Fsm f(make(c, x)); REQ(c, f.f, "build", "failed"); Nfa g = extract(c, f); REQ(c, is_dfa(g), "dfa", "not deterministic");
	for (int i = 0; i < 6; i++) { std::string w = input(c, x); std::set<id_t> must, may; for (auto &q : x.v) { if (hit(q.s, w, x.flags | RE_STRINGS_ANCHOR_RIGHT)) must.insert(q.v); if (hit(q.s, w, x.flags)) may.insert(q.v); }
		fsm_state_t e; int r = exec(f, w, &e); if (!must.empty()) { REQ(c, r == 1, "missed", "input " + pbt::show(w) + " ends with a string but is not matched"); if (x.v.size() > 1) c.nontrivial(); }
		if (r == 1) { REQ(c, !may.empty(), "matched", "input " + pbt::show(w) + " contains no string but is matched"); for (auto k : must) REQ(c, g.st[e].ids.count(k), "ids", "input " + pbt::show(w) + ": id " + std::to_string(k) + " is missing"); for (auto k : g.st[e].ids) REQ(c, may.count(k), "ids", "input " + pbt::show(w) + ": id " + std::to_string(k) + " is wrong"); } }
}
PBT_CASE(recorded, 1, "dedicated to the listed finding: strings with ids and no right anchor") { // replayed from known/
	Words x; x.flags = c.draw(2) ? RE_STRINGS_ANCHOR_LEFT : 0; x.cstr = true; x.v = {{"ab", true, 1}}; desc(c, x); Fsm f(make(c, x)); fsm_state_t e; int r = exec(f, "abx", &e);
	REQ(c, r == 1, x.flags ? "ids-open-left" : "ids-open", "\"abx\" contains \"ab\" but is not matched");
}
