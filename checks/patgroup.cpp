// BUILD: variant=san
// Property: a repeated-pattern group reports, for any input, exactly the patterns that match it when run on their own.
#include "rex.hpp"
using namespace model; using namespace fsmx; using namespace rex;
namespace {
// expressions for groups: small, anchors mostly where they can match
struct Pg { pbt::Ctx &c; int budget;
	std::string atom() { if (--budget < 0) return std::string(1, "abc"[c.draw(3)]); switch (c.weighted({14, 3, 3, 2, 2})) { case 0: return std::string(1, "abc"[c.draw(3)]); case 1: return "."; case 2: { static const char *k[] = {"[ab]", "[^a]", "[a-c]", "\\x00", "[bc]"}; return k[c.draw(5)]; } case 3: return "(?:" + alt() + ")"; default: return "(" + alt() + ")"; } }
	std::string rep() { std::string a = atom(); switch (c.weighted({12, 2, 2, 2, 1})) { case 0: return a; case 1: return a + "*"; case 2: return a + "+"; case 3: return a + "?"; default: { static const char *k[] = {"{2}", "{1,2}", "{0,2}", "{2,}", "{0}"}; return a + k[c.draw(5)]; } } }
	std::string sa() { return c.chance(1, 5) ? "\\A" : "^"; } std::string ea() { static const char *k[] = {"$", "\\z", "\\Z"}; return k[c.weighted({6, 2, 1})]; }
	std::string cat() { std::string s; int n = (int)c.weighted({1, 6, 6, 3}); while (n--) s += rep(); return s; }
	std::string alt() { std::string s = cat(); int n = (int)c.weighted({8, 2, 1}); while (n--) s += "|" + cat(); return s; }
	std::string branch(bool mixed) { std::string s; int m = mixed ? (int)c.draw(4) : -1; if (m & 1 && m >= 0) s += sa(); s += cat(); if (m & 2 && m >= 0) s += ea(); return s; }
	std::string top() { switch (c.weighted({6, 3, 3, 3, 3})) { case 0: return alt(); case 1: return sa() + (c.chance(1, 3) ? "(?:" + alt() + ")" : cat()); case 2: return (c.chance(1, 3) ? "(?:" + alt() + ")" : cat()) + ea(); case 3: return sa() + (c.chance(1, 3) ? "(?:" + alt() + ")" : cat()) + ea(); default: { std::string s = branch(true); int n = c.range(1, 2); while (n--) s += "|" + branch(true); return c.chance(1, 4) ? "(?:" + s + ")" : s; } } }
};
}
static void group(pbt::Ctx &c, std::vector<std::string> pats, unsigned base, bool min, enum re_dialect dia = RE_PCRE, int flags = 0) {
	if (dia == RE_NATIVE) for (auto &p : pats) { auto sub = [&](const char *a, const char *b) { for (size_t i; (i = p.find(a)) != std::string::npos; ) p.replace(i, strlen(a), b); }; sub("(?:", "("); sub("\\A", "^"); sub("\\z", "$"); sub("\\Z", "$"); }
	int k = (int)pats.size(); std::vector<struct fsm *> nfas; std::vector<Nfa> one; struct Guard { std::vector<struct fsm *> &v; ~Guard() { for (auto f : v) if (f) fsm_free(f); } } g{nfas};
	std::string list; for (auto &p : pats) list += "  /" + p + "/\n";
	for (auto &p : pats) {
		struct re_err e; struct fsm *f = comp(dia, p, flags, &e); if (!f) c.discard(); Fsm own(f); one.push_back(extract(c, f));
		struct fsm *l = comp(dia, p, flags | RE_SAVE_LINKAGE_INFO, &e); REQ(c, l, "group:compile", "compiles, but not with linkage info\n" + p); nfas.push_back(l);
	}
	std::vector<struct fsm *> args = nfas; for (auto &f : nfas) f = nullptr; bool use_bases = c.chance(1, 2); std::vector<struct fsm_combined_base_pair> bases(k);
	Fsm m(fsm_union_repeated_pattern_group(k, args.data(), use_bases ? bases.data() : NULL, base)); REQ(c, m.f, "group:null", "the group could not be built\n" + list);
	determinise(c, m, 4000); if (min) REQ(c, fsm_minimise(m) == 1, "group:minimise", list);
	Nfa d = extract(c, m); REQ(c, is_dfa(d), "group:dfa", list);
	std::vector<const Nfa *> all{&d}; for (auto &a : one) all.push_back(&a); std::vector<unsigned char> sy = reps(all);
	// every reachable joint state, with the eager outputs seen on the way
	struct J { Set s; std::set<id_t> seen; std::vector<Set> p; bool operator<(const J &o) const { return std::tie(s, seen, p) < std::tie(o.s, o.seen, o.p); } };
	std::map<J, int> id; std::vector<J> v; std::vector<std::pair<int, unsigned char>> par; J j0; j0.s = start_set(d); for (auto &a : one) j0.p.push_back(start_set(a)); for (int s : j0.s) j0.seen.insert(d.st[s].eager.begin(), d.st[s].eager.end());
	id[j0] = 0; v.push_back(j0); par.push_back({-1, 0}); size_t limit = c.tier ? 6000 : 1500; bool any = false, none = false;
	for (size_t i = 0; i < v.size(); i++) {
		J cur = v[i]; std::set<id_t> want, got; for (int x = 0; x < k; x++) if (label(one[x], cur.p[x], 0).end) want.insert(base + x);
		Label l = label(d, cur.s, CMP_IDS); if (l.end) { got = cur.seen; got.insert(l.ids.begin(), l.ids.end()); }
		any |= !want.empty(); none |= want.empty();
		if (got != want || (l.end && want.empty())) { std::string w; for (int x = (int)i; par[x].first >= 0; x = par[x].first) w += (char)par[x].second; std::reverse(w.begin(), w.end()); std::ostringstream o; o << "input " << pbt::show(w) << ": patterns that match alone {"; for (auto x : want) o << x << " "; o << "} reported {"; for (auto x : got) o << x << " "; o << "} " << (l.end ? "accept" : "reject") << " base " << base << (min ? " minimised" : "") << "\n" << list;
			bool miss = !std::includes(got.begin(), got.end(), want.begin(), want.end()); c.fail(miss ? "group:missing" : "group:extra", o.str() + dump(d)); }
		for (unsigned char ch : sy) { J n; n.s = step(d, cur.s, ch); n.seen = cur.seen; for (int s : n.s) n.seen.insert(d.st[s].eager.begin(), d.st[s].eager.end()); bool live = !n.s.empty(); for (int x = 0; x < k; x++) { n.p.push_back(step(one[x], cur.p[x], ch)); live |= !n.p[x].empty(); } if (!live) continue; if (n.s.empty()) n.seen.clear(); if (id.count(n) || v.size() >= limit) continue; id[n] = (int)v.size(); v.push_back(n); par.push_back({(int)i, ch}); }
	}
	if (any && none) c.nontrivial();
	// and through fsm_exec with its callback
	struct Rec { std::set<id_t> s; static void cb(fsm_output_id_t i, void *o) { ((Rec *)o)->s.insert(i); } }; 
	for (int t = 0; t < 4; t++) { std::string w = gen_word(c, c.chance(1, 2) ? d : one[c.draw(k)]); Rec r; fsm_eager_output_set_cb(m, Rec::cb, &r); fsm_state_t e; int x = fsm_exec(m, buf_getc, std::make_unique<BufSrc>(BufSrc{(const unsigned char *)w.data(), (const unsigned char *)w.data() + w.size()}).get(), &e, NULL); std::set<id_t> got, want;
		if (x == 1) { got = r.s; size_t n = fsm_endid_count(m, e); std::vector<fsm_end_id_t> ids(n); if (n) REQ(c, fsm_endid_get(m, e, n, ids.data()) == 1, "group:endids", ""); got.insert(ids.begin(), ids.end()); }
		for (int q = 0; q < k; q++) if (accepts(one[q], w)) want.insert(base + q); REQ(c, got == want, "group:exec", "fsm_exec on " + pbt::show(w) + " reports something else\n" + list); }
}
static void go(pbt::Ctx &c, const std::vector<std::string> &p, enum re_dialect dia = RE_PCRE, int flags = 0) {
	unsigned base = c.chance(1, 3) ? (unsigned)c.draw(100) : c.chance(1, 10) ? 4294967290u - 5 : 0; bool min = c.chance(1, 2);
	c.describe([&](std::ostream &o) { for (auto &x : p) o << "/" << x << "/ "; o << "base " << base << " min " << min << " dialect " << dia << " flags " << flags; }); group(c, p, base, min, dia, flags);
}
static bool nullable(pbt::Ctx &c, const std::string &re) { Fsm f(comp(RE_PCRE, re, 0)); return f.f && label(extract(c, f), start_set(extract(c, f)), 0).end; }
// one of X, ^X, X$, ^X$; X without anchors; X may be required not to match the empty string
static std::string shape(pbt::Ctx &c, int kinds, bool nonnull) {
	Pg g{c, 5}; std::string x = g.alt(); if (nonnull) { std::string t = "^(?:" + x + ")$"; if (nullable(c, t)) x = std::string(1, "abc"[c.draw(3)]) + (x.find('|') == std::string::npos ? x : "(?:" + x + ")"); }
	int k; do k = (int)c.draw(4); while (!(kinds >> k & 1)); if (k && x.find('|') != std::string::npos) x = "(?:" + x + ")"; return (k & 1 ? g.sa() : "") + x + (k & 2 ? g.ea() : "");
}
#define SHAPES(NAME, KINDS, NN) PBT_CASE(NAME, 3, "some input matches some pattern and some matches none") { int k = (int)c.weighted({2, 6, 5, 3}) + 1; std::vector<std::string> p; for (int i = 0; i < k; i++) p.push_back(shape(c, KINDS, NN)); go(c, p); }
SHAPES(un, 1, true)
SHAPES(un0, 1, false)
SHAPES(start, 2, true)
SHAPES(start0, 2, false)
SHAPES(end, 4, true)
SHAPES(end0, 4, false)
SHAPES(both, 8, true)
SHAPES(both0, 8, false)
SHAPES(mixed, 15, true)
SHAPES(mixed0, 15, false)
PBT_CASE(native, 2, "some input matches some pattern and some matches none") {
	int k = (int)c.weighted({2, 6, 5, 3}) + 1; std::vector<std::string> p; Pg g{c, 5}; for (int i = 0; i < k; i++) { g.budget = 5; p.push_back(g.top()); } go(c, p, RE_NATIVE);
}
PBT_CASE(flagged, 2, "some input matches some pattern and some matches none") {
	int k = (int)c.weighted({2, 6, 5, 3}) + 1; std::vector<std::string> p; Pg g{c, 5}; for (int i = 0; i < k; i++) { g.budget = 5; p.push_back(g.top()); } static const int F[] = {RE_ICASE, RE_SINGLE, RE_ANCHORED, RE_ICASE | RE_SINGLE}; go(c, p, RE_PCRE, F[c.draw(4)]);
}
PBT_CASE(dialects, 1, "some input matches some pattern and some matches none") { // all implicitly anchored
	int k = c.range(1, 4); std::vector<std::string> p; static const enum re_dialect D[] = {RE_LITERAL, RE_LIKE, RE_GLOB, RE_SQL}; enum re_dialect d = D[c.draw(4)]; for (int i = 0; i < k; i++) { std::string s; int n = c.range(d == RE_LITERAL ? 0 : 1, 4); while (n--) s += "abc%_?*"[c.chance(1, 3) ? d == RE_LIKE || d == RE_SQL ? 3 + c.draw(2) : d == RE_GLOB ? 5 + c.draw(2) : c.draw(3) : c.draw(3)]; p.push_back(s); } go(c, p, d, 0);
}
PBT_CASE(any, 4, "some input matches some pattern and some matches none") {
	int k = (int)c.weighted({2, 6, 5, 3}) + 1; std::vector<std::string> p; Pg g{c, 5}; for (int i = 0; i < k; i++) { g.budget = 5; p.push_back(g.top()); } go(c, p);
}
