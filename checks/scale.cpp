// BUILD: variant=san
// The same properties at sizes where counters, tables and encodings outgrow a byte, a word or their first allocation.
// Oracle: languages that stay simple however large the automaton is. Word sets have a trie (minimal size: distinct
// suffix signatures), unary cycles have arithmetic (residues, lcm, fundamental period). Results are compared exactly
// with the reference, state by state.
#include "rex.hpp"
#include <random>
#include <unordered_map>
#include <unordered_set>
#include <numeric>
#include <sys/resource.h>
#include <memory>
#include <re/groups.h>
extern "C" {
#include <fsm/parser.h>
}
using namespace model; using namespace fsmx;
typedef std::set<unsigned> U; typedef std::mt19937_64 Rng;
static int rnd(Rng &r, int n) { return (int)(r() % (uint64_t)n); }
// log-uniform size in [lo,hi]
static int size_of(pbt::Ctx &c, int lo, int hi) { int a = 0; while ((lo << a) < hi) a++; int k = (int)c.draw(a + 1); long x = (long)lo << k; x += (long)c.draw((uint64_t)x); return (int)std::min<long>(x, hi); }
// --- references: deterministic, walked lazily. A key of -1 is dead.
struct Ref { virtual ~Ref() {} virtual long start() const = 0; virtual long step(long k, unsigned char ch) const = 0; virtual bool end(long k) const = 0; virtual U ids(long k) const { return U(); } std::string alpha; };
struct Trie : Ref { struct N { std::map<unsigned char, int> to; bool end = false; U ids; }; std::vector<N> n; Trie() { n.emplace_back(); }
	void add(const std::string &w, const U &ids) { int s = 0; for (unsigned char ch : w) { auto it = n[s].to.find(ch); if (it == n[s].to.end()) { int t = (int)n.size(); n[s].to[ch] = t; n.emplace_back(); s = t; } else s = it->second; } n[s].end = true; n[s].ids.insert(ids.begin(), ids.end()); }
	long start() const override { return 0; } long step(long k, unsigned char ch) const override { if (k < 0) return -1; auto it = n[k].to.find(ch); return it == n[k].to.end() ? -1 : it->second; }
	bool end(long k) const override { return k >= 0 && n[k].end; } U ids(long k) const override { return k < 0 ? U() : n[k].ids; }
	size_t minimal() const { std::map<std::tuple<bool, U, std::map<unsigned char, int>>, int> m; std::vector<int> cls(n.size()); for (int i = (int)n.size() - 1; i >= 0; i--) { std::map<unsigned char, int> t; for (auto &e : n[i].to) t[e.first] = cls[e.second]; cls[i] = m.insert({std::make_tuple(n[i].end, n[i].ids, t), (int)m.size()}).first->second; } return m.size(); } };
struct Cyc { int p; std::vector<char> acc; unsigned id; bool has(long n) const { return acc[n % p]; } };
struct Cycles : Ref { std::vector<Cyc> v; long L = 1; bool reset = false; // 'a' counts; 'b', when there, goes back to zero
	long start() const override { return 0; } long step(long k, unsigned char ch) const override { return k < 0 ? -1 : ch == 'a' ? (k + 1) % L : ch == 'b' && reset ? 0 : -1; }
	bool end(long k) const override { if (k >= 0) for (auto &x : v) if (x.has(k)) return true; return false; } U ids(long k) const override { U u; if (k >= 0) for (auto &x : v) if (x.has(k)) u.insert(x.id); return u; } };
struct Words { std::vector<std::string> w; std::vector<unsigned> id; Trie trie; std::unordered_map<std::string, U> set; };
static void gen_words(Rng &r, Words &x, int n, int letters, int maxlen, unsigned nids) {
	std::string al; if (letters > 200) for (int i = 0; i < 256; i++) al += (char)i; else for (int i = 0; i < letters; i++) al += (char)('a' + i);
	for (int i = 0; i < n; i++) { std::string w; if (!x.w.empty() && rnd(r, 3) == 0) { const std::string &o = x.w[rnd(r, (int)x.w.size())]; w = o.substr(0, rnd(r, (int)o.size() + 1)); } int len = 1 + rnd(r, maxlen); while ((int)w.size() < len) w += al[rnd(r, (int)al.size())];
		unsigned id = nids ? (unsigned)(r() % nids) * 2654435761u : 0; if (nids && id == 0) id = 1; x.w.push_back(w); x.id.push_back(id); U u; if (nids) u.insert(id); x.trie.add(w, u); x.set[w].insert(u.begin(), u.end()); }
	x.trie.alpha = al;
}
static std::string near(Rng &r, const Words &x) { std::string w = x.w[rnd(r, (int)x.w.size())]; switch (rnd(r, 5)) { case 0: return w; case 1: if (!w.empty()) w.pop_back(); return w; case 2: return w + x.trie.alpha[rnd(r, (int)x.trie.alpha.size())]; case 3: if (!w.empty()) w[rnd(r, (int)w.size())] = x.trie.alpha[rnd(r, (int)x.trie.alpha.size())]; return w; default: return w + w; } }
static void gen_cyc(Rng &r, Cyc &y, int p, unsigned id) { // mostly sets with a smaller period of their own
	y.p = p; y.id = id; y.acc.assign(p, 0); std::vector<int> ds; for (int d = 1; d <= p; d++) if (p % d == 0) ds.push_back(d); int d = rnd(r, 2) ? ds[rnd(r, (int)ds.size())] : p; std::vector<char> a(d); for (auto &b : a) b = rnd(r, 4) == 0; a[rnd(r, d)] = 1; for (int i = 0; i < p; i++) y.acc[i] = a[i % d];
}
static int period(const Cyc &y) { for (int d = 1; d <= y.p; d++) if (y.p % d == 0) { bool ok = true; for (int i = d; i < y.p && ok; i++) ok = y.acc[i] == y.acc[i - d]; if (ok) return d; } return y.p; }
// --- building: states numbered in a random order
struct Builder { pbt::Ctx &c; Rng &r; struct fsm *f; std::vector<fsm_state_t> name; Builder(pbt::Ctx &c, Rng &r, int n, bool shuffle) : c(c), r(r) { f = fsm_new(nullptr); REQ(c, f && fsm_addstate_bulk(f, n), "build", "no states"); name.resize(n); std::iota(name.begin(), name.end(), 0); if (shuffle) std::shuffle(name.begin(), name.end(), r); }
	void lit(int a, int b, unsigned char ch) { REQ(c, fsm_addedge_literal(f, name[a], name[b], (char)ch), "build", "no edge"); } void eps(int a, int b) { REQ(c, fsm_addedge_epsilon(f, name[a], name[b]), "build", "no epsilon"); }
	void end(int a, const U &ids) { fsm_setend(f, name[a], 1); for (auto i : ids) REQ(c, fsm_endid_set(f, name[a], i), "build", "no id"); } struct fsm *start(int a) { fsm_setstart(f, name[a]); struct fsm *x = f; f = nullptr; return x; } ~Builder() { if (f) fsm_free(f); } };
static struct fsm *trie_fsm(pbt::Ctx &c, Rng &r, const Trie &t) { Builder b(c, r, (int)t.n.size(), rnd(r, 3) > 0); for (size_t i = 0; i < t.n.size(); i++) { for (auto &e : t.n[i].to) b.lit((int)i, e.second, e.first); if (t.n[i].end) b.end((int)i, t.n[i].ids); } return b.start(0); }
static struct fsm *chains_fsm(pbt::Ctx &c, Rng &r, const Words &x, bool eps, bool ids) { // one chain for each word, from the start
	size_t n = 1; for (auto &w : x.w) n += w.size() + (eps ? 1 : 0); Builder b(c, r, (int)n, rnd(r, 3) > 0); int k = 1;
	for (size_t i = 0; i < x.w.size(); i++) { int s = 0; if (eps) { b.eps(0, k); s = k++; } for (unsigned char ch : x.w[i]) { b.lit(s, k, ch); s = k++; } b.end(s, ids ? U{x.id[i]} : U()); } return b.start(0);
}
static struct fsm *cyc_fsm(pbt::Ctx &c, Rng &r, const Cycles &x, bool ids) { // a branch for each cycle
	bool one = x.v.size() == 1; int n = one ? 0 : 1; for (auto &y : x.v) n += y.p; Builder b(c, r, n, rnd(r, 3) > 0); int k = one ? 0 : 1;
	for (auto &y : x.v) { if (!one) b.eps(0, k); for (int i = 0; i < y.p; i++) { b.lit(k + i, k + (i + 1) % y.p, 'a'); if (x.reset) b.lit(k + i, k, 'b'); if (y.acc[i]) b.end(k + i, ids ? U{y.id} : U()); } k += y.p; }
	return b.start(0);
}
// --- reading a DFA back
struct D { long start = -1; std::vector<std::vector<std::pair<unsigned char, int>>> to; std::vector<char> end; bool det = true; size_t eps = 0, edges = 0; };
static int d_lit(const struct fsm *, fsm_state_t a, fsm_state_t b, char ch, void *o) { D *d = (D *)o; if (a >= d->to.size() || b >= d->to.size()) return 0; d->to[a].push_back({(unsigned char)ch, (int)b}); d->edges++; return 1; }
static int d_eps(const struct fsm *, fsm_state_t, fsm_state_t, void *o) { ((D *)o)->eps++; return 1; }
static D read(pbt::Ctx &c, const struct fsm *f) {
	D d; unsigned n = fsm_countstates(f); d.to.resize(n); d.end.resize(n); for (unsigned i = 0; i < n; i++) d.end[i] = !!fsm_isend(f, i); fsm_state_t s; if (fsm_getstart(f, &s)) { REQ(c, s < n, "start", "start state out of range"); d.start = s; }
	REQ(c, fsm_walk_edges(f, &d, d_lit, d_eps) == 1, "edges", "an edge leads nowhere"); for (auto &v : d.to) { std::sort(v.begin(), v.end()); for (size_t i = 1; i < v.size(); i++) if (v[i].first == v[i - 1].first) d.det = false; } return d;
}
static U ids_of(pbt::Ctx &c, const struct fsm *f, int s) { size_t k = fsm_endid_count(f, s); std::vector<fsm_end_id_t> v(k + 1); if (k) REQ(c, fsm_endid_get(f, s, k, v.data()) == 1, "ids", "fsm_endid_get failed"); for (size_t i = 1; i < k; i++) REQ(c, v[i - 1] < v[i], "ids", "ids out of order"); return U(v.begin(), v.begin() + k); }
// every word leads to the same verdict in the library's DFA and in the reference
static void compare(pbt::Ctx &c, const struct fsm *f, const Ref &ref, bool ids, const char *tag, bool flip = false, const std::string *cut = nullptr) {
	D d = read(c, f); REQ(c, d.eps == 0 && d.det, tag, "the result is not deterministic"); 
	std::unordered_set<uint64_t> seen; struct Q { int s; long k; int par; unsigned char ch; }; std::vector<Q> q; auto word = [&](size_t i) { std::string w; for (int x = (int)i; x >= 0 && q[x].par >= 0; x = q[x].par) w += (char)q[x].ch; std::reverse(w.begin(), w.end()); return w.size() > 60 ? pbt::show(w.substr(0, 40)) + "... (" + std::to_string(w.size()) + " bytes)" : pbt::show(w); };
	auto push = [&](long s, long k, int par, unsigned char ch) { if (s < 0 && k < 0) return; if (seen.insert(((uint64_t)(s + 1) << 32) | (uint64_t)(k + 1)).second) q.push_back({(int)s, k, par, ch}); };
	push(d.start, ref.start(), -1, 0);
	for (size_t i = 0; i < q.size(); i++) { Q x = q[i]; bool e = x.s >= 0 && d.end[x.s], w = ref.end(x.k) != flip; if (e != w) c.fail(tag, "word " + word(i) + " is " + (e ? "accepted" : "rejected") + ", " + std::to_string(d.to.size()) + " states");
		if (ids && e) { U g = ids_of(c, f, x.s), k = ref.ids(x.k); if (g != k) { std::string m = "word " + word(i) + " has " + std::to_string(g.size()) + " ids, expected " + std::to_string(k.size()) + ":"; int n = 0; for (auto y : g) if (!k.count(y) && n++ < 5) m += " extra " + std::to_string(y); for (auto y : k) if (!g.count(y) && n++ < 10) m += " missing " + std::to_string(y); c.fail(std::string(tag) + ":ids", m); } }
		size_t j = 0; const std::string &al = ref.alpha; std::vector<std::pair<unsigned char, int>> none; auto &es = x.s >= 0 ? d.to[x.s] : none; (void)j;
		std::bitset<256> done; for (auto &t : es) { done.set(t.first); push(t.second, ref.step(x.k, t.first), (int)i, t.first); } if (x.k >= 0) for (unsigned char ch : al) if (!done[ch]) push(-1, ref.step(x.k, ch), (int)i, ch); }
}
static std::string hdr(const char *what, size_t n) { return std::string(what) + " " + std::to_string(n); }
struct Made { Words w; Cycles y; const Ref *ref; std::string what; size_t big; Fsm f; };
// a deterministic automaton with its reference
static void make_dfa(pbt::Ctx &c, Rng &r, Made &m, int maxn, bool ids) {
	if (c.chance(1, 2)) { int n = size_of(c, 50, maxn / 5), letters = c.chance(1, 4) ? 256 : c.range(1, 8), len = c.chance(1, 6) ? c.range(30, 200) : c.range(3, 12); if (len > 12) n = std::min(n, maxn / len + 1); gen_words(r, m.w, n, letters, len, ids ? c.chance(1, 3) ? 100000 : 5 : 0); m.f.reset(trie_fsm(c, r, m.w.trie)); m.ref = &m.w.trie; m.big = m.w.trie.n.size(); m.what = hdr("trie of words", n); }
	else { Cyc y; int p = size_of(c, 100, maxn); if (c.chance(1, 2)) p = (p / 60 + 1) * 60; gen_cyc(r, y, p, 77); m.y.v.push_back(y); m.y.L = p; m.y.reset = c.chance(1, 2); m.y.alpha = m.y.reset ? "ab" : "a"; m.f.reset(cyc_fsm(c, r, m.y, ids)); m.ref = &m.y; m.big = p; m.what = hdr("cycle of", p); }
}
static void make_nfa(pbt::Ctx &c, Rng &r, Made &m, int maxn, bool ids, bool eps_ok = true) {
	if (c.chance(2, 3)) { int n = size_of(c, 50, maxn / 6); gen_words(r, m.w, n, c.chance(1, 4) ? 256 : c.range(1, 8), c.range(3, 10), ids ? c.chance(1, 3) ? 100000 : 5 : 0); m.f.reset(chains_fsm(c, r, m.w, eps_ok && n <= 3000 && c.chance(1, 2), ids)); m.ref = &m.w.trie; m.big = fsm_countstates(m.f); m.what = hdr("chains of words", n); }
	else { static const int T[][3] = {{7, 11, 13}, {16, 9, 25}, {17, 19, 23}, {20, 21, 23}, {29, 31, 37}, {41, 43, 47}, {2, 3, 5}, {255, 256, 1}, {257, 256, 1}, {300, 301, 1}}; int k = (int)c.draw(10); long L = 1; for (int j = 0; j < 3; j++) if (L * T[k][j] <= maxn && T[k][j] > 1) { Cyc y; gen_cyc(r, y, T[k][j], 10 + j); m.y.v.push_back(y); L *= T[k][j]; } m.y.L = L; m.y.alpha = "a"; m.f.reset(cyc_fsm(c, r, m.y, ids)); m.ref = &m.y; m.big = L; m.what = hdr("cycles with lcm", L); }
}
#define SIZE(c, q, t) ((c).tier ? (t) : (q))
#define RNG uint32_t seed = (uint32_t)c.draw(1u << 30); Rng r(seed)
#define SAY(m) c.describe([&](std::ostream &s) { s << (m).what << ", seed " << seed; })
static void sized(pbt::Ctx &c, size_t n) { c.count(n > 65536 ? "over 65536" : n > 4096 ? "over 4096" : n > 256 ? "over 256" : "up to 256"); if (n > 256) c.nontrivial(); }
#define BIG "more than 256 states or items"
PBT_CASE(exec, 1, BIG) {
	RNG; Made m; make_dfa(c, r, m, SIZE(c, 80000, 200000), true); SAY(m); sized(c, m.big);
	if (m.ref == &m.w.trie) for (int i = 0; i < 400; i++) { std::string w = near(r, m.w); fsm_state_t e = 0; int got = ::fsmx::exec(m.f, w, &e); auto it = m.w.set.find(w); REQ(c, got == (it != m.w.set.end()), "exec", pbt::show(w) + " gives " + std::to_string(got)); if (got == 1) REQ(c, ids_of(c, m.f, e) == it->second, "exec:ids", pbt::show(w)); }
	else for (int i = 0; i < 12; i++) { long n = rnd(r, 3) ? rnd(r, 3 * (int)m.y.L) : m.y.L * (1 + rnd(r, 3)) + rnd(r, 3) - 1; std::string w((size_t)n, 'a'); if (m.y.reset && rnd(r, 2) && n) { int at = rnd(r, (int)n); w[at] = 'b'; n -= at + 1; } fsm_state_t e; int got = ::fsmx::exec(m.f, w, &e); REQ(c, got == m.y.end(n % m.y.L), "exec", std::to_string(n) + " steps of " + std::to_string(m.y.L) + " give " + std::to_string(got)); w += 'c'; REQ(c, ::fsmx::exec(m.f, w, &e) == 0, "exec", "accepts a byte that no edge carries"); }
}
PBT_CASE(determinise, 1, BIG) { RNG; Made m; make_nfa(c, r, m, SIZE(c, 30000, 100000), true); SAY(m); sized(c, m.big); REQ(c, fsm_determinise(m.f), "determinise", "failed"); compare(c, m.f, *m.ref, true, "determinise"); }
PBT_CASE(dense, 1, "some subset state leads to more than 255 others") { // one set of states with many different destinations
	RNG; int w = c.range(2, 6), k = c.range(100, 256); Made m; m.what = hdr("dense", k); SAY(m); int n = 1 + w; Builder b(c, r, n + k * w, true); Trie t; // start -x-> w states, each with k labels to its own set
	std::vector<std::vector<char>> own(w, std::vector<char>(256, 0)); for (int i = 0; i < w; i++) { b.lit(0, 1 + i, 'x'); for (int l = 0; l < k; l++) { unsigned char ch = (unsigned char)((l * 7 + 13) & 255); if (rnd(r, 5) == 0) continue; own[i][ch] = 1; int s = n + i * k + l; b.lit(1 + i, s, ch); b.end(s, U{(unsigned)(i * 1000 + l)}); t.add(std::string("x") + (char)ch, U{(unsigned)(i * 1000 + l)}); } } t.n[0].end = false; for (int i = 0; i < 256; i++) t.alpha += (char)i;
	Fsm f(b.start(0)); REQ(c, fsm_determinise(f), "dense", "failed"); if (t.n.size() > 1) compare(c, f, t, true, "dense"); if (k * w > 400) c.nontrivial();
}
// a nondeterministic reference: subsets, interned as they are met
struct Sub : Ref { struct N { std::vector<std::pair<unsigned char, int>> to; std::vector<int> eps; bool end = false; U ids; }; std::vector<N> n; mutable std::map<std::vector<int>, long> key; mutable std::vector<std::vector<int>> sets;
	long intern(std::vector<int> v) const { std::set<int> s(v.begin(), v.end()); while (!v.empty()) { int x = v.back(); v.pop_back(); for (int t : n[x].eps) if (s.insert(t).second) v.push_back(t); } if (s.empty()) return -1; std::vector<int> k(s.begin(), s.end()); auto it = key.insert({k, (long)sets.size()}); if (it.second) sets.push_back(k); return it.first->second; }
	long start() const override { return intern({0}); } long step(long k, unsigned char ch) const override { if (k < 0) return -1; std::vector<int> v; for (int x : sets[k]) for (auto &e : n[x].to) if (e.first == ch) v.push_back(e.second); return intern(v); }
	bool end(long k) const override { if (k >= 0) for (int x : sets[k]) if (n[x].end) return true; return false; } U ids(long k) const override { U u; if (k >= 0) for (int x : sets[k]) if (n[x].end) u.insert(n[x].ids.begin(), n[x].ids.end()); return u; } };
PBT_CASE(spread, 1, "more than 255 states, with repeats, follow one set of states on one label") { // layers of states whose numbers lie far apart
	RNG; int layers = c.range(2, 4), letters = c.range(1, 2), total = c.chance(1, 2) ? c.range(82000, SIZE(c, 140000, 400000)) : 0; bool edge = c.chance(1, 4); if (edge) total = c.range(81900, 82000); bool eps = c.chance(1, 3), cluster = edge || c.chance(1, 3), ids = c.chance(2, 3); Sub m; m.alpha = "abxyz"; std::vector<std::vector<int>> L(layers + 1); m.n.resize(1); L[0].push_back(0); size_t widest = 0;
	for (int l = 1; l <= layers; l++) { int w = c.chance(2, 3) ? c.range(256, 900) : c.range(2, 40); widest = std::max(widest, (size_t)w); for (int i = 0; i < w; i++) { L[l].push_back((int)m.n.size()); m.n.emplace_back(); } }
	for (int l = 0; l < layers; l++) { auto &A = L[l], &B = L[l + 1]; int per = l == 0 ? (int)B.size() : std::max(1, std::min(12, 900 / (int)A.size())) + rnd(r, 3); for (int a : A) for (int i = 0; i < per; i++) { int b = l == 0 && rnd(r, 8) ? B[i] : B[rnd(r, (int)B.size())]; if (eps && l && rnd(r, 12) == 0) m.n[a].eps.push_back(b); else m.n[a].to.push_back({(unsigned char)("ab"[rnd(r, letters)]), b}); } }
	for (int l = 1; l <= layers; l++) for (int a : L[l]) if (l == layers || rnd(r, 30) == 0) { if (rnd(r, 3) == 0) { m.n[a].end = true; if (ids) for (int k = 1 + rnd(r, 2); k--; ) m.n[a].ids.insert((unsigned)rnd(r, 500)); } if (rnd(r, 20) == 0) m.n[a].to.push_back({(unsigned char)("xyz"[rnd(r, 3)]), rnd(r, 40) ? L[layers][rnd(r, (int)L[layers].size())] : 0}); }
	int n = (int)m.n.size(); if (total < n) total = n; c.describe([&](std::ostream &s) { s << layers << " layers, " << n << " of " << total << " states, widest " << widest << (eps ? ", epsilons" : "") << ", seed " << seed; });
	Builder b(c, r, total, !cluster || total <= 2 * n); if (cluster && total > 2 * n) { for (int i = 0; i < n; i++) b.name[i] = rnd(r, 2) ? i : total - 1 - i; } for (int i = 0; i < n; i++) { for (auto &e : m.n[i].to) b.lit(i, e.second, e.first); for (int t : m.n[i].eps) b.eps(i, t); if (m.n[i].end) b.end(i, m.n[i].ids); } Fsm f(b.start(0));
	if (c.chance(1, 3)) REQ(c, fsm_remove_epsilons(f), "epsilons", "failed"); if (c.chance(1, 6)) REQ(c, fsm_trim(f, FSM_TRIM_START_REACHABLE, nullptr) >= 0, "trim", "failed");
	rex::determinise(c, f, total + 20000); c.count(total > 82000 ? "numbers more than 81920 apart" : "packed"); if (widest > 255) c.nontrivial(); compare(c, f, m, true, "spread");
}
PBT_CASE(minimise, 1, BIG) {
	RNG; Made m; make_dfa(c, r, m, SIZE(c, 20000, 100000), true); SAY(m); sized(c, m.big); REQ(c, fsm_minimise(m.f), "minimise", "failed"); compare(c, m.f, *m.ref, true, "minimise"); size_t n = fsm_countstates(m.f), want = m.ref == &m.y ? (size_t)period(m.y.v[0]) : m.w.trie.minimal();
	if (m.ref == &m.y && m.y.reset && want > 1) { /* resets only matter between different residues */ } REQ(c, n == want, "minimal", std::to_string(n) + " states remain of " + std::to_string(m.big) + ", " + std::to_string(want) + " suffice");
}
PBT_CASE(epsilons, 1, BIG) {
	RNG; Made m; bool rev = c.chance(1, 2); if (rev) make_dfa(c, r, m, SIZE(c, 3000, 10000), false); else make_nfa(c, r, m, SIZE(c, 20000, 60000), true); SAY(m); sized(c, m.big);
	if (!rev) { REQ(c, fsm_remove_epsilons(m.f), "epsilons", "failed"); REQ(c, read(c, m.f).eps == 0, "epsilons", "epsilon edges remain"); REQ(c, fsm_determinise(m.f), "epsilons", "failed"); compare(c, m.f, *m.ref, true, "epsilons"); return; }
	if (m.ref == &m.y && m.y.reset) m.f.reset((m.y.reset = false, m.y.alpha = "a", cyc_fsm(c, r, m.y, false)));
	REQ(c, fsm_reverse(m.f), "reverse", "failed"); if (m.ref == &m.y) { REQ(c, fsm_determinise(m.f), "reverse", "failed"); compare(c, m.f, m.y, false, "reverse"); return; }
	Trie t; t.alpha = m.w.trie.alpha; for (auto &w : m.w.w) t.add(std::string(w.rbegin(), w.rend()), U()); REQ(c, fsm_determinise(m.f), "reverse", "failed"); compare(c, m.f, t, false, "reverse");
}
PBT_CASE(trim, 1, BIG) { // live words, dead branches and islands
	RNG; Words x; int n = size_of(c, 40, SIZE(c, 15000, 60000)); gen_words(r, x, n, c.range(2, 8), c.range(3, 12), 3); int live = (int)x.trie.n.size(), dead = size_of(c, 10, 40000), isle = size_of(c, 10, 40000); Made m; m.what = hdr("live", live) + hdr(" dead", dead) + hdr(" islands", isle); SAY(m); sized(c, live + dead + isle);
	Builder b(c, r, live + dead + isle, true); std::vector<unsigned> dist(live, UINT_MAX); for (int i = 0; i < live; i++) { for (auto &e : x.trie.n[i].to) b.lit(i, e.second, e.first); if (x.trie.n[i].end) b.end(i, x.trie.n[i].ids); }
	for (int i = live - 1; i >= 0; i--) { if (x.trie.n[i].end) dist[i] = 0; for (auto &e : x.trie.n[i].to) dist[i] = std::min(dist[i], dist[e.second] + 1); }
	for (int i = 0; i < dead; i++) { int from = i == 0 || rnd(r, 3) == 0 ? rnd(r, live) : live + rnd(r, i); b.lit(from, live + i, (unsigned char)(128 + rnd(r, 100))); if (rnd(r, 8) == 0) b.lit(live + i, live + rnd(r, i + 1), 'z'); }
	for (int i = 0; i < isle; i++) { int s = live + dead + i; b.lit(s, rnd(r, 2) ? live + dead + rnd(r, isle) : rnd(r, live), 'q'); if (rnd(r, 3) == 0) b.end(s, U{9}); }
	std::vector<fsm_state_t> name = b.name; Fsm f(b.start(0)); bool both = c.chance(2, 3), want = both && c.chance(1, 2); unsigned *sed = nullptr; long gone = fsm_trim(f, both ? FSM_TRIM_START_AND_END_REACHABLE : FSM_TRIM_START_REACHABLE, want ? &sed : nullptr); struct Fr { unsigned *p; ~Fr() { free(p); } } fr{sed};
	int keep = live + (both ? 0 : dead); REQ(c, gone == live + dead + isle - keep && (int)fsm_countstates(f) == keep, "trim", "removed " + std::to_string(gone) + ", " + std::to_string(fsm_countstates(f)) + " remain, expected " + std::to_string(keep));
	if (both) compare(c, f, x.trie, true, "trim"); else { D d = read(c, f); size_t k = 0; for (auto e : d.end) k += e; size_t w = 0; for (auto &q : x.trie.n) w += q.end; REQ(c, k == w, "trim", "ends lost"); }
	if (want) { std::vector<int> ord(live); std::iota(ord.begin(), ord.end(), 0); std::sort(ord.begin(), ord.end(), [&](int a, int b) { return name[a] < name[b]; }); REQ(c, sed, "distances", "none returned"); for (int i = 0; i < live; i++) REQ(c, sed[i] == dist[ord[i]], "distance", "state " + std::to_string(i) + " is " + std::to_string(dist[ord[i]]) + " from an end, not " + std::to_string(sed[i])); }
}
PBT_CASE(unions, 1, BIG) { // one small automaton for each word, or two large ones
	RNG; Made m; bool many = c.chance(1, 2); int n = many ? size_of(c, 20, 300) : size_of(c, 100, SIZE(c, 8000, 30000)); m.what = hdr(many ? "automata" : "words", n); SAY(m); Words x; gen_words(r, x, n, c.chance(1, 4) ? 256 : c.range(1, 6), c.range(2, 9), 100000);
	std::vector<struct fsm *> fs; std::vector<std::vector<std::string>> part; int k = many ? n : 2; for (int i = 0; i < k; i++) { Words y; y.trie.alpha = x.trie.alpha; for (int j = i; j < n; j += k) { y.w.push_back(x.w[j]); y.id.push_back(x.id[j]); y.trie.add(x.w[j], U{x.id[j]}); } part.push_back(y.w); fs.push_back(c.chance(1, 2) && !many ? chains_fsm(c, r, y, false, true) : trie_fsm(c, r, y.trie)); }
	std::vector<unsigned> sizes; size_t tot = 0; for (auto f : fs) { sizes.push_back(fsm_countstates(f)); tot += sizes.back(); } sized(c, std::max<size_t>(tot, n)); Fsm u;
	if (many) { std::vector<struct fsm_combined_base_pair> bases(k); u.reset(fsm_union_array(k, fs.data(), bases.data())); REQ(c, u.f, "union", "failed"); unsigned total = fsm_countstates(u); std::vector<std::pair<unsigned, unsigned>> iv; for (int i = 0; i < k; i++) { iv.push_back({bases[i].state, bases[i].state + sizes[i]}); REQ(c, bases[i].state + sizes[i] <= total, "base", "base " + std::to_string(bases[i].state) + " out of range"); } std::sort(iv.begin(), iv.end()); for (int i = 1; i < k; i++) REQ(c, iv[i - 1].second <= iv[i].first, "base", "operands overlap"); for (int i = 0; i < k; i++) { U ids; for (unsigned s = bases[i].state; s < bases[i].state + sizes[i]; s++) if (fsm_isend(u, s)) { U t = ids_of(c, u, s); ids.insert(t.begin(), t.end()); } REQ(c, ids == U{x.id[i]}, "base:ids", "operand " + std::to_string(i) + " is not at its base"); } }
	else { struct fsm_combine_info ci; u.reset(fsm_union(fs[0], fs[1], &ci)); REQ(c, u.f, "union", "failed"); }
	REQ(c, fsm_determinise(u), "union", "not determinised"); compare(c, u, x.trie, true, "union");
}
PBT_CASE(concat, 1, BIG) {
	RNG; Made m; Words a, b; int na = size_of(c, 10, 300), nb = size_of(c, 10, 100); bool chain = c.chance(1, 3); if (chain) { std::string w1, w2; int l1 = size_of(c, 100, SIZE(c, 70000, 100000)), l2 = size_of(c, 100, 3000); while ((int)w1.size() < l1) w1 += "ab"[rnd(r, 2)]; while ((int)w2.size() < l2) w2 += "ab"[rnd(r, 2)]; if (c.chance(1, 2)) std::swap(w1, w2); a.w = {w1}; b.w = {w2}; a.id = b.id = {1}; a.trie.add(w1, U()); b.trie.add(w2, U()); a.trie.alpha = "ab"; } else { gen_words(r, a, na, c.range(1, 5), 8, 0); gen_words(r, b, nb, c.range(1, 5), 8, 0); }
	m.what = chain ? hdr("chain of", a.w[0].size() + b.w[0].size()) : hdr("words", na) + hdr(" times", nb); SAY(m); Trie t; t.alpha = "abcdefgh"; for (auto &p : a.w) for (auto &q : b.w) t.add(p + q, U()); sized(c, t.n.size());
	Fsm f(fsm_concat(trie_fsm(c, r, a.trie), trie_fsm(c, r, b.trie), nullptr)); REQ(c, f.f, "concat", "failed"); REQ(c, fsm_determinise(f), "concat", "failed"); compare(c, f, t, false, "concat");
}
PBT_CASE(boolean, 1, BIG) { // the library recurses for every edge of a path: give it room
	struct rlimit rl = {100 << 20, 100 << 20}; getrlimit(RLIMIT_STACK, &rl); rl.rlim_cur = rl.rlim_max == RLIM_INFINITY ? 100 << 20 : std::min<rlim_t>(rl.rlim_max, 100 << 20); setrlimit(RLIMIT_STACK, &rl);
	RNG; Made m; int op = (int)c.draw(3); bool words = c.chance(1, 2); Fsm f;
	if (words) { Words a, b; int n = size_of(c, 50, SIZE(c, 4000, 20000)), l = c.range(1, 6); gen_words(r, a, n, l, 7, 0); gen_words(r, b, n / 2, l, 7, 0); for (int i = 0; i < n / 2; i++) { const std::string w = a.w[rnd(r, n)]; b.w.push_back(w); b.id.push_back(0); b.trie.add(w, U()); b.set[w]; } m.what = hdr("words, operation", op) + hdr(" of", n); SAY(m); sized(c, a.trie.n.size());
		Trie t; t.alpha = "abcdefgh"; for (auto &e : a.set) if (op == 0 ? b.set.count(e.first) > 0 : op == 1 ? !b.set.count(e.first) : true) t.add(e.first, U()); if (op == 2) { for (int i = 0; i < 256; i++) if (i < 'a' || i > 'h') t.alpha += (char)i; Fsm g(trie_fsm(c, r, a.trie)); REQ(c, fsm_complement(g), "complement", "failed"); f = std::move(g); REQ(c, fsm_determinise(f), "complement", "failed"); struct Tot : Ref { const Trie *t; long start() const override { return 0; } long step(long k, unsigned char ch) const override { return k == -2 ? -2 : t->step(k, ch) < 0 ? -2 : t->step(k, ch); } bool end(long k) const override { return k != -2 && t->end(k); } } tot; tot.t = &t; tot.alpha = "abcdefgh\xff"; D d = read(c, f); for (int i = 0; i < 500; i++) { std::string w = near(r, a); fsm_state_t e; REQ(c, ::fsmx::exec(f, w, &e) == !a.set.count(w), "complement", pbt::show(w)); } return; }
		Fsm g(op == 0 ? fsm_intersect(trie_fsm(c, r, a.trie), trie_fsm(c, r, b.trie)) : fsm_subtract(trie_fsm(c, r, a.trie), trie_fsm(c, r, b.trie))); f = std::move(g); REQ(c, f.f, op ? "subtract" : "intersect", "failed"); REQ(c, fsm_determinise(f), "determinise", "failed"); compare(c, f, t, false, op ? "subtract" : "intersect"); return; }
	static const int P[][2] = {{16, 17}, {64, 65}, {97, 101}, {255, 256}, {257, 256}, {128, 127}, {30, 31}}; auto &p = P[c.draw(7)]; Cycles a, b; Cyc x; gen_cyc(r, x, p[0], 1); a.v = {x}; a.L = p[0]; gen_cyc(r, x, p[1], 1); b.v = {x}; b.L = p[1]; m.what = hdr("cycles", p[0]) + hdr(" and", p[1]) + hdr(", operation", op); SAY(m); long L = (long)p[0] * p[1]; sized(c, L);
	struct Op : Ref { const Cycles *a, *b; int op; long L; long start() const override { return 0; } long step(long k, unsigned char ch) const override { return k < 0 || ch != 'a' ? -1 : (k + 1) % L; } bool end(long k) const override { if (k < 0) return false; bool x = a->v[0].has(k), y = b->v[0].has(k); return op == 0 ? x && y : x && !y; } } o; o.a = &a; o.b = &b; o.op = op == 2 ? 0 : op; o.L = L; o.alpha = "a";
	Fsm g(o.op == 0 ? fsm_intersect(cyc_fsm(c, r, a, false), cyc_fsm(c, r, b, false)) : fsm_subtract(cyc_fsm(c, r, a, false), cyc_fsm(c, r, b, false))); f = std::move(g); REQ(c, f.f, "boolean", "failed"); if (c.chance(1, 2)) { REQ(c, fsm_determinise(f), "determinise", "failed"); } else REQ(c, fsm_determinise(f) && fsm_minimise(f), "minimise", "failed"); compare(c, f, o, false, o.op ? "subtract" : "intersect");
}
PBT_CASE(equal, 1, BIG) {
	RNG; Made m; int n = size_of(c, 50, SIZE(c, 5000, 20000)); Words a; gen_words(r, a, n, c.range(1, 6), c.range(3, 10), 0); Words b = a; bool diff = c.chance(1, 2); m.what = hdr(diff ? "different, words" : "same, words", n); SAY(m); sized(c, a.trie.n.size());
	if (diff) { std::string w; do w = near(r, a) + (rnd(r, 2) ? "" : "a"); while (a.set.count(w)); b.w.push_back(w); b.id.push_back(0); b.trie.add(w, U()); if (c.chance(1, 2)) std::swap(a, b); } std::shuffle(b.w.begin(), b.w.end(), r);
	Fsm x(c.chance(1, 2) ? trie_fsm(c, r, a.trie) : chains_fsm(c, r, a, false, false)), y(c.chance(1, 2) ? trie_fsm(c, r, b.trie) : chains_fsm(c, r, b, n <= 2000, false)); int e = fsm_equal(x, y); REQ(c, e == !diff, "equal", "fsm_equal gives " + std::to_string(e)); REQ(c, fsm_empty(x) == 0, "empty", "fsm_empty");
}
PBT_CASE(graph, 1, BIG) { // states with very many edges
	RNG; Made m; int n = size_of(c, 300, SIZE(c, 70000, 140000)), hub = c.range(1, 3), deg = std::min(n - 1, size_of(c, 200, 3000)), ne = std::min(n - 1, size_of(c, 200, 40000)); m.what = hdr("states", n) + hdr(" degree", deg) + hdr(" epsilons", ne); SAY(m); sized(c, n);
	Builder b(c, r, n, false); std::set<std::tuple<int, int, int>> want; for (int h = 0; h < hub; h++) { int s = rnd(r, n); for (int i = 0; i < deg; i++) { int t = rnd(r, n), ch = rnd(r, 256); b.lit(s, t, (unsigned char)ch); want.insert({s, ch, t}); } } { int s = rnd(r, n); for (int i = 0; i < ne; i++) { int t = rnd(r, n); b.eps(s, t); want.insert({s, 256, t}); } }
	for (int i = 0; i < n; i++) { int s = rnd(r, n), t = rnd(r, n), ch = rnd(r, 256); b.lit(s, t, (unsigned char)ch); want.insert({s, ch, t}); } std::set<int> ends; for (int i = 0; i < n / 3; i++) { int s = rnd(r, n); ends.insert(s); b.end(s, U()); } int st = rnd(r, n); Fsm f(b.start(st)); if (c.chance(1, 2)) { Fsm g(fsm_clone(f)); REQ(c, g.f, "clone", "failed"); f = std::move(g); }
	struct G { std::vector<std::tuple<int, int, int>> e; } g; auto lit = [](const struct fsm *, fsm_state_t a, fsm_state_t b, char ch, void *o) -> int { ((G *)o)->e.push_back(std::make_tuple((int)a, (int)(unsigned char)ch, (int)b)); return 1; }; auto eps = [](const struct fsm *, fsm_state_t a, fsm_state_t b, void *o) -> int { ((G *)o)->e.push_back(std::make_tuple((int)a, 256, (int)b)); return 1; };
	REQ(c, fsm_walk_edges(f, &g, lit, eps) == 1, "walk", "failed"); std::sort(g.e.begin(), g.e.end()); REQ(c, g.e.size() == want.size() && std::equal(g.e.begin(), g.e.end(), want.begin()), "graph", "the edges are not those put in: " + std::to_string(g.e.size()) + " for " + std::to_string(want.size()));
	REQ(c, fsm_countstates(f) == (unsigned)n, "count", "states"); for (int i = 0; i < n; i++) REQ(c, !!fsm_isend(f, i) == !!ends.count(i), "end", std::to_string(i)); fsm_state_t gs; REQ(c, fsm_getstart(f, &gs) && (int)gs == st, "start", "moved"); size_t lits = 0; for (auto &e : want) lits += std::get<1>(e) < 256; (void)lits;
}
PBT_CASE(strings, 1, BIG) {
	RNG; Made m; int n = size_of(c, 50, SIZE(c, 600, 3000)), fl = (int)c.draw(4); Words x; gen_words(r, x, n, c.chance(1, 4) ? 256 : c.range(1, 8), c.range(3, 14), 100000); m.what = hdr("strings", n) + hdr(" flags", fl); SAY(m); sized(c, x.trie.n.size()); bool right = fl & RE_STRINGS_ANCHOR_RIGHT, left = fl & RE_STRINGS_ANCHOR_LEFT, ids = right;
	struct re_strings *g = re_strings_new(); for (size_t i = 0; i < x.w.size(); i++) { fsm_end_id_t id = x.id[i]; REQ(c, re_strings_add_raw(g, x.w[i].data(), x.w[i].size(), ids ? &id : nullptr), "add", "failed"); } Fsm f(re_strings_build(g, nullptr, (enum re_strings_flags)fl)); re_strings_free(g); REQ(c, f.f, "build", "failed");
	if (left && right) { compare(c, f, x.trie, true, "strings"); return; }
	for (int i = 0; i < 300; i++) { std::string w = near(r, x); if (rnd(r, 2)) w = near(r, x) + w; if (rnd(r, 3) == 0) w += near(r, x); U want; bool hit = false; for (size_t a = 0; a <= w.size(); a++) { if (left && a) break; int s = 0; for (size_t b = a; ; b++) { if (x.trie.n[s].end && (!right || b == w.size())) { hit = true; if (right) want.insert(x.trie.n[s].ids.begin(), x.trie.n[s].ids.end()); } if (b == w.size()) break; s = (int)x.trie.step(s, (unsigned char)w[b]); if (s < 0) break; } }
		fsm_state_t e; int got = ::fsmx::exec(f, w, &e); REQ(c, got == hit, "strings", pbt::show(w) + " gives " + std::to_string(got)); if (got == 1 && ids) REQ(c, ids_of(c, f, e) == want, "strings:ids", pbt::show(w)); }
}
PBT_CASE(alternatives, 1, BIG) { // long expressions
	RNG; Made m; int n = size_of(c, 30, SIZE(c, 1200, 4000)); Words x; gen_words(r, x, n, c.range(1, 8), c.range(3, 12), 0); int kind = (int)c.draw(3); std::string re; Trie t; t.alpha = x.trie.alpha; enum re_dialect d = c.chance(1, 2) ? RE_PCRE : RE_NATIVE; std::string E = d == RE_PCRE ? "\\z" : "$";
	if (kind == 0) { re = "^(" + std::string(d == RE_PCRE ? "?:" : ""); for (size_t i = 0; i < x.w.size(); i++) { if (i) re += "|"; re += x.w[i]; } re += ")" + E; t = x.trie; }
	else if (kind == 1) { std::string w; int len = size_of(c, 300, SIZE(c, 20000, 60000)); while ((int)w.size() < len) w += "abcdefgh"[rnd(r, 8)]; re = "^" + w + E; t.add(w, U()); t.alpha = "abcdefgh"; }
	else { int lo = (int)c.draw(40), hi = lo + c.range(1, 600); std::string u; int k = c.range(1, 3); while (k--) u += "ab"[rnd(r, 2)]; re = "^(" + u + "){" + std::to_string(lo) + "," + std::to_string(hi) + "}" + E; t.alpha = "ab"; std::string w; for (int i = 0; i < lo; i++) w += u; t.n[0].end = lo == 0; int s = 0; t.add(w, U()); (void)s; int cur = 0; for (unsigned char ch : w) cur = t.n[cur].to[ch]; for (int i = lo; i < hi; i++) { for (unsigned char ch : u) { int nx = (int)t.n.size(); t.n.emplace_back(); t.n[cur].to[ch] = nx; cur = nx; } t.n[cur].end = true; } t.n[0].end = lo == 0; }
	m.what = hdr("kind", kind) + hdr(" dialect", d) + hdr(" bytes", re.size()); SAY(m); sized(c, t.n.size()); struct re_err e; Fsm f(rex::comp(d, re, 0, &e)); REQ(c, f.f, "compile", std::string("refused: ") + re_strerror(e.e)); REQ(c, fsm_determinise(f), "determinise", "failed"); if (c.chance(1, 2)) { REQ(c, fsm_minimise(f), "minimise", "failed"); REQ(c, fsm_countstates(f) == t.minimal(), "minimal", std::to_string(fsm_countstates(f)) + " states, " + std::to_string(t.minimal()) + " suffice"); } compare(c, f, t, false, "language");
}
PBT_CASE(group, 1, BIG) { // a pattern group of very many patterns
	RNG; Made m; int n = size_of(c, 20, SIZE(c, 200, 400)); unsigned base = c.chance(1, 2) ? 0 : 4000000000u; Words x; int letters = c.range(3, 20); gen_words(r, x, n, letters, 6, 0); std::vector<std::string> pats; std::vector<int> an; m.what = hdr("patterns", n); for (auto &w : x.w) { int a = (int)c.weighted({2, 2, 4}); an.push_back(a); pats.push_back(a == 0 ? "^" + w : a == 1 ? w + "\\z" : "^" + w + "\\z"); } SAY(m); 
	std::vector<struct fsm *> fs; for (auto &p : pats) { struct re_err e; struct fsm *f = rex::comp(RE_PCRE, p, RE_SAVE_LINKAGE_INFO, &e); REQ(c, f, "compile", p); fs.push_back(f); } Fsm u(fsm_union_repeated_pattern_group(n, fs.data(), nullptr, base)); REQ(c, u.f, "group", "failed"); rex::determinise(c, u, 60000); sized(c, fsm_countstates(u)); if (c.chance(1, 2)) REQ(c, fsm_minimise(u) == 1, "minimise", "failed");
	D d = read(c, u); for (int i = 0; i < 200; i++) { std::string w = near(r, x); if (rnd(r, 2)) w = near(r, x) + w; U want; for (int k = 0; k < n; k++) { auto &p = x.w[k]; bool h = an[k] == 2 ? w == p : an[k] == 0 ? w.compare(0, p.size(), p) == 0 : w.size() >= p.size() && w.compare(w.size() - p.size(), p.size(), p) == 0; if (h) want.insert(base + k); }
		// ids of the final state and the eager outputs passed on the way
		U got; fsm_state_t e; int ok = ::fsmx::exec(u, w, &e); if (ok == 1) { got = ids_of(c, u, e); long s = d.start; auto out = [&](long s) { size_t k = fsm_eager_output_count(u, s); if (k) { std::vector<fsm_output_id_t> v(k); fsm_eager_output_get(u, s, k, v.data()); got.insert(v.begin(), v.end()); } }; out(s); for (unsigned char ch : w) { long t = -1; for (auto &q : d.to[s]) if (q.first == ch) t = q.second; if (t < 0) break; s = t; out(s); } }
		REQ(c, (ok == 1) == !want.empty(), "group", pbt::show(w) + " gives " + std::to_string(ok)); if (ok == 1) REQ(c, got == want, "group:ids", pbt::show(w) + " reports " + std::to_string(got.size()) + " patterns, " + std::to_string(want.size()) + " match" + [&] { std::string m; for (auto q : want) if (!got.count(q)) m += " missing " + pats[q - base]; for (auto q : got) if (!want.count(q)) m += " extra " + pats[q - base]; if (n < 40) for (auto &q : pats) m += " /" + q + "/"; return m; }()); }
}
PBT_CASE(text, 1, BIG) { // printed and read back
	RNG; Made m; make_dfa(c, r, m, SIZE(c, 70000, 140000), true); SAY(m); sized(c, m.big); struct fsm_options o; memset(&o, 0, sizeof o); o.ambig = AMBIG_MULTIPLE; o.consolidate_edges = c.chance(1, 2); o.anonymous_states = 0; char *b = nullptr; size_t n = 0; FILE *fp = open_memstream(&b, &n); int rc = fsm_print(fp, m.f, &o, nullptr, FSM_PRINT_FSM); fclose(fp); std::string s(b, n); free(b); REQ(c, rc == 0, "print", "failed");
	FILE *in = fmemopen((void *)s.data(), s.size(), "r"); struct fsm *g = fsm_parse(in, nullptr); fclose(in); REQ(c, g, "parse", "refused"); Fsm x(g); REQ(c, fsm_countstates(x) == fsm_countstates(m.f), "states", "count"); compare(c, x, *m.ref, true, "text");
}
PBT_CASE(shortest, 1, BIG) { // an example that is long, and the shortest of many
	RNG; Made m; Words x; int n = c.range(1, 60), base = size_of(c, 100, SIZE(c, 2000, 10000)); size_t best = SIZE_MAX; for (int i = 0; i < n; i++) { std::string w; int len = base + rnd(r, base / 4 + 2); if (i && rnd(r, 3)) w = x.w[rnd(r, i)].substr(0, rnd(r, base)); while ((int)w.size() < len) w += "abc"[rnd(r, 3)]; x.w.push_back(w); x.id.push_back(0); x.trie.add(w, U()); x.set[w]; best = std::min(best, w.size()); if (x.trie.n.size() > (size_t)SIZE(c, 8000, 30000)) break; } m.what = hdr("words of length", base); SAY(m); sized(c, x.trie.n.size());
	Fsm f(trie_fsm(c, r, x.trie)); fsm_state_t goal = 0; { std::string w; for (auto &p : x.w) if (p.size() == best) w = p; REQ(c, ::fsmx::exec(f, w, &goal) == 1, "exec", "not accepted"); std::vector<char> buf(best + 2, '~'); int k = fsm_example(f, goal, buf.data(), best + 1); REQ(c, k == (int)best, "example", "length " + std::to_string(k) + " for " + std::to_string(best)); REQ(c, std::string(buf.data(), best) == w && buf[best] == 0, "example", "not the word"); }
}
