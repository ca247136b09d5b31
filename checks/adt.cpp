// BUILD: variant=san internal=1
// Property: after any history of operations, every internal container has exactly the contents, order and iteration of a plain set, map or queue given the same operations.
#include <map>
#include <memory>
#include <unordered_map>
#include "fsmx.hpp"
extern "C" {
#define new new_
#include <adt/alloc.h>
#include <adt/bitmap.h>
#include <adt/hashrec.h>
#include <adt/hash.h>
#include <adt/idmap.h>
#include <adt/internedstateset.h>
#include <adt/path.h>
#include <adt/priq.h>
#include <adt/queue.h>
#include <adt/set.h>
#include <adt/stateset.h>
#include <adt/tupleset.h>
#include <adt/u64bitset.h>
#include <adt/xalloc.h>
#include "libfsm/internal.h"
#include <adt/edgeset.h>
#undef new
}
using namespace fsmx;
namespace {
typedef std::bitset<256> B256;
// an allocator which counts what it handed out, so that a container's leaks and foreign frees show
struct Mem { long live = 0; long calls = 0; };
void *m_malloc(void *o, size_t n) { ((Mem *)o)->live++; ((Mem *)o)->calls++; void *p = malloc(n ? n : 1); memset(p, 0xA5, n); return p; }
void *m_calloc(void *o, size_t a, size_t b) { ((Mem *)o)->live++; ((Mem *)o)->calls++; return calloc(a ? a : 1, b ? b : 1); }
void *m_realloc(void *o, void *p, size_t n) { if (!p) ((Mem *)o)->live++; ((Mem *)o)->calls++; return realloc(p, n ? n : 1); }
void m_free(void *o, void *p) { if (p) ((Mem *)o)->live--; free(p); }
struct Al { Mem m; struct fsm_alloc a; bool custom; Al(pbt::Ctx &c) { memset(&a, 0, sizeof a); a.malloc = m_malloc; a.calloc = m_calloc; a.realloc = m_realloc; a.free = m_free; a.opaque = &m; custom = !c.chance(1, 4); } const struct fsm_alloc *get() const { return custom ? &a : NULL; } void done(pbt::Ctx &c) { if (custom && m.live) c.fail("leak", std::to_string(m.live) + " allocations outlive the container"); } };
struct Log { std::string s; void operator()(const std::string &x) { s += x; s += "; "; } };
std::string S(uint64_t x) { return std::to_string(x); }

B256 gen_syms(pbt::Ctx &c, bool zero) {
	B256 b; switch (c.weighted({4, 2, 2, 1, 1, zero ? 1u : 0u})) {
	case 0: { int k = c.range(1, 4); while (k--) b.set("abcdef"[c.draw(6)]); break; }
	case 1: { static const int e[] = {0, 1, 31, 32, 63, 64, 65, 127, 128, 191, 192, 254, 255}; int k = c.range(1, 3); while (k--) b.set(e[c.draw(13)]); break; }
	case 2: { int lo = c.range(0, 255), hi = c.range(lo, 255); for (int i = lo; i <= hi; i++) b.set(i); break; }
	case 3: b.set(); break;
	case 4: for (int i = 0; i < 256; i++) if (c.chance(1, 3)) b.set(i); if (b.none()) b.set(0); break;
	case 5: break; }
	return b;
}
void words(const B256 &b, uint64_t w[4]) { for (int i = 0; i < 4; i++) { w[i] = 0; for (int j = 0; j < 64; j++) if (b[i * 64 + j]) w[i] |= (uint64_t)1 << j; } }
B256 unwords(const uint64_t w[4]) { B256 b; for (int i = 0; i < 256; i++) if (w[i / 64] >> (i & 63) & 1) b.set(i); return b; }

// states: a small pool with dense and sparse values
struct Pool { std::vector<fsm_state_t> v; Pool(pbt::Ctx &c, int maxn, fsm_state_t top) { int n = 1 + (int)c.draw(maxn); int mode = (int)c.weighted({4, 2, 1}); for (int i = 0; i < n; i++) v.push_back(mode == 0 ? (fsm_state_t)i : mode == 1 ? (fsm_state_t)c.draw(top) : (fsm_state_t)(c.draw(8) << c.draw(20)) % top); } fsm_state_t operator()(pbt::Ctx &c) const { return v[c.draw(v.size())]; } };
struct Remap { std::map<fsm_state_t, fsm_state_t> m; };
fsm_state_t remap_cb(fsm_state_t id, const void *o) { auto &m = ((const Remap *)o)->m; auto it = m.find(id); return it == m.end() ? id : it->second; }
Remap gen_remap(pbt::Ctx &c, const std::set<fsm_state_t> &s, const Pool &p, bool merge) {
	Remap r; int mode = (int)c.weighted({2, 2, 2, 1}); fsm_state_t next = 0; 
	for (fsm_state_t x : s) { if (mode == 3 || c.chance(1, 5)) { if (mode != 3 || c.chance(3, 4)) { r.m[x] = FSM_STATE_REMAP_NO_STATE; continue; } }
		if (mode == 0) r.m[x] = next++; else if (mode == 1 && merge) r.m[x] = p(c); else if (mode == 1) r.m[x] = 1000 - next++; else if (mode == 2) r.m[x] = x; else r.m[x] = x; }
	return r;
}
} // namespace

/* --- edge sets ------------------------------------------------------- */
namespace {
typedef std::map<fsm_state_t, B256> EM; // no empty sets
struct EX { pbt::Ctx &c; Log &log; std::string what(const std::string &m) { return m + " after " + log.s; } };
void canon(EM &m) { for (auto it = m.begin(); it != m.end();) if (it->second.none()) it = m.erase(it); else ++it; }
void ecompare(EX &x, const struct edge_set *s, const EM &m, bool full) {
	pbt::Ctx &c = x.c; size_t n = 0; B256 any, dup; for (auto &p : m) { n += p.second.count(); dup |= any & p.second; any |= p.second; }
	size_t got = edge_set_count(s); REQ(c, got == n, "edge-count", x.what("edge_set_count gives " + S(got) + ", expected " + S(n)));
	REQ(c, !!edge_set_empty(s) == (n == 0), "edge-empty", x.what("edge_set_empty is wrong"));
	EM g; struct edge_iter it; struct fsm_edge e; edge_set_reset(s, &it); size_t k = 0;
	while (edge_set_next(&it, &e)) { REQ(c, !g[e.state][e.symbol], "edge-next-twice", x.what("edge_set_next yields an edge twice")); g[e.state].set(e.symbol); if (++k > n) break; }
	REQ(c, g == m, "edge-next", x.what("edge_set_next does not yield exactly the edges"));
	{ // ordered: by symbol, each symbol's destinations once
		int from = full && c.chance(1, 2) ? c.range(0, 255) : 0; struct edge_ordered_iter oi; if (from == 0 && c.chance(1, 2)) edge_set_ordered_iter_reset(s, &oi); else edge_set_ordered_iter_reset_to(s, &oi, (unsigned char)from);
		EM h, w; for (auto &p : m) for (int i = from; i < 256; i++) if (p.second[i]) w[p.first].set(i);
		int last = -1; std::set<fsm_state_t> seen; size_t q = 0; while (edge_set_ordered_iter_next(&oi, &e)) { REQ(c, (int)e.symbol >= last, "ordered-order", x.what("the ordered iterator goes back")); if ((int)e.symbol != last) seen.clear(); last = e.symbol; REQ(c, seen.insert(e.state).second, "ordered-twice", x.what("the ordered iterator yields an edge twice")); h[e.state].set(e.symbol); if (++q > n) break; }
		REQ(c, h == w, "ordered", x.what("the ordered iterator from " + S(from) + " does not yield exactly the edges"));
		REQ(c, !edge_set_ordered_iter_next(&oi, &e), "ordered-end", x.what("the ordered iterator yields an edge after its end")); }
	{ struct edge_group_iter gi; struct edge_group_iter_info info; edge_set_group_iter_reset(s, EDGE_GROUP_ITER_ALL, &gi); std::vector<std::pair<fsm_state_t, B256>> v; while (edge_set_group_iter_next(&gi, &info)) { v.push_back({info.to, unwords(info.symbols)}); if (v.size() > m.size() + 2) break; }
		REQ(c, (v == std::vector<std::pair<fsm_state_t, B256>>(m.begin(), m.end())), "group-all", x.what("the group iterator does not yield each destination with its symbols in order")); }
	{ struct edge_group_iter gi; struct edge_group_iter_info info; edge_set_group_iter_reset(s, EDGE_GROUP_ITER_UNIQUE, &gi); std::vector<std::tuple<fsm_state_t, int, std::string>> v, w; while (edge_set_group_iter_next(&gi, &info)) { v.push_back(std::make_tuple((fsm_state_t)info.to, (int)!!info.unique, unwords(info.symbols).to_string())); if (v.size() > 2 * m.size() + 2) break; }
		for (auto &p : m) { B256 u = p.second & ~dup, d = p.second & dup; if (u.any()) w.push_back(std::make_tuple(p.first, 1, u.to_string())); if (d.any()) w.push_back(std::make_tuple(p.first, 0, d.to_string())); }
		REQ(c, v == w, "group-unique", x.what("the unique group iterator does not split each destination's symbols into unique and shared")); }
	struct bm bm; B256 pre; bm_clear(&bm); if (full && c.chance(1, 3)) { pre = gen_syms(c, true); for (int i = 0; i < 256; i++) if (pre[i]) bm_set(&bm, i); }
	int nd = edge_set_hasnondeterminism(s, &bm); REQ(c, !!nd == ((dup | (pre & any)).any()), "nondeterminism", x.what("edge_set_hasnondeterminism gives " + S(nd)));
	if (!nd) for (int i = 0; i < 256; i++) REQ(c, !!bm_get(&bm, i) == (pre[i] || any[i]), "nondeterminism-bm", x.what("edge_set_hasnondeterminism leaves other symbols in the bitmap"));
	std::vector<int> probe; for (int i = 0; i < 256; i += full ? 1 : 17) probe.push_back(i); for (int ch : {97, 98, 102, 63, 64, 255}) probe.push_back(ch);
	for (int i : probe) {
		REQ(c, !!edge_set_contains(s, (unsigned char)i) == any[i], "contains", x.what("edge_set_contains(" + S(i) + ") is wrong"));
		e.state = 0; e.symbol = 0; int r = edge_set_find(s, (unsigned char)i, &e); REQ(c, !!r == any[i], "find", x.what("edge_set_find(" + S(i) + ") is wrong"));
		if (r) { auto f = m.find(e.state); REQ(c, e.symbol == i && f != m.end() && f->second[i], "find-edge", x.what("edge_set_find yields an edge that is not there")); }
		fsm_state_t to = 12345; r = edge_set_transition(s, (unsigned char)i, &to); REQ(c, !!r == any[i], "transition", x.what("edge_set_transition is wrong"));
		if (r) { auto f = m.find(to); REQ(c, f != m.end() && f->second[i], "transition-edge", x.what("edge_set_transition yields a state that is not there")); }
	}
}
}
PBT_CASE(edge_set, 10, "at least three edge groups at some point, an operation that renumbers, merges or removes, and five operations")
{
	Log log; EX x{c, log}; Al al(c); Pool pool(c, c.chance(1, 5) ? 60 : 10, 1u << 20); bool big = false, mut = false;
	const int N = 2; struct edge_set *s[N]; EM m[N]; for (auto &p : s) p = edge_set_new();
	int ops = 1 + (int)c.small(40), done = 0;
	struct G { struct edge_set **s; const struct fsm_alloc *a; ~G() { for (int i = 0; i < N; i++) edge_set_free(a, s[i]); } };
	{ G g{s, al.get()};
	for (int o = 0; o < ops; o++) {
		int k = (int)c.draw(N); struct edge_set *&t = s[k]; EM &mm = m[k]; std::string nm = "s" + S(k) + ".";
		switch (c.weighted({8, 6, 2, 1, 2, 2, 2, 1, 2, 2, 1})) {
		case 0: { fsm_state_t st = pool(c); unsigned char y = c.chance(1, 3) ? (unsigned char)c.draw(256) : (unsigned char)"abcdef"[c.draw(6)]; log(nm + "add(" + S(y) + "," + S(st) + ")"); REQ(c, edge_set_add(&t, al.get(), y, st) == 1, "add", x.what("failed")); mm[st].set(y); break; }
		case 1: { fsm_state_t st = pool(c); B256 b = gen_syms(c, true); uint64_t w[4]; words(b, w); log(nm + "bulk(" + S(b.count()) + " symbols," + S(st) + ")"); REQ(c, edge_set_add_bulk(&t, al.get(), w, st) == 1, "add_bulk", x.what("failed")); if (b.any()) mm[st] |= b; break; }
		case 2: { struct state_set *ss = NULL; int n = c.range(0, 5); std::string d; unsigned char y = (unsigned char)"abcdef"[c.draw(6)]; while (n--) { fsm_state_t st = pool(c); REQ(c, state_set_add(&ss, al.get(), st) == 1, "state_set_add", "failed"); mm[st].set(y); d += " " + S(st); } log(nm + "states(" + S(y) + "," + d + ")"); int r = edge_set_add_state_set(&t, al.get(), y, ss); state_set_free(ss); REQ(c, r == 1, "add_state_set", x.what("failed")); break; }
		case 3: { size_t n = c.chance(1, 3) ? 0 : c.draw(70); log(nm + "advise(" + S(n) + ")"); REQ(c, edge_set_advise_growth(&t, al.get(), n) == 1, "advise", x.what("failed")); break; }
		case 4: { unsigned char y = c.chance(1, 4) ? (unsigned char)c.draw(256) : (unsigned char)"abcdef"[c.draw(6)]; log(nm + "remove(" + S(y) + ")"); edge_set_remove(&t, y); for (auto &p : mm) p.second.reset(y); mut = true; break; }
		case 5: { fsm_state_t st = pool(c); log(nm + "remove_state(" + S(st) + ")"); edge_set_remove_state(&t, st); mm.erase(st); mut = true; break; }
		case 6: { fsm_state_t a = pool(c), b = pool(c); log(nm + "replace(" + S(a) + "," + S(b) + ")"); REQ(c, edge_set_replace_state(&t, al.get(), a, b) == 1, "replace", x.what("failed")); if (mm.count(a)) { B256 v = mm[a]; mm.erase(a); mm[b] |= v; } mut = true; break; }
		case 7: { fsm_state_t b = (fsm_state_t)c.draw(9); log(nm + "rebase(" + S(b) + ")"); edge_set_rebase(&t, b); EM n; for (auto &p : mm) n[p.first + b] = p.second; mm = n; mut = true; break; }
		case 8: { canon(mm); std::set<fsm_state_t> dom; for (auto &p : mm) dom.insert(p.first); for (auto v : pool.v) dom.insert(v); Remap r = gen_remap(c, dom, pool, true); std::string d; for (auto &p : mm) d += " " + S(p.first) + "->" + (r.m[p.first] == FSM_STATE_REMAP_NO_STATE ? "none" : S(r.m[p.first])); log(nm + "compact(" + d + ")"); REQ(c, edge_set_compact(&t, al.get(), remap_cb, &r) == 1, "compact", x.what("failed")); EM n; for (auto &p : mm) { fsm_state_t q = r.m[p.first]; if (q != FSM_STATE_REMAP_NO_STATE) n[q] |= p.second; } mm = n; mut = true; break; }
		case 9: { int j = 1 - k; log(nm + "copy(s" + S(j) + ")"); REQ(c, edge_set_copy(&t, al.get(), s[j]) == 1, "copy", x.what("failed")); for (auto &p : m[j]) mm[p.first] |= p.second; break; }
		case 10: log(nm + "free"); edge_set_free(al.get(), t); t = edge_set_new(); mm.clear(); break;
		}
		canon(mm); if (mm.size() >= 3) big = true; done++;
		bool full = c.chance(1, 8) || o + 1 == ops; for (int j = 0; j < N; j++) ecompare(x, s[j], m[j], full && j == k);
		if (full && !mm.empty()) { // destinations grouped by equivalence class, as minimisation asks; needs determinism
			EM d = mm; B256 seen; bool det = true; fsm_state_t top = 0; for (auto &p : d) { if ((seen & p.second).any()) det = false; seen |= p.second; top = std::max(top, p.first); }
			// groups without symbols may linger: their destinations need a class too
			for (auto v : pool.v) top = std::max(top, v); if (det && top < 3000) { std::vector<fsm_state_t> ec(4096, 77); for (auto &p : d) ec[p.first] = (fsm_state_t)c.draw(3);
				for (int i = 0; i < 256; i += 1 + (int)c.draw(3)) { fsm_state_t to = 0; uint64_t w[4] = {~0ull, 1, 2, 3}; int r = edge_set_check_edges_with_EC_mapping(t, (unsigned char)i, ec.size(), ec.data(), &to, w);
					REQ(c, !!r == seen[i], "ec-found", x.what("edge_set_check_edges_with_EC_mapping is wrong about an edge")); B256 want; if (r) { auto f = d.find(to); REQ(c, f != d.end() && f->second[i], "ec-to", x.what("edge_set_check_edges_with_EC_mapping yields another state")); for (auto &p : d) if (ec[p.first] == ec[to]) want |= p.second; }
					REQ(c, unwords(w) == want, "ec-labels", x.what("edge_set_check_edges_with_EC_mapping yields other labels")); } }
			c.count("classes asked for"); }
	} }
	c.describe([&](std::ostream &o) { o << log.s; });
	al.done(c); if (big) c.count("three groups"); if (big && mut && done >= 5) c.nontrivial();
}

/* --- state sets ------------------------------------------------------ */
namespace {
int odd(const struct fsm *, fsm_state_t s) { return s & 1; }
std::string list(const std::set<fsm_state_t> &s) { std::string r; for (auto x : s) r += " " + S(x); return r; }
void scompare(pbt::Ctx &c, const std::string &log, const struct state_set *s, const std::set<fsm_state_t> &m, const Pool &pool, struct fsm *f) {
	std::string after = " after " + log;
	REQ(c, state_set_count(s) == m.size(), "state-count", "state_set_count gives " + S(state_set_count(s)) + ", expected " + S(m.size()) + after);
	REQ(c, !!state_set_empty(s) == m.empty(), "state-empty", "state_set_empty is wrong" + after);
	std::vector<fsm_state_t> v; struct state_iter it; fsm_state_t x; state_set_reset(s, &it); while (state_set_next(&it, &x)) { v.push_back(x); if (v.size() > m.size()) break; }
	REQ(c, (v == std::vector<fsm_state_t>(m.begin(), m.end())), "state-next", "state_set_next does not yield exactly the states in order" + after);
	for (auto p : pool.v) for (fsm_state_t q : {p, p + 1}) REQ(c, !!state_set_contains(s, q) == (m.count(q) > 0), "state-contains", "state_set_contains(" + S(q) + ") is wrong" + after);
	if (m.size() == 1) REQ(c, state_set_only(s) == *m.begin(), "state-only", "state_set_only is wrong" + after);
	if (m.size() > 1) { const fsm_state_t *a = state_set_array(s); REQ(c, a && std::equal(m.begin(), m.end(), a), "state-array", "state_set_array is wrong" + after); }
	bool any = false; for (auto q : m) if (q & 1) any = true; REQ(c, !!state_set_has(f, s, odd) == any, "state-has", "state_set_has is wrong" + after);
}
}
PBT_CASE(state_set, 10, "at least three states at some point and five operations")
{
	Log log; Al al(c); bool wide = c.chance(1, 5); Pool pool(c, wide ? 200 : 12, 1u << 30); const int N = 3; struct state_set *s[N] = {0, 0, 0}; std::set<fsm_state_t> m[N]; bool big = false; int done = 0;
	struct fsm *f = fsm_new(NULL); REQ(c, f, "fsm_new", "failed");
	struct G { struct state_set **s; struct fsm *f; ~G() { for (int i = 0; i < N; i++) state_set_free(s[i]); fsm_free(f); } };
	{ G g{s, f}; int ops = 1 + (int)c.small(40);
	for (int o = 0; o < ops; o++) {
		int k = (int)c.draw(N); struct state_set *&t = s[k]; auto &mm = m[k]; std::string nm = "s" + S(k) + ".";
		switch (c.weighted({8, 4, 2, 2, 3, 1, 2, 1})) {
		case 0: { fsm_state_t x = pool(c); log(nm + "add(" + S(x) + ")"); REQ(c, state_set_add(&t, al.get(), x) == 1, "sadd", "failed after " + log.s); mm.insert(x); break; }
		case 1: { int n = c.chance(1, 6) ? c.range(0, 1) : c.range(2, wide ? 40 : 12); std::vector<fsm_state_t> a; std::string d; while (n--) { a.push_back(pool(c)); d += " " + S(a.back()); } size_t len = a.size(); a.push_back(0); log(nm + "bulk(" + d + ")"); REQ(c, state_set_add_bulk(&t, al.get(), a.data(), len) == 1, "sbulk", "failed after " + log.s); mm.insert(a.begin(), a.begin() + len); break; }
		case 2: { int j = (int)c.draw(N); if (j == k) break; log(nm + "copy(s" + S(j) + ")"); REQ(c, state_set_copy(&t, al.get(), s[j]) == 1, "scopy", "failed after " + log.s); mm.insert(m[j].begin(), m[j].end()); break; }
		case 3: { Remap r = gen_remap(c, mm, pool, true); if (t == NULL) break; std::string d; for (auto p : mm) d += " " + S(p) + "->" + (r.m[p] == FSM_STATE_REMAP_NO_STATE ? "none" : S(r.m[p])); log(nm + "compact(" + d + ")"); state_set_compact(&t, remap_cb, &r); std::set<fsm_state_t> n; for (auto p : mm) if (r.m[p] != FSM_STATE_REMAP_NO_STATE) n.insert(r.m[p]); mm = n; break; }
		case 4: { fsm_state_t x = pool(c); log(nm + "remove(" + S(x) + ")"); state_set_remove(&t, x); mm.erase(x); break; }
		case 5: { fsm_state_t b = (fsm_state_t)c.draw(9); log(nm + "rebase(" + S(b) + ")"); state_set_rebase(&t, b); std::set<fsm_state_t> n; for (auto p : mm) n.insert(p + b); mm = n; break; }
		case 6: { fsm_state_t a = pool(c), b = pool(c); log(nm + "replace(" + S(a) + "," + S(b) + ")"); state_set_replace(&t, a, b); if (mm.erase(a)) mm.insert(b); break; }
		case 7: log(nm + "free"); state_set_free(t); t = NULL; mm.clear(); break;
		}
		done++; if (mm.size() >= 3) big = true;
		for (int j = 0; j < N; j++) scompare(c, log.s, s[j], m[j], pool, f);
		int sg[N][N]; for (int i = 0; i < N; i++) for (int j = 0; j < N; j++) { sg[i][j] = 9; if (!s[i] || !s[j]) continue; int r = state_set_cmp(s[i], s[j]); sg[i][j] = r < 0 ? -1 : r > 0; REQ(c, (r == 0) == (m[i] == m[j]), "cmp-equal", "state_set_cmp gives " + S(r) + " for {" + list(m[i]) + "} and {" + list(m[j]) + "} after " + log.s); }
		for (int i = 0; i < N; i++) for (int j = 0; j < N; j++) if (sg[i][j] != 9) { REQ(c, sg[i][j] == -sg[j][i], "cmp-antisymmetric", "state_set_cmp is not antisymmetric after " + log.s); for (int l = 0; l < N; l++) if (sg[j][l] != 9 && sg[i][j] < 0 && sg[j][l] < 0) REQ(c, sg[i][l] < 0, "cmp-transitive", "state_set_cmp is not transitive after " + log.s); }
	} }
	c.describe([&](std::ostream &o) { o << log.s; });
	al.done(c); if (big) c.count("three states"); if (big && done >= 5) c.nontrivial();
}

/* --- bitmaps --------------------------------------------------------- */
namespace {
int hexput(FILE *f, const struct fsm_options *, char ch) { return fprintf(f, "\\x%02X", (unsigned char)ch); }
// what the printed class denotes
bool readclass(const std::string &s, B256 &b) {
	b.reset(); if (s == "/./") { b.set(); return true; }
	size_t i = 0; bool box = false, inv = false; auto one = [&](int &v) { if (i + 4 > s.size() || s[i] != '\\' || s[i + 1] != 'x') return false; v = (int)strtol(s.substr(i + 2, 2).c_str(), NULL, 16); i += 4; return true; };
	int lo, hi; if (i < s.size() && s[i] == '[') { box = true; i++; if (i < s.size() && s[i] == '^') { inv = true; i++; } }
	if (!box) { if (!one(lo)) return false; b.set(lo); return i == s.size(); }
	while (i < s.size() && s[i] != ']') { if (!one(lo)) return false; hi = lo; if (i < s.size() && s[i] == '-') { i++; if (!one(hi)) return false; if (hi < lo) return false; } for (int k = lo; k <= hi; k++) b.set(k); }
	if (i + 1 != s.size()) return false; if (inv) b.flip(); return true;
}
}
PBT_CASE(bitmap, 4, "a bitmap neither empty nor full, or an inverted one")
{
	Log log; struct bm b[2]; B256 m[2]; bool nt = false; for (auto &x : b) bm_clear(&x); int ops = 1 + (int)c.small(20);
	for (int o = 0; o < ops; o++) {
		int k = (int)c.draw(2); struct bm *t = &b[k]; B256 &mm = m[k]; std::string nm = "b" + S(k) + ".";
		switch (c.weighted({3, 3, 2, 3, 1, 2, 2, 1, 2})) {
		case 0: { int i = c.range(0, 255); log(nm + "set(" + S(i) + ")"); bm_set(t, i); mm.set(i); break; }
		case 1: { B256 s = gen_syms(c, true); log(nm + "set " + S(s.count())); for (int i = 0; i < 256; i++) if (s[i]) bm_set(t, i); mm |= s; break; }
		case 2: { int i = c.range(0, 255); log(nm + "unset(" + S(i) + ")"); bm_unset(t, i); mm.reset(i); break; }
		case 3: log(nm + "invert"); bm_invert(t); mm.flip(); nt = true; break;
		case 4: log(nm + "clear"); bm_clear(t); mm.reset(); break;
		case 5: log(nm + "union"); bm_union(t, &b[1 - k]); mm |= m[1 - k]; break;
		case 6: log(nm + "intersect"); bm_intersect(t, &b[1 - k]); mm &= m[1 - k]; break;
		case 7: log(nm + "copy"); bm_copy(t, &b[1 - k]); mm = m[1 - k]; break;
		case 8: { B256 s = gen_syms(c, true); uint64_t w[4]; words(s, w); log(nm + "words |= " + S(s.count())); for (int i = 0; i < 4; i++) { uint64_t *p = bm_nth_word(t, i); REQ(c, p, "nth_word", "bm_nth_word(" + S(i) + ") is NULL"); *p |= w[i]; } mm |= s; break; }
		}
		for (int j = 0; j < 2; j++) {
			for (int i = 0; i < 256; i++) REQ(c, !!bm_get(&b[j], i) == m[j][i], "bm-get", "bm_get(" + S(i) + ") is wrong after " + log.s);
			unsigned n = bm_count(&b[j]); REQ(c, n == m[j].count(), "bm-count", "bm_count gives " + S(n) + ", expected " + S(m[j].count()) + " after " + log.s);
			REQ(c, !!bm_any(&b[j]) == m[j].any(), "bm-any", "bm_any is wrong after " + log.s);
		}
		for (int v = 0; v < 2; v++) { int at = c.range(-1, 255); int want = 256; for (int i = at + 1; i < 256; i++) if (m[k][i] == (v != 0)) { want = i; break; } size_t got = bm_next(t, at, v); REQ(c, got == (size_t)want, "bm-next", "bm_next(" + S(at + 0ll) + "," + S(v) + ") gives " + S(got) + ", expected " + S(want) + " after " + log.s); }
		uint64_t w[4]; words(mm, w); for (int i = 0; i < 4; i++) REQ(c, *bm_nth_word(t, i) == w[i], "bm-word", "bm_nth_word(" + S(i) + ") holds other bits after " + log.s);
		REQ(c, bm_nth_word(t, 1000) == NULL, "bm-word-bound", "bm_nth_word(1000) is not NULL");
		if (mm.any() && !mm.all()) nt = true;
	}
	{ int k = (int)c.draw(2), boxed = c.chance(1, 2); char *buf = NULL; size_t len = 0; FILE *f = open_memstream(&buf, &len); int r = bm_print(f, NULL, &b[k], boxed, hexput); fclose(f); std::string s(buf, len); free(buf);
		log("print"); B256 back; bool ok = readclass(s, back); REQ(c, ok && back == m[k], "bm-print", "bm_print gives " + s + ", which is not the set, after " + log.s); REQ(c, r == (int)len, "bm-print-length", "bm_print returns " + S(r) + " for " + S(len) + " bytes after " + log.s);
		REQ(c, !boxed || s[0] == '[', "bm-print-boxed", "a boxed bitmap printed as " + s);
		if (c.chance(1, 20)) { std::vector<char> o(len + 1 + c.draw(4), 'Z'); int q = bm_snprint(&b[k], NULL, o.data(), o.size(), boxed, hexput); REQ(c, q == (int)len && s == o.data(), "bm-snprint", "bm_snprint differs from bm_print after " + log.s); c.count("snprint"); } }
	c.describe([&](std::ostream &o) { o << log.s; });
	if (nt) c.nontrivial();
}

/* --- id maps --------------------------------------------------------- */
namespace { void id_cb(fsm_state_t s, unsigned v, void *o) { ((std::vector<std::pair<fsm_state_t, unsigned>> *)o)->push_back({s, v}); } }
PBT_CASE(idmap, 5, "at least two states, or a value of 63 or more, in the map")
{
	Log log; Al al(c); struct idmap *m = idmap_new(al.get()); REQ(c, m, "idmap_new", "failed"); std::map<fsm_state_t, std::set<unsigned>> mm; Pool pool(c, c.chance(1, 4) ? 200 : 12, 1u << 28);
	{ struct G { struct idmap *m; ~G() { idmap_free(m); } } g{m};
	int ops = 1 + (int)c.small(60); unsigned top = (unsigned)c.pick(std::vector<int>{3, 63, 64, 65, 130, 600});
	for (int o = 0; o < ops; o++) { fsm_state_t s = pool(c); unsigned v = c.chance(1, 5) ? (unsigned)c.pick(std::vector<int>{0, 63, 64, 127, 128, 192}) : (unsigned)c.draw(top + 1); log("set(" + S(s) + "," + S(v) + ")"); REQ(c, idmap_set(m, s, v) == 1, "idmap_set", "failed after " + log.s); mm[s].insert(v);
		if (c.chance(1, 4) || o + 1 == ops) {
			std::vector<std::pair<fsm_state_t, unsigned>> all, want; idmap_iter(m, id_cb, &all); for (auto &p : mm) for (unsigned x : p.second) want.push_back({p.first, x});
			{ std::map<fsm_state_t, unsigned> lastv; for (auto &p : all) { auto it = lastv.find(p.first); REQ(c, it == lastv.end() || it->second < p.second, "idmap-order", "idmap_iter yields values out of order after " + log.s); lastv[p.first] = p.second; } }
			std::sort(all.begin(), all.end()); REQ(c, all == want, "idmap-iter", "idmap_iter does not yield exactly the pairs after " + log.s);
			for (auto q : pool.v) { auto it = mm.find(q); std::vector<unsigned> w; if (it != mm.end()) w.assign(it->second.begin(), it->second.end());
				REQ(c, idmap_get_value_count(m, q) == w.size(), "idmap-count", "idmap_get_value_count(" + S(q) + ") is wrong after " + log.s);
				std::unique_ptr<unsigned[]> buf(new unsigned[w.size() + 1]); std::unique_ptr<unsigned[]> exact(new unsigned[w.size() ? w.size() : 1]); size_t n = 999;
				REQ(c, idmap_get(m, q, w.size() * sizeof(unsigned), exact.get(), &n) == 1 && n == w.size() && std::equal(w.begin(), w.end(), exact.get()), "idmap-get", "idmap_get(" + S(q) + ") is wrong after " + log.s);
				if (!w.empty()) { std::unique_ptr<unsigned[]> sm(new unsigned[w.size()]); REQ(c, idmap_get(m, q, (w.size() - 1) * sizeof(unsigned), sm.get(), NULL) == 0, "idmap-short", "idmap_get into a buffer that is too small succeeds after " + log.s); }
				std::vector<std::pair<fsm_state_t, unsigned>> one, wo; idmap_iter_for_state(m, q, id_cb, &one); for (unsigned x : w) wo.push_back({q, x}); REQ(c, one == wo, "idmap-iter-state", "idmap_iter_for_state(" + S(q) + ") is wrong after " + log.s); } } } }
	c.describe([&](std::ostream &o) { o << log.s; });
	al.done(c); bool hi = false; for (auto &p : mm) if (*p.second.rbegin() >= 63) hi = true; if (hi) c.count("high values"); if (mm.size() >= 2 || hi) c.nontrivial();
}

/* --- priority queue, queue, path ------------------------------------- */
PBT_CASE(priq, 4, "at least three nodes queued at once")
{
	Log log; Al al(c); struct priq *q = NULL, *moved = NULL; std::vector<struct priq *> order; std::set<struct priq *> out; bool nt = false; fsm_state_t next = 0; int span = c.chance(1, 3) ? 1000 : 5;
	struct G { struct priq **q, **m; const struct fsm_alloc *a; ~G() { priq_free(a, *q); priq_free(a, *m); } };
	{ G g{&q, &moved, al.get()}; int ops = 1 + (int)c.small(50); std::vector<std::pair<fsm_state_t, unsigned>> m; // in queue, model: multiset of (state, cost)
	for (int o = 0; o < ops; o++) switch (c.weighted({5, 3, 3, 2})) {
	case 0: { unsigned cost = (unsigned)c.draw(span); if (c.chance(1, 20)) cost = (unsigned)-1; struct priq *p = priq_push(al.get(), &q, next, cost); log("push(" + S(next) + "," + S(cost) + ")"); REQ(c, p && p->state == next && p->cost == cost, "push", "priq_push returns another node after " + log.s); m.push_back({next++, cost}); break; }
	case 1: { struct priq *p = priq_pop(&q); log("pop"); if (m.empty()) { REQ(c, p == NULL, "pop-empty", "priq_pop of an empty queue"); break; } REQ(c, p, "pop-null", "priq_pop yields nothing after " + log.s); unsigned lo = ~0u; for (auto &x : m) lo = std::min(lo, x.second); auto it = std::find(m.begin(), m.end(), std::make_pair(p->state, p->cost)); REQ(c, it != m.end(), "pop-unknown", "priq_pop yields a node that is not queued after " + log.s); bool min = p->cost == lo; m.erase(it); priq_move(&moved, p); REQ(c, min, "pop-order", "priq_pop yields cost " + S(p->cost) + " while " + S(lo) + " is queued, after " + log.s); break; }
	case 2: { if (m.empty()) break; auto &x = m[c.draw(m.size())]; struct priq *p = priq_find(q, x.first); REQ(c, p && p->state == x.first && p->cost == x.second, "find", "priq_find(" + S(x.first) + ") is wrong after " + log.s); unsigned cost = (unsigned)c.draw(span); log("update(" + S(x.first) + "," + S(cost) + ")"); p->cost = cost; priq_update(&q, p, cost); x.second = cost; break; }
	case 3: { fsm_state_t s = (fsm_state_t)c.draw(next + 2); bool in = false; for (auto &x : m) if (x.first == s) in = true; struct priq *p = priq_find(q, s); log("find(" + S(s) + ")"); REQ(c, (p != NULL) == in && (!p || p->state == s), "find", "priq_find(" + S(s) + ") is wrong after " + log.s); p = priq_find(moved, s); REQ(c, (p != NULL) == (!in && s < next), "find-moved", "priq_find among popped nodes is wrong after " + log.s); break; } 
	default: break; }
	size_t n = 0; unsigned prev = 0; for (struct priq *p = q; p; p = p->next) { n++; REQ(c, p->cost >= prev, "sorted", "the queue is out of order after " + log.s); prev = p->cost; REQ(c, n <= m.size(), "length", "too many nodes after " + log.s); } REQ(c, n == m.size(), "length", "a node is lost after " + log.s); if (next >= 3) nt = true; }
	c.describe([&](std::ostream &o) { o << log.s; });
	al.done(c); if (nt) c.nontrivial();
}
PBT_CASE(queue, 4, "the queue was full at some point after something was taken out")
{
	Log log; Al al(c); size_t cap = c.chance(1, 10) ? 0 : 1 + c.small(20); bool popped = false, nt = false; struct queue *q = queue_new(al.get(), cap); REQ(c, (q != NULL) == (cap > 0), "queue_new", "queue_new(" + S(cap) + ")"); if (!q) return; std::vector<fsm_state_t> m;
	{ struct G { struct queue *q; ~G() { queue_free(q); } } g{q}; int ops = 1 + (int)c.small(80);
	for (int o = 0; o < ops; o++) if (c.chance(3, 5)) { fsm_state_t s = (fsm_state_t)c.draw(1000); int r = queue_push(q, s); log("push(" + S(s) + ")"); REQ(c, !!r == (m.size() < cap), "queue-push", "queue_push gives " + S(r) + " with " + S(m.size()) + " of " + S(cap) + " used, after " + log.s); if (r) m.push_back(s); if (m.size() == cap && popped) nt = true; }
		else { fsm_state_t s = 4242; int r = queue_pop(q, &s); log("pop"); popped = true; REQ(c, !!r == !m.empty(), "queue-pop", "queue_pop gives " + S(r) + " after " + log.s); if (r) { REQ(c, s == m[0], "queue-order", "queue_pop yields " + S(s) + ", expected " + S(m[0]) + " after " + log.s); m.erase(m.begin()); } } }
	c.describe([&](std::ostream &o) { o << "capacity " << cap << ": " << log.s; });
	al.done(c); if (nt) c.nontrivial();
}
PBT_CASE(path, 1, "at least two steps")
{
	Al al(c); struct path *p = NULL; std::vector<std::pair<fsm_state_t, char>> m; int n = (int)c.small(20); for (int i = 0; i < n; i++) { fsm_state_t s = (fsm_state_t)c.draw(50); char ch = (char)c.draw(256); struct path *r = path_push(al.get(), &p, s, ch); REQ(c, r == p && r, "path_push", "path_push does not return the head"); m.push_back({s, ch}); }
	size_t i = m.size(); bool ok = true; for (struct path *q = p; q; q = q->next) { if (i == 0 || q->state != m[i - 1].first || q->c != m[i - 1].second) { ok = false; break; } i--; } path_free(al.get(), p); REQ(c, ok && i == 0, "path", "the path is not what was pushed"); al.done(c); if (n >= 2) c.nontrivial();
}

/* --- interned state sets --------------------------------------------- */
PBT_CASE(interned, 5, "at least three distinct sets of two or more states")
{
	Log log; Al al(c); bool many = c.chance(1, 8); Pool pool(c, many ? 60 : 10, 1u << 30); struct interned_state_set_pool *p = interned_state_set_pool_alloc(al.get()); REQ(c, p, "pool_alloc", "failed"); std::map<std::vector<fsm_state_t>, uint64_t> ids; std::map<uint64_t, std::vector<fsm_state_t>> back; size_t multi = 0;
	{ struct G { struct interned_state_set_pool *p; ~G() { interned_state_set_pool_free(p); } } g{p};
	int ops = many ? c.range(100, 900) : 1 + (int)c.small(40); int maxlen = c.chance(1, 5) ? 40 : 5; bool dense = c.chance(1, 3);
	for (int o = 0; o < ops; o++) {
		std::set<fsm_state_t> st; if (!ids.empty() && c.chance(1, 4)) { auto it = ids.begin(); std::advance(it, c.draw(ids.size())); st.insert(it->first.begin(), it->first.end()); } else if (dense) { fsm_state_t lo = (fsm_state_t)c.draw(40), n = (fsm_state_t)c.range(1, maxlen); for (fsm_state_t i = 0; i < n; i++) st.insert(lo + i); } else { int n = c.range(1, maxlen); while (n--) st.insert(pool(c)); }
		std::vector<fsm_state_t> v(st.begin(), st.end()); interned_state_set_id id = 0; log("intern(" + list(st) + ")"); bool r = interned_state_set_intern_set(p, v.size(), v.data(), &id); REQ(c, r, "intern", "failed");
		auto it = ids.find(v); if (it != ids.end()) REQ(c, it->second == id, "same-set", "the same set {" + list(st) + "} gets another id"); else { REQ(c, !back.count(id), "distinct-sets", "{" + list(st) + "} gets the id of another set"); ids[v] = id; back[id] = v; if (v.size() > 1) multi++; }
		if (c.chance(1, 3)) { auto b = back.begin(); std::advance(b, c.draw(back.size())); for (int rep = 0; rep < 2; rep++) { struct state_set *ss = interned_state_set_get_state_set(p, b->first); std::vector<fsm_state_t> w; struct state_iter si; fsm_state_t x; state_set_reset(ss, &si); while (state_set_next(&si, &x)) w.push_back(x); REQ(c, w == b->second, "get", "interned_state_set_get_state_set yields other states"); if (b->second.size() == 1) state_set_free(ss); } }
		if (c.chance(1, 20)) { auto b = back.begin(); std::advance(b, c.draw(back.size())); char *buf = NULL; size_t len = 0; FILE *f = open_memstream(&buf, &len); interned_state_set_dump(f, p, b->first); fclose(f); std::string got(buf, len), want; free(buf); for (auto x : b->second) want += " " + S(x); REQ(c, got == want, "dump", "interned_state_set_dump gives '" + got + "'"); }
	}
	for (auto &b : back) { struct state_set *ss = interned_state_set_get_state_set(p, b.first); std::vector<fsm_state_t> w; struct state_iter si; fsm_state_t x; state_set_reset(ss, &si); while (state_set_next(&si, &x)) w.push_back(x); if (b.second.size() == 1) state_set_free(ss); REQ(c, w == b.second, "get-end", "interned_state_set_get_state_set yields other states at the end"); } }
	c.describe([&](std::ostream &o) { o << log.s.substr(0, 2000); });
	al.done(c); if (multi > 128) c.count("more than 128 sets"); if (multi >= 3) c.nontrivial();
}

/* --- ordered sets of tuples ------------------------------------------ */
struct fsm_walk2_tuple { unsigned a, b; };
namespace { int tcmp(const void *x, const void *y) { auto *p = *(const struct fsm_walk2_tuple *const *)x, *q = *(const struct fsm_walk2_tuple *const *)y; if (p->a != q->a) return p->a < q->a ? -1 : 1; if (p->b != q->b) return p->b < q->b ? -1 : 1; return 0; } }
PBT_CASE(tuple_set, 4, "at least three tuples")
{
	struct tuple_set *t = tuple_set_create(NULL, tcmp); REQ(c, t, "create", "failed"); std::map<std::pair<unsigned, unsigned>, std::unique_ptr<fsm_walk2_tuple>> m; int n = (int)c.small(c.chance(1, 4) ? 150 : 30); unsigned k = (unsigned)c.range(2, 30);
	{ struct G { struct tuple_set *t; ~G() { tuple_set_free(t); } } g{t};
	for (int i = 0; i < n; i++) { std::unique_ptr<fsm_walk2_tuple> x(new fsm_walk2_tuple{(unsigned)c.draw(k), (unsigned)c.draw(k)}); auto key = std::make_pair(x->a, x->b); auto it = m.find(key);
		struct fsm_walk2_tuple *r = tuple_set_contains(t, x.get()); REQ(c, r == (it == m.end() ? NULL : it->second.get()), "tuple-contains", "tuple_set_contains is wrong");
		if (c.chance(2, 3)) { r = tuple_set_add(t, x.get()); REQ(c, r != NULL, "tuple-add", "failed"); if (it == m.end()) { REQ(c, r == x.get(), "tuple-add", "adds another item"); m[key] = std::move(x); } } }
	for (unsigned a = 0; a < k; a++) for (unsigned b = 0; b < k; b++) { struct fsm_walk2_tuple x = {a, b}; auto it = m.find({a, b}); REQ(c, tuple_set_contains(t, &x) == (it == m.end() ? NULL : it->second.get()), "tuple-final", "tuple_set_contains is wrong at the end"); } }
	if (m.size() >= 3) c.nontrivial();
}

/* --- hashing and bit sets -------------------------------------------- */
namespace {
// SipHash-2-4 as published (Aumasson and Bernstein, 2012)
uint64_t rotl(uint64_t x, int b) { return x << b | x >> (64 - b); }
uint64_t sip24(const unsigned char *in, size_t n, uint64_t k0, uint64_t k1) {
	uint64_t v0 = k0 ^ 0x736f6d6570736575ull, v1 = k1 ^ 0x646f72616e646f6dull, v2 = k0 ^ 0x6c7967656e657261ull, v3 = k1 ^ 0x7465646279746573ull;
	auto round = [&]() { v0 += v1; v1 = rotl(v1, 13); v1 ^= v0; v0 = rotl(v0, 32); v2 += v3; v3 = rotl(v3, 16); v3 ^= v2; v0 += v3; v3 = rotl(v3, 21); v3 ^= v0; v2 += v1; v1 = rotl(v1, 17); v1 ^= v2; v2 = rotl(v2, 32); };
	size_t i = 0; for (; i + 8 <= n; i += 8) { uint64_t m = 0; for (int j = 0; j < 8; j++) m |= (uint64_t)in[i + j] << (8 * j); v3 ^= m; round(); round(); v0 ^= m; }
	uint64_t b = (uint64_t)n << 56; for (size_t j = 0; i + j < n; j++) b |= (uint64_t)in[i + j] << (8 * j); v3 ^= b; round(); round(); v0 ^= b; v2 ^= 0xff; for (int j = 0; j < 4; j++) round(); return v0 ^ v1 ^ v2 ^ v3;
}
extern "C" int siphash(const unsigned char *in, const size_t inlen, const unsigned char *k, unsigned char *out, const size_t outlen);
}
PBT_CASE(hashes, 2, "at least eight bytes")
{
	size_t n = c.small(40); std::unique_ptr<unsigned char[]> d(new unsigned char[n ? n : 1]); for (size_t i = 0; i < n; i++) d[i] = (unsigned char)c.draw(256); unsigned char k[16]; for (auto &x : k) x = (unsigned char)c.draw(256); uint64_t k0 = 0, k1 = 0; for (int i = 0; i < 8; i++) { k0 |= (uint64_t)k[i] << (8 * i); k1 |= (uint64_t)k[8 + i] << (8 * i); }
	unsigned char out[8]; siphash(d.get(), n, k, out, 8); uint64_t got = 0; for (int i = 0; i < 8; i++) got |= (uint64_t)out[i] << (8 * i); REQ(c, got == sip24(d.get(), n, k0, k1), "siphash", "siphash is not SipHash-2-4 of the bytes"); 
	std::unique_ptr<unsigned char[]> e(new unsigned char[n ? n : 1]); memcpy(e.get(), d.get(), n); REQ(c, hashrec(d.get(), n) == hashrec(e.get(), n), "hashrec", "hashrec of equal bytes differs");
	// bare bit sets
	size_t bits = 1 + c.draw(300), nw = u64bitset_words(bits); REQ(c, nw == (bits + 63) / 64, "words", "u64bitset_words(" + S(bits) + ") gives " + S(nw)); std::unique_ptr<uint64_t[]> w(new uint64_t[nw]()); std::set<size_t> m; for (int o = 0, ops = (int)c.small(30); o < ops; o++) { size_t i = c.chance(1, 4) ? bits - 1 : c.draw(bits); if (c.chance(1, 3)) { u64bitset_clear(w.get(), i); m.erase(i); } else { u64bitset_set(w.get(), i); m.insert(i); } }
	size_t pop = 0; for (size_t i = 0; i < nw; i++) pop += u64bitset_popcount(w[i]); REQ(c, pop == m.size(), "popcount", "u64bitset_popcount is wrong"); for (size_t i = 0; i < bits; i++) REQ(c, !!u64bitset_get(w.get(), i) == (m.count(i) > 0), "bitset", "u64bitset_get(" + S(i) + ") is wrong");
	if (n >= 8) c.nontrivial();
}
