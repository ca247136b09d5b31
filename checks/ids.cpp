// BUILD: variant=san
// Property: end ids and eager outputs are per-state sets: whatever was put in comes out, sorted and unique, after any
// history, at any volume; and the copies carried by cloning, merging, union, trimming and shuffling are the same sets.
#include "fsmx.hpp"
#include <memory>
#include <unordered_map>
using namespace model; using namespace fsmx;
typedef std::set<unsigned> U;
// --- an allocator that remembers what is live
struct Live { std::unordered_map<void *, size_t> m; };
static void l_free(void *o, void *p) { if (p) { ((Live *)o)->m.erase(p); free(p); } }
static void *l_calloc(void *o, size_t n, size_t z) { void *p = calloc(n, z); ((Live *)o)->m[p] = n * z; return p; }
static void *l_malloc(void *o, size_t z) { void *p = malloc(z); ((Live *)o)->m[p] = z; return p; }
static void *l_realloc(void *o, void *p, size_t z) { Live *l = (Live *)o; if (p) l->m.erase(p); void *q = realloc(p, z); l->m[q] = z; return q; }
struct M { std::vector<char> end; std::vector<U> ids, eager; int n() const { return (int)end.size(); } };
static std::string sh(const U &u) { std::string s = "{"; int k = 0; for (auto x : u) { if (k++ > 24) { s += "..."; break; } s += std::to_string(x) + " "; } return s + "}(" + std::to_string(u.size()) + ")"; }
static U get_ids(pbt::Ctx &c, struct fsm *f, int s, const std::string &log) {
	size_t k = fsm_endid_count(f, s); std::vector<fsm_end_id_t> v(k + 1, 0xabababab); if (!k) return U();
	if (c.chance(1, 16)) REQ(c, fsm_endid_get(f, s, k - 1, std::vector<fsm_end_id_t>(k).data()) == 0, "get_short", "fsm_endid_get succeeded with too little space\n" + log);
	REQ(c, fsm_endid_get(f, s, k, v.data()) == 1, "get", log); REQ(c, v[k] == 0xabababab, "get_overrun", log);
	for (size_t i = 1; i < k; i++) REQ(c, v[i - 1] < v[i], "sorted", "end ids of state " + std::to_string(s) + " out of order: " + std::to_string(v[i - 1]) + " then " + std::to_string(v[i]) + "\n" + log);
	return U(v.begin(), v.begin() + k);
}
static U get_eager(pbt::Ctx &c, struct fsm *f, int s, const std::string &log) {
	size_t k = fsm_eager_output_count(f, s); if (!k) return U(); std::vector<fsm_output_id_t> v(k + 1, 0xabababab);
	if (c.chance(1, 16)) REQ(c, fsm_eager_output_get(f, s, k - 1, std::vector<fsm_output_id_t>(k).data()) == 0, "eager_get_short", log);
	REQ(c, fsm_eager_output_get(f, s, k, v.data()) == 1, "eager_get", log); REQ(c, v[k] == 0xabababab, "eager_overrun", log);
	for (size_t i = 1; i < k; i++) REQ(c, v[i - 1] < v[i], "eager_sorted", "state " + std::to_string(s) + "\n" + log);
	return U(v.begin(), v.begin() + k);
}
static void verify(pbt::Ctx &c, struct fsm *f, const M &m, const std::string &log) {
	REQ(c, (int)fsm_countstates(f) == m.n(), "states", log);
	for (int i = 0; i < m.n(); i++) {
		REQ(c, !!fsm_isend(f, i) == !!m.end[i], "end", "state " + std::to_string(i) + "\n" + log);
		if (m.end[i]) { U g = get_ids(c, f, i, log); REQ(c, g == m.ids[i], "ids", "state " + std::to_string(i) + ": expected " + sh(m.ids[i]) + ", got " + sh(g) + "\n" + log); }
		U g = get_eager(c, f, i, log); REQ(c, g == m.eager[i], "eager", "state " + std::to_string(i) + ": expected " + sh(m.eager[i]) + ", got " + sh(g) + "\n" + log);
	}
}
struct Map { const M *m; int mode; int stop; int calls; unsigned arg; std::map<int, U> out; std::string err; U seen; };
static int remap(fsm_state_t s, size_t n, fsm_end_id_t *ids, size_t *w, void *o) {
	Map *x = (Map *)o; x->calls++;
	if ((int)s >= x->m->n() || !x->m->end[s]) { if (x->err.empty()) x->err = "called for state " + std::to_string(s) + ", which is not an end state"; *w = n; return 1; }
	if (!x->seen.insert(s).second) x->err = "called twice for one state";
	U in(ids, ids + n); if (in != x->m->ids[s] && x->err.empty()) x->err = "given " + sh(in) + " for state " + std::to_string(s) + " with " + sh(x->m->ids[s]);
	size_t k = n; switch (x->mode) { case 0: for (size_t i = 0; i < n; i++) ids[i] = ids[i] * x->arg; break; case 1: for (size_t i = 0; i < n; i++) ids[i] = ids[i] % (x->arg % 7 + 1); break; case 2: k = (n + 1) / 2; for (size_t i = 0; i < k; i++) ids[i] = ids[n - 1 - i] ^ x->arg; break; default: k = 1; ids[0] = x->arg; break; }
	*w = k; x->out[s] = U(ids, ids + k); return x->calls != x->stop;
}
static unsigned some_id(pbt::Ctx &c) { switch (c.weighted({6, 3, 2, 1})) { case 0: return (unsigned)c.draw(8); case 1: return (unsigned)c.draw(500); case 2: return (unsigned)c.draw(0x100000000ull); default: return UINT_MAX - (unsigned)c.draw(3); } }
PBT_CASE(history, 1, "a history in which some state holds five ids or more, or at least twenty states hold ids, and ids were remapped, carried or compacted") {
	Live live; struct fsm_alloc al = {l_free, l_calloc, l_malloc, l_realloc, &live}; bool acct = c.chance(1, 2); const struct fsm_alloc *pa = acct ? &al : NULL;
	std::string log; bool moved = false, vol = false; auto N = [](long x) { return std::to_string(x); };
	{ std::vector<std::unique_ptr<Fsm>> F; std::vector<M> ms;
	auto fresh = [&]() { F.push_back(std::make_unique<Fsm>(fsm_new(pa))); REQ(c, F.back()->f, "new", ""); M m; int n = 1 + (int)c.draw(c.chance(1, 3) ? 120 : 8); REQ(c, fsm_addstate_bulk(F.back()->f, n), "bulk", ""); m.end.assign(n, 0); m.ids.resize(n); m.eager.resize(n); for (int i = 0; i < n; i++) if (c.chance(2, 3)) { fsm_setend(F.back()->f, i, 1); m.end[i] = 1; } log += "new " + N(n) + "\n"; ms.push_back(m);
		// a spine, so that every state is reachable and every state reaches an end when trimmed
		for (int i = 0; i + 1 < n; i++) REQ(c, fsm_addedge_literal(F.back()->f, i, i + 1, 'a'), "edge", ""); fsm_setstart(F.back()->f, 0); };
	fresh(); int ops = 1 + (int)c.small(c.chance(1, 5) ? 120 : 25);
	for (int k = 0; k < ops; k++) {
		size_t fi = c.draw(F.size()); struct fsm *f = F[fi]->f; M &m = ms[fi]; auto any = [&]() { return (int)c.draw(m.n()); }; std::string at = "#" + N(fi) + " ";
		if (!m.n()) continue;
		switch (c.weighted({10, 4, 3, 6, 3, 2, 2, 2, 2, 2, 2, 1, 2})) {
		case 0: { int s = any(); if (!m.end[s]) break; int r = 1 + (int)(c.chance(1, 12) ? c.draw(400) : c.small(12)); unsigned base = r > 20 ? some_id(c) : 0, st = 1 + (r > 20 ? (unsigned)c.draw(5) : 0); log += at + "endid " + N(s); for (int i = 0; i < r; i++) { unsigned id = r > 20 ? base + st * (unsigned)(i * 7 % r) : some_id(c); log += " " + std::to_string(id); REQ(c, fsm_endid_set(f, s, id) == 1, "set", log); m.ids[s].insert(id); } log += "\n"; break; }
		case 1: { unsigned id = some_id(c); log += at + "setendid " + std::to_string(id) + "\n"; REQ(c, fsm_setendid(f, id) == 1, "setendid", log); for (int i = 0; i < m.n(); i++) if (m.end[i]) m.ids[i].insert(id); break; }
		case 2: { int a = any(), r = 1 + (int)c.draw(m.n()); unsigned id = some_id(c), st = 1 + (unsigned)c.draw(9); log += at + "sweep " + N(a) + "+" + N(r) + " id " + std::to_string(id) + "\n"; for (int i = a; i < a + r && i < m.n(); i++) if (m.end[i]) { unsigned x = id + (i - a) * st; REQ(c, fsm_endid_set(f, i, x), "set", log); m.ids[i].insert(x); } break; }
		case 3: { int s = any(), r = 1 + (int)(c.chance(1, 12) ? c.draw(300) : c.small(9)); unsigned base = r > 20 ? some_id(c) : 0, st = 1 + (r > 20 ? (unsigned)c.draw(5) : 0); log += at + "eager " + N(s); for (int i = 0; i < r; i++) { unsigned id = r > 20 ? base + st * (unsigned)(i * 7 % r) : some_id(c); log += " " + std::to_string(id); REQ(c, fsm_eager_output_set(f, s, id), "eager_set", log); m.eager[s].insert(id); } log += "\n"; break; }
		case 4: { unsigned id = some_id(c); log += at + "eager_on_ends " + std::to_string(id) + "\n"; REQ(c, fsm_eager_output_set_on_ends(f, id), "eager_on_ends", log); for (int i = 0; i < m.n(); i++) if (m.end[i]) m.eager[i].insert(id); break; }
		case 5: { Map x; x.m = &m; x.mode = (int)c.draw(4); x.arg = some_id(c); x.calls = 0; int have = 0; for (int i = 0; i < m.n(); i++) have += m.end[i] && !m.ids[i].empty(); x.stop = c.chance(1, 4) ? 1 + (int)c.draw(4) : -1; log += at + "mapendids mode " + N(x.mode) + " arg " + std::to_string(x.arg) + " stop " + N(x.stop) + "\n";
			int rc = fsm_mapendids(f, remap, &x); if (!x.err.empty()) c.fail("remap_call", x.err + "\n" + log); bool stopped = x.stop > 0 && x.calls == x.stop; REQ(c, rc == !stopped, "mapendids_result", N(rc) + "\n" + log); if (!stopped) REQ(c, x.calls == have, "mapendids_calls", "called " + N(x.calls) + " times for " + N(have) + " states\n" + log);
			for (auto &o : x.out) m.ids[o.first] = o.second; moved = true; break; }
		case 6: { int d = c.chance(1, 3) ? (int)(unsigned)c.draw(0x100000000ull) : (int)c.draw(9) - 4; log += at + "increndids " + N(d) + "\n"; fsm_increndids(f, d); for (int i = 0; i < m.n(); i++) { if (!m.end[i]) continue; auto &s = m.ids[i]; U n; for (auto x : s) n.insert(x + (unsigned)d); s = n; } moved = true; break; }
		case 7: { if (F.size() >= 3) break; log += at + "clone\n"; F.push_back(std::make_unique<Fsm>(fsm_clone(f))); REQ(c, F.back()->f, "clone", log); M t = ms[fi]; ms.push_back(t); moved = true; break; }
		case 8: { if (F.size() < 3) { fresh(); break; } break; }
		case 9: { if (F.size() < 2) break; size_t d = c.draw(F.size()); if (d == fi || m.n() + ms[d].n() > 600) break; struct fsm_combine_info ci; log += at + "merge #" + N(d) + "\n"; struct fsm *r = fsm_merge(f, F[d]->f, &ci); REQ(c, r, "merge", log); F[fi]->release(); F[d]->release(); M x = ci.base_b ? m : ms[d]; const M &y = ci.base_b ? ms[d] : m; if (!ci.base_b && !ci.base_a) { REQ(c, m.n() == 0 || ms[d].n() == 0, "merge_base", log); }
			x.end.insert(x.end.end(), y.end.begin(), y.end.end()); x.ids.insert(x.ids.end(), y.ids.begin(), y.ids.end()); x.eager.insert(x.eager.end(), y.eager.begin(), y.eager.end()); F[fi]->f = r; ms[fi] = x; F.erase(F.begin() + d); ms.erase(ms.begin() + d);
			moved = true; break; }
		case 10: { int s = any(), last = m.n() - 1; if (m.n() < 2) break; log += at + "removestate " + N(s) + "\n"; REQ(c, fsm_removestate(f, s), "removestate", log); m.end[s] = m.end[last]; m.ids[s] = m.ids[last]; m.eager[s] = m.eager[last]; m.end.pop_back(); m.ids.pop_back(); m.eager.pop_back(); moved = true; break; }
		case 11: { fsm_state_t st; if (!fsm_getstart(f, &st)) { st = any(); fsm_setstart(f, st); } // what trimming keeps is read off the graph itself
			Nfa g = extract(c, f); std::vector<char> r(g.n(), 0); std::vector<int> q{g.start}; r[g.start] = 1; while (!q.empty()) { int x = q.back(); q.pop_back(); for (auto &e : g.st[x].edges) if (!r[e.second]) { r[e.second] = 1; q.push_back(e.second); } for (int e : g.st[x].eps) if (!r[e]) { r[e] = 1; q.push_back(e); } }
			log += at + "trim from " + N(st) + "\n"; REQ(c, fsm_trim(f, FSM_TRIM_START_REACHABLE, NULL) >= 0, "trim", log); M t; for (int i = 0; i < m.n(); i++) if (r[i]) { t.end.push_back(m.end[i]); t.ids.push_back(m.ids[i]); t.eager.push_back(m.eager[i]); } m = t; moved = true; break; }
		case 12: { int s = any(); bool e = !m.end[s]; log += at + "setend " + N(s) + " " + N(e) + "\n"; fsm_setend(f, s, e); m.end[s] = e; if (e) { U g = get_ids(c, f, s, log); for (auto x : g) REQ(c, m.ids[s].count(x), "ghost_id", "state " + N(s) + " has id " + std::to_string(x) + "\n" + log); m.ids[s] = g; } break; }
		}
		if (k + 1 == ops || c.chance(1, 3)) for (size_t i = 0; i < F.size(); i++) verify(c, F[i]->f, ms[i], log);
		int holders = 0; for (auto &x : ms) for (int i = 0; i < x.n(); i++) { vol |= x.ids[i].size() >= 5 || x.eager[i].size() >= 5; holders += x.end[i] && !x.ids[i].empty(); } vol |= holders >= 20;
	}
	for (size_t i = 0; i < F.size(); i++) verify(c, F[i]->f, ms[i], log);
	// what the execution reports for the spine agrees with the sets
	struct Out { U got; }; Out o; { struct fsm *f = F[0]->f; fsm_state_t st; Nfa g = extract(c, f);
		if (fsm_getstart(f, &st) && is_dfa(g) && g.n()) { fsm_eager_output_set_cb(f, [](fsm_output_id_t id, void *q) { ((Out *)q)->got.insert(id); }, &o); int len = (int)c.draw(6); std::string w(len, 'a'); fsm_state_t e; int rc = exec(f, w, &e); U want; int x = g.start; if (x >= 0) { auto &M0 = ms[0]; want = M0.eager[x]; for (int i = 0; i < len; i++) { int t = -1; for (auto &ed : g.st[x].edges) if (ed.first['a']) t = ed.second; if (t < 0) { x = -1; break; } x = t; want.insert(M0.eager[x].begin(), M0.eager[x].end()); }
			REQ(c, rc == (x >= 0 && M0.end[x]), "exec", log); if (rc == 1) { REQ(c, (int)e == x, "exec_end", log); REQ(c, o.got == want, "exec_eager", "word of " + N(len) + ": expected " + sh(want) + ", got " + sh(o.got) + "\n" + log); } } } }
	}
	c.describe([&](std::ostream &o) { o << log; });
	if (acct) { size_t bytes = 0; for (auto &x : live.m) bytes += x.second; REQ(c, live.m.empty(), "leak", N(live.m.size()) + " blocks, " + N(bytes) + " bytes not freed\n" + log); c.count("leak-checked"); }
	if (vol && moved) c.nontrivial();
}
// states with many ids or eager outputs each, put through the operations that gather several states' sets into one
PBT_CASE(volume, 1, "some state holds more than 32 ids or eager outputs, and another holds some too") {
	GenOpts o; o.max_states = c.chance(1, 2) ? 4 : 9; o.ids = false; o.eager = false; Nfa a = gen_nfa(c, o), b; unsigned most = 0, holders = 0; bool eager = c.chance(1, 2);
	auto fill = [&](Nfa &x) { // eager outputs of a state that leads to no end are never reported, and minimising drops them
		std::vector<char> l(x.n(), 0); for (bool ch = true; ch; ) { ch = false; for (int i = 0; i < x.n(); i++) { bool v = x.st[i].end; for (auto &e : x.st[i].edges) v |= l[e.second]; for (int e : x.st[i].eps) v |= l[e]; if (v && !l[i]) l[i] = ch = true; } }
		for (auto &s : x.st) for (int w = 0; w < 2; w++) { if (w ? !eager || !l[&s - &x.st[0]] : !s.end) continue; int r = 0; switch (c.weighted({3, 4, 4, 1})) { case 0: break; case 1: r = 1 + (int)c.draw(6); break; case 2: r = 10 + (int)c.draw(120); break; default: r = 150 + (int)c.draw(500); } unsigned base = c.chance(1, 3) ? 0 : (unsigned)c.draw(c.chance(1, 8) ? 0xffffff00u : 1000u), st = 1 + (unsigned)c.draw(4); U &u = w ? s.eager : s.ids; for (int i = 0; i < r; i++) u.insert(base + st * (unsigned)i); most = std::max(most, (unsigned)u.size()); holders += !u.empty(); } };
	fill(a); int op = (int)c.draw(7); if (op >= 4) { b = gen_nfa(c, o); fill(b); }
	static const char *NM[] = {"determinise", "remove_epsilons", "minimise", "clone", "union", "merge", "mergestates"}; c.describe([&](std::ostream &s) { s << NM[op] << "\n" << dump(a) << (op == 4 || op == 5 ? dump(b) : ""); }); c.count(NM[op]);
	Nfa want = a; if (op == 4 || op == 5) { want = Nfa(); want.add(); want.start = 0; for (auto *x : {&a, &b}) { int base = want.n(); for (auto &s : x->st) { want.st.push_back(s); auto &t = want.st.back(); for (auto &e : t.edges) e.second += base; std::set<int> q; for (int e : t.eps) q.insert(e + base); t.eps = decltype(t.eps)(q.begin(), q.end()); } want.st[0].eps.insert(base + x->start); } }
	try { subset(want, CMP_IDS | CMP_EAGER, 200); } catch (TooBig &) { c.discard(); }
	Fsm f(build(c, a));
	switch (op) {
	case 0: case 2: break;
	case 1: REQ(c, fsm_remove_epsilons(f), "epsilons", ""); break;
	case 3: { Fsm g(fsm_clone(f)); REQ(c, g.f, "clone", ""); std::swap(f.f, g.f); break; }
	case 4: { Fsm g(build(c, b)); struct fsm_combine_info ci; struct fsm *u = fsm_union(f.release(), g.release(), &ci); REQ(c, u, "union", ""); f.f = u; break; }
	case 5: { Fsm g(build(c, b)); struct fsm_combine_info ci; struct fsm *u = fsm_merge(f.release(), g.release(), &ci); REQ(c, u, "merge", ""); f.f = u; fsm_state_t st; REQ(c, fsm_addstate(u, &st), "addstate", ""); REQ(c, fsm_addedge_epsilon(u, st, ci.base_a + (fsm_state_t)a.start) && fsm_addedge_epsilon(u, st, ci.base_b + (fsm_state_t)b.start), "eps", ""); fsm_setstart(u, st); break; }
	case 6: { if (a.n() < 2) c.discard(); int x = (int)c.draw(a.n()), y = (int)c.draw(a.n()); if (x == y) c.discard(); fsm_state_t q; REQ(c, fsm_mergestates(f, x, y, &q), "mergestates", ""); auto &A = want.st[x]; auto &B = want.st[y]; A.eps.insert(y); B.eps.insert(x); A.end = B.end = A.end || B.end; A.ids.insert(B.ids.begin(), B.ids.end()); B.ids = A.ids; A.eager.insert(B.eager.begin(), B.eager.end()); B.eager = A.eager; break; }
	}
	int how = op == 0 ? 1 : op == 2 ? 2 : (int)c.draw(3); if (how >= 1) REQ(c, fsm_determinise(f), "determinise", ""); if (how >= 2) REQ(c, fsm_minimise(f), "minimise", "");
	Nfa g = extract(c, f); require_equiv(c, want, g, CMP_IDS | CMP_EAGER, NM[op]); if (most > 32 && holders >= 2) c.nontrivial();
}
// intersection keeps the ids of both operands' end states, subtraction those of the first
PBT_CASE(products, 1, "some input ends in states of both operands that hold ids, at least one in common or ten in all") {
	GenOpts o; o.max_states = 5; o.ids = false; o.must_start = true; Nfa a = gen_nfa(c, o), b = gen_nfa(c, o);
	if (c.chance(1, 3)) { b = a; for (int i = c.range(1, 2); i--;) { int k = (int)c.draw(b.n()); if (c.chance(1, 2)) b.st[k].end = !b.st[k].end; else b.st[k].add(gen_bits(c), (int)c.draw(b.n())); } }
	for (auto *x : {&a, &b}) for (auto &s : x->st) { s.ids.clear(); if (!s.end) continue; int n = c.chance(1, 5) ? 0 : c.chance(1, 4) ? (int)c.draw(70) : 1 + (int)c.draw(5); unsigned range = c.chance(1, 2) ? 6 : 100; for (int i = 0; i < n; i++) s.ids.insert(c.chance(1, 20) ? some_id(c) : (unsigned)c.draw(range)); }
	int op = (int)c.draw(2); c.count(op ? "subtract" : "intersect"); c.describe([&](std::ostream &s) { s << (op ? "subtract\n" : "intersect\n") << dump(a) << dump(b); });
	Nfa want; std::vector<int> cls; std::vector<unsigned char> rs = reps({&a, &b}, &cls); std::map<std::pair<Set, Set>, int> id; std::vector<std::pair<Set, Set>> todo; bool rich = false;
	auto at = [&](const Set &x, const Set &y) { auto k = std::make_pair(x, y); auto it = id.find(k); if (it != id.end()) return it->second; int q = want.add(); id[k] = q; todo.push_back(k); Label la = label(a, x, CMP_IDS), lb = label(b, y, CMP_IDS);
		want.st[q].end = op ? la.end && !lb.end : la.end && lb.end; if (want.st[q].end) { want.st[q].ids.insert(la.ids.begin(), la.ids.end()); if (!op) { size_t n = la.ids.size() + lb.ids.size(); want.st[q].ids.insert(lb.ids.begin(), lb.ids.end()); if (la.ids.size() && lb.ids.size() && (n > want.st[q].ids.size() || n >= 10)) rich = true; } else if (la.ids.size()) rich = true; } return q; };
	want.start = at(start_set(a), start_set(b));
	for (size_t i = 0; i < todo.size(); i++) { if (todo.size() > 150) c.discard(); auto k = todo[i]; for (size_t r = 0; r < rs.size(); r++) { Set x = step(a, k.first, rs[r]), y = step(b, k.second, rs[r]); if (x.empty() || (!op && y.empty())) continue; Bits m; for (int z = 0; z < 256; z++) if (cls[z] == cls[rs[r]]) m.set(z); int q = at(x, y); want.st[id[k]].add(m, q); } }
	auto mk = [&](const Nfa &x) { Fsm f(build(c, x)); int form = (int)c.draw(3); if (form >= 1) REQ(c, fsm_determinise(f), "determinise", ""); if (form >= 2) REQ(c, fsm_minimise(f), "minimise", ""); return f.release(); };
	struct fsm *x = mk(a), *y = mk(b), *u = op ? fsm_subtract(x, y) : fsm_intersect(x, y); REQ(c, u, "product", ""); Fsm f(u);
	int how = (int)c.draw(3); if (how >= 1) REQ(c, fsm_determinise(f), "determinise", ""); if (how >= 2) REQ(c, fsm_minimise(f), "minimise", "");
	Nfa g = extract(c, f); require_equiv(c, want, g, CMP_IDS, op ? "subtract" : "intersect"); if (rich) c.nontrivial();
}
