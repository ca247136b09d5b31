// BUILD: variant=san
// Property: after any sequence of graph edits, every query the library offers answers as a plain labelled multigraph would.
#include "fsmx.hpp"
extern "C" {
#include <fsm/subgraph.h>
struct fsm *fsm_mergeab(struct fsm *a, struct fsm *b, fsm_state_t *base_b);
}
#include <memory>
using namespace model; using namespace fsmx;
struct Slot { Fsm f; Nfa m; bool caps = false; };
static std::map<int, Bits> emap(const State &s) { std::map<int, Bits> r; for (auto &e : s.edges) if (e.first.any()) r[e.second] |= e.first; return r; }
static bool same(const Nfa &a, const Nfa &b, std::string *why) {
	if (a.n() != b.n()) { *why = "number of states"; return false; }
	if (a.start != b.start) { *why = "start state"; return false; }
	for (int i = 0; i < a.n(); i++) {
		auto &x = a.st[i], &y = b.st[i]; std::string at = " of state " + std::to_string(i);
		if (x.end != y.end) { *why = "end mark" + at; return false; }
		if (x.end && x.ids != y.ids) { *why = "end ids" + at; return false; }
		if (x.eager != y.eager) { *why = "eager outputs" + at; return false; }
		if (x.eps != y.eps) { *why = "epsilons" + at; return false; }
		if (emap(x) != emap(y)) { *why = "edges" + at; return false; }
	}
	return true;
}
// --- model edits
static void m_retarget(Nfa &m, std::function<int(int)> f) { // -1 drops
	for (auto &s : m.st) { State n; n.end = s.end; n.ids = s.ids; n.eager = s.eager; for (auto &e : s.edges) { int t = f(e.second); if (t >= 0) n.add(e.first, t); } for (int t : s.eps) { int u = f(t); if (u >= 0) n.eps.insert(u); } s = n; }
	if (m.start >= 0) m.start = f(m.start);
}
static void m_remove(Nfa &m, int s) { // the last state takes the place of the one removed
	int last = m.n() - 1; m_retarget(m, [&](int t) { return t == s ? -1 : t == last ? s : t; });
	if (s != last) m.st[s] = m.st[last]; m.st.pop_back();
}
static void m_keep(Nfa &m, const std::vector<char> &keep) {
	std::vector<int> map(m.n(), -1); int k = 0; for (int i = 0; i < m.n(); i++) if (keep[i]) map[i] = k++;
	m_retarget(m, [&](int t) { return map[t]; }); std::vector<State> v; for (int i = 0; i < m.n(); i++) if (keep[i]) v.push_back(m.st[i]); m.st = v;
}
static std::vector<char> m_reach(const Nfa &a, int from) { std::vector<char> s(a.n(), 0); std::vector<int> st; s[from] = 1; st.push_back(from); while (!st.empty()) { int x = st.back(); st.pop_back(); auto go = [&](int y) { if (!s[y]) { s[y] = 1; st.push_back(y); } }; for (int y : a.st[x].eps) go(y); for (auto &e : a.st[x].edges) if (e.first.any()) go(e.second); } return s; }
// --- model queries
static bool q_nd(const Nfa &m, const std::vector<int> &ss) { Bits u; for (int s : ss) for (auto &e : emap(m.st[s])) { if ((u & e.second).any()) return true; u |= e.second; } return false; }
static bool q_isdfa(const Nfa &m, int s) { return m.start >= 0 && m.st[s].eps.empty() && !q_nd(m, {s}); }
static bool q_complete(const Nfa &m, int s) { Bits u; for (auto &e : m.st[s].edges) u |= e.first; return u.all(); }
static bool q_out(const Nfa &m, int s) { return !m.st[s].eps.empty() || !emap(m.st[s]).empty(); }
static bool q_in(const Nfa &m, int s) { for (auto &x : m.st) if (x.eps.count(s) || emap(x).count(s)) return true; return false; }
static const struct { const char *name; int (*lib)(const struct fsm *, fsm_state_t); std::function<bool(const Nfa &, int)> mod; } PRED[] = {
	{"isend", fsm_isend, [](const Nfa &m, int s) { return m.st[s].end; }}, {"isdfa", fsm_isdfa, q_isdfa}, {"iscomplete", fsm_iscomplete, q_complete},
	{"hasoutgoing", fsm_hasoutgoing, q_out}, {"hasincoming", fsm_hasincoming, q_in}, {"hasepsilons", fsm_hasepsilons, [](const Nfa &m, int s) { return !m.st[s].eps.empty(); }},
	{"epsilonsonly", fsm_epsilonsonly, [](const Nfa &m, int s) { return !m.st[s].eps.empty() && emap(m.st[s]).empty(); }},
	{"hasnondeterminism", fsm_hasnondeterminism, [](const Nfa &m, int s) { model::Set v{s}; closure(m, v); return q_nd(m, v); }},
	{"isany", fsm_isany, [](const Nfa &, int) { return true; }},
};
struct WS { unsigned n, stop; bool bad; };
static int ws(const struct fsm *, fsm_state_t s, void *o) { WS *w = (WS *)o; if (s != w->n) w->bad = true; w->n++; return w->n != w->stop; }
static void verify(pbt::Ctx &c, Slot &s, const std::string &log) {
	Nfa g = extract(c, s.f); std::string why; auto ctx = [&]() { return "\n" + log + "expected\n" + dump(s.m) + "got\n" + dump(g); };
	if (!same(s.m, g, &why)) c.fail("differs", why + ctx());
	unsigned labelled = 0; for (auto &x : s.m.st) for (auto &e : emap(x)) labelled += e.second.count();
	REQ(c, fsm_countedges(s.f) == labelled, "countedges", std::to_string(fsm_countedges(s.f)) + " edges, expected " + std::to_string(labelled) + ctx());
	for (auto &p : PRED) {
		unsigned k = 0; bool all = true;
		for (int i = 0; i < s.m.n(); i++) { bool w = p.mod(s.m, i); k += w; all &= w; int r = p.lib(s.f, i); REQ(c, (r != 0) == w && r >= 0, p.name, "state " + std::to_string(i) + ": " + std::to_string(r) + ctx()); }
		REQ(c, fsm_count(s.f, p.lib) == k && !!fsm_has(s.f, p.lib) == (k > 0) && !!fsm_all(s.f, p.lib) == all, "count_has_all", std::string(p.name) + ctx());
	}
	if (s.m.n()) {
		int from = (int)c.draw(s.m.n()); auto r = m_reach(s.m, from); auto &p = PRED[c.draw(6)]; bool any = false, all = true; for (int i = 0; i < s.m.n(); i++) if (r[i]) { bool w = p.mod(s.m, i); any |= w; all &= w; }
		REQ(c, fsm_reachableany(s.f, from, p.lib) == any && fsm_reachableall(s.f, from, p.lib) == all, "reachable", std::string(p.name) + " from " + std::to_string(from) + ctx());
		int q = (int)c.draw(s.m.n()); unsigned best = 0; auto em = emap(s.m.st[q]); for (auto &e : em) best = std::max(best, (unsigned)e.second.count());
		if (best > 1) { unsigned fr = 0; int t = fsm_findmode(s.f, q, &fr); REQ(c, fr == best && em.count(t) && em[t].count() == best, "findmode", "state " + std::to_string(q) + ": " + std::to_string(t) + " x" + std::to_string(fr) + ctx()); }
		WS w{0, 1 + (unsigned)c.draw(s.m.n() + 2), false}; int rc = fsm_walk_states(s.f, &w, ws); bool stopped = w.stop <= (unsigned)s.m.n();
		REQ(c, !w.bad && w.n == (stopped ? w.stop : (unsigned)s.m.n()) && rc == !stopped, "walk_states", ctx());
	}
}
static Bits some(pbt::Ctx &c) { Bits b; switch (c.weighted({4, 2, 2, 1})) { case 0: b.set(gen_byte(c)); break; case 1: { int lo = (int)c.draw(256), hi = lo + (int)c.draw(40); for (int i = lo; i <= hi && i < 256; i++) b.set(i); break; } case 2: b = gen_bits(c); break; default: b.set(); } return b; }
PBT_CASE(history, 1, "a history of at least eight operations that reached five states or more and removed, merged, moved or renumbered states") {
	std::vector<std::unique_ptr<Slot>> S; std::string log; int ops = 1 + (int)c.small(c.chance(1, 6) ? 60 : 14), renum = 0; size_t peak = 0; bool ids = c.chance(1, 2), tagged = c.chance(1, 2); unsigned next = 100;
	auto fresh = [&]() { auto s = std::make_unique<Slot>(); size_t al = c.chance(1, 2) ? c.draw(6) : 1000; s->f.f = al == 1000 ? fsm_new(NULL) : fsm_new_statealloc(NULL, al); REQ(c, s->f.f, "new", "fsm_new failed"); log += "new " + std::to_string(al) + "\n"; S.push_back(std::move(s)); };
	auto grow = [&](Slot &s, int k) { for (int i = 0; i < k; i++) { fsm_state_t q; REQ(c, fsm_addstate(s.f, &q) && (int)q == s.m.n(), "addstate", "state ids are not sequential\n" + log); s.m.add(); } };
	auto edge = [&](Slot &s, int a, int b) { if (c.chance(1, 5)) { REQ(c, fsm_addedge_epsilon(s.f, a, b), "eps", log); s.m.st[a].eps.insert(b); return; } Bits x = some(c); if (x.all() && c.chance(1, 2)) { REQ(c, fsm_addedge_any(s.f, a, b), "any", log); } else for (int i = 0; i < 256; i++) if (x[i]) REQ(c, fsm_addedge_literal(s.f, a, b, (char)i), "literal", log); if (x.any()) s.m.st[a].add(x, b); };
	fresh();
	struct D { pbt::Ctx &c; std::string &l; ~D() { c.describe([&](std::ostream &o) { o << l; }); } } dd{c, log};
	for (int k = 0; k < ops; k++) {
		size_t si = c.draw(S.size()); Slot *s = S[si].get(); int n = s->m.n(); auto any = [&]() { return (int)c.draw(s->m.n()); }; std::string at = "#" + std::to_string(si) + " "; auto N = [](long x) { return std::to_string(x); };
		if (n == 0 && c.chance(7, 8)) { int m = 1 + (int)c.draw(6); log += at + "add " + N(m) + "\n"; grow(*s, m); }
		else switch (c.weighted({4, 2, 10, 4, 2, 3, 3, 2, 1, 1, 1, 2, 1, 1, 1, 2, 1})) {
		case 0: log += at + "addstate\n"; grow(*s, 1); break;
		case 1: { int m = (int)c.draw(c.chance(1, 8) ? 300 : 5); log += at + "addstate_bulk " + N(m) + "\n"; if (n + m > 400) break; REQ(c, fsm_addstate_bulk(s->f, m), "bulk", log); for (int i = 0; i < m; i++) s->m.add(); break; }
		case 2: if (n) { int m = 1 + (int)c.draw(6); for (int i = 0; i < m; i++) { int a = any(), b = any(); log += at + "edge " + N(a) + " " + N(b) + "\n"; edge(*s, a, b); } } break;
		case 3: if (n) { int a = any(), e = (int)c.draw(3); if (e == 2) e = c.chance(1, 2) ? 1 : 0; log += at + "setend " + N(a) + " " + N(e) + "\n"; bool was = s->m.st[a].end; fsm_setend(s->f, a, e == 1 && c.chance(1, 8) ? 2 + (int)c.draw(9) : e); s->m.st[a].end = e;
			if (!was && e) { Nfa g = extract(c, s->f); for (auto i : g.st[a].ids) REQ(c, s->m.st[a].ids.count(i), "ghost_id", "state " + N(a) + " has an id it was never given\n" + log + dump(g)); s->m.st[a].ids = g.st[a].ids; }
			break; }
		case 4: if (n) { int a = any(); log += at + "setstart " + N(a) + "\n"; fsm_setstart(s->f, a); s->m.start = a; } break;
		case 5: if (ids && n) { int a = any(); unsigned id = (unsigned)c.draw(8); if (s->m.st[a].end) { log += at + "endid " + N(a) + " " + N(id) + "\n"; REQ(c, fsm_endid_set(s->f, a, id), "endid_set", log); s->m.st[a].ids.insert(id); } else { log += at + "eager " + N(a) + " " + N(id) + "\n"; REQ(c, fsm_eager_output_set(s->f, a, id), "eager_set", log); s->m.st[a].eager.insert(id); } } break;
		case 6: if (n) { int a = any(); log += at + "removestate " + N(a) + "\n"; REQ(c, fsm_removestate(s->f, a), "removestate", log); m_remove(s->m, a); renum++; } break;
		case 7: if (n > 1) { int a = any(), b = any(); if (a == b) break; log += at + "mergestates " + N(a) + " " + N(b) + "\n"; fsm_state_t q = 9999; bool wq = c.chance(4, 5); REQ(c, fsm_mergestates(s->f, a, b, wq ? &q : NULL), "mergestates", log);
			int last = s->m.n() - 1; int want = a == last ? b : a;
			State u = s->m.st[a]; for (auto &e : s->m.st[b].edges) u.add(e.first, e.second); u.eps.insert(s->m.st[b].eps.begin(), s->m.st[b].eps.end()); 
			if (s->m.st[b].end) u.ids.insert(s->m.st[b].ids.begin(), s->m.st[b].ids.end()); u.end |= s->m.st[b].end; u.eager.insert(s->m.st[b].eager.begin(), s->m.st[b].eager.end()); s->m.st[a] = u; s->m.st[b] = State();
			m_retarget(s->m, [&](int t) { return t == b ? a : t; }); m_remove(s->m, b); if (wq) REQ(c, (int)q == want, "mergestates_q", "merged state is " + N(want) + ", reported " + N(q) + "\n" + log); renum++; } break;
		case 8: { log += at + "clone\n"; if (S.size() >= 3) break; auto t = std::make_unique<Slot>(); t->f.f = fsm_clone(s->f); REQ(c, t->f.f, "clone", log); t->m = s->m; S.push_back(std::move(t)); break; }
		case 9: if (S.size() < 3) fresh(); break;
		case 10: if (S.size() > 1) { size_t d = c.draw(S.size()); if (d == si) break; log += at + "move to #" + N(d) + "\n"; fsm_move(S[d]->f, s->f); s->f.release(); S[d]->m = s->m; S.erase(S.begin() + si); renum++; } break;
		case 11: if (S.size() > 1) { size_t d = c.draw(S.size()); if (d == si || n + S[d]->m.n() > 400) break; Slot *b = S[d].get(); bool ab = c.chance(1, 3); log += at + (ab ? "mergeab #" : "merge #") + N(d) + "\n"; struct fsm_combine_info ci; memset(&ci, 0xee, sizeof ci); struct fsm *r; fsm_state_t bb; 
			r = ab ? fsm_mergeab(s->f, b->f, &bb) : fsm_merge(s->f, b->f, &ci); REQ(c, r, "merge", log); if (ab) { ci.base_a = 0; ci.base_b = bb; } s->f.release(); b->f.release();
			unsigned an = s->m.n(), bn = b->m.n(); REQ(c, (ci.base_a == 0 && ci.base_b == an) || (ci.base_b == 0 && ci.base_a == bn), "merge_base", "bases " + N(ci.base_a) + " and " + N(ci.base_b) + " for " + N(an) + " and " + N(bn) + " states\n" + log);
			Nfa x; bool afirst = ci.base_b == an && ci.base_a == 0; const Nfa &p = afirst ? s->m : b->m, &q = afirst ? b->m : s->m; x = p; int base = p.n(); for (auto &st : q.st) { State t; t.end = st.end; t.ids = st.ids; t.eager = st.eager; for (auto &e : st.edges) t.add(e.first, e.second + base); for (int e : st.eps) t.eps.insert(e + base); x.st.push_back(t); } x.start = -1;
			s->f.f = r; s->m = x; S.erase(S.begin() + d); renum++; si = 0; while (S[si].get() != s) si++; } break;
		case 12: if (n) { log += at + "shuffle\n"; unsigned seed = (unsigned)c.draw(c.chance(1, 2) ? 8 : 0x100000000ull); unsigned base = next; if (tagged) { for (int i = 0; i < n; i++) { REQ(c, fsm_eager_output_set(s->f, i, base + i), "eager_set", log); s->m.st[i].eager.insert(base + i); } next += n; }
			REQ(c, fsm_shuffle(s->f, seed), "shuffle", log); renum++;
			if (tagged) { Nfa g = extract(c, s->f); REQ(c, g.n() == n, "shuffle_states", log); std::vector<int> map(n, -1); for (int i = 0; i < n; i++) for (auto id : g.st[i].eager) if (id >= base && id < base + n) { REQ(c, map[id - base] < 0, "shuffle_dup", log + dump(g)); map[id - base] = i; } for (int i = 0; i < n; i++) REQ(c, map[i] >= 0, "shuffle_lost", "state " + N(i) + " of\n" + dump(s->m) + "got\n" + dump(g) + log);
				Nfa m2 = s->m; m_retarget(m2, [&](int t) { return map[t]; }); Nfa m3 = m2; for (int i = 0; i < n; i++) m3.st[map[i]] = m2.st[i]; s->m = m3; }
			else { Nfa g = extract(c, s->f); auto sig = [](const Nfa &a) { std::multiset<std::vector<size_t>> r; for (int i = 0; i < a.n(); i++) { std::vector<size_t> v{a.st[i].end, a.st[i].eps.size(), (size_t)(a.start == i)}; for (auto id : a.st[i].eager) v.push_back(id); if (a.st[i].end) for (auto id : a.st[i].ids) v.push_back(1000 + id); std::vector<size_t> d; for (auto &e : emap(a.st[i])) d.push_back(2000 + e.second.count()); std::sort(d.begin(), d.end()); v.insert(v.end(), d.begin(), d.end()); r.insert(v); } return r; };
				REQ(c, sig(g) == sig(s->m), "shuffle_shape", "expected\n" + dump(s->m) + "got\n" + dump(g) + log); if (s->m.start >= 0) { try { std::string w; if (!equivalent(s->m, g, CMP_IDS | CMP_EAGER, &w, 4000)) c.fail("shuffle_language", edge_summary(s->m, g, w, CMP_IDS | CMP_EAGER)); } catch (TooBig &) { } } s->m = g; } } break;
		case 13: log += at + "vacuum\n"; REQ(c, fsm_vacuum(s->f), "vacuum", log); break;
		case 14: { bool none = true, one = true; int k1 = 0, first = -1; for (int i = 0; i < n; i++) if (s->m.st[i].end) { if (first < 0) first = i; k1++; } none = k1 == 0; one = k1 == 1; log += at + "collate\n"; fsm_state_t q = 9999; errno = 0; int rc = fsm_collate(s->f, &q, fsm_isend);
			if (none) { REQ(c, rc == 0 && errno == EINVAL, "collate_none", log); } else if (one) { REQ(c, rc == 1 && (int)q == first, "collate_one", log); } else { REQ(c, rc == 1 && (int)q == n, "collate", log); int nw = s->m.add(); for (int i = 0; i < n; i++) if (s->m.st[i].end) s->m.st[i].eps.insert(nw); } break; }
		case 15: { struct fsm_subgraph sg; log += at + "subgraph\n"; fsm_subgraph_start(s->f, &sg); int m = (int)c.draw(4); grow(*s, m); for (int i = 0; i < 3 * m && s->m.n(); i++) { int a = any(), b = any(); if (c.chance(2, 3)) { a = n + (int)c.draw(m); b = n + (int)c.draw(m); } log += at + "edge " + N(a) + " " + N(b) + "\n"; edge(*s, a, b); } for (int i = 0; i < m; i++) if (c.chance(1, 3)) { fsm_setend(s->f, n + i, 1); s->m.st[n + i].end = true; }
			fsm_subgraph_stop(s->f, &sg); REQ(c, (int)sg.start == n && (int)sg.end == n + m, "subgraph_bounds", log); int times = 1 + (int)c.draw(3); if (!m) { fsm_state_t q; REQ(c, !fsm_subgraph_duplicate(s->f, &sg, NULL, &q), "subgraph_empty", log); break; }
			for (int t = 0; t < times; t++) { int base = s->m.n(); int xo = (int)c.draw(m); fsm_state_t x = n + xo, q = 9999; bool wx = c.chance(2, 3); log += at + "duplicate\n"; REQ(c, fsm_subgraph_duplicate(s->f, &sg, wx ? &x : NULL, &q), "subgraph_duplicate", log); REQ(c, (int)q == base && (!wx || (int)x == base + xo), "subgraph_ids", "start " + N(q) + " x " + N(x) + "\n" + log);
				for (int i = 0; i < m; i++) { State u; const State &o = s->m.st[n + i]; u.end = o.end; for (auto &e : o.edges) if (e.second >= n && e.second < n + m) u.add(e.first, e.second - n + base); for (int e : o.eps) if (e >= n && e < n + m) u.eps.insert(e - n + base); s->m.st.push_back(u); } }
			renum++; break; }
		case 16: if (s->m.start >= 0) { bool both = c.chance(1, 2); log += at + "trim " + N(both) + "\n"; auto r = m_reach(s->m, s->m.start); if (both) for (int i = 0; i < n; i++) if (r[i]) { auto q = m_reach(s->m, i); bool ok = false; for (int j = 0; j < n; j++) ok |= q[j] && s->m.st[j].end; if (!ok) r[i] = 2; } for (auto &x : r) x = x == 1; long rc = fsm_trim(s->f, both ? FSM_TRIM_START_AND_END_REACHABLE : FSM_TRIM_START_REACHABLE, NULL); REQ(c, rc >= 0, "trim", log); m_keep(s->m, r); renum++; } break;
		}
		for (auto &t : S) { verify(c, *t, log); peak = std::max(peak, (size_t)t->m.n()); }
	}
	if (ops >= 8 && peak >= 5 && renum) c.nontrivial();
	if (S.size() > 1) c.count("several automata");
}
