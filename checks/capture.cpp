// BUILD: variant=san
// Property: capture actions survive combining and transforming automata, ids offset as reported, and fsm_exec resolves exactly the text between a path's start and end state.
#include <memory>
#include "fsmx.hpp"
using namespace model; using namespace fsmx;
namespace {
struct Path { unsigned id; int s, e; };
struct Leaf { Nfa a; std::vector<Path> paths; };
// a deterministic acyclic automaton, except self-loops on states that no path starts or ends at
Leaf gen_leaf(pbt::Ctx &c, bool ids, int index, bool lng = false) {
	Leaf l; bool chain = lng || c.chance(1, 6); int n = lng ? c.range(30, 150) : chain ? c.range(4, 20) : c.range(1, 6); unsigned k = c.range(2, 6);
	for (int i = 0; i < n; i++) l.a.add();
	l.a.start = 0; l.a.st[n - 1].end = true;
	std::vector<std::vector<int>> reach(n, std::vector<int>(n, 0)); std::vector<Bits> used(n);
	auto edge = [&](int f, int t) { Bits b; int w = c.chance(1, 12) ? 1 : 0; if (w) { for (int x = 0; x < 256; x++) if (!used[f][x]) b.set(x); } else { int m = 1 + c.range(0, 1); while (m--) { unsigned char x = "abcdef"[c.draw(k)]; if (!used[f][x]) b.set(x); } } if (b.none()) return; used[f] |= b; l.a.st[f].add(b, t); if (f != t) reach[f][t] = 1; };
	for (int i = 0; i + 1 < n; i++) edge(i, i + 1);
	if (!chain || c.chance(1, 2)) for (int i = 0, m = c.range(0, std::min(n, 7)); i < m && n > 1; i++) { int f = c.range(0, n - 2), t = c.range(f + 1, n - 1); edge(f, t); }
	if (c.chance(1, 4)) l.a.st[c.draw(n)].end = true;
	for (int m = 0; m < n; m++) for (int i = 0; i < n; i++) for (int j = 0; j < n; j++) if (reach[i][m] && reach[m][j]) reach[i][j] = 1;
	std::vector<char> tip(n, 0); int np = c.weighted({1, 4, 3, 2, 1}); if (np == 4) np = lng ? 2 : c.range(4, 12); unsigned id = 0;
	for (int p = 0; p < np; p++) { if (c.chance(1, 8)) id += c.range(1, 3); Path q; q.id = id++; q.s = (int)c.draw(n); std::vector<int> to; if (c.chance(1, 8)) to.push_back(q.s); for (int j = n - 1; j > q.s; j--) if (reach[q.s][j]) to.push_back(j); if (to.empty()) to.push_back(q.s); q.e = c.pick(to); tip[q.s] = tip[q.e] = 1; l.paths.push_back(q); }
	if (c.chance(1, 3)) for (int i = 1; i < n; i++) if (!tip[i] && c.chance(1, 2)) edge(i, i);
	if (ids) for (auto &s : l.a.st) if (s.end) s.ids.insert(index);
	return l;
}
struct Inst { int leaf; unsigned path_base; }; // ids of this leaf's paths are offset by path_base
struct Node { struct fsm *f = nullptr; Nfa m; std::vector<std::pair<int, int>> tag; std::vector<Inst> inst; std::string text; bool dfa = false; double acts = 0;
	Node() {} Node(const Node &) = delete; Node &operator=(const Node &) = delete; ~Node() { if (f) fsm_free(f); } };
struct World { std::vector<Leaf> leaves; bool ids = false, lng = false; int ops = 0, mins = 0; };

unsigned count_want(const World &w, const Node &n) { unsigned r = 0; for (auto &i : n.inst) for (auto &p : w.leaves[i.leaf].paths) r = std::max(r, p.id + i.path_base + 1); return r; }
void check_count(pbt::Ctx &c, const World &w, const Node &n) { unsigned k = fsm_countcaptures(n.f), e = count_want(w, n); REQ(c, k == e, "count", "fsm_countcaptures gives " + std::to_string(k) + ", expected " + std::to_string(e) + " after " + n.text); }
bool isdfa(struct fsm *f) { return fsm_all(f, fsm_isdfa) == 1; }
// determinisation copies each action to every pair of state sets that its states are in: an estimate keeps that within bounds
void det(pbt::Ctx &c, World &w, Node &n) {
	if (count_want(w, n)) { Nfa g = extract(c, n.f); if (g.start >= 0) { Dfa d; try { d = subset(g, 0, 600); } catch (TooBig &) { c.discard(); } std::vector<double> r(g.n(), 0); for (auto &s : d.sets) for (int x : s) r[x]++; double sum = 0; for (double x : r) sum += x * x; n.acts *= std::max(1.0, sum / g.n()); if (n.acts > 40000) c.discard(); } }
	REQ(c, fsm_determinise(n.f), "determinise", "failed"); }
void post(pbt::Ctx &c, World &w, Node &n) {
	int k = (int)c.weighted({10, 3, 3, 3, 3, 2, 2, 1});
	fsm_state_t st; bool started = fsm_getstart(n.f, &st);
	switch (k) {
	case 0: return;
	case 1: { struct fsm *g = fsm_clone(n.f); REQ(c, g, "clone", "failed"); fsm_free(n.f); n.f = g; n.text = "clone(" + n.text + ")"; break; }
	case 2: det(c, w, n); n.text = "dfa(" + n.text + ")"; break;
	case 3: det(c, w, n); REQ(c, fsm_minimise(n.f), "minimise", "failed"); w.mins++; n.text = "min(dfa(" + n.text + "))"; break;
	case 4: REQ(c, fsm_trim(n.f, c.chance(1, 2) ? FSM_TRIM_START_REACHABLE : FSM_TRIM_START_AND_END_REACHABLE, NULL) >= 0, "trim", "failed"); n.text = "trim(" + n.text + ")"; break;
	case 5: if (count_want(w, n)) { unsigned b = c.range(1, 5); fsm_capture_rebase_capture_id(n.f, b); for (auto &i : n.inst) i.path_base += b; n.text = "rebase" + std::to_string(b) + "(" + n.text + ")"; } break;
	case 6: if (started) { REQ(c, fsm_remove_epsilons(n.f), "remove_epsilons", "failed"); n.text = "noeps(" + n.text + ")"; } break;
	case 7: if (isdfa(n.f)) { REQ(c, fsm_minimise(n.f), "minimise", "failed"); w.mins++; n.text = "min(" + n.text + ")"; } break;
	}
	check_count(c, w, n);
}
void append(Node &r, const Node &x, int base) { r.acts += x.acts; for (auto &s : x.m.st) { int k = r.m.add(); r.m.st[k].end = s.end; for (auto &e : s.edges) r.m.st[k].edges.push_back({e.first, e.second + base}); for (int t : s.eps) r.m.st[k].eps.insert(t + base); } r.tag.insert(r.tag.end(), x.tag.begin(), x.tag.end()); }
void tree(pbt::Ctx &c, World &w, Node &n, int depth) {
	int op = depth <= 0 ? 0 : (int)c.weighted({2, 3, 3, 1});
	if (op == 0) {
		int li = (int)w.leaves.size(); w.leaves.push_back(gen_leaf(c, w.ids, li, w.lng && c.chance(2, 3))); const Leaf l = w.leaves[li];
		// states in a shuffled order and, sometimes, unreachable ones among them
		int N = l.a.n(), extra = c.chance(1, 4) ? c.range(1, 3) : 0, tot = N + extra; std::vector<int> at(tot); for (int i = 0; i < tot; i++) at[i] = i; if (c.chance(1, 2)) for (int i = tot - 1; i > 0; i--) std::swap(at[i], at[c.draw(i + 1)]);
		Nfa a; for (int i = 0; i < tot; i++) a.add();
		a.start = at[0]; for (int i = 0; i < N; i++) { State s = l.a.st[i]; for (auto &e : s.edges) e.second = at[e.second]; a.st[at[i]] = s; }
		n.f = build(c, a); n.m = l.a; for (int i = 0; i < N; i++) n.tag.push_back({li, i}); n.inst.push_back({li, 0}); n.acts = (double)N * l.paths.size();
		for (size_t p = 0; p < l.paths.size(); p++) { auto &q = l.paths[p]; for (int k = c.chance(1, 6) ? 2 : 1; k; k--) REQ(c, fsm_capture_set_path(n.f, q.id, at[q.s], at[q.e]) == 1, "set_path", "fsm_capture_set_path failed");
			REQ(c, fsm_capture_has_capture_actions(n.f, at[q.s]) == 1 && fsm_capture_has_capture_actions(n.f, at[q.e]) == 1, "has_actions", "ends of a path have no actions"); }
		std::ostringstream o; o << "L" << li; n.text = o.str();
		check_count(c, w, n);
	} else if (op == 1 || op == 3) {
		int k = op == 3 ? c.range(1, 4) : 2; std::vector<Node> x(k); for (auto &y : x) { tree(c, w, y, depth - 1); post(c, w, y); }
		n.text = op == 3 ? "union_array(" : "union("; for (auto &y : x) n.text += y.text + " "; n.text += ")";
		std::vector<unsigned> base(k);
		if (op == 3) { std::vector<struct fsm *> fs; for (auto &y : x) { fs.push_back(y.f); y.f = nullptr; } std::vector<struct fsm_combined_base_pair> b(k); memset(b.data(), 0xee, k * sizeof b[0]); n.f = fsm_union_array(k, fs.data(), b.data()); for (int i = 0; i < k; i++) base[i] = b[i].capture; }
		else { struct fsm_combine_info ci; memset(&ci, 0xee, sizeof ci); struct fsm *a = x[0].f, *b = x[1].f; x[0].f = x[1].f = nullptr; n.f = fsm_union(a, b, &ci); base[0] = ci.capture_base_a; base[1] = ci.capture_base_b; }
		REQ(c, n.f, "union", "failed");
		n.m.start = n.m.add(); n.tag.push_back({-1, 0});
		for (int i = 0; i < k; i++) { int b = n.m.n(); append(n, x[i], b); n.m.st[n.m.start].eps.insert(b + x[i].m.start); for (auto &y : x[i].inst) n.inst.push_back({y.leaf, y.path_base + base[i]}); }
		std::set<unsigned> seen; for (auto &i : n.inst) for (auto &p : w.leaves[i.leaf].paths) REQ(c, seen.insert(p.id + i.path_base).second, "bases", "reported capture bases make ids collide after " + n.text);
		check_count(c, w, n);
		size_t np = 0; for (auto &i : n.inst) np += w.leaves[i.leaf].paths.size(); if (n.m.n() > (w.lng ? 300 : 70) || n.m.n() * np > 700) c.discard(); // determinisation copies actions to every pair of state sets
		w.ops++;
	} else {
		Node a, b; tree(c, w, a, depth - 1); post(c, w, a); tree(c, w, b, depth - 1); post(c, w, b);
		struct fsm_combine_info ci; memset(&ci, 0xee, sizeof ci); struct fsm *fa = a.f, *fb = b.f; a.f = b.f = nullptr; n.f = fsm_concat(fa, fb, &ci); REQ(c, n.f, "concat", "failed"); n.text = "concat(" + a.text + " " + b.text + ")";
		append(n, a, 0); int base = n.m.n(); append(n, b, base); n.m.start = a.m.start;
		for (int i = 0; i < base; i++) if (n.m.st[i].end) { n.m.st[i].end = false; n.m.st[i].eps.insert(base + b.m.start); }
		for (auto &y : a.inst) n.inst.push_back({y.leaf, y.path_base + ci.capture_base_a}); for (auto &y : b.inst) n.inst.push_back({y.leaf, y.path_base + ci.capture_base_b});
		std::set<unsigned> seen; for (auto &i : n.inst) for (auto &p : w.leaves[i.leaf].paths) REQ(c, seen.insert(p.id + i.path_base).second, "bases", "reported capture bases make ids collide after " + n.text);
		check_count(c, w, n);
		size_t np = 0; for (auto &i : n.inst) np += w.leaves[i.leaf].paths.size(); if (n.m.n() > (w.lng ? 300 : 70) || n.m.n() * np > 700) c.discard(); // determinisation copies actions to every pair of state sets
		w.ops++;
	}
}
std::string show_leaf(const Leaf &l, int i) { std::ostringstream o; o << "L" << i << ":\n" << dump(l.a); for (auto &p : l.paths) o << "  capture " << p.id << ": " << p.s << ".." << p.e << "\n"; return o.str(); }
}
static void spans(pbt::Ctx &c, bool lng) {
	World w; w.lng = lng; w.ids = c.chance(1, 2); Node n; tree(c, w, n, c.range(0, lng ? 1 : 3));
	post(c, w, n);
	auto all = [&] { std::string s = n.text + "\n"; for (size_t i = 0; i < w.leaves.size(); i++) s += show_leaf(w.leaves[i], (int)i); return s; };
	c.describe([&](std::ostream &o) { o << all(); });
	if (n.m.n() > (lng ? 320 : 120)) c.discard();
	if (!isdfa(n.f) || c.chance(1, 2)) { det(c, w, n); n.text = "dfa(" + n.text + ")"; check_count(c, w, n); }
	if (c.chance(1, 2)) { REQ(c, fsm_minimise(n.f), "minimise", "failed"); w.mins++; n.text = "min(" + n.text + ")"; check_count(c, w, n); }
	if (c.chance(1, 8)) { struct fsm *g = fsm_clone(n.f); REQ(c, g, "clone", "failed"); fsm_free(n.f); n.f = g; n.text = "clone(" + n.text + ")"; check_count(c, w, n); }
	unsigned cc = fsm_countcaptures(n.f);
	bool due = false; const Nfa &m = n.m;
	for (int t = 0; t < (lng ? 5 : 12); t++) {
		std::string wd; // a walk over the reference, towards an end
		{ int s = m.start; for (int k = 0; k < (lng ? 400 : 60); k++) { const State &q = m.st[s]; size_t o = q.eps.size() + q.edges.size(); if (q.end && c.chance(1, 3)) break; if (!o) break; size_t i = c.draw(o); if (i < q.eps.size()) { auto it = q.eps.begin(); std::advance(it, i); s = *it; } else { auto &e = q.edges[i - q.eps.size()]; std::vector<int> bs; for (int b = 0; b < 256; b++) if (e.first[b]) bs.push_back(b); wd += (char)c.pick(bs); s = e.second; } } }
		if (c.chance(1, 6) && !wd.empty()) wd[c.draw(wd.size())] = "abcdef"[c.draw(6)];
		size_t L = wd.size(); std::vector<Set> fw(L + 1), bw(L + 1); fw[0] = start_set(m); for (size_t i = 0; i < L; i++) fw[i + 1] = step(m, fw[i], (unsigned char)wd[i]);
		bool acc = label(m, fw[L], 0).end;
		struct fsm_capture *cap = (struct fsm_capture *)malloc(std::max(1u, cc) * sizeof *cap); std::unique_ptr<void, void (*)(void *)> own(cap, free); memset(cap, 0x5a, std::max(1u, cc) * sizeof *cap);
		fsm_state_t end; int r = exec(n.f, wd, &end, cap);
		std::string ctx = "word " + pbt::show(wd) + " on " + all(); 
		REQ(c, r == (acc ? 1 : 0), "match", "exec returned " + std::to_string(r) + " on " + ctx);
		if (c.chance(1, 8)) { fsm_state_t e2; int r2 = exec(n.f, wd, &e2, NULL); REQ(c, r2 == r && (r != 1 || e2 == end), "nocapture", "different result without a capture buffer\n" + ctx); }
		if (!acc) continue;
		// backward: states from which the rest of the word is accepted, restricted to forward-active ones
		for (int i = (int)L; i >= 0; i--) { std::set<int> on(fw[i].begin(), fw[i].end()), good; for (int x : on) { if (i == (int)L && m.st[x].end) good.insert(x); if (i < (int)L) for (auto &e : m.st[x].edges) if (e.first[(unsigned char)wd[i]] && std::binary_search(bw[i + 1].begin(), bw[i + 1].end(), e.second)) good.insert(x); }
			bool ch = true; while (ch) { ch = false; for (int x : on) if (!good.count(x)) for (int y : m.st[x].eps) if (good.count(y)) { good.insert(x); ch = true; break; } } bw[i].assign(good.begin(), good.end()); }
		std::vector<char> known(cc, 0);
		for (auto &in : n.inst) {
			const Leaf &l = w.leaves[in.leaf]; std::vector<int> st(l.a.n(), -1); for (int i = 0; i < m.n(); i++) if (n.tag[i].first == in.leaf) st[n.tag[i].second] = i;
			int entries = 0; for (auto &f : fw) entries += std::binary_search(f.begin(), f.end(), st[0]);
			for (auto &p : l.paths) {
				unsigned id = p.id + in.path_base; REQ(c, id < cc, "id", "id beyond fsm_countcaptures\n" + ctx); known[id] = 1; size_t a = cap[id].pos[0], b = cap[id].pos[1]; bool none = a == FSM_CAPTURE_NO_POS && b == FSM_CAPTURE_NO_POS;
				std::ostringstream got; got << "capture " << id << " (L" << in.leaf << " path " << p.id << "): got "; if (none) got << "nothing"; else got << "[" << a << "," << b << ")";
				REQ(c, none || (a <= b && b <= L), "range", got.str() + "\n" + ctx);
				if (entries > 1) { c.count("re-entered"); continue; }
				long sa = -1, sb = -1; for (size_t i = 0; i <= L; i++) { if (std::binary_search(fw[i].begin(), fw[i].end(), st[p.s])) sa = (long)i; if (sa >= 0 && std::binary_search(fw[i].begin(), fw[i].end(), st[p.e])) sb = (long)i; }
				bool passes = sa >= 0 && sb >= sa;
				if (!passes) { REQ(c, none, "phantom", got.str() + ", but the path was not taken\n" + ctx); continue; }
				bool must = std::binary_search(bw[sb].begin(), bw[sb].end(), st[p.e]);
				std::ostringstream want; want << ", expected [" << sa << "," << sb << ")\n";
				if (none) { REQ(c, !must, "missing", got.str() + want.str() + ctx); continue; }
				REQ(c, (long)a == sa && (long)b == sb, "span", got.str() + want.str() + ctx);
				if (must && sb > sa && (w.ops || lng)) due = true;
				c.count("span"); if (!must) c.count("abandoned"); if (sa == sb) c.count("zero-width");
			}
		}
		for (unsigned i = 0; i < cc; i++) if (!known[i]) REQ(c, cap[i].pos[0] == FSM_CAPTURE_NO_POS && cap[i].pos[1] == FSM_CAPTURE_NO_POS, "unused", "an id that no path uses was captured\n" + ctx);
	}
	if (due) c.nontrivial(); if (w.mins) c.count("minimised"); if (w.ops > 2) c.count("deep");
}
PBT_CASE(spans, 30, "at least one combination, and a word is accepted on which some path of non-zero length is due") { spans(c, false); }
PBT_CASE(far, 1, "chains of up to 150 states, and a word is accepted on which some path of non-zero length is due") { spans(c, true); }
