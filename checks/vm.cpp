// BUILD: variant=san
// Property: compiling any DFA to bytecode, in every encoding and optimisation setting, and matching a buffer or a
// stream gives the verdict of the automaton.
#include "fsmx.hpp"
extern "C" {
#include <fsm/vm.h>
}
using namespace model; using namespace fsmx;

struct Vm { struct fsm_dfavm *v; ~Vm() { if (v) fsm_vm_free(v); } };
struct Cfg { unsigned flags; int out; bool dflt; };
static std::string show_cfg(const Cfg &k) { return k.dflt ? "fsm_vm_compile" : std::string(k.out ? "v2" : "v1") + (k.flags & FSM_VM_COMPILE_OPTIM ? " optim" : "") + " flags=" + std::to_string(k.flags); }
static struct fsm_dfavm *compile(pbt::Ctx &c, const struct fsm *f, const Cfg &k, FILE *log) {
	if (k.dflt) return fsm_vm_compile(f);
	struct fsm_options o; memset(&o, 0, sizeof o); o.comments = fsm_countstates(f) <= 60 && c.chance(1, 6); /* example generation is cubic */ o.ambig = AMBIG_MULTIPLE;
	struct fsm_vm_compile_opts vo; memset(&vo, 0, sizeof vo); vo.flags = k.flags; vo.output = (enum fsm_vm_compile_output)k.out; vo.log = log;
	return fsm_vm_compile_with_options(f, &o, vo);
}
// the model for (large) DFAs: table lookups
struct Tab { std::vector<std::vector<int>> to; std::vector<char> end; int start;
	explicit Tab(const Nfa &a) : start(a.start) { to.resize(a.n()); for (int i = 0; i < a.n(); i++) { to[i].assign(256, -1); end.push_back(a.st[i].end); for (auto &e : a.st[i].edges) for (int b = 0; b < 256; b++) if (e.first[b]) to[i][b] = e.second; } }
	bool run(const std::string &w) const { int s = start; for (unsigned char ch : w) { s = to[s][ch]; if (s < 0) return false; } return end[s]; } };

static void verify(pbt::Ctx &c, const Nfa &a, const std::vector<std::string> &words, const std::vector<Cfg> &cfgs, bool show_dump) {
	Fsm f(build(c, a)); Tab t(a); int acc = 0, rej = 0;
	for (auto &k : cfgs) {
		char *lb = nullptr; size_t ln = 0; FILE *log = open_memstream(&lb, &ln);
		Vm vm{compile(c, f, k, log)}; fclose(log); free(lb);
		std::string where = show_cfg(k) + "\n" + (show_dump ? dump(a) : std::to_string(a.n()) + " states\n");
		REQ(c, vm.v, "vm:compile", "compilation failed under " + where);
		for (auto &w : words) {
			bool want = t.run(w); (want ? acc : rej)++;
			std::string ctx = "word " + (w.size() < 300 ? pbt::show(w) : std::to_string(w.size()) + " bytes") + " expected " + (want ? "match" : "no match") + " under " + where;
			std::vector<char> exact(w.begin(), w.end());      // heap copy: over-reads are seen by the sanitizer
			int r = fsm_vm_match_buffer(vm.v, exact.data(), exact.size());
			REQ(c, r == 0 || r == 1, "vm:buffer:value", ctx);
			REQ(c, r == (int)want, want ? "vm:buffer:rejects" : "vm:buffer:accepts", ctx);
			FILE *fp;
			if (w.empty()) fp = fopen("/dev/null", "rb"); else fp = fmemopen(exact.data(), exact.size(), "rb");
			REQ(c, fp, "harness", "fmemopen");
			r = fsm_vm_match_file(vm.v, fp); fclose(fp);
			REQ(c, r == 0 || r == 1, "vm:file:value", ctx);
			REQ(c, r == (int)want, want ? "vm:file:rejects" : "vm:file:accepts", ctx);
			// matching is repeatable: nothing is kept between runs
			if (w.size() < 100) REQ(c, fsm_vm_match_buffer(vm.v, exact.data(), exact.size()) == (int)want, "vm:repeat", ctx);
		}
	}
	if (acc && rej) c.nontrivial();
}
static std::vector<Cfg> all_cfgs(bool print) {
	std::vector<Cfg> v; v.push_back({0, 0, true});
	for (int out = 0; out < 2; out++) for (unsigned fl : {0u, 8u}) v.push_back({fl, out, false});
	if (print) for (int out = 0; out < 2; out++) v.push_back({1 | 2 | 4 | 8, out, false});
	return v;
}

PBT_CASE(small, 8, "a DFA with >=1 accepted and >=1 rejected word, run in both encodings with and without optimisation") {
	GenOpts o; o.dfa = true; o.max_states = 9; o.big_ids = true; Nfa a = gen_nfa(c, o);
	// tables with many ranges: partial, dominant, error and complete states
	if (c.chance(1, 2)) for (int s = 0; s < a.n(); s++) if (c.chance(1, 2)) {
		int n = c.range(1, 24); std::vector<int> tab(256, c.chance(1, 2) ? (int)c.draw(a.n()) : -1);
		while (n--) { int lo = c.draw(256), hi = c.chance(1, 2) ? lo : std::min<int>(255, lo + c.draw(c.chance(1, 2) ? 6 : 120)); int t = c.chance(1, 4) ? -1 : (int)c.draw(a.n()); for (int b = lo; b <= hi; b++) tab[b] = t; }
		a.st[s].edges.clear(); for (int b = 0; b < 256; b++) if (tab[b] >= 0) { Bits x; x.set(b); a.st[s].add(x, tab[b]); }
	}
	std::vector<std::string> ws; int n = c.range(1, 8); while (n--) ws.push_back(gen_word(c, a));
	ws.push_back("");
	c.describe([&](std::ostream &s) { s << dump(a); for (auto &w : ws) s << pbt::show(w) << " "; });
	verify(c, a, ws, all_cfgs(c.chance(1, 4)), true);
}

// every byte on every state: exhaustive over one step
PBT_CASE(bytes, 3, "a state whose edges send bytes to at least two places, executed on every byte") {
	GenOpts o; o.dfa = true; o.ids = false; o.max_states = 4; Nfa a = gen_nfa(c, o); int s = a.start;
	int runs = c.range(1, 40), at = 0; a.st[s].edges.clear();
	for (int i = 0; i < runs && at < 256; i++) { int len = c.chance(1, 2) ? 1 : c.range(1, 30); int t = (int)c.draw(a.n() + 1) - 1; Bits x; for (int b = at; b < at + len && b < 256; b++) x.set(b); at += len; if (t >= 0) a.st[s].add(x, t); }
	if (at < 256 && c.chance(1, 2)) { Bits x; for (int b = at; b < 256; b++) x.set(b); a.st[s].add(x, (int)c.draw(a.n())); }
	std::vector<std::string> ws; for (int b = 0; b < 256; b++) ws.push_back(std::string(1, (char)b));
	c.describe([&](std::ostream &o2) { o2 << dump(a); });
	Cfg k{c.chance(1, 2) ? 8u : 0u, (int)c.draw(2), c.chance(1, 5)};
	verify(c, a, ws, {k}, true);
}

// long inputs: the stream reader's buffer boundary (4096) falls anywhere in the match
PBT_CASE(stream, 2, "input longer than one stream buffer with an accepting and a rejecting word") {
	GenOpts o; o.dfa = true; o.ids = false; o.max_states = 6; Nfa a = gen_nfa(c, o);
	// make it loop so that long words stay alive
	for (int s = 0; s < a.n(); s++) { Bits u; for (auto &e : a.st[s].edges) u |= e.first; if (c.chance(7, 8)) { Bits x; x.set('a'); if (!u['a']) a.st[s].add(x, (int)c.draw(a.n())); x.reset(); x.set('b'); if (!u['b']) a.st[s].add(x, (int)c.draw(a.n())); } }
	Tab t(a); std::vector<std::string> ws; int n = c.range(1, 4);
	while (n--) {
		static const int base[] = {4096, 8192, 1, 4095, 12288}; size_t len = base[c.draw(5)] + c.range(-1, 2);
		uint64_t seed = c.draw(1u << 30) * 2654435761u + 1; std::string w; int s = t.start;
		for (size_t i = 0; i < len; i++) { seed = seed * 6364136223846793005ull + 1442695040888963407ull; unsigned char ch = "ab"[(seed >> 40) & 1]; if (s >= 0 && t.to[s][ch] < 0) ch ^= 3; w += (char)ch; if (s >= 0) s = t.to[s][ch]; }
		if (c.chance(1, 3) && !w.empty()) w[w.size() - 1] = (char)gen_byte(c);
		ws.push_back(w); if (c.chance(1, 2)) ws.push_back(w + "a");
	}
	c.describe([&](std::ostream &o2) { o2 << dump(a); for (auto &w : ws) o2 << w.size() << " "; });
	Cfg k{c.chance(1, 2) ? 8u : 0u, (int)c.draw(2), c.chance(1, 5)};
	verify(c, a, ws, {k}, true);
}

// programs large enough for every branch width: chains whose states branch near and far
// a walk over as many edges as there is room for (first and last byte of each range), and some of its prefixes
static void cover(pbt::Ctx &c, const Tab &t, size_t limit, std::vector<std::string> &ws) {
	int n = (int)t.to.size(); std::vector<std::vector<unsigned char>> todo(n); size_t left = 0;
	for (int s = 0; s < n; s++) { for (int b = 255; b >= 0; b--) if (t.to[s][b] >= 0 && (b == 0 || b == 255 || t.to[s][b - 1] != t.to[s][b] || t.to[s][b + 1] != t.to[s][b])) todo[s].push_back((unsigned char)b); left += todo[s].size(); }
	std::string w; int s = t.start; std::vector<unsigned> visits(n, 0);
	while (left && w.size() < limit && s >= 0) { unsigned char ch = 'a'; if (!todo[s].empty()) { ch = todo[s].back(); todo[s].pop_back(); left--; } else if (t.to[s]['a'] < 0) break; w += (char)ch; s = t.to[s][ch]; }
	for (int i = 0; i < 3 && !w.empty(); i++) ws.push_back(w.substr(0, 1 + c.draw((uint64_t)w.size()))); ws.push_back(w); c.count(left ? "cover:part" : "cover:all");
}
static void big(pbt::Ctx &c, int lo, int hi, int maxcases) {
	int n = c.range(lo, hi); Nfa a; for (int i = 0; i < n; i++) a.add(); a.start = c.chance(1, 4) ? (int)c.draw(n) : 0;
	uint64_t seed = c.draw(1u << 30) * 2654435761u + 7; auto rnd = [&](unsigned m) { seed = seed * 6364136223846793005ull + 1442695040888963407ull; return (unsigned)((seed >> 33) % m); };
	int style = (int)c.draw(3); int per = c.range(1, maxcases);
	for (int i = 0; i < n; i++) {
		std::vector<int> tab(256, -1); if (style == 2 && rnd(3) == 0) std::fill(tab.begin(), tab.end(), (int)rnd(n));
		int k = 1 + rnd(per);
		for (int j = 0; j < k; j++) tab[style == 0 ? 'a' + rnd(4) : rnd(256)] = rnd(3) == 0 ? (int)rnd(n) : rnd(2) ? (i + 1) % n : std::min<int>(n - 1, std::max<int>(0, i + (int)rnd(80) - 40));
		tab['a'] = (i + 1) % n;
		std::map<int, Bits> m; for (int b = 0; b < 256; b++) if (tab[b] >= 0) m[tab[b]].set(b);
		for (auto &e : m) a.st[i].edges.push_back({e.second, e.first});
		a.st[i].end = rnd(3) == 0;
	}
	Tab t(a); std::vector<std::string> ws; int nw = c.range(2, 6);
	while (nw--) {
		std::string w; int s = t.start; size_t len = rnd(2) ? rnd(40) : rnd(3 * n);
		for (size_t i = 0; i < len && s >= 0; i++) { unsigned char ch = 'a'; if (rnd(2)) { int tries = 20; ch = rnd(256); while (tries-- && t.to[s][ch] < 0) ch = style == 0 ? 'a' + rnd(4) : rnd(256); if (t.to[s][ch] < 0 && rnd(30)) ch = 'a'; } w += (char)ch; s = t.to[s][ch]; }
		ws.push_back(w);
	}
	if (c.chance(1, 2)) cover(c, t, 400000, ws);
	c.describe([&](std::ostream &o) { o << n << " states style " << style << " per " << per; });
	Cfg k{c.chance(1, 2) ? 8u : 0u, (int)c.draw(2), c.chance(1, 8)};
	verify(c, a, ws, {k}, false);
	c.count(k.out && !k.dflt ? "v2" : "v1");
}
PBT_CASE(medium, 2, "a program longer than the reach of one-byte branches") { big(c, 20, 400, 6); }
PBT_CASE(large, 1, "a program longer than the reach of two-byte branches (v1) and of relative branches (v2)") { if (!c.chance(1, 5)) big(c, 400, 1500, 12); else big(c, 3000, 6000, 16); }
// more far branches than the fixed encoding's 16-bit address index can number
PBT_CASE(huge, 1, "more than 65536 branches out of the reach of relative branches") {
	if (!c.chance(1, 12)) c.discard();
	int n = c.range(9000, 11000), per = c.range(14, 18); Nfa a; for (int i = 0; i < n; i++) a.add(); a.start = 0;
	uint64_t seed = c.draw(1u << 30) * 2654435761u + 7; auto rnd = [&](unsigned m) { seed = seed * 6364136223846793005ull + 1442695040888963407ull; return (unsigned)((seed >> 33) % m); };
	for (int i = 0; i < n; i++) { for (int j = 0; j < per; j++) { Bits x; x.set('a' + 2 * j); int t = j ? (int)rnd(n) : (i + 1) % n; bool dup = false; for (auto &e : a.st[i].edges) dup |= e.second == t; if (!dup) a.st[i].edges.push_back({x, t}); } a.st[i].end = rnd(2); }
	std::vector<std::string> ws; int nw = c.range(2, 6); Tab t(a);
	while (nw--) { std::string w; int s = 0; for (int k = 0; k < 3000 && s >= 0; k++) { unsigned char ch = 'a' + 2 * rnd(per); if (t.to[s][ch] < 0) ch = 'a'; w += (char)ch; s = t.to[s][ch]; } ws.push_back(w); }
	if (c.chance(1, 3)) cover(c, t, 150000, ws);
	c.describe([&](std::ostream &o) { o << n << " states, " << per << " edges each"; });
	verify(c, a, ws, {{c.chance(1, 2) ? 8u : 0u, c.chance(1, 4) ? 0 : 1, false}}, false);
}
