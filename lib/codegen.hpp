// Shared by the code generation checks: automata worth generating code for, and words that decide whether a program
// with no more states than the automaton is the automaton (the W method: access words x bytes x distinguishing suffixes).
#pragma once
#include <random>
#include "fsmx.hpp"
#include <unistd.h>
#include <sys/mman.h>
namespace codegen {
using namespace model; using namespace fsmx;

inline std::string print(pbt::Ctx &c, const struct fsm *f, const struct fsm_options &o, enum fsm_print_lang lang, const struct fsm_hooks *h = NULL) {
	char *b = nullptr; size_t n = 0; FILE *fp = open_memstream(&b, &n); errno = 0; int r = fsm_print(fp, f, &o, h, lang); fclose(fp); std::string s(b, n); free(b);
	REQ(c, r == 0, "print:fails", "fsm_print returned " + std::to_string(r) + " errno " + std::to_string(errno)); return s;
}
// ids on ends only; states with rich edge groups, so that every IR strategy occurs; runs of single bytes
inline Nfa gen_dfa(pbt::Ctx &c, int max, bool every_end_has_ids, bool one_id = false, bool eager = false) {
	GenOpts o; o.max_states = max; o.dfa = true; o.ids = true; o.big_ids = true; o.must_start = false; o.eager = eager; Nfa a = gen_nfa(c, o);
	for (auto &s : a.st) if (c.chance(1, 3)) {
		s.edges.clear(); std::vector<int> to(256, -1); int k = c.range(1, 3), base = c.chance(2, 3) ? (int)c.draw(a.n()) : -1; if (base >= 0) to.assign(256, base);
		while (k--) { int lo = gen_byte(c), hi = c.chance(1, 2) ? lo : gen_byte(c); if (lo > hi) std::swap(lo, hi); int t = c.chance(1, 4) ? -1 : (int)c.draw(a.n()); for (int b = lo; b <= hi; b++) to[b] = t; }
		for (int b = 0; b < 256; b++) if (to[b] >= 0) { Bits x; x.set(b); s.add(x, to[b]); }
	}
	if (a.n() && c.chance(1, 3)) { // a literal run, from somewhere to somewhere
		int from = (int)c.draw(a.n()), len = c.chance(1, 12) ? c.range(20, 60) : c.range(2, 7), t = (int)c.draw(a.n()); bool only = c.chance(1, 2);
		if (only) a.st[from].edges.clear(); int s = from; Bits used; for (auto &e : a.st[s].edges) used |= e.first;
		for (int i = 0; i < len; i++) { Bits x; unsigned char ch = gen_byte(c); x.set(ch); if (i == 0 && used[ch]) break; int nx = i + 1 == len ? t : a.add(); a.st[s].add(x, nx); s = nx; if (s >= 0 && c.chance(1, 12)) { a.st[s].end = true; } }
	}
	if (one_id) for (auto &s : a.st) while (s.ids.size() > 1) s.ids.erase(s.ids.begin());
	if (every_end_has_ids) for (auto &s : a.st) if (s.end && s.ids.empty()) s.ids.insert(gen_id(c, 4, true));
	return a;
}
// more states than a byte numbers: words with shared beginnings, some states with ranges that lead back
inline Nfa gen_large(pbt::Ctx &c, std::vector<std::string> &ws, bool every_end_has_ids, bool one_id, int maxwords) {
	uint32_t seed = (uint32_t)c.draw(1u << 30); std::mt19937_64 r(seed); auto rnd = [&](size_t n) { return (size_t)(r() % n); }; int n = c.range(40, maxwords), letters = c.chance(1, 3) ? 255 : c.range(2, 12); Nfa a; a.start = a.add(); std::vector<std::map<unsigned char, int>> to(1); ws.assign(1, "");
	auto letter = [&] { return (unsigned char)(letters == 255 ? 1 + rnd(255) : 'a' + rnd(letters)); }; std::vector<std::string> w;
	for (int i = 0; i < n; i++) { std::string x; if (i && rnd(2)) { x = w[rnd(i)]; x.resize(rnd(x.size() + 1)); } int len = 2 + (int)rnd(10); while ((int)x.size() < len) x += (char)letter(); w.push_back(x); int s = 0; for (unsigned char ch : x) { auto it = to[s].find(ch); if (it != to[s].end()) { s = it->second; continue; } int t = a.add(); to.emplace_back(); to[s][ch] = t; s = t; } a.st[s].end = true; if (every_end_has_ids || rnd(2)) a.st[s].ids.insert((unsigned)rnd(2) ? (unsigned)rnd(3000) : (unsigned)r()); }
	for (int i = 0; i < n / 4; i++) { int s = (int)rnd(a.n()), t = (int)rnd(a.n()); int lo = (int)rnd(256), hi = (int)rnd(256); if (lo > hi) std::swap(lo, hi); if (rnd(3) == 0) lo = 0, hi = 255; for (int b = lo; b <= hi; b++) to[s].insert({(unsigned char)b, t}); }
	for (int s = 0; s < a.n(); s++) { std::map<int, Bits> by; for (auto &e : to[s]) by[e.second].set(e.first); for (auto &e : by) a.st[s].add(e.second, e.first); if (one_id) while (a.st[s].ids.size() > 1) a.st[s].ids.erase(a.st[s].ids.begin()); }
	for (auto &x : w) { ws.push_back(x); std::string y = x; y[rnd(y.size())] = (char)letter(); ws.push_back(y); ws.push_back(x + (char)letter()); ws.push_back(x.substr(0, rnd(x.size()))); ws.push_back(x + w[rnd(w.size())]); std::string z; int s = 0; for (int k = (int)rnd(30); k >= 0 && !to[s].empty(); k--) { auto it = to[s].begin(); std::advance(it, rnd(to[s].size())); z += (char)it->first; s = it->second; } ws.push_back(z); }
	return a;
}
// words to run. Complete for programs with at most as many states as the automaton; `bytes` adds every byte on every state.
inline std::vector<std::string> words(pbt::Ctx &c, const Nfa &a, bool bytes, size_t max_words, int mode = CMP_IDS) {
	std::vector<std::string> r; Dfa d = subset(a, mode, 2000); std::vector<std::string> acc(d.n()); std::vector<char> seen(d.n(), 0); std::vector<int> q{0}; seen[0] = 1;
	for (size_t i = 0; i < q.size(); i++) for (size_t k = 0; k < d.sym.size(); k++) { int t = d.to[q[i]][k]; if (!seen[t]) { seen[t] = 1; acc[t] = acc[q[i]] + (char)d.sym[k]; q.push_back(t); } }
	// distinguishing suffixes: split classes until stable, remembering a suffix for each pair of classes
	std::vector<std::string> w{""}; auto sig = [&](int s) { std::vector<Label> v; for (auto &x : w) { int t = s; for (unsigned char ch : x) t = d.to[t][std::lower_bound(d.sym.begin(), d.sym.end(), ch) - d.sym.begin()]; v.push_back(d.lab[t]); } return v; };
	std::sort(q.begin(), q.end());
	for (bool more = true; more && w.size() < 40;) { more = false; std::map<std::vector<Label>, int> cls; std::vector<int> of(d.n()); for (int s = 0; s < d.n(); s++) of[s] = cls.insert({sig(s), (int)cls.size()}).first->second;
		for (int s = 0; s < d.n() && !more; s++) for (int t = 0; t < s && !more; t++) if (of[s] == of[t]) for (size_t k = 0; k < d.sym.size() && !more; k++) { int x = d.to[s][k], y = d.to[t][k]; if (of[x] != of[y]) { auto sx = sig(x), sy = sig(y); for (size_t j = 0; j < w.size(); j++) if (!(sx[j] == sy[j])) { w.push_back(std::string(1, (char)d.sym[k]) + w[j]); more = true; break; } } } }
	r.push_back(""); for (auto &x : w) r.push_back(x);
	for (int s : q) for (size_t k = 0; k < d.sym.size(); k++) for (auto &x : w) r.push_back(acc[s] + (char)d.sym[k] + x);
	if (r.size() > max_words) { for (size_t i = 0; i < max_words; i++) std::swap(r[i], r[i + c.draw(r.size() - i)]); r.resize(max_words); }
	if (bytes) for (int s : q) { if (r.size() > 3 * max_words) break; for (int b = 0; b < 256; b++) r.push_back(acc[s] + (char)b + w[(s + b) % w.size()]); }
	int n = c.range(2, 8); while (n--) r.push_back(gen_word(c, a, 20));
	return r;
}
// table-driven reference for many words
struct Tab { std::vector<std::vector<int>> to; const Nfa *a; int start;
	explicit Tab(const Nfa &n) : a(&n), start(n.start) { to.resize(n.n()); for (int i = 0; i < n.n(); i++) { to[i].assign(256, -1); for (auto &e : n.st[i].edges) for (int b = 0; b < 256; b++) if (e.first[b]) to[i][b] = e.second; } }
	Label run(const std::string &w) const { Label l; int s = start; if (s < 0) return l; l.eager = a->st[s].eager; for (unsigned char ch : w) { s = to[s][ch]; if (s < 0) { l.eager.clear(); return l; } l.eager.insert(a->st[s].eager.begin(), a->st[s].eager.end()); } l.end = a->st[s].end; if (l.end) l.ids = a->st[s].ids; else l.eager.clear(); return l; } };
// input placed right against unmapped pages, after or before
struct Guarded { char *base = nullptr; size_t page, cap; explicit Guarded(size_t max = 20480) { page = (size_t)sysconf(_SC_PAGESIZE); cap = (max + page - 1) / page * page; base = (char *)mmap(NULL, cap + 2 * page, PROT_NONE, MAP_PRIVATE | MAP_ANONYMOUS, -1, 0); mprotect(base + page, cap, PROT_READ | PROT_WRITE); }
	~Guarded() { munmap(base, cap + 2 * page); }
	char *at_end(const char *p, size_t n) { char *q = base + page + cap - n; if (n) memcpy(q, p, n); return q; }
	char *at_start(const char *p, size_t n) { char *q = base + page; if (n) memcpy(q, p, n); return q; } };
inline bool write_file(const std::string &p, const std::string &s) { FILE *f = fopen(p.c_str(), "w"); if (!f) return false; bool ok = fwrite(s.data(), 1, s.size(), f) == s.size(); return fclose(f) == 0 && ok; }
inline std::string read_file(const std::string &p, size_t max = 4000) { std::string s; FILE *f = fopen(p.c_str(), "r"); if (!f) return s; char b[4096]; size_t n; while ((n = fread(b, 1, sizeof b, f)) > 0 && s.size() < max) s.append(b, n); fclose(f); return s; }
inline std::string show_opt(const struct fsm_options &o) { std::ostringstream s; s << "io " << o.io << " ambig " << (o.ambig == AMBIG_NONE ? "none" : o.ambig == AMBIG_ERROR ? "error" : o.ambig == AMBIG_EARLIEST ? "earliest" : "multiple") << " comments " << o.comments << " case_ranges " << o.case_ranges << " hex " << o.always_hex << " fragment " << o.fragment << " prefix " << (o.prefix ? o.prefix : "-"); return s.str(); }
}
