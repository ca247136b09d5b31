// Reference model of finite automata, independent of libfsm: explicit NFAs with byte-set labels,
// subset simulation, product equivalence with shortest counterexample, Moore minimisation.
#pragma once
#include <algorithm>
#include <bitset>
#include <climits>
#include <cstdint>
#include <deque>
#include <functional>
#include <map>
#include <set>
#include <sstream>
#include <string>
#include <unordered_map>
#include <vector>
#include "pbt.hpp"

namespace model {

typedef std::bitset<256> Bits;
typedef unsigned id_t;

struct State {
	std::vector<std::pair<Bits, int>> edges;
	std::set<int> eps;
	bool end = false;
	std::set<id_t> ids;    // endids
	std::set<id_t> eager;  // eager outputs
	void add(const Bits &b, int to) { for (auto &e : edges) if (e.second == to) { e.first |= b; return; } edges.push_back({b, to}); }
};

struct Nfa {
	std::vector<State> st;
	int start = -1;
	int n() const { return (int)st.size(); }
	int add() { st.emplace_back(); return n() - 1; }
	bool has_eps() const { for (auto &s : st) if (!s.eps.empty()) return true; return false; }
	bool has_ids() const { for (auto &s : st) if (!s.ids.empty()) return true; return false; }
	bool has_eager() const { for (auto &s : st) if (!s.eager.empty()) return true; return false; }
	size_t edge_count() const { size_t c = 0; for (auto &s : st) { c += s.eps.size(); for (auto &e : s.edges) c += e.first.count(); } return c; }
};

typedef std::vector<int> Set; // sorted, closed

inline void closure(const Nfa &a, Set &s) {
	std::vector<char> seen(a.n(), 0); std::vector<int> st;
	for (int x : s) if (!seen[x]) { seen[x] = 1; st.push_back(x); }
	s.clear();
	while (!st.empty()) { int x = st.back(); st.pop_back(); s.push_back(x); for (int y : a.st[x].eps) if (!seen[y]) { seen[y] = 1; st.push_back(y); } }
	std::sort(s.begin(), s.end());
}
inline Set start_set(const Nfa &a) { Set s; if (a.start >= 0) { s.push_back(a.start); closure(a, s); } return s; }
inline Set step(const Nfa &a, const Set &s, unsigned char c) {
	Set r; for (int x : s) for (auto &e : a.st[x].edges) if (e.first[c]) r.push_back(e.second);
	std::sort(r.begin(), r.end()); r.erase(std::unique(r.begin(), r.end()), r.end());
	if (!r.empty()) closure(a, r);
	return r;
}

struct Label {
	bool end = false; std::set<id_t> ids, eager;
	bool operator==(const Label &o) const { return end == o.end && ids == o.ids && eager == o.eager; }
	bool operator<(const Label &o) const { return std::tie(end, ids, eager) < std::tie(o.end, o.ids, o.eager); }
};
enum { CMP_LANG = 0, CMP_IDS = 1, CMP_EAGER = 2 };
inline Label label(const Nfa &a, const Set &s, int mode) {
	Label l;
	for (int x : s) {
		if (a.st[x].end) { l.end = true; if (mode & CMP_IDS) l.ids.insert(a.st[x].ids.begin(), a.st[x].ids.end()); }
		if (mode & CMP_EAGER) l.eager.insert(a.st[x].eager.begin(), a.st[x].eager.end());
	}
	return l;
}
inline std::string show_label(const Label &l) {
	std::ostringstream o; o << (l.end ? "accept" : "reject") << " ids={"; for (auto i : l.ids) o << i << " "; o << "} eager={"; for (auto i : l.eager) o << i << " "; o << "}";
	return o.str();
}

inline bool accepts(const Nfa &a, const std::string &w) { Set s = start_set(a); for (unsigned char c : w) { s = step(a, s, c); if (s.empty()) return false; } return label(a, s, 0).end; }
inline Label run_label(const Nfa &a, const std::string &w, int mode) { Set s = start_set(a); for (unsigned char c : w) s = step(a, s, c); return label(a, s, mode); }

// representative bytes: one per class of bytes indistinguishable by any edge label
inline std::vector<unsigned char> reps(const std::vector<const Nfa *> &as, std::vector<int> *classof = nullptr) {
	std::vector<int> cls(256, 0); int nc = 1;
	std::set<std::string> done;
	for (auto a : as) for (auto &s : a->st) for (auto &e : s.edges) {
		std::string key((const char *)&e.first, sizeof e.first); if (!done.insert(key).second) continue;
		std::map<int, int> nw; bool any = false;
		// split each class
		std::map<int, std::pair<bool, bool>> has;
		for (int c = 0; c < 256; c++) { auto &h = has[cls[c]]; (e.first[c] ? h.first : h.second) = true; }
		for (int c = 0; c < 256; c++) if (e.first[c]) { auto &h = has[cls[c]]; if (h.first && h.second) { auto it = nw.find(cls[c]); if (it == nw.end()) it = nw.insert({cls[c], nc++}).first; cls[c] = -1 - it->second; any = true; } }
		if (any) for (int c = 0; c < 256; c++) if (cls[c] < 0) cls[c] = -1 - cls[c];
	}
	std::vector<unsigned char> r; std::set<int> seen;
	for (int c = 0; c < 256; c++) if (seen.insert(cls[c]).second) r.push_back((unsigned char)c);
	if (classof) *classof = cls;
	return r;
}

struct TooBig {};
struct SetHash { size_t operator()(const Set &s) const { size_t h = 1469598103934665603ull; for (int x : s) { h ^= (size_t)x + 0x9e3779b9; h *= 1099511628211ull; } return h; } };

// deterministic, complete view of an NFA: states are reachable subsets (the empty set is the sink)
struct Dfa {
	std::vector<unsigned char> sym;            // representative bytes
	std::vector<std::vector<int>> to;          // [state][symbol]
	std::vector<Label> lab; std::vector<Set> sets;
	int n() const { return (int)to.size(); }
};
inline Dfa subset(const Nfa &a, int mode, size_t limit = 20000, const std::vector<unsigned char> *syms = nullptr) {
	Dfa d; d.sym = syms ? *syms : reps({&a});
	std::unordered_map<Set, int, SetHash> id; std::deque<int> q;
	auto get = [&](const Set &s) { auto it = id.find(s); if (it != id.end()) return it->second; if (d.sets.size() >= limit) throw TooBig(); int k = (int)d.sets.size(); id[s] = k; d.sets.push_back(s); d.lab.push_back(label(a, s, mode)); d.to.emplace_back(); q.push_back(k); return k; };
	get(start_set(a));
	while (!q.empty()) { int k = q.front(); q.pop_front(); std::vector<int> t; for (unsigned char c : d.sym) { Set s = d.sets[k]; t.push_back(get(step(a, s, c))); } d.to[k] = t; }
	return d;
}

// joint exploration of two NFAs; returns true if equivalent under mode, else a shortest witness
inline bool equivalent(const Nfa &a, const Nfa &b, int mode, std::string *w = nullptr, size_t limit = 40000) {
	std::vector<unsigned char> sy = reps({&a, &b});
	typedef std::pair<Set, Set> P; std::map<P, int> id; std::vector<P> v; std::vector<std::pair<int, unsigned char>> par;
	P p0(start_set(a), start_set(b)); id[p0] = 0; v.push_back(p0); par.push_back({-1, 0});
	for (size_t k = 0; k < v.size(); k++) {
		if (!(label(a, v[k].first, mode) == label(b, v[k].second, mode))) {
			if (w) { w->clear(); for (int x = (int)k; par[x].first >= 0; x = par[x].first) *w += (char)par[x].second; std::reverse(w->begin(), w->end()); }
			return false;
		}
		for (unsigned char c : sy) {
			P p(step(a, v[k].first, c), step(b, v[k].second, c));
			if (p.first.empty() && p.second.empty()) continue;
			if (id.count(p)) continue;
			if (v.size() >= limit) throw TooBig();
			id[p] = (int)v.size(); v.push_back(p); par.push_back({(int)k, c});
		}
	}
	return true;
}
// as equivalent(), against a boolean combination of two automata
inline bool equivalent_op(const Nfa &r, const Nfa &a, const Nfa &b, std::function<bool(bool, bool)> op, std::string *w, size_t limit = 40000) {
	std::vector<unsigned char> sy = reps({&a, &b, &r});
	typedef std::tuple<Set, Set, Set> P; std::map<P, int> id; std::vector<P> v; std::vector<std::pair<int, unsigned char>> par;
	P p0(start_set(r), start_set(a), start_set(b)); id[p0] = 0; v.push_back(p0); par.push_back({-1, 0});
	for (size_t k = 0; k < v.size(); k++) {
		P cur = v[k];
		if (label(r, std::get<0>(cur), 0).end != op(label(a, std::get<1>(cur), 0).end, label(b, std::get<2>(cur), 0).end)) {
			if (w) { w->clear(); for (int x = (int)k; par[x].first >= 0; x = par[x].first) *w += (char)par[x].second; std::reverse(w->begin(), w->end()); }
			return false;
		}
		for (unsigned char c : sy) {
			P p(step(r, std::get<0>(cur), c), step(a, std::get<1>(cur), c), step(b, std::get<2>(cur), c));
			if (id.count(p)) continue;
			if (v.size() >= limit) throw TooBig();
			id[p] = (int)v.size(); v.push_back(p); par.push_back({(int)k, c});
		}
	}
	return true;
}

inline bool empty_lang(const Nfa &a) {
	if (a.start < 0) return true;
	std::vector<char> seen(a.n(), 0); std::vector<int> st{a.start}; seen[a.start] = 1;
	while (!st.empty()) { int x = st.back(); st.pop_back(); if (a.st[x].end) return false; auto go = [&](int y) { if (!seen[y]) { seen[y] = 1; st.push_back(y); } }; for (int y : a.st[x].eps) go(y); for (auto &e : a.st[x].edges) if (e.first.any()) go(e.second); }
	return true;
}

// Moore partition refinement of a complete DFA; returns class per state
inline std::vector<int> moore(const Dfa &d) {
	std::vector<int> cls(d.n()); { std::map<Label, int> m; for (int i = 0; i < d.n(); i++) { auto it = m.insert({d.lab[i], (int)m.size()}).first; cls[i] = it->second; } }
	size_t prev = 0;
	for (;;) {
		std::map<std::vector<int>, int> m; std::vector<int> nc(d.n());
		for (int i = 0; i < d.n(); i++) { std::vector<int> k{cls[i]}; for (int t : d.to[i]) k.push_back(cls[t]); nc[i] = m.insert({k, (int)m.size()}).first->second; }
		cls = nc; if (m.size() == prev) break; prev = m.size();
	}
	return cls;
}
// states from which an accepting state is reachable
inline std::vector<char> live(const Dfa &d) {
	std::vector<std::vector<int>> rev(d.n()); for (int i = 0; i < d.n(); i++) for (int t : d.to[i]) rev[t].push_back(i);
	std::vector<char> l(d.n(), 0); std::vector<int> st; for (int i = 0; i < d.n(); i++) if (d.lab[i].end) { l[i] = 1; st.push_back(i); }
	while (!st.empty()) { int x = st.back(); st.pop_back(); for (int y : rev[x]) if (!l[y]) { l[y] = 1; st.push_back(y); } }
	return l;
}
// number of states of the minimal trimmed (partial) DFA
inline size_t minimal_states(const Dfa &d) { auto c = moore(d); auto l = live(d); std::set<int> s; for (int i = 0; i < d.n(); i++) if (l[i]) s.insert(c[i]); return s.size(); }

inline std::string dump(const Nfa &a) {
	std::ostringstream o; o << "start=" << a.start << " states=" << a.n() << "\n";
	for (int i = 0; i < a.n(); i++) {
		const State &s = a.st[i]; o << "  " << i << (s.end ? " END" : "");
		if (!s.ids.empty()) { o << " ids{"; for (auto x : s.ids) o << x << " "; o << "}"; }
		if (!s.eager.empty()) { o << " eager{"; for (auto x : s.eager) o << x << " "; o << "}"; }
		for (auto &e : s.edges) {
			o << " -["; int cnt = 0;
			for (int c = 0; c < 256; c++) if (e.first[c]) { int b = c; while (b < 255 && e.first[b + 1]) b++; std::string q = pbt::show(std::string(1, (char)c)); o << q.substr(1, q.size() - 2); if (b > c) { q = pbt::show(std::string(1, (char)b)); o << "-" << q.substr(1, q.size() - 2); } c = b; if (++cnt > 8) { o << "..."; break; } }
			o << "]->" << e.second;
		}
		if (!s.eps.empty()) { o << " eps->"; for (int e : s.eps) o << e << ","; }
		o << "\n";
	}
	return o.str();
}

// a byte-set generator: single bytes from a small alphabet, ranges, pairs, everything
inline unsigned char gen_byte(pbt::Ctx &c) {
	switch (c.weighted({10, 3, 2})) {
	case 0: return (unsigned char)("abcd"[c.draw(4)]);
	case 1: { static const unsigned char sp[] = {0, 1, 9, 10, 13, 32, '"', '\\', '\'', '/', '*', '?', '-', ']', '[', '%', '$', '`', '#', 0x7f, 0x80, 0xc3, 0xfe, 0xff, '0', '9', 'A', 'Z', 'z', 63, 64, 127, 128, 191, 192}; return sp[c.draw(sizeof sp)]; }
	default: return (unsigned char)c.draw(256);
	}
}
inline Bits gen_bits(pbt::Ctx &c) {
	Bits b;
	switch (c.weighted({12, 3, 2, 1, 1})) {
	case 0: b.set(gen_byte(c)); break;
	case 1: { int n = c.range(2, 4); while (n--) b.set(gen_byte(c)); break; }
	case 2: { int lo = gen_byte(c), hi = gen_byte(c); if (lo > hi) std::swap(lo, hi); for (int i = lo; i <= hi; i++) b.set(i); break; }
	case 3: b.set(); break;
	default: b.set(); b.reset(gen_byte(c)); break;
	}
	return b;
}

struct GenOpts {
	int max_states = 7; bool eps = true, ids = true, eager = false, dfa = false; bool must_start = true;
	int id_range = 4; bool big_ids = false;
};
inline id_t gen_id(pbt::Ctx &c, int range, bool big) {
	if (big && c.chance(1, 6)) { static const id_t b[] = {UINT_MAX, UINT_MAX - 1, 0x7fffffffu, 0x80000000u, 1000, 65536, 255, 256}; return b[c.draw(8)]; }
	return (id_t)c.draw(range);
}
inline Nfa gen_nfa(pbt::Ctx &c, const GenOpts &o) {
	Nfa a; int n = c.range(o.must_start ? 1 : 0, o.max_states);
	for (int i = 0; i < n; i++) a.add();
	if (n == 0) return a;
	a.start = 0;
	if (c.chance(1, 4)) a.start = (int)c.draw(n);
	if (!o.must_start && c.chance(1, 16)) a.start = -1;
	// a spine makes most automata non-trivial
	int spine = (int)c.draw(n);
	for (int i = 0; i < spine; i++) { if (o.eps && c.chance(1, 5)) a.st[i].eps.insert(i + 1); else a.st[i].add(gen_bits(c), i + 1); }
	int extra = (int)c.draw(2 * n + 1);
	for (int i = 0; i < extra; i++) {
		int f = (int)c.draw(n), t = (int)c.draw(n);
		if (o.eps && c.chance(1, 4)) a.st[f].eps.insert(t); else a.st[f].add(gen_bits(c), t);
	}
	int ends = (int)c.draw(n + 1); if (c.chance(7, 8) && ends == 0) ends = 1;
	for (int i = 0; i < ends; i++) { int e = c.chance(1, 2) ? spine : (int)c.draw(n); if (i == 0 && spine < n) e = spine; a.st[e].end = true; }
	if (o.dfa) {
		for (auto &s : a.st) { s.eps.clear(); Bits used; for (auto &e : s.edges) { e.first &= ~used; used |= e.first; }
			s.edges.erase(std::remove_if(s.edges.begin(), s.edges.end(), [](const std::pair<Bits, int> &e) { return e.first.none(); }), s.edges.end()); }
	}
	if (o.ids && c.chance(3, 4)) for (auto &s : a.st) if (s.end) { int k = c.chance(2, 3) ? (int)c.draw(3) : 0; while (k--) s.ids.insert(gen_id(c, o.id_range, o.big_ids)); if (c.chance(1, 40)) { k = (int)c.draw(20); while (k--) s.ids.insert((id_t)c.draw(100)); } }
	if (o.eager && c.chance(3, 4)) for (auto &s : a.st) if (c.chance(1, 3)) { int k = c.range(1, 3); while (k--) s.eager.insert(gen_id(c, o.id_range, o.big_ids)); }
	return a;
}
// a word biased towards the automaton's language
inline std::string gen_word(pbt::Ctx &c, const Nfa &a, size_t max = 12) {
	std::string w; Set s = start_set(a); size_t len = c.draw(max + 1);
	for (size_t i = 0; i < len; i++) {
		std::vector<std::pair<int, int>> opts; for (int x : s) for (size_t k = 0; k < a.st[x].edges.size(); k++) opts.push_back({x, (int)k});
		unsigned char ch;
		if (!opts.empty() && !c.chance(1, 8)) {
			auto &e = a.st[opts[c.draw(opts.size())].first]; auto &ed = e.edges[c.draw(e.edges.size())];
			int cnt = (int)ed.first.count(), k = (int)c.draw(std::min(cnt, 3)); if (cnt > 3 && c.chance(1, 3)) k = (int)c.draw(cnt);
			ch = 0; for (int b = 0; b < 256; b++) if (ed.first[b] && k-- == 0) { ch = (unsigned char)b; break; }
		} else ch = gen_byte(c);
		w += (char)ch; s = step(a, s, ch);
	}
	return w;
}

} // namespace model
