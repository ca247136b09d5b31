// Readers for what libfsm prints for people: character-class labels, and the dot language.
#pragma once
#include "fsmx.hpp"
#include <cstring>
#include <sstream>
namespace gv {
using namespace model;
// A label says which bytes: one character, "/./", or a class. Class punctuation is not escaped (these are for people), so
// accept the label when some reading of it gives exactly the wanted set. A token is a list of the bytes it may stand for.
typedef std::vector<std::pair<int, size_t>> Tok; // (byte, length) alternatives
inline bool read_class(const std::vector<Tok> &at, size_t i, size_t end, Bits &cov, const Bits &want, int &fuel) {
	if (i == end) return cov == want; if (i > end || --fuel < 0) return false;
	for (auto &lo : at[i]) {
		if (!want[lo.first] || cov[lo.first]) continue;
		size_t j = i + lo.second;
		for (auto &d : j < end ? at[j] : Tok()) if (d.first == '-' && j + d.second < end) for (auto &hi : at[j + d.second]) {
			if (hi.first < lo.first) continue; bool ok = true; for (int b = lo.first; b <= hi.first; b++) if (!want[b] || cov[b]) ok = false; if (!ok) continue;
			Bits save = cov; for (int b = lo.first; b <= hi.first; b++) cov.set(b); if (read_class(at, j + d.second + hi.second, end, cov, want, fuel)) return true; cov = save;
		}
		cov.set(lo.first); if (read_class(at, j, end, cov, want, fuel)) return true; cov.reset(lo.first);
	}
	return false;
}
// at[i]: what may start at position i; raw: the same text, for the punctuation
inline bool label_is(const std::vector<Tok> &at, const std::string &raw, const Bits &want) {
	int fuel = 200000; size_t n = at.size(); Bits cov;
	if (want.count() == 1) for (auto &t : at[0]) if (t.second == n && want[t.first]) return true;
	if (raw == "/./") return want.all();
	if (n < 2 || raw[0] != '[' || raw[n - 1] != ']') return false;
	if (read_class(at, 1, n - 1, cov, want, fuel)) return true;
	cov.reset(); return raw[1] == '^' && read_class(at, 2, n - 1, cov, ~want, fuel);
}

// --- Graphviz. A small reader for the dot language: nodes and edges with attributes, HTML labels checked for nesting
struct DotEdge { std::string from, to; std::map<std::string, std::string> attr; };
struct Dot { std::map<std::string, std::map<std::string, std::string>> nodes; std::vector<DotEdge> edges; };
inline bool html_ok(const std::string &s) {
	std::vector<std::string> st; for (size_t i = 0; i < s.size();) {
		if (s[i] == '<') { size_t e = s.find('>', i); if (e == std::string::npos) return false; std::string tag = s.substr(i + 1, e - i - 1); i = e + 1; if (tag.empty()) return false; if (tag.back() == '/') continue; bool close = tag[0] == '/'; if (close) tag.erase(0, 1); std::string nm; for (char ch : tag) { if (!isalpha((unsigned char)ch)) break; nm += (char)tolower(ch); } if (nm.empty()) return false; if (close) { if (st.empty() || st.back() != nm) return false; st.pop_back(); } else st.push_back(nm); continue; }
		if (s[i] == '>') return false;
		if (s[i] == '&') { size_t e = s.find(';', i); if (e == std::string::npos || e == i + 1) return false; for (size_t j = i + 1; j < e; j++) if (!isalnum((unsigned char)s[j]) && s[j] != '#') return false; i = e; }
		if ((unsigned char)s[i] >= 0x80 || ((unsigned char)s[i] < 0x20 && !strchr("\n\t", s[i]))) return false;
		i++; }
	return st.empty();
}
struct DotReader {
	pbt::Ctx &c; const std::string &t; size_t i = 0; Dot d; DotReader(pbt::Ctx &cc, const std::string &x) : c(cc), t(x) {}
	[[noreturn]] void bad(const std::string &w) { c.fail("dot:syntax", w + " at " + t.substr(i, 60) + "\n" + t); }
	void ws() { for (;;) { while (i < t.size() && isspace((unsigned char)t[i])) i++; if (i < t.size() && t[i] == '#' && (i == 0 || t[i - 1] == '\n')) { while (i < t.size() && t[i] != '\n') i++; continue; } if (t.compare(i, 2, "/*") == 0) { size_t e = t.find("*/", i + 2); if (e == std::string::npos) bad("comment"); i = e + 2; continue; } return; } }
	bool eat(const char *s) { ws(); if (t.compare(i, strlen(s), s)) return false; i += strlen(s); return true; }
	std::string id() { ws(); std::string r; if (i < t.size() && t[i] == '"') { i++; while (i < t.size() && t[i] != '"') { if (t[i] == '\\') r += t[i++]; r += t[i++]; } if (i >= t.size()) bad("string"); i++; return r; }
		if (i < t.size() && t[i] == '<') { size_t b = ++i; int depth = 1; while (i < t.size()) { if (t[i] == '<') depth++; if (t[i] == '>' && --depth == 0) break; i++; } if (depth) bad("html string"); r = t.substr(b, i - b); i++; if (!html_ok(r)) bad("html label " + r); return r; }
		while (i < t.size() && (isalnum((unsigned char)t[i]) || t[i] == '_' || t[i] == '.')) r += t[i++]; if (r.empty()) bad("identifier"); return r; }
	std::string port() { std::string n = id(); while (eat(":")) n += ":" + id(); return n; }
	std::map<std::string, std::string> attrs() { std::map<std::string, std::string> m; while (eat("[")) { while (!eat("]")) { std::string k = id(); if (!eat("=")) bad("attribute"); m[k] = id(); if (!eat(",")) eat(";"); } } return m; }
	void stmts() { for (;;) { ws(); if (i >= t.size() || t[i] == '}') return; if (eat("{")) { stmts(); if (!eat("}")) bad("subgraph"); eat(";"); continue; } std::string n = port();
		if (eat("=")) { id(); eat(";"); continue; }
		if (eat("->")) { DotEdge e; e.from = n; e.to = port(); e.attr = attrs(); d.edges.push_back(e); eat(";"); continue; }
		if (n == "node" || n == "edge" || n == "graph") { auto m = attrs(); for (auto &kv : m) d.nodes["*" + n][kv.first] = kv.second; eat(";"); continue; } auto &at = d.nodes[n]; for (auto &kv : attrs()) at[kv.first] = kv.second; eat(";"); } }
	Dot read(bool fragment) { if (!fragment) { ws(); if (id() != "digraph") bad("digraph"); id(); if (!eat("{")) bad("{"); } stmts(); if (!fragment && !eat("}")) bad("}"); ws(); if (i != t.size()) bad("trailing text"); return d; }
};
// what an HTML-escaped label says: entities, C-like escapes (backslash itself is not escaped)
inline std::vector<Tok> dot_tokens(pbt::Ctx &c, const std::string &l) {
	std::vector<Tok> at(l.size()); static const std::map<std::string, int> ent = {{"&amp;", '&'}, {"&quot;", '"'}, {"&#x5D;", ']'}, {"&#x3C;", '<'}, {"&#x3E;", '>'}, {"&lt;", '<'}, {"&gt;", '>'}, {"&#x2423;", ' '}};
	for (size_t i = 0; i < l.size(); i++) { unsigned char ch = l[i];
		if (ch == '&') { size_t e = l.find(';', i); if (e != std::string::npos) { auto it = ent.find(l.substr(i, e - i + 1)); if (it != ent.end()) at[i].push_back({it->second, e - i + 1}); } continue; }
		if (ch == '\\' && i + 1 < l.size()) { const char *p = strchr("a\ab\bf\fn\nr\rt\tv\v\\\\{{}}||", l[i + 1]); if (p && l[i + 1] > 31) { static const char *nm = "abfnrtv", *vl = "\a\b\f\n\r\t\v"; const char *q = strchr(nm, l[i + 1]); at[i].push_back({q ? (unsigned char)vl[q - nm] : (unsigned char)l[i + 1], 2}); }
			if (l[i + 1] == 'x' && i + 3 < l.size() && isxdigit((unsigned char)l[i + 2]) && isxdigit((unsigned char)l[i + 3])) at[i].push_back({(int)strtoul(l.substr(i + 2, 2).c_str(), NULL, 16), 4}); }
		at[i].push_back({ch, 1}); }
	return at;
}
}
