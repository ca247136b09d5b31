// BUILD: variant=san libs=-ldl
// Property: the fsm language round-trips any automaton; the parser builds what the text says, and accepts or rejects
// arbitrary text cleanly.
#include "fsmx.hpp"
#include <csetjmp>
#include <dlfcn.h>
#include <unistd.h>
extern "C" {
#include <fsm/parser.h>
}
using namespace model; using namespace fsmx;

// the parser reports errors to stderr and exits: stand in for exit() while it runs
static sigjmp_buf jb; static bool armed; static FILE *devnull, *realerr;
extern "C" void exit(int r) noexcept { if (armed) { armed = false; stderr = realerr; siglongjmp(jb, 1 + (r & 1)); } ((void (*)(int))dlsym(RTLD_NEXT, "exit"))(r); _exit(r); }
// NULL when the text is rejected
static struct fsm *parse(pbt::Ctx &c, const std::string &t) {
	if (!devnull) devnull = fopen("/dev/null", "w");
	static FILE *fp; fp = t.empty() ? fopen("/dev/null", "r") : fmemopen((void *)t.data(), t.size(), "r"); REQ(c, fp, "harness", "fmemopen");
	static struct fsm *volatile f; f = nullptr; realerr = stderr; int r = sigsetjmp(jb, 0);
	if (r == 0) { armed = true; stderr = devnull; f = fsm_parse(fp, NULL); armed = false; stderr = realerr; }
	fclose(fp);
	if (r) { REQ(c, r == 2, "parse:exit0", "rejected text with a successful exit status"); return nullptr; }
	REQ(c, f, "parse:null", "fsm_parse returned NULL\n" + t);
	return f;
}
static std::string print(pbt::Ctx &c, const struct fsm *f, const struct fsm_options &o, enum fsm_print_lang lang) {
	char *b = nullptr; size_t n = 0; FILE *fp = open_memstream(&b, &n); int r = fsm_print(fp, f, &o, NULL, lang); fclose(fp); std::string s(b, n); free(b);
	REQ(c, r == 0, "print:fails", "fsm_print returned " + std::to_string(r)); return s;
}
static bool same(const Nfa &a, const Nfa &b, std::string &why) { // the same states, by number
	if (a.n() != b.n()) { why = "number of states"; return false; }
	if (a.start != b.start) { why = "start state"; return false; }
	for (int i = 0; i < a.n(); i++) {
		const State &x = a.st[i], &y = b.st[i]; std::string s = "state " + std::to_string(i) + ": ";
		if (x.end != y.end) { why = s + "end"; return false; } if (x.end && x.ids != y.ids) { why = s + "end ids"; return false; } if (x.eps != y.eps) { why = s + "epsilons"; return false; }
		std::map<int, Bits> m, n; for (auto &e : x.edges) if (e.first.any()) m[e.second] |= e.first; for (auto &e : y.edges) if (e.first.any()) n[e.second] |= e.first;
		if (m.size() != n.size()) { why = s + "edges"; return false; } for (auto &e : m) if (!n.count(e.first) || n[e.first] != e.second) { why = s + "edges to " + std::to_string(e.first); return false; }
	}
	return true;
}
static struct fsm_options gen_opt(pbt::Ctx &c) {
	struct fsm_options o; memset(&o, 0, sizeof o); o.anonymous_states = c.chance(1, 4); o.consolidate_edges = c.chance(1, 2); o.fragment = c.chance(1, 4); o.comments = c.chance(1, 2); o.case_ranges = c.chance(1, 4); o.always_hex = c.chance(1, 4);
	static const enum fsm_ambig am[] = {AMBIG_NONE, AMBIG_MULTIPLE, AMBIG_EARLIEST}; o.ambig = am[c.draw(3)]; o.io = (enum fsm_io)c.draw(3); if (c.chance(1, 8)) o.prefix = "pre"; return o;
}
PBT_CASE(roundtrip, 6, "an automaton with edges and at least one end state") {
	GenOpts o; o.max_states = 9; o.big_ids = true; o.must_start = false; if (c.chance(1, 3)) o.dfa = true; if (c.chance(1, 3)) o.id_range = 200; Nfa a = gen_nfa(c, o);
	struct fsm_options opt = gen_opt(c);
	c.describe([&](std::ostream &s) { s << dump(a) << "anonymous " << opt.anonymous_states << " comments " << opt.comments << " hex " << opt.always_hex; });
	Fsm f(build(c, a)); std::string t = print(c, f, opt, FSM_PRINT_FSM); Fsm g(parse(c, t));
	REQ(c, g.f, "roundtrip:rejected", "printed text is rejected:\n" + t);
	Nfa b = extract(c, g); if (a.start < 0) for (auto &s : a.st) { s.end = false; s.ids.clear(); } // an automaton without a start has no ends in text
	std::string why; if (!opt.anonymous_states) REQ(c, same(a, b, why), "roundtrip:differs", "differs in " + why + "\ntext:\n" + t + dump(a) + "read back:\n" + dump(b));
	else require_equiv(c, a, b, CMP_IDS, "roundtrip:language");
	// printing again gives the same text
	std::string t2 = print(c, g, opt, FSM_PRINT_FSM); if (!opt.anonymous_states) REQ(c, t == t2, "roundtrip:text", "text differs:\n" + t + "then\n" + t2);
	if (a.edge_count() && a.n() > 1) c.nontrivial();
	if (a.has_ids()) c.count("ids");
}
PBT_CASE(large, 1, "more than 64 states") {
	Nfa a; int n = c.range(60, c.chance(1, 4) ? 6000 : 400); for (int i = 0; i < n; i++) a.add(); a.start = (int)c.draw(n);
	uint64_t seed = c.draw(1u << 30) * 2654435761u + 7; auto rnd = [&](unsigned m) { seed = seed * 6364136223846793005ull + 1442695040888963407ull; return (unsigned)((seed >> 33) % m); };
	for (int i = 0; i < n; i++) { int k = rnd(3); while (k--) { if (rnd(8) == 0) a.st[i].eps.insert(rnd(n)); else { Bits b; b.set(rnd(256)); a.st[i].add(b, rnd(n)); } } if (rnd(3) == 0) { a.st[i].end = true; if (rnd(2)) a.st[i].ids.insert(rnd(5000)); } }
	struct fsm_options opt = gen_opt(c); opt.anonymous_states = 0; opt.comments = 0; c.describe([&](std::ostream &s) { s << n << " states"; });
	Fsm f(build(c, a)); Fsm g(parse(c, print(c, f, opt, FSM_PRINT_FSM))); REQ(c, g.f, "roundtrip:rejected", "printed text is rejected"); Nfa b = extract(c, g);
	std::string why; REQ(c, same(a, b, why), "roundtrip:differs", std::to_string(n) + " states, differs in " + why); c.nontrivial();
}

// grouped edges are for people, the parser does not read them: read them here
static std::string dec(pbt::Ctx &c, const std::string &t, size_t &i) { // one quoted character
	REQ(c, t[i] == '"', "grouped:syntax", t.substr(i, 40)); i++; int ch;
	if (t[i] == '\\') { i++; char k = t[i++]; if (k == 'x') { ch = (int)strtoul(t.substr(i, 2).c_str(), NULL, 16); i += 2; } else ch = k == 'n' ? 10 : k == 'r' ? 13 : k == 't' ? 9 : k == 'f' ? 12 : k == 'v' ? 11 : k; } else ch = (unsigned char)t[i++];
	REQ(c, i < t.size() && t[i] == '"', "grouped:syntax", t.substr(i, 40)); i++; return std::string(1, (char)ch);
}
PBT_CASE(grouped, 2, "at least one group of more than one character") {
	GenOpts o; o.max_states = 6; o.ids = false; Nfa a = gen_nfa(c, o); struct fsm_options opt; memset(&opt, 0, sizeof opt); opt.group_edges = 1; opt.always_hex = c.chance(1, 4); opt.comments = c.chance(1, 2);
	c.describe([&](std::ostream &s) { s << dump(a); }); Fsm f(build(c, a)); std::string t = print(c, f, opt, FSM_PRINT_FSM); Nfa b; b.start = a.start; for (int i = 0; i < a.n(); i++) { b.add(); b.st[i].end = a.st[i].end; }
	std::istringstream in(t); std::string l;
	while (std::getline(in, l)) {
		size_t ar = l.find("->"); if (ar == std::string::npos) continue; int x = atoi(l.c_str()); size_t i = l.find_first_of("0123456789", ar); int y = atoi(l.c_str() + i); REQ(c, x < a.n() && y < a.n(), "grouped:state", l);
		while (i < l.size() && isdigit((unsigned char)l[i])) i++; Bits bs; bool any = false;
		for (;;) { while (i < l.size() && l[i] == ' ') i++; REQ(c, i < l.size(), "grouped:syntax", l); if (l[i] == ';') break; any = true; if (l[i] == ',') { i++; continue; } if (l[i] == '?') { bs.set(); i++; continue; }
			unsigned char lo = dec(c, l, i)[0], hi = lo; size_t j = i; while (j < l.size() && l[j] == ' ') j++; if (l.compare(j, 2, "..") == 0) { i = j + 2; while (l[i] == ' ') i++; hi = dec(c, l, i)[0]; }
			REQ(c, lo <= hi, "grouped:range", l); for (int k = lo; k <= hi; k++) bs.set(k); }
		if (any) { b.st[x].add(bs, y); if (bs.count() > 1) c.nontrivial(); } else b.st[x].eps.insert(y);
	}
	std::string why; REQ(c, same(a, b, why), "grouped:differs", "differs in " + why + "\n" + t + dump(a));
}

// text written by hand: names, layout, comments, both quotes, every escape form
static std::string ws(pbt::Ctx &c) { static const char *s[] = {"", " ", "\n", "\t", "  ", " # comment \"x\n", "\r\n", "#\n"}; return s[c.weighted({8, 8, 3, 2, 1, 1, 1, 1})]; }
static std::string lit(pbt::Ctx &c, int b, bool &ok) {
	char t[16]; ok = true;
	switch (c.weighted({4, 2, 2, 2, 1})) {
	case 0: if (b >= 32 && b < 127 && b != '"' && b != '\\') { snprintf(t, sizeof t, "\"%c\"", b); return t; } break;
	case 1: if (b >= 32 && b < 127 && b != '\'') { snprintf(t, sizeof t, "'%c'", b); return t; } break;
	case 2: snprintf(t, sizeof t, c.chance(1, 2) ? "\"\\%o\"" : "\"\\%03o\"", b); return t;
	case 3: snprintf(t, sizeof t, c.chance(1, 3) ? "\"\\x%X\"" : "\"\\x%02x\"", b); return t;
	default: switch (b) { case '\\': return "\"\\\\\""; case '"': return "\"\\\"\""; case '\f': return "\"\\f\""; case '\n': return "\"\\n\""; case '\r': return "\"\\r\""; case '\t': return "\"\\t\""; case '\v': return "\"\\v\""; } }
	snprintf(t, sizeof t, "\"\\x%02x\"", b); return t;
}
static std::string gen_text(pbt::Ctx &c, Nfa &a) {
	std::string t; std::vector<std::string> names; std::map<std::string, int> id; int n = c.range(1, 6);
	static const char *pool[] = {"a", "b", "x1", "0", "10", "S_t", "end", "start", "A", "_", "007", "1e"}; for (int i = 0; i < n; i++) names.push_back(pool[c.draw(12)]);
	auto get = [&](const std::string &s) { auto it = id.find(s); if (it != id.end()) return it->second; int k = a.add(); id[s] = k; return k; };
	int items = (int)c.draw(10);
	while (items--) {
		std::string x = names[c.draw(n)], y = names[c.draw(n)];
		if (c.chance(1, 6)) { get(x); t += ws(c) + x + ws(c) + ";"; continue; }
		int s = get(x), d = get(y); t += ws(c) + x + ws(c) + "->" + ws(c) + y + ws(c);
		switch (c.weighted({8, 2, 2})) { case 0: { int b = gen_byte(c); bool ok; t += (t.back() != ' ' ? " " : "") + lit(c, b, ok); Bits k; k.set(b); a.st[s].add(k, d); break; } case 1: { t += "?"; Bits k; k.set(); a.st[s].add(k, d); break; } default: a.st[s].eps.insert(d); }
		t += ws(c) + ";";
	}
	if (c.chance(7, 8)) { std::string x = names[c.draw(n)]; t += ws(c) + "\nstart:" + ws(c) + " " + x + ws(c) + ";"; a.start = get(x); }
	if (c.chance(7, 8)) { t += ws(c) + "\nend:" + ws(c); int k = c.range(1, 3); while (k--) { std::string x = names[c.draw(n)]; int s = get(x); a.st[s].end = true; t += ws(c) + x + ws(c);
		if (c.chance(1, 2)) { t += "=" + ws(c) + "[" + ws(c); int m = (int)c.draw(4); while (m--) { unsigned v = c.chance(1, 8) ? 4294967295u - (unsigned)c.draw(2) : (unsigned)c.draw(c.chance(1, 2) ? 8 : 1000); a.st[s].ids.insert(v); t += std::to_string(v) + ws(c) + (m ? "," : "") + ws(c); } t += "]" + ws(c); }
		t += k ? "," : ";"; } }
	return t + ws(c);
}
PBT_CASE(text, 5, "valid text with at least one edge") {
	Nfa a; std::string t = gen_text(c, a); c.describe([&](std::ostream &s) { s << t; });
	Fsm f(parse(c, t)); REQ(c, f.f, "text:rejected", "valid text is rejected:\n" + t); Nfa b = extract(c, f);
	std::string why; REQ(c, same(a, b, why), "text:differs", "differs in " + why + "\n" + t + "\n" + dump(a) + "parsed:\n" + dump(b)); if (a.edge_count()) c.nontrivial();
}
PBT_CASE(fuzz, 5, "text derived from a valid description by edits") {
	Nfa a; std::string t = c.chance(7, 8) ? gen_text(c, a) : "";
	int k = c.range(1, 6); static const char *tok[] = {"start:", "end:", "->", ";", ",", "?", "\"", "'", "\\", "\\x", "\\0", "\\400", "\\x100", "\\xffffffffffffffffff", "\\77777777777777777777777", "[", "]", "=", "#", "\n", "0", "a", "99999999999999999999", "\"\\xzz\"", "4294967296", "\"\"", "\"ab\"", "''", "-1", "= [1]", "= []", "..", "\x80", "start: a;", "end: a;"};
	while (k--) { size_t at = c.draw(t.size() + 1);
		switch (c.weighted({4, 2, 2, 2, 1})) { case 0: t.insert(at, tok[c.draw(sizeof tok / sizeof *tok)]); break; case 1: t.erase(at, c.range(1, 4)); break; case 2: t.insert(at, 1, (char)gen_byte(c)); break; case 3: if (at < t.size()) t[at] = (char)gen_byte(c); break; default: t.resize(at); } }
	c.describe([&](std::ostream &s) { s << pbt::show(t); }); Fsm f(parse(c, t)); c.nontrivial();
	if (f.f) { c.count("accepted"); Nfa b = extract(c, f); struct fsm_options o; memset(&o, 0, sizeof o); o.ambig = AMBIG_MULTIPLE; std::string p = print(c, f, o, FSM_PRINT_FSM); Fsm g(parse(c, p)); REQ(c, g.f, "roundtrip:rejected", p); Nfa d = extract(c, g); if (b.start < 0) for (auto &s : b.st) { s.end = false; s.ids.clear(); } std::string why; REQ(c, same(b, d, why), "roundtrip:differs", "differs in " + why + "\n" + t + "\nprinted as\n" + p); }
	else c.count("rejected");
}
