// BUILD: variant=san libs=-rdynamic internal=1
// Property: the structural output formats (JSON, IR JSON, Graphviz dot for the automaton, the IR and the VM code, and C
// code that calls the API) are well-formed and say exactly what the automaton is.
#include "fsmx.hpp"
#include "json.hpp"
#include "gv.hpp"
#include <dlfcn.h>
#include <unistd.h>
using namespace model; using namespace fsmx; using namespace gv;

static int hook_json(FILE *f, const struct fsm_options *, const struct fsm_state_metadata *m, void *, void *) { fprintf(f, "[ "); for (size_t i = 0; i < m->end_id_count; i++) fprintf(f, "%s%u", i ? ", " : "", m->end_ids[i]); fprintf(f, " ]"); return 0; }
static std::string print(pbt::Ctx &c, const struct fsm *f, const struct fsm_options &o, enum fsm_print_lang lang, const struct fsm_hooks *h = NULL) {
	char *b = nullptr; size_t n = 0; FILE *fp = open_memstream(&b, &n); errno = 0; int r = fsm_print(fp, f, &o, h, lang); fclose(fp); std::string s(b, n); free(b);
	REQ(c, r == 0, "print:fails", "fsm_print returned " + std::to_string(r) + " errno " + std::to_string(errno)); return s;
}
static struct fsm_options gen_opt(pbt::Ctx &c) {
	struct fsm_options o; memset(&o, 0, sizeof o); o.anonymous_states = c.chance(1, 5); o.consolidate_edges = c.chance(1, 2); o.fragment = c.chance(1, 5); o.comments = c.chance(1, 2); o.case_ranges = c.chance(1, 4); o.always_hex = c.chance(1, 4); o.group_edges = c.chance(1, 4);
	static const enum fsm_ambig am[] = {AMBIG_NONE, AMBIG_MULTIPLE, AMBIG_EARLIEST}; o.ambig = am[c.draw(3)]; o.io = (enum fsm_io)c.draw(3); if (c.chance(1, 6)) o.prefix = "pre"; return o;
}
static bool same(const Nfa &a, const Nfa &b, std::string &why, bool ids) { // the same states, by number
	if (a.n() != b.n()) { why = "number of states"; return false; }
	if (a.start != b.start) { why = "start state"; return false; }
	for (int i = 0; i < a.n(); i++) {
		const State &x = a.st[i], &y = b.st[i]; std::string s = "state " + std::to_string(i) + ": ";
		if (x.end != y.end) { why = s + "end"; return false; } if (ids && x.end && x.ids != y.ids) { why = s + "end ids"; return false; } if (x.eps != y.eps) { why = s + "epsilons"; return false; }
		std::map<int, Bits> m, n; for (auto &e : x.edges) if (e.first.any()) m[e.second] |= e.first; for (auto &e : y.edges) if (e.first.any()) n[e.second] |= e.first;
		if (m.size() != n.size()) { why = s + "edges"; return false; } for (auto &e : m) if (!n.count(e.first) || n[e.first] != e.second) { why = s + "edges to " + std::to_string(e.first); return false; }
	}
	return true;
}
static Nfa deterministic(pbt::Ctx &c, int max, bool ids) { // ids on ends only; sometimes states with rich edge groups, so that every IR strategy occurs
	GenOpts o; o.max_states = max; o.dfa = true; o.ids = ids; o.big_ids = true; Nfa a = gen_nfa(c, o);
	for (auto &s : a.st) if (c.chance(1, 3)) {
		s.edges.clear(); std::vector<int> to(256, -1); int k = c.range(1, 3), base = c.chance(2, 3) ? (int)c.draw(a.n()) : -1; if (base >= 0) to.assign(256, base);
		while (k--) { int lo = gen_byte(c), hi = c.chance(1, 2) ? lo : gen_byte(c); if (lo > hi) std::swap(lo, hi); int t = c.chance(1, 4) ? -1 : (int)c.draw(a.n()); for (int b = lo; b <= hi; b++) to[b] = t; }
		for (int b = 0; b < 256; b++) if (to[b] >= 0) { Bits x; x.set(b); s.add(x, to[b]); }
	}
	return a;
}
static std::string pre(const struct fsm_options &o) { return o.prefix ? o.prefix : ""; }

// an example is text for people: \\xHH for what is not printable, "..." when it is cut short
static bool example_ok(const Nfa &a, int s, const std::string &e) {
	auto run = [&](size_t n, bool exact) { std::set<std::pair<size_t, Set>> seen; std::vector<std::pair<size_t, Set>> st{{0, start_set(a)}};
		while (!st.empty()) { auto x = st.back(); st.pop_back(); if (x.second.empty() || !seen.insert(x).second) continue; if (x.first == n) { if (!exact || std::count(x.second.begin(), x.second.end(), s)) return true; continue; }
			st.push_back({x.first + 1, step(a, x.second, (unsigned char)e[x.first])}); if (e[x.first] == '\\' && x.first + 3 < n && e[x.first + 1] == 'x' && isxdigit((unsigned char)e[x.first + 2]) && isxdigit((unsigned char)e[x.first + 3])) st.push_back({x.first + 4, step(a, x.second, (unsigned char)strtoul(e.substr(x.first + 2, 2).c_str(), NULL, 16))}); }
		return false; };
	if (run(e.size(), true)) return true; return e.size() >= 3 && e.compare(e.size() - 3, 3, "...") == 0 && run(e.size() - 3, false);
}

PBT_CASE(json, 6, "an automaton with edges") {
	GenOpts g; g.max_states = 8; g.must_start = false; Nfa a = gen_nfa(c, g); struct fsm_options o = gen_opt(c); bool hook = c.chance(1, 4);
	c.describe([&](std::ostream &s) { s << dump(a) << "consolidate " << o.consolidate_edges << " hex " << o.always_hex << " hook " << hook; });
	struct fsm_hooks h; memset(&h, 0, sizeof h); h.accept = hook_json; Fsm f(build(c, a)); std::string t = print(c, f, o, FSM_PRINT_JSON, hook ? &h : NULL);
	try {
		json::V v = json::parse(t); Nfa b; long n = v->get("statecount")->num(); REQ(c, n == a.n(), "json:states", t); for (long i = 0; i < n; i++) b.add();
		b.start = v->has("start") ? (int)v->get("start")->num() : -1;
		for (auto &e : v->get("end")->arr()) { long s = e->num(); REQ(c, s >= 0 && s < n, "json:end", t); b.st[s].end = true; }
		auto expect = [&](int x, int y) { Bits r; for (auto &e : a.st[x].edges) if (e.second == y) r |= e.first; return r; };
		for (auto &e : v->get("edges")->arr()) {
			long x = e->get("src")->num(), y = e->get("dst")->num(); REQ(c, x >= 0 && x < n && y >= 0 && y < n, "json:edge", t);
			if (e->has("symbol")) { json::V s = e->get("symbol"); long ch = s->k == json::Value::Num ? s->num() : s->str().size() == 1 ? (long)s->str()[0] : -1; REQ(c, ch >= 0 && ch < 256, "json:symbol", t); Bits k; k.set(ch); b.st[x].add(k, y); }
			else if (e->has("label")) {
				std::vector<unsigned> s = e->get("label")->str(); if (s.size() == 1 && s[0] == 0x3b5) { b.st[x].eps.insert(y); continue; }
				std::vector<Tok> at; std::string raw; for (unsigned ch : s) { REQ(c, ch < 256, "json:label", t); at.push_back({{(int)ch, 1}}); raw += (char)ch; }
				REQ(c, !s.empty(), "json:label", t); Bits w = expect((int)x, (int)y); REQ(c, label_is(at, raw, w), "json:label", "label " + pbt::show(raw) + " from " + std::to_string(x) + " to " + std::to_string(y) + " is not the set of characters\n" + dump(a) + t); b.st[x].add(w, y);
			} else b.st[x].eps.insert(y);
		}
		if (hook) { std::set<int> seen; for (auto &e : v->get("endleaf")->arr()) { REQ(c, e->k == json::Value::Obj, "json:endleaf", t); long s = -1; json::V leaf; for (auto &m : e->o) if (m.second->k == json::Value::Num) s = m.second->num(); else leaf = m.second; REQ(c, s >= 0 && s < n && a.st[s].end && leaf && seen.insert((int)s).second, "json:endleaf", t); std::set<id_t> ids; for (auto &i : leaf->arr()) ids.insert((id_t)i->num()); REQ(c, ids == a.st[s].ids, "json:endleaf", t); }
			for (int i = 0; i < a.n(); i++) REQ(c, !a.st[i].end || seen.count(i), "json:endleaf", t); }
		std::string why; REQ(c, same(a, b, why, false), "json:differs", "differs in " + why + "\n" + t + dump(a));
	} catch (json::Bad &e) { c.fail("json:syntax", e.why + "\n" + t); }
	if (a.edge_count()) c.nontrivial();
}

PBT_CASE(irjson, 5, "at least two strategies") {
	Nfa a = deterministic(c, 7, true); struct fsm_options o = gen_opt(c); bool hook = c.chance(1, 4); c.describe([&](std::ostream &s) { s << dump(a) << "comments " << o.comments << " hook " << hook; });
	struct fsm_hooks h; memset(&h, 0, sizeof h); h.accept = hook_json; Fsm f(build(c, a)); std::string t = print(c, f, o, FSM_PRINT_IRJSON, hook ? &h : NULL); std::set<std::string> strategies;
	try {
		json::V v = json::parse(t); Nfa b; b.start = (int)v->get("start")->num(); int n = (int)v->get("states")->arr().size(); REQ(c, n == a.n(), "irjson:states", t); for (int i = 0; i < n; i++) b.add();
		auto ch = [&](const json::V &x) { REQ(c, x->str().size() == 1 && x->str()[0] < 256, "irjson:endpoint", t); return (int)x->str()[0]; };
		for (int i = 0; i < n; i++) {
			json::V s = v->get("states")->arr()[i]; State &st = b.st[i]; st.end = s->get("end")->boolean(); if (s->has("end_id")) for (auto &x : s->get("end_id")->arr()) st.ids.insert((id_t)x->num());
			if (s->has("endleaf")) { std::set<id_t> ids; for (auto &x : s->get("endleaf")->arr()) ids.insert((id_t)x->num()); REQ(c, hook && st.end && ids == a.st[i].ids, "irjson:endleaf", t); } else REQ(c, !hook || !a.st[i].end, "irjson:endleaf", t);
			std::string k = s->get("strategy")->text(); strategies.insert(k); c.count(k); Bits used;
			auto ranges = [&](const json::V &rs) { Bits r; for (auto &x : rs->arr()) { int lo = ch(x->get("start")), hi = ch(x->get("end")); REQ(c, lo <= hi, "irjson:range", t); for (int q = lo; q <= hi; q++) { REQ(c, !r[q], "irjson:range", "overlapping ranges\n" + t); r.set(q); } } REQ(c, r.any(), "irjson:range", "empty group\n" + t); return r; };
			if (k != "none" && k != "same") for (auto &g : s->get("groups")->arr()) { int to = (int)g->get("to")->num(); REQ(c, to >= 0 && to < n, "irjson:to", t); Bits r = ranges(g->get("ranges")); REQ(c, (r & used).none(), "irjson:overlap", "state " + std::to_string(i) + " has groups that overlap\n" + t); used |= r; st.add(r, to); }
			Bits rest = ~used;
			if (k == "same") { rest.set(); st.add(rest, (int)s->get("to")->num()); } else if (k == "complete") REQ(c, used.all(), "irjson:complete", t); else if (k == "dominant") st.add(rest, (int)s->get("mode")->num());
			else if (k == "error") { Bits e = ranges(s->get("error")); REQ(c, (e & used).none(), "irjson:overlap", t); st.add(rest & ~e, (int)s->get("mode")->num()); } else REQ(c, k == "none" || k == "partial", "irjson:strategy", k);
			if (s->has("example")) REQ(c, example_ok(a, i, s->get("example")->text()), "irjson:example", "the example of state " + std::to_string(i) + " does not lead there\n" + dump(a) + t);
		}
		std::string why; REQ(c, same(a, b, why, true), "irjson:differs", "differs in " + why + "\n" + t + dump(a));
	} catch (json::Bad &e) { c.fail("irjson:syntax", e.why + "\n" + t); }
	if (strategies.size() > 1) c.nontrivial();
}

static void graphviz(pbt::Ctx &c, const std::string &t) { // the real consumer, for a sample
	std::string p = c.scratch + "/g.dot"; FILE *fp = fopen(p.c_str(), "w"); fwrite(t.data(), 1, t.size(), fp); fclose(fp);
	int r = system(("dot -Tdot -o /dev/null " + p + " 2>" + p + ".err").c_str()); std::string err; fp = fopen((p + ".err").c_str(), "r"); char buf[500]; size_t n = fread(buf, 1, sizeof buf, fp); err.assign(buf, n); fclose(fp); unlink(p.c_str()); unlink((p + ".err").c_str());
	bool fonts = true; { std::istringstream in(err); std::string l; while (std::getline(in, l)) if (l.find("ontconfig") == std::string::npos && l.find("Warning: no hard-coded metrics") == std::string::npos && l.find("no value for width") == std::string::npos && l.find("size too small") == std::string::npos) fonts = false; }
	REQ(c, r == 0 && fonts, "dot:graphviz", "graphviz: " + err + "\n" + t); c.count("graphviz");
}
static bool have_dot() { static int h = -1; if (h < 0) h = system("command -v dot >/dev/null 2>&1") == 0; return h; }
PBT_CASE(dot, 5, "an automaton with edges") {
	GenOpts g; g.max_states = 7; g.must_start = false; Nfa a = gen_nfa(c, g); struct fsm_options o = gen_opt(c); c.describe([&](std::ostream &s) { s << dump(a) << "consolidate " << o.consolidate_edges << " hex " << o.always_hex << " anonymous " << o.anonymous_states << " fragment " << o.fragment; });
	Fsm f(build(c, a)); std::string t = print(c, f, o, FSM_PRINT_DOT); Dot d = DotReader(c, t).read(o.fragment); Nfa b; for (int i = 0; i < a.n(); i++) b.add(); std::string P = pre(o) + "S";
	auto num = [&](const std::string &s) { char *e; REQ(c, s.compare(0, P.size(), P) == 0, "dot:name", "node " + s + "\n" + t); long v = strtol(s.c_str() + P.size(), &e, 10); REQ(c, !*e && v >= 0 && v < a.n(), "dot:name", "node " + s + "\n" + t); return (int)v; };
	auto expect = [&](int x, int y) { Bits r; for (auto &e : a.st[x].edges) if (e.second == y) r |= e.first; return r; };
	if (o.fragment) b.start = a.start;
	for (auto &n : d.nodes) { if (n.first[0] == '*' || n.first == "start") continue; int s = num(n.first); auto &at = n.second; b.st[s].end = at.count("shape") && at.at("shape") == "doublecircle"; std::string l = at.count("label") ? at.at("label") : "";
		if (o.anonymous_states && !b.st[s].end) continue;
		if (!o.anonymous_states) { std::string w = std::to_string(s); REQ(c, l.compare(0, w.size(), w) == 0, "dot:label", t); l.erase(0, w.size()); if (l.compare(0, 5, "<BR/>") == 0) l.erase(0, 5); }
		std::istringstream in(l); std::string id; while (std::getline(in, id, ',')) { REQ(c, id.size() > 1 && id[0] == '#', "dot:ids", t); b.st[s].ids.insert((id_t)strtoul(id.c_str() + 1, NULL, 10)); } }
	for (auto &e : d.edges) {
		if (e.from == "start") { b.start = num(e.to); continue; }
		int x = num(e.from), y = num(e.to); REQ(c, e.attr.count("label"), "dot:label", t); const std::string &l = e.attr.at("label"); if (l == "&#x3B5;") { b.st[x].eps.insert(y); continue; }
		if (o.consolidate_edges) { Bits w = expect(x, y); REQ(c, !l.empty() && label_is(dot_tokens(c, l), l, w), "dot:label", "label " + l + " from " + e.from + " to " + e.to + " is not the set of characters\n" + dump(a) + t); b.st[x].add(w, y); }
		else { auto at = dot_tokens(c, l); int ch = -1; for (auto &k : l.empty() ? Tok() : at[0]) if (k.second == l.size()) ch = k.first; REQ(c, ch >= 0, "dot:label", "label " + l + "\n" + t); Bits k; k.set(ch); b.st[x].add(k, y); }
	}
	std::string why; REQ(c, same(a, b, why, true), "dot:differs", "differs in " + why + "\n" + t + dump(a)); if (a.edge_count()) c.nontrivial();
	if (!o.fragment && c.chance(1, 40) && have_dot()) graphviz(c, t);
}

// rows of an HTML table: the text of each cell
static std::vector<std::vector<std::string>> rows(const std::string &h) {
	std::vector<std::vector<std::string>> r; bool cell = false; std::string cur;
	for (size_t i = 0; i < h.size();) {
		if (h[i] == '<') { size_t e = h.find('>', i); std::string tag = h.substr(i + 1, e - i - 1); for (char &ch : tag) ch = (char)tolower(ch); i = e + 1; if (tag == "tr") r.emplace_back(); else if (tag.compare(0, 2, "td") == 0) { cell = true; cur.clear(); } else if (tag == "/td") { cell = false; if (r.empty()) r.emplace_back(); r.back().push_back(cur); } continue; }
		if (cell) cur += h[i]; i++; }
	return r;
}
static int one(pbt::Ctx &c, const std::string &l, const std::string &t) { auto at = dot_tokens(c, l); if (!l.empty()) for (auto &k : at[0]) if (k.second == l.size()) return k.first; c.fail("ir:endpoint", "endpoint " + l + "\n" + t); }
PBT_CASE(ir, 4, "at least two strategies") {
	Nfa a = deterministic(c, 7, true); struct fsm_options o = gen_opt(c); c.describe([&](std::ostream &s) { s << dump(a); });
	Fsm f(build(c, a)); std::string t = print(c, f, o, FSM_PRINT_IR); Dot d = DotReader(c, t).read(false); Nfa b; for (int i = 0; i < a.n(); i++) b.add(); std::set<std::string> strategies;
	auto num = [&](const std::string &s, const char *p) { char *e; size_t k = strlen(p); REQ(c, s.compare(0, k, p) == 0, "ir:name", "node " + s + "\n" + t); long v = strtol(s.c_str() + k, &e, 10); REQ(c, (!*e || *e == ':') && v >= 0 && v < a.n(), "ir:name", "node " + s + "\n" + t); return (int)v; };
	std::set<std::pair<int, int>> links, want;
	for (auto &e : d.edges) if (e.from == "start") b.start = num(e.to, "cs"); else links.insert({num(e.from, "cs"), num(e.to, "cs")});
	for (auto &n : d.nodes) { if (n.first[0] == '*' || n.first == "start") continue; int s = num(n.first, "cs"); State &st = b.st[s]; st.end = n.second.count("peripheries") && n.second.at("peripheries") == "2";
		REQ(c, n.second.count("label"), "ir:label", t); auto rs = rows(n.second.at("label")); REQ(c, !rs.empty() && rs[0].size() == 2 && rs[0][0] == "S" + std::to_string(s), "ir:title", t); std::string k = rs[0][1]; strategies.insert(k); c.count(k);
		auto dest = [&](const std::string &x) { return x == "(self)" ? s : num(x, "S"); }; Bits pend, used, err; int mode = -1;
		for (size_t i = 1; i < rs.size(); i++) { auto &r = rs[i]; REQ(c, r.size() == 2 || r.size() == 3, "ir:row", t);
			if (r.size() == 2 && r[0] == "end id") { std::istringstream in(r[1]); std::string x; while (in >> x) { REQ(c, x[0] == '#', "ir:ids", t); st.ids.insert((id_t)strtoul(x.c_str() + 1, NULL, 10)); } continue; }
			if (r.size() == 2 && r[0] == "example") continue;
			if (r.size() == 2 && r[0] == "to") { Bits x; x.set(); st.add(x, dest(r[1])); want.insert({s, dest(r[1])}); continue; }
			if (r.size() == 2 && r[0] == "mode") { mode = dest(r[1]); want.insert({s, mode}); continue; }
			int lo = one(c, r[0], t), hi = r.size() == 3 ? one(c, r[1], t) : lo; REQ(c, lo <= hi, "ir:range", t); for (int q = lo; q <= hi; q++) { REQ(c, !used[q], "ir:overlap", t); used.set(q); pend.set(q); }
			if (r.back() == "&#x21B4;") continue; if (r.back() == "(error)") err |= pend; else { int y = dest(r.back()); st.add(pend, y); want.insert({s, y}); } pend.reset(); }
		REQ(c, pend.none(), "ir:row", t); REQ(c, (mode >= 0) == (k == "DOMINANT" || k == "ERROR"), "ir:mode", t); if (mode >= 0) st.add(~used, mode); if (k == "COMPLETE") REQ(c, used.all(), "ir:complete", t);
	}
	for (auto it = want.begin(); it != want.end();) if (it->first == it->second) it = want.erase(it); else ++it;
	std::string why; REQ(c, same(a, b, why, true), "ir:differs", "differs in " + why + "\n" + t + dump(a)); REQ(c, links == want, "ir:links", "the drawn edges are not those of the tables\n" + t);
	if (strategies.size() > 1) c.nontrivial(); if (c.chance(1, 40) && have_dot()) graphviz(c, t);
}

PBT_CASE(vmdot, 4, "a program with branches") { // run the program that the picture shows
	Nfa a = deterministic(c, 6, true); struct fsm_options o = gen_opt(c); std::vector<std::string> words; for (int i = 0; i < 8; i++) words.push_back(gen_word(c, a));
	c.describe([&](std::ostream &s) { s << dump(a) << "fragment " << o.fragment << " ambig " << o.ambig; });
	Fsm f(build(c, a)); std::string t = print(c, f, o, FSM_PRINT_VMDOT); Dot d = DotReader(c, t).read(o.fragment);
	struct Op { std::string cond, act; }; std::map<unsigned, Op> ops; std::map<unsigned, std::set<unsigned>> blocks; // a block's instructions
	for (auto &n : d.nodes) { if (n.first[0] == '*' || n.first == "start") continue; REQ(c, n.first[0] == 'S', "vmdot:name", n.first); unsigned blk = (unsigned)strtoul(n.first.c_str() + 1, NULL, 10); REQ(c, n.second.count("label") || o.fragment || n.first == "S0", "vmdot:label", t);
		if (!n.second.count("label")) continue;
		for (auto &r : rows(n.second.at("label"))) { if (r.size() < 3 || r[0].empty() || r[0][0] != '#') continue; unsigned ix = (unsigned)strtoul(r[0].c_str() + 1, NULL, 10); REQ(c, !ops.count(ix), "vmdot:dup", t); ops[ix] = {r[1], r[2]}; blocks[blk].insert(ix); }
		REQ(c, blocks[blk].count(blk), "vmdot:block", "block S" + std::to_string(blk) + " does not begin with its instruction\n" + t); }
	REQ(c, !ops.empty() && ops.count(0), "vmdot:empty", t); bool br = false;
	for (auto &p : ops) if (p.second.act.compare(0, 8, "branch #") == 0) { br = true; unsigned to = (unsigned)strtoul(p.second.act.c_str() + 8, NULL, 10); REQ(c, blocks.count(to), "vmdot:target", "branch to #" + std::to_string(to) + ", which begins no block\n" + t);
		std::string bt = std::to_string(to); bool drawn = false; for (auto &e : d.edges) if (e.from.find(":b" + std::to_string(p.first) + ":") != std::string::npos || e.from.find(":i" + std::to_string(p.first) + ":") != std::string::npos) { REQ(c, e.to == "S" + bt || e.to.compare(0, 1 + bt.size() + 1, "S" + bt + ":") == 0, "vmdot:edge", "edge of #" + std::to_string(p.first) + " goes to " + e.to + "\n" + t); drawn = true; } REQ(c, drawn, "vmdot:edge", "no edge drawn for #" + std::to_string(p.first) + "\n" + t); }
	auto result = [&](const std::string &act, Label &l) { if (act == "fail") { l = Label(); return; } REQ(c, act.compare(0, 5, "match") == 0, "vmdot:action", act + "\n" + t); l = Label(); l.end = true; for (size_t i = act.find('#'); i != std::string::npos; i = act.find('#', i + 1)) l.ids.insert((id_t)strtoul(act.c_str() + i + 1, NULL, 10)); };
	auto holds = [&](const std::string &cond, int ch) { if (cond == "always") return true; size_t sp = cond.find(" '"); REQ(c, sp != std::string::npos && cond.back() == '\'', "vmdot:cond", cond + "\n" + t); std::string op = cond.substr(0, sp); REQ(c, ch >= 0, "vmdot:cond", "a comparison before any fetch\n" + t); int v = one(c, cond.substr(sp + 2, cond.size() - sp - 3), t);
		if (op == "=") return ch == v; if (op == "&lt;") return ch < v; if (op == "&gt;") return ch > v; if (op == "&le;") return ch <= v; if (op == "&ge;") return ch >= v; REQ(c, op == "&ne;", "vmdot:cond", cond); return ch != v; };
	for (auto &w : words) { Label want = run_label(a, w, CMP_IDS), got; bool done = false; size_t p = 0; int ch = -1; unsigned ip = 0, steps = 0; if (!want.end) want.ids.clear();
		while (!done) { REQ(c, ops.count(ip) && ++steps < 100000, "vmdot:runs", "control leaves the program at #" + std::to_string(ip) + " on " + pbt::show(w) + "\n" + t); Op &q = ops[ip];
			if (q.cond == "fetch") { if (p == w.size()) { result(q.act, got); done = true; } else { ch = (unsigned char)w[p++]; ip++; } continue; }
			if (!holds(q.cond, ch)) { ip++; continue; } if (q.act.compare(0, 8, "branch #") == 0) ip = (unsigned)strtoul(q.act.c_str() + 8, NULL, 10);
			// stopping with a match before the end of input: every continuation matches
			else { result(q.act, got); done = true; } }
		REQ(c, got.end == want.end, "vmdot:verdict", "word " + pbt::show(w) + ": expected " + show_label(want) + ", the program gives " + show_label(got) + "\n" + dump(a) + t);
		if (o.ambig == AMBIG_MULTIPLE) REQ(c, got == want, "vmdot:ids", "word " + pbt::show(w) + ": expected " + show_label(want) + ", the program gives " + show_label(got) + "\n" + dump(a) + t);
		else REQ(c, std::includes(want.ids.begin(), want.ids.end(), got.ids.begin(), got.ids.end()), "vmdot:ids", t); }
	if (br) c.nontrivial(); if (!o.fragment && c.chance(1, 40) && have_dot()) graphviz(c, t);
}

// C code calling the API: compile it, run it, and compare what it builds
PBT_CASE(api, 1, "at least one automaton with edges") {
	std::vector<Nfa> as; std::string src = "#include <assert.h>\n#include <stddef.h>\n#include <fsm/fsm.h>\n#include <fsm/pred.h>\n"; int k = c.range(1, 8); std::vector<struct fsm_options> os;
	for (int i = 0; i < k; i++) { GenOpts g; g.max_states = 6; Nfa a = gen_nfa(c, g); bool end = false; for (auto &s : a.st) end |= s.end; if (!end) a.st[c.draw(a.n())].end = true; as.push_back(a); struct fsm_options o = gen_opt(c); static char names[8][8]; snprintf(names[i], 8, "p%d_", i); o.prefix = names[i]; os.push_back(o); }
	c.describe([&](std::ostream &s) { for (auto &a : as) s << dump(a); });
	for (int i = 0; i < k; i++) { Fsm f(build(c, as[i])); std::string t = print(c, f, os[i], FSM_PRINT_API); if (os[i].fragment) t = "int p" + std::to_string(i) + "_fsm(struct fsm *fsm, fsm_state_t *x, fsm_state_t *y) {\n" + t + "\nreturn 1; }\n"; src += t; }
	std::string p = c.scratch + "/api"; FILE *fp = fopen((p + ".c").c_str(), "w"); fwrite(src.data(), 1, src.size(), fp); fclose(fp);
	int r = system(("gcc -w -std=c99 -shared -fPIC -I " + std::string(getenv("VERIF_REPO") ? getenv("VERIF_REPO") : "/repo") + "/include '-DLF_HEADER=<stddef.h>' -o " + p + ".so " + p + ".c >" + p + ".err 2>&1").c_str()); if (r) { char buf[2000]; fp = fopen((p + ".err").c_str(), "r"); size_t n = fread(buf, 1, sizeof buf, fp); fclose(fp); c.fail("api:compile", std::string(buf, n) + src); }
	void *h = dlopen((p + ".so").c_str(), RTLD_NOW | RTLD_LOCAL); REQ(c, h, "api:load", dlerror());
	for (int i = 0; i < k; i++) {
		typedef int fn(struct fsm *, fsm_state_t *, fsm_state_t *); fn *b = (fn *)dlsym(h, ("p" + std::to_string(i) + "_fsm").c_str()); REQ(c, b, "api:symbol", src);
		Fsm g(fsm_new(NULL)); fsm_state_t x, y; REQ(c, fsm_addstate(g, &x) && fsm_addstate(g, &y), "harness", "addstate"); fsm_setstart(g, x); fsm_setend(g, y, 1); REQ(c, b(g, &x, &y) == 1, "api:run", src);
		Nfa got = extract(c, g); int ends = 0; for (auto &s : as[i].st) ends += s.end; if (as[i].edge_count()) c.nontrivial();
		std::string w; bool eq; try { eq = equivalent(as[i], got, ends == 1 ? CMP_IDS : CMP_LANG, &w); } catch (TooBig &) { c.discard(); }
		if (!eq) c.fail("api:differs", edge_summary(as[i], got, w, CMP_IDS) + src);
	}
	dlclose(h); unlink((p + ".c").c_str()); unlink((p + ".so").c_str()); unlink((p + ".err").c_str());
}
