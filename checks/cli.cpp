// BUILD: variant=san progs=fsm,re,rx
// Property: the exit status and output of the fsm, re and rx programs are what the library computes for the same
// automata, expressions, options and inputs.
// Oracle: the library called in this process, and the reference model over the automata it builds.
#include "tools.hpp"

// ---- options of fsm_print() which all programs spell alike
struct Lang { const char *name; enum fsm_print_lang l; };
static const Lang FSM_LANGS[] = {{"api", FSM_PRINT_API}, {"awk", FSM_PRINT_AWK}, {"c", FSM_PRINT_C}, {"dot", FSM_PRINT_DOT}, {"fsm", FSM_PRINT_FSM}, {"ir", FSM_PRINT_IR}, {"json", FSM_PRINT_JSON}, {"vmc", FSM_PRINT_VMC}, {"vmdot", FSM_PRINT_VMDOT}, {"rust", FSM_PRINT_RUST}, {"llvm", FSM_PRINT_LLVM}, {"sh", FSM_PRINT_SH}, {"go", FSM_PRINT_GO}, {"amd64", FSM_PRINT_AMD64_NASM}, {"amd64_att", FSM_PRINT_AMD64_ATT}, {"amd64_nasm", FSM_PRINT_AMD64_NASM}, {"amd64_go", FSM_PRINT_AMD64_GO}};
static const Lang RE_LANGS[] = {{"api", FSM_PRINT_API}, {"awk", FSM_PRINT_AWK}, {"c", FSM_PRINT_C}, {"dot", FSM_PRINT_DOT}, {"fsm", FSM_PRINT_FSM}, {"ir", FSM_PRINT_IR}, {"irjson", FSM_PRINT_IRJSON}, {"json", FSM_PRINT_JSON}, {"vmc", FSM_PRINT_VMC}, {"vmdot", FSM_PRINT_VMDOT}, {"rust", FSM_PRINT_RUST}, {"llvm", FSM_PRINT_LLVM}, {"sh", FSM_PRINT_SH}, {"go", FSM_PRINT_GO}, {"vmops_c", FSM_PRINT_VMOPS_C}, {"vmops_h", FSM_PRINT_VMOPS_H}, {"vmops_main", FSM_PRINT_VMOPS_MAIN}, {"amd64", FSM_PRINT_AMD64_NASM}, {"amd64_att", FSM_PRINT_AMD64_ATT}, {"amd64_nasm", FSM_PRINT_AMD64_NASM}, {"amd64_go", FSM_PRINT_AMD64_GO}};
static const struct { const char *name; enum fsm_io io; } IOS[] = {{"getc", FSM_IO_GETC}, {"str", FSM_IO_STR}, {"pair", FSM_IO_PAIR}};
static const char *const PREFIX[] = {"p_", "Foo", "x"};
static bool printed(const struct fsm *f, const struct fsm_options &o, const struct fsm_hooks *h, enum fsm_print_lang l, std::string *s, int *rc) { int r = 0; *s = capture([&](FILE *fp) { r = fsm_print(fp, f, &o, h, l); }); *rc = r; return r >= 0; }

// two automata may differ in the order of their states and edges: the same lines, but for numbers, say the same
static bool same_text(const std::string &a, const std::string &b) {
	if (a == b) return true; auto norm = [](const std::string &t) { auto v = lines(t); for (auto &l : v) { std::string k; for (char ch : l) if (!isdigit((unsigned char)ch) && ch != ' ') k += ch; l = k; } std::sort(v.begin(), v.end()); return v; }; return norm(a) == norm(b);
}

// ---- fsm
static std::string to_text(pbt::Ctx &c, const Nfa &a) { Fsm f(build(c, a)); struct fsm_options o; memset(&o, 0, sizeof o); o.ambig = AMBIG_MULTIPLE; o.consolidate_edges = c.chance(1, 2); return capture([&](FILE *fp) { fsm_print(fp, f, &o, NULL, FSM_PRINT_FSM); }); }
static Nfa small_nfa(pbt::Ctx &c, bool dfa) { GenOpts o; o.max_states = c.chance(1, 8) ? 12 : 6; o.must_start = true; o.eager = false; o.dfa = dfa; o.eps = !dfa; return gen_nfa(c, o); }
enum { COMPLETE, COMPLEMENT, REVERSE, DETERMINISE, MINIMISE, TRIM, EPSILONS, CONCAT, UNION, INTERSECT, SUBTRACT, NOP };
static const struct { const char *name; int op; } OPS[] = {{"complete", COMPLETE}, {"complement", COMPLEMENT}, {"invert", COMPLEMENT}, {"reverse", REVERSE}, {"rev", REVERSE}, {"determinise", DETERMINISE}, {"dfa", DETERMINISE}, {"todfa", DETERMINISE}, {"min", MINIMISE}, {"minimise", MINIMISE}, {"trim", TRIM}, {"remove_epsilons", EPSILONS}, {"cat", CONCAT}, {"concat", CONCAT}, {"union", UNION}, {"intersect", INTERSECT}, {"subtract", SUBTRACT}, {"sub", SUBTRACT}, {"minus", SUBTRACT}};
struct Job { Args a, files; std::string in; bool use_in = false; int op = NOP; bool refused = false; Nfa x, y; Fsm q; std::string desc; };
// a transformation on the command line, and the same one made here
static void transform(pbt::Ctx &c, Job &j, bool dfa, bool allow) {
	int k = -1; if (allow && c.chance(2, 3)) { k = (int)c.draw(sizeof OPS / sizeof *OPS); j.op = OPS[k].op; }
	bool binary = j.op >= CONCAT && j.op < NOP; j.x = small_nfa(c, dfa); if (binary) j.y = small_nfa(c, c.chance(1, 2));
	if (k >= 0) { static const struct { const char *o; int op; } SHORT[] = {{"-d", DETERMINISE}, {"-m", MINIMISE}, {"-r", REVERSE}, {"-E", EPSILONS}}; bool done = false; for (auto &s : SHORT) if (s.op == j.op && c.chance(1, 2)) { j.a.push_back(s.o); done = true; } if (!done) { j.a.push_back("-t"); j.a.push_back(OPS[k].name); } }
	std::string tx = to_text(c, j.x), ty; Fsm x(parse_fsm(c, tx, "harness", tx)), y; if (binary) { ty = to_text(c, j.y); y = Fsm(parse_fsm(c, ty, "harness", ty)); }
	bool stdin_ = c.chance(1, 4); if (stdin_) { j.in = tx; j.use_in = true; j.files.push_back("-"); } else j.files.push_back(put(c, "a.fsm", tx)); if (binary) j.files.push_back(put(c, "b.fsm", ty)); j.desc = tx + (binary ? "and\n" + ty : "");
	struct fsm *q = x.f, *r = y.f; x.f = y.f = nullptr; int ok = 1;
	switch (j.op) {
	case COMPLETE: ok = fsm_complete(q, fsm_isany); break; case COMPLEMENT: ok = fsm_complement(q); break; case REVERSE: ok = fsm_reverse(q); break; case DETERMINISE: ok = fsm_determinise(q); break;
	case MINIMISE: ok = fsm_determinise(q) && fsm_minimise(q); break; case TRIM: ok = fsm_trim(q, FSM_TRIM_START_AND_END_REACHABLE, NULL) >= 0; break; case EPSILONS: ok = fsm_remove_epsilons(q); break;
	case CONCAT: { struct fsm *u = fsm_concat(q, r, NULL); if (!u) { Fsm fq(q), fr(r); REQ(c, !fsm_has(q, fsm_isend), "library", "concatenation failed on\n" + j.desc); j.refused = true; return; } q = u; break; } case UNION: q = fsm_union(q, r, NULL); break; case INTERSECT: q = fsm_intersect(q, r); break; case SUBTRACT: q = fsm_subtract(q, r); break; default: break;
	}
	REQ(c, ok && q, "library", std::string("the library operation failed on\n") + j.desc); j.q = Fsm(q);
	if (c.chance(1, 6)) { std::string cs; for (int n = c.range(1, 5); n > 0; n--) cs += (char)(c.chance(1, 2) ? "abcd"[c.draw(4)] : 1 + c.draw(255)); j.a.push_back("-U"); j.a.push_back(cs); REQ(c, fsm_determinise(q), "library", "determinise"); q = fsm_intersect_charset(q, cs.size(), cs.c_str()); REQ(c, q, "library", "intersect_charset"); j.q.f = q; c.count("charset"); }
}
PBT_CASE(fsm_print, 6, "an operation is applied or a language other than fsm is printed") {
	Job j; transform(c, j, c.chance(1, 2), true); struct fsm_options o; memset(&o, 0, sizeof o); o.ambig = AMBIG_MULTIPLE; o.comments = 1; o.io = FSM_IO_GETC; enum fsm_print_lang l = FSM_PRINT_FSM; bool other = false;
	auto flag = [&](const char *s) { j.a.insert(j.a.begin() + 0, s); };
	if (c.chance(1, 2)) flag("-p"); else { auto &x = FSM_LANGS[c.draw(sizeof FSM_LANGS / sizeof *FSM_LANGS)]; l = x.l; flag(x.name); flag("-l"); other = l != FSM_PRINT_FSM; }
	if (c.chance(1, 4)) { o.anonymous_states = 1; flag("-a"); } if (c.chance(1, 4)) { o.consolidate_edges = 1; flag("-c"); } if (c.chance(1, 4)) { o.comments = 0; flag("-C"); } if (c.chance(1, 5)) { o.group_edges = 1; flag("-g"); } if (c.chance(1, 5)) { o.fragment = 1; flag("-w"); } if (c.chance(1, 5)) { o.always_hex = 1; flag("-X"); }
	if (c.chance(1, 5)) { o.prefix = PREFIX[c.draw(3)]; flag(o.prefix); flag("-e"); } if (c.chance(1, 2)) { auto &x = IOS[c.draw(3)]; o.io = x.io; flag(x.name); flag("-k"); }
	int iter = 1; if (!j.use_in && c.chance(1, 8)) { iter = c.range(1, 4); j.a.push_back("-i"); j.a.push_back(std::to_string(iter)); }
	if (!(j.use_in && j.files.size() == 1 && c.chance(1, 2))) j.a.insert(j.a.end(), j.files.begin(), j.files.end());
	c.describe([&](std::ostream &s) { s << line("fsm", j.a) << "\n" << j.desc; });
	if (j.refused) { Out r = run(c, "fsm", j.a, &j.in); REQ(c, r.status != 0 && (iter > 1 || r.out.empty()), "print:status", show(r)); return; }
	std::string want; int rc; printed(j.q, o, NULL, l, &want, &rc); Out r = run(c, "fsm", j.a, &j.in); std::string ctx = line("fsm", j.a) + "\n" + j.desc;
	if (rc < 0) { REQ(c, r.status != 0, "print:status", "the library refuses to print this, but the program reports success\n" + ctx); c.count("refused"); return; }
	REQ(c, r.status == 0, "print:status", ctx + show(r));
	if (iter > 1) { size_t k = r.out.find('\n'), m = r.out.find("=> total "); REQ(c, m != std::string::npos && m < k, "print:times", ctx + show(r)); std::istringstream in(r.out.substr(0, m)); double t; int n = 0; while (in >> t) n++; REQ(c, n == iter, "print:times", ctx + show(r)); r.out = r.out.substr(k + 1); c.count("iterations"); }
	REQ(c, same_text(r.out, want), "print:text", "output differs from the library's\n" + ctx + "library:\n" + want.substr(0, 1500) + "\nprogram:\n" + r.out.substr(0, 1500)); if (other || j.op != NOP) c.nontrivial(); if (other) c.count("lang"); if (j.op != NOP) c.count("op");
}
PBT_CASE(fsm_exec, 4, "at least two texts, of which one is accepted and one is not") {
	Job j; transform(c, j, true, c.chance(1, 2)); if (j.refused) c.discard(); Nfa q = extract(c, j.q); if (!is_dfa(q) && c.chance(3, 4)) { j.a.insert(j.a.begin(), "-d"); if (j.op != NOP) c.discard(); REQ(c, fsm_determinise(j.q), "library", "determinise"); q = extract(c, j.q); }
	bool files = c.chance(1, 2); int n = c.range(0, 4); bool all = true, some = false; std::vector<std::string> w; if (files) j.a.insert(j.a.begin(), "-x"); bool print = c.chance(1, 8); if (print) j.a.insert(j.a.begin(), "-p");
	j.a.insert(j.a.end(), j.files.begin(), j.files.end()); Nfa bias = j.x;
	for (int i = 0; i < n; i++) { std::string t = gen_word(c, c.chance(3, 4) && q.start >= 0 ? q : bias); if (!files) t = no_nul(t); w.push_back(t); j.a.push_back(files ? put(c, "t" + std::to_string(i), t) : t); bool y = accepts(q, t); all &= y; some |= y; }
	std::string ctx = line("fsm", j.a) + "\n" + j.desc; for (auto &t : w) ctx += "text " + pbt::show(t) + (accepts(q, t) ? " matches\n" : " does not match\n"); c.describe([&](std::ostream &s) { s << ctx; });
	if (j.a[0][0] != '-' && j.files[0] == "-") {} Out r = run(c, "fsm", j.a, &j.in);
	if (n && (!is_dfa(q) || q.start < 0)) { REQ(c, r.status != 0 || q.start < 0, "exec:nfa", "success executing an automaton which is not deterministic\n" + ctx); return; }
	REQ(c, (r.status == 0) == all, "exec:status", ctx + show(r)); if (!print) REQ(c, r.out.empty(), "exec:stdout", ctx + show(r)); if (some && !all) c.nontrivial(); if (files && n > 1) c.count("files");
}
PBT_CASE(fsm_query, 4, "the automaton has edges") {
	static const char *const Q[] = {"isdfa", "dfa", "count", "epsilonclosure", "iscomplete", "hasend", "end", "accept", "hasaccept", "ambiguity", "hasambiguity", "hasnondeterminism", "hasepsilons", "epsilons", "requiredchars", "chars"};
	std::string q = Q[c.draw(16)]; bool req = q == "requiredchars" || q == "chars"; Nfa a = c.chance(1, 20) ? Nfa() : small_nfa(c, req || c.chance(1, 2)); if (req && a.start < 0) c.discard(); std::string t = to_text(c, a); bool anon = c.chance(1, 4);
	// what text can carry: nothing is an end state without a start
	if (a.start < 0) for (auto &s : a.st) s.end = false;
	Args v; if (anon) v.push_back("-a"); bool hex = c.chance(1, 4); if (hex) v.push_back("-X"); v.push_back("-q"); v.push_back(q); bool in = c.chance(1, 3); if (!in || c.chance(1, 2)) v.push_back(in ? "-" : put(c, "a.fsm", t));
	std::string ctx = line("fsm", v) + "\n" + t; c.describe([&](std::ostream &s) { s << ctx; }); Out r = run(c, "fsm", v, &t); if (a.edge_count()) c.nontrivial();
	auto any = [&](std::function<bool(const State &)> f) { for (auto &s : a.st) if (f(s)) return true; return false; };
	auto nondet = [](const State &s) { Bits seen; for (auto &e : s.edges) for (auto &o : s.edges) if (e.second != o.second && (e.first & o.first).any()) return true; (void)seen; return false; };
	auto yes = [&](bool b) { REQ(c, (r.status == 0) == b, "query:status", std::string("the answer is ") + (b ? "yes" : "no") + "\n" + ctx + show(r)); REQ(c, r.out.empty(), "query:stdout", ctx + show(r)); };
	if (q == "count") { REQ(c, r.status == 0 && r.out == std::to_string(a.n()) + "\n", "query:count", ctx + show(r)); }
	else if (q == "isdfa" || q == "dfa") yes(!any([&](const State &s) { return !s.eps.empty() || nondet(s); }));
	else if (q == "iscomplete") { bool complete = true; for (auto &s : a.st) { Bits b; for (auto &e : s.edges) b |= e.first; if (!b.all()) complete = false; } yes(complete); }
	else if (q == "hasepsilons" || q == "epsilons") yes(any([&](const State &s) { return !s.eps.empty(); }));
	else if (q == "ambiguity" || q == "hasambiguity" || q == "hasnondeterminism") { if (any([&](const State &s) { return !s.eps.empty(); })) return; yes(any(nondet)); }
	else if (q == "epsilonclosure") { REQ(c, r.status == 0, "query:status", ctx + show(r)); std::string want; for (int i = 0; i < a.n(); i++) { Set s{i}; closure(a, s); std::sort(s.begin(), s.end()); if (!anon) want += std::to_string(i) + ": "; for (size_t k = 0; k < s.size(); k++) want += (k ? " " : "") + std::to_string(s[k]); want += "\n"; } REQ(c, r.out == want, "query:closure", ctx + show(r) + "\nexpected " + want); }
	else if (req) {
		if (empty_lang(a)) return; REQ(c, r.status == 0, "query:status", ctx + show(r)); std::string want; for (int b = 0; b < 256; b++) { Nfa m = a; for (auto &s : m.st) for (auto &e : s.edges) e.first.reset(b); if (empty_lang(m)) want += (char)b; }
		size_t sp = r.out.find(' '); REQ(c, sp != std::string::npos && r.out.back() == '\n', "query:chars", ctx + show(r)); REQ(c, (size_t)atoi(r.out.c_str()) == want.size() && unesc(r.out.substr(sp + 1, r.out.size() - sp - 2)) == want, "query:chars", ctx + show(r) + "\nexpected " + pbt::show(want)); if (!want.empty()) c.count("required");
	} else yes(any([](const State &s) { return s.end; }));
}
PBT_CASE(fsm_equal, 2, "the languages are neither empty nor all words") {
	Nfa a = small_nfa(c, c.chance(1, 2)), b; int how = (int)c.draw(4);
	if (how == 0) b = small_nfa(c, c.chance(1, 2)); else { Fsm f(build(c, a)); if (how == 1) fsm_determinise(f); else if (how == 2) { fsm_determinise(f); fsm_minimise(f); } else fsm_reverse(f), fsm_reverse(f); b = extract(c, f); if (c.chance(1, 2)) { int i = (int)c.draw(b.n() ? b.n() : 1); if (b.n()) b.st[i].end = !b.st[i].end; } }
	if (a.start < 0 || b.start < 0) c.discard(); if (c.chance(1, 2)) std::swap(a, b); std::string ta = to_text(c, a), tb = to_text(c, b); Args v{"-t", c.chance(1, 2) ? "equal" : "equals"}; if (c.chance(1, 8)) { v.insert(v.begin(), "abc"); v.insert(v.begin(), "-U"); }
	bool in = c.chance(1, 4); v.push_back(in ? "-" : put(c, "a.fsm", ta)); v.push_back(put(c, "b.fsm", tb)); std::string ctx = line("fsm", v) + "\n" + ta + "and\n" + tb; c.describe([&](std::ostream &s) { s << ctx; });
	bool eq = equivalent(a, b, CMP_LANG); Out r = run(c, "fsm", v, &ta); if (v[0] == "-U") return; // the charset does not apply to a comparison
	REQ(c, (r.status == 0) == eq, "equal:status", std::string("the languages are ") + (eq ? "equal" : "different") + "\n" + ctx + show(r)); c.count(eq ? "equal" : "different"); if (!empty_lang(a) && !empty_lang(b)) c.nontrivial();
}
static enum fsm_generate_matches_cb_res gen_cb(const struct fsm *, size_t, size_t, size_t, const char *in, size_t n, fsm_state_t, void *o) { auto *v = (std::vector<std::string> *)o; v->emplace_back(in, n); return v->size() > 1500 ? FSM_GENERATE_MATCHES_CB_RES_HALT : FSM_GENERATE_MATCHES_CB_RES_CONTINUE; }
static void generated(pbt::Ctx &c, const char *prog, const Nfa &m, struct fsm *f, size_t max, const Out &r, const std::string &ctx) {
	std::vector<std::string> want; fsm_generate_matches(f, max, 0, gen_cb, &want); auto got = lines(r.out); std::set<std::string> seen; std::string p = prog;
	for (auto &l : got) { std::string w = unesc(l); REQ(c, w.size() <= max && accepts(m, w), (p + ":gen:word").c_str(), pbt::show(w) + "\n" + ctx); REQ(c, seen.insert(w).second, (p + ":gen:twice").c_str(), pbt::show(w) + "\n" + ctx); }
	REQ(c, r.status == 0, (p + ":gen:status").c_str(), ctx + show(r)); REQ(c, got.size() == want.size(), (p + ":gen:missing").c_str(), std::to_string(got.size()) + " words of " + std::to_string(want.size()) + "\n" + ctx + show(r)); if (got.size() > 1) c.nontrivial();
}
// too many words make the comparison slow, not better
static bool few(struct fsm *f, size_t max) { Fsm g(fsm_clone(f)); std::vector<std::string> v; fsm_generate_matches(g, max, 0, gen_cb, &v); return v.size() <= 1000; }
PBT_CASE(fsm_gen, 2, "at least two words are printed") {
	Nfa a = small_nfa(c, c.chance(2, 3)); std::string t = to_text(c, a); size_t max = 1 + c.draw(8); Args v; bool hex = c.chance(1, 3); if (hex) v.push_back("-X"); v.push_back("-G"); v.push_back(std::to_string(max)); v.push_back(put(c, "a.fsm", t));
	std::string ctx = line("fsm", v) + "\n" + t; c.describe([&](std::ostream &s) { s << ctx; }); Fsm f(parse_fsm(c, t, "harness", t)); if (!fsm_all(f, fsm_isdfa)) fsm_determinise(f); if (!few(f, max)) c.discard(); Out r = run(c, "fsm", v); generated(c, "fsm", a, f, max, r, ctx);
}

// ---- re
// the patterns as arguments: in place, or as file names
static void pattern_args(pbt::Ctx &c, const Pats &r, Args &v, bool files) {
	if (!files) for (auto &p : r.p) if (p.txt.find('\0') != std::string::npos) c.discard();
	if (!files && r.p[0].txt[0] == '-') v.push_back("--"); else if (!v.empty() && c.chance(1, 8)) v.push_back("--");
	for (size_t i = 0; i < r.p.size(); i++) v.push_back(files ? put(c, "re" + std::to_string(i), r.p[i].txt) : r.p[i].txt);
}
static Nfa joined(const Pats &r, bool cat) { // ids are the pattern numbers
	Nfa a; for (size_t i = 0; i < r.m.size(); i++) { int base = a.n(); for (auto &s : r.m[i].st) { State t = s; for (auto &e : t.edges) e.second += base; t.ids.clear(); if (t.end) t.ids.insert((id_t)i); a.st.push_back(t); } if (cat && i) { for (int k = 0; k < base; k++) if (a.st[k].end) { a.st[k].end = false; a.st[k].ids.clear(); if (r.m[i].start >= 0) a.st[k].eps.insert(base + r.m[i].start); } if (base == 0) a.start = -1; } else if (cat) a.start = r.m[i].start; }
	if (!cat) { int s = a.add(); a.start = s; int base = 0; for (auto &m : r.m) { if (m.start >= 0) a.st[s].eps.insert(base + m.start); base += m.n(); } } return a;
}
static std::set<std::set<id_t>> conflicts(const Nfa &a) { std::set<std::set<id_t>> r; auto sy = reps({&a}); Dfa d = subset(a, CMP_IDS, 3000, &sy); for (auto &l : d.lab) if (l.end && l.ids.size() > 1) r.insert(l.ids); return r; }
static std::string patterns(const Args &n, const std::set<id_t> &ids, const char *q) { std::string s; for (auto i : ids) s += (s.empty() ? "" : ", ") + std::string(q) + n[i] + q; return s; }
static void want_conflict(pbt::Ctx &c, const Out &r, const Args &names, const std::set<std::set<id_t>> &cf, const std::string &ctx) {
	REQ(c, r.status == 1, "re:conflict:status", "the patterns are ambiguous\n" + ctx + show(r)); REQ(c, r.out.empty(), "re:conflict:stdout", ctx + show(r)); c.count("conflict");
	for (auto &s : cf) { std::string w = "ambiguous matches for " + patterns(names, s, "/"); REQ(c, r.err.find(w) != std::string::npos, "re:conflict:patterns", w + "\n" + ctx + show(r)); }
}
static void fails(pbt::Ctx &c, const Out &r, int st, const std::string &ctx) { REQ(c, r.status == st, "re:reject:status", "expected exit status " + std::to_string(st) + "\n" + ctx + show(r)); REQ(c, !r.err.empty(), "re:reject:message", ctx + show(r)); c.count(st == 2 ? "unsupported" : "rejected"); }
// the ids of an operand stay with its states: a following pattern which matches nothing at all makes them ambiguous
static bool carried(const Pats &ps, bool many, const Out &r) { if (many || r.status != 1 || r.err.find("ambiguous matches") == std::string::npos) return false; for (size_t i = 1; i < ps.m.size(); i++) if (accepts(ps.m[i], "")) return true; return false; }
PBT_CASE(re_exec, 8, "a text is matched by some pattern and another is not, or there are several patterns") {
	Pats ps = gen_pats(c, 4, true); int bad = compile(c, ps); size_t np = ps.p.size(); Args v = ps.opts; bool cat = np > 1 && c.chance(1, 5), many = c.chance(1, 3), vm = c.chance(1, 6), which = !cat && !vm && c.chance(1, 3), yfiles = c.chance(1, 4), files = c.chance(1, 4), ffiles = !bad && c.chance(1, 8);
	if (cat) v.push_back("-s"); if (many) v.push_back("-u"); if (vm) v.push_back("-M"); if (which) v.push_back("-z"); if (files) v.push_back("-x"); if (ffiles) { v.push_back("-f"); yfiles = false; } else if (yfiles) v.push_back("-y");
	if (!vm && c.chance(1, 16)) v.push_back("-n"); // of no effect here
	Args pa; if (ffiles) { std::vector<std::string> keep; for (size_t i = 0; i < np; i++) { std::string n = "f" + std::to_string(i) + ".fsm"; Nfa m = ps.m[i]; for (auto &s : m.st) s.ids.clear(); v.push_back(put(c, n, to_text(c, m))); pa.push_back(v.back()); } } else { pattern_args(c, ps, v, yfiles); pa.assign(v.end() - (long)np, v.end()); }
	Nfa j; std::set<std::set<id_t>> cf; if (!bad) { j = joined(ps, cat); try { cf = cat ? std::set<std::set<id_t>>() : conflicts(j); } catch (TooBig &) { c.discard(); } }
	int n = np == 1 && c.chance(1, 10) ? 0 : c.range(1, 3); if (n == 0 && np != 1) n = 1; if (n > 1 || (n && c.chance(1, 3))) v.push_back("--");
	std::vector<std::string> w; bool all = true, some = false; std::string want;
	for (int i = 0; i < n; i++) { std::string t = bad ? "ab" : subject(c, ps); if (!files) { t = no_nul(t); if (t == "--" && i == 0 && v.back() != "--") t = "-"; } w.push_back(t); v.push_back(files ? put(c, "t" + std::to_string(i), t) : t); if (bad) continue; Set s = start_set(j); for (unsigned char ch : t) s = step(j, s, ch); Label l = label(j, s, CMP_IDS); all &= l.end; some |= l.end; if (l.end) for (auto id : l.ids) want += "match: /" + pa[id] + "/\n"; }
	std::string ctx = line("re", v) + "\n"; for (size_t i = 0; i < np; i++) ctx += "pattern " + pbt::show(ps.p[i].txt) + "\n"; for (auto &t : w) ctx += "text " + pbt::show(t) + (bad ? "\n" : accepts(j, t) ? " matches\n" : " does not match\n"); c.describe([&](std::ostream &s) { s << ctx; }); Out r = run(c, "re", v);
	if (bad) return fails(c, r, bad, ctx); if (!many && !cf.empty()) return want_conflict(c, r, pa, cf, ctx); if (cat && carried(ps, many, r)) return;
	REQ(c, r.status == (all ? 0 : 1), "re:exec:status", ctx + show(r)); REQ(c, r.out == (which ? want : ""), "re:exec:stdout", ctx + show(r) + "\nexpected " + (which ? want : "nothing")); if ((some && !all) || np > 1) c.nontrivial(); if (which && some) c.count("patterns"); if (cat) c.count("concat"); if (vm) c.count("vm"); if (files) c.count("files"); if (n > 1) c.count("texts");
}
PBT_CASE(re_query, 2, "at least two patterns") {
	Pats ps = gen_pats(c, 3, true); if (ps.p.size() > 1 && c.chance(1, 2)) { ps.p[1] = ps.p[0]; if (ps.p[0].t && (ps.d == 0 || ps.d == 1)) ps.p[1].txt = "(" + ps.p[0].txt + ")"; if (c.chance(1, 3)) ps.p[1].txt += c.chance(1, 2) ? "|b" : "a"; ps.p[1].t = nullptr; if (c.chance(1, 2)) std::swap(ps.p[0], ps.p[1]); if (ps.p.size() > 2 && c.chance(1, 2)) ps.p[2] = ps.p[c.draw(2)]; }
	int bad = compile(c, ps); static const char *const Q[] = {"equal", "isequal", "areequal"}; Args v = ps.opts; v.push_back("-q"); v.push_back(Q[c.draw(3)]); bool y = c.chance(1, 4); if (y) v.push_back("-y"); pattern_args(c, ps, v, y); std::string ctx = line("re", v) + "\n"; for (auto &p : ps.p) ctx += "pattern " + pbt::show(p.txt) + "\n"; c.describe([&](std::ostream &s) { s << ctx; });
	Out r = run(c, "re", v); bool eq = true; for (auto &m : ps.m) { if (m.start < 0) c.discard(); eq &= equivalent(m, ps.m[0], CMP_LANG); }
	if (bad) { REQ(c, r.status == bad || (r.status == 1 && !eq), "re:reject:status", ctx + show(r)); return; }
	REQ(c, r.status == (eq ? 0 : 1), "re:query:status", std::string("the patterns are ") + (eq ? "" : "not ") + "equal\n" + ctx + show(r)); REQ(c, r.out.empty(), "re:query:stdout", ctx + show(r)); if (ps.p.size() > 1) { c.nontrivial(); c.count(eq ? "equal" : "different"); }
}
struct Names { Args n; };
static Names *hook_names; static const char *hook_open, *hook_close;
static int comment_hook(FILE *f, const struct fsm_options *, const struct fsm_state_metadata *m, void *) { fputs(hook_open, f); for (size_t i = 0; i < m->end_id_count; i++) fprintf(f, "%s\"%s\"", i ? ", " : "", hook_names->n[m->end_ids[i]].c_str()); fputs(hook_close, f); return 0; }
static Fsm pipeline(pbt::Ctx &c, Pats &ps, bool cat, bool nfa) { // as re(1) documents it
	struct fsm *f = fsm_new(NULL); for (size_t i = 0; i < ps.p.size(); i++) { struct fsm *g; if (nfa) { struct re_err e; g = rex::comp(DIALECT[ps.d].d, ps.p[i].txt, ps.flags, &e); } else { struct re_err e; g = rex::comp(DIALECT[ps.d].d, ps.p[i].txt, ps.flags, &e); REQ(c, g && fsm_determinise(g) && fsm_minimise(g), "library", "compile"); } REQ(c, g, "library", "compile"); REQ(c, fsm_setendid(g, (fsm_end_id_t)i), "library", "setendid"); f = cat ? fsm_concat(f, g, NULL) : fsm_union(f, g, NULL); REQ(c, f, "library", "join"); }
	if (!nfa) REQ(c, fsm_determinise(f), "library", "determinise"); return Fsm(f);
}
PBT_CASE(re_print, 5, "something other than a refusal is printed") {
	Pats ps = gen_pats(c, 3, true); int bad = compile(c, ps); Args v = ps.opts; bool cat = ps.p.size() > 1 && c.chance(1, 6), many = c.chance(1, 2), nfa = c.chance(1, 6), y = c.chance(1, 4), z = !cat && c.chance(1, 3); struct fsm_options o; memset(&o, 0, sizeof o); o.anonymous_states = 1; o.consolidate_edges = 1; o.comments = 1; o.io = FSM_IO_GETC; enum fsm_print_lang l = FSM_PRINT_FSM; struct fsm_hooks h; memset(&h, 0, sizeof h);
	if (c.chance(1, 2)) v.push_back("-p"); else { auto &x = RE_LANGS[c.draw(sizeof RE_LANGS / sizeof *RE_LANGS)]; l = x.l; v.push_back("-l"); v.push_back(x.name); }
	if (c.chance(1, 4)) { o.anonymous_states = 0; v.push_back("-a"); } if (c.chance(1, 4)) { o.consolidate_edges = 0; v.push_back("-c"); } if (c.chance(1, 3)) { o.comments = 0; v.push_back("-C"); } if (c.chance(1, 5)) { o.fragment = 1; v.push_back("-w"); } if (c.chance(1, 5)) { o.always_hex = 1; v.push_back("-X"); }
	if (c.chance(1, 5)) { o.prefix = PREFIX[c.draw(3)]; v.push_back("-e"); v.push_back(o.prefix); } if (c.chance(1, 5)) { o.package_prefix = PREFIX[c.draw(3)]; v.push_back("-E"); v.push_back(o.package_prefix); } if (c.chance(1, 2)) { auto &x = IOS[c.draw(3)]; o.io = x.io; v.push_back("-k"); v.push_back(x.name); }
	if (cat) v.push_back("-s"); if (many) v.push_back("-u"); if (nfa) v.push_back("-n"); if (y) v.push_back("-y"); if (z) v.push_back("-z"); pattern_args(c, ps, v, y); Names nm{Args(v.end() - (long)ps.p.size(), v.end())}; o.ambig = many || nfa ? AMBIG_MULTIPLE : AMBIG_ERROR;
	std::string ctx = line("re", v) + "\n"; for (auto &p : ps.p) ctx += "pattern " + pbt::show(p.txt) + "\n"; c.describe([&](std::ostream &s) { s << ctx; }); if (!bad && o.comments && fsm_countstates(pipeline(c, ps, cat, nfa)) > 60) c.discard(); // examples for each edge take long
	Out r = run(c, "re", v); if (bad) return fails(c, r, bad, ctx);
	Nfa j = joined(ps, cat); std::set<std::set<id_t>> cf; try { if (!cat) cf = conflicts(j); } catch (TooBig &) { c.discard(); } if (o.ambig == AMBIG_ERROR && !cf.empty()) return want_conflict(c, r, nm.n, cf, ctx);
	if (cat && carried(ps, o.ambig == AMBIG_MULTIPLE, r)) return;
	Fsm f = pipeline(c, ps, cat, nfa); hook_names = &nm; hook_close = ""; bool hooked = true;
	switch (l) { case FSM_PRINT_C: case FSM_PRINT_VMC: hook_open = "/* "; hook_close = " */"; break; case FSM_PRINT_RUST: case FSM_PRINT_GO: hook_open = "// "; break; case FSM_PRINT_LLVM: hook_open = "; "; break; case FSM_PRINT_DOT: case FSM_PRINT_VMDOT: hook_open = "/* "; hook_close = " */"; hooked = z; break; default: hooked = false; } if (hooked) h.comment = comment_hook;
	std::string want; int rc; printed(f, o, &h, l, &want, &rc); if (rc < 0) { REQ(c, r.status != 0, "re:print:status", "the library refuses to print this, but the program reports success\n" + ctx); c.count("refused"); return; }
	REQ(c, r.status == 0, "re:print:status", ctx + show(r)); c.nontrivial(); if (nfa) c.count("nfa"); if (l != FSM_PRINT_FSM) c.count("lang");
	if (l == FSM_PRINT_FSM) { Fsm g(parse_fsm(c, r.out, "re:print:parse", ctx + show(r))); Nfa b = extract(c, g); require_equiv(c, j, b, cat ? CMP_LANG : CMP_IDS, "re:print:language"); }
	REQ(c, same_text(r.out, want), "re:print:text", "output differs from the library's\n" + ctx + "library:\n" + want.substr(0, 1500) + "\nprogram:\n" + r.out.substr(0, 1500));
}
PBT_CASE(re_example, 3, "at least two examples are printed") {
	Pats ps = gen_pats(c, 3, true); int bad = compile(c, ps); Args v = ps.opts; bool many = c.chance(1, 2), z = c.chance(1, 2), y = c.chance(1, 4); v.push_back("-m"); if (many) v.push_back("-u"); if (z) v.push_back("-z"); if (y) v.push_back("-y"); pattern_args(c, ps, v, y); Args pa(v.end() - (long)ps.p.size(), v.end());
	std::string ctx = line("re", v) + "\n"; for (auto &p : ps.p) ctx += "pattern " + pbt::show(p.txt) + "\n"; c.describe([&](std::ostream &s) { s << ctx; }); Out r = run(c, "re", v); if (bad) return fails(c, r, bad, ctx);
	Nfa j = joined(ps, false); auto sy = reps({&j}); Dfa d; std::vector<int> cl; try { std::vector<int> cls; sy = reps({&j}, &cls); d = subset(j, CMP_IDS, 3000, &sy); cl = moore(d); bool nl = false; for (auto &s : j.st) for (auto &e : s.edges) { Bits t = e.first; if (t['\n'] && t.count() < 3) nl = true; if (t[0] && t.count() < 3) nl = true; }
		std::set<std::set<id_t>> cf = conflicts(j); if (!many && !cf.empty()) return want_conflict(c, r, pa, cf, ctx); for (auto &p : pa) if (z && (p.find('\n') != std::string::npos || p.find(": ") != std::string::npos)) return; if (nl) return; // raw bytes, one per line
		REQ(c, r.status == 0, "re:example:status", ctx + show(r)); std::set<int> want, got; for (int i = 0; i < d.n(); i++) if (d.lab[i].end) want.insert(cl[i]); std::map<int, int> at; for (size_t i = 0; i < sy.size(); i++) at[cls[sy[i]]] = (int)i; auto ls = lines(r.out);
		auto walk = [&](const std::string &w) { int st = 0; for (unsigned char ch : w) st = d.to[st][at[cls[ch]]]; return st; };
		// bytes which do not print are given as \xHH, and a backslash as itself
		auto readings = [](const std::string &w) { std::vector<std::string> r{w}; std::string o; for (size_t i = 0; i < w.size(); i++) if (w[i] == '\\' && i + 3 < w.size() && w[i + 1] == 'x' && isxdigit((unsigned char)w[i + 2]) && isxdigit((unsigned char)w[i + 3])) { o += (char)strtoul(w.substr(i + 2, 2).c_str(), NULL, 16); i += 3; } else o += w[i]; if (o != w) r.push_back(o); return r; };
		for (auto &l : ls) { if (l.size() >= 255) return; bool ok = false; for (size_t k = 0; (k = z ? l.find(": ", k) : 0) != std::string::npos; k++) { for (auto &w : readings(z ? l.substr(k + 2) : l)) { int st = walk(w); if (d.lab[st].end && (!z || l.substr(0, k) == patterns(pa, d.lab[st].ids, "/"))) { ok = true; got.insert(cl[st]); } } if (!z) break; } REQ(c, ok, "re:example:word", pbt::show(l) + " is not what the patterns match\n" + ctx + show(r)); }
		REQ(c, got == want, "re:example:missing", "examples reach " + std::to_string(got.size()) + " of " + std::to_string(want.size()) + " kinds of end state\n" + ctx + show(r)); if (!z) REQ(c, ls.size() == want.size(), "re:example:count", ctx + show(r)); if (ls.size() > 1) c.nontrivial();
	} catch (TooBig &) { c.discard(); }
}
PBT_CASE(re_gen, 2, "at least two words are printed") {
	Pats ps = gen_pats(c, 2, true); int bad = compile(c, ps); Args v = ps.opts; size_t max = 1 + c.draw(5); if (c.chance(1, 4)) v.push_back("-X"); v.push_back("-u"); v.push_back("-G"); v.push_back(std::to_string(max)); bool y = c.chance(1, 4); if (y) v.push_back("-y");
	if (ps.p.size() > 1 && !bad) { ps.p.resize(1); ps.m.resize(1); ps.f.resize(1); } if (ps.p.size() > 1) c.discard(); pattern_args(c, ps, v, y); std::string ctx = line("re", v) + "\n"; for (auto &p : ps.p) ctx += "pattern " + pbt::show(p.txt) + "\n"; c.describe([&](std::ostream &s) { s << ctx; });
	if (bad) { Out r = run(c, "re", v); return fails(c, r, bad, ctx); } Fsm f = pipeline(c, ps, false, false); if (!few(f, max)) c.discard(); Out r = run(c, "re", v); generated(c, "re", ps.m[0], f, max, r, ctx);
}
PBT_CASE(re_literal, 3, "the expression is a literal of at least one character, or unsatisfiable") {
	Pats ps = gen_pats(c, 1, true); if ((ps.d == 0 || ps.d == 1) && c.chance(2, 3)) { std::string s; for (int n = c.range(0, 5); n > 0; n--) s += "abcxyz01"[c.draw(8)]; if (c.chance(1, 3)) s = "^" + s; if (c.chance(1, 3)) s += "$"; if (c.chance(1, 8)) s += "x"; if (c.chance(1, 5)) s = "(" + s + ")"; ps.p[0].txt = s; }
	const std::string &t = ps.p[0].txt; Args v = ps.opts; v.push_back("-t"); bool y = c.chance(1, 3), hex = c.chance(1, 4); if (hex) v.push_back("-X"); if (y) v.push_back("-y"); pattern_args(c, ps, v, y); std::string ctx = line("re", v) + "\npattern " + pbt::show(t); c.describe([&](std::ostream &s) { s << ctx; });
	rex::StrSrc s{&t, 0}; struct re_err e; memset(&e, 0, sizeof e); enum re_literal_category cat; char *ls = nullptr; size_t ln = 0; int k = re_is_literal(DIALECT[ps.d].d, rex::str_getc, &s, (enum re_flags)ps.flags, &e, &cat, &ls, &ln); Out r = run(c, "re", v);
	if (k < 0) return fails(c, r, e.e == RE_EUNSUPPORTED ? 2 : 1, ctx); if (k == 0) { REQ(c, r.status == 1 && r.out.empty(), "re:literal:no", ctx + "\n" + show(r)); return; }
	REQ(c, r.status == 0, "re:literal:status", ctx + "\n" + show(r)); if (cat == RE_LITERAL_UNSATISFIABLE) { REQ(c, r.out == "unsatisfiable\n", "re:literal:text", ctx + "\n" + show(r)); c.nontrivial(); c.count("unsatisfiable"); return; }
	std::string lit(ls ? ls : "", ls ? ln : 0); free(ls); std::string head = std::string("anchors: ") + (cat & RE_LITERAL_ANCHOR_START ? "^" : "") + (cat & RE_LITERAL_ANCHOR_END ? "$" : "") + "\nliteral: "; bool ok = r.out.compare(0, head.size(), head) == 0 && r.out.back() == '\n'; std::string got = ok ? r.out.substr(head.size(), r.out.size() - head.size() - 1) : "";
	REQ(c, ok && unesc(got) == lit, "re:literal:text", "the literal is " + head + pbt::show(lit) + "\n" + ctx + "\n" + show(r)); if (lit.size()) c.nontrivial();
}
PBT_CASE(re_ast, 2, "an expression of at least two characters is printed") {
	Pats ps = gen_pats(c, 1, true); const std::string &t = ps.p[0].txt; static const struct { const char *n; enum ast_print_lang l; } L[] = {{"ast", AST_PRINT_DOT}, {"abnf", AST_PRINT_ABNF}, {"pcre", AST_PRINT_PCRE}, {"tree", AST_PRINT_TREE}}; auto &l = L[c.draw(4)]; struct fsm_options o; memset(&o, 0, sizeof o); o.anonymous_states = o.consolidate_edges = o.comments = 1; o.ambig = AMBIG_ERROR; o.io = FSM_IO_GETC; Args v = ps.opts; v.push_back("-l"); v.push_back(l.n); if (c.chance(1, 4)) { o.always_hex = 1; v.push_back("-X"); } if (c.chance(1, 4)) { o.prefix = "p_"; v.push_back("-e"); v.push_back("p_"); } bool y = c.chance(1, 3); if (y) v.push_back("-y"); pattern_args(c, ps, v, y);
	std::string ctx = line("re", v) + "\npattern " + pbt::show(t); c.describe([&](std::ostream &s) { s << ctx; }); rex::StrSrc s{&t, 0}; struct re_err e; memset(&e, 0, sizeof e); struct ast *a = re_parse(DIALECT[ps.d].d, rex::str_getc, &s, (enum re_flags)ps.flags, &e, NULL); std::string want; if (a) { want = capture([&](FILE *f) { ast_print(f, a, &o, (enum re_flags)ps.flags, l.l); }); ast_free(a); }
	Out r = run(c, "re", v); if (!a) return fails(c, r, e.e == RE_EUNSUPPORTED ? 2 : 1, ctx); REQ(c, r.status == 0, "re:ast:status", ctx + show(r)); if (want.find("0x") == std::string::npos) REQ(c, r.out == want, "re:ast:text", ctx + "\n" + show(r) + "\nlibrary: " + want.substr(0, 1500)); else { REQ(c, r.out.size() > 10, "re:ast:text", ctx + show(r)); } if (t.size() > 1) c.nontrivial();
}

// ---- rx
// edges are printed in groups, which the parser does not read: split them
static std::string ungroup(pbt::Ctx &c, const std::string &t) {
	std::string r; auto quoted = [&](const std::string &l, size_t &i) { int ch; i++; if (i >= l.size()) c.fail("rx:text", l); if (l[i] == '\\') { char k = l[++i]; i++; if (k == 'x') { ch = (int)strtoul(l.substr(i, 2).c_str(), NULL, 16); i += 2; } else { const char *e = "n\nr\rt\tf\fv\v"; ch = k; for (; *e; e += 2) if (k == *e) ch = e[1]; } } else ch = (unsigned char)l[i++]; REQ(c, i < l.size() && l[i] == '"', "rx:text", l); i++; return ch; };
	for (auto &l : lines(t)) { size_t ar = l.find("->"), q = l.find('"'), h = l.find('#'); if (ar == std::string::npos || q == std::string::npos || q < ar || h < q) { r += l + "\n"; continue; } for (size_t i = q; l[i] != ';';) { REQ(c, i < l.size(), "rx:text", l); if (l[i] != '"') { i++; continue; } int lo = quoted(l, i), hi = lo; if (l.compare(i, 4, " .. ") == 0) { i += 4; hi = quoted(l, i); } for (int b = lo; b <= hi; b++) { char x[16]; snprintf(x, sizeof x, "\"\\x%02x\";\n", b); r += l.substr(0, q) + x; } } } return r;
}
static Nfa literal_nfa(const std::string &s, bool left, bool right) { Nfa a; a.start = a.add(); Bits all; all.set(); if (!left) a.st[0].add(all, 0); for (unsigned char ch : s) { int t = a.add(); Bits b; b.set(ch); a.st[t - 1].add(b, t); } a.st[a.n() - 1].end = true; if (!right) a.st[a.n() - 1].add(all, a.n() - 1); return a; }
static Nfa no_newlines(Nfa a) { for (auto &s : a.st) for (auto &e : s.edges) e.first.reset('\n'); return a; }
struct Rx { std::vector<std::vector<std::string>> files; std::vector<int> dial; };
// the same command for another language writes what the library writes for that automaton and those options
static void rx_lang(pbt::Ctx &c, Args v, const std::string &text, const Nfa &m, int mode, const std::string &ctx0) {
	static const Lang RX_LANGS[] = {{"c", FSM_PRINT_VMC}, {"dot", FSM_PRINT_DOT}, {"rust", FSM_PRINT_RUST}, {"go", FSM_PRINT_GO}, {"ir", FSM_PRINT_IR}, {"irjson", FSM_PRINT_IRJSON}, {"llvm", FSM_PRINT_LLVM}, {"vmdot", FSM_PRINT_VMDOT}, {"vmops_c", FSM_PRINT_VMOPS_C}, {"vmops_h", FSM_PRINT_VMOPS_H}, {"vmops_main", FSM_PRINT_VMOPS_MAIN}, {"amd64_att", FSM_PRINT_AMD64_ATT}, {"amd64_nasm", FSM_PRINT_AMD64_NASM}, {"amd64_go", FSM_PRINT_AMD64_GO}};
	if (m.start < 0) return; // the numbers the program gave the states: the parser numbers them as they first appear
	std::vector<int> num; { std::set<int> seen; std::string t = text; for (auto &l : lines(t)) { size_t q = l.find('"'); std::string h = l.substr(0, q), k; bool in = false; for (char ch : h) { if (ch == '[') in = true; else if (ch == ']') in = false; k += in ? ' ' : isdigit((unsigned char)ch) ? ch : ' '; } std::istringstream is(k); int x; while (is >> x) if (seen.insert(x).second) num.push_back(x); } }
	if ((int)num.size() != m.n() || *std::max_element(num.begin(), num.end()) != m.n() - 1) { c.count("rx-numbering"); return; } Nfa x; x.st.resize(m.n()); x.start = num[m.start]; for (int i = 0; i < m.n(); i++) { x.st[num[i]] = m.st[i]; for (auto &e : x.st[num[i]].edges) e.second = num[e.second]; }
	const Lang &L = RX_LANGS[c.draw(mode ? 11 : 14)]; struct fsm_options o; memset(&o, 0, sizeof o); o.anonymous_states = std::find(v.begin(), v.end(), "-a") == v.end(); o.consolidate_edges = o.case_ranges = o.group_edges = 1; o.io = FSM_IO_PAIR; o.ambig = mode == 1 ? AMBIG_MULTIPLE : mode == 2 ? AMBIG_EARLIEST : AMBIG_ERROR;
	for (size_t i = 0; i + 1 < v.size(); i++) if (v[i] == "-l" && v[i + 1] == "fsm") { v[i + 1] = L.name; Args more; if (c.chance(1, 3)) { o.prefix = PREFIX[c.draw(3)]; more.push_back("-e"); more.push_back(o.prefix); } if (c.chance(1, 3)) { o.package_prefix = PREFIX[c.draw(3)]; more.push_back("-E"); more.push_back(o.package_prefix); } if (c.chance(1, 3)) { auto &k = IOS[c.draw(3)]; o.io = k.io; more.push_back("-k"); more.push_back(k.name); } if (c.chance(1, 4)) { o.fragment = 1; more.push_back("-w"); } if (c.chance(1, 4)) { o.always_hex = 1; more.push_back("-X"); } v.insert(v.begin(), more.begin(), more.end()); break; }
	Fsm f(build(c, x)); std::string want; int rc; printed(f, o, NULL, L.l, &want, &rc); Out r = run(c, "rx", v); std::string ctx = line("rx", v) + "\n" + ctx0; c.count(std::string("rx -l ") + L.name);
	if (rc < 0) { REQ(c, r.status != 0, "rx:lang:status", "the library refuses to print this, but the program reports success\n" + ctx); c.count("rx-refused"); return; }
	REQ(c, r.status == 0, "rx:lang:status", ctx + show(r)); REQ(c, same_text(r.out, want), "rx:lang:text", "output differs from the library's\n" + ctx + "library:\n" + want.substr(0, 1500) + "\nprogram:\n" + r.out.substr(0, 1500));
}
PBT_CASE(rx, 8, "at least two patterns with different ids are compiled") {
	int nf = c.chance(1, 3) ? c.range(2, 3) : 1, d0 = (int)c.weighted({3, 6, 1, 1, 1, 3}), flags = 0; Args v; bool ext = c.chance(1, 4), strict = c.chance(1, 8), open = c.chance(1, 4); int mode = (int)c.draw(3); std::string F; if (c.chance(1, 8)) { flags |= RE_ICASE; F += "i"; } if (c.chance(1, 8)) { flags |= RE_SINGLE; F += "s"; } if (c.chance(1, 10)) { flags |= RE_ANCHORED; F += "b"; }
	if (d0 != 1 || c.chance(1, 4)) { v.push_back("-r"); v.push_back(DIALECT[d0].name); } if (!F.empty()) { v.push_back("-F"); v.push_back(F); } if (ext) v.push_back("-s"); if (strict) v.push_back("-i"); if (open) v.push_back("-x"); if (mode) v.push_back(mode == 1 ? "-u" : "-t"); bool quiet = c.chance(1, 8); if (quiet) v.push_back("-q"); size_t limit = c.chance(1, 6) ? c.range(1, 3) : 0; if (limit) { v.push_back("-n"); v.push_back(std::to_string(limit)); } bool decl = c.chance(1, 2); std::string df = c.scratch + "/declined"; unlink(df.c_str()); if (decl) { v.push_back("-d"); v.push_back(df); }
	if (c.chance(1, 6)) v.push_back("-v"); if (c.chance(1, 8)) v.push_back("-Q"); if (c.chance(1, 4)) v.push_back("-a"); v.push_back("-l"); v.push_back("fsm");
	Bits cs; bool cut = c.chance(1, 6); if (cut) { std::string t; if (c.chance(1, 6)) { v.push_back("-c"); for (int b = 33; b < 127; b++) if (isalnum(b) || strchr("!#$%&'*+-.^_`|~", b)) cs.set(b); } else { for (int n = c.range(1, 5); n > 0; n--) t += "abcxA1 %\xff"[c.draw(9)]; for (unsigned char ch : t) cs.set(ch); v.push_back("-C"); v.push_back(t); } }
	auto within = [&](const Nfa &a) { Nfa r = a; if (cut) for (auto &s : r.st) for (auto &e : s.edges) e.first &= cs; return r; };
	Nfa j; j.start = j.add(); std::multiset<std::string> must, may; size_t general = 0; bool bad = false, refused = false; std::string ctx2; int made = 0; std::set<id_t> ids; id_t id = 0; std::map<id_t, std::string> spell;
	for (int k = 0; k < nf; k++) {
		int d = d0; std::string name = "p" + std::to_string(k); if (ext) { d = (int)c.weighted({3, 6, 1, 1, 1, 3}); name += std::string(".") + DIALECT[d].name; } if (nf > 1) id = (id_t)k; bool many = d != 2 && d != 3 && d != 4 && c.chance(1, 12); int n = many ? c.range(15, 80) : c.range(0, 4); std::string body; if (many) c.count("many-patterns");
		for (int i = 0; i < n; i++) {
			Pat p; Nfa m; bool ok = false, declined = false, maybe = false;
			for (int tries = 0; !ok; tries++) {
				if (tries > 30) c.discard(); p = gen_pat(c, d, flags); m = Nfa(); declined = maybe = false; std::string t = p.txt; if (many) { t = ""; bool cls = d < 2 && c.chance(1, 4); for (int q = c.range(1, 4); q > 0; q--) { t += "abcde"[c.draw(5)]; if (cls && q == 1) t += "[bc]"; } if (d < 2) t = (c.chance(4, 5) ? "^" : "") + t + "$"; } else if (d < 2 && c.chance(1, 3)) { t = ""; for (int q = c.range(1, 3); q > 0; q--) t += "abc"[c.draw(3)]; if (c.chance(1, 2)) t = "^" + t; if (c.chance(2, 3)) t += "$"; } if (t.find('\n') != std::string::npos || t.find('\0') != std::string::npos) continue; p.txt = t;
				if (d == 5) { bool l = !open, r = !open; if (open && !t.empty()) continue; m = within(literal_nfa(t, l, r)); ok = true; continue; }
				struct re_err e; rex::StrSrc s{&p.txt, 0}; memset(&e, 0, sizeof e); enum re_literal_category cat; char *ls = nullptr; size_t ln = 0; int lk = re_is_literal(DIALECT[d].d, rex::str_getc, &s, (enum re_flags)flags, &e, &cat, &ls, &ln); std::string lit(lk == 1 && ls ? ls : "", lk == 1 && ls ? ln : 0); if (lk == 1) free(ls);
				if (lk == 1 && cat == RE_LITERAL_UNSATISFIABLE) { maybe = true; m.start = m.add(); ok = true; continue; }
				if (lk == 1 && !lit.empty() && !(cat & RE_LITERAL_ANCHOR_END)) { continue; } // see the recorded finding
				if (cut && lk == 1 && !lit.empty()) { std::string t = lit; if (t.back() == '\n') t.pop_back(); bool in = true; for (unsigned char ch : t) in &= cs[ch]; if (!in) { declined = ok = true; refused = strict || refused; continue; } }
				if (cut && (lk == 0 || (lk == 1 && lit.empty()))) continue; // see the recorded finding
				Fsm f(rex::comp(DIALECT[d].d, p.txt, flags, &e)); if (!f.f) { declined = true; ok = true; if (e.e != RE_EUNSUPPORTED) bad = true; else if (lk == -1) bad = bad || strict; continue; }
				rex::determinise(c, f, 200); m = extract(c, f); for (auto &st : m.st) st.ids.clear(); ok = true; m = within(m); if (lk == 1 && !lit.empty()) continue; if (limit && general >= limit) { declined = true; m = Nfa(); } general++;
			}
			body += p.txt + (i == n - 1 && !p.txt.empty() && c.chance(1, 8) ? "" : "\n");
			if (declined) must.insert(p.txt); else if (maybe) may.insert(p.txt); else { int base = j.n(); for (auto &st : m.st) { State t = st; for (auto &e : t.edges) e.second += base; if (t.end) t.ids.insert(id); j.st.push_back(t); } if (m.start >= 0) j.st[0].eps.insert(base + m.start); made++; ids.insert(id); spell[id] += p.txt + "\n"; }
			ctx2 += "#" + std::to_string(id) + " " + DIALECT[d].name + " " + pbt::show(p.txt) + (declined ? " (declined)" : maybe ? " (unsatisfiable)" : "") + "\n"; if (nf == 1) id++;
		}
		v.push_back(put(c, name, body));
	}
	std::string ctx = line("rx", v) + "\n" + ctx2; c.describe([&](std::ostream &s) { s << ctx; }); Out r = run(c, "rx", v);
	if (strict && (bad || refused || !may.empty())) { REQ(c, r.status == 1, "rx:strict", "no error in strict mode\n" + ctx + show(r)); return; }
	Nfa jn = no_newlines(j); std::set<std::set<id_t>> cf, cfn; try { cf = conflicts(j); cfn = conflicts(jn); } catch (TooBig &) { c.discard(); }
	if (mode == 0 && r.status == 1 && !cf.empty() && cfn.empty()) return; // ambiguous on newlines only
	if (mode == 0 && !cfn.empty()) { REQ(c, r.status == 1, "rx:conflict:status", "the patterns are ambiguous\n" + ctx + show(r)); REQ(c, r.out.empty() && r.err.find("error: ambiguous patterns") != std::string::npos, "rx:conflict:message", ctx + show(r)); for (auto &s : cfn) for (auto i : s) REQ(c, r.err.find("#" + std::to_string(i) + ": /") != std::string::npos, "rx:conflict:message", "id " + std::to_string(i) + " is not listed\n" + ctx + show(r)); c.count("conflict"); return; }
	REQ(c, r.status == 0, "rx:status", ctx + show(r));
	if (decl) { std::multiset<std::string> got; for (auto &l : lines(slurp(df))) got.insert(l); std::multiset<std::string> g2 = got; for (auto &x : must) { auto it = g2.find(x); REQ(c, it != g2.end(), "rx:declined:missing", pbt::show(x) + "\n" + ctx + show(r)); g2.erase(it); } for (auto &x : g2) { auto it = may.find(x); REQ(c, it != may.end(), "rx:declined:extra", pbt::show(x) + "\n" + ctx + show(r)); } if (!must.empty()) c.count("declined"); }
	if (quiet) { REQ(c, r.out.empty(), "rx:quiet", ctx + show(r)); return; }
	Fsm g(parse_fsm(c, ungroup(c, r.out), "rx:parse", ctx + show(r))); Nfa b = extract(c, g); if (b.start < 0) { b = Nfa(); b.start = b.add(); }
	// rx leaves out the newline `$` allows at the end of a literal: compare words without newlines exactly, others one way
	std::string w; try {
		Nfa x = jn, y = no_newlines(b); if (mode == 2) { // the lowest id
			auto lowest = [](Label l) { if (l.ids.size() > 1) l.ids = {*l.ids.begin()}; return l; }; auto sy = reps({&x, &y}); Dfa dx = subset(x, CMP_IDS, 6000, &sy), dy = subset(y, CMP_IDS, 6000, &sy); std::set<std::pair<int, int>> seen{{0, 0}}; std::vector<std::pair<int, int>> q{{0, 0}}; std::vector<std::string> word{""};
			for (size_t i = 0; i < q.size(); i++) { Label p = lowest(dx.lab[q[i].first]), o = dy.lab[q[i].second]; REQ(c, p.end == o.end && (!p.end || p.ids == lowest(o).ids), "rx:earliest", "input " + pbt::show(word[i]) + ": expected " + show_label(p) + ", got " + show_label(o) + "\n" + ctx + show(r)); for (size_t k = 0; k < sy.size(); k++) { auto t = std::make_pair(dx.to[q[i].first][k], dy.to[q[i].second][k]); if (seen.insert(t).second) { q.push_back(t); word.push_back(word[i] + (char)sy[k]); } } }
		} else if (!equivalent(x, y, CMP_IDS, &w, 20000)) c.fail("rx:language", "input " + pbt::show(w) + ": expected " + show_label(run_label(x, w, CMP_IDS)) + ", got " + show_label(run_label(y, w, CMP_IDS)) + "\n" + ctx + show(r));
		if (!equivalent_op(b, b, j, [](bool p, bool q) { return p && q; }, &w, 20000)) c.fail("rx:newline", "input " + pbt::show(w) + " is matched, but by no pattern\n" + ctx + show(r));
	} catch (TooBig &) { c.discard(); }
	if (g.f && b.n() > 0 && fsm_countstates(g) > 0 && c.chance(1, 2)) rx_lang(c, v, r.out, extract(c, g), mode, ctx);
	if (ids.size() > 1) c.nontrivial(); if (nf > 1) c.count("several-files"); if (!must.empty()) c.count("with-declined"); if (cut && made) c.count("charset"); (void)made;
}

// Recorded defects (known_findings.jsonl): each names one command line; the subs above search everything else.
PBT_CASE(recorded, 1, "every case") {
	int i = (int)c.draw(4); c.nontrivial(); std::string ctx; c.describe([&](std::ostream &s) { s << ctx; });
	if (i == 0) { // several transformations
		std::string f = put(c, "a.fsm", "0 -> 1 \"a\";\n1 -> 2 \"b\";\nstart: 0;\nend: 2;\n"); Args v{"-p", "-t", "reverse", "-t", "complement", f}; ctx = line("fsm", v); Out r = run(c, "fsm", v); REQ(c, r.status == 0, "harness", show(r)); Nfa a = extract(c, Fsm(parse_fsm(c, r.out, "harness", show(r))));
		REQ(c, !accepts(a, "ba") && accepts(a, "ab"), "several-t", "the transformations are not applied in the order given\n" + ctx + show(r));
	} else if (i == 1) { // several queries
		std::string f = put(c, "a.fsm", "0 -> 1 \"a\";\n0 -> 0 \"a\";\nstart: 0;\nend: 1;\n"); Args v{"-q", "isdfa", "-q", "hasend", f}; ctx = line("fsm", v); Out r = run(c, "fsm", v); REQ(c, r.status != 0, "several-q", "the queries are not anded\n" + ctx + show(r));
	} else if (i == 2) { // charset and a general pattern
		std::string f = put(c, "p", "^[a-z]$\n"); Args v{"-C", "abc", "-l", "fsm", f}; ctx = line("rx", v); Out r = run(c, "rx", v); REQ(c, r.status == 0, "harness", show(r)); Nfa a = extract(c, Fsm(parse_fsm(c, ungroup(c, r.out), "harness", show(r)))); REQ(c, accepts(a, "b") && !accepts(a, "x"), "charset-general", "the automaton is not cut down to the character set\n" + ctx + show(r));
	} else { // literals found anywhere
		std::string f = put(c, "p", "ab\n"); Args v{"-l", "fsm", f}; ctx = line("rx", v); Out r = run(c, "rx", v); REQ(c, r.status == 0, "harness", show(r)); Nfa a = extract(c, Fsm(parse_fsm(c, ungroup(c, r.out), "harness", show(r)))); REQ(c, accepts(a, "ab") && accepts(a, "abx"), "open-literal", "a literal is only found at the end of the input\n" + ctx + show(r));
	}
}
