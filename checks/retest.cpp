// BUILD: variant=san progs=retest
// Property: the regression runner judges every line of a test file as the library judges the same text: a line holds,
// does not hold, or is ill-formed, and the counts, the error records and the exit status say so.
// Oracle: a reader of the documented file format over the generated structure, the library called in this process.
#include "tools.hpp"
static bool plain_char(unsigned char ch) { return ch >= 0x20 && ch < 0x7f && ch != '\\'; }
// a text as the runner's escapes spell it
static std::string spell(pbt::Ctx &c, const std::string &t) {
	std::string r; for (size_t i = 0; i < t.size(); i++) { unsigned char ch = (unsigned char)t[i]; bool octal_next = i + 1 < t.size() && t[i + 1] >= '0' && t[i + 1] <= '7', hex_next = i + 1 < t.size() && isxdigit((unsigned char)t[i + 1]); char b[16];
		const char *n = "abefnrtv\"\\", *v = "\a\b\033\f\n\r\t\v\"\\", *e = ch ? strchr(v, ch) : nullptr;
		if ((plain_char(ch) || ch >= 0x80) && !c.chance(1, 8)) { r += (char)ch; continue; }
		switch (c.draw(5)) {
		case 0: if (e) { r += '\\'; r += n[e - v]; continue; } // fall through
		case 1: snprintf(b, sizeof b, c.chance(1, 2) ? "\\x%02x" : "\\x%02X", ch); break;
		case 2: snprintf(b, sizeof b, ch < 16 && c.chance(1, 2) ? "\\x{%x}" : "\\x{%02X}", ch); break;
		case 3: if (octal_next) snprintf(b, sizeof b, "\\%03o", ch); else snprintf(b, sizeof b, c.chance(1, 2) ? "\\%o" : "\\%03o", ch); break;
		default: if (ch < 16 && !hex_next) snprintf(b, sizeof b, "\\x%x", ch); else snprintf(b, sizeof b, "\\x%02x", ch); }
		r += b; } return r;
}
struct Want { int line; std::string kind, what = ""; }; // kind: OK NOT bad-record bad-escape parse
struct FileGen { std::string text; int ln = 0; std::vector<Want> want; int regexps = 0, cases = 0, reerr = 0, err = 0; bool stopped = false; std::set<std::string> seen; };
static const char *const FORM[] = {"bad record", "bad escape sequence", "error parsing ", " should match ", " should not match "};
static void put_line(FileGen &g, const std::string &s) { g.text += s; g.text += '\n'; g.ln++; }
static void filler(pbt::Ctx &c, FileGen &g) { if (c.chance(1, 8)) put_line(g, std::string("#") + (c.chance(1, 2) ? " +a" : "")); }
struct Opt { int dialect; int max; bool io_str, compiled; size_t budget; };
static void gen_file(pbt::Ctx &c, FileGen &g, const Opt &o, int records) {
	int dialect = o.dialect; bool esc = false; 
	for (int k = 0; k < records && !g.stopped; k++) {
		int flags = 0; bool saved = esc, restore = false; filler(c, g);
		if (c.chance(1, 15)) { put_line(g, "M " + std::string(1, "iasx"[c.draw(4)])); put_line(g, ""); } // flags end with the record, even one that tests nothing
		if (c.chance(1, 6)) { restore = true; put_line(g, "O &"); filler(c, g); }
		if (c.chance(1, 3)) { bool on = c.chance(1, 2); static const char *const A[] = {"O +e", "O + e", "O = e", "O =e"}, *const B[] = {"O -e", "O =", "O - e", "O = "}; put_line(g, on ? A[c.draw(4)] : B[c.draw(4)]); esc = on; }
		if (c.chance(1, 3)) { if (c.chance(1, 3)) { put_line(g, "R"); dialect = o.dialect; } else { dialect = (int)c.weighted({4, 5, 1, 1, 2, 1}); put_line(g, std::string("R ") + DIALECT[dialect].name); } }
		if (c.chance(1, 3)) { std::string m = "M "; static const char FL[] = "iasx"; static const int FV[] = {RE_ICASE, RE_ANCHORED, RE_SINGLE, RE_EXTENDED}; bool zero = c.chance(1, 6); if (zero) { m += c.chance(1, 2) ? "i0" : "0"; } for (int i = 0; i < 4; i++) if (c.chance(1, 4)) { m += FL[i]; flags |= FV[i]; if (c.chance(1, 4)) m += ' '; } put_line(g, m); filler(c, g); }
		// the expression
		Pats ps; ps.d = dialect; ps.flags = flags; Pat p; if (flags & RE_EXTENDED) { p.txt = std::string("a") + " b"[c.draw(2)] + "cd"[c.draw(2)] + (c.chance(1, 2) ? " \t#x" : "*"); } else p = gen_pat(c, dialect, flags); if (p.txt.find('\0') != std::string::npos || (!esc && p.txt.find('\n') != std::string::npos)) { p.txt = "ab*"; p.t = nullptr; }
		bool bad = esc && c.chance(1, 15); std::string raw = esc ? spell(c, p.txt) : p.txt; if (bad) raw += c.chance(1, 2) ? "\\q" : c.chance(1, 2) ? "\\" : "\\x{4"; bool tilde = raw.empty() || raw[0] == '#' || raw[0] == '~' || ((raw[0] == 'R') && (raw.size() == 1 || raw[1] == ' ')) || ((raw[0] == 'O' || raw[0] == 'M') && raw.size() > 1 && raw[1] == ' ') || c.chance(1, 2);
		put_line(g, (tilde ? "~" : "") + raw); g.regexps++; ps.p.push_back(p); bool ok = false; 
		if (bad) { g.want.push_back({g.ln, FORM[1]}); g.reerr++; }
		else { struct re_err e; Fsm f(rex::comp(DIALECT[dialect].d, p.txt, flags, &e)); if (!f.f) { g.want.push_back({g.ln, std::string(FORM[2]) + DIALECT[dialect].name}); g.reerr++; g.seen.insert("refused"); } else { rex::determinise(c, f, 300); REQ(c, fsm_minimise(f), "library", "minimise"); ps.m.push_back(extract(c, f)); ps.f.push_back(std::move(f)); ok = true; } }
		std::string what; if (!(flags & RE_EXTENDED) && p.txt.find_first_not_of("ABCDEFGHIJKLMNOPQRSTUVWXYZabcdefghijklmnopqrstuvwxyz0123456789 ()*|.^$[]+?-_%") == std::string::npos) what = std::string(DIALECT[dialect].name) + " regexp /" + p.txt + "/" + (flags & RE_ICASE ? "i" : "") + (flags & RE_SINGLE ? "s" : "") + (flags & RE_ANCHORED ? "a" : "") + " "; // how a report names the expression
		int n = o.budget && c.chance(1, 5) ? c.range(20, 120) : c.range(0, 7);
		for (int i = 0; i < n && !g.stopped; i++) {
			filler(c, g); if (!ok) { put_line(g, std::string("+-"[c.draw(2)] + std::string("abc"))); continue; }
			if (c.chance(1, 40)) { put_line(g, c.chance(1, 2) ? "abc" : " +a"); g.want.push_back({g.ln, FORM[0]}); g.err++; continue; }
			std::string w = subject(c, ps); if (o.io_str) for (auto &ch : w) if (!ch) ch = 'n'; bool truth = ::fsmx::exec(ps.f[0], w, [] { static fsm_state_t e; return &e; }()) == 1, say = c.chance(1, 6) ? !truth : truth; g.cases++; std::string l = spell(c, w); 
			if (c.chance(1, 40)) { put_line(g, std::string(1, "+-"[c.draw(2)]) + l + (c.chance(1, 2) ? "\\q" : c.chance(1, 2) ? "\\" : "\\x{4")); g.want.push_back({g.ln, FORM[1]}); g.err++; continue; }
			if (l.size() > 1000) c.discard(); put_line(g, (say ? "+" : "-") + l); g.seen.insert(truth ? "matched" : "unmatched");
			if (say == truth) g.want.push_back({g.ln, "OK", what}); else { g.want.push_back({g.ln, say ? FORM[3] : FORM[4], what}); g.err++; if (o.max && g.err >= o.max) g.stopped = true; }
		}
		if (g.stopped) { put_line(g, "+never-read"); break; } if (k + 1 < records || c.chance(1, 2)) { put_line(g, ""); if (restore) esc = saved; if (c.chance(1, 6)) put_line(g, ""); }
	}
}
static void judge(pbt::Ctx &c, const Out &r, const FileGen &g, const Opt &o, const std::string &name, const std::string &ctx) {
	std::vector<std::pair<int, bool>> want, got; for (auto &w : g.want) if (w.kind == "OK") want.push_back({w.line, true}); else if (w.kind == FORM[3] || w.kind == FORM[4]) want.push_back({w.line, false});
	for (auto &l : lines(r.out)) { bool ok = l.compare(0, 14, "[OK    ] line ") == 0, no = l.compare(0, 14, "[NOT OK] line ") == 0; if (ok || no) got.push_back({atoi(l.c_str() + 14), ok}); }
	for (size_t i = 0; i < std::max(want.size(), got.size()); i++) { if (i >= got.size()) c.fail("missing", "line " + std::to_string(want[i].first) + " is not reported\n" + ctx + show(r)); if (i >= want.size()) c.fail("extra", "line " + std::to_string(got[i].first) + "\n" + ctx + show(r)); REQ(c, want[i] == got[i], "verdict", "line " + std::to_string(want[i].first) + (want[i].second ? " holds" : " does not hold") + "; reported: line " + std::to_string(got[i].first) + (got[i].second ? " OK" : " NOT OK") + "\n" + ctx + show(r)); }
	{ std::vector<std::string> rep; for (auto &l : lines(r.out)) if (l.compare(0, 14, "[OK    ] line ") == 0 || l.compare(0, 14, "[NOT OK] line ") == 0) rep.push_back(l); size_t k = 0; for (auto &w : g.want) if (w.kind == "OK" || w.kind == FORM[3] || w.kind == FORM[4]) { REQ(c, w.what.empty() || rep[k].find(": " + w.what) != std::string::npos, "names", "expected " + w.what + " in " + rep[k] + "\n" + ctx + show(r)); k++; } }
	auto says = [&](const std::string &t) { return r.out.find("\n" + t + "\n") != std::string::npos || r.out.compare(0, t.size() + 1, t + "\n") == 0; };
	std::string t1 = name + ": " + std::to_string(g.regexps) + " regexps, " + std::to_string(g.cases) + " test cases", t2 = name + ": " + std::to_string(g.reerr) + " re errors, " + std::to_string(g.err) + " errors"; REQ(c, says(t1), "count:cases", t1 + "\n" + ctx + show(r)); REQ(c, says(t2), "count:errors", t2 + "\n" + ctx + show(r));
	bool over = o.max && g.err >= o.max; REQ(c, (r.status != 0) == (g.err + g.reerr > 0), "status", std::to_string(g.err + g.reerr) + " errors\n" + ctx + show(r));
	if (over) return; // no records then
	size_t total = 0, k = 0; for (auto &w : g.want) if (w.kind != "OK") total++;
	std::vector<std::string> rec; for (auto &l : lines(r.err)) if (l[0] == '[' && l.find("] (" + name + ":") != std::string::npos) rec.push_back(l);
	for (auto &w : g.want) if (w.kind != "OK") { char b[40]; snprintf(b, sizeof b, "[%4u/%4u] (", (unsigned)k + 1, (unsigned)total); std::string p = b + name + ":" + std::to_string(w.line) + ") "; REQ(c, k < rec.size() && rec[k].compare(0, p.size(), p) == 0 && rec[k].find(w.kind, p.size() - 1) != std::string::npos && rec[k].find(w.what, p.size() - 1) != std::string::npos, "record", "expected " + p + w.what + "..." + w.kind + ", got " + (k < rec.size() ? rec[k] : "nothing") + "\n" + ctx + show(r)); k++; }
	REQ(c, rec.size() == total, "record:extra", std::to_string(rec.size()) + " for " + std::to_string(total) + "\n" + ctx + show(r)); std::string t3 = name + ": " + (total ? std::to_string(total) + " errors" : "no errors"); REQ(c, r.err.find(t3 + "\n") != std::string::npos, "record:count", t3 + "\n" + ctx + show(r));
}
static void options(pbt::Ctx &c, Args &v, Opt &o) { o.dialect = 1; if (c.chance(1, 4)) { o.dialect = (int)c.draw(6); v.push_back("-r"); v.push_back(DIALECT[o.dialect].name); } o.max = 0; if (c.chance(1, 5)) { o.max = c.range(1, 4); v.push_back("-E"); v.push_back(std::to_string(o.max)); } if (c.chance(1, 8)) v.push_back("-t"); if (c.chance(1, 8)) { v.push_back("-w"); v.push_back("600"); } }
#define MANY "some line of a file holds and some other line does not"
static void mark(pbt::Ctx &c, const FileGen &g) { bool y = false, n = false; for (auto &w : g.want) (w.kind == "OK" ? y : n) = true; if (y && n) c.nontrivial(); for (auto &s : g.seen) c.count(s); }
PBT_CASE(vm, 12, MANY) {
	Args v; Opt o{}; options(c, v, o); o.budget = c.chance(1, 8); if (c.chance(1, 3)) { v.push_back("-x"); v.push_back(c.chance(1, 2) ? "v1" : "v2"); } if (c.chance(1, 3)) { v.push_back("-O"); v.push_back(c.chance(1, 2) ? "0" : "1"); } if (c.chance(1, 6)) { v.push_back("-l"); v.push_back("vm"); }
	FileGen g; gen_file(c, g, o, c.range(1, 6)); std::string name = put(c, "t.tst", g.text); v.push_back(name); std::string ctx = line("retest", v) + "\n" + g.text; c.describe([&](std::ostream &s) { s << ctx; }); Out r = run(c, "retest", v); judge(c, r, g, o, name, ctx); mark(c, g);
}
PBT_CASE(files, 2, MANY) { // the status is that of the worst file
	Args v; Opt o{}; options(c, v, o); int n = c.range(2, 4); bool bad = false; std::string ctx; std::vector<FileGen> gs(n); for (int i = 0; i < n; i++) { gen_file(c, gs[i], o, c.range(0, 2)); if (gs[i].err + gs[i].reerr) bad = true; v.push_back(put(c, "t" + std::to_string(i) + ".tst", gs[i].text)); ctx += gs[i].text + "----\n"; mark(c, gs[i]); } ctx = line("retest", v) + "\n" + ctx; c.describe([&](std::ostream &s) { s << ctx; });
	Out r = run(c, "retest", v); REQ(c, (r.status != 0) == bad, "files:status", std::string(bad ? "some line does not hold\n" : "all lines hold\n") + ctx + show(r));
}
PBT_CASE(compiled, 1, MANY) { // matchers built from generated code
	Args v; Opt o{}; options(c, v, o); o.compiled = true; static const char *const L[] = {"c", "vmc", "asm", "vmops"}; int l = (int)c.draw(3); v.push_back("-l"); v.push_back(L[l]); o.io_str = l < 2 && c.chance(1, 2); if (o.io_str || c.chance(1, 3)) { v.push_back("-k"); v.push_back(o.io_str ? "str" : "pair"); }
	FileGen g; gen_file(c, g, o, c.range(1, 2)); std::string name = put(c, "t.tst", g.text); v.push_back(name); std::string ctx = line("retest", v) + "\n" + g.text; c.describe([&](std::ostream &s) { s << ctx; }); Out r = run(c, "retest", v); judge(c, r, g, o, name, ctx); mark(c, g); c.count(L[l]);
}
