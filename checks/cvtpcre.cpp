// BUILD: variant=san progs=cvtpcre
// Property: the converter of PCRE test files writes, for every pattern the library can compile, that pattern, its flags
// and its subjects with the expected verdicts, as the regression runner reads them; and counts what it read.
// Oracle: a reader of the runner's documented format, against the structure the input was written from.
#include "tools.hpp"
struct Rec { int line; std::string re; int flags; std::vector<std::pair<bool, std::string>> subj; bool operator==(const Rec &o) const { return line == o.line && re == o.re && flags == o.flags && subj == o.subj; } };
static std::string sh(const Rec &r) { std::string s = "line " + std::to_string(r.line) + " /" + pbt::show(r.re) + "/ flags " + std::to_string(r.flags); for (auto &x : r.subj) s += std::string(x.first ? " +" : " -") + pbt::show(x.second); return s; }
// escapes as the runner documents them
static bool unspell(const std::string &s, std::string &o) {
	o.clear(); for (size_t i = 0; i < s.size(); ) { if (s[i] != '\\') { o += s[i++]; continue; } if (++i >= s.size()) return false; char ch = s[i]; const char *n = "abefnrtv\"\\", *v = "\a\b\033\f\n\r\t\v\"\\", *e = strchr(n, ch);
		if (e) { o += v[e - n]; i++; } else if (ch >= '0' && ch <= '7') { int x = 0, k = 0; for (; k < 3 && i < s.size() && s[i] >= '0' && s[i] <= '7'; k++) x = x * 8 + (s[i++] - '0'); o += (char)x; }
		else if (ch == 'x') { i++; bool curly = i < s.size() && s[i] == '{'; i += curly; int x = 0; for (int k = 0; k < 2 && i < s.size() && isxdigit((unsigned char)s[i]); k++) x = x * 16 + (int)strtol(std::string(1, s[i++]).c_str(), nullptr, 16); if (curly) { if (i >= s.size() || s[i] != '}') return false; i++; } o += (char)x; } else return false; } return true;
}
// what the runner makes of a test file
static std::vector<Rec> read_tests(pbt::Ctx &c, const std::string &t, const std::string &ctx) {
	std::vector<Rec> v; bool esc = false, saved = false, restore = false, in = false; int flags = 0, at = 0; std::string u;
	for (auto &l : lines(t)) {
		if (l.empty()) { in = false; flags = 0; if (restore) { esc = saved; restore = false; } continue; }
		if (l[0] == '#') { sscanf(l.c_str(), "# input line %d", &at); continue; }
		if (l == "R" || l.compare(0, 2, "R ") == 0) c.fail("read:dialect", l + "\n" + ctx);
		if (l == "O &") { restore = true; saved = esc; continue; } if (l == "O +e") { esc = true; continue; } if (l.compare(0, 2, "O ") == 0) c.fail("read:option", l + "\n" + ctx);
		if (l.compare(0, 2, "M ") == 0) { for (char ch : l.substr(2)) { const char *F = "isax ", *e = strchr(F, ch); static const int V[] = {RE_ICASE, RE_SINGLE, RE_ANCHORED, RE_EXTENDED, 0}; REQ(c, e && ch, "read:flag", l + "\n" + ctx); flags |= V[e - F]; } continue; }
		if (!in) { std::string r = l[0] == '~' ? l.substr(1) : l; if (esc) { REQ(c, unspell(r, u), "read:escape", l + "\n" + ctx); r = u; } v.push_back({at, r, flags, {}}); in = true; continue; }
		REQ(c, l[0] == '+' || l[0] == '-', "read:record", l + "\n" + ctx); REQ(c, unspell(l.substr(1), u), "read:subject", l + "\n" + ctx); v.back().subj.push_back({l[0] == '+', u});
	}
	return v;
}
static std::string gen_text(pbt::Ctx &c, std::string &meant) { // a subject as pcre2test reads it
	std::string s; int n = c.range(0, 7); for (int i = 0; i < n; i++) { char b[16]; unsigned ch = (unsigned)c.draw(256); switch (c.weighted({6, 1, 1, 1, 2, 1, 1})) {
		case 0: { char x = "abAB 09{}\"'/#+-~ROM?*"[c.draw(21)]; s += x; meant += x; break; } case 1: snprintf(b, sizeof b, c.chance(1, 2) ? "\\x%02x" : "\\x%02X", ch); s += b; meant += (char)ch; break; case 2: snprintf(b, sizeof b, "\\x{%x}", ch); s += b; meant += (char)ch; break; case 3: snprintf(b, sizeof b, "\\%03o", ch); s += b; meant += (char)ch; break;
		case 4: { int k = (int)c.draw(9); s += '\\'; s += "abefnrtv\\"[k]; meant += "\a\b\033\f\n\r\t\v\\"[k]; break; } case 5: { char x = "?*.$^[](\"'/+-"[c.draw(13)]; s += '\\'; s += x; meant += x; break; } default: if (ch > 0x80 && ch != 0xa0 && ch != 0x85) { s += (char)ch; meant += (char)ch; } } }
	return s;
}
PBT_CASE(convert, 1, "two patterns or more are kept, one with flags or a special first character, and some subject is written with an escape") {
	std::string in; int ln = 0, entries = 0; std::vector<Rec> want; Args skip; bool special = false, escapes = false; auto nl = [&](const std::string &s) { in += s; in += '\n'; for (char ch : s) ln += ch == '\n'; ln++; };
	int n = c.range(1, 6); for (int k = 0; k < n; k++) {
		for (int j = (int)c.draw(3); j--; ) switch (c.draw(4)) { case 0: nl("#pattern posix"); break; case 1: nl(""); break; case 2: nl("  /no/"); break; default: nl("text \\= /"); }
		char d = c.chance(2, 3) ? '/' : "/!\"'`-=_:;,%&@~"[c.draw(15)]; std::string re, src; 
		if (c.chance(1, 3)) { Pat p = gen_pat(c, 1, 0); re = p.txt; } else { int m = (int)c.small(6); static const char *const T[] = {"a", "b", "R", " ", "M ", "O ", "#", "~", "\n", "\\d", "[a-c]", ".", "x*", "(b)", "|", "\\n", "\r", "+", "-", "\\.", "/", "!", "_", "%", "^", "$", "\\z", ",", "\\/"}; for (int i = 0; i < m; i++) re += T[c.draw(29)]; }
		if (re.find('\0') != std::string::npos) c.discard(); std::string kept; // as written between delimiters, and as it is meant: an escaped delimiter stands for itself
		for (size_t i = 0; i < re.size(); i++) { if (re[i] == '\\' && i + 1 < re.size()) { src += re[i]; src += re[i + 1]; if (re[i + 1] != d) kept += '\\'; kept += re[++i]; } else if (re[i] == '\\') { src += "\\\\"; kept += "\\\\"; } else { if (re[i] == d) src += '\\'; src += re[i]; kept += re[i]; } } re = kept;
		int flags = 0; bool okmods = true; std::string mods; if (c.chance(1, 2)) { bool first = true; for (int j = c.range(1, 3); j--; ) { std::string t; if (first && c.chance(1, 2)) { for (int q = c.range(1, 3); q--; ) { char x = "isxgnBIm"[c.weighted({6, 6, 4, 4, 2, 1, 1, 1})]; if (x == 'x' && t.find('x') != std::string::npos) continue; t += x; if (x == 'i') flags |= RE_ICASE; if (x == 's') flags |= RE_SINGLE; if (x == 'x') flags |= RE_EXTENDED; if (strchr("BIm", x)) okmods = false; } }
			else { static const struct { const char *n; int f; bool ok; } L[] = {{"caseless", RE_ICASE, true}, {"dotall", RE_SINGLE, true}, {"extended", RE_EXTENDED, true}, {"global", 0, true}, {"no_auto_capture", 0, true}, {"multiline", 0, false}, {"utf", 0, false}, {"anchored", 0, false}, {"nonsense", 0, false}, {"extended_more", 0, false}}; int q = (int)c.weighted({6, 6, 4, 4, 2, 1, 1, 1, 1, 1}); t = L[q].n; flags |= L[q].f; if (!L[q].ok) okmods = false; }
			mods += (first ? "" : ",") + std::string(c.chance(1, 6) ? c.chance(1, 2) ? " " : "\t" : "") + t + (c.chance(1, 6) ? c.chance(1, 2) ? " " : "\t " : ""); first = false; } }
		if (c.chance(1, 14)) { mods.insert(0, "\\"); re += '\\'; } // a backslash behind the closing delimiter belongs to the expression
		nl(std::string(1, d) + src + d + mods); entries++; Rec r{ln, re, flags, {}}; bool ok = okmods; if (ok) { const char *p = re.c_str(); struct re_err e; Fsm f(re_comp(RE_PCRE, fsm_sgetc, &p, NULL, (enum re_flags)flags, &e)); ok = f.f != nullptr; } if (c.chance(1, 12)) { skip.push_back("-s"); skip.push_back(re); } 
		bool pos = true; for (int j = (int)c.draw(5); j--; ) { if (c.chance(1, 5) && pos) { nl(c.chance(1, 2) ? "\\= Expect no match" : "\\="); pos = false; continue; } std::string meant, t = gen_text(c, meant);
			while (!t.empty() && t[0] == ' ') { t.erase(0, 1); meant.erase(0, 1); } bool drop = false; if (c.chance(1, 10)) { t += c.chance(1, 2) ? "\\=" : "\\=notbol"; drop = t.back() == 'l'; } else if (t.empty() || t.back() == ' ' || c.chance(1, 8)) t += "\\";
			nl(std::string((size_t)c.range(1, 4), ' ') + t + (c.chance(1, 6) ? "  " : "")); escapes |= t.find('\\') != std::string::npos; if (!drop) r.subj.push_back({pos, meant}); }
		if (k + 1 < n || c.chance(1, 2)) nl(c.chance(1, 6) ? "  " : ""); if (ok) want.push_back(r); if (ok && (flags || re.empty() || strchr("#~ROM", re[0]))) special = true;
	}
	std::vector<Rec> w2; for (auto &r : want) { bool s = false; for (size_t i = 1; i < skip.size(); i += 2) s |= skip[i] == r.re; if (!s) w2.push_back(r); } if (c.chance(1, 6) && in.size() > 1 && in.back() == '\n') in.pop_back();
	Args v = skip; int how = (int)c.draw(3); std::string of = c.scratch + "/out.tst"; if (how) v.push_back(put(c, "in.txt", in)); if (how == 2) { unlink(of.c_str()); v.push_back(of); } std::string ctx = line("cvtpcre", v) + "\n" + in + "----\n"; c.describe([&](std::ostream &s) { s << ctx; });
	Out r = run(c, "cvtpcre", v, how ? nullptr : &in); std::string out = how == 2 ? slurp(of) : r.out; ctx += out + "----\n" + r.err.substr(0, 800); REQ(c, r.status == 0, "status", std::to_string(r.status) + "\n" + ctx);
	std::vector<Rec> got = read_tests(c, out, ctx); for (size_t i = 0; i < std::max(got.size(), w2.size()); i++) { if (i >= got.size()) c.fail("lost", sh(w2[i]) + "\n" + ctx); if (i >= w2.size()) c.fail("extra", sh(got[i]) + "\n" + ctx); REQ(c, got[i] == w2[i], "differs", "expected " + sh(w2[i]) + "\ngot " + sh(got[i]) + "\n" + ctx); }
	std::string t = std::to_string(entries) + " entries, " + std::to_string(w2.size()) + " parsed correctly"; REQ(c, r.err.find(t) != std::string::npos, "counts", t + "\n" + ctx); if (w2.size() >= 2 && special && escapes) c.nontrivial();
}
