// BUILD: variant=san
// Property: an ill-formed construct is refused with the code of its fault, at the bytes of the construct, whatever stands around it.
// Oracle: one known fault is put into generated well-formed text; the code, the span and the texts the report carries follow
// from the fault. The same text with the fault put right parses. What precedes the fault only shifts the report, and what
// follows it does not change it. re_perror prints what the report says.
#include "rex.hpp"
#include <functional>
#include <sys/mman.h>
#include <unistd.h>
using namespace model; using namespace fsmx; using namespace rx;
struct Fault {
	std::string bad, good; // the construct with its fault, and put right
	std::vector<int> codes; // the codes that name this fault
	int from = -1, to = -1; // exact span within `bad`, when the fault has one
	bool point = false, last = false, top = false; // a single position; nothing may follow; only outside groups
	std::string esc, set; bool counts = false; unsigned m = 0, n = 0;
	const char *name = "";
};
static const std::vector<int> SYN = {RE_EXTERM, RE_EXATOM, RE_EXCOUNT, RE_EXALTS, RE_EXRANGE, RE_EXCLOSEGROUP, RE_EXCLOSEFLAGS, RE_EXGROUPBODY, RE_EXEOF, RE_EXSUB, RE_EXGROUP};
static std::string hexs(int b) { char s[8]; snprintf(s, sizeof s, "\\x%02x", b); return s; }
static std::string items(pbt::Ctx &c, Dialect d) { std::string s; int n = c.range(0, 3); while (n--) switch (c.draw(3)) { case 0: s += "abkz059"[c.draw(7)]; break; case 1: { static const char *r[] = {"a-c", "0-9", "p-p", "A-Z"}; s += r[c.draw(4)]; break; } default: s += d == SQL ? "[:ALPHA:]" : "[:alpha:]"; } return s; }
static std::string endpoint(pbt::Ctx &c, Dialect d, int b) { // text of a range's end
	if (isalnum(b) && (d == SQL || c.chance(2, 3))) return std::string(1, (char)b);
	if (d == PCRE) { char s[16]; switch (c.draw(3)) { case 0: return hexs(b); case 1: snprintf(s, sizeof s, "\\x{%X}", b); return s; default: snprintf(s, sizeof s, "\\o{%o}", b); return s; } }
	return hexs(b);
}
static Fault negrange(pbt::Ctx &c, Dialect d) {
	Fault f; f.name = "negrange"; f.codes = {RE_ENEGRANGE}; int lo, hi; static const char al[] = "0123456789ABCXYZabcxyz";
	if (d == SQL || c.chance(1, 2)) { lo = al[c.draw(22)]; hi = al[c.draw(22)]; } else { lo = (int)c.draw(256); hi = (int)c.draw(256); }
	if (lo == hi) { lo = 'b'; hi = 'a'; } if (lo < hi) std::swap(lo, hi); // lo > hi: the fault
	std::string pre = std::string("[") + (c.chance(1, 4) ? "^" : "") + items(c, d), a = endpoint(c, d, lo), b = endpoint(c, d, hi), post = items(c, d) + "]";
	f.bad = pre + a + "-" + b + post; f.good = pre + b + "-" + a + post; if (c.chance(1, 4)) f.good = pre + a + "-" + a + post; f.from = (int)pre.size(); f.to = (int)(pre + a + "-" + b).size();
	if (isalnum(lo) && isalnum(hi)) f.set = std::string(1, (char)lo) + "-" + (char)hi; return f;
}
static std::string atomtxt(pbt::Ctx &c, Dialect d) { switch (c.draw(4)) { case 0: return "(y)"; case 1: return "[xy]"; case 2: return d == SQL ? "_" : "."; default: return "y"; } }
static std::string big(pbt::Ctx &c) { switch (c.draw(6)) { case 0: return "4294967296"; case 1: return "18446744073709551615"; case 2: return "18446744073709551616"; case 3: return "99999999999999999999999999999999999999999"; case 4: return "0004294967296"; default: return std::to_string(4294967296ull + c.draw(1ull << 40)); } }
static Fault negcount(pbt::Ctx &c, Dialect d) {
	Fault f; f.name = "negcount"; f.codes = {RE_ENEGCOUNT}; unsigned m = c.range(1, 12), n = (unsigned)c.draw(m); if (c.chance(1, 6)) m += 4000000000u; std::string a = atomtxt(c, d), z = c.chance(1, 5) ? "00" : "";
	f.bad = a + "{" + z + std::to_string(m) + "," + std::to_string(n) + "}"; f.good = a + "{" + std::to_string(n) + "," + std::to_string(c.chance(1, 3) ? n : m) + "}"; f.from = (int)a.size(); f.to = (int)f.bad.size(); f.counts = true; f.m = m; f.n = n; return f;
}
static std::string dots(const std::string &s, size_t sz) { return s.size() < sz - 4 ? s : s.substr(0, sz - 4) + "..."; }
static Fault countrange(pbt::Ctx &c, Dialect d) {
	Fault f; f.name = "countrange"; f.codes = {RE_ECOUNTRANGE}; std::string a = atomtxt(c, d) + "{", n = big(c), tail; if (c.chance(1, 3)) a += std::to_string(c.draw(9)) + ","; else if (d == PCRE && c.chance(1, 3)) tail = ","; else if (c.chance(1, 3)) tail = ",5"; tail += "}";
	f.bad = a + n + tail; f.good = a + "9" + (tail == ",5}" ? ",9}" : tail); f.from = (int)a.size(); f.to = (int)(a + n).size(); f.esc = dots(n, 32); return f;
}
static Fault escrange(pbt::Ctx &c, Dialect d) {
	Fault f; bool in = c.chance(1, 2), hex = d == PCRE && c.chance(1, 2); f.name = hex ? "hexrange" : "octrange"; f.codes = {hex ? RE_EHEXRANGE : RE_EOCTRANGE};
	unsigned long long v = c.chance(1, 3) ? 256 : 256 + c.draw(c.chance(1, 2) ? 100 : 1ull << 40); char s[64], g[64]; if (d == PCRE) { snprintf(s, sizeof s, hex ? c.chance(1, 2) ? "\\x{%llx}" : "\\x{%llX}" : "\\o{%llo}", v); snprintf(g, sizeof g, hex ? "\\x{%x}" : "\\o{%o}", 255u); }
	else { snprintf(s, sizeof s, "\\%llo", in ? v : 256 + v % 256); snprintf(g, sizeof g, "\\377"); }
	std::string x = s; if (d == PCRE && c.chance(1, 8)) { x.insert(3, std::string(c.range(1, 30), '0')); if (x.size() > 60) x = s; } else if (d == PCRE && c.chance(1, 12)) x = hex ? "\\x{" + std::string(c.range(17, 50), 'f') + "}" : "\\o{" + std::string(c.range(23, 50), '7') + "}";
	std::string pre = in ? "[" + items(c, d) + (c.chance(1, 3) ? std::string("0-") : "") : "", post = in ? "]" : d == PCRE ? "" : "y"; f.bad = pre + x + post; f.good = pre + g + post; f.from = (int)pre.size(); f.to = (int)(pre + x).size(); f.esc = dots(x, 32); return f;
}
static Fault badcount(pbt::Ctx &c, Dialect d) { // counts spelled wrong
	Fault f; f.name = "badcount"; f.codes = {RE_EXCOUNT}; f.point = true; std::string a = atomtxt(c, d); static const char *B[] = {"{}", "{,2}", "{1,2,3}", "{,}", "{1,,2}"}, *U[] = {"{", "{1", "{1,", "{1,2"}; if (c.chance(1, 3)) { f.bad = a + U[c.draw(4)]; f.good = a + "{1,2}"; f.last = true; } else { f.bad = a + B[c.draw(5)]; f.good = a + "{2}"; } return f;
}
static Fault openset(pbt::Ctx &c, Dialect d) { // a bracket left open at the end of the text
	Fault f; f.name = "openset"; f.codes = {RE_EXCLOSEGROUP}; f.point = f.last = true; std::string i = items(c, d); if (i.empty()) i = "k"; f.bad = std::string("[") + (c.chance(1, 4) ? "^" : "") + i; f.good = f.bad + "]"; return f;
}
static Fault quant(pbt::Ctx &c, Dialect d) { // a quantifier with nothing to apply to
	Fault f; f.name = "quantifier"; f.codes = SYN; f.codes.push_back(RE_EUNSUPPORTED); f.point = true; static const char *Q[] = {"*", "+", "{2}", "?"}, *Q2[] = {"**", "{2}{3}", "**", "+*", "?*", "{2}*"}; std::string a = atomtxt(c, d);
	if (c.chance(1, 2)) { f.bad = a + Q2[c.draw(6)]; f.good = a + "*"; } else { f.bad = "|" + std::string(Q[c.draw(4)]); f.good = "|y*"; } return f;
}
static Fault close(pbt::Ctx &c, Dialect d) { Fault f; f.name = "close"; f.codes = {RE_EXEOF}; f.point = f.top = true; std::string a = atomtxt(c, d); f.bad = a + ")"; f.good = a; return f; }
static Fault open(pbt::Ctx &c, Dialect d) { Fault f; f.name = "open"; f.codes = SYN; f.point = f.last = true; std::string o = "("; if (d == PCRE) { static const char *O[] = {"(", "(?:", "(?i:", "(?<n>"}; o = O[c.draw(3)]; } f.bad = o + atomtxt(c, d); f.good = f.bad + ")"; return f; }
static Fault flag(pbt::Ctx &c, Dialect) {
	Fault f; f.name = "flag"; f.codes = {RE_EFLAG}; f.point = true; static const char L[] = "abcdefghjklmopqrtuvwyz"; std::string x(1, L[c.draw(22)]); std::string pre = c.chance(1, 3) ? "(?i-" : c.chance(1, 2) ? "(?-" : "(?", post = c.chance(1, 2) ? ")" : ":y)"; f.bad = pre + x + post; f.good = pre + "s" + post; return f;
}
static Fault flags(pbt::Ctx &c, Dialect) { Fault f; f.name = "flags"; f.codes = {RE_EXCLOSEFLAGS}; f.point = true; static const char *B[] = {"(?i", "(?-s", "(?i-s"}; std::string b = B[c.draw(3)]; f.last = true; f.bad = b; f.good = b + ")"; return f; }
static Fault comment(pbt::Ctx &c, Dialect) { Fault f; f.name = "comment"; f.codes = {RE_EBADCOMMENT}; f.point = true; std::string t, u; int n = c.range(0, 4); while (n--) t += "x*[| \\"[c.draw(6)]; n = c.range(0, 3); while (n--) u += "x*[| "[c.draw(5)]; f.bad = "(?#" + t + "(" + u + ")"; f.good = "(?#" + t + u + ")"; return f; }
static Fault unsupported(pbt::Ctx &c, Dialect) {
	Fault f; f.name = "unsupported"; f.codes = {RE_EUNSUPPORTED}; f.point = true; static const char *U[] = {"\\C", "\\X", "\\G", "\\1", "\\12", "\\g", "\\k", "(?=", "(?!", "(?<=", "(?<!", "(*positive_lookahead:", "(*nlb:", "(*ACCEPT", "(*FAIL", "(*COMMIT:x", "(*NO_START_OPT", "(*CRLF", "\\K", "\\b", "\\B", "(?&", "(?P>"};
	static const char *I[] = {"[\\1]", "[a\\9]", "[\\ca]", "[\\d-z]", "[a-\\w]", "[a-\\cz]"}; if (c.chance(1, 4)) { f.bad = I[c.draw(6)]; f.good = "[a]"; } else if (c.chance(1, 6)) { static const char *Q[] = {"y*+", "y++", "y?+", "y{2}+"}; f.bad = Q[c.draw(4)]; f.good = "y*"; } else { f.bad = U[c.draw(sizeof U / sizeof *U)]; f.good = "y"; } return f;
}
static void perror_text(pbt::Ctx &c, enum re_dialect d, const struct re_err &e, const std::string &re) { // what re_perror prints
	static int mem = memfd_create("perror", 0); if (mem < 0 || ftruncate(mem, 0) || lseek(mem, 0, SEEK_SET)) abort(); bool file = c.chance(1, 2), s = re.find('\0') == std::string::npos && c.chance(1, 2); fflush(stderr); int keep = dup(2); dup2(mem, 2); re_perror(d, &e, file ? "f.re" : nullptr, s ? re.c_str() : nullptr); fflush(stderr); dup2(keep, 2); close(keep);
	std::string t((size_t)lseek(mem, 0, SEEK_END), 0); if (pread(mem, &t[0], t.size(), 0) != (ssize_t)t.size()) abort();
	std::string w = file ? "f.re" : ""; if (s) w += std::string(file ? ": " : "") + "/" + re + "/"; if (file || s) w += ":"; w += std::to_string(e.start.byte + 1); if (e.start.byte != e.end.byte) w += "-" + std::to_string(e.end.byte + 1); w += ": ";
	REQ(c, t.compare(0, w.size(), w) == 0 && t.size() > w.size() && t.back() == '\n', "printed", "re_perror prints " + pbt::show(t) + " for a report at " + std::to_string(e.start.byte) + "-" + std::to_string(e.end.byte));
	std::string r = t.substr(w.size()), must; if (e.e == RE_ENEGRANGE) must = std::string("[") + e.set + "]"; else if (e.e == RE_ENEGCOUNT) must = "{" + std::to_string(e.m) + "," + std::to_string(e.n) + "}"; else if (e.e == RE_EHEXRANGE || e.e == RE_EOCTRANGE || e.e == RE_ECOUNTRANGE) must = e.esc; else must = re_strerror(e.e);
	REQ(c, r.find(must) != std::string::npos, "printed", "re_perror prints " + pbt::show(t) + " without " + pbt::show(must));
}
static struct re_err parse(enum re_dialect d, const std::string &re, int flags, bool *ok, int how) {
	struct re_err e; memset(&e, 0x5a, sizeof e); rex::StrSrc s{&re, 0};
	if (how == 0) { struct fsm *f = re_comp(d, rex::str_getc, &s, nullptr, (enum re_flags)flags, &e); *ok = f != nullptr; if (f) fsm_free(f); }
	else if (how == 1) *ok = re_is_anchored(d, rex::str_getc, &s, (enum re_flags)flags, &e) != RE_IS_ANCHORED_ERROR;
	else { enum re_literal_category cat; char *p = nullptr; size_t n = 0; int r = re_is_literal(d, rex::str_getc, &s, (enum re_flags)flags, &e, &cat, &p, &n); *ok = r != -1; if (r == 1 && cat != RE_LITERAL_UNSATISFIABLE) free(p); }
	return e;
}
static std::string at(const struct re_err &e) { return std::string(re_strerror(e.e)) + " at " + std::to_string(e.start.byte) + "-" + std::to_string(e.end.byte); }
PBT_CASE(fault, 1, "something precedes or follows the fault") {
	Dialect D = (Dialect)c.weighted({4, 2, 2}); enum re_dialect d = D == PCRE ? RE_PCRE : D == NATIVE ? RE_NATIVE : RE_SQL; int fl = 0; if (c.chance(1, 4)) { static const int F[] = {RE_ICASE, RE_SINGLE, RE_ANCHORED, RE_END_NL}; fl = F[c.draw(4)]; }
	typedef Fault (*Mk)(pbt::Ctx &, Dialect); static const Mk A[] = {negrange, negcount, countrange, escrange, badcount, openset, quant, close, open, flag, flags, comment, unsupported};
	Fault f; do f = A[c.draw(D == PCRE ? 13 : 9)](c, D); while (D == SQL && (!strcmp(f.name, "octrange")));
	// groups around it
	std::string wrap, unwrap; int k = f.top ? 0 : (int)c.weighted({3, 2, 1}); while (k--) { static const char *W[] = {"(", "(?:", "(?i:", "(?s:"}; wrap += D == PCRE ? W[c.draw(4)] : "("; unwrap += ")"; }
	auto frag = [&](int w) { Opts o; o.d = D; o.width = w; o.depth = 2; o.anchors = false; Gen g(c, o); g.budget = 8; g.run(); return g.ext ? std::string() : g.txt; };
	std::string pre = c.chance(3, 4) ? frag(3) : "", good = c.chance(1, 2) ? frag(2) : "", post = good; if (D == NATIVE && !pre.empty() && (pre.back() == '|')) pre += "y";
	if (c.chance(1, 12)) { int n = c.range(100, c.chance(1, 6) ? 3000 : 700); std::string p; while ((int)p.size() < n) p += c.chance(1, 40) ? "(a|b)" : std::string(1, "abcxyz09"[c.draw(8)]); pre = p + pre; } // far from the start
	if (f.last) post = ""; else if (c.chance(1, 2)) { static const char *T[] = {")", "(", "[", "]", "{3,1}", "{", "[z-a]", "*", "|", "\\", "\\x{110}", "(?q)", "a", "é", "(?#(", "$"}; post = ""; int n = c.range(1, 4); while (n--) post += T[c.draw(16)]; }
	std::string sep = "y"; // nothing before the construct can run into it
	std::string bad = wrap + pre + sep + f.bad + (post.empty() ? "" : sep + post), bare = wrap + sep + f.bad, okay = wrap + pre + sep + f.good + sep + good + unwrap; size_t base = wrap.size() + pre.size() + sep.size(), b0 = wrap.size() + sep.size();
	c.describe([&](std::ostream &s) { s << f.name << " " << pbt::show(bad) << " dialect " << (int)D << " flags " << fl << "; put right " << pbt::show(okay); }); c.count(f.name);
	bool ok; int how = (int)c.draw(3); struct re_err e = parse(d, bad, fl, &ok, how); REQ(c, !ok, "accepted", std::string("an expression with a fault (") + f.name + ") is accepted");
	REQ(c, std::find(f.codes.begin(), f.codes.end(), (int)e.e) != f.codes.end(), "code", std::string("fault ") + f.name + " is reported as " + at(e)); c.count(re_strerror(e.e));
	REQ(c, e.e & RE_MARK, "mark", "no position: " + at(e));
	if (f.from >= 0) REQ(c, e.start.byte == base + f.from && e.end.byte == base + f.to, "span", at(e) + ", the fault stands at " + std::to_string(base + f.from) + "-" + std::to_string(base + f.to));
	else { REQ(c, e.start.byte == e.end.byte, "point", at(e)); REQ(c, e.start.byte + 1 >= base && e.start.byte <= base + f.bad.size(), "place", at(e) + ", the fault stands at " + std::to_string(base) + "-" + std::to_string(base + f.bad.size())); }
	if (!f.esc.empty()) REQ(c, f.esc == std::string(e.esc, strnlen(e.esc, sizeof e.esc)), "text", "the report quotes " + pbt::show(std::string(e.esc, strnlen(e.esc, sizeof e.esc))) + ", not " + pbt::show(f.esc));
	if (e.e == RE_ENEGRANGE) { std::string set(e.set, strnlen(e.set, sizeof e.set)); if (!f.set.empty()) REQ(c, set == f.set, "text", "the report quotes " + pbt::show(set) + ", not " + pbt::show(f.set)); else if (D == PCRE && set.find("\\]") == std::string::npos && set.find("\\v") == std::string::npos) { bool o2; struct re_err e2 = parse(d, "[" + set + "]", 0, &o2, 0); REQ(c, !o2 && e2.e == RE_ENEGRANGE && set == e2.set, "text", "the quoted range " + pbt::show(set) + " is not the same range when read back"); } }
	if (f.counts) REQ(c, e.m == f.m && e.n == f.n, "counts", "the report says {" + std::to_string(e.m) + "," + std::to_string(e.n) + "}");
	struct re_err z = parse(d, bare, fl, &ok, c.draw(3)); REQ(c, !ok, "accepted", "the fault alone is accepted");
	if (f.codes.size() == 1) REQ(c, z.e == e.e, "moved", "alone the fault is reported as " + at(z) + ", here as " + at(e));
	if (z.e == e.e) REQ(c, z.start.byte - b0 == e.start.byte - base && z.end.byte - b0 == e.end.byte - base, "moved", "alone (from " + std::to_string(b0) + ") the fault is reported as " + at(z) + ", here (from " + std::to_string(base) + ") as " + at(e));
	if (c.chance(1, 4)) perror_text(c, d, e, bad); if (!pre.empty() || !post.empty() || !wrap.empty()) c.nontrivial();
	struct re_err g = parse(d, okay, fl, &ok, 1); if (!ok && g.e == RE_EUNSUPPORTED && g.start.byte == 0 && g.end.byte == okay.size()) c.count("declined-by-analysis"); else REQ(c, ok, "put-right", "put right, the expression is refused: " + at(g));
}
