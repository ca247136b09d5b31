// Running the programs, and expressions for them: shared by the checks of command lines.
#pragma once
#include "rex.hpp"
#include <fcntl.h>
#include <sys/resource.h>
#include <sys/wait.h>
#include <unistd.h>
extern "C" {
#include <fsm/parser.h>
struct ast;
enum ast_print_lang { AST_PRINT_NONE, AST_PRINT_DOT, AST_PRINT_ABNF, AST_PRINT_PCRE, AST_PRINT_TREE };
int ast_print(FILE *, const struct ast *, const struct fsm_options *, enum re_flags, enum ast_print_lang);
struct ast *re_parse(enum re_dialect, int (*)(void *), void *, enum re_flags, struct re_err *, int *);
void ast_free(struct ast *);
}
using namespace model; using namespace fsmx;
typedef std::vector<std::string> Args;

// ---- processes and files
struct Out { int status; std::string out, err; };
inline std::string slurp(const std::string &p) { std::string r; FILE *f = fopen(p.c_str(), "r"); if (!f) return r; char b[4096]; size_t n; while ((n = fread(b, 1, sizeof b, f)) > 0) r.append(b, n); fclose(f); return r; }
inline std::string put(pbt::Ctx &c, const std::string &name, const std::string &s) { std::string p = c.scratch + "/" + name; FILE *f = fopen(p.c_str(), "w"); REQ(c, f, "harness", p); fwrite(s.data(), 1, s.size(), f); fclose(f); return p; }
inline std::string line(const std::string &prog, const Args &a) { std::string s = prog; for (auto &x : a) s += " '" + pbt::show(x) + "'"; return s; }
inline Out run(pbt::Ctx &c, const char *prog, const Args &a, const std::string *in = nullptr) {
	std::string env = std::string("PROG_") + prog; for (auto &ch : env) ch = (char)toupper((unsigned char)ch); const char *bin = getenv(env.c_str()); REQ(c, bin, "harness", env + " is not set");
	for (auto &x : a) if (x.find('\0') != std::string::npos) c.discard();
	std::string i = in ? put(c, "stdin", *in) : "/dev/null", o = c.scratch + "/stdout", e = c.scratch + "/stderr"; std::vector<char *> v{(char *)prog}; for (auto &x : a) v.push_back((char *)x.c_str()); v.push_back(nullptr);
	fflush(NULL); pid_t p = fork(); REQ(c, p >= 0, "harness", "fork");
	if (p == 0) {
		struct rlimit l = {40, 40}; setrlimit(RLIMIT_CPU, &l); l.rlim_cur = l.rlim_max = 0; setrlimit(RLIMIT_CORE, &l); int x = open(i.c_str(), O_RDONLY), y = open(o.c_str(), O_WRONLY | O_CREAT | O_TRUNC, 0600), z = open(e.c_str(), O_WRONLY | O_CREAT | O_TRUNC, 0600);
		if (x < 0 || y < 0 || z < 0) _exit(125); dup2(x, 0); dup2(y, 1); dup2(z, 2); setenv("ASAN_OPTIONS", "detect_leaks=0", 1); /* programs exit without freeing */ execv(bin, v.data()); _exit(126);
	}
	int st; while (waitpid(p, &st, 0) < 0) ; Out r{WIFEXITED(st) ? WEXITSTATUS(st) : 1000 + WTERMSIG(st), slurp(o), slurp(e)};
	if (r.status >= 124 || r.err.find("Sanitizer") != std::string::npos || r.err.find("runtime error") != std::string::npos) c.fail(std::string(prog) + ":crash", line(prog, a) + "\nstatus " + std::to_string(r.status) + "\n" + r.err.substr(0, 3000));
	return r;
}
inline std::string show(const Out &r) { return "exit status " + std::to_string(r.status) + "\nstdout: " + r.out.substr(0, 1500) + "\nstderr: " + r.err.substr(0, 600); }
template <class F> static std::string capture(F f) { char *b = nullptr; size_t n = 0; FILE *fp = open_memstream(&b, &n); f(fp); fclose(fp); std::string s(b, n); free(b); return s; }
inline std::string unesc(const std::string &s) { // as c_escputc_str() writes
	std::string r; for (size_t i = 0; i < s.size(); i++) { if (s[i] != '\\' || i + 1 >= s.size()) { r += s[i]; continue; } char k = s[++i]; const char *e = strchr("abfnrtv", k); if (e && k) r += "\a\b\f\n\r\t\v"[e - "abfnrtv"]; else if (k >= '0' && k <= '7') { r += (char)strtoul(s.substr(i, 3).c_str(), NULL, 8); i += 2; } else r += k; } return r;
}
inline std::vector<std::string> lines(const std::string &s) { std::vector<std::string> v; std::istringstream in(s); std::string l; while (std::getline(in, l)) v.push_back(l); return v; }
inline struct fsm *parse_fsm(pbt::Ctx &c, const std::string &t, const char *tag, const std::string &ctx) {
	if (t.empty()) { struct fsm *f = fsm_new(NULL); return f; }
	FILE *fp = fmemopen((void *)t.data(), t.size(), "r"); struct fsm *f = fsm_parse(fp, NULL); fclose(fp); REQ(c, f, tag, ctx); return f;
}
inline std::string no_nul(std::string s) { for (auto &ch : s) if (!ch) ch = 'a'; return s; }

// ---- expressions
static const struct { const char *name; enum re_dialect d; } DIALECT[] = {{"native", RE_NATIVE}, {"pcre", RE_PCRE}, {"glob", RE_GLOB}, {"like", RE_LIKE}, {"sql", RE_SQL}, {"literal", RE_LITERAL}};
struct Pat { std::string txt; rx::P t; };
struct Pats { int d; int flags; Args opts; std::vector<Pat> p; std::vector<Fsm> f; std::vector<Nfa> m; };
inline Pat gen_pat(pbt::Ctx &c, int d, int flags) {
	for (int tries = 0;; tries++) {
		if (tries > 20) c.discard(); Pat p;
		if (d == 0 || d == 1 || d == 4) { rx::Opts o; o.d = d == 0 ? rx::NATIVE : d == 1 ? rx::PCRE : rx::SQL; o.width = 3; o.depth = 2; o.max_count = 3; rx::Gen g(c, o); g.ic = flags & RE_ICASE; g.dotall = flags & RE_SINGLE; p.t = g.run(); p.txt = g.txt; if (rx::expanded(p.t) > 60 || !rx::tidy(p.t)) continue; }
		else { int n = c.range(0, 5); for (int i = 0; i < n; i++) p.txt += c.chance(1, 12) ? (char)(1 + c.draw(255)) : "abAb*?%_cd"[c.draw(10)]; }
		if (c.chance(1, 40)) { static const char *const odd[] = {"(", "a)", "[", "a{2", "*", "\\", "(?=a)b", "\\1", "(?<x", "a{3,1}", "[b-a]", "(a)\\1", "\\pL"}; p.txt = odd[c.draw(13)]; p.t = nullptr; }
		if (p.txt.size() > 120 || p.txt == "--") continue; return p;
	}
}
inline std::string subject(pbt::Ctx &c, const Pats &ps) {
	auto &p = ps.p[c.draw(ps.p.size())]; if (p.t && c.chance(2, 3)) return rx::subject(c, p.t); size_t k = c.draw(ps.m.size()); if (ps.m[k].start >= 0 && c.chance(3, 4)) return gen_word(c, ps.m[k]); std::string s; for (int n = c.range(0, 5); n > 0; n--) s += "abcd"[c.draw(4)]; return s;
}
inline Pats gen_pats(pbt::Ctx &c, int max, bool flags) {
	Pats r; r.d = (int)c.weighted({4, 5, 1, 1, 2, 1}); r.flags = 0; static const char *const FL = "bisx"; static const int FV[] = {RE_ANCHORED, RE_ICASE, RE_SINGLE, RE_EXTENDED}; std::string F;
	if (r.d || c.chance(1, 4)) { r.opts.push_back("-r"); r.opts.push_back(DIALECT[r.d].name); }
	if (flags) { for (int i = 0; i < 3; i++) if (c.chance(1, 6)) { r.flags |= FV[i]; if (i < 2 && c.chance(1, 2)) r.opts.push_back(i ? "-i" : "-b"); else F += FL[i]; } if (!F.empty()) { r.opts.push_back("-F"); r.opts.push_back(F); } }
	int n = c.range(1, max); for (int i = 0; i < n; i++) r.p.push_back(gen_pat(c, r.d, r.flags)); return r;
}
// compile the patterns here; the status re(1) exits with when one fails, or 0
inline int compile(pbt::Ctx &c, Pats &r) {
	for (auto &p : r.p) { struct re_err e; Fsm f(rex::comp(DIALECT[r.d].d, p.txt, r.flags, &e)); if (!f.f) return e.e == RE_EUNSUPPORTED ? 2 : 1; rex::determinise(c, f, 300); REQ(c, fsm_minimise(f), "library", "minimise"); r.m.push_back(extract(c, f)); r.f.push_back(std::move(f)); } return 0;
}
