// BUILD: variant=san
// Property: printing an expression (parsed, or reconstructed from an automaton) as PCRE and parsing it back denotes
// the same language. Oracle: exact language equivalence of the automaton before and after the round trip.
#include "rex.hpp"
extern "C" { // src/libre/{ast,print,ast_new_from_fsm}.h, exported for re(1); the headers are not C++
struct ast;
enum ast_print_lang { AST_PRINT_NONE, AST_PRINT_DOT, AST_PRINT_ABNF, AST_PRINT_PCRE, AST_PRINT_TREE };
int ast_print(FILE *, const struct ast *, const struct fsm_options *, enum re_flags, enum ast_print_lang);
struct ast *re_parse(enum re_dialect, int (*)(void *), void *, enum re_flags, struct re_err *, int *);
struct ast *ast_new_from_fsm(const struct fsm *);
void ast_free(struct ast *);
}
using namespace model; using namespace fsmx; using namespace rx;

static std::string print_ast(const struct ast *a, const struct fsm_options *o, int flags, enum ast_print_lang lang, pbt::Ctx &c) {
	char *b = nullptr; size_t n = 0; FILE *f = open_memstream(&b, &n); int r = ast_print(f, a, o, (enum re_flags)flags, lang); fclose(f); std::string s(b, n); free(b);
	REQ(c, r == 0, "print", "ast_print failed"); REQ(c, lang != AST_PRINT_PCRE || (n && s.back() == '\n'), "newline", "printed text does not end with a newline"); if (lang == AST_PRINT_PCRE) s.pop_back(); return s;
}
static void same(pbt::Ctx &c, const Nfa &m, const Nfa &g, const std::string &ctx) {
	std::string w; try { if (!equivalent(m, g, CMP_LANG, &w, 20000)) c.fail(accepts(m, w) ? "missed" : "matched", ctx + "\ninput " + pbt::show(w) + ": " + (accepts(m, w) ? "lost" : "gained") + " by the round trip"); } catch (TooBig &) { c.discard(); }
}
static void options(pbt::Ctx &c, struct fsm_options *o) { memset(o, 0, sizeof *o); if (c.chance(1, 4)) o->always_hex = 1; }

static void trip(pbt::Ctx &c, enum re_dialect d, const std::string &txt, int flags, int implied, const P &t) {
	struct fsm_options o; options(c, &o);
	c.describe([&](std::ostream &s) { s << "dialect " << d << " " << pbt::show(txt) << " flags 0x" << std::hex << flags << (o.always_hex ? " hex" : ""); });
	struct re_err err; Fsm f(rex::comp(d, txt, flags, &err)); if (!f.f) c.discard();
	rex::StrSrc s{&txt, 0}; int unsat = 0; struct ast *a = re_parse(d, rex::str_getc, &s, (enum re_flags)(flags | implied), &err, c.chance(1, 2) ? &unsat : nullptr);
	REQ(c, a, "parse", "re_parse fails where re_comp does not");
	std::string p = print_ast(a, &o, flags | implied, AST_PRINT_PCRE, c); for (enum ast_print_lang l : {AST_PRINT_DOT, AST_PRINT_ABNF, AST_PRINT_TREE}) if (c.chance(1, 4)) print_ast(a, &o, flags | implied, l, c);
	ast_free(a);
	for (unsigned char ch : p) REQ(c, ch >= 32 && ch < 127, "raw", "unprintable byte in the printed expression " + pbt::show(p));
	c.note("printed: " + p);
	Fsm g(rex::comp(RE_PCRE, p, flags | implied, &err)); if (!g.f && err.e == RE_EUNSUPPORTED) c.discard();
	if (!g.f) { c.fail("reject", "printed expression " + pbt::show(p) + " of " + pbt::show(txt) + " is rejected: " + re_strerror(err.e)); }
	rex::determinise(c, f, 2000); rex::determinise(c, g, 4000); Nfa m = extract(c, f); same(c, m, extract(c, g), pbt::show(txt) + " printed as " + pbt::show(p)); if (!empty_lang(m) && p != txt) c.nontrivial();
	if (p == txt) c.count("verbatim");
}
static void shape(pbt::Ctx &c, const P &t) { if (expanded(t) > 120) c.discard(); int m = 0; anchors_in(t, &m); if (mixed_ends(t)) c.discard(); if (!tidy(t)) c.discard(); }
PBT_CASE(pcre, 6, "the language is not empty and the printed text differs from the expression") {
	Opts o; o.d = PCRE; o.width = 3; o.inline_flags = c.chance(1, 2); o.anchors = c.chance(1, 2); Gen g(c, o);
	int flags = 0; if (c.chance(1, 4)) { flags |= RE_ICASE; g.ic = true; } if (c.chance(1, 4)) flags |= RE_SINGLE; if (c.chance(1, 5)) flags |= RE_ANCHORED; if (c.chance(1, 6)) flags |= RE_REVERSE; g.dotall = flags & RE_SINGLE;
	P t = g.run(); if (g.txt.size() > 250) c.discard(); shape(c, t); trip(c, RE_PCRE, g.txt, flags, 0, t);
}
PBT_CASE(dialects, 4, "as pcre") {
	static const enum re_dialect A[] = {RE_NATIVE, RE_SQL, RE_GLOB, RE_LIKE, RE_LITERAL}; enum re_dialect d = A[c.draw(5)]; std::string txt; int fl = 0; P t;
	if (c.chance(1, 4)) fl |= RE_ICASE; if (c.chance(1, 6)) fl |= RE_REVERSE;
	if (d == RE_NATIVE || d == RE_SQL) { Opts o; o.d = d == RE_NATIVE ? NATIVE : SQL; o.width = 3; Gen g(c, o); t = g.run(); shape(c, t); txt = g.txt; }
	else { int n = c.range(0, 8); for (int i = 0; i < n; i++) txt += c.chance(1, 5) ? (char)c.draw(256) : "abAb*?%_cd\n"[c.draw(11)]; }
	if (txt.size() > 200) c.discard(); trip(c, d, txt, fl, d == RE_NATIVE ? 0 : RE_ANCHORED | RE_SINGLE, t);
}
PBT_CASE(automaton, 6, "the language is not empty and the automaton has more than one state") {
	GenOpts o; o.max_states = c.chance(1, 4) ? 6 : 4; o.ids = false; o.eager = false; o.must_start = false; Nfa a = gen_nfa(c, o); struct fsm_options po; options(c, &po);
	c.describe([&](std::ostream &s) { s << (po.always_hex ? "hex " : "") << model::dump(a); });
	Fsm f(build(c, a)); struct ast *t = ast_new_from_fsm(f); REQ(c, t, "new_from_fsm", "failed");
	Nfa after = extract(c, f); REQ(c, after.n() == a.n(), "operand", "the automaton was modified");
	std::string p = print_ast(t, &po, 0, AST_PRINT_PCRE, c); ast_free(t); if (p.size() > 20000) c.discard();
	c.note("printed: " + p); struct re_err err; Fsm g(rex::comp(RE_PCRE, p, RE_ANCHORED, &err));
	if (!g.f) { if (err.e == RE_EUNSUPPORTED) c.discard(); c.fail("reject", "expression " + pbt::show(p) + " reconstructed from an automaton is rejected: " + re_strerror(err.e) + "\n" + model::dump(a)); }
	rex::determinise(c, g, 4000); same(c, a, extract(c, g), "reconstructed as " + pbt::show(p) + " from\n" + model::dump(a)); if (!empty_lang(a) && a.n() > 1) c.nontrivial();
}
