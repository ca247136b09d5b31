// Programs over the public API: a list of operations on a few registers holding automata, generated once and then
// executed any number of times, each execution giving a log of everything the library let the caller see.
#pragma once
#include "rex.hpp"
extern "C" {
#include <fsm/vm.h>
#include <fsm/capture.h>
#include <fsm/cost.h>
#include <fsm/subgraph.h>
#include <re/literal.h>
#include <re/strings.h>
#include <re/groups.h>
#include <adt/path.h>
#include <fsm/parser.h>
// declared in internal headers that are not C++
struct ast; enum ast_print_lang { AST_PRINT_NONE, AST_PRINT_DOT, AST_PRINT_ABNF, AST_PRINT_PCRE, AST_PRINT_TREE };
int ast_print(FILE *, const struct ast *, const struct fsm_options *, enum re_flags, enum ast_print_lang);
struct ast *re_parse(enum re_dialect, int (*)(void *), void *, enum re_flags, struct re_err *, int *);
struct ast *ast_new_from_fsm(const struct fsm *); void ast_free(struct ast *);
}
namespace ops {
using namespace model; using namespace fsmx;
enum { BUILD, COMP, STRINGS, DET, MIN, TRIM, REVERSE, EPS, COMPLEMENT, COMPLETE, ENDID, CLONE, RMSTATE, MERGESTATES, SHUFFLE, UNION, CONCAT, INTERSECT, SUBTRACT, MERGE, EQUAL, EXEC, EXAMPLE, GENERATE, REQUIRED, PRINT, VM,
	CAPTURE, EAGER, PGROUP, LITERAL, AST, FROMFSM, REPARSE, SUBGRAPH, MAPIDS, VACUUM, INTERP, COLLATE, CHARSET, PERROR, UARRAY, SHORTEST, MOVE, REACH, BULK, NOPS };
static const char *const NAME[] = {"build", "re_comp", "re_strings", "determinise", "minimise", "trim", "reverse", "remove_epsilons", "complement", "complete", "endid", "clone", "removestate", "mergestates", "shuffle", "union", "concat", "intersect", "subtract", "merge", "equal", "exec", "example", "generate", "required", "print", "vm",
	"capture", "eager", "pattern_group", "is_literal", "ast_print", "ast_new_from_fsm", "reparse", "subgraph", "mapendids", "vacuum", "interpolate", "collate", "charset", "perror", "union_array", "shortest", "move", "reachable", "bulk"};
struct Step { int op = 0, r = 0, q = 0; unsigned x = 0, y = 0, z = 0; Nfa a; std::string s; std::vector<std::string> v; };
struct Program { std::vector<Step> st; int regs = 3; };

inline std::string gen_re(pbt::Ctx &c, bool broken) {
	static const char *atoms[] = {"a", "b", ".", "[a-c]", "(?:ab)", "(a|b)", "[^x]", "a*", "(b+)", "c?", "(?:abc|abd|xyz)", "d{2,3}", "(?i:q)", "^", "$", "[[:digit:]]", "\\w", "(|a)", "\\x41", "\\n", "[\\d_]", "(a*)*", "(?:a|b){0,2}"};
	static const char *bad[] = {"(", ")", "[", "a{3,1}", "[z-a]", "*", "\\xzz", "[[:foo:]]", "(?<", "\\", "a{99999999999}", "(?P", "]", "(?#", "\xff", "[a"};
	std::string re; int k = c.range(1, 5); while (k--) { re += atoms[c.draw(sizeof atoms / sizeof *atoms)]; if (c.chance(1, 6)) re += "|"; if (broken && c.chance(1, 4)) re += bad[c.draw(sizeof bad / sizeof *bad)]; } return re;
}
static const enum re_dialect DIAL[] = {RE_PCRE, RE_NATIVE, RE_GLOB, RE_LIKE, RE_SQL, RE_LITERAL};
static const enum fsm_print_lang LANG[] = {FSM_PRINT_FSM, FSM_PRINT_API, FSM_PRINT_JSON, FSM_PRINT_DOT, FSM_PRINT_C, FSM_PRINT_VMC, FSM_PRINT_AWK, FSM_PRINT_GO, FSM_PRINT_IR, FSM_PRINT_IRJSON, FSM_PRINT_LLVM, FSM_PRINT_RUST, FSM_PRINT_SH, FSM_PRINT_VMDOT, FSM_PRINT_VMOPS_C, FSM_PRINT_VMOPS_H, FSM_PRINT_AMD64_ATT, FSM_PRINT_AMD64_GO, FSM_PRINT_AMD64_NASM};
enum { NLANG = sizeof LANG / sizeof *LANG };

inline Program gen(pbt::Ctx &c, int maxlen) {
	Program p; int n = c.range(1, maxlen), first = c.range(1, p.regs);
	for (int i = 0; i < n; i++) {
		Step s; s.r = (int)c.draw(p.regs); s.q = (int)c.draw(p.regs); s.x = (unsigned)c.draw(1000); s.y = (unsigned)c.draw(1000); s.z = (unsigned)c.draw(1000);
		if (i < first) s.r = i; if (i < first || c.chance(1, 8)) s.op = c.chance(1, 2) ? BUILD : c.chance(1, 2) ? COMP : c.chance(1, 3) ? PGROUP : STRINGS; else s.op = c.chance(1, 12) ? PRINT : (int)c.draw(NOPS);
		switch (s.op) {
		case BUILD: case UARRAY: { GenOpts o; o.eager = c.chance(1, 4); o.ids = c.chance(1, 2); o.dfa = c.chance(1, 3); o.eps = !o.dfa; o.max_states = c.chance(1, 10) ? 60 : 8; o.big_ids = true; s.a = gen_nfa(c, o); break; }
		case COMP: case LITERAL: case AST: case PERROR: s.s = gen_re(c, s.op == PERROR || c.chance(1, 5)); break;
		case STRINGS: case PGROUP: { int k = c.range(1, 4); while (k--) { std::string w; if (s.op == PGROUP) { static const char *at[] = {"a", "b", "[a-c]", "(a|b)", "a*", "b+", "^a", "a$", "^", "$", "a?", "(?:x|yz)"}; int m = c.range(1, 3); while (m--) w += at[c.draw(12)]; } else { int m = c.range(1, 5); while (m--) w += "abc"[c.draw(3)]; } s.v.push_back(w); } break; }
		case EXEC: case VM: case CHARSET: { int k = c.range(0, 8); while (k--) s.s += c.chance(1, 4) ? (char)gen_byte(c) : "abcx\n"[c.draw(5)]; break; }
		case INTERP: { int k = c.range(0, 6); while (k--) { static const char *t[] = {"a", "\\1", "\\2", "\\\\", "\\x", "\\0", "zz"}; s.s += t[c.draw(7)]; } break; }
		}
		p.st.push_back(s);
	}
	return p;
}
inline void show(std::ostream &o, const Program &p) { for (auto &s : p.st) { o << NAME[s.op] << " r" << s.r << " r" << s.q << " " << s.x << " " << s.y << " " << s.z; if (!s.s.empty()) o << " " << pbt::show(s.s); for (auto &w : s.v) o << " /" << w << "/"; o << "\n"; if (s.a.n()) o << dump(s.a); } }

struct Src { const char *p, *e; }; inline int src_getc(void *o) { Src *s = (Src *)o; return s->p == s->e ? EOF : (unsigned char)*s->p++; }
struct Run {
	const struct fsm_alloc *al; std::string log; std::vector<struct fsm *> r; std::vector<int> done = std::vector<int>(NOPS);
	unsigned lf = 0, lt = 0, lc = 0, ln = 0; void flush() { if (ln) { log += " " + std::to_string(lf) + "-" + std::to_string(lc); if (ln > 1) log += ".." + std::to_string(lc + ln - 1); log += ">" + std::to_string(lt); } ln = 0; }
	static int lit(const struct fsm *, fsm_state_t from, fsm_state_t to, char ch, void *o) { Run *r = (Run *)o; unsigned b = (unsigned char)ch; if (r->ln && r->lf == from && r->lt == to && b == r->lc + r->ln) r->ln++; else { r->flush(); r->lf = from; r->lt = to; r->lc = b; r->ln = 1; } return 1; }
	static int eps(const struct fsm *, fsm_state_t from, fsm_state_t to, void *o) { Run *r = (Run *)o; r->flush(); r->log += " " + std::to_string(from) + "->" + std::to_string(to); return 1; }
	void state(struct fsm *f) { // everything visible about an automaton, in the order the library gives it
		unsigned n = fsm_countstates(f); fsm_state_t s; log += " n" + std::to_string(n); if (fsm_getstart(f, &s)) log += " s" + std::to_string(s); fsm_walk_edges(f, this, lit, eps); flush();
		for (unsigned i = 0; i < n; i++) { if (fsm_isend(f, i)) { log += " e" + std::to_string(i); size_t k = fsm_endid_count(f, i); std::vector<fsm_end_id_t> v(k + 1); if (k && fsm_endid_get(f, i, k, v.data()) == 1) for (size_t j = 0; j < k; j++) log += "#" + std::to_string(v[j]); }
			size_t k = fsm_eager_output_count(f, i); if (k) { std::vector<fsm_output_id_t> v(k + 1); if (fsm_eager_output_get(f, i, k, v.data()) == 1) for (size_t j = 0; j < k; j++) log += "!" + std::to_string(i) + ":" + std::to_string(v[j]); } }
		log += " c" + std::to_string(fsm_countcaptures(f));
	}
	int det(struct fsm *f) { struct fsm_determinise_config cfg; memset(&cfg, 0, sizeof cfg); cfg.state_limit = 400; auto k = fsm_determinise_with_config(f, &cfg); log += k == FSM_DETERMINISE_WITH_CONFIG_OK ? " det" : k == FSM_DETERMINISE_WITH_CONFIG_STATE_LIMIT_REACHED ? " limit" : " error"; return k == FSM_DETERMINISE_WITH_CONFIG_OK; }
	struct fsm *dfa(struct fsm *f) { fsm_state_t s; if (!f || !fsm_getstart(f, &s)) return NULL; struct fsm *g = fsm_clone(f); if (g && !det(g)) { fsm_free(g); g = NULL; } return g; }
	void put(int i, struct fsm *f) { if (r[i] && r[i] != f) fsm_free(r[i]); r[i] = f; }
	void err(const struct re_err &e) { log += " err " + std::to_string(e.e) + " " + re_strerror(e.e) + " " + std::to_string(e.start.byte) + "-" + std::to_string(e.end.byte); }
	struct fsm *make(const Nfa &a) {
		struct fsm *f = fsm_new(al); for (int i = 0; i < a.n(); i++) { fsm_state_t s; fsm_addstate(f, &s); }
		for (int i = 0; i < a.n(); i++) {
			for (auto &e : a.st[i].edges) { if (e.first.all()) fsm_addedge_any(f, i, e.second); else for (int b = 0; b < 256; b++) if (e.first[b]) fsm_addedge_literal(f, i, e.second, (char)b); }
			for (int t : a.st[i].eps) fsm_addedge_epsilon(f, i, t); if (a.st[i].end) fsm_setend(f, i, 1);
			for (auto id : a.st[i].ids) fsm_endid_set(f, i, id); for (auto id : a.st[i].eager) fsm_eager_output_set(f, i, id); }
		if (a.start >= 0) fsm_setstart(f, a.start); return f;
	}
	void text(const struct fsm *f, unsigned l, unsigned o) {
		struct fsm_options fo; memset(&fo, 0, sizeof fo); fo.io = o % 3 == 0 ? FSM_IO_PAIR : o % 3 == 1 ? FSM_IO_STR : FSM_IO_GETC; enum fsm_print_lang lang = LANG[l % NLANG]; fo.comments = o >> 2 & 1; fo.consolidate_edges = o >> 3 & 1; fo.group_edges = o >> 4 & 1; fo.anonymous_states = o >> 5 & 1; fo.case_ranges = o >> 6 & 1; fo.fragment = o >> 7 & 1; fo.always_hex = o >> 8 & 1;
		fo.ambig = o % 5 < 3 ? AMBIG_MULTIPLE : o % 5 == 3 ? AMBIG_NONE : AMBIG_EARLIEST; if (lang == FSM_PRINT_SH || lang == FSM_PRINT_AWK || lang == FSM_PRINT_RUST || lang == FSM_PRINT_LLVM) fo.io = FSM_IO_STR; else if (lang >= FSM_PRINT_AMD64_ATT && lang <= FSM_PRINT_AMD64_NASM) fo.io = FSM_IO_PAIR; else if (fo.io == FSM_IO_GETC && lang != FSM_PRINT_C && lang != FSM_PRINT_VMC) fo.io = FSM_IO_STR;
		if (lang == FSM_PRINT_AMD64_GO || lang == FSM_PRINT_GO) fo.io = FSM_IO_STR; if (lang == FSM_PRINT_SH || lang == FSM_PRINT_AWK) fo.ambig = fo.ambig == AMBIG_MULTIPLE ? AMBIG_NONE : fo.ambig;
		unsigned n0 = fsm_countstates(f); if (n0 > 300) { log += " large"; return; } if (n0 > 50) fo.comments = 0; // example comments take a search per state
		if (fo.ambig == AMBIG_EARLIEST) for (unsigned i = 0; i < fsm_countstates(f); i++) if (fsm_isend(f, i) && !fsm_endid_count(f, i)) fo.ambig = AMBIG_NONE; // needs an id on every end
		char *b = NULL; size_t n = 0; FILE *mf = open_memstream(&b, &n); struct fsm_hooks h; memset(&h, 0, sizeof h); int left = (int)(o / 3 % 5); h.hook_opaque = &left; struct H { static int c(FILE *, const struct fsm_options *, const struct fsm_state_metadata *, const char *, void *op) { return (*(int *)op)-- > 0 ? 0 : -1; } static int a(FILE *w, const struct fsm_options *, const struct fsm_state_metadata *, void *, void *op) { fprintf(w, "accept"); return (*(int *)op)-- > 0 ? 0 : -1; } };
		bool ids = o % 7 == 0; for (unsigned i = 0; i < n0 && ids; i++) ids = !fsm_isend(f, i) || fsm_endid_count(f, i); if (ids) { fo.ambig = AMBIG_ERROR; h.conflict = H::c; } if (o % 6 == 1) h.accept = H::a;
		int k = fsm_print(mf, f, &fo, &h, lang); fclose(mf); log += " " + std::to_string(k) + " " + std::string(b, n); ::free(b);
	}
	void step(const Step &s) {
		struct fsm *&f = r[s.r]; struct fsm *&g = r[s.q]; unsigned n = f ? fsm_countstates(f) : 0; fsm_state_t st = 0; bool start = f && fsm_getstart(f, &st), two = f && g && f != g;
		log += std::string("\n") + NAME[s.op]; bool ran = true;
		switch (s.op) {
		case BUILD: put(s.r, make(s.a)); break;
		case COMP: { Src src{s.s.data(), s.s.data() + s.s.size()}; struct re_err e; memset(&e, 0, sizeof e); int fl = 0; if (s.y % 5 == 0) fl |= RE_ANCHORED; if (s.y % 7 == 0) fl |= RE_ICASE; if (s.y % 11 == 0) fl |= RE_REVERSE; if (s.y % 13 == 0) fl |= RE_SINGLE; if (s.y % 4 == 0) fl |= RE_SAVE_LINKAGE_INFO;
			struct fsm *q = re_comp(DIAL[s.x % 3 ? 0 : s.x % 6], src_getc, &src, al, (enum re_flags)fl, &e); if (!q) err(e); else put(s.r, q); break; }
		case STRINGS: { struct re_strings *rs = re_strings_new(); for (size_t i = 0; i < s.v.size(); i++) { fsm_end_id_t id = (fsm_end_id_t)i; re_strings_add_raw(rs, s.v[i].data(), s.v[i].size(), s.y & 1 ? &id : NULL); } put(s.r, re_strings_build(rs, al, (enum re_strings_flags)(s.x % 4))); re_strings_free(rs); break; }
		case DET: if ((ran = start)) det(f); break;
		case MIN: if ((ran = start) && det(f)) log += std::to_string(fsm_minimise(f)); break;
		case TRIM: if ((ran = start)) { log += std::to_string(fsm_trim(f, s.x & 1 ? FSM_TRIM_START_AND_END_REACHABLE : FSM_TRIM_START_REACHABLE, NULL)); } break;
		case REVERSE: if ((ran = f && n)) log += std::to_string(fsm_reverse(f)); break;
		case EPS: if ((ran = f)) log += std::to_string(fsm_remove_epsilons(f)); break;
		case COMPLEMENT: if ((ran = start) && det(f)) log += std::to_string(fsm_complement(f)); break;
		case COMPLETE: if ((ran = start)) log += std::to_string(fsm_complete(f, s.x & 1 ? fsm_isany : fsm_isend)); break;
		case ENDID: if ((ran = f && n)) { if (s.x & 1) log += std::to_string(fsm_setendid(f, s.y)); else if (fsm_isend(f, s.y % n)) log += std::to_string(fsm_endid_set(f, s.y % n, s.z)); } break;
		case CLONE: if ((ran = f && s.r != s.q)) put(s.q, fsm_clone(f)); break;
		case RMSTATE: if ((ran = n > 1 && !fsm_countcaptures(f))) log += std::to_string(fsm_removestate(f, s.x % n)); break;
		case MERGESTATES: if ((ran = n > 1 && !fsm_countcaptures(f) && s.x % n != s.y % n)) { fsm_state_t q = 0; log += std::to_string(fsm_mergestates(f, s.x % n, s.y % n, &q)) + "," + std::to_string(q); } break;
		case SHUFFLE: if ((ran = n)) log += std::to_string(fsm_shuffle(f, s.x)); break;
		case UNION: case CONCAT: case MERGE: if ((ran = two && start && (s.op != CONCAT || fsm_has(f, fsm_isend)) && fsm_getstart(g, &st))) { struct fsm_combine_info ci; memset(&ci, 0, sizeof ci); struct fsm *q = s.op == UNION ? fsm_union(f, g, &ci) : s.op == CONCAT ? fsm_concat(f, g, &ci) : fsm_merge(f, g, &ci); f = g = NULL; r[s.r] = q; if (q) log += " bases " + std::to_string(ci.base_a) + "," + std::to_string(ci.base_b) + "," + std::to_string(ci.capture_base_a) + "," + std::to_string(ci.capture_base_b); } break;
		case INTERSECT: case SUBTRACT: if ((ran = two && start && fsm_getstart(g, &st) && fsm_countstates(f) * fsm_countstates(g) < 4000)) { struct fsm *x = dfa(f), *y = dfa(g); if (x && y) { struct fsm *q = s.op == INTERSECT ? fsm_intersect(x, y) : fsm_subtract(x, y); put(s.r, q); } else { if (x) fsm_free(x); if (y) fsm_free(y); } } break;
		case EQUAL: if ((ran = f && g && start && fsm_getstart(g, &st))) { struct fsm *x = dfa(f), *y = dfa(g); if (x && y) log += std::to_string(fsm_equal(x, y)); if (x) fsm_free(x); if (y) fsm_free(y); } break;
		case EXEC: if ((ran = start)) { struct fsm *x = dfa(f); if (x) { struct E { static void cb(fsm_output_id_t id, void *o) { *(std::string *)o += " out" + std::to_string(id); } }; fsm_eager_output_set_cb(x, E::cb, &log); Src src{s.s.data(), s.s.data() + s.s.size()}; fsm_state_t e = 0; std::vector<struct fsm_capture> cap(fsm_countcaptures(x) + 1); int k = fsm_exec(x, src_getc, &src, &e, cap.size() > 1 ? cap.data() : NULL); log += " " + std::to_string(k) + (k == 1 ? "@" + std::to_string(e) : ""); if (k == 1) for (size_t i = 0; i + 1 < cap.size(); i++) log += " " + std::to_string(cap[i].pos[0]) + ".." + std::to_string(cap[i].pos[1]); fsm_free(x); } } break;
		case EXAMPLE: if ((ran = start && !fsm_has(f, fsm_hasepsilons))) { char b[64] = ""; int k = fsm_example(f, s.x % n, b, 1 + s.y % 60); log += std::to_string(k); if (k >= 0) log += std::string(" ") + b; } break;
		case GENERATE: if ((ran = start)) { struct fsm *x = dfa(f); if (x) { struct E { static enum fsm_generate_matches_cb_res cb(const struct fsm *, size_t, size_t k, size_t, const char *in, size_t len, fsm_state_t e, void *op) { *(std::string *)op += " " + pbt::show(std::string(in, len)) + "@" + std::to_string(e); return k > 40 ? FSM_GENERATE_MATCHES_CB_RES_HALT : FSM_GENERATE_MATCHES_CB_RES_CONTINUE; } };
			if (fsm_trim(x, FSM_TRIM_START_AND_END_REACHABLE, NULL) >= 0 && fsm_countstates(x) > 0 && fsm_getstart(x, &st)) log += std::to_string(fsm_generate_matches(x, 1 + s.x % 3, 0, E::cb, &log)); fsm_free(x); } } break;
		case REQUIRED: if ((ran = start)) { struct fsm *x = dfa(f); if (x) { uint64_t m[4] = {0}; size_t k = 0; int z = fsm_detect_required_characters(x, 2000, m, &k); log += std::to_string(z); if (z == 0) { log += ":" + std::to_string(k); for (auto v : m) log += "," + std::to_string(v); } fsm_free(x); } } break;
		case PRINT: if ((ran = start)) { unsigned l = s.x % NLANG; if (l < 4 && s.y & 1) { text(f, l, s.z); break; } struct fsm *x = dfa(f); if (x) { text(x, l, s.z); fsm_free(x); } } break;
		case VM: if ((ran = start)) { struct fsm *x = dfa(f); if (x) { struct fsm_vm_compile_opts o; memset(&o, 0, sizeof o); o.flags = s.x & 1 ? FSM_VM_COMPILE_OPTIM : 0; o.output = s.x & 2 ? FSM_VM_COMPILE_VM_V2 : FSM_VM_COMPILE_VM_V1; struct fsm_options fo; memset(&fo, 0, sizeof fo); struct fsm_dfavm *m = fsm_vm_compile_with_options(x, &fo, o); if (m) { log += std::to_string(fsm_vm_match_buffer(m, s.s.data(), s.s.size())); FILE *mf = s.s.empty() ? NULL : fmemopen((void *)s.s.data(), s.s.size(), "r"); if (mf) { log += std::to_string(fsm_vm_match_file(m, mf)); fclose(mf); } fsm_vm_free(m); } else log += "null"; fsm_free(x); } } break;
		case CAPTURE: if ((ran = n && n < 9)) log += std::to_string(fsm_capture_set_path(f, s.z % 3, s.x % n, s.y % n)); break;
		case EAGER: if ((ran = n)) log += std::to_string(s.x & 1 ? fsm_eager_output_set_on_ends(f, s.z) : fsm_eager_output_set(f, s.y % n, s.z)); break;
		case PGROUP: { std::vector<struct fsm *> fs; for (auto &w : s.v) { Src src{w.data(), w.data() + w.size()}; struct re_err e; struct fsm *q = re_comp(RE_PCRE, src_getc, &src, al, (enum re_flags)(s.z % 6 == 5 && &w == &s.v[s.x % s.v.size()] ? 0 : RE_SAVE_LINKAGE_INFO), &e); if (q) fs.push_back(q); } // now and then one which the group must refuse
			if ((ran = !fs.empty())) { std::vector<struct fsm_combined_base_pair> b(fs.size()); struct fsm *q = fsm_union_repeated_pattern_group(fs.size(), fs.data(), s.x & 1 ? b.data() : NULL, s.y % 9); put(s.r, q); log += q ? "ok" : "null"; if (!q) for (auto *x : fs) if (x) fsm_free(x); } break; }
		case LITERAL: { Src src{s.s.data(), s.s.data() + s.s.size()}; struct re_err e; memset(&e, 0, sizeof e); enum re_dialect d = DIAL[s.x % 6]; if (s.y & 1) { enum re_literal_category cat = (enum re_literal_category)0; char *p = NULL; size_t k = 0; int z = re_is_literal(d, src_getc, &src, (enum re_flags)0, &e, &cat, &p, &k); log += std::to_string(z); if (z == 1) log += " " + std::to_string(cat); if (z == 1 && p) log += " " + std::string(p, k); if (z < 0) err(e); ::free(p); }
			else { int z = re_is_anchored(d, src_getc, &src, (enum re_flags)0, &e); log += std::to_string(z); if (z == RE_IS_ANCHORED_ERROR) err(e); } break; }
		case AST: { struct re_err e; memset(&e, 0, sizeof e); Src src{s.s.data(), s.s.data() + s.s.size()}; struct ast *a = re_parse(DIAL[s.x % 6], src_getc, &src, (enum re_flags)0, &e, NULL); if (!a) { err(e); break; } render(a, 1 + s.y % 4); ast_free(a); break; }
		case FROMFSM: if ((ran = start && n <= 12)) { struct fsm *x = dfa(f); if (x) { if (fsm_countstates(x) <= 6) { struct ast *a = ast_new_from_fsm(x); if (a) { render(a, 1 + s.y % 4); ast_free(a); } } fsm_free(x); } } break;
		case REPARSE: if ((ran = start)) { char *b = NULL; size_t k = 0; FILE *mf = open_memstream(&b, &k); fsm_print(mf, f, NULL, NULL, FSM_PRINT_FSM); fclose(mf); mf = k ? fmemopen(b, k, "r") : NULL; struct fsm *q = mf ? fsm_parse(mf, al) : NULL; if (mf) fclose(mf); ::free(b); if (q) put(s.r, q); log += q ? "ok" : "null"; } break;
		case SUBGRAPH: if ((ran = n)) { struct fsm_subgraph sg; fsm_subgraph_start(f, &sg); fsm_state_t q = s.x % n, z; fsm_state_t a; fsm_addstate(f, &a); fsm_addedge_literal(f, a, a, 'q'); fsm_setend(f, a, s.y & 1); fsm_subgraph_stop(f, &sg); q = a; log += std::to_string(fsm_subgraph_duplicate(f, &sg, &q, &z)); } break;
		case MAPIDS: if ((ran = f)) { struct E { static int cb(fsm_state_t, size_t k, fsm_end_id_t *ids, size_t *w, void *op) { for (size_t i = 0; i < k; i++) ids[i] += *(unsigned *)op; *w = k; return 1; } }; unsigned d = s.x; if (s.y & 1) log += std::to_string(fsm_mapendids(f, E::cb, &d)); else fsm_increndids(f, (int)(s.x % 5)); } break;
		case VACUUM: if ((ran = f)) log += std::to_string(fsm_vacuum(f)); break;
		case INTERP: { const char *gs[] = {"one", "two", "three"}; char out[40]; memset(out, 'U', sizeof out); struct re_pos a, b; a.byte = b.byte = 0; bool k = re_interpolate_groups(s.s.c_str(), '\\', "all", s.x % 4, gs, s.y & 1 ? "none" : NULL, out, 1 + s.z % 39, &a, &b); log += std::to_string(k); if (k) log += out; break; }
		case COLLATE: if ((ran = n)) { fsm_state_t q = 0; log += std::to_string(fsm_collate(f, &q, fsm_isend)) + "," + std::to_string(q); } break;
		case CHARSET: if ((ran = start && !s.s.empty())) { struct fsm *x = dfa(f); if (x) { struct fsm *q = fsm_intersect_charset(x, s.s.size(), s.s.data()); if (q) put(s.r, q); else fsm_free(x); } } break;
		case PERROR: { Src src{s.s.data(), s.s.data() + s.s.size()}; struct re_err e; memset(&e, 0, sizeof e); struct fsm *q = re_comp(DIAL[s.x % 6], src_getc, &src, al, (enum re_flags)0, &e); if (q) fsm_free(q); else { err(e); } break; }
		case UARRAY: { std::vector<struct fsm *> fs; fs.push_back(make(s.a)); for (auto &p : r) if (p && fsm_getstart(p, &st)) { fs.push_back(p); p = NULL; } std::vector<struct fsm_combined_base_pair> b(fs.size()); struct fsm *q = fsm_union_array(fs.size(), fs.data(), s.x & 1 ? b.data() : NULL); put(s.r, q); if (q && s.x & 1) for (auto &z : b) log += " " + std::to_string(z.state) + "/" + std::to_string(z.capture); break; }
		case SHORTEST: if ((ran = start && !fsm_has(f, fsm_hasepsilons))) { struct path *p = fsm_shortest(f, st, s.x % n, s.y & 1 ? fsm_cost_legible : fsm_cost_bytes_); freepath(p); } break;
		case MOVE: if ((ran = two)) { fsm_move(f, g); g = NULL; } break;
		case REACH: if ((ran = n)) log += std::to_string(fsm_reachableall(f, s.x % n, fsm_isend)) + std::to_string(fsm_reachableany(f, s.x % n, fsm_isend)) + std::to_string(fsm_empty(f)) + std::to_string(fsm_has(f, fsm_isend)) + std::to_string(fsm_all(f, fsm_isdfa)); break;
		case BULK: if ((ran = f && n < 300)) log += std::to_string(fsm_addstate_bulk(f, 1 + s.x % 40)); break;
		}
		if (!ran) { log += " -"; return; } done[s.op]++;
		if (r[s.r]) state(r[s.r]);
	}
	static unsigned fsm_cost_bytes_(fsm_state_t, fsm_state_t, char) { return 1; }
	void freepath(struct path *p) { if (!p) { log += "null"; return; } for (struct path *q = p; q; q = q->next) log += " " + std::to_string(q->state) + "," + std::to_string((unsigned char)q->c); path_free(al, p); }
	void render(const struct ast *a, int lang) { struct fsm_options fo; memset(&fo, 0, sizeof fo); char *b = NULL; size_t k = 0; FILE *mf = open_memstream(&b, &k); int z = ast_print(mf, a, &fo, (enum re_flags)0, (enum ast_print_lang)lang); fclose(mf); log += std::to_string(z) + " " + names(std::string(b, k)); ::free(b); }
	// the DOT rendering of an expression names its nodes by address: number them in order of appearance
	static std::string names(const std::string &t) { std::string o; std::map<std::string, int> m; for (size_t i = 0; i < t.size();) { if (t.compare(i, 2, "0x")) { o += t[i++]; continue; } size_t j = i + 2; while (j < t.size() && isxdigit((unsigned char)t[j])) j++; std::string k = t.substr(i, j - i); auto it = m.emplace(k, (int)m.size()).first; o += j - i > 8 ? "@" + std::to_string(it->second) : k; i = j; } return o; }
	explicit Run(const Program &p, const struct fsm_alloc *a = NULL) : al(a), r(p.regs) {}
	void all(const Program &p) { for (auto &s : p.st) step(s); }
	void finish() { for (auto &f : r) if (f) { fsm_free(f); f = NULL; } }
	~Run() { finish(); }
};
// the first line that differs
inline std::string first_diff(const std::string &a, const std::string &b) { std::istringstream x(a), y(b); std::string p, q; int i = 0; for (;;) { bool m = (bool)std::getline(x, p), n = (bool)std::getline(y, q); i++; if (!m && !n) return "none"; if (m != n || p != q) { size_t k = 0; while (k < p.size() && k < q.size() && p[k] == q[k]) k++; size_t z = k > 60 ? k - 60 : 0; return "line " + std::to_string(i) + ":\n  ..." + p.substr(z, 200) + "\n  ..." + q.substr(z, 200); } } }
}
