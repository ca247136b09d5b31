// BUILD: variant=san libs=-lpcre2-8,-Xlinker,--wrap=malloc,-Xlinker,--wrap=calloc,-Xlinker,--wrap=realloc
// Property: when one allocation fails, an operation reports an error (or still gives the right result), nothing crashes, and what is left can be freed.
#include "rex.hpp"
extern "C" {
#include <fsm/vm.h>

#include <fsm/cost.h>
#include <fsm/subgraph.h>
#include <re/literal.h>
#include <re/strings.h>
}
using namespace model; using namespace fsmx; using namespace rex;

// --- the failing allocator: the n-th request since arm() gets NULL
static long g_count, g_failat; static bool g_armed, g_fired;
static bool hit() { if (!g_armed) return false; if (++g_count == g_failat) { g_fired = true; errno = ENOMEM; return true; } return false; }
extern "C" {
void *__real_malloc(size_t); void *__real_calloc(size_t, size_t); void *__real_realloc(void *, size_t);
void *__wrap_malloc(size_t n) { return hit() ? NULL : __real_malloc(n); }
void *__wrap_calloc(size_t n, size_t m) { return hit() ? NULL : __real_calloc(n, m); }
void *__wrap_realloc(void *p, size_t n) { return hit() ? NULL : __real_realloc(p, n); }
}
// a user-supplied allocator whose pointers free(3) would reject
static void al_free(void *, void *p) { if (p) free((char *)p - 16); }
static void *al_malloc(void *, size_t n) { char *p = (char *)__wrap_malloc(n + 16); return p ? p + 16 : NULL; }
static void *al_calloc(void *, size_t n, size_t m) { char *p = (char *)__wrap_calloc(1, n * m + 16); return p ? p + 16 : NULL; }
static void *al_realloc(void *, void *o, size_t n) { if (!o) return al_malloc(NULL, n); char *p = (char *)__wrap_realloc((char *)o - 16, n + 16); return p ? p + 16 : NULL; }
static const struct fsm_alloc own_alloc = {al_free, al_calloc, al_malloc, al_realloc, NULL};

struct Arm { Arm() { g_armed = true; } ~Arm() { g_armed = false; } };
#define ARMED(expr) ([&] { Arm arm_; return (expr); }())

// outcome of one run: failed, or what came out
struct Out { bool ok = false; bool has = false; Nfa a; std::string s; };
typedef std::function<Out()> Op;
static int cmp_mode = CMP_IDS | CMP_EAGER;

static void drive(pbt::Ctx &c, const std::string &name, Op op, const std::string &what) {
	g_armed = false; g_count = 0; g_failat = 0; g_fired = false;
	Out clean = op(); long n = g_count;
	if (!clean.ok) c.discard(); // refused without any fault
	if (n == 0) return;
	std::vector<long> ks; long cap = c.tier ? 120 : 30;
	if (n <= cap) for (long k = 1; k <= n; k++) ks.push_back(k);
	else { std::set<long> s; for (long k = 1; k <= cap / 3; k++) s.insert(1 + (long)c.draw(n)); for (long k = 1; k <= cap / 3; k++) s.insert(k * n / (cap / 3)); for (long k = 0; k < cap / 3; k++) s.insert(n - k); ks.assign(s.begin(), s.end()); }
	bool seen_fail = false;
	for (long k : ks) {
		g_count = 0; g_failat = k; g_fired = false;
		fprintf(stderr, "op %s: allocation %ld of %ld fails\n", name.c_str(), k, n);
		Out r = op(); g_failat = 0;
		std::string at = name + ", allocation " + std::to_string(k) + " of " + std::to_string(n) + "\n" + what;
		if (!g_fired) { if (!r.ok) c.fail("error:" + name, "failed although no allocation did: " + at); continue; }
		if (!r.ok) { seen_fail = true; continue; }
		c.count("tolerated:" + name);
		if (clean.has) { std::string w; bool same; try { same = equivalent(clean.a, r.a, cmp_mode, &w); } catch (TooBig &) { continue; } if (!same || !r.has) c.fail("masked:" + name, "success is reported but the result is wrong: " + at + "\nwithout the failure:\n" + dump(clean.a) + "with it:\n" + dump(r.a)); }
		if (clean.s != r.s) c.fail("masked:" + name, "success is reported but the answer is wrong: " + at + "\nwithout the failure: " + clean.s + "\nwith it: " + r.s);
	}
	c.count("op:" + name); if (seen_fail) c.nontrivial();
}
static Out took(pbt::Ctx &c, struct fsm *f, bool ok, const std::string &s = "") { Out o; o.ok = ok; o.s = s; if (ok && f) { o.has = true; o.a = extract(c, f); } return o; }
// operations which only read an automaton leave it as it was, failure or not
static void intact(pbt::Ctx &c, struct fsm *f, const Nfa &a, const std::string &nm) { if (!g_fired) return; Nfa now = extract(c, f); std::string w; bool same; try { same = equivalent(a, now, CMP_IDS | CMP_EAGER, &w); } catch (TooBig &) { return; } if (!same || now.n() != a.n()) c.fail("changed:" + nm, nm + " changed the automaton it was given\n" + dump(a) + "now:\n" + dump(now)); // ... and fit for use: nothing is left behind that a later operation trips over
	REQ(c, fsm_trim(f, FSM_TRIM_START_AND_END_REACHABLE, NULL) >= 0, "unfit:" + nm, "fsm_trim failed after " + nm + " did\n" + dump(a)); now = extract(c, f); try { same = equivalent(a, now, CMP_IDS, &w); } catch (TooBig &) { return; } if (!same) c.fail("unfit:" + nm, "after " + nm + " failed, trimming changes the automaton's language\n" + dump(a) + "now:\n" + dump(now));
}
static const struct fsm_alloc *pick_alloc(pbt::Ctx &c) { return c.chance(1, 4) ? &own_alloc : NULL; }
// builds that do not draw (the generator's build() does)
static struct fsm *make(const Nfa &a, const struct fsm_alloc *al, bool *ok) {
	*ok = false; struct fsm *f = fsm_new(al); if (!f) return NULL; bool good = true;
	for (int i = 0; good && i < a.n(); i++) { fsm_state_t s; good = fsm_addstate(f, &s); }
	for (int i = 0; good && i < a.n(); i++) {
		for (auto &e : a.st[i].edges) {
			if (e.first.all()) good = good && fsm_addedge_any(f, i, e.second);
			else for (int b = 0; b < 256; b++) if (e.first[b]) good = good && fsm_addedge_literal(f, i, e.second, (char)b);
		}
		for (int t : a.st[i].eps) good = good && fsm_addedge_epsilon(f, i, t);
		if (good && a.st[i].end) fsm_setend(f, i, 1);
		for (auto id : a.st[i].ids) good = good && fsm_endid_set(f, i, id);
		for (auto id : a.st[i].eager) good = good && fsm_eager_output_set(f, i, id);
	}
	if (good && a.start >= 0) fsm_setstart(f, a.start);
	*ok = good; return f;
}
static struct fsm *ready(pbt::Ctx &c, const Nfa &a, const struct fsm_alloc *al) { bool ok; struct fsm *f = make(a, al, &ok); REQ(c, ok, "make", "could not build the automaton"); return f; }
static Nfa some(pbt::Ctx &c, bool dfa = false) { GenOpts o; o.eager = c.chance(1, 4); o.ids = c.chance(1, 2); o.dfa = dfa; o.eps = !dfa; o.max_states = c.chance(1, 6) ? 24 : 7; o.big_ids = true; return gen_nfa(c, o); }

PBT_CASE(building, 4, "at least one allocation failure was reported as an error") {
	const struct fsm_alloc *al = pick_alloc(c); Nfa a;
	switch (c.draw(3)) {
	case 0: a = some(c); break;
	case 1: { GenOpts o; o.max_states = 160; a = gen_nfa(c, o); break; } // more states than an automaton starts with room for
	default: { a = some(c); int from = (int)c.draw(a.n()); int k = c.range(1, 60); while (k--) { if (c.chance(1, 3)) a.st[from].eps.insert((int)c.draw(a.n())); else a.st[from].add(gen_bits(c), (int)c.draw(a.n())); } k = (int)c.draw(40); while (k--) { int s = (int)c.draw(a.n()); if (a.st[s].end) a.st[s].ids.insert((id_t)c.draw(200)); if (c.chance(1, 2)) a.st[s].eager.insert((id_t)c.draw(200)); } }
	}
	c.describe([&](std::ostream &s) { s << dump(a); });
	drive(c, "building", [&] { bool ok; Fsm f(ARMED(make(a, al, &ok))); return took(c, f, f.f && ok); }, dump(a));
}
struct Src2 { const char *p, *e; }; static int src2_getc(void *o) { Src2 *s = (Src2 *)o; return s->p == s->e ? EOF : (unsigned char)*s->p++; }
PBT_CASE(unary, 16, "at least one allocation failure was reported as an error") {
	const struct fsm_alloc *al = pick_alloc(c); int op = (int)c.draw(24); bool dfa = op == 1; Nfa a = some(c, dfa);
	if (op == 14) dfa = true; if (op == 22) { a = some(c, true); } std::string word = gen_word(c, a, 8);
	int x = (int)c.draw(a.n()), y = (int)c.draw(a.n()); unsigned id = (unsigned)c.draw(300), seed = (unsigned)c.draw(1000), bulk = 1 + (unsigned)c.draw(300);
	c.describe([&](std::ostream &s) { s << "op " << op << "\n" << dump(a); });
	static const char *names[] = {"determinise", "minimise", "trim", "trim-start", "trim-distances", "reverse", "remove_epsilons", "complement", "complete", "setendid", "clone", "removestate", "mergestates", "shuffle", "minimise-dfa", "addstate_bulk", "eager_on_ends", "collate", "subgraph_duplicate", "mapendids", "increndids", "vacuum", "exec", "capture_path"};
	std::string nm = names[op];
	drive(c, nm, [&]() -> Out {
		Fsm f(ready(c, a, al)); unsigned *dist = NULL; bool ok;
		// determinising and removing epsilons work on the side: when they fail, the automaton is as it was, and they can be tried again
		auto again = [&](bool done, std::function<bool()> op) { if (!done && g_fired) { Nfa now = extract(c, f); std::string w; bool same; try { same = equivalent(a, now, CMP_IDS, &w); } catch (TooBig &) { return took(c, f, done); } if (!same) c.fail("changed:" + nm, nm + " failed, and changed the language\n" + dump(a) + "now:\n" + dump(now)); REQ(c, op(), "again:" + nm, nm + " fails again without any fault\n" + dump(a)); now = extract(c, f); if (!equivalent(a, now, CMP_IDS, &w)) c.fail("again:" + nm, nm + " failed, and when repeated it changes the language\n" + dump(a) + "now:\n" + dump(now)); } return took(c, f, done); };
		switch (op) {
		case 0: ok = ARMED(fsm_determinise(f)); return again(ok, [&] { return fsm_determinise(f); });
		case 1: case 14: { if (!fsm_determinise(f)) return Out(); return took(c, f, ARMED(fsm_minimise(f))); }
		case 2: return took(c, f, ARMED(fsm_trim(f, FSM_TRIM_START_AND_END_REACHABLE, NULL)) >= 0);
		case 3: return took(c, f, ARMED(fsm_trim(f, FSM_TRIM_START_REACHABLE, NULL)) >= 0);
		case 4: { long r = ARMED(fsm_trim(f, FSM_TRIM_START_AND_END_REACHABLE, &dist)); if (r >= 0 && !al) free(dist); else if (r >= 0 && dist) al_free(NULL, dist); return took(c, f, r >= 0); }
		case 5: return took(c, f, ARMED(fsm_reverse(f)));
		case 6: ok = ARMED(fsm_remove_epsilons(f)); return again(ok, [&] { return fsm_remove_epsilons(f); });
		case 7: return took(c, f, ARMED(fsm_complement(f)));
		case 8: return took(c, f, ARMED(fsm_complete(f, fsm_isany)));
		case 9: return took(c, f, ARMED(fsm_setendid(f, id)));
		case 10: { Fsm g(ARMED(fsm_clone(f))); Nfa now = extract(c, f); std::string w; if (!equivalent(a, now, CMP_IDS | CMP_EAGER, &w)) c.fail("clone:source", "cloning changed the source\n" + dump(a)); return took(c, g, g.f != NULL); }
		case 11: return took(c, f, ARMED(fsm_removestate(f, x)));
		case 12: { if (x == y) return Out(); fsm_state_t q; return took(c, f, ARMED(fsm_mergestates(f, x, y, &q))); }
		case 13: return took(c, f, ARMED(fsm_shuffle(f, seed)));
		case 15: return took(c, f, ARMED(fsm_addstate_bulk(f, bulk)));
		case 16: return took(c, f, ARMED(fsm_eager_output_set_on_ends(f, id)));
		case 17: { fsm_state_t q; return took(c, f, ARMED(fsm_collate(f, &q, fsm_isend))); }
		case 18: { struct fsm_subgraph sg; fsm_state_t q = x, z; int r; { Arm arm; sg.start = 0; sg.end = fsm_countstates(f); r = fsm_subgraph_duplicate(f, &sg, &q, &z); } if (r) fsm_setstart(f, q); return took(c, f, r); }
		case 19: { struct E { static int cb(fsm_state_t, size_t n, fsm_end_id_t *ids, size_t *w, void *op) { for (size_t i = 0; i < n; i++) ids[i] += *(unsigned *)op; *w = n; return 1; } }; return took(c, f, ARMED(fsm_mapendids(f, E::cb, &id))); }
		case 20: { ARMED((fsm_increndids(f, (int)id), 1)); return took(c, f, true); }
		case 21: { return took(c, f, ARMED(fsm_vacuum(f))); }
		case 22: { Src2 src{word.data(), word.data() + word.size()}; fsm_state_t e = 0; int r = ARMED(fsm_exec(f, src2_getc, &src, &e, NULL)); Out o; o.ok = r >= 0; o.s = std::to_string(r) + "/" + std::to_string(r == 1 ? e : 0); return o; }
		default: return took(c, f, ARMED(fsm_capture_set_path(f, 0, x, y)));
		}
	}, dump(a));
}
PBT_CASE(binary, 8, "at least one allocation failure was reported as an error") {
	const struct fsm_alloc *al = pick_alloc(c); int op = (int)c.draw(5); Nfa a = some(c), b = some(c);
	c.describe([&](std::ostream &s) { s << "op " << op << "\n" << dump(a) << dump(b); });
	static const char *names[] = {"merge", "union", "concat", "intersect", "subtract"};
	drive(c, names[op], [&]() -> Out {
		struct fsm *f = ready(c, a, al), *g = ready(c, b, al), *q; struct fsm_combine_info ci;
		// union and concat consume both operands, whatever the outcome (bool.h); merge, intersect and subtract leave both to the caller on failure
		switch (op) {
		case 0: q = ARMED(fsm_merge(f, g, &ci)); break;
		case 1: q = ARMED(fsm_union(f, g, NULL)); break;
		case 2: q = ARMED(fsm_concat(f, g, NULL)); break;
		case 3: q = ARMED(fsm_intersect(f, g)); break;
		default: q = ARMED(fsm_subtract(f, g)); break;
		}
		if (!q && op != 1 && op != 2) { fsm_free(f); fsm_free(g); }
		Fsm r(q); if (op == 0 && q) { fsm_state_t s = ci.base_a + a.start; fsm_setstart(q, s); } return took(c, r, q != NULL);
	}, dump(a) + dump(b));
}
PBT_CASE(query, 8, "at least one allocation failure was reported as an error") {
	const struct fsm_alloc *al = pick_alloc(c); int op = (int)c.draw(9); bool dfa = op != 0 && op != 1 && op != 8; Nfa a = some(c, dfa), b = some(c, dfa);
	if (op == 6 && c.chance(1, 2)) b = a;
	if (op == 5 && c.chance(1, 2)) { a = Nfa(); int n = c.range(15, 70); for (int i = 0; i < n; i++) a.add(); a.start = 0; for (int i = 0; i + 1 < n; i++) { Bits x; x.set('a' + c.draw(26)); a.st[i].add(x, i + 1); } a.st[n - 1].end = true; if (c.chance(1, 2)) a.st[c.range(1, n - 1)].end = true; } // deep enough for its stack to grow
	std::string w = gen_word(c, a, 8); int goal = (int)c.draw(a.n()), x = (int)c.draw(a.n()); size_t maxlen = 1 + c.draw(3);
	c.describe([&](std::ostream &s) { s << "op " << op << "\n" << dump(a); if (op == 1) s << dump(b); });
	static const char *names[] = {"empty", "equal", "shortest", "example", "generate", "required", "equal-dfa", "reachable", "isdfa"};
	drive(c, names[op], [&]() -> Out {
		Fsm f(ready(c, a, al)); Out o; int r;
		switch (op) {
		case 0: r = ARMED(fsm_empty(f)); o.ok = r >= 0; o.s = std::to_string(r); intact(c, f, a, "empty"); return o;
		case 1: case 6: { Fsm g(ready(c, b, al)); r = ARMED(fsm_equal(f, g)); intact(c, f, a, "equal"); intact(c, g, b, "equal"); o.ok = r >= 0; o.s = std::to_string(r); return o; }
		case 2: case 3: { char buf[200] = ""; r = ARMED(fsm_example(f, goal, buf, sizeof buf)); intact(c, f, a, "example"); o.ok = r >= 0; o.s = std::to_string(r) + buf; if (r < 0 && !g_fired) { o.ok = true; } return o; }
		case 4: { struct E { static enum fsm_generate_matches_cb_res cb(const struct fsm *, size_t, size_t n, size_t, const char *in, size_t len, fsm_state_t, void *op) { bool was = g_armed; g_armed = false; auto s = (std::string *)op; *s += pbt::show(std::string(in, len)) + ","; g_armed = was; return n > 60 ? FSM_GENERATE_MATCHES_CB_RES_HALT : FSM_GENERATE_MATCHES_CB_RES_CONTINUE; } }; r = ARMED(fsm_generate_matches(f, maxlen, 0, E::cb, &o.s)); o.ok = r == 1; return o; }
		case 5: { uint64_t m[4] = {0}; size_t n = 0; int r = ARMED(fsm_detect_required_characters(f, 0, m, &n)); intact(c, f, a, "required"); o.ok = r >= 0; o.s = std::to_string(r) + ":" + std::to_string(n); for (auto v : m) o.s += "," + std::to_string(v); return o; }
		case 7: { r = ARMED(fsm_reachableall(f, x, fsm_isend)); int q = ARMED(fsm_reachableany(f, x, fsm_isend)); o.ok = r >= 0 && q >= 0; o.s = std::to_string(r) + "," + std::to_string(q); return o; }
		default: { r = ARMED(fsm_all(f, fsm_isdfa)); o.ok = true; o.s = std::to_string(r); return o; }
		}
	}, dump(a));
}
PBT_CASE(vm, 4, "at least one allocation failure was reported as an error") {
	const struct fsm_alloc *al = pick_alloc(c); Nfa a = some(c, true); int v = (int)c.draw(2); std::vector<std::string> ws; for (int i = 0; i < 4; i++) ws.push_back(gen_word(c, a));
	bool opt = c.chance(1, 2);
	c.describe([&](std::ostream &s) { s << dump(a); });
	drive(c, v ? "vm2" : "vm1", [&]() -> Out {
		Fsm f(ready(c, a, al)); struct fsm_vm_compile_opts o; memset(&o, 0, sizeof o); o.flags = opt ? FSM_VM_COMPILE_OPTIM : 0; o.output = v ? FSM_VM_COMPILE_VM_V2 : FSM_VM_COMPILE_VM_V1; struct fsm_options fo; memset(&fo, 0, sizeof fo);
		struct fsm_dfavm *m = ARMED(fsm_vm_compile_with_options(f, &fo, o)); Out r; intact(c, f, a, "vm"); if (!m) return r; r.ok = true;
		for (auto &w : ws) r.s += std::to_string(fsm_vm_match_buffer(m, w.data(), w.size())); fsm_vm_free(m); return r;
	}, dump(a));
}
PBT_CASE(printing, 6, "at least one allocation failure was reported as an error") {
	static const enum fsm_print_lang langs[] = {FSM_PRINT_API, FSM_PRINT_AWK, FSM_PRINT_C, FSM_PRINT_DOT, FSM_PRINT_FSM, FSM_PRINT_GO, FSM_PRINT_IR, FSM_PRINT_IRJSON, FSM_PRINT_JSON, FSM_PRINT_LLVM, FSM_PRINT_RUST, FSM_PRINT_SH, FSM_PRINT_VMC, FSM_PRINT_VMDOT, FSM_PRINT_VMOPS_C, FSM_PRINT_VMOPS_H, FSM_PRINT_AMD64_ATT, FSM_PRINT_AMD64_GO, FSM_PRINT_AMD64_NASM};
	int l = (int)c.draw(sizeof langs / sizeof *langs); const struct fsm_alloc *al = pick_alloc(c); GenOpts o; o.dfa = true; o.eps = false; o.ids = c.chance(1, 2); Nfa a = gen_nfa(c, o);
	struct fsm_options fo; memset(&fo, 0, sizeof fo); fo.io = FSM_IO_PAIR; fo.ambig = o.ids ? AMBIG_MULTIPLE : AMBIG_NONE; if (c.chance(1, 6)) { fo.ambig = AMBIG_ERROR; for (auto &s : a.st) if (s.end) s.ids.insert(1); } fo.comments = c.chance(1, 2); fo.consolidate_edges = c.chance(1, 2); fo.group_edges = c.chance(1, 2);
	if (langs[l] == FSM_PRINT_SH || langs[l] == FSM_PRINT_AWK || langs[l] == FSM_PRINT_RUST) fo.io = FSM_IO_STR;
	c.describe([&](std::ostream &s) { s << "lang " << l << "\n" << dump(a); });
	drive(c, "print" + std::to_string(l), [&]() -> Out {
		Fsm f(ready(c, a, al)); char *p = NULL; size_t n = 0; FILE *mf = open_memstream(&p, &n);
		int r = ARMED(fsm_print(mf, f, &fo, NULL, langs[l])); fclose(mf); Out o; intact(c, f, a, "print"); o.ok = r >= 0; o.s = o.ok ? std::string(p, n) : ""; free(p); return o;
	}, dump(a));
}
struct Src { const char *p, *e; }; static int src_getc(void *o) { Src *s = (Src *)o; return s->p == s->e ? EOF : (unsigned char)*s->p++; }
PBT_CASE(regex, 6, "at least one allocation failure was reported as an error") {
	static const char *atoms[] = {"a", "b", ".", "[a-c]", "(?:ab)", "(a|b)", "[^x]", "a*", "(b+)", "c?", "(?:abc|abd|xyz)", "d{2,3}", "(?i:q)", "^", "$", "[[:digit:]]", "\\w", "(|a)", "é"};
	std::string re; int k = c.range(1, 5); while (k--) { re += atoms[c.draw(sizeof atoms / sizeof *atoms)]; if (c.chance(1, 6)) re += "|"; }
	static const enum re_dialect ds[] = {RE_PCRE, RE_NATIVE, RE_GLOB, RE_LIKE, RE_SQL, RE_LITERAL}; enum re_dialect d = c.chance(1, 2) ? RE_PCRE : ds[c.draw(6)]; int fl = c.chance(1, 4) ? RE_ANCHORED : 0; if (c.chance(1, 6)) fl |= RE_ICASE; if (c.chance(1, 6)) fl |= RE_SAVE_LINKAGE_INFO;
	const struct fsm_alloc *al = pick_alloc(c); int what = (int)c.weighted({6, 1, 1});
	c.describe([&](std::ostream &s) { s << d << " /" << re << "/\n"; });
	static const char *names[] = {"re_comp", "re_is_literal", "re_is_anchored"};
	drive(c, names[what], [&]() -> Out {
		Src s{re.data(), re.data() + re.size()}; struct re_err e; Out o;
		if (what == 0) { Fsm f(ARMED(re_comp(d, src_getc, &s, al, (enum re_flags)fl, &e))); return took(c, f, f.f != NULL); }
		if (what == 1) { enum re_literal_category cat; char *p = NULL; size_t n = 0; int r = ARMED(re_is_literal(d, src_getc, &s, (enum re_flags)fl, &e, &cat, &p, &n)); o.ok = r >= 0; o.s = std::to_string(r); if (r == 1) { o.s += std::to_string(cat); if (p) o.s += std::string(p, n); free(p); } return o; }
		int r = ARMED(re_is_anchored(d, src_getc, &s, (enum re_flags)fl, &e)); o.ok = r != RE_IS_ANCHORED_ERROR; o.s = std::to_string(r); return o;
	}, "/" + re + "/");
}
PBT_CASE(strings, 3, "at least one allocation failure was reported as an error") {
	std::vector<std::string> ws; int n = c.range(1, 6); for (int i = 0; i < n; i++) { std::string w; int k = c.range(1, 6); while (k--) w += "abc"[c.draw(3)]; ws.push_back(w); }
	int fl = (int)c.draw(4); const struct fsm_alloc *al = pick_alloc(c); bool ids = c.chance(1, 3);
	drive(c, "re_strings", [&]() -> Out {
		struct fsm *q; { Arm arm; struct re_strings *g = re_strings_new(); if (!g) return Out(); bool ok = true; for (int i = 0; ok && i < n; i++) { fsm_end_id_t id = i; ok = re_strings_add_raw(g, ws[i].data(), ws[i].size(), ids ? &id : NULL); } q = ok ? re_strings_build(g, al, (enum re_strings_flags)fl) : NULL; re_strings_free(g); }
		Fsm f(q); return took(c, f, q != NULL);
	}, "");
}

PBT_CASE(groups, 4, "at least one allocation failure was reported as an error") {
	static const char *atoms[] = {"a", "b", "[a-c]", "(a|b)", "a*", "b+", "^a", "a$", "^", "$", "a?", "(?:x|yz)"};
	const struct fsm_alloc *al = pick_alloc(c); int n = c.range(1, 4); bool rep = c.chance(2, 3); std::vector<std::string> res; for (int i = 0; i < n; i++) { std::string re; int k = c.range(1, 3); while (k--) re += atoms[c.draw(12)]; res.push_back(re); }
	bool withbases = c.chance(1, 2); std::vector<Nfa> as; if (!rep) for (int i = 0; i < n; i++) as.push_back(some(c));
	std::string what; for (auto &r : res) what += "/" + r + "/ "; c.describe([&](std::ostream &s) { s << (rep ? what : "union_array") << "\n"; for (auto &a : as) s << dump(a); });
	drive(c, rep ? "pattern_group" : "union_array", [&]() -> Out {
		std::vector<struct fsm *> fs; std::vector<struct fsm_combined_base_pair> b(n);
		for (int i = 0; i < n; i++) {
			if (!rep) { fs.push_back(ready(c, as[i], al)); continue; }
			Src s{res[i].data(), res[i].data() + res[i].size()}; struct re_err e; struct fsm *f = re_comp(RE_PCRE, src_getc, &s, al, (enum re_flags)RE_SAVE_LINKAGE_INFO, &e); if (!f) { for (auto g : fs) fsm_free(g); return Out(); } fs.push_back(f);
		}
		// whatever the outcome, ownership of the operands has passed on
		struct fsm *q = rep ? ARMED(fsm_union_repeated_pattern_group(n, fs.data(), withbases ? b.data() : NULL, 0)) : ARMED(fsm_union_array(n, fs.data(), withbases ? b.data() : NULL));
		Fsm r(q); return took(c, r, q != NULL);
	}, what);
}
