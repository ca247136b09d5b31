// BUILD: variant=tsan progs=lx progvariant=tsan
// Property: automata that share nothing may be worked on by several threads at once, and one automaton may be read by
// several; every thread sees what it would have seen alone.
// Oracle: ThreadSanitizer (any pair of unordered accesses is a failure), and the logs of the same programs run one by one.
#include "ops.hpp"
#include "codegen.hpp"
#include <pthread.h>
#include <sys/wait.h>
#include <functional>
using namespace ops; using codegen::read_file; using codegen::write_file;

static pthread_barrier_t gate;
struct Job { std::function<void()> fn; pthread_t t; };
static void *enter(void *o) { pthread_barrier_wait(&gate); ((Job *)o)->fn(); return NULL; }
static void together(pbt::Ctx &c, std::vector<Job> &js) {
	pthread_barrier_init(&gate, NULL, (unsigned)js.size());
	for (auto &j : js) if (pthread_create(&j.t, NULL, enter, &j)) c.discard();
	for (auto &j : js) pthread_join(j.t, NULL);
	pthread_barrier_destroy(&gate);
}

// each thread has a program of its own
PBT_CASE(apart, 30, "at least two threads ran three different operations each") {
	int n = c.range(2, 4); std::vector<Program> ps; std::vector<std::string> alone(n), with(n); std::vector<std::vector<int>> done(n);
	for (int i = 0; i < n; i++) ps.push_back(i && c.chance(1, 3) ? ps[0] : gen(c, 8));
	c.describe([&](std::ostream &o) { for (int i = 0; i < n; i++) { o << "thread " << i << "\n"; show(o, ps[i]); } });
	bool after = c.chance(1, 2); // threads first, so that lazily made tables are made by them
	auto solo = [&] { for (int i = 0; i < n; i++) { Run r(ps[i]); r.all(ps[i]); alone[i] = r.log; done[i] = r.done; } };
	if (!after) solo();
	std::vector<Job> js(n); for (int i = 0; i < n; i++) js[i].fn = [&, i] { Run r(ps[i]); r.all(ps[i]); with[i] = r.log; };
	for (int k = c.replaying ? 5 : 1; k--;) together(c, js); if (after) solo();
	int busy = 0; for (int i = 0; i < n; i++) { if (alone[i] != with[i]) c.fail("differs", "thread " + std::to_string(i) + " saw something else than it does alone, " + first_diff(alone[i], with[i])); int k = 0; for (int j = 0; j < NOPS; j++) if (done[i][j]) { c.count(NAME[j]); k++; } busy += k >= 3; }
	if (busy >= 2) c.nontrivial();
}

// all threads read one automaton (and one compiled matcher)
PBT_CASE(shared, 20, "an automaton with an end, at least two threads reading") {
	GenOpts o; o.dfa = true; o.eps = false; o.ids = c.chance(1, 2); o.eager = c.chance(1, 5); o.max_states = 10; Nfa a = gen_nfa(c, o); if (a.start < 0) c.discard();
	Program none; Run maker(none); struct fsm *f = maker.make(a); struct fsm *g = fsm_clone(f);
	bool min = c.chance(1, 2); if (min && (!fsm_determinise(f) || !fsm_minimise(f))) c.fail("minimise", "failed");
	fsm_state_t st; if (!fsm_getstart(f, &st)) { fsm_free(f); fsm_free(g); c.discard(); }
	struct fsm_vm_compile_opts vo; memset(&vo, 0, sizeof vo); vo.flags = c.chance(1, 2) ? FSM_VM_COMPILE_OPTIM : 0; vo.output = c.chance(1, 2) ? FSM_VM_COMPILE_VM_V2 : FSM_VM_COMPILE_VM_V1; struct fsm_options fo; memset(&fo, 0, sizeof fo);
	struct fsm_dfavm *m = fsm_vm_compile_with_options(f, &fo, vo); if (!m) c.fail("vm", "no matcher");
	int n = c.range(2, 4); struct Q { int op; unsigned x, y; std::string w; }; std::vector<std::vector<Q>> qs(n);
	for (auto &q : qs) { int k = c.range(1, 8); while (k--) { Q z; z.op = (int)c.draw(9); z.x = (unsigned)c.draw(1000); z.y = (unsigned)c.draw(1000); z.w = gen_word(c, a); q.push_back(z); } }
	auto ask = [&](const std::vector<Q> &q) { Program p0; Run r(p0); for (auto &z : q) { r.log += "\n" + std::to_string(z.op); unsigned k = fsm_countstates(f); switch (z.op) {
		case 0: { Src s{z.w.data(), z.w.data() + z.w.size()}; fsm_state_t e = 0; int v = fsm_exec(f, src_getc, &s, &e, NULL); r.log += std::to_string(v) + (v == 1 ? "@" + std::to_string(e) : ""); break; }
		case 1: r.log += std::to_string(fsm_vm_match_buffer(m, z.w.data(), z.w.size())); break;
		case 2: { if (z.w.empty()) break; FILE *mf = fmemopen((void *)z.w.data(), z.w.size(), "r"); r.log += std::to_string(fsm_vm_match_file(m, mf)); fclose(mf); break; }
		case 3: r.text(f, z.x % NLANG, z.y); break;
		case 4: r.state(f); break;
		case 5: { char b[64] = ""; int v = fsm_example(f, z.x % k, b, sizeof b); r.log += std::to_string(v) + " " + (v >= 0 ? b : ""); break; }
		case 6: { struct path *p = fsm_shortest(f, st, z.x % k, Run::fsm_cost_bytes_); r.freepath(p); break; }
		case 7: { struct fsm *h = fsm_clone(f); if (h) { r.state(h); fsm_free(h); } break; }
		case 8: /* searches mark the states they visit in the automaton: fsm_equal, fsm_reachable and fsm_empty are not reads */ r.log += std::to_string(fsm_has(f, fsm_isend)) + std::to_string(fsm_all(f, fsm_isdfa)) + std::to_string(fsm_countedges(f)); break;
		} } return r.log; };
	c.describe([&](std::ostream &o) { o << dump(a) << (min ? "minimised\n" : "") << n << " threads\n"; for (auto &q : qs) { for (auto &z : q) o << " " << z.op << "," << z.x << "," << z.y << "," << pbt::show(z.w); o << "\n"; } });
	std::vector<std::string> alone(n), with(n); bool after = c.chance(1, 2); if (!after) for (int i = 0; i < n; i++) alone[i] = ask(qs[i]);
	std::vector<Job> js(n); for (int i = 0; i < n; i++) js[i].fn = [&, i] { with[i] = ask(qs[i]); };
	for (int k = c.replaying ? 5 : 1; k--;) together(c, js); if (after) for (int i = 0; i < n; i++) alone[i] = ask(qs[i]);
	fsm_vm_free(m); bool end = fsm_has(f, fsm_isend); fsm_free(f); fsm_free(g);
	for (int i = 0; i < n; i++) if (alone[i] != with[i]) c.fail("differs", "thread " + std::to_string(i) + " read something else than it does alone, " + first_diff(alone[i], with[i]));
	if (end) c.nontrivial();
}

// lx compiles the zones of a lexer in as many threads as it is told to
PBT_CASE(zones, 1, "at least three zones and two threads") {
	int n = c.range(1, 9), conc = c.range(2, 8), zones = 1; std::string t, id; int depth = 0;
	auto rules = [&](int z) { int k = c.range(1, 6); for (int i = 0; i < k; i++) { id = std::string(1, 'a' + z) + std::to_string(i); switch (c.draw(5)) {
		case 0: t += "'" + id + "' -> $t" + id + ";\n"; break; case 1: t += "/" + id + "[x-z]*/ -> $t" + id + ";\n"; break; case 2: t += "'" + id + "' | /" + id + "k{1," + std::to_string(c.range(2, 20)) + "}/ -> $t" + id + ";\n"; break;
		case 3: t += "/" + id + "(ab|c)+/ - '" + id + "c';\n"; break; default: t += "/" + id + "[^x]/ -> $u;\n"; } } };
	rules(0); for (int z = 1; z < n; z++) { t += "'<" + std::to_string(z) + "' .. '>" + std::to_string(z) + "' {\n"; zones++; rules(z); if (depth < 3 && c.chance(1, 3)) depth++; else { t += "}\n"; while (depth && c.chance(1, 2)) { t += "}\n"; depth--; } } }
	while (depth--) t += "}\n";
	static const char *const L[] = {"test", "c -b dyn -g fgetc -k getc", "c -b fixed -k str", "dot", "dump", "zdot"}; std::string l = L[c.draw(6)]; const char *bin = getenv("PROG_LX");
	c.describe([&](std::ostream &o) { o << "lx -C " << conc << " -l " << l << "\n" << t; }); REQ(c, write_file(c.scratch + "/z.lx", t), "harness", "write");
	auto run = [&](int k) { int r = system(("TSAN_OPTIONS=exitcode=66 " + std::string(bin) + " -C " + std::to_string(k) + " -l " + l + " < " + c.scratch + "/z.lx > " + c.scratch + "/z.out 2> " + c.scratch + "/z.err").c_str()); return WIFEXITED(r) ? WEXITSTATUS(r) : 1000 + WTERMSIG(r); };
	int one = run(1); if (one == 66 || one > 120) c.fail("alone", "lx -C 1 exits with " + std::to_string(one) + "\n" + read_file(c.scratch + "/z.err")); size_t len = read_file(c.scratch + "/z.out", 10000000).size();
	for (int k = c.replaying ? 8 : 2; k--;) { int r = run(conc); if (r != one) c.fail("zones", "lx exits with " + std::to_string(one) + " on one thread, with " + std::to_string(r) + " on " + std::to_string(conc) + "\n" + read_file(c.scratch + "/z.err"));
		REQ(c, !len == read_file(c.scratch + "/z.out", 10000000).empty(), "zones_output", "output on one thread and none on several, or the reverse"); }
	if (one == 0) c.count("accepted"); if (zones >= 3 && one == 0) c.nontrivial();
}
