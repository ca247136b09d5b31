// BUILD: variant=san libs=-rdynamic
// Property: generated C, in every C-producing language, I/O API and option combination, compiles, and matches exactly the
// words the automaton accepts, with the end ids of the accepting state, reading nothing outside its input.
#include "codegen.hpp"
#include <dlfcn.h>
using namespace model; using namespace fsmx; using namespace codegen;

static std::vector<unsigned char> advanced; static std::set<unsigned> eager_set;
extern "C" void cg_advance(int ch) { advanced.push_back((unsigned char)ch); }
extern "C" void cg_eager(unsigned id) { eager_set.insert(id); }
struct Gen { enum fsm_print_lang lang; struct fsm_options o; bool hooks, args, adv; Nfa a; std::string prefix, text; std::vector<Label> meta; };
static int h_args(FILE *f, const struct fsm_options *, void *, void *) { fprintf(f, "int *cg_extra"); return 0; }
static int h_accept(FILE *f, const struct fsm_options *, const struct fsm_state_metadata *m, void *, void *h) { Gen *g = (Gen *)h; Label l; l.end = true; for (size_t i = 0; i < m->end_id_count; i++) l.ids.insert(m->end_ids[i]); for (size_t i = 0; i < m->eager_output_count; i++) l.eager.insert(m->eager_output_ids[i]); g->meta.push_back(l); fprintf(f, "{ *cg_extra = 5; return %zu; }", g->meta.size() + 1); return 0; }
static int h_reject(FILE *f, const struct fsm_options *, const struct fsm_state_metadata *, void *, void *) { fprintf(f, "{ *cg_extra = 6; return -7; }"); return 0; }
static int h_comment(FILE *f, const struct fsm_options *, const struct fsm_state_metadata *m, void *) { fprintf(f, "/* %zu */", m->end_id_count); return 0; }
static int h_advance(FILE *f, const struct fsm_options *, const char *cur, void *) { fprintf(f, "\t\tcg_advance((unsigned char) %s);\n", cur); return 0; }

static bool vmops(const Gen &g) { return g.lang == FSM_PRINT_VMOPS_C; }
static std::string describe(const Gen &g) { return std::string(g.lang == FSM_PRINT_C ? "c" : g.lang == FSM_PRINT_VMC ? "vmc" : "vmops") + " " + show_opt(g.o) + (g.hooks ? " hooks" : "") + (g.args ? " args" : "") + (g.adv ? " advance" : "") + "\n"; }
static void generate(pbt::Ctx &c, Gen &g, int k) {
	g.prefix = "p" + std::to_string(k) + "_"; g.o.prefix = g.prefix.c_str(); Fsm f(build(c, g.a)); struct fsm_hooks h; memset(&h, 0, sizeof h); h.hook_opaque = &g;
	if (g.hooks) { h.accept = h_accept; h.reject = h_reject; h.comment = h_comment; } if (g.hooks || g.args) h.args = h_args; if (g.adv) h.advance = h_advance;
	if (vmops(g)) { g.text = print(c, f, g.o, FSM_PRINT_VMOPS_H) + print(c, f, g.o, FSM_PRINT_VMOPS_C) + "#define main " + g.prefix + "unused_main\n" + print(c, f, g.o, FSM_PRINT_VMOPS_MAIN) + "#undef main\n"; return; }
	std::string t = print(c, f, g.o, g.lang, &h); if (!g.o.fragment) { g.text = t; return; }
	static const char *par[] = {"int (*fsm_getc)(void *getc_opaque), void *getc_opaque", "const char *s", "const char *b, const char *e"};
	std::string s = "int " + g.prefix + "main(" + par[g.o.io]; if (g.o.ambig == AMBIG_MULTIPLE) s += ", const unsigned **ids, size_t *count"; else if (g.o.ambig != AMBIG_NONE) s += ", unsigned *id"; if (g.hooks || g.args) s += ", int *cg_extra"; s += ") {\n";
	if (g.lang == FSM_PRINT_C) s += g.o.io == FSM_IO_GETC ? "\tint c;\n" : "\tconst char *p;\n"; g.text = s + t + "}\n";
}
struct Str { const unsigned char *p, *e; int eofs = 0; };
static int str_getc(void *o) { Str *s = (Str *)o; if (s->p == s->e) { s->eofs++; return EOF; } return *s->p++; }
static void run(pbt::Ctx &c, Gen &g, void *h, const std::vector<std::string> &given) {
	std::string sym = g.prefix + (vmops(g) ? "match" : "main"); void *fn = dlsym(h, sym.c_str()); REQ(c, fn, "c:symbol", sym + " is not defined\n" + g.text); static Guarded mem; Tab t(g.a); bool acc = false, rej = false;
	std::vector<std::string> ws = given.empty() ? words(c, g.a, true, 1500) : given;
	for (auto &full : ws) for (int place = 0; place < (g.o.io == FSM_IO_PAIR ? 2 : 1); place++) {
		std::string w = full; if (g.o.io == FSM_IO_STR && w.find('\0') != std::string::npos) w.resize(w.find('\0')); Label want = t.run(w); (want.end ? acc : rej) = true;
		unsigned id = 4242424242u; const unsigned *ids = nullptr; size_t count = 99; int extra = 0, r; Str st; advanced.clear(); eager_set.clear(); bool hasid = !vmops(g) && g.o.ambig != AMBIG_NONE && g.o.ambig != AMBIG_MULTIPLE, multi = g.o.ambig == AMBIG_MULTIPLE || (vmops(g) && g.o.ambig != AMBIG_NONE), ext = !vmops(g) && (g.hooks || g.args);
		void *x = nullptr, *y = nullptr; char *m; switch (g.o.io) { case FSM_IO_GETC: st.p = (const unsigned char *)w.data(); st.e = st.p + w.size(); x = (void *)str_getc; y = &st; break; case FSM_IO_STR: x = mem.at_end(w.c_str(), w.size() + 1); break; default: m = place ? mem.at_start(w.data(), w.size()) : mem.at_end(w.data(), w.size()); x = m; y = m + w.size(); break; }
		// the arguments after the input, in order
		void *v[3] = {nullptr, nullptr, nullptr}; int n = 0; if (multi) { v[n++] = (void *)&ids; v[n++] = &count; } else if (hasid) v[n++] = &id; if (ext) v[n++] = &extra;
		if (g.o.io == FSM_IO_STR) r = ((int (*)(void *, void *, void *, void *))fn)(x, v[0], v[1], v[2]); else r = ((int (*)(void *, void *, void *, void *, void *))fn)(x, y, v[0], v[1], v[2]);
		auto ctx = [&]() { return "word " + (w.size() < 200 ? pbt::show(w) : std::to_string(w.size()) + " bytes") + " expected " + show_label(want) + "\n" + describe(g) + (g.a.n() < 100 ? dump(g.a) + g.text : std::string()); };
		if (g.hooks && !vmops(g)) {
			if (!want.end) REQ(c, r == -7 && extra == 6, r == 0 || r == -7 ? "c:hook:args" : "c:accepts", ctx() + "returned " + std::to_string(r));
			else { REQ(c, r != -7 && r != 0, "c:rejects", ctx()); REQ(c, r >= 2 && (size_t)r - 2 < g.meta.size() && extra == 5, "c:hook:accept", ctx() + "returned " + std::to_string(r)); Label &l = g.meta[r - 2];
				if (g.o.ambig == AMBIG_EARLIEST) REQ(c, l.ids.empty() == want.ids.empty() && (l.ids.empty() || *l.ids.begin() == *want.ids.begin()), "c:hook:ids", ctx() + "hook was given " + show_label(l)); else if (g.o.ambig != AMBIG_NONE) REQ(c, l.ids == want.ids, "c:hook:ids", ctx() + "hook was given " + show_label(l));
				for (unsigned e : l.eager) eager_set.insert(e); }
		} else {
			REQ(c, r == (int)want.end, want.end ? "c:rejects" : "c:accepts", ctx() + "returned " + std::to_string(r));
			if (want.end && multi) { std::vector<unsigned> got(ids, ids + (count > 1000 ? 0 : count)), w2(want.ids.begin(), want.ids.end()); REQ(c, got == w2 && count <= 1000, "c:ids", ctx() + "count " + std::to_string(count)); }
			if (want.end && hasid) REQ(c, id == *want.ids.begin(), "c:id", ctx() + "id " + std::to_string(id));
		}
		if (g.o.io == FSM_IO_GETC) REQ(c, st.eofs <= 1, "c:getc", "fsm_getc is called again after the end of input\n" + ctx());
		if (g.adv) { REQ(c, advanced.size() <= w.size() && std::equal(advanced.begin(), advanced.end(), (const unsigned char *)w.data()), "c:advance", "the advance hook is given something else than the input\n" + ctx()); if (want.end) REQ(c, advanced.size() == w.size(), "c:advance", "the advance hook misses part of the input\n" + ctx()); }
		if (g.o.fragment && g.lang == FSM_PRINT_C && g.hooks && want.end) { std::set<unsigned> we(want.eager.begin(), want.eager.end()); REQ(c, eager_set == we, "c:eager", "eager outputs reported differ\n" + ctx()); }
	}
	if (acc && rej) c.nontrivial();
}
static void batch(pbt::Ctx &c, std::vector<Gen> &gs, const char *std_, const std::vector<std::string> &given = {}) {
	std::string src = "#include <stdio.h>\n#include <stddef.h>\n#include <string.h>\nvoid cg_advance(int);\nvoid cg_eager(unsigned);\n#define FSM_SET_EAGER_OUTPUT(X) cg_eager(X)\n";
	for (size_t k = 0; k < gs.size(); k++) { generate(c, gs[k], (int)k); src += gs[k].text + "\n"; }
	std::string p = c.scratch + "/gen"; REQ(c, write_file(p + ".c", src), "harness", "write");
	int r = system(("gcc " + std::string(std_) + " -shared -fPIC -o " + p + ".so " + p + ".c >" + p + ".err 2>&1").c_str()); std::string d; for (auto &g : gs) d += describe(g); REQ(c, r == 0, "c:compile", std::string(std_) + "\n" + read_file(p + ".err", 1500) + "\n" + d + (src.size() < 100000 ? src : std::string()));
	void *h = dlopen((p + ".so").c_str(), RTLD_NOW | RTLD_LOCAL); REQ(c, h, "c:load", dlerror());
	for (auto &g : gs) run(c, g, h, given);
	dlclose(h); unlink((p + ".c").c_str()); unlink((p + ".so").c_str()); unlink((p + ".err").c_str());
}
static Gen gen(pbt::Ctx &c, enum fsm_print_lang lang, bool iso) {
	Gen g; g.lang = lang; memset(&g.o, 0, sizeof g.o); struct fsm_options &o = g.o; o.io = (enum fsm_io)c.draw(3); static const enum fsm_ambig am[] = {AMBIG_NONE, AMBIG_MULTIPLE, AMBIG_EARLIEST, AMBIG_ERROR}; o.ambig = am[c.draw(4)]; o.comments = c.chance(1, 2); o.always_hex = c.chance(1, 4); o.case_ranges = !iso && c.chance(1, 3); o.anonymous_states = c.chance(1, 6); o.consolidate_edges = c.chance(1, 6); o.group_edges = c.chance(1, 6);
	g.hooks = g.args = g.adv = false;
	if (vmops(g)) { if (o.io == FSM_IO_GETC) o.io = FSM_IO_PAIR; } else { o.fragment = c.chance(1, 5); g.hooks = c.chance(1, 4); g.args = !g.hooks && c.chance(1, 8); g.adv = lang == FSM_PRINT_C && c.chance(1, 6); }
	bool single = o.ambig == AMBIG_EARLIEST || o.ambig == AMBIG_ERROR; g.a = gen_dfa(c, c.chance(1, 8) ? 20 : 7, single || iso, o.ambig == AMBIG_ERROR, lang == FSM_PRINT_C && o.fragment); return g;
}
static void go(pbt::Ctx &c, std::vector<Gen> &gs, const char *s) { c.describe([&](std::ostream &o) { for (auto &g : gs) o << describe(g) << dump(g.a); }); batch(c, gs, s); }
PBT_CASE(iso, 15, "a matcher that accepts one word and rejects another") { // ISO C90, warnings as in the project's own tests
	std::vector<Gen> gs; int k = c.range(1, 16); for (int i = 0; i < k; i++) gs.push_back(gen(c, c.chance(1, 2) ? FSM_PRINT_VMC : FSM_PRINT_C, true)); go(c, gs, "-std=c90 -pedantic-errors");
}
PBT_CASE(gnu, 15, "a matcher that accepts one word and rejects another") {
	std::vector<Gen> gs; int k = c.range(1, 16); for (int i = 0; i < k; i++) { static const enum fsm_print_lang l[] = {FSM_PRINT_C, FSM_PRINT_VMC, FSM_PRINT_VMOPS_C}; gs.push_back(gen(c, l[c.draw(3)], false)); } go(c, gs, c.chance(1, 12) ? "-w -O2" : "-w");
}
PBT_CASE(large, 2, "more than 256 states") {
	std::vector<Gen> gs; static const enum fsm_print_lang l[] = {FSM_PRINT_C, FSM_PRINT_VMC, FSM_PRINT_VMOPS_C}; Gen g = gen(c, l[c.draw(3)], false); g.o.comments = 0; bool one = g.o.ambig == AMBIG_EARLIEST || g.o.ambig == AMBIG_ERROR; std::vector<std::string> ws; g.a = gen_large(c, ws, one, one, c.tier ? 1500 : 300); gs.push_back(g); if (g.a.n() > 256) c.nontrivial();
	c.describe([&](std::ostream &o) { o << describe(g) << g.a.n() << " states"; }); batch(c, gs, c.chance(1, 6) ? "-w -O1" : "-w", ws);
}
// literal runs longer than any buffer in the generator
PBT_CASE(longrun, 1, "the run is matched whole") {
	std::vector<Gen> gs; Gen g = gen(c, c.chance(3, 4) ? FSM_PRINT_VMC : c.chance(1, 2) ? FSM_PRINT_VMOPS_C : FSM_PRINT_C, false); g.o.comments = 0; if (g.o.io == FSM_IO_GETC) g.o.io = FSM_IO_PAIR;
	int len = c.chance(1, 4) ? c.range(8185, 8200) : c.tier && c.chance(1, 6) ? c.range(16380, 16390) : c.range(50, 1000); Nfa a; a.start = 0; a.add(); std::string w; int pre = (int)c.draw(3);
	for (int i = 0; i < len; i++) { unsigned char ch = gen_byte(c); w += (char)ch; int t = a.add(); Bits b; b.set(ch); if (i < pre) b.set((unsigned char)(ch + 1)); a.st[t - 1].add(b, t); } a.st[len].end = true; a.st[len].ids.insert(7); if (c.chance(1, 2)) { Bits b; b.set((unsigned char)'x'); a.st[len].add(b, len); } g.a = a; gs.push_back(g);
	c.describe([&](std::ostream &o) { o << describe(g) << len << " bytes"; });
	std::vector<std::string> ws{"", w, w + "x", w.substr(0, len - 1), w.substr(1)}; int k = c.range(4, 30); while (k--) { size_t i = c.chance(1, 2) ? c.draw(len) : (size_t)std::min(len - 1, c.range(8180, 8200)); std::string m = w; m[i] ^= 1; ws.push_back(m); ws.push_back(w.substr(0, i)); m = w; m.insert(i, 1, 'q'); ws.push_back(m); }
	batch(c, gs, "-w", ws);
}
