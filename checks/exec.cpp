// BUILD: variant=san
// Property: fsm_exec on a DFA decides exactly the automaton's language, ends in the right state with the right ids,
// reads no more input than it must, and rejects non-DFAs with -1/EINVAL.
#include "fsmx.hpp"
using namespace model; using namespace fsmx;

struct Obs { std::vector<unsigned> out; };
static void ocb(fsm_output_id_t id, void *o) { ((Obs *)o)->out.push_back(id); }

PBT_CASE(dfa, 6, "a DFA with >=2 states or a self loop, executed on >=1 accepted and >=1 rejected word") {
	GenOpts o; o.dfa = true; o.eager = true; o.max_states = 8; o.big_ids = true;
	Nfa a = gen_nfa(c, o);
	c.describe([&](std::ostream &s) { s << dump(a); });
	Fsm f(build(c, a));
	REQ(c, fsm_all(f, fsm_isdfa), "isdfa", "fsm_isdfa rejects a DFA\n" + dump(a));
	Obs ob; if (a.has_eager()) fsm_eager_output_set_cb(f, ocb, &ob);
	int acc = 0, rej = 0; int words = c.range(1, 12);
	for (int i = 0; i < words; i++) {
		std::string w = gen_word(c, a);
		// walk the model deterministically
		int s = a.start; size_t used = 0; std::vector<unsigned> wantout; bool dead = false;
		auto emit = [&] { for (auto id : a.st[s].eager) wantout.push_back(id); };
		emit();
		for (unsigned char ch : w) { int t = -1; used++; for (auto &e : a.st[s].edges) if (e.first[ch]) t = e.second; if (t < 0) { dead = true; break; } s = t; emit(); }
		bool want = !dead && a.st[s].end;
		ob.out.clear();
		fsm_state_t end = 0xdeadbeef; BufSrc b{(const unsigned char *)w.data(), (const unsigned char *)w.data() + w.size()};
		int r = fsm_exec(f, buf_getc, &b, &end, NULL);
		std::string ctx = "word " + pbt::show(w) + "\n" + dump(a);
		REQ(c, r == (want ? 1 : 0), want ? "exec:rejects" : "exec:accepts", ctx);
		if (want) REQ(c, end == (fsm_state_t)s, "exec:endstate", ctx);
		REQ(c, b.p - (const unsigned char *)w.data() == (long)used, "exec:consumed", ctx);
		if (a.has_eager()) { REQ(c, ob.out == wantout, "exec:eager", ctx); }
		// the string reader is equivalent where there is no NUL
		if (w.find('\0') == std::string::npos) { const char *p = w.c_str(); fsm_state_t e2 = 0; int r2 = fsm_exec(f, fsm_sgetc, &p, &e2, NULL); REQ(c, r2 == r && (r != 1 || e2 == end), "exec:sgetc", ctx); }
		if (i == 0) { FILE *fp = fmemopen((void *)(w.empty() ? "" : w.data()), w.size() ? w.size() : 1, "rb"); if (fp) { if (w.empty()) fgetc(fp); fsm_state_t e3 = 0; int r3 = fsm_exec(f, fsm_fgetc, fp, &e3, NULL); fclose(fp); REQ(c, r3 == r && (r != 1 || e3 == end), "exec:fgetc", ctx); } }
		(want ? acc : rej)++;
	}
	if (acc && rej && (a.n() > 1)) c.nontrivial();
	if (acc) c.count("accepting-word");
}

PBT_CASE(nfa, 2, "an automaton with epsilons or nondeterminism, or without start state") {
	GenOpts o; o.must_start = false; Nfa a = gen_nfa(c, o);
	c.describe([&](std::ostream &s) { s << dump(a); });
	Fsm f(build(c, a)); bool dfa = is_dfa(a) && a.start >= 0;
	// per-state predicates against the definition
	int all = 1;
	for (int i = 0; i < a.n(); i++) {
		bool det = a.st[i].eps.empty() && a.start >= 0; Bits u; for (auto &e : a.st[i].edges) { if ((u & e.first).any()) det = false; u |= e.first; }
		if (!det) all = 0;
		REQ(c, !!fsm_isdfa(f, i) == det, "isdfa:state", "state " + std::to_string(i) + "\n" + dump(a));
	}
	if (a.n()) REQ(c, !!fsm_all(f, fsm_isdfa) == !!all, "isdfa:all", dump(a));
	std::string w = gen_word(c, a, 5); fsm_state_t e;
	errno = 0; int r = exec(f, w, &e);
	if (!dfa) { REQ(c, r == -1 && errno == EINVAL, "exec:notdfa", "fsm_exec on a non-DFA returned " + std::to_string(r) + "\n" + dump(a)); c.nontrivial(); }
	else REQ(c, r == (int)accepts(a, w), "exec:dfa", dump(a));
}
