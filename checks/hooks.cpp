// BUILD: variant=san
// Property: printing reports every failure, and hooks are shown exactly what the automaton has.
// Oracle: ids of the automaton itself; the count of hook calls of an undisturbed print; a stream that stops accepting bytes.
#include "ops.hpp"
using namespace ops;

enum { ARGS, ACCEPT, REJECT, ADVANCE, COMMENT, CONFLICT, NH };
static const char *const HN[] = {"args", "accept", "reject", "advance", "comment", "conflict"};
struct Call { int kind; bool meta; std::vector<unsigned> ids; std::string text; };
struct Rec { std::vector<Call> calls; long fail_at = -1; const struct fsm_options *want = NULL; std::string wrong; };
static int hit(FILE *f, int kind, const struct fsm_options *opt, const struct fsm_state_metadata *m, const char *text, void *o) {
	Rec *r = (Rec *)o; Call c{kind, m != NULL, {}, text ? text : ""}; if (m) for (size_t i = 0; i < m->end_id_count; i++) c.ids.push_back(m->end_ids[i]);
	if (opt == NULL || (r->want && memcmp(opt, r->want, sizeof *opt))) r->wrong = std::string(HN[kind]) + " hook was given other options";
	r->calls.push_back(c); if (f && kind != CONFLICT) fprintf(f, "@%s%zu@", HN[kind], r->calls.size() - 1); return (long)r->calls.size() - 1 == r->fail_at ? -1 : 0;
}
static int h_args(FILE *f, const struct fsm_options *o, void *, void *h) { return hit(f, ARGS, o, NULL, NULL, h); }
static int h_accept(FILE *f, const struct fsm_options *o, const struct fsm_state_metadata *m, void *, void *h) { return hit(f, ACCEPT, o, m, NULL, h); }
static int h_reject(FILE *f, const struct fsm_options *o, const struct fsm_state_metadata *m, void *, void *h) { return hit(f, REJECT, o, m, NULL, h); }
static int h_advance(FILE *f, const struct fsm_options *o, const char *v, void *h) { return hit(f, ADVANCE, o, NULL, v, h); }
static int h_comment(FILE *f, const struct fsm_options *o, const struct fsm_state_metadata *m, void *h) { return hit(f, COMMENT, o, m, NULL, h); }
static int h_conflict(FILE *f, const struct fsm_options *o, const struct fsm_state_metadata *m, const char *ex, void *h) { return hit(f, CONFLICT, o, m, ex ? ex : "\x01none", h); }
static struct fsm_hooks hooks(unsigned mask, Rec *r, const char *cp = NULL) { struct fsm_hooks h; memset(&h, 0, sizeof h); h.cp = cp; h.hook_opaque = r; if (mask & 1) h.args = h_args; if (mask & 2) h.accept = h_accept; if (mask & 4) h.reject = h_reject; if (mask & 8) h.advance = h_advance; if (mask & 16) h.comment = h_comment; if (mask & 32) h.conflict = h_conflict; return h; }

static const char *const LN[] = {"fsm", "api", "json", "dot", "c", "vmc", "awk", "go", "ir", "irjson", "llvm", "rust", "sh", "vmdot", "vmops_c", "vmops_h", "att", "amd64go", "nasm"};
struct Setup { Nfa a; int lang; struct fsm_options fo; unsigned mask; struct fsm *f; };
static std::string said; // what was printed
static int print(const Setup &s, const struct fsm_hooks *h) { char *b = NULL; size_t n = 0; FILE *mf = open_memstream(&b, &n); errno = 0; int k = fsm_print(mf, s.f, &s.fo, h, LANG[s.lang]); int e = errno; fclose(mf); said.assign(b, n); ::free(b); errno = e; return k; }
static Setup setup(pbt::Ctx &c, bool ambig_error) {
	Setup s; GenOpts o; o.dfa = true; o.eps = false; if (ambig_error && c.chance(1, 3)) { o.dfa = false; o.eps = c.chance(1, 2); } o.ids = true; o.max_states = 7; o.big_ids = true; s.a = gen_nfa(c, o); if (s.a.start < 0) c.discard();
	s.lang = (int)c.draw(o.dfa ? NLANG : 4); memset(&s.fo, 0, sizeof s.fo);
	s.fo.io = (enum fsm_io)c.draw(3); s.fo.comments = c.draw(2); s.fo.consolidate_edges = c.draw(2); s.fo.group_edges = c.draw(2); s.fo.anonymous_states = c.draw(2); s.fo.case_ranges = c.draw(2); s.fo.fragment = c.draw(2); s.fo.always_hex = c.draw(2); if (c.chance(1, 3)) s.fo.prefix = "pre_"; if (c.chance(1, 6)) s.fo.package_prefix = "pack";
	enum fsm_ambig am[] = {AMBIG_NONE, AMBIG_EARLIEST, AMBIG_MULTIPLE}; s.fo.ambig = ambig_error ? AMBIG_ERROR : am[c.draw(3)];
	s.mask = (unsigned)c.draw(64); enum fsm_print_lang l = LANG[s.lang];
	if (c.chance(3, 4)) { // a combination that is supported
		if (l == FSM_PRINT_SH || l == FSM_PRINT_AWK || l == FSM_PRINT_AMD64_GO || l == FSM_PRINT_GO) s.fo.io = FSM_IO_STR; else if (l == FSM_PRINT_AMD64_ATT || l == FSM_PRINT_AMD64_NASM) s.fo.io = FSM_IO_PAIR;
		if ((l == FSM_PRINT_SH || l == FSM_PRINT_AWK) && s.fo.ambig == AMBIG_MULTIPLE) s.fo.ambig = AMBIG_NONE; if (l == FSM_PRINT_VMOPS_C || l == FSM_PRINT_VMOPS_H) { s.fo.fragment = 0; if (s.fo.io == FSM_IO_GETC) s.fo.io = FSM_IO_STR; } if (l >= FSM_PRINT_AMD64_ATT && l <= FSM_PRINT_AMD64_NASM && !ambig_error) s.fo.ambig = AMBIG_NONE; }
	s.f = Run(Program()).make(s.a); if (!ambig_error && c.chance(1, 2)) fsm_trim(s.f, FSM_TRIM_START_REACHABLE, NULL);
	if (s.fo.ambig == AMBIG_EARLIEST || s.fo.ambig == AMBIG_ERROR) for (unsigned i = 0; i < fsm_countstates(s.f); i++) if (fsm_isend(s.f, i) && !fsm_endid_count(s.f, i)) fsm_endid_set(s.f, i, 7);
	c.describe([&](std::ostream &o) { o << dump(s.a) << LN[s.lang] << " io " << s.fo.io << " ambig " << s.fo.ambig << " comments " << s.fo.comments << " fragment " << s.fo.fragment << " hex " << s.fo.always_hex << " group " << s.fo.group_edges << " consolidate " << s.fo.consolidate_edges << " anon " << s.fo.anonymous_states << " ranges " << s.fo.case_ranges << " hooks"; for (int i = 0; i < NH; i++) if (s.mask >> i & 1) o << " " << HN[i]; o << "\n"; });
	return s;
}

struct Lim { long left; };
static ssize_t lim_write(void *o, const char *, size_t n) { Lim *l = (Lim *)o; if (l->left <= 0) { errno = ENOSPC; return 0; } long k = std::min<long>(l->left, (long)n); l->left -= k; return k; }

PBT_CASE(hookfail, 3, "a hook failed part way") {
	Setup s = setup(c, false); Rec r; struct fsm_hooks h = hooks(s.mask, &r); r.want = &s.fo; int k = print(s, &h);
	if (k != 0) { if (k != -1) c.fail("result", "printing returned " + std::to_string(k)); if (errno == 0) c.fail("errno", "printing failed with errno 0"); fsm_free(s.f); c.count("unsupported"); return; }
	if (!r.wrong.empty()) c.fail("options", r.wrong);
	c.count(LN[s.lang]); if (r.calls.empty()) { fsm_free(s.f); return; }
	Rec q; q.want = &s.fo; q.fail_at = (long)c.draw(r.calls.size()); h.hook_opaque = &q; int z = print(s, &h);
	if (z != -1) c.fail("unreported", std::string("the ") + HN[r.calls[q.fail_at].kind] + " hook failed at call " + std::to_string(q.fail_at) + " but " + LN[s.lang] + " printing returned " + std::to_string(z));
	if ((long)q.calls.size() != q.fail_at + 1) c.fail("continued", "printing went on calling hooks after one failed");
	c.count(HN[r.calls[q.fail_at].kind]); c.nontrivial(); fsm_free(s.f);
}
PBT_CASE(full, 2, "the stream stopped accepting bytes before the end") {
	Setup s = setup(c, false); Rec r; struct fsm_hooks h = hooks(s.mask & ~32u, &r); int k = print(s, &h); if (k != 0 || said.empty()) { fsm_free(s.f); c.discard(); }
	Lim l{(long)c.draw(said.size())}; cookie_io_functions_t io = {NULL, lim_write, NULL, NULL}; FILE *f = fopencookie(&l, "w", io); setvbuf(f, NULL, _IONBF, 0); Rec q; h.hook_opaque = &q;
	int z = fsm_print(f, s.f, &s.fo, &h, LANG[s.lang]); fclose(f);
	if (z != -1) c.fail("unreported", std::string(LN[s.lang]) + " printing returned " + std::to_string(z) + " on a full stream"); c.count(LN[s.lang]); c.nontrivial(); fsm_free(s.f);
}
PBT_CASE(shown, 4, "at least two ends, at least one with ids") {
	Setup s = setup(c, false); s.mask |= 2; Rec r; struct fsm_hooks h = hooks(s.mask, &r); fsm_trim(s.f, FSM_TRIM_START_REACHABLE, NULL); int k = print(s, &h); if (k != 0) { fsm_free(s.f); c.discard(); }
	std::string out = said, wrong; std::set<std::vector<unsigned>> want, got; int ends = 0; bool ids = false; std::multiset<std::vector<unsigned>> each, called, commented;
	for (unsigned i = 0; i < fsm_countstates(s.f); i++) if (fsm_isend(s.f, i)) { ends++; size_t n = fsm_endid_count(s.f, i); std::vector<unsigned> v(n); if (n) fsm_endid_get(s.f, i, n, v.data()); ids |= n > 0; std::sort(v.begin(), v.end()); want.insert(v); each.insert(v); }
	for (size_t i = 0; i < r.calls.size(); i++) { auto &q = r.calls[i]; if (q.kind == CONFLICT) c.fail("conflict", "the conflict hook was called without AMBIG_ERROR"); if (q.kind == ACCEPT) { got.insert(q.ids); called.insert(q.ids); } if (q.kind == COMMENT) commented.insert(q.ids); if (q.kind == COMMENT && !s.fo.comments) c.fail("comment", "the comment hook was called without comments");
		std::string t = std::string("@") + HN[q.kind] + std::to_string(i) + "@"; if (out.find(t) == std::string::npos) c.fail("lost", "what the " + std::string(HN[q.kind]) + " hook wrote is not in the output"); }
	auto str = [](const std::set<std::vector<unsigned>> &z) { std::string t; for (auto &v : z) { t += "{"; for (auto u : v) t += std::to_string(u) + " "; t += "} "; } return t; };
	enum fsm_print_lang l = LANG[s.lang]; std::set<std::vector<unsigned>> cs(commented.begin(), commented.end());
	bool silent = l == FSM_PRINT_API || l == FSM_PRINT_VMOPS_H || (l == FSM_PRINT_LLVM && s.fo.fragment); // no place for hooks there
	bool quiet = silent || l == FSM_PRINT_IR || l == FSM_PRINT_IRJSON || l == FSM_PRINT_JSON || l == FSM_PRINT_VMDOT, some = l == FSM_PRINT_RUST || l == FSM_PRINT_VMOPS_C; // comments for no ends, or for some
	if (got != want && !(silent && got.empty())) c.fail("accept", std::string(LN[s.lang]) + ": the ends carry " + str(want) + "but the accept hook saw " + str(got));
	if (s.fo.comments && (s.mask & 16)) { for (auto &v : cs) if (!want.count(v)) c.fail("comment", "the comment hook saw ids no end has: " + str(cs)); if (!quiet && !some && cs != want) c.fail("comment", std::string(LN[s.lang]) + ": the ends carry " + str(want) + "but the comment hook saw " + str(cs)); }
	c.count(LN[s.lang]);
	if (ends >= 2 && ids) c.nontrivial(); fsm_free(s.f);
}
// the states a word can lead to
static std::set<int> after(const Nfa &a, const std::string &w) {
	auto close = [&](std::set<int> s) { std::vector<int> q(s.begin(), s.end()); while (!q.empty()) { int x = q.back(); q.pop_back(); for (int t : a.st[x].eps) if (s.insert(t).second) q.push_back(t); } return s; };
	std::set<int> s = close({a.start}); for (unsigned char b : w) { std::set<int> n; for (int x : s) for (auto &e : a.st[x].edges) if (e.first[b]) n.insert(e.second); s = close(n); } return s;
}
static std::string plain(const std::string &t) { std::string o; for (size_t i = 0; i < t.size(); i++) if (t[i] == '\\' && i + 3 < t.size() && t[i + 1] == 'x') { o += (char)strtol(t.substr(i + 2, 2).c_str(), NULL, 16); i += 3; } else o += t[i]; return o; }
static bool reached(const Nfa &a, int t) { std::set<int> s{a.start}; std::vector<int> q{a.start}; while (!q.empty()) { int x = q.back(); q.pop_back(); for (auto &e : a.st[x].edges) if (e.first.any() && s.insert(e.second).second) q.push_back(e.second); for (int z : a.st[x].eps) if (s.insert(z).second) q.push_back(z); } return s.count(t) > 0; }
PBT_CASE(conflict, 3, "at least one conflict and one end without") {
	Setup s = setup(c, true); s.mask |= 32; Rec r; struct fsm_hooks h = hooks(s.mask, &r); r.want = &s.fo; std::vector<std::vector<unsigned>> want; std::vector<unsigned> at; int ends = 0;
	for (unsigned i = 0; i < fsm_countstates(s.f); i++) if (fsm_isend(s.f, i)) { ends++; size_t n = fsm_endid_count(s.f, i); if (n < 2) continue; std::vector<unsigned> v(n); fsm_endid_get(s.f, i, n, v.data()); std::sort(v.begin(), v.end()); want.push_back(v); at.push_back(i); }
	int k = print(s, &h); if (!r.wrong.empty()) c.fail("options", r.wrong); size_t j = 0;
	for (auto &q : r.calls) if (q.kind == CONFLICT) { if (j >= want.size() || q.ids != want[j]) c.fail("ids", "the conflict hook saw other ids than the states have");
		bool eps = false; for (auto &z : s.a.st) { eps |= !z.eps.empty(); }
		if (q.text == "\x01none") { if (!eps && reached(s.a, (int)at[j])) c.fail("example", "no example for state " + std::to_string(at[j])); }
		else if (q.text.size() >= 3 && q.text.substr(q.text.size() - 3) == "...") {} // cut short
		else if (!after(s.a, q.text).count((int)at[j]) && !after(s.a, plain(q.text)).count((int)at[j])) c.fail("example", "the example " + pbt::show(q.text) + " does not lead to state " + std::to_string(at[j]));
		else c.count("example");
		j++; }
	if (j != want.size()) c.fail("missed", std::to_string(want.size()) + " states have several ids, " + std::to_string(j) + " conflicts were reported");
	if (!want.empty() && k != 1) c.fail("result", "conflicts were found but printing returned " + std::to_string(k));
	if (want.empty() && k == 1) c.fail("result", "no state has several ids but printing reported a conflict");
	if (!want.empty() && !said.empty()) c.fail("output", "something was printed in spite of conflicts");
	if (!want.empty()) { Rec q; q.fail_at = (long)c.draw(want.size()); h.hook_opaque = &q; int z = print(s, &h); if (z != -1) c.fail("unreported", "the conflict hook failed but printing returned " + std::to_string(z)); }
	Rec q; h.hook_opaque = &q; int z = fsm_print(NULL, s.f, &s.fo, &h, FSM_PRINT_NONE); if (z != (want.empty() ? 0 : 1)) c.fail("none", "FSM_PRINT_NONE returned " + std::to_string(z)); size_t m = 0; for (auto &w : q.calls) m += w.kind == CONFLICT; if (m != want.size()) c.fail("none", "FSM_PRINT_NONE reported other conflicts");
	if (!want.empty() && (int)want.size() < ends) c.nontrivial(); fsm_free(s.f);
}
PBT_CASE(cp, 1, "the name occurs in the output") {
	Setup s = setup(c, false); s.fo.prefix = NULL; Rec r, r2; struct fsm_hooks h = hooks(s.mask, &r, "zqxkv"), g = hooks(s.mask, &r2, "yjwpb"); int k = print(s, &h); std::string a = said; int z = print(s, &g);
	if (k != z) c.fail("result", "the name of the character variable changes the result"); size_t n = 0, p; while ((p = a.find("zqxkv")) != std::string::npos) { a.replace(p, 5, "yjwpb"); n++; }
	if (a != said) c.fail("differs", "the name of the character variable changes more than the name, " + first_diff(a, said)); if (n) { c.nontrivial(); c.count(LN[s.lang]); } fsm_free(s.f);
}
