// Bridge between the reference model and libfsm, through the public API only.
#pragma once
#include <cerrno>
#include <cstdint>
#include <cstdio>
#include "model.hpp"
extern "C" {
#include <stdbool.h>
#include <fsm/fsm.h>
#include <fsm/bool.h>
#include <fsm/pred.h>
#include <fsm/walk.h>
#include <fsm/print.h>
#include <fsm/options.h>
#include <fsm/alloc.h>
#include <fsm/capture.h>
}
namespace fsmx {
using model::Nfa; using model::Bits;

#define REQ(c, cond, tag, msg) do { if (!(cond)) (c).fail(tag, msg); } while (0)

inline struct fsm *build(pbt::Ctx &c, const Nfa &a, const struct fsm_alloc *al = nullptr) {
	struct fsm *f = fsm_new(al); REQ(c, f, "fsm_new", "fsm_new failed");
	if (a.n() && c.chance(1, 3)) { REQ(c, fsm_addstate_bulk(f, a.n()), "addstate_bulk", "failed"); }
	else for (int i = 0; i < a.n(); i++) { fsm_state_t s; REQ(c, fsm_addstate(f, &s) && (int)s == i, "addstate", "state ids are not sequential"); }
	for (int i = 0; i < a.n(); i++) {
		for (auto &e : a.st[i].edges) {
			if (e.first.all()) { REQ(c, fsm_addedge_any(f, i, e.second), "addedge_any", "failed"); continue; }
			for (int b = 0; b < 256; b++) if (e.first[b]) REQ(c, fsm_addedge_literal(f, i, e.second, (char)b), "addedge_literal", "failed");
		}
		for (int t : a.st[i].eps) REQ(c, fsm_addedge_epsilon(f, i, t), "addedge_epsilon", "failed");
		if (a.st[i].end) fsm_setend(f, i, 1);
		for (auto id : a.st[i].ids) REQ(c, fsm_endid_set(f, i, id), "endid_set", "failed");
		for (auto id : a.st[i].eager) REQ(c, fsm_eager_output_set(f, i, id), "eager_output_set", "failed");
	}
	if (a.start >= 0) fsm_setstart(f, a.start);
	return f;
}

struct WalkCtx { Nfa *a; bool bad; };
inline int walk_lit(const struct fsm *, fsm_state_t from, fsm_state_t to, char ch, void *o) {
	WalkCtx *w = (WalkCtx *)o;
	if ((int)from >= w->a->n() || (int)to >= w->a->n()) { w->bad = true; return 0; }
	Bits b; b.set((unsigned char)ch); w->a->st[from].add(b, to); return 1;
}
inline int walk_eps(const struct fsm *, fsm_state_t from, fsm_state_t to, void *o) {
	WalkCtx *w = (WalkCtx *)o;
	if ((int)from >= w->a->n() || (int)to >= w->a->n()) { w->bad = true; return 0; }
	w->a->st[from].eps.insert(to); return 1;
}
// what the library says the automaton is
inline Nfa extract(pbt::Ctx &c, const struct fsm *f, bool all_ids = false) {
	Nfa a; unsigned n = fsm_countstates(f);
	for (unsigned i = 0; i < n; i++) a.add();
	fsm_state_t s; if (fsm_getstart(f, &s)) { REQ(c, s < n, "extract:start", "start state out of range"); a.start = (int)s; }
	WalkCtx w{&a, false};
	int r = fsm_walk_edges(f, &w, walk_lit, walk_eps);
	REQ(c, !w.bad, "extract:edge", "edge to a state that does not exist");
	REQ(c, r == 1, "extract:walk", "fsm_walk_edges did not complete");
	for (unsigned i = 0; i < n; i++) {
		a.st[i].end = fsm_isend(f, i);
		if (a.st[i].end || all_ids) {
			size_t k = fsm_endid_count(f, i); if (!k) continue;
			std::vector<fsm_end_id_t> v(k); REQ(c, fsm_endid_get(f, i, k, v.data()) == 1, "extract:endid_get", "fsm_endid_get failed with exact space");
			for (size_t j = 0; j < k; j++) { REQ(c, j == 0 || v[j - 1] < v[j], "extract:endid_sorted", "endids not sorted and unique"); a.st[i].ids.insert(v[j]); }
		}
	}
	for (unsigned i = 0; i < n; i++) {
		size_t k = fsm_eager_output_count(f, i); if (!k) continue;
		std::vector<fsm_output_id_t> v(k); REQ(c, fsm_eager_output_get(f, i, k, v.data()) == 1, "extract:eager_get", "fsm_eager_output_get failed with exact space");
		for (size_t j = 0; j < k; j++) { REQ(c, j == 0 || v[j - 1] < v[j], "extract:eager_sorted", "eager outputs not sorted and unique"); a.st[i].eager.insert(v[j]); }
	}
	return a;
}
struct BufSrc { const unsigned char *p, *e; };
inline int buf_getc(void *o) { BufSrc *b = (BufSrc *)o; return b->p == b->e ? EOF : *b->p++; }
inline int exec(const struct fsm *f, const std::string &w, fsm_state_t *end, struct fsm_capture *cap = nullptr) {
	BufSrc b{(const unsigned char *)w.data(), (const unsigned char *)w.data() + w.size()};
	return fsm_exec(f, buf_getc, &b, end, cap);
}
struct Fsm { // owner
	struct fsm *f = nullptr; Fsm() {} explicit Fsm(struct fsm *p) : f(p) {} ~Fsm() { if (f) fsm_free(f); }
	Fsm(const Fsm &) = delete; Fsm &operator=(const Fsm &) = delete;
	Fsm(Fsm &&o) noexcept : f(o.f) { o.f = nullptr; } Fsm &operator=(Fsm &&o) noexcept { if (this != &o) { if (f) fsm_free(f); f = o.f; o.f = nullptr; } return *this; }
	operator struct fsm *() const { return f; } struct fsm *release() { struct fsm *t = f; f = nullptr; return t; }
	void reset(struct fsm *p) { if (f) fsm_free(f); f = p; }
};
inline bool is_dfa(const Nfa &a) { // structural determinism, no epsilons
	for (auto &s : a.st) { if (!s.eps.empty()) return false; Bits u; for (auto &e : s.edges) { if ((u & e.first).any()) return false; u |= e.first; } }
	return true;
}
inline std::string edge_summary(const Nfa &a, const Nfa &b, const std::string &w, int mode) {
	return "word " + pbt::show(w) + ": expected " + model::show_label(model::run_label(a, w, mode)) + ", got " + model::show_label(model::run_label(b, w, mode)) + "\nexpected automaton:\n" + model::dump(a) + "got automaton:\n" + model::dump(b);
}
// require the library's automaton to be equivalent to the model under mode
inline void require_equiv(pbt::Ctx &c, const Nfa &want, const Nfa &got, int mode, const char *tag) {
	std::string w; bool ok;
	try { ok = model::equivalent(want, got, mode, &w); } catch (model::TooBig &) { c.discard(); }
	if (!ok) c.fail(tag, edge_summary(want, got, w, mode));
}
}
