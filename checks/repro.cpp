// BUILD: variant=san libs=-Xlinker,--wrap=malloc,-Xlinker,--wrap=calloc,-Xlinker,--wrap=realloc,-Xlinker,--wrap=free,-Xlinker,--wrap=strdup,-Xlinker,--wrap=strndup
// Properties: the outcome of any sequence of operations depends on nothing but its operands; nothing stays allocated afterwards.
// Oracle: the same program is executed twice, on memory with other contents at other addresses, after other work and on
// another stack; everything the library shows must be identical. The allocator counts what is still live at the end.
#include "ops.hpp"
#include <unordered_map>
#include <execinfo.h>
#include <iostream>
extern "C" void __sanitizer_symbolize_pc(void *, const char *, char *, size_t);
using namespace ops;

static std::unordered_map<void *, std::pair<size_t, long>> *blocks; static bool tracking; static long seq; static int fill = -1; static unsigned pad; static unsigned rng; static long want = -1; static std::string where;
extern "C" {
void *__real_malloc(size_t); void *__real_calloc(size_t, size_t); void *__real_realloc(void *, size_t); void __real_free(void *); char *__real_strdup(const char *); char *__real_strndup(const char *, size_t);
static void paint(char *p, size_t n) { if (fill < 0 || !p) return; if (fill < 256) { memset(p, fill, n); return; } for (size_t i = 0; i < n; i++) { rng = rng * 1103515245 + 12345; p[i] = (char)(rng >> 16); } }
static void *born(void *p, size_t n) { seq++;
	if (seq == want && tracking) { tracking = false; void *pc[24]; int k = backtrace(pc, 24); for (int i = 2, m = 0; i < k && m < 4; i++) { char b[200] = ""; __sanitizer_symbolize_pc((char *)pc[i] - 1, "%f", b, sizeof b); if (!*b || strstr(b, "__wrap_")) continue; if (strstr(b, "step(")) break; where += (where.empty() ? "" : " < ") + std::string(b); m++; } tracking = true; }
 if (tracking && p) { tracking = false; (*blocks)[p] = {n, seq}; tracking = true; } return p; }
void *__wrap_malloc(size_t n) { if (pad && (rng = rng * 1103515245 + 12345, rng >> 16) % pad == 0) __real_free(__real_malloc(16 + (rng >> 16) % 200)); void *p = __real_malloc(n); paint((char *)p, n); return born(p, n); }
void *__wrap_calloc(size_t n, size_t m) { return born(__real_calloc(n, m), n * m); }
void __wrap_free(void *p) { if (tracking && p) { tracking = false; blocks->erase(p); tracking = true; } __real_free(p); }
void *__wrap_realloc(void *o, size_t n) { size_t old = 0; if (o && blocks) { auto it = blocks->find(o); if (it != blocks->end()) old = it->second.first; else old = n; } void *p = __real_realloc(o, n); if (p && tracking && o) { tracking = false; blocks->erase(o); tracking = true; } if (p && n > old && (o == NULL || old)) paint((char *)p + old, n - old); return born(p, n); }
char *__wrap_strdup(const char *s) { return (char *)born(__real_strdup(s), strlen(s) + 1); }
char *__wrap_strndup(const char *s, size_t n) { char *p = __real_strndup(s, n); return (char *)born(p, p ? strlen(p) + 1 : 0); }
}
static __attribute__((noinline)) void scribble(int v) { volatile char b[60000]; for (size_t i = 0; i < sizeof b; i++) b[i] = (char)v; }
struct Tracked { Tracked() { if (!blocks) blocks = new std::unordered_map<void *, std::pair<size_t, long>>; blocks->clear(); seq = 0; tracking = true; } ~Tracked() { tracking = false; fill = -1; pad = 0; } };

static long first;
static std::string go(const Program &p, std::vector<int> *done, std::string *leaks) {
	Tracked t; std::string log; { Run r(p); r.all(p); if (done) *done = r.done; r.finish(); log = r.log; }
	if (leaks) { first = LONG_MAX; for (auto &l : *blocks) { first = std::min(first, l.second.second); *leaks += "  " + std::to_string(l.second.first) + " bytes, allocation " + std::to_string(l.second.second) + "\n"; } }
	return log;
}
// an allocator of the caller's: every block carries a header and belongs to one instance, so a block handed to the wrong free shows
namespace mine {
struct Head { size_t n; uint64_t tag; }; struct Heap { uint64_t tag; long out = 0, calls = 0; };
static void bad(const char *w) { fprintf(stderr, "assertion: %s: a block from another allocator\n", w); abort(); }
static void *m(void *o, size_t n) { Heap *h = (Heap *)o; Head *p = (Head *)__real_malloc(n + sizeof *p); h->calls++; if (!p) return NULL; p->n = n; p->tag = h->tag; h->out++; memset(p + 1, 0xa5, n); return p + 1; }
static void *z(void *o, size_t n, size_t k) { void *p = m(o, n * k); if (p) memset(p, 0, n * k); return p; }
static void f(void *o, void *p) { Heap *h = (Heap *)o; if (!p) return; Head *d = (Head *)p - 1; if (d->tag != h->tag) bad("free"); d->tag = 0; h->out--; __real_free(d); }
static void *r(void *o, void *p, size_t n) { Heap *h = (Heap *)o; if (!p) return m(o, n); Head *d = (Head *)p - 1; if (d->tag != h->tag) bad("realloc"); void *q = m(o, n); if (q) { memcpy(q, p, std::min(n, d->n)); f(o, p); } return q; }
}
static void tally(pbt::Ctx &c, const std::vector<int> &d) { int k = 0; for (int i = 0; i < NOPS; i++) if (d[i]) { c.count(NAME[i]); k++; } if (k >= 3) c.nontrivial(); }

PBT_CASE(same, 4, "at least three different operations took effect") {
	Program p = gen(c, 14), other = gen(c, 3); int f1 = (int)c.weighted({3, 1, 1}), v = (int)c.draw(256); bool before = c.chance(1, 2);
	c.describe([&](std::ostream &o) { show(o, p); });
	std::vector<int> done; scribble(0); fill = 0; std::string a = go(p, &done, NULL);
	if (before) go(other, NULL, NULL);
	scribble(v ? v : 0xff); fill = f1 == 0 ? 256 : f1 == 1 ? 0xff : v; pad = 3; rng = v + 1; std::string b = go(p, NULL, NULL);
	if (a != b) c.fail("differs", "the same operations gave another result the second time, " + first_diff(a, b));
	tally(c, done);
}
PBT_CASE(freed, 4, "at least three different operations took effect") {
	Program p = gen(c, 14); if (getenv("REPRO_LOG")) show(std::cerr, p); c.describe([&](std::ostream &o) { show(o, p); });
	std::vector<int> done; std::string leaks; where.clear(); std::string log = go(p, &done, &leaks);
	if (!leaks.empty()) { want = first; go(p, NULL, NULL); want = -1; }
	if (!leaks.empty()) c.fail("leak from " + where, "still allocated after everything was freed:\n" + leaks + (getenv("REPRO_LOG") ? log : ""));
	tally(c, done);
}
PBT_CASE(allocator, 3, "at least three different operations took effect") {
	Program p = gen(c, 14); if (getenv("REPRO_LOG")) show(std::cerr, p); c.describe([&](std::ostream &o) { show(o, p); });
	std::vector<int> done; std::string a = go(p, &done, NULL), b; mine::Heap h; h.tag = 0x1234567890abcdefull; struct fsm_alloc al = {mine::f, mine::z, mine::m, mine::r, &h};
	{ Run r(p, &al); r.all(p); r.finish(); b = r.log; }
	if (a != b) c.fail("differs", "the same operations gave another result with an allocator of the caller's, " + first_diff(a, b));
	if (h.out) c.fail("leak", std::to_string(h.out) + " blocks of the caller's allocator were never given back");
	if (h.calls > 10) c.count("calls"); tally(c, done);
}
