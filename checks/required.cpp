// BUILD: variant=san
// Property: the required characters of a DFA are exactly the bytes that occur in every word it accepts.
#include "fsmx.hpp"
using namespace model; using namespace fsmx;

static bool nonempty_without(const Nfa &a, int byte) { // is a word without this byte accepted?
	std::vector<char> seen(a.n(), 0); std::vector<int> st{a.start}; seen[a.start] = 1;
	while (!st.empty()) { int x = st.back(); st.pop_back(); if (a.st[x].end) return true; for (auto &e : a.st[x].edges) { Bits b = e.first; if (byte >= 0) b.reset(byte); if (b.any() && !seen[e.second]) { seen[e.second] = 1; st.push_back(e.second); } } }
	return false;
}
static Bits bits_of(const uint64_t m[4]) { Bits b; for (int i = 0; i < 256; i++) if (m[i / 64] >> (i % 64) & 1) b.set(i); return b; }
static std::string show_bits(const Bits &b) { std::string s; for (int i = 0; i < 256; i++) if (b[i]) s += (char)i; return pbt::show(s); }

static void verify(pbt::Ctx &c, const Nfa &a) {
	c.describe([&](std::ostream &s) { s << dump(a); });
	Fsm f(build(c, a)); uint64_t m[4]; for (auto &x : m) x = c.draw(2) ? ~0ull : 0; size_t count = 12345;
	if (a.start < 0) { REQ(c, fsm_detect_required_characters(f, 0, m, &count) == FSM_DETECT_REQUIRED_CHARACTERS_ERROR_MISUSE, "required:nostart", dump(a)); return; }
	if (!nonempty_without(a, -1)) { // nothing matches: the answer is vacuous, only that there is one
		auto r = fsm_detect_required_characters(f, 0, m, &count); REQ(c, r == FSM_DETECT_REQUIRED_CHARACTERS_WRITTEN, "required:empty", "result " + std::to_string(r) + "\n" + dump(a));
		REQ(c, count == bits_of(m).count(), "required:count", dump(a)); return;
	}
	Bits want; for (int b = 0; b < 256; b++) if (!nonempty_without(a, b)) want.set(b);
	auto r = fsm_detect_required_characters(f, 0, m, c.chance(1, 4) ? NULL : &count);
	REQ(c, r == FSM_DETECT_REQUIRED_CHARACTERS_WRITTEN, "required:result", "result " + std::to_string(r) + "\n" + dump(a));
	Bits got = bits_of(m); std::string ctx = "got " + show_bits(got) + " expected " + show_bits(want) + "\n" + dump(a);
	REQ(c, got == want, (got & ~want).any() ? "required:extra" : "required:missing", ctx);
	REQ(c, count == 12345 || count == want.count(), "required:count", "count " + std::to_string(count) + " " + ctx);
	if (want.any()) { c.nontrivial(); c.count("some"); } else c.count("none");
	// step limits: the same answer or a refusal with nothing in the map, and once it answers it always does
	bool answered = false;
	for (size_t lim = 1; lim < 40; lim += c.range(1, 6)) {
		for (auto &x : m) x = 0x5555555555555555ull; size_t n2 = 0;
		auto q = fsm_detect_required_characters(f, lim, m, &n2);
		if (q == FSM_DETECT_REQUIRED_CHARACTERS_STEP_LIMIT_REACHED) {
			REQ(c, bits_of(m).none(), "required:limit:map", "limit " + std::to_string(lim) + " left " + show_bits(bits_of(m)) + "\n" + dump(a));
			REQ(c, !answered, "required:limit:monotonic", dump(a)); c.count("limited");
		} else { REQ(c, q == FSM_DETECT_REQUIRED_CHARACTERS_WRITTEN, "required:limit", dump(a)); REQ(c, bits_of(m) == want && n2 == want.count(), "required:limit:map", "limit " + std::to_string(lim) + " " + ctx); answered = true; }
	}
	// nothing is left behind
	uint64_t m2[4]; REQ(c, fsm_detect_required_characters(f, 0, m2, NULL) == FSM_DETECT_REQUIRED_CHARACTERS_WRITTEN && bits_of(m2) == want, "required:repeat", ctx);
	Nfa after = extract(c, f); require_equiv(c, a, after, CMP_LANG | CMP_IDS, "required:changed");
	fsm_state_t e; for (int i = 0; i < 2; i++) { std::string w = gen_word(c, a); REQ(c, exec(f, w, &e) == (int)accepts(a, w), "required:exec", ctx); }
}

PBT_CASE(random, 3, "at least one required character") {
	GenOpts o; o.dfa = true; o.ids = false; o.max_states = 8; o.must_start = false; Nfa a = gen_nfa(c, o); if (!a.n()) c.discard(); verify(c, a);
}
// few ends, narrow labels: most of these require something
PBT_CASE(narrow, 4, "at least one required character") {
	Nfa a; int n = c.range(2, 9); for (int i = 0; i < n; i++) a.add(); a.start = 0; a.st[n - 1].end = true; int alpha = c.range(2, 6);
	static const unsigned char sp[] = {'a', 'b', 0, 255, 127, 128, 63, 64}; int off = (int)c.draw(2);
	auto put = [&](int s, int t) { Bits u; for (auto &e : a.st[s].edges) u |= e.first; Bits b; int k = c.chance(1, 5) ? 2 : 1; while (k--) { int x = sp[(c.draw(alpha) + off * 2) % 8]; if (!u[x]) b.set(x); } if (b.any()) a.st[s].add(b, t); };
	for (int i = 0; i + 1 < n; i++) put(i, i + 1);
	int extra = (int)c.draw(2 * n); while (extra--) put((int)c.draw(n), (int)c.draw(n));
	if (c.chance(1, 4)) a.st[c.draw(n)].end = true;
	verify(c, a);
}
// deep: more states on one path than the initial stack
PBT_CASE(deep, 1, "a path of more than 16 states") {
	Nfa a; int n = c.range(15, 70); for (int i = 0; i < n; i++) a.add(); a.start = 0; a.st[n - 1].end = true; int alpha = c.range(1, 8);
	for (int i = 0; i + 1 < n; i++) { Bits b; b.set('a' + c.draw(alpha)); if (c.chance(1, 3)) b.set('m'); a.st[i].add(b, i + 1); }
	int extra = (int)c.draw(6); while (extra--) { int s = (int)c.draw(n), t = c.chance(1, 2) ? std::min(n - 1, s + 1 + (int)c.draw(5)) : (int)c.draw(s + 1); Bits u; for (auto &e : a.st[s].edges) u |= e.first; Bits b; int x = 'a' + c.draw(26); if (!u[x]) { b.set(x); a.st[s].add(b, t); } }
	if (c.chance(1, 4)) a.st[n / 2].end = true;
	verify(c, a);
}
