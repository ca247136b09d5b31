// BUILD: variant=san libs=-lpcre2-8
// Property: an accepted PCRE expression compiles to the language PCRE itself matches.
// Oracles: PCRE2 on generated near-match inputs, and on the shortest input that tells libfsm's DFA from an
// independent exact model of the generated expression (so that differences no sample would hit are found).
#include "rex.hpp"
#include "pcre2x.hpp"
using namespace model; using namespace fsmx; using namespace rx;

static void oracle(pbt::Ctx &c, const std::string &re, const P &tree, int flags, bool ic, bool da, bool ex, bool search = true) {
	c.describe([&](std::ostream &s) { s << "/" << pbt::show(re) << "/" << (ic ? "i" : "") << (da ? "s" : "") << (ex ? "x" : ""); });
	pcre2x::Re pc(re, ic, da, ex);
	if (!pc.code) { c.count("pcre2-rejects"); c.note(pc.error()); if (c.verbose) printf("pcre2 rejects %s: %s\n", pbt::show(re).c_str(), pc.error().c_str()); c.discard(); }
	struct re_err err; Fsm f(rex::comp(RE_PCRE, re, flags, &err));
	if (!f.f) {
		if (err.e == RE_EUNSUPPORTED) { c.count("unsupported"); c.discard(); }
		c.fail("reject", "libre rejects " + pbt::show(re) + ": " + re_strerror(err.e) + " at " + std::to_string(err.start.byte));
	}
	rex::determinise(c, f);
	std::string ctx = "expression " + pbt::show(re) + " flags " + std::to_string(flags);
	int yes = 0, no = 0; bool have = true; Nfa m; try { m = to_nfa(tree, search); } catch (TooBig &) { have = false; }
	auto quirk = [&](const std::string &w, int want) { if (!have || accepts(m, w) == !!want) return false; c.count("pcre-alone"); if (getenv("MODEL_STRICT")) c.fail("pcre-alone", ctx + " input " + pbt::show(w)); return true; }; // PCRE alone against libfsm and the model
	for (int i = 0; i < 8; i++) {
		std::string w = subject(c, tree); int want = pc.match(w); if (want < 0) continue;
		fsm_state_t e; int got = exec(f, w, &e); if (got != want && quirk(w, want)) continue; REQ(c, got == want, want ? "missed" : "matched", ctx + "\ninput " + pbt::show(w) + ": PCRE " + (want ? "matches" : "does not match") + ", libfsm says " + std::to_string(got));
		(want ? yes : no)++;
	}
	try {
		if (!have) throw TooBig(); Nfa g = extract(c, f); std::string w;
		if (!equivalent(m, g, CMP_LANG, &w, 20000)) {
			int want = pc.match(w); fsm_state_t e; int got = exec(f, w, &e);
			if (want >= 0 && got != want && !quirk(w, want)) c.fail(want ? "missed" : "matched", ctx + "\ninput " + pbt::show(w) + ": PCRE " + (want ? "matches" : "does not match") + ", libfsm says " + std::to_string(got));
			c.count("model-differs"); if (getenv("MODEL_STRICT")) c.fail("model", ctx + " word " + pbt::show(w) + " pcre " + std::to_string(want) + " libfsm " + std::to_string(got));
		} else c.count("equivalent");
		if (!empty_lang(g) && yes + no > 0) c.nontrivial();
	} catch (TooBig &) { c.count("too-big"); if (yes && no) c.nontrivial(); }
	if (has_anchor(tree)) c.count("anchored"); if (yes) c.count("some-match"); if (no) c.count("some-nonmatch");
}
// Left out of the search (see DESIGN.md, known findings under P23): anchors that libfsm documents it handles only in part.
static void shape(pbt::Ctx &c, const P &t) {
	if (mixed_ends(t)) c.discard();
	bool td = tidy(t); if (!td && (crossed(t) || n_anchors(t) > 2 || repeated_anchor(t, n_anchors(t) > 1))) c.discard();
	const char *e = getenv("TIDY"); if (e && td != (*e == '1')) c.discard(); c.count(td ? "tidy" : "untidy");
}
static void go(pbt::Ctx &c, Opts o) {
	Gen g(c, o); int flags = 0; bool ic = c.chance(1, 5), da = c.chance(1, 5), ex = c.chance(1, 12);
	g.ic = ic; g.dotall = da; g.ext = ex; if (ic) flags |= RE_ICASE; if (da) flags |= RE_SINGLE; if (ex) flags |= RE_EXTENDED;
	P t = g.run(); if (g.txt.size() > 400) c.discard(); shape(c, t);
	oracle(c, g.txt, t, flags, ic, da, ex);
}
PBT_CASE(grammar, 8, "the compiled language is not empty and inputs were compared with PCRE2") { Opts o; go(c, o); }
PBT_CASE(anchors, 6, "as grammar; small expressions dense in anchors, groups, repeats and empty alternatives") {
	Opts o; o.classes = false; o.escapes = c.chance(1, 4); o.inline_flags = false; o.width = 3; o.depth = 3; o.max_count = 3;
	Gen g(c, o); std::function<P(int)> alts; // own generator: anchors with high weight
	std::function<P(int)> piece = [&](int d) -> P {
		P a; switch (c.weighted({5, 4, 4, d > 0 ? 5u : 0u, 1})) {
		case 0: { int b = "ab\nc"[c.draw(c.chance(1, 3) ? 4 : 2)]; g.txt += b == '\n' ? "\\n" : std::string(1, (char)b); a = mkbyte(b); break; }
		case 1: a = mk(Node::ANCHOR); a->anchor = A_START; g.txt += "^"; break;
		case 2: a = mk(Node::ANCHOR); a->anchor = A_ENDNL; g.txt += "$"; if (c.chance(1, 4)) { g.txt.pop_back(); g.txt += "\\z"; a->anchor = A_END; } break;
		case 3: { a = mk(Node::GROUP); bool cap = c.chance(1, 2); g.txt += cap ? "(" : "(?:"; a->k.push_back(alts(d - 1)); g.txt += ")"; break; }
		default: { g.txt += "."; Bits b; b.set(); b.reset('\n'); a = mkset(b); } }
		if (a->t == Node::ANCHOR) return a;
		switch (c.weighted({8, 2, 1, 2, 1})) { case 1: g.txt += "*"; return mkrep(a, 0, -1); case 2: g.txt += "+"; return mkrep(a, 1, -1); case 3: g.txt += "?"; return mkrep(a, 0, 1);
		case 4: { int lo = c.range(0, 2), hi = lo + c.range(0, 2); g.txt += "{" + std::to_string(lo) + "," + std::to_string(hi) + "}"; return mkrep(a, lo, hi); } }
		return a; };
	alts = [&](int d) { int n = c.chance(2, 5) ? c.range(2, 3) : 1; P al = mk(Node::ALT);
		for (int i = 0; i < n; i++) { if (i) g.txt += "|"; P ct = mk(Node::CAT); int k = c.range(0, 4); for (int j = 0; j < k; j++) ct->k.push_back(piece(d)); al->k.push_back(ct); } return al; };
	P t = alts(3); if (g.txt.size() > 120) c.discard(); shape(c, t); oracle(c, g.txt, t, 0, false, false, false);
}
// (a|$)(b|^): an end anchor before a start anchor, each an alternative to something that consumes input.
// Only the plain form is searched (an optional prefix, then the two alternations); see k4 to k6 for the others.
PBT_CASE(pincer, 2, "as grammar; two alternations that consume input or hold an anchor, the end anchor before the start anchor or the other way round") {
	std::string txt; auto lit = [&](int lo, int hi, bool plain) { P ct = mk(Node::CAT); int k = c.range(lo, hi); for (int j = 0; j < k; j++) { int b = "abc"[c.draw(c.chance(1, 6) ? 3 : 2)]; P x;
			if (c.chance(1, 10)) { txt += "."; Bits s; s.set(); s.reset('\n'); x = mkset(s); } else { txt += (char)b; x = mkbyte(b); }
			if (!plain) switch (c.weighted({8, 1, 1, 1})) { case 1: txt += "*"; x = mkrep(x, 0, -1); break; case 2: txt += "+"; x = mkrep(x, 1, -1); break; case 3: txt += "?"; x = mkrep(x, 0, 1); break; }
			ct->k.push_back(x); } return ct; };
	bool first = c.chance(1, 4), pure = !first;
	auto anchored = [&](int kind) { P ct = mk(Node::CAT); if (!pure && c.chance(1, 8)) ct->k.push_back(lit(1, 1, false)); P a = mk(Node::ANCHOR); a->anchor = kind ? A_START : A_ENDNL; txt += kind ? "^" : "$"; ct->k.push_back(a); if (!pure && c.chance(1, 8)) ct->k.push_back(lit(1, 1, false)); return ct; };
	auto group = [&](int kind) { P al = mk(Node::ALT); int n = c.range(1, 2) + 1, at = c.range(0, n - 1); bool cap = c.chance(1, 2); txt += cap ? "(" : "(?:";
		for (int i = 0; i < n; i++) { if (i) txt += "|"; al->k.push_back(i == at ? anchored(kind) : lit(!pure && c.chance(1, 8) ? 0 : 1, 2, pure)); } txt += ")"; P g = mk(Node::GROUP); g->k.push_back(al);
		if (!pure && c.chance(1, 10)) { txt += "?"; return mkrep(g, 0, 1); } return g; };
	P top = mk(Node::CAT); if (c.chance(1, 4)) top->k.push_back(lit(1, 2, pure));
	top->k.push_back(group(first)); if (!pure && c.chance(1, 6)) top->k.push_back(lit(1, 1, false)); top->k.push_back(group(!first)); if (!pure && c.chance(1, 4)) top->k.push_back(lit(1, 2, false));
	if (!pure) shape(c, top); oracle(c, txt, top, 0, false, false, false);
}
PBT_CASE(twins, 4, "as grammar; alternatives that are copies of one another but for one bound, range end, byte or element") {
	Opts o; Gen g(c, o); int flags = 0; bool ic = c.chance(1, 6); if (ic) { g.ic = true; flags |= RE_ICASE; }
	P t = g.twins(); if (g.txt.size() > 300 || expanded(t) > 250) c.discard(); shape(c, t); oracle(c, g.txt, t, flags, ic, false, false);
}
PBT_CASE(classes, 3, "as grammar; mostly bracket expressions and class escapes") {
	Opts o; o.groups = c.chance(1, 3); o.width = 3; Gen g(c, o); int flags = 0; bool ic = c.chance(1, 3); g.ic = ic; if (ic) flags = RE_ICASE;
	std::vector<P> v; int n = c.range(1, 3); g.txt += "^"; { P a = mk(Node::ANCHOR); a->anchor = A_START; v.push_back(a); }
	for (int i = 0; i < n; i++) { if (c.chance(4, 5)) v.push_back(g.bracket()); else { bool nq; v.push_back(g.piece(1, &nq)); } }
	g.txt += "\\z"; { P a = mk(Node::ANCHOR); a->anchor = A_END; v.push_back(a); }
	P t = mkcat(v); shape(c, t); oracle(c, g.txt, t, flags, ic, false, false);
}
PBT_CASE(counted, 2, "as grammar; nested and large counted repetition") {
	Opts o; o.max_count = 12; o.width = 2; o.classes = c.chance(1, 3); o.inline_flags = false; go(c, o);
}

// Recorded defects (known_findings.jsonl): each names one expression and input; everything else is searched by the subs above.
PBT_CASE(recorded, 1, "every case") {
	static const struct { const char *re; std::string in; } K[] = { {"a$a*\\z", "a\n"}, {"(a|.$){2}", std::string(1, 0)}, {"(?:^|.){2}", ""}, {"^$(?:^a*$$|$)", "a"}, {"(?:a|$)(?:^)?a", "a"}, {"($|a)(^b|b)", "b"}, {"(a|$)(\\n|^)", std::string("\0\n", 2)} };
	int i = (int)c.draw(7); c.describe([&](std::ostream &s) { s << K[i].re << " on " << pbt::show(K[i].in); }); c.nontrivial();
	pcre2x::Re pc(K[i].re, false, false, false); Fsm f(rex::comp(RE_PCRE, K[i].re, 0)); if (!f.f) c.discard(); rex::determinise(c, f);
	int want = pc.match(K[i].in); fsm_state_t e; int got = exec(f, K[i].in, &e); REQ(c, got == want, "k" + std::to_string(i ? i : 7), std::string("expression ") + K[i].re + " input " + pbt::show(K[i].in) + ": PCRE " + std::to_string(want) + ", libfsm " + std::to_string(got));
}
