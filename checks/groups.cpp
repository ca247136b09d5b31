// BUILD: variant=san
// Property: interpolation substitutes exactly the groups, rejects exactly bad references, stays inside its buffer.
// Oracle: an independent two-pass interpreter (tokenise, then substitute); the output buffer is exactly sized on the
// heap under AddressSanitizer, so any write outside it is caught.
#include "rex.hpp"
#include <memory>
struct Tok { int kind; std::string lit; std::string num; size_t at, end; }; // 0 literal 1 escape char 2 group 3 bad
static std::vector<Tok> lex(const std::string &f, char esc) {
	std::vector<Tok> v; size_t i = 0;
	while (i < f.size()) {
		if (f[i] != esc) { v.push_back({0, std::string(1, f[i]), "", i, i + 1}); i++; continue; }
		size_t j = i + 1; if (j < f.size() && f[j] == esc) { v.push_back({1, std::string(1, esc), "", i, j + 1}); i = j + 1; continue; }
		while (j < f.size() && f[j] >= '0' && f[j] <= '9') j++;
		if (j == i + 1) { v.push_back({3, "", "", i, j}); return v; } v.push_back({2, "", f.substr(i + 1, j - i - 1), i, j}); i = j;
	} return v; }
PBT_CASE(interpolate, 6, "the template has at least one reference or escape") {
	char esc = "\\$%&~\x80\xff@"[c.weighted({6, 6, 1, 1, 1, 1, 1, 1})]; std::string f; int n = (int)c.small(14);
	unsigned groupc = (unsigned)c.draw(c.chance(1, 8) ? 120 : 5);
	for (int i = 0; i < n; i++) switch (c.weighted({6, 6, 2, 1, 3})) {
		case 0: f += "ab1"[c.draw(3)]; break;
		case 1: { f += esc; int z = c.chance(1, 8) ? c.range(1, 3) : 0; while (z--) f += '0'; f += std::to_string(c.draw(groupc + 2 + (c.chance(1, 4) ? 300 : 0))); break; }
		case 2: f += esc; f += esc; break;
		case 3: f += esc; { int k = c.range(0, 12); while (k--) f += (char)('0' + c.draw(10)); } break;
		default: { char ch = (char)c.range(1, 255); f += ch; break; } }
	if (c.chance(1, 40)) { static const char *big[] = {"4294967296", "4294967297", "42949672961", "18446744073709551616", "18446744073709551617", "2147483648", "00000000000000000001"}; f += esc; f += big[c.draw(7)]; }
	std::vector<std::string> gs; std::vector<const char *> gp; auto val = [&]() { std::string s; int k = (int)c.small(8); while (k--) s += "xy$\\0"[c.draw(5)]; if (c.chance(1, 6)) s += esc; return s; };
	std::string g0 = val(); for (unsigned i = 0; i < groupc; i++) gs.push_back(val()); for (auto &s : gs) gp.push_back(s.c_str());
	std::string non = val(); bool has_non = c.chance(1, 2);
	std::vector<Tok> v = lex(f, esc); std::string out; const Tok *bad = nullptr;
	for (auto &t : v) { if (t.kind == 3) { bad = &t; break; } if (t.kind < 2) { out += t.lit; continue; }
		std::string d = t.num; while (d.size() > 1 && d[0] == '0') d.erase(0, 1); bool exists = d.size() <= 6 && (unsigned)atoi(d.c_str()) <= groupc;
		if (exists) { unsigned k = (unsigned)atoi(d.c_str()); out += k ? gs[k - 1] : g0; } else if (has_non) out += non; else { bad = &t; break; } }
	int mode = (int)c.weighted({5, 2, 3, 2}); // ample, none, exact, short
	size_t cap = mode == 0 ? out.size() + 1 + c.draw(20) : mode == 2 ? out.size() + 1 : mode == 3 ? c.draw(out.size() + 1) : 0; bool null = mode == 1;
	bool want = !bad && (null || cap > out.size());
	c.describe([&](std::ostream &o) { o << "esc " << pbt::show(std::string(1, esc)) << " fmt " << pbt::show(f) << " $0=" << pbt::show(g0) << " groups " << groupc; for (unsigned i = 0; i < groupc && i < 6; i++) o << " " << pbt::show(gs[i]); if (has_non) o << " else " << pbt::show(non); o << " room " << (null ? -1 : (int)cap); });
	for (auto &t : v) if (t.kind) c.nontrivial();
	std::unique_ptr<char[]> buf(null ? nullptr : new char[cap ? cap : 1]); if (!null) memset(buf.get(), 0x55, cap); char *tail = nullptr;
	if (!null && cap == 0) { buf.reset(new char[1]); }
	struct re_pos s, e; s.byte = 7777; e.byte = 7777; bool ps = c.chance(7, 8), pe = c.chance(7, 8); (void)tail;
	char *o = null ? nullptr : cap ? buf.get() : buf.get() + 1; // zero room: one past the end, any write is out of bounds
	bool r = re_interpolate_groups(f.c_str(), esc, g0.c_str(), groupc, gp.data(), has_non ? non.c_str() : nullptr, o, null ? 0 : cap, ps ? &s : nullptr, pe ? &e : nullptr);
	std::string ctx = "fmt " + pbt::show(f);
	REQ(c, r == want, want ? "rejected" : "accepted", ctx + ": returned " + std::to_string(r) + ", expected " + std::to_string(want));
	if (r) { if (!null) REQ(c, out.size() < cap && !memcmp(buf.get(), out.c_str(), out.size() + 1), "text", ctx + ": expected " + pbt::show(out) + ", got " + pbt::show(std::string(buf.get(), strnlen(buf.get(), cap)))); if (!null) for (size_t i = out.size() + 1; i < cap; i++) REQ(c, buf[i] == 0x55, "beyond", ctx + ": bytes after the terminator were written"); c.count("ok"); }
	else { if (!null && cap) REQ(c, memchr(buf.get(), 0, cap), "unterminated", ctx + ": no terminator in the buffer after an error");
		bool full = !null && cap <= out.size(); // ran out of room before the bad reference, perhaps
		if (ps && pe) REQ(c, s.byte <= e.byte && e.byte <= f.size(), "range", ctx + ": error span " + std::to_string(s.byte) + ".." + std::to_string(e.byte));
		if (bad && !full) { if (ps) REQ(c, s.byte == bad->at, "start", ctx + ": error starts at " + std::to_string(s.byte) + ", expected " + std::to_string(bad->at)); if (pe) REQ(c, e.byte == bad->end, "end", ctx + ": error ends at " + std::to_string(e.byte) + ", expected " + std::to_string(bad->end)); }
		c.count(bad ? "bad-reference" : "overflow"); }
	if (null || !r) return;
	// the documented way to size the output: syntax check without output agrees
	REQ(c, re_interpolate_groups(f.c_str(), esc, g0.c_str(), 0, nullptr, "", nullptr, 0, nullptr, nullptr), "precheck", ctx + ": accepted with groups, rejected by the syntax pre-check");
}
PBT_CASE(bound, 1, "the template has a reference") { // "output is at most as long as the template when every value is empty"
	std::string f; int n = (int)c.small(12); for (int i = 0; i < n; i++) { switch (c.draw(3)) { case 0: f += "ab"[c.draw(2)]; break; case 1: f += "\\" + std::to_string(c.draw(30)); break; default: f += "\\\\"; } }
	c.describe([&](std::ostream &o) { o << pbt::show(f); }); for (auto &t : lex(f, '\\')) if (t.kind == 2) c.nontrivial();
	std::unique_ptr<char[]> b(new char[f.size() + 1]); bool r = re_interpolate_groups(f.c_str(), '\\', "", 0, nullptr, "", b.get(), f.size() + 1, nullptr, nullptr);
	REQ(c, r, "bound", "output longer than the template " + pbt::show(f)); REQ(c, strlen(b.get()) <= f.size(), "bound", "longer");
}
