// BUILD: variant=san libs=-rdynamic
// Property: code generated in every non-C target language is accepted by that language's toolchain and matches exactly the
// words the automaton accepts, with the ids of the accepting state where the language reports them.
// Each case prints a batch of automata in one language, builds them together and runs words::words() through each.
#include "codegen.hpp"
#include <memory>
#include <dlfcn.h>
using namespace model; using namespace fsmx; using namespace codegen;

struct Gen { enum fsm_print_lang lang; struct fsm_options o; Nfa a; std::string prefix, pkg, text; std::vector<std::string> ws, given; bool args = false; mutable std::shared_ptr<Tab> tab; };
static int h_args(FILE *f, const struct fsm_options *, void *, void *) { fprintf(f, "extra int"); return 0; }
static std::string gocache; static bool large;
static const char *name(enum fsm_print_lang l) { switch (l) { case FSM_PRINT_GO: return "go"; case FSM_PRINT_AMD64_GO: return "amd64_go"; case FSM_PRINT_AMD64_ATT: return "amd64_att"; case FSM_PRINT_AMD64_NASM: return "amd64_nasm"; case FSM_PRINT_RUST: return "rust"; case FSM_PRINT_LLVM: return "llvm"; case FSM_PRINT_SH: return "sh"; case FSM_PRINT_AWK: return "awk"; default: return "?"; } }
static std::string describe(const Gen &g) { return std::string(name(g.lang)) + " " + show_opt(g.o) + (g.pkg.size() ? " package " + g.pkg : "") + "\n"; }
static bool single(const Gen &g) { return g.o.ambig == AMBIG_EARLIEST || g.o.ambig == AMBIG_ERROR; }
static bool is_asm(enum fsm_print_lang l) { return l == FSM_PRINT_AMD64_ATT || l == FSM_PRINT_AMD64_NASM || l == FSM_PRINT_AMD64_GO; }
static Gen gen(pbt::Ctx &c, enum fsm_print_lang lang) {
	Gen g; g.lang = lang; memset(&g.o, 0, sizeof g.o); struct fsm_options &o = g.o; static const enum fsm_ambig am[] = {AMBIG_NONE, AMBIG_MULTIPLE, AMBIG_EARLIEST, AMBIG_ERROR}; o.ambig = is_asm(lang) ? AMBIG_NONE : am[c.draw(4)]; o.comments = c.chance(1, 2); o.always_hex = c.chance(1, 4); o.anonymous_states = c.chance(1, 6); o.consolidate_edges = c.chance(1, 6); o.group_edges = c.chance(1, 6);
	switch (lang) { case FSM_PRINT_SH: case FSM_PRINT_AWK: o.io = FSM_IO_STR; break; case FSM_PRINT_AMD64_ATT: case FSM_PRINT_AMD64_NASM: o.io = FSM_IO_PAIR; break; case FSM_PRINT_GO: case FSM_PRINT_AMD64_GO: o.io = c.chance(1, 2) ? FSM_IO_STR : FSM_IO_PAIR; break; default: o.io = (enum fsm_io)c.draw(3); }
	if (large) { o.comments = 0; g.a = gen_large(c, g.given, single(g), o.ambig == AMBIG_ERROR, 150); if (g.a.n() > 256) c.nontrivial(); } else g.a = gen_dfa(c, c.chance(1, 8) ? 20 : 7, single(g), o.ambig == AMBIG_ERROR); return g;
}
// cut a word to what can be passed: C strings stop at NUL; Rust's &str is UTF-8
static bool utf8(const std::string &s) { for (size_t i = 0; i < s.size();) { unsigned char b = s[i]; size_t n = b < 0x80 ? 1 : b >= 0xc2 && b < 0xe0 ? 2 : b >= 0xe0 && b < 0xf0 ? 3 : b >= 0xf0 && b < 0xf5 ? 4 : 0; if (!n || i + n > s.size()) return false; for (size_t k = 1; k < n; k++) if (((unsigned char)s[i + k] & 0xc0) != 0x80) return false; unsigned char d = n > 1 ? s[i + 1] : 0; if ((b == 0xe0 && d < 0xa0) || (b == 0xed && d > 0x9f) || (b == 0xf0 && d < 0x90) || (b == 0xf4 && d > 0x8f)) return false; i += n; } return true; }
static std::string to_utf8(const std::string &s) { std::string r; for (unsigned char b : s) if (b < 0x80) r += (char)b; else { r += (char)(0xc0 | b >> 6); r += (char)(0x80 | (b & 0x3f)); } return r; }
static void fill_words(pbt::Ctx &c, Gen &g, bool bytes, size_t max) {
	for (auto &w : large ? g.given : words(c, g.a, bytes, max)) { std::string x = w; if (g.lang == FSM_PRINT_SH || (g.o.io == FSM_IO_STR && (g.lang == FSM_PRINT_LLVM || g.lang == FSM_PRINT_AWK))) { if (x.find('\0') != std::string::npos) x.resize(x.find('\0')); } if (g.lang == FSM_PRINT_RUST && g.o.io == FSM_IO_STR && !utf8(x)) x = to_utf8(x); g.ws.push_back(x); }
}
static void generate(pbt::Ctx &c, Gen &g, const std::string &prefix) { g.prefix = prefix; g.o.prefix = g.prefix.c_str(); g.o.package_prefix = g.pkg.size() ? g.pkg.c_str() : NULL; Fsm f(build(c, g.a)); struct fsm_hooks h; memset(&h, 0, sizeof h); if (g.args) h.args = h_args; g.text = print(c, f, g.o, g.lang, g.args ? &h : NULL); }
static void check(pbt::Ctx &c, const Gen &g, const std::string &w, bool got, const std::vector<unsigned> *ids, bool &acc, bool &rej) {
	if (!g.tab || g.tab->a != &g.a) g.tab = std::make_shared<Tab>(g.a); Label want = g.tab->run(w); (want.end ? acc : rej) = true; std::string t = name(g.lang);
	auto ctx = [&]() { std::string s = "word " + pbt::show(w) + " expected " + show_label(want) + " got " + (got ? "accept" : "reject"); if (ids) { s += " ids"; for (unsigned i : *ids) s += " " + std::to_string(i); } return s + "\n" + describe(g) + dump(g.a) + g.text; };
	REQ(c, got == want.end, t + (want.end ? ":rejects" : ":accepts"), ctx());
	if (want.end && ids && g.o.ambig == AMBIG_MULTIPLE) REQ(c, *ids == std::vector<unsigned>(want.ids.begin(), want.ids.end()), t + ":ids", ctx());
	if (want.end && ids && single(g)) REQ(c, ids->size() == 1 && (*ids)[0] == *want.ids.begin(), t + ":id", ctx());
}
static void shell(pbt::Ctx &c, const std::string &cmd, const std::string &tag, const std::vector<Gen> &gs) {
	std::string e = c.scratch + "/err"; int r = system(("( " + cmd + " ) >" + e + " 2>&1").c_str()); if (r != 0) { std::string d; for (auto &g : gs) { d += describe(g) + dump(g.a); if (d.size() < 20000) d += g.text; } REQ(c, false, tag, cmd + "\n" + read_file(e, 3000) + "\n" + d); }
}
static void finish(pbt::Ctx &c, bool acc, bool rej) { if (acc && rej) c.nontrivial(); }

// ---- in process: assembly and LLVM
PBT_CASE(assembly, 6, "a matcher that accepts one word and rejects another") {
	std::vector<Gen> gs; int k = large ? 2 : c.range(1, 12); for (int i = 0; i < k; i++) gs.push_back(gen(c, c.chance(1, 2) ? FSM_PRINT_AMD64_ATT : FSM_PRINT_AMD64_NASM));
	c.describe([&](std::ostream &o) { for (auto &g : gs) o << describe(g) << dump(g.a); });
	std::string cmd = "cd " + c.scratch, objs;
	for (int i = 0; i < k; i++) { Gen &g = gs[i]; generate(c, g, "p" + std::to_string(i) + "_"); std::string f = "a" + std::to_string(i); bool att = g.lang == FSM_PRINT_AMD64_ATT; write_file(c.scratch + "/" + f + (att ? ".s" : ".asm"), g.text); cmd += att ? " && as --fatal-warnings -o " + f + ".o " + f + ".s" : " && nasm -f elf64 -o " + f + ".o " + f + ".asm"; objs += " " + f + ".o"; }
	shell(c, cmd, "asm:assemble", gs); shell(c, "cd " + c.scratch + " && gcc -shared -Wl,-z,noexecstack -o m.so" + objs, "asm:link", gs);
	void *h = dlopen((c.scratch + "/m.so").c_str(), RTLD_NOW | RTLD_LOCAL); REQ(c, h, "asm:load", dlerror()); static Guarded mem; bool acc = false, rej = false;
	for (auto &g : gs) { auto fn = (int (*)(const char *, size_t))dlsym(h, (g.prefix + "match").c_str()); REQ(c, fn, "asm:symbol", g.text); fill_words(c, g, true, 1500); for (auto &w : g.ws) for (int at = 0; at < 2; at++) check(c, g, w, fn(at ? mem.at_start(w.data(), w.size()) : mem.at_end(w.data(), w.size()), w.size()) != 0, NULL, acc, rej); }
	dlclose(h); finish(c, acc, rej);
}
struct Str { const unsigned char *p, *e; int eofs; };
static int str_getc(void *o) { Str *s = (Str *)o; if (s->p == s->e) { s->eofs++; return EOF; } return *s->p++; }
struct R2 { bool ok; unsigned id; }; struct RM { const unsigned *ids; int64_t n; };
PBT_CASE(llvm, 3, "a matcher that accepts one word and rejects another") {
	std::vector<Gen> gs; int k = large ? 1 : c.range(1, 6); for (int i = 0; i < k; i++) gs.push_back(gen(c, FSM_PRINT_LLVM)); const char *opt = c.chance(1, 2) ? "-O0" : "-O2";
	c.describe([&](std::ostream &o) { o << opt << "\n"; for (auto &g : gs) o << describe(g) << dump(g.a); });
	std::string cmd = "cd " + c.scratch + " && clang -Wno-override-module -fPIC -shared " + opt + " -o m.so";
	for (int i = 0; i < k; i++) { Gen &g = gs[i]; generate(c, g, c.chance(1, 2) ? "p" + std::to_string(i) + "." : "p" + std::to_string(i) + "_"); std::string f = "a" + std::to_string(i) + ".ll"; write_file(c.scratch + "/" + f, g.text); cmd += " " + f; }
	shell(c, cmd, "llvm:compile", gs); void *h = dlopen((c.scratch + "/m.so").c_str(), RTLD_NOW | RTLD_LOCAL); REQ(c, h, "llvm:load", dlerror()); static Guarded mem; bool acc = false, rej = false;
	for (auto &g : gs) {
		void *fn = dlsym(h, (g.prefix + "main").c_str()); REQ(c, fn, "llvm:symbol", g.text); fill_words(c, g, true, 1500);
		for (auto &w : g.ws) for (int at = 0; at < (g.o.io == FSM_IO_PAIR ? 2 : 1); at++) {
			Str st{(const unsigned char *)w.data(), (const unsigned char *)w.data() + w.size(), 0}; void *x, *y = nullptr; if (g.o.io == FSM_IO_GETC) { x = (void *)str_getc; y = &st; } else if (g.o.io == FSM_IO_STR) x = mem.at_end(w.c_str(), w.size() + 1); else { char *m = at ? mem.at_start(w.data(), w.size()) : mem.at_end(w.data(), w.size()); x = m; y = m + w.size(); }
			bool got; std::vector<unsigned> ids; if (g.o.ambig == AMBIG_NONE) got = ((bool (*)(void *, void *))fn)(x, y);
			// { i1, i32 } comes back in al and edx, { ptr, i64 } in rax and rdx
			else if (single(g)) { unsigned long a, d; asm volatile("call *%[f]" : "=a"(a), "=d"(d), "+D"(x), "+S"(y) : [f] "r"(fn) : "rcx", "r8", "r9", "r10", "r11", "memory", "cc"); got = a & 1; ids.push_back((unsigned)d); }
			else { RM r = ((RM (*)(void *, void *))fn)(x, y); got = r.n >= 0; REQ(c, r.n >= -1 && r.n < 100, "llvm:count", std::to_string(r.n) + "\n" + g.text); if (got) ids.assign(r.ids, r.ids + r.n); }
			check(c, g, w, got, &ids, acc, rej); REQ(c, st.eofs <= 1, "llvm:getc", "fsm_getc is called again after the end of input");
		}
	}
	dlclose(h); finish(c, acc, rej);
}
// ---- programs: words are sent as (count, (length, bytes)*) per matcher; answers come back as (matched, count, ids)
static void put32(std::string &s, uint32_t v) { for (int i = 0; i < 4; i++) s += (char)(v >> 8 * i); }
static void exchange(pbt::Ctx &c, std::vector<Gen> &gs, const std::string &tag, size_t max) {
	std::string in; for (auto &g : gs) { fill_words(c, g, true, max); put32(in, (uint32_t)g.ws.size()); for (auto &w : g.ws) { put32(in, (uint32_t)w.size()); in += w; } }
	write_file(c.scratch + "/in", in); shell(c, "cd " + c.scratch + " && timeout 10 ./prog in out", tag + ":run", gs); std::string out = read_file(c.scratch + "/out", (size_t)1 << 28); size_t at = 0; bool acc = false, rej = false, ok = true;
	auto get = [&]() -> uint32_t { if (at + 4 > out.size()) { ok = false; return 0; } uint32_t v = 0; for (int i = 0; i < 4; i++) v |= (uint32_t)(unsigned char)out[at++] << 8 * i; return v; };
	for (auto &g : gs) for (auto &w : g.ws) { bool m = get() != 0; uint32_t n = get(); REQ(c, ok && n < 1000, "harness", "short answer"); std::vector<unsigned> ids; while (n--) ids.push_back(get()); check(c, g, w, m, &ids, acc, rej); }
	finish(c, acc, rej);
}
PBT_CASE(rust, 2, "a matcher that accepts one word and rejects another") {
	std::vector<Gen> gs; int k = large ? 2 : c.range(1, 12); for (int i = 0; i < k; i++) gs.push_back(gen(c, FSM_PRINT_RUST)); c.describe([&](std::ostream &o) { for (auto &g : gs) o << describe(g) << dump(g.a); });
	std::string s = "use std::io::Write;\nfn get(d: &[u8], at: &mut usize) -> usize { let v = u32::from_le_bytes([d[*at], d[*at + 1], d[*at + 2], d[*at + 3]]); *at += 4; v as usize }\n", m = "fn main() {\n let a: Vec<String> = std::env::args().collect(); let d = std::fs::read(&a[1]).unwrap(); let mut at = 0usize; let mut o: Vec<u8> = Vec::new();\n";
	for (int i = 0; i < k; i++) {
		Gen &g = gs[i]; bool pre = c.chance(3, 4); std::string p = "P" + std::to_string(i); generate(c, g, pre ? "x_" : "fsm_"); if (!pre) { g.o.prefix = NULL; Fsm f(build(c, g.a)); g.text = print(c, f, g.o, g.lang); }
		s += "#[allow(warnings)] mod " + p + " {\n" + g.text + "}\n"; std::string arg = g.o.io == FSM_IO_GETC ? "w.iter().copied()" : g.o.io == FSM_IO_STR ? "std::str::from_utf8(w).unwrap()" : "w";
		m += " for _ in 0..get(&d, &mut at) { let n = get(&d, &mut at); let w = &d[at..at + n]; at += n; match " + p + "::" + g.prefix + "main(" + arg + ") { None => { o.extend_from_slice(&[0u8; 8]); }, Some(x) => { o.extend_from_slice(&1u32.to_le_bytes()); " + (g.o.ambig == AMBIG_NONE ? "let () = x; let v: &[u32] = &[];" : single(g) ? "let y: u32 = x; let v: &[u32] = &[y];" : "let v: &'static [u32] = x;") + " o.extend_from_slice(&(v.len() as u32).to_le_bytes()); for i in v { o.extend_from_slice(&i.to_le_bytes()); } } } }\n";
	}
	m += " std::fs::File::create(&a[2]).unwrap().write_all(&o).unwrap();\n}\n"; write_file(c.scratch + "/m.rs", "#![allow(warnings)]\n" + s + m); shell(c, "cd " + c.scratch + " && rustc --edition 2021 -o prog m.rs", "rust:compile", gs); exchange(c, gs, "rust", 800);
}
PBT_CASE(golang, 3, "a matcher that accepts one word and rejects another") {
	std::vector<Gen> gs; int k = large ? 2 : c.range(1, 10); for (int i = 0; i < k; i++) { gs.push_back(gen(c, c.chance(1, 2) ? FSM_PRINT_GO : FSM_PRINT_AMD64_GO)); if (c.chance(1, 3)) gs.back().pkg = "q" + std::to_string(i); gs.back().args = gs.back().lang == FSM_PRINT_GO && c.chance(1, 6); } c.describe([&](std::ostream &o) { for (auto &g : gs) o << describe(g) << dump(g.a); });
	std::string d = c.scratch + "/g", m = "\nfunc get() int { v := int(d[at]) | int(d[at+1])<<8 | int(d[at+2])<<16 | int(d[at+3])<<24; at += 4; return v }\nfunc put(v uint) { o = append(o, byte(v), byte(v>>8), byte(v>>16), byte(v>>24)) }\nvar d, o []byte\nvar at int\nfunc main() {\n d, _ = os.ReadFile(os.Args[1])\n", imp = "package main\nimport \"os\"\n";
	shell(c, "rm -rf " + d + " && mkdir " + d, "harness", gs); write_file(d + "/go.mod", "module x\ngo 1.27\n");
	for (int i = 0; i < k; i++) {
		Gen &g = gs[i]; std::string p = "P" + std::to_string(i), arg = g.o.io == FSM_IO_STR ? "string(w)" : "w"; generate(c, g, p); std::string pk = (g.pkg.size() ? g.pkg : p) + "fsm", dir = d + "/k" + std::to_string(i); shell(c, "mkdir " + dir, "harness", gs); imp += "import k" + std::to_string(i) + " \"x/k" + std::to_string(i) + "\"\n"; std::string fn = "k" + std::to_string(i) + "." + p + "Match(" + arg + (g.args ? ", 7)" : ")");
		m += " for k := get(); k > 0; k-- { n := get(); w := d[at:at+n:at+n]; at += n; ";
		if (g.lang == FSM_PRINT_AMD64_GO) { write_file(dir + "/m_amd64.s", g.text); write_file(dir + "/m.go", "package " + pk + "\nfunc " + p + "Match(data " + (g.o.io == FSM_IO_STR ? "string" : "[]byte") + ") int\n"); m += "put(uint(" + fn + ")); put(0) }\n"; continue; }
		write_file(dir + "/m.go", g.text); std::string body = "if r { put(1) } else { put(0) }; ";
		if (g.o.ambig == AMBIG_NONE) m += "var r bool = " + fn + "; " + body + "put(0) }\n"; else if (single(g)) m += "var r bool; var id uint; r, id = " + fn + "; " + body + "put(1); put(id) }\n"; else m += "var r bool; var ids []uint; r, ids = " + fn + "; " + body + "put(uint(len(ids))); for _, x := range ids { put(x) } }\n";
	}
	m += " os.WriteFile(os.Args[2], o, 0644)\n}\n"; write_file(d + "/main.go", imp + m); shell(c, "cd " + d + " && GO111MODULE=on GOTOOLCHAIN=local GOPROXY=off GOFLAGS=-mod=mod GOCACHE=" + gocache + " GOPATH=" + gocache + "/path HOME=" + d + " go build -o ../prog .", "go:compile", gs); exchange(c, gs, "go", 1000);
}
PBT_CASE(bash, 3, "a matcher that accepts one word and rejects another") {
	std::vector<Gen> gs; int k = c.range(1, 3); for (int i = 0; i < k; i++) gs.push_back(gen(c, FSM_PRINT_SH)); c.describe([&](std::ostream &o) { for (auto &g : gs) o << describe(g) << dump(g.a); });
	std::string s; bool acc = false, rej = false; int loc = (int)c.draw(5);
	for (int i = 0; i < k; i++) { Gen &g = gs[i]; generate(c, g, "p"); fill_words(c, g, false, 80); for (int j = c.range(4, 60); j > 0; j--) g.ws.push_back(gen_word(c, g.a, 4) + (char)c.range(1, 255)); for (auto &w : g.ws) { size_t z = w.find('\0'); if (z != std::string::npos) w.resize(z); }
		std::string si = std::to_string(i); write_file(c.scratch + "/s" + si + ".sh", g.text); shell(c, "bash -n " + c.scratch + "/s" + si + ".sh", "sh:syntax", gs); for (size_t j = 0; j < g.ws.size(); j++) { std::string f = "w" + si + "_" + std::to_string(j); write_file(c.scratch + "/" + f, g.ws[j]); s += "( matched() { echo match \"$@\"; exit 0; }; readonly -f matched; . ./s" + si + ".sh ) < " + f + " 2>/dev/null; echo \"= $?\"\n"; } }
	write_file(c.scratch + "/run.sh", s); static const char *L[] = {"LANG=C", "LANG=C.utf8", "LANG=", "LC_ALL=C.utf8", "LC_CTYPE=C.utf8"}; shell(c, "cd " + c.scratch + " && unset LANG LC_ALL LC_CTYPE; " + L[loc] + " timeout 15 bash run.sh > out", "sh:run", gs); std::istringstream out(read_file(c.scratch + "/out", 1 << 20)); std::string l1, l2;
	for (auto &g : gs) for (auto &w : g.ws) { REQ(c, std::getline(out, l1) && std::getline(out, l2), "sh:output", "short output\n" + describe(g) + g.text); bool m = l1.compare(0, 5, "match") == 0; REQ(c, (m ? l2 == "= 0" : l1 == "fail" && l2 == "= 1"), "sh:output", "word " + pbt::show(w) + " gives " + pbt::show(l1) + " " + pbt::show(l2) + "\n" + describe(g) + g.text);
		std::vector<unsigned> ids; if (m) { std::istringstream is(l1.substr(5)); unsigned x; while (is >> x) ids.push_back(x); } check(c, g, w, m, &ids, acc, rej); }
	for (auto &g : gs) for (size_t j = 0; j < g.ws.size(); j++) unlink((c.scratch + "/w" + std::to_string(&g - &gs[0]) + "_" + std::to_string(j)).c_str());
	finish(c, acc, rej);
}
// ---- awk: an interpreter for the part of gawk's language that generated matchers could use (functions, switch, if, return,
// assignment, comparison, substr), following the gawk manual: strings compare bytewise, a number against a string compares as strings
struct Awk {
	struct V { bool num = false, uninit = false; double n = 0; std::string s; std::string str() const { if (uninit) return ""; if (!num) return s; char b[40]; snprintf(b, sizeof b, "%.30g", n); return b; } double val() const { return num ? n : strtod(s.c_str(), NULL); } bool truth() const { return uninit ? false : num ? n != 0 : !s.empty(); } };
	struct Tok { int k; std::string s; double n = 0; }; enum { END, NL, NUM, STR, ID, OP, RE };
	struct Fn { std::vector<std::string> par; size_t body; };
	std::vector<Tok> t; std::map<std::string, Fn> fns; std::string err; size_t p = 0; typedef std::map<std::string, V> Env; int depth = 0; long steps = 0;
	[[noreturn]] void bad(const std::string &m) { throw std::runtime_error(m + " near token " + std::to_string(p) + (p < t.size() ? " '" + t[p].s + "'" : "")); }
	void lex(const std::string &s) {
		size_t i = 0; while (i < s.size()) { char ch = s[i];
			if (ch == '\n') { t.push_back({NL, "\\n"}); i++; } else if (ch == ' ' || ch == '\t') i++; else if (ch == '#') while (i < s.size() && s[i] != '\n') i++;
			else if (isdigit((unsigned char)ch)) { char *e; double n = strtod(&s[i], &e); if (ch == '0' && (s[i + 1] == 'x' || s[i + 1] == 'X')) n = (double)strtoul(&s[i], &e, 16); std::string w(&s[i], (const char *)e); i += w.size(); t.push_back({NUM, w, n}); }
			else if (isalpha((unsigned char)ch) || ch == '_') { size_t j = i; while (j < s.size() && (isalnum((unsigned char)s[j]) || s[j] == '_')) j++; t.push_back({ID, s.substr(i, j - i)}); i = j; }
			else if (ch == '"') { std::string v; i++; for (;;) { if (i >= s.size() || s[i] == '\n') throw std::runtime_error("unterminated string"); if (s[i] == '"') break; if (s[i] != '\\') { v += s[i++]; continue; } i++; char e = s[i++]; switch (e) { case 'a': v += '\a'; break; case 'b': v += '\b'; break; case 'f': v += '\f'; break; case 'n': v += '\n'; break; case 'r': v += '\r'; break; case 't': v += '\t'; break; case 'v': v += '\v'; break; case '\\': case '"': case '/': v += e; break;
				case 'x': { unsigned x = 0; int k = 0; while (k < 2 && isxdigit((unsigned char)s[i])) { x = x * 16 + (unsigned)(isdigit((unsigned char)s[i]) ? s[i] - '0' : tolower(s[i]) - 'a' + 10); i++; k++; } if (!k) v += 'x'; else v += (char)x; break; }
				case '0': case '1': case '2': case '3': case '4': case '5': case '6': case '7': { unsigned x = (unsigned)(e - '0'); for (int k = 0; k < 2 && s[i] >= '0' && s[i] <= '7'; k++) x = x * 8 + (unsigned)(s[i++] - '0'); v += (char)x; break; } default: v += e; } } i++; t.push_back({STR, v}); }
			else if (ch == '/' && (t.empty() || (t.back().k != NUM && t.back().k != STR && t.back().k != ID && t.back().s != ")"))) { bool br = false; size_t j = i + 1; for (;; j++) { if (j >= s.size() || s[j] == '\n') throw std::runtime_error("unterminated regexp"); if (s[j] == '\\') j++; else if (s[j] == '[') br = true; else if (s[j] == ']') br = false; else if (s[j] == '/' && !br) break; } t.push_back({RE, s.substr(i, j - i + 1)}); i = j + 1; }
			else { static const char *two[] = {"==", "!=", "<=", ">=", "&&", "||"}; bool f = false; for (auto o : two) if (s.compare(i, 2, o) == 0) { t.push_back({OP, o}); i += 2; f = true; break; } if (f) continue; if (!strchr("{}()<>=!;,:+-", ch)) throw std::runtime_error(std::string("stray character ") + pbt::show(std::string(1, ch))); t.push_back({OP, std::string(1, ch)}); i++; } }
		t.push_back({END, ""});
	}
	bool is(const char *s) { return (t[p].k == OP || t[p].k == ID) && t[p].s == s; } bool take(const char *s) { if (is(s)) { p++; return true; } return false; } void want(const char *s) { if (!take(s)) bad(std::string("expected ") + s); } void nls() { while (t[p].k == NL) p++; }
	void load(const std::string &s) { lex(s); for (;;) { while (t[p].k == NL || is(";")) p++; if (t[p].k == END) return; want("function"); if (t[p].k != ID) bad("function name"); std::string n = t[p++].s; want("("); Fn f; while (!is(")")) { if (t[p].k != ID) bad("parameter"); f.par.push_back(t[p++].s); if (!take(",")) break; } want(")"); nls(); f.body = p; skip_stmt(); if (fns.count(n)) bad("function defined twice"); fns[n] = f; } }
	// statements are executed from the token stream; run=false only checks the syntax
	enum Flow { NEXT, RET, BRK }; V ret; void skip_stmt() { Env e; stmt(e, false); }
	void terminator() { if (t[p].k == NL) { p++; return; } if (take(";")) { nls(); return; } if (is("}")) return; bad("expected end of statement"); }
	Flow stmt(Env &e, bool run) {
		if (++steps > 3000000) bad("does not terminate");
		if (take(";")) { nls(); return NEXT; }
		if (take("{")) { nls(); Flow f = NEXT; while (!is("}")) { Flow g = stmt(e, run && f == NEXT); if (f == NEXT) f = g; nls(); } p++; nls(); return f; }
		if (take("if")) { want("("); V v = expr(e, run); want(")"); nls(); Flow f = stmt(e, run && v.truth()); size_t q = p; while (t[p].k == NL || is(";")) p++; if (take("else")) { nls(); Flow g = stmt(e, run && !v.truth()); if (!v.truth()) f = g; } else p = q; return f; }
		if (take("return")) { V v; v.uninit = true; if (t[p].k != NL && !is(";") && !is("}")) v = expr(e, run); terminator(); if (run) { ret = v; return RET; } return NEXT; }
		if (take("break")) { terminator(); return run ? BRK : NEXT; }
		if (take("switch")) {
			want("("); V v = expr(e, run); want(")"); nls(); want("{"); nls(); bool on = false, hit = false; Flow f = NEXT; size_t dflt = 0, start = p; std::set<std::string> seen;
			for (int pass = 0; pass < 2; pass++) { p = start; while (!is("}")) { if (take("case")) { bool neg = take("-"); V k; if (t[p].k == NUM) { k.num = true; k.n = neg ? -t[p].n : t[p].n; } else if (t[p].k == STR) k.s = t[p].s; else bad("case value"); if (pass == 0 && !seen.insert(std::to_string(t[p].k) + k.str()).second) bad("duplicate case"); p++; want(":"); nls(); if (run && f == NEXT && !hit && pass == 0 && compare(v, k) == 0) on = hit = true; continue; } if (take("default")) { want(":"); nls(); dflt = p; if (pass == 1) on = true; continue; } Flow g = stmt(e, run && on && f == NEXT); if (on && f == NEXT) f = g; nls(); } if (hit || !dflt || !run || pass == 1) break; }
			p++; nls(); return f == BRK ? NEXT : f; }
		if (t[p].k == RE) { p++; terminator(); return NEXT; } // matched against $0, to no effect
		V v = expr(e, run); terminator(); return NEXT;
	}
	static int compare(const V &a, const V &b) { if ((a.num || a.uninit) && (b.num || b.uninit) && !(a.uninit && b.uninit)) { double x = a.val(), y = b.val(); return x < y ? -1 : x > y; } std::string x = a.str(), y = b.str(); int r = memcmp(x.data(), y.data(), std::min(x.size(), y.size())); return r ? r : x.size() < y.size() ? -1 : x.size() > y.size(); }
	static V number(double n) { V v; v.num = true; v.n = n; return v; }
	V expr(Env &e, bool run) { if (t[p].k == ID && t[p + 1].k == OP && t[p + 1].s == "=") { std::string n = t[p].s; p += 2; V v = expr(e, run); if (run) e[n] = v; return v; } V a = conj(e, run); while (is("||")) { p++; nls(); V b = conj(e, run && !a.truth()); a = number(a.truth() || b.truth()); } return a; }
	V conj(Env &e, bool run) { V a = cmp(e, run); while (is("&&")) { p++; nls(); V b = cmp(e, run && a.truth()); a = number(a.truth() && b.truth()); } return a; }
	V cmp(Env &e, bool run) { V a = sum(e, run); static const char *ops[] = {"<", "<=", "==", "!=", ">", ">="}; for (int i = 0; i < 6; i++) if (take(ops[i])) { V b = sum(e, run); int r = compare(a, b); bool v[] = {r < 0, r <= 0, r == 0, r != 0, r > 0, r >= 0}; return number(v[i]); } return a; }
	V sum(Env &e, bool run) { V a = prim(e, run); for (;;) { if (take("+")) a = number(a.val() + prim(e, run).val()); else if (take("-")) a = number(a.val() - prim(e, run).val()); else return a; } }
	V prim(Env &e, bool run) {
		Tok k = t[p++]; V v; if (k.k == NUM) return number(k.n); if (k.k == STR) { v.s = k.s; return v; } if (k.k == OP && k.s == "(") { v = expr(e, run); want(")"); return v; } if (k.k == OP && k.s == "!") return number(!prim(e, run).truth()); if (k.k == OP && k.s == "-") return number(-prim(e, run).val()); if (k.k != ID) { p--; bad("expression"); }
		if (is("(")) { p++; std::vector<V> a; while (!is(")")) { a.push_back(expr(e, run)); if (!take(",")) break; nls(); } want(")"); if (!run) return v;
			if (k.s == "length") return number((double)a.at(0).str().size()); if (k.s == "substr") { std::string s = a.at(0).str(); double b = a.at(1).val(), n = a.size() > 2 ? a[2].val() : 1e18, lo = std::max(b, 1.0), hi = std::min(b + n, (double)s.size() + 1); if (hi > lo) v.s = s.substr((size_t)lo - 1, (size_t)(hi - lo)); return v; }
			size_t back = p; v = call(k.s, a); p = back; return v; }
		auto it = e.find(k.s); if (it == e.end()) { v.uninit = true; return v; } return it->second; }
	V call(const std::string &n, const std::vector<V> &a) { auto it = fns.find(n); if (it == fns.end()) bad("call of undefined function " + n); if (a.size() > it->second.par.size()) bad("too many arguments"); if (++depth > 3000) bad("recursion"); Env e; for (size_t i = 0; i < it->second.par.size(); i++) { V u; u.uninit = true; e[it->second.par[i]] = i < a.size() ? a[i] : u; } p = it->second.body; ret = V(); ret.uninit = true; stmt(e, true); depth--; V r = ret; ret = V(); return r; }
};
PBT_CASE(awk, 20, "a matcher that accepts one word and rejects another") {
	Gen g = gen(c, FSM_PRINT_AWK); c.describe([&](std::ostream &o) { o << describe(g) << dump(g.a); }); for (auto &s : g.a.st) if (s.ids.count(0)) { s.ids.erase(0); s.ids.insert(9999); } // an id of 0 can't be told from no match
	generate(c, g, "p_"); fill_words(c, g, true, 100); if (g.ws.size() > 600) { for (size_t i = 0; i < 600; i++) std::swap(g.ws[i], g.ws[i + c.draw(g.ws.size() - i)]); g.ws.resize(600); } bool acc = false, rej = false; Awk k; try { k.load(g.text); } catch (std::exception &x) { REQ(c, false, "awk:syntax", std::string(x.what()) + "\n" + describe(g) + g.text); }
	for (auto &w : g.ws) { Awk::V a, r; a.s = w; k.depth = 0; k.steps = 0; try { r = k.call("p_main", {a}); } catch (std::exception &x) { REQ(c, false, "awk:run", "word " + pbt::show(w) + ": " + x.what() + "\n" + describe(g) + g.text); }
		// a string is returned for AMBIG_MULTIPLE: the ids, or a false value
		bool m = g.o.ambig == AMBIG_MULTIPLE ? !r.num && !r.uninit : r.truth(); std::vector<unsigned> ids; if (m) { std::string s = r.str(); for (char &ch : s) if (ch == ',') ch = ' '; std::istringstream is(s); unsigned x; while (is >> x) ids.push_back(x); } check(c, g, w, m, &ids, acc, rej); }
	finish(c, acc, rej);
}
// what a language doesn't support is an error; fragments are part of the whole
PBT_CASE(bulk, 2, "more than 256 states") {
	large = true; struct Off { ~Off() { large = false; } } off; switch (c.weighted({4, 1, 1, 2})) { case 0: case_assembly(c); break; case 1: case_llvm(c); break; case 2: case_rust(c); break; default: case_golang(c); break; }
}
PBT_CASE(options, 20, "an unsupported combination, or a fragment") {
	static const enum fsm_print_lang l[] = {FSM_PRINT_GO, FSM_PRINT_RUST, FSM_PRINT_LLVM, FSM_PRINT_AWK, FSM_PRINT_SH, FSM_PRINT_AMD64_ATT, FSM_PRINT_AMD64_NASM, FSM_PRINT_AMD64_GO}; Gen g = gen(c, l[c.draw(8)]); c.describe([&](std::ostream &o) { o << describe(g) << dump(g.a); });
	if (c.chance(1, 2) && !is_asm(g.lang) && g.lang != FSM_PRINT_SH) { generate(c, g, "p_"); std::string whole = g.text; g.o.fragment = 1; generate(c, g, "p_"); REQ(c, g.text.size() > 0 && whole.find(g.text.substr(g.text.compare(0, 13, "// generated\n") == 0 ? 13 : 0)) != std::string::npos, std::string(name(g.lang)) + ":fragment", describe(g) + "--- whole\n" + whole + "--- fragment\n" + g.text); c.nontrivial(); return; }
	enum fsm_io io = (enum fsm_io)c.draw(3); enum fsm_ambig am = g.o.ambig; bool bad = false; switch (g.lang) { case FSM_PRINT_SH: case FSM_PRINT_AWK: bad = io != FSM_IO_STR; break; case FSM_PRINT_GO: bad = io == FSM_IO_GETC; break; case FSM_PRINT_AMD64_GO: bad = io == FSM_IO_GETC; break; case FSM_PRINT_AMD64_ATT: case FSM_PRINT_AMD64_NASM: bad = io != FSM_IO_PAIR; break; default: break; }
	if (is_asm(g.lang) && c.chance(1, 3)) { for (auto &s : g.a.st) if (s.end && s.ids.empty()) s.ids.insert(3); am = AMBIG_MULTIPLE; bad = true; } g.o.io = io; g.o.ambig = am; if (!bad) return;
	Fsm f(build(c, g.a)); char *b = nullptr; size_t n = 0; FILE *fp = open_memstream(&b, &n); errno = 0; int r = fsm_print(fp, f, &g.o, NULL, g.lang), e = errno; fclose(fp); free(b); REQ(c, r == -1 && e == ENOTSUP, std::string(name(g.lang)) + ":unsupported", describe(g) + "returned " + std::to_string(r) + " errno " + std::to_string(e)); c.nontrivial();
}
// the Go standard library is compiled once, for all cases
static void setup(const std::string &scratch) {
	gocache = scratch + "/gocache"; std::string d = scratch + "/gowarm"; if (scratch[0] != '/') { char b[4096]; if (getcwd(b, sizeof b)) { gocache = std::string(b) + "/" + gocache; d = std::string(b) + "/" + d; } }
	std::string cmd = "mkdir -p " + d + " && cd " + d; if (system(cmd.c_str()) != 0) return; write_file(d + "/go.mod", "module x\ngo 1.27\n"); write_file(d + "/main.go", "package main\nimport \"os\"\nfunc main() { os.Stdout.WriteString(\"x\") }\n");
	cmd += " && GO111MODULE=on GOTOOLCHAIN=local GOPROXY=off GOFLAGS=-mod=mod GOCACHE=" + gocache + " GOPATH=" + gocache + "/path HOME=" + d + " go build -o x . >/dev/null 2>&1"; if (system(cmd.c_str()) != 0) fprintf(stderr, "go is not usable\n");
}
static struct Init { Init() { pbt::global_setup = setup; } } init;
