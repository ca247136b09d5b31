#include "pbt.hpp"
#include <algorithm>
#include <cerrno>
#include <csignal>
#include <ctime>
#include <fcntl.h>
#include <fstream>
#include <map>
#include <memory>
#include <sys/mman.h>
#include <sys/resource.h>
#include <sys/stat.h>
#include <sys/wait.h>
#include <unistd.h>

namespace pbt {

void (*global_setup)(const std::string &scratch) = nullptr;

static std::vector<Sub> &subs() { static std::vector<Sub> s; return s; }
void add(const char *name, unsigned weight, CaseFn fn, const char *rule) { subs().push_back({name, fn, weight, rule}); }

static uint64_t splitmix(uint64_t &x) {
	uint64_t z = (x += 0x9e3779b97f4a7c15ull);
	z = (z ^ (z >> 30)) * 0xbf58476d1ce4e5b9ull;
	z = (z ^ (z >> 27)) * 0x94d049bb133111ebull;
	return z ^ (z >> 31);
}
static uint64_t rotl(uint64_t x, int k) { return (x << k) | (x >> (64 - k)); }
static uint64_t hash_bytes(const void *p, size_t n, uint64_t h = 1469598103934665603ull) {
	const unsigned char *s = (const unsigned char *)p;
	for (size_t i = 0; i < n; i++) { h ^= s[i]; h *= 1099511628211ull; }
	return h;
}

uint64_t Ctx::next() {
	uint64_t *s = rng, r = rotl(s[1] * 5, 7) * 9, t = s[1] << 17;
	s[2] ^= s[0]; s[3] ^= s[1]; s[1] ^= s[2]; s[0] ^= s[3]; s[2] ^= t; s[3] = rotl(s[3], 45);
	return r;
}
uint64_t Ctx::draw(uint64_t n) {
	uint64_t v;
	if (n <= 1) return 0;
	if (replaying) {
		v = pos < rep.size() ? rep[pos] : 0;
		if (v >= n) v = n - 1;
	} else {
		v = (uint64_t)(((unsigned __int128)next() * n) >> 64);
	}
	pos++;
	rec.push_back(v);
	if (shm && *shm_n < shm_cap) { shm[*shm_n] = v; (*shm_n)++; }
	return v;
}
unsigned Ctx::weighted(std::initializer_list<unsigned> w) {
	unsigned tot = 0; for (unsigned x : w) tot += x;
	uint64_t v = draw(tot); unsigned i = 0;
	for (unsigned x : w) { if (v < x) return i; v -= x; i++; }
	return 0;
}
size_t Ctx::small(size_t max) {
	size_t n = 0;
	switch (weighted({4, 4, 2})) {
	case 0: n = draw(std::min<size_t>(max, 4) + 1); break;
	case 1: n = draw(std::min<size_t>(max, 10) + 1); break;
	default: n = draw(max + 1); break;
	}
	return n;
}
void Ctx::fail(const std::string &tag, const std::string &msg) { throw Failure{tag, msg}; }
uint64_t Ctx::case_hash() const { return hash_bytes(rec.data(), rec.size() * sizeof(uint64_t)); }

std::string show(const std::string &b) {
	std::string o = "\""; char t[8];
	for (unsigned char ch : b) {
		if (ch == '"' || ch == '\\') { o += '\\'; o += (char)ch; }
		else if (ch >= 32 && ch < 127) o += (char)ch;
		else { snprintf(t, sizeof t, "\\x%02x", ch); o += t; }
	}
	return o + "\"";
}

static std::string jstr(const std::string &b) {
	std::string o = "\""; char t[8];
	for (unsigned char ch : b) {
		if (ch == '"' || ch == '\\') { o += '\\'; o += (char)ch; }
		else if (ch == '\n') o += "\\n";
		else if (ch >= 32 && ch < 127) o += (char)ch;
		else { snprintf(t, sizeof t, "\\u%04x", ch); o += t; }
	}
	return o + "\"";
}

enum { CAP = 1 << 17, HCAP = 1 << 19 };
struct Shm {
	volatile int64_t idx;          // current case or -1
	volatile double start;
	volatile int64_t done, nontriv, discards, knownfails;
	volatile int64_t stop;
	uint64_t nhash;
	uint64_t nchoice;
	uint64_t choice[CAP];
	uint64_t hash[HCAP];
};

static double now() { timespec t; clock_gettime(CLOCK_MONOTONIC, &t); return t.tv_sec + t.tv_nsec / 1e9; }

struct Opts {
	std::string prop = "X", out, scratch, replay, known, only, samplefile, replaydir;
	uint64_t seed = 1; long cases = 1000; double time = 60, case_timeout = 20, shrink_time = 20;
	int workers = 8, tier = 0; bool keep_going = false, verbose = false;
	long one = -1;
} O;

static std::vector<unsigned> schedule;
static std::set<std::pair<std::string, std::string>> known;

static void seed_ctx(Ctx &c, unsigned sub, int64_t idx) {
	uint64_t x = O.seed * 0x2545F4914F6CDD1Dull ^ hash_bytes(subs()[sub].name, strlen(subs()[sub].name)) ^ ((uint64_t)idx * 0x9E3779B97F4A7C15ull);
	for (int i = 0; i < 4; i++) c.rng[i] = splitmix(x);
	c.tier = O.tier;
}

static void limits() {
	rlimit r = {0, 0}; setrlimit(RLIMIT_CORE, &r);
	r.rlim_cur = r.rlim_max = 512u << 20; setrlimit(RLIMIT_FSIZE, &r);
}

static void mkscratch(const std::string &d) { mkdir(d.c_str(), 0700); }

struct Fail { unsigned sub; int64_t idx; std::string tag, msg; std::vector<uint64_t> ch; };

static std::string slurp(const std::string &f, size_t max = 1 << 20) {
	std::string s; FILE *fp = fopen(f.c_str(), "rb"); if (!fp) return s;
	char b[65536]; size_t n; while (s.size() < max && (n = fread(b, 1, sizeof b, fp)) > 0) s.append(b, n);
	fclose(fp); return s;
}

// derive a stable tag from a dead child's stderr
static std::string crash_tag(const std::string &err, int status) {
	size_t p;
	auto line_at = [&](size_t q) { size_t b = err.rfind('\n', q); b = b == std::string::npos ? 0 : b + 1; size_t e = err.find('\n', q); return err.substr(b, e - b); };
	auto frame = [&](size_t from) {
		// first frame whose path is in the tree under test
		size_t q = from;
		while ((q = err.find("\n    #", q)) != std::string::npos) {
			size_t e = err.find('\n', q + 1); std::string l = err.substr(q + 1, e == std::string::npos ? std::string::npos : e - q - 1);
			size_t in = l.find(" in "), sp;
			if (in != std::string::npos && l.find("/src/") != std::string::npos && (sp = l.find(' ', in + 4)) != std::string::npos)
				return l.substr(in + 4, sp - in - 4);
			q = q + 1;
		}
		return std::string("?");
	};
	if ((p = err.find("Assertion `")) != std::string::npos) {
		std::string l = line_at(p); size_t c = l.find(": ");
		l = c == std::string::npos ? l : l.substr(c + 2);
		// drop path dirs and the line number
		std::string o; size_t a = l.find(':'), b = a == std::string::npos ? a : l.find(':', a + 1);
		if (b != std::string::npos) { std::string f = l.substr(0, a); size_t s = f.rfind('/'); if (s != std::string::npos) f = f.substr(s + 1); l = f + l.substr(b); }
		return "assert " + l;
	}
	if ((p = err.find("SUMMARY: ThreadSanitizer: ")) != std::string::npos) {
		std::string l = line_at(p); size_t in = l.rfind(" in "); return "tsan " + l.substr(26, l.find('/') == std::string::npos ? 9 : l.find('/') - 27) + (in == std::string::npos ? "" : l.substr(in));
	}
	if ((p = err.find("ERROR: AddressSanitizer: ")) != std::string::npos) {
		size_t e = err.find_first_of(" \n", p + 25);
		return "asan " + err.substr(p + 25, e - p - 25) + " in " + frame(p);
	}
	if ((p = err.find("runtime error: ")) != std::string::npos) {
		std::string l = line_at(p); size_t q = l.find("runtime error: ");
		std::string m = l.substr(q + 15), f = l.substr(0, q); size_t s = f.rfind('/'); if (s != std::string::npos) f = f.substr(s + 1);
		s = f.find(':'); if (s != std::string::npos) f = f.substr(0, s);
		std::string mm; for (char ch : m) if (!isdigit((unsigned char)ch)) mm += ch;
		s = mm.find(" x"); (void)s;
		return "ubsan " + f + " " + mm.substr(0, 60) + " in " + frame(p);
	}
	if (WIFSIGNALED(status)) return "signal " + std::to_string(WTERMSIG(status));
	if (WIFEXITED(status)) return "exit " + std::to_string(WEXITSTATUS(status));
	return "died";
}

static void rmrf(const std::string &d) {
	if (d.size() < 6 || d[0] != '/') return;
	pid_t p = fork();
	if (p == 0) { execl("/bin/rm", "rm", "-rf", "--", d.c_str(), (char *)0); _exit(127); }
	int st; waitpid(p, &st, 0);
}

// run one choice sequence in a child. Returns true if it failed; fills tag, msg, actual choices.
static bool run_child(unsigned sub, const std::vector<uint64_t> *rep, int64_t idx, Fail &out, double timeout, bool desc) {
	static Shm *sh = nullptr;
	if (!sh) sh = (Shm *)mmap(0, sizeof(Shm), PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS, -1, 0);
	sh->nchoice = 0;
	std::string resf = O.scratch + "/child.res", errf = O.scratch + "/child.err", sdir = O.scratch + "/child.d";
	unlink(resf.c_str());
	pid_t pid = fork();
	if (pid == 0) {
		setpgid(0, 0);
		limits();
		int fd = open(errf.c_str(), O_CREAT | O_TRUNC | O_WRONLY, 0600);
		dup2(fd, 2); dup2(fd, 1); close(fd);
		mkscratch(sdir);
		Ctx c; c.scratch = sdir; seed_ctx(c, sub, idx);
		if (rep) { c.replaying = true; c.rep = *rep; }
		c.shm = sh->choice; c.shm_cap = CAP; c.shm_n = &sh->nchoice; c.want_desc = desc; c.verbose = O.verbose;
		std::string res = "P\n";
		try { subs()[sub].fn(c); }
		catch (Failure &f) { res = "F\n" + f.tag + "\n" + f.msg; }
		catch (Discard &) { res = "D\n"; }
		FILE *fp = fopen(resf.c_str(), "wb");
		if (fp) { fwrite(res.data(), 1, res.size(), fp); if (desc) { std::string d = "\n--- case\n" + c.desc; fwrite(d.data(), 1, d.size(), fp); } fclose(fp); }
		_exit(0);
	}
	double t0 = now(); int st = 0; bool hang = false;
	useconds_t nap = 200;
	for (;;) {
		pid_t r = waitpid(pid, &st, WNOHANG);
		if (r == pid) break;
		if (now() - t0 > timeout) { kill(-pid, SIGKILL); kill(pid, SIGKILL); waitpid(pid, &st, 0); hang = true; break; }
		usleep(nap); if (nap < 5000) nap = nap * 3 / 2;
	}
	kill(-pid, SIGKILL);
	out.sub = sub; out.idx = idx;
	out.ch.assign(sh->choice, sh->choice + sh->nchoice);
	if (hang) { out.tag = "hang"; out.msg = "case did not finish"; return true; }
	std::string res = slurp(resf);
	if (res.empty()) { std::string e = slurp(errf); out.tag = crash_tag(e, st); out.msg = e.substr(0, 6000); return true; }
	if (res[0] == 'F') { size_t p = res.find('\n', 2); out.tag = res.substr(2, p - 2); out.msg = p == std::string::npos ? "" : res.substr(p + 1); return true; }
	out.tag.clear(); out.msg = res.size() > 2 ? res.substr(2) : ""; return false;
}

// under ThreadSanitizer one race shows as many: a report at whichever access lost, a crash, another log; and it need not show each time
#if defined(__has_feature)
#if __has_feature(thread_sanitizer)
#define RACY 1
#endif
#endif
#ifndef RACY
#define RACY 0
#endif
static bool alike(const std::string &a, const std::string &b) { return a == b || (RACY && a != "hang" && b != "hang"); }

static void shrink(Fail &best, double budget) {
	double t0 = now(); int tries = 0;
	// the drawn values fully determine the case: trailing zeros are free
	auto trim = [](std::vector<uint64_t> &v) { while (!v.empty() && v.back() == 0) v.pop_back(); };
	auto better = [](const std::vector<uint64_t> &a, const std::vector<uint64_t> &b) { return a.size() != b.size() ? a.size() < b.size() : a < b; };
	auto attempt = [&](std::vector<uint64_t> v) {
		trim(v);
		if (!better(v, best.ch)) return false;
		Fail f; tries++;
		if (run_child(best.sub, &v, best.idx, f, O.case_timeout, false) && alike(f.tag, best.tag)) {
			trim(f.ch); std::vector<uint64_t> nv = better(f.ch, v) ? f.ch : v;
			best.ch = nv; best.msg = f.msg; return true;
		}
		return false;
	};
	auto over = [&] { return now() - t0 > budget || tries > 4000 || best.tag == "hang"; };
	trim(best.ch);
	bool prog = true;
	while (prog && !over()) {
		prog = false;
		for (size_t len : {64, 32, 16, 8, 4, 3, 2, 1})
			for (size_t i = best.ch.size(); i-- > 0 && !over();) {
				if (i + len > best.ch.size()) continue;
				std::vector<uint64_t> v = best.ch; v.erase(v.begin() + i, v.begin() + i + len);
				if (attempt(v)) { prog = true; continue; }
				// delete while decrementing an earlier count
				if (len <= 8 && i > 0 && best.ch.size() < 200) {
					for (size_t back = 1; back <= 3 && back <= i; back++) {
						v = best.ch; if (v[i - back] == 0) continue;
						v[i - back]--; v.erase(v.begin() + i, v.begin() + i + len);
						if (attempt(v)) { prog = true; break; }
					}
				}
			}
		for (size_t len : {8, 4, 2, 1})
			for (size_t i = 0; i + len <= best.ch.size() && !over(); i++) {
				std::vector<uint64_t> v = best.ch; bool any = false;
				for (size_t k = i; k < i + len; k++) { any |= v[k] != 0; v[k] = 0; }
				if (any && attempt(v)) prog = true;
			}
		for (size_t i = 0; i < best.ch.size() && !over(); i++) {
			uint64_t lo = 0, hi = best.ch[i];
			while (lo < hi && !over()) {
				uint64_t mid = lo + (hi - lo) / 2; std::vector<uint64_t> v = best.ch;
				if (i >= v.size()) break;
				v[i] = mid; if (attempt(v)) { prog = true; hi = i < best.ch.size() ? best.ch[i] : 0; } else lo = mid + 1;
			}
		}
	}
}

static void worker(int w, Shm *sh, int64_t from, double deadline) {
	setpgid(0, 0);
	limits();
	std::string base = O.scratch + "/w" + std::to_string(w);
	int fd = open((base + ".err").c_str(), O_CREAT | O_TRUNC | O_WRONLY | O_APPEND, 0600);
	dup2(fd, 2); dup2(fd, 1); close(fd);
	mkscratch(base + ".d");
	std::map<std::string, long> labels;
	std::set<unsigned> sampled;
	FILE *ff = fopen((base + ".fail").c_str(), "ab");
	int nfail = 0; int64_t n = 0;
	for (int64_t i = from; i < O.cases && !sh->stop; i += O.workers) {
		if (now() > deadline) break;
		unsigned sub = schedule[i % schedule.size()];
		sh->nchoice = 0; sh->start = now(); sh->idx = i;
		Ctx c; c.scratch = base + ".d"; seed_ctx(c, sub, i);
		c.shm = sh->choice; c.shm_cap = CAP; c.shm_n = &sh->nchoice;
		c.want_desc = !sampled.count(sub);
		try {
			subs()[sub].fn(c);
			if (c.nontriv) {
				sh->nontriv++;
				uint64_t h = c.case_hash() ^ sub; if (sh->nhash < HCAP) sh->hash[sh->nhash++] = h;
				if (c.want_desc && !c.desc.empty()) {
					sampled.insert(sub);
					FILE *sf = fopen((base + ".samples").c_str(), "ab");
					if (sf) { fprintf(sf, "{\"sub\":%s,\"case\":%s}\n", jstr(subs()[sub].name).c_str(), jstr(c.desc.substr(0, 1500)).c_str()); fclose(sf); }
				}
			}
			for (auto &l : c.counters) labels[std::string(subs()[sub].name) + "." + l]++;
		} catch (Failure &f) {
			if (known.count({subs()[sub].name, f.tag})) sh->knownfails++;
			else {
				fprintf(ff, "%u %lld %s\n", sub, (long long)i, f.tag.c_str()); fflush(ff);
				if (++nfail >= (O.keep_going ? 200 : 1)) { sh->done++; break; }
			}
		} catch (Discard &) { sh->discards++; }
		sh->done++; n++;
	}
	sh->idx = -1;
	std::ofstream lf(base + ".labels", std::ios::app);
	for (auto &l : labels) lf << l.first << "\t" << l.second << "\n";
	lf.close();
	fclose(ff);
	_exit(0);
}

static void write_replay(const std::string &path, const Fail &f) {
	std::ofstream o(path);
	o << "property=" << O.prop << "\nsub=" << subs()[f.sub].name << "\nseed=" << O.seed << "\nidx=" << f.idx << "\ntier=" << O.tier << "\ntag=" << f.tag << "\nchoices=";
	for (auto c : f.ch) o << c << " ";
	o << "\n---\n" << f.msg << "\n";
}
static int do_replay(const std::string &path) {
	std::ifstream in(path); std::string l; std::map<std::string, std::string> kv;
	while (std::getline(in, l) && l != "---") { size_t p = l.find('='); if (p != std::string::npos) kv[l.substr(0, p)] = l.substr(p + 1); }
	int sub = -1; for (size_t i = 0; i < subs().size(); i++) if (kv["sub"] == subs()[i].name) sub = (int)i;
	if (sub < 0) { fprintf(stderr, "no sub '%s' here\n", kv["sub"].c_str()); return 3; }
	std::vector<uint64_t> ch; std::istringstream is(kv["choices"]); uint64_t v; while (is >> v) ch.push_back(v);
	if (kv.count("tier")) O.tier = atoi(kv["tier"].c_str());
	Fail f;
	bool bad = run_child((unsigned)sub, &ch, 0, f, O.case_timeout * 2, true);
	if (bad) { printf("FAIL tag=%s\n%s\n", f.tag.c_str(), f.msg.c_str()); return 1; }
	printf("PASS\n%s\n", f.msg.c_str());
	return 0;
}

} // namespace pbt

extern "C" const char *__asan_default_options() { return "detect_leaks=0:exitcode=99:abort_on_error=0:allocator_may_return_null=1:detect_stack_use_after_return=0:handle_abort=0:symbolize=1:hard_rss_limit_mb=6000"; }
extern "C" const char *__tsan_default_options() { return "halt_on_error=1:exitcode=66:report_signal_unsafe=0:report_thread_leaks=0:die_after_fork=0"; }
extern "C" const char *__ubsan_default_options() { return "print_stacktrace=1:halt_on_error=1"; }

using namespace pbt;

int main(int argc, char **argv) {
	signal(SIGPIPE, SIG_IGN);
	for (int i = 1; i < argc; i++) {
		std::string a = argv[i]; auto val = [&]() -> std::string { return i + 1 < argc ? argv[++i] : ""; };
		if (a == "--prop") O.prop = val(); else if (a == "--seed") O.seed = strtoull(val().c_str(), 0, 10);
		else if (a == "--cases") O.cases = atol(val().c_str()); else if (a == "--time") O.time = atof(val().c_str());
		else if (a == "--workers") O.workers = atoi(val().c_str()); else if (a == "--out") O.out = val();
		else if (a == "--scratch") O.scratch = val(); else if (a == "--replay") O.replay = val();
		else if (a == "--known") O.known = val(); else if (a == "--only") O.only = val();
		else if (a == "--tier") O.tier = val() == "thorough"; else if (a == "--keep-going") O.keep_going = true;
		else if (a == "--case-timeout") O.case_timeout = atof(val().c_str());
		else if (a == "--shrink-time") O.shrink_time = atof(val().c_str());
		else if (a == "--replay-dir") O.replaydir = val(); else if (a == "-v") O.verbose = true;
		else if (a == "--list") { for (auto &s : subs()) printf("%s %u %s\n", s.name, s.weight, s.rule); return 0; }
		else { fprintf(stderr, "unknown option %s\n", a.c_str()); return 2; }
	}
	bool own = false;
	if (O.scratch.empty()) { char t[] = "/tmp/pbt.XXXXXX"; if (!mkdtemp(t)) return 2; O.scratch = t; own = true; }
	else mkscratch(O.scratch);
	if (O.replaydir.empty()) O.replaydir = O.scratch;
	if (!O.known.empty()) {
		std::ifstream in(O.known); std::string l;
		while (std::getline(in, l)) { size_t p = l.find('\t'); if (p != std::string::npos) known.insert({l.substr(0, p), l.substr(p + 1)}); }
	}
	if (global_setup) global_setup(O.scratch);
	if (!O.replay.empty()) { int r = do_replay(O.replay); if (own) rmrf(O.scratch); return r; }

	std::vector<std::pair<unsigned, unsigned>> left;
	for (unsigned i = 0; i < subs().size(); i++) if (O.only.empty() || O.only == subs()[i].name) left.push_back({i, subs()[i].weight});
	// interleave subs in proportion to weight; length made odd-ish so that workers do not alias onto one sub
	unsigned maxw = 1; for (auto &l : left) maxw = std::max(maxw, l.second);
	for (unsigned r = 0; r < maxw; r++) for (auto &l : left) if (r * l.second / maxw != (r + 1) * l.second / maxw) schedule.push_back(l.first);
	if (schedule.empty()) { fprintf(stderr, "nothing to run\n"); return 2; }
	{ // expand so that (len mod workers) covers all workers
		std::vector<unsigned> s; for (int w = 0; w < O.workers; w++) for (size_t k = 0; k < schedule.size(); k++) s.push_back(schedule[(k + w) % schedule.size()]);
		// stride by worker: worker w sees s[w], s[w+W], ...
		std::vector<unsigned> t(s.size());
		for (size_t k = 0; k < schedule.size(); k++) for (int w = 0; w < O.workers; w++) t[k * O.workers + w] = schedule[(k + w) % schedule.size()];
		schedule = t;
	}

	double t0 = now(), deadline = t0 + O.time;
	std::vector<Shm *> sh(O.workers); std::vector<pid_t> pid(O.workers);
	std::vector<Fail> fails; std::map<std::pair<unsigned, std::string>, int> seen;
	auto spawn = [&](int w, int64_t from) { fflush(0); pid[w] = fork(); if (pid[w] == 0) worker(w, sh[w], from, deadline); };
	for (int w = 0; w < O.workers; w++) {
		sh[w] = (Shm *)mmap(0, sizeof(Shm), PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS, -1, 0);
		sh[w]->idx = -1; spawn(w, w);
	}
	int live = O.workers; long known_fail = 0; int crashes = 0;
	std::vector<Fail> pending;
	auto record = [&](Fail f) {
		if (known.count({subs()[f.sub].name, f.tag})) { known_fail++; return; }
		if (seen[{f.sub, f.tag}]++ == 0) pending.push_back(f);
		if (!O.keep_going) for (int k = 0; k < O.workers; k++) sh[k]->stop = 1;
	};
	while (live > 0) {
		for (int w = 0; w < O.workers; w++) {
			if (pid[w] <= 0) continue;
			int st; bool hang = false; pid_t r = waitpid(pid[w], &st, WNOHANG);
			if (r == 0) {
				if (sh[w]->idx >= 0 && now() - sh[w]->start > O.case_timeout) { int64_t at = sh[w]->idx; usleep(1000); if (sh[w]->idx == at) { kill(-pid[w], SIGKILL); kill(pid[w], SIGKILL); waitpid(pid[w], &st, 0); hang = true; } else continue; }
				else continue;
			}
			kill(-pid[w], SIGKILL);
			if (!hang && WIFEXITED(st) && WEXITSTATUS(st) == 0) { pid[w] = 0; live--; continue; }
			int64_t idx = sh[w]->idx;
			if (idx < 0) { pid[w] = 0; live--; continue; }
			Fail f; f.sub = schedule[idx % schedule.size()]; f.idx = idx;
			f.ch.assign(sh[w]->choice, sh[w]->choice + sh[w]->nchoice);
			std::string e = slurp(O.scratch + "/w" + std::to_string(w) + ".err");
			f.tag = hang ? "hang" : crash_tag(e, st); f.msg = e.substr(0, 6000);
			sh[w]->done++; crashes++;
			record(f);
			if (sh[w]->stop || crashes > 2000) { pid[w] = 0; live--; } else spawn(w, idx + O.workers);
		}
		// soft failures recorded by workers stop everyone
		if (!O.keep_going) for (int w = 0; w < O.workers; w++) { struct stat sb; if (stat((O.scratch + "/w" + std::to_string(w) + ".fail").c_str(), &sb) == 0 && sb.st_size > 0) for (int k = 0; k < O.workers; k++) sh[k]->stop = 1; }
		usleep(2000);
	}
	for (int w = 0; w < O.workers; w++) {
		std::ifstream in(O.scratch + "/w" + std::to_string(w) + ".fail"); std::string l;
		while (std::getline(in, l)) {
			Fail f; std::istringstream is(l); long long i; is >> f.sub >> i; f.idx = i; is.get(); std::getline(is, f.tag);
			if (seen[{f.sub, f.tag}]++ == 0) pending.push_back(f);
		}
	}
	// confirm, shrink, write replays
	int unrepro = 0; std::string unrepro_txt;
	double sd = now() + O.shrink_time * 2;
	for (auto &p : pending) {
		Fail f; bool ok = true; std::vector<uint64_t> *rep = p.ch.empty() ? nullptr : &p.ch;
		if (RACY && p.tag != "hang") { ok = false; for (int k = 0; k < 8 && !ok; k++) ok = run_child(p.sub, rep, p.idx, f, O.case_timeout, false) && alike(f.tag, p.tag); }
		else for (int k = 0; k < 3 && ok; k++) ok = run_child(p.sub, rep, p.idx, f, O.case_timeout * (p.tag == "hang" ? 3 : 1), false) && f.tag == p.tag;
		if (!ok) { unrepro++; unrepro_txt += std::string(subs()[p.sub].name) + ": " + p.tag + " / " + f.tag + "\n"; continue; }
		if (now() < sd) shrink(f, std::min(O.shrink_time, sd - now()));
		Fail g; std::vector<uint64_t> ch = f.ch;
		run_child(f.sub, &ch, f.idx, g, O.case_timeout * 3, true);
		if (g.tag == f.tag) f.msg = g.msg;
		fails.push_back(f);
		if (fails.size() > 40) break;
	}
	std::set<uint64_t> distinct; int64_t done = 0, nt = 0, disc = 0; bool sat = false;
	for (int w = 0; w < O.workers; w++) {
		for (uint64_t i = 0; i < sh[w]->nhash; i++) distinct.insert(sh[w]->hash[i]);
		sat |= sh[w]->nhash >= HCAP;
		done += sh[w]->done; nt += sh[w]->nontriv; disc += sh[w]->discards; known_fail += sh[w]->knownfails;
	}
	std::map<std::string, long> labels; std::vector<std::string> samples;
	for (int w = 0; w < O.workers; w++) {
		std::ifstream lf(O.scratch + "/w" + std::to_string(w) + ".labels"); std::string l;
		while (std::getline(lf, l)) { size_t p = l.find('\t'); labels[l.substr(0, p)] += atol(l.c_str() + p + 1); }
		std::ifstream sf(O.scratch + "/w" + std::to_string(w) + ".samples");
		while (std::getline(sf, l)) samples.push_back(l);
	}
	std::ostringstream js;
	js << "{\"evaluations\":" << done << ",\"distinct_nontrivial\":" << distinct.size() << ",\"nontrivial\":" << nt << ",\"discards\":" << disc
	   << ",\"known_hits\":" << known_fail << ",\"unreproduced\":" << unrepro << ",\"unreproduced_what\":" << jstr(unrepro_txt) << ",\"wall_s\":" << (now() - t0) << ",\"rules\":{";
	bool first = true;
	for (auto &s : subs()) { if (!O.only.empty() && O.only != s.name) continue; js << (first ? "" : ",") << jstr(s.name) << ":" << jstr(s.rule); first = false; }
	js << "},\"labels\":{"; first = true;
	for (auto &l : labels) { js << (first ? "" : ",") << jstr(l.first) << ":" << l.second; first = false; }
	js << "},\"samples\":["; for (size_t i = 0; i < samples.size() && i < 24; i++) js << (i ? "," : "") << samples[i];
	js << "],\"failures\":[";
	for (size_t i = 0; i < fails.size(); i++) {
		std::string path = O.replaydir + "/" + O.prop + "-" + subs()[fails[i].sub].name + "-" + std::to_string(i) + ".replay";
		write_replay(path, fails[i]);
		js << (i ? "," : "") << "{\"sub\":" << jstr(subs()[fails[i].sub].name) << ",\"tag\":" << jstr(fails[i].tag) << ",\"replay\":" << jstr(path) << ",\"msg\":" << jstr(fails[i].msg.substr(0, 4000)) << "}";
	}
	js << "]}\n";
	if (!O.out.empty()) { std::ofstream o(O.out); o << js.str(); }
	else {
		printf("cases=%lld nontrivial=%lld distinct=%zu discards=%lld known=%ld unreproduced=%d wall=%.1f\n", (long long)done, (long long)nt, distinct.size(), (long long)disc, known_fail, unrepro, now() - t0);
		if (unrepro) printf("unreproduced:\n%s", unrepro_txt.c_str());
		for (auto &l : labels) printf("  %s %ld\n", l.first.c_str(), l.second);
		for (auto &f : fails) { printf("FAIL [%s] x%d %s\n", subs()[f.sub].name, seen[{f.sub, f.tag}], f.tag.c_str()); printf("%s\n", f.msg.substr(0, 3000).c_str()); printf("choices:"); for (auto c : f.ch) printf(" %llu", (unsigned long long)c); printf("\n"); }
	}
	if (own && !O.verbose) rmrf(O.scratch);
	return fails.empty() ? 0 : 1;
}
