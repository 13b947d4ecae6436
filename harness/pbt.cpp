#include "pbt.hpp"
#include <algorithm>
#include <chrono>
#include <filesystem>
#include <fstream>
#include <map>
#include <set>
#include <sstream>
#include <cstdlib>
#include <fcntl.h>
#include <signal.h>
#include <sys/mman.h>
#include <sys/resource.h>
#include <sys/wait.h>
#include <unistd.h>

namespace pbt {

static const int MAXC = 1 << 16, MAXLAB = 40;
struct Shared {
	uint32_t nch; uint64_t ch[MAXC];
	int status;                    // 0 running 1 pass 2 fail 3 discard
	int nontrivial; uint64_t count;
	uint32_t nlab; char lab[MAXLAB][56];
	uint32_t nexc; char exc[8][56];
	char msg[6000], desc[12000];
	uint32_t desclen;
	uint64_t digest;
};

static uint64_t mix(uint64_t x) { x += 0x9e3779b97f4a7c15ull; x = (x ^ (x >> 30)) * 0xbf58476d1ce4e5b9ull; x = (x ^ (x >> 27)) * 0x94d049bb133111ebull; return x ^ (x >> 31); }

uint64_t Ctx::next() { rng += 0x9e3779b97f4a7c15ull; uint64_t x = rng; x = (x ^ (x >> 30)) * 0xbf58476d1ce4e5b9ull; x = (x ^ (x >> 27)) * 0x94d049bb133111ebull; return x ^ (x >> 31); }
// In replay mode nch counts consumed choices; the stored vector is read from replay_src.
static const std::vector<uint64_t> *replay_src = nullptr;
uint64_t Ctx::below(uint64_t n)
{
	if (n <= 1) return 0;
	uint64_t v;
	if (replay_) v = sh->nch < replay_src->size() ? (*replay_src)[sh->nch] % n : 0;
	else v = next() % n;
	if (sh->nch >= MAXC) throw Stop{3};
	sh->ch[sh->nch++] = v;
	return v;
}
void Ctx::note(const char *fmt, ...)
{
	va_list ap; va_start(ap, fmt);
	size_t room = sizeof sh->desc - sh->desclen;
	if (room > 1) { int k = vsnprintf(sh->desc + sh->desclen, room, fmt, ap); if (k > 0) sh->desclen += std::min<size_t>(k, room - 1); }
	va_end(ap);
}
void Ctx::label(const char *name) { for (uint32_t i = 0; i < sh->nlab; i++) if (!strcmp(sh->lab[i], name)) return; if (sh->nlab < MAXLAB) { strncpy(sh->lab[sh->nlab], name, 55); sh->nlab++; } }
void Ctx::exclude(const char *name) { if (sh->nexc < 8) { strncpy(sh->exc[sh->nexc], name, 55); sh->nexc++; } }
void Ctx::nontrivial() { sh->nontrivial = 1; }
void Ctx::count(uint64_t n) { sh->count += n; }
void Ctx::digest(const void *p, size_t n) { const unsigned char *c = (const unsigned char *) p; uint64_t h = sh->digest ? sh->digest : 1469598103934665603ull; for (size_t i = 0; i < n; i++) h = (h ^ c[i]) * 1099511628211ull; sh->digest = h; }
void Ctx::fail(const char *fmt, ...)
{
	va_list ap; va_start(ap, fmt); vsnprintf(sh->msg, sizeof sh->msg, fmt, ap); va_end(ap);
	throw Stop{2};
}
void Ctx::discard(const char *why) { label((std::string("discard:") + why).c_str()); throw Stop{3}; }

std::vector<Prop> &props() { static std::vector<Prop> v; return v; }
std::vector<Known> &knowns() { static std::vector<Known> v; return v; }

typedef std::chrono::steady_clock Clk;
static double since(Clk::time_point t) { return std::chrono::duration<double>(Clk::now() - t).count(); }

// Run one case in a child. Returns status 1/2/3.
static int run_case(PropFn fn, Shared *sh, const std::string &dir, bool replay, uint64_t seed, bool thorough, int cpu_s)
{
	namespace fs = std::filesystem;
	sh->nch = 0; sh->status = 0; sh->nontrivial = 0; sh->count = 0; sh->nlab = 0; sh->nexc = 0; sh->msg[0] = 0; sh->desc[0] = 0; sh->desclen = 0; sh->digest = 0;
	memset(sh->lab, 0, sizeof sh->lab); memset(sh->exc, 0, sizeof sh->exc);
	std::string cwd = dir + "/c", out = dir + "/out";
	std::error_code ec;
	fs::remove_all(cwd, ec); fs::create_directories(cwd, ec);
	fflush(stdout); fflush(stderr);
	pid_t pid = fork();
	if (pid < 0) { perror("fork"); exit(3); }
	if (pid == 0) {
		if (chdir(cwd.c_str())) _exit(90);
		int fd = open(out.c_str(), O_CREAT | O_TRUNC | O_WRONLY, 0644);
		if (fd >= 0) { dup2(fd, 1); dup2(fd, 2); close(fd); }
		rlimit rl{(rlim_t) cpu_s, (rlim_t) cpu_s + 2}; setrlimit(RLIMIT_CPU, &rl);
		rlimit rf{64 << 20, 64 << 20}; setrlimit(RLIMIT_FSIZE, &rf);
		rlimit rc{0, 0}; setrlimit(RLIMIT_CORE, &rc);
		alarm(cpu_s * 8);
		Ctx ctx(sh, replay, seed, thorough);
		int st = 1;
		try { fn(ctx); } catch (Stop &s) { st = s.status; }
		catch (std::exception &e) { snprintf(sh->msg, sizeof sh->msg, "exception: %s", e.what()); st = 2; }
		sh->status = st;
		fflush(stdout); fflush(stderr);
		_exit(st == 2 ? 1 : 0);
	}
	int ws; waitpid(pid, &ws, 0);
	if (sh->status == 0) {
		std::string tail; { std::ifstream f(out); std::stringstream ss; ss << f.rdbuf(); tail = ss.str(); }
		size_t p = tail.find("ERROR: AddressSanitizer"); if (p == std::string::npos) p = tail.find("runtime error"); if (p == std::string::npos) p = tail.size() > 600 ? tail.size() - 600 : 0; else p = tail.rfind('\n', p) == std::string::npos ? 0 : tail.rfind('\n', p) + 1;
		tail = tail.substr(p, 900);
		if (WIFSIGNALED(ws) && (WTERMSIG(ws) == SIGXCPU || WTERMSIG(ws) == SIGALRM || WTERMSIG(ws) == SIGKILL))
			snprintf(sh->msg, sizeof sh->msg, "the case did not end within %d s of CPU time (signal %d)", cpu_s, WTERMSIG(ws));
		else
			snprintf(sh->msg, sizeof sh->msg, "the process died (%s %d): %s", WIFSIGNALED(ws) ? "signal" : "exit", WIFSIGNALED(ws) ? WTERMSIG(ws) : WEXITSTATUS(ws), tail.c_str());
		sh->status = 2;
		// out of memory killer, hard limit or wall-clock limit (busy machine): inconclusive
		if (WIFSIGNALED(ws) && (WTERMSIG(ws) == SIGKILL || WTERMSIG(ws) == SIGALRM)) sh->status = 3;
	}
	return sh->status;
}

static int run_vec(PropFn fn, Shared *sh, const std::string &dir, const std::vector<uint64_t> &c, bool thorough, int cpu_s)
{
	replay_src = &c;
	return run_case(fn, sh, dir, true, 0, thorough, cpu_s);
}

static void shrink(PropFn fn, Shared *sh, const std::string &dir, std::vector<uint64_t> &best, bool thorough, int cpu_s, double budget)
{
	auto t0 = Clk::now(); int runs = 0;
	auto attempt = [&](const std::vector<uint64_t> &c) {
		if (since(t0) > budget || runs > 1500) return false;
		runs++;
		if (run_vec(fn, sh, dir, c, thorough, cpu_s) != 2) return false;
		std::vector<uint64_t> used(sh->ch, sh->ch + sh->nch);
		while (!used.empty() && used.back() == 0) used.pop_back();
		if (used.size() > best.size()) return false;
		if (used.size() == best.size() && !(used < best)) return false;
		best = used; return true;
	};
	while (!best.empty() && best.back() == 0) best.pop_back();
	bool progress = true;
	while (progress && since(t0) < budget && runs < 1500) {
		progress = false;
		for (size_t len : {32u, 16u, 8u, 4u, 2u, 1u})
			for (size_t i = 0; i < best.size();) {
				if (i + len <= best.size()) { auto c = best; c.erase(c.begin() + i, c.begin() + i + len); if (attempt(c)) { progress = true; continue; } }
				i += len;
			}
		for (size_t len : {8u, 1u})
			for (size_t i = 0; i < best.size(); i += len) {
				auto c = best; bool any = false; for (size_t k = i; k < std::min(best.size(), i + len); k++) if (c[k]) { c[k] = 0; any = true; }
				if (any && attempt(c)) progress = true;
			}
		for (size_t i = 0; i < best.size(); i++) {
			for (int k = 0; k < 24 && i < best.size() && best[i] > 0; k++) {
				auto c = best; c[i] = k == 0 && best[i] > 8 ? 1 : best[i] / 2; if (attempt(c)) { progress = true; continue; }
				c = best; c[i] = best[i] - 1; if (attempt(c)) { progress = true; continue; }
				if (best[i] > 64) { c = best; c[i] = best[i] & ~0xffffull; if (c[i] != best[i] && attempt(c)) { progress = true; continue; } c = best; c[i] = best[i] & ~0xfffull; if (c[i] != best[i] && attempt(c)) { progress = true; continue; } }
				break;
			}
		}
	}
}

static std::string jstr(const std::string &s)
{
	std::string o = "\"";
	for (unsigned char c : s) { if (c == '"' || c == '\\') { o += '\\'; o += c; } else if (c == '\n') o += "\\n"; else if (c < 32 || c > 126) { char b[8]; snprintf(b, 8, "\\u%04x", c); o += b; } else o += c; }
	return o + "\"";
}

} // namespace pbt

using namespace pbt;

struct Global { volatile int stop; volatile int failed_worker; volatile long done; };

int main(int argc, char **argv)
{
	setvbuf(stdout, nullptr, _IOLBF, 0);
	std::string id, tier = "quick", evidence, replay, replaydir = ".";
	long cases = -1; int workers = 8; uint64_t seed = 1; double cap = -1; std::string scratch; bool noknown = false; std::string knownfile;
	for (int i = 1; i < argc; i++) {
		std::string a = argv[i]; auto v = [&] { return std::string(i + 1 < argc ? argv[++i] : ""); };
		if (a == "--tier") tier = v(); else if (a == "--evidence") evidence = v(); else if (a == "--replay") replay = v();
		else if (a == "--cases") cases = atol(v().c_str()); else if (a == "--workers") workers = atoi(v().c_str());
		else if (a == "--seed") seed = strtoull(v().c_str(), 0, 10); else if (a == "--cap") cap = atof(v().c_str());
		else if (a == "--replay-dir") replaydir = v(); else if (a == "--no-known") noknown = true; else if (a == "--known") knownfile = v();
		else id = a;
	}
	const Prop *P = nullptr; for (auto &p : props()) if (id == p.id) P = &p;
	if (!P) { fprintf(stderr, "unknown property %s\n", id.c_str()); return 3; }
	bool thorough = tier == "thorough";
	if (cases < 0) cases = thorough ? P->thorough : P->quick;
	if (cap < 0) cap = thorough ? 3000 : 240;
	auto t0 = Clk::now();
	for (const char *base : {"/dev/shm", getenv("TMPDIR") ? getenv("TMPDIR") : "/tmp", "/tmp"}) {
		std::string t = std::string(base) + "/micropp-verif-XXXXXX"; std::vector<char> b(t.begin(), t.end()); b.push_back(0);
		if (mkdtemp(b.data())) { scratch = b.data(); break; }
	}
	if (scratch.empty()) { fprintf(stderr, "no scratch directory\n"); return 3; }
	struct Cleanup { std::string d; pid_t me; ~Cleanup() { if (getpid() == me) { std::error_code ec; std::filesystem::remove_all(d, ec); } } } cleanup{scratch, getpid()};
	auto shm = [](size_t n) { void *p = mmap(nullptr, n, PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS, -1, 0); if (p == MAP_FAILED) { perror("mmap"); exit(3); } return p; };

	if (!replay.empty()) {
		std::ifstream f(replay); std::string line; std::vector<uint64_t> c; bool th = false;
		while (std::getline(f, line)) {
			if (line.rfind("choices:", 0) == 0) { std::stringstream ss(line.substr(8)); uint64_t x; while (ss >> x) c.push_back(x); }
			if (line.rfind("tier:", 0) == 0) th = line.find("thorough") != std::string::npos;
		}
		Shared *sh = (Shared *) shm(sizeof(Shared));
		std::filesystem::create_directories(scratch + "/r");
		int st = run_vec(P->fn, sh, scratch + "/r", c, th, P->cpu_s);
		printf("%s\nstatus: %s\n%s\n", sh->desc, st == 2 ? "FAILS" : st == 3 ? "discarded" : "passes", sh->msg);
		if (st == 2) printf("VIOLATION property=%s replay=%s\n", P->id, replay.c_str());
		return st == 2 ? 1 : 0;
	}

	// listed known findings of this property: re-run their fixed input
	int nknown = 0; std::vector<std::string> unlisted;
	if (!noknown) for (auto &k : knowns()) if (id == k.property) {
		Shared *sh = (Shared *) shm(sizeof(Shared));
		std::filesystem::create_directories(scratch + "/k");
		std::vector<uint64_t> none;
		if (run_vec(k.fn, sh, scratch + "/k", none, thorough, 120) == 2) {
			std::string line = std::string("KNOWN-FINDING: property=") + k.property + " " + k.what, l; bool listed = knownfile.empty();
			std::ifstream kf(knownfile); while (std::getline(kf, l)) if (l == line) listed = true;
			if (listed) { printf("%s\n", line.c_str()); nknown++; }
			else {
				std::filesystem::create_directories(replaydir); std::string path = replaydir + "/" + k.property + "-known.case";
				std::ofstream f(path); f << "property: " << k.property << "\nfixed input: " << k.what << "\nmessage: " << sh->msg << "\n";
				printf("%s: %s: %s\n", k.property, k.what, sh->msg); unlisted.push_back(path);
			}
		}
		munmap(sh, sizeof(Shared));
	}

	Global *G = (Global *) shm(sizeof(Global)); G->stop = 0; G->failed_worker = -1; G->done = 0;
	std::vector<Shared *> S(workers); for (auto &s : S) s = (Shared *) shm(sizeof(Shared));
	std::vector<pid_t> pids;
	fflush(stdout);
	for (int w = 0; w < workers; w++) {
		pid_t pid = fork();
		if (pid == 0) {
			cleanup.me = -1;
			std::string dir = scratch + "/w" + std::to_string(w);
			std::filesystem::create_directories(dir);
			std::ofstream st(scratch + "/stat" + std::to_string(w));
			std::set<uint64_t> seen; std::map<std::string, long> lab, exc; long ev = 0, nt = 0, disc = 0, flaky = 0; uint64_t cmp = 0; int samples = 0;
			for (long i = w; i < cases && !G->stop && since(t0) < cap; i += workers) {
				uint64_t cs = mix(mix(seed * 1000003 + 17) ^ mix(std::hash<std::string>()(id)) ^ mix(i + 1));
				int r = run_case(P->fn, S[w], dir, false, cs, thorough, P->cpu_s);
				Shared *sh = S[w];
				ev++; cmp += sh->count;
				for (uint32_t k = 0; k < sh->nlab; k++) lab[sh->lab[k]]++;
				for (uint32_t k = 0; k < sh->nexc; k++) exc[sh->exc[k]]++;
				if (r == 3) { disc++; continue; }
				if (sh->nontrivial) {
					uint64_t h = 7; for (uint32_t k = 0; k < sh->nch; k++) h = mix(h ^ sh->ch[k]);
					if (seen.insert(h).second) nt++;
					if (samples < 2 && nt % 7 == 1) { samples++; st << "sample " << jstr(sh->desc) << "\n"; }
				}
				if (r == 2) {
					std::vector<uint64_t> c(sh->ch, sh->ch + sh->nch);
					bool slow = strstr(sh->msg, "did not end within") != nullptr; // too expensive to shrink
					bool rep = true; for (int k = 0; k < (slow ? 1 : 3) && rep; k++) rep = run_vec(P->fn, sh, dir, c, thorough, P->cpu_s) == 2;
					if (!rep) { flaky++; continue; }
					if (__sync_bool_compare_and_swap(&G->failed_worker, -1, w)) {
						G->stop = 1;
						if (!slow) shrink(P->fn, sh, dir, c, thorough, P->cpu_s, thorough ? 120 : 45);
						int okc = 0; for (int k = 0; k < (slow ? 1 : 3); k++) okc += run_vec(P->fn, sh, dir, c, thorough, P->cpu_s) == 2;
						std::filesystem::create_directories(replaydir);
						uint64_t h = 7; for (auto x : c) h = mix(h ^ x);
						char nm[64]; snprintf(nm, 64, "%s-%08x.case", P->id, (unsigned) (h & 0xffffffff));
						std::string path = replaydir + "/" + nm;
						std::ofstream f(path);
						f << "property: " << P->id << "\ntier: " << tier << "\nreproduced: " << okc << (slow ? "/1" : "/3") << "\nchoices:"; for (auto x : c) f << ' ' << x;
						f << "\nmessage: " << sh->msg << "\ncase:\n" << sh->desc << "\n";
						st << "fail " << path << "\n";
						fprintf(stdout, "%s: %s\ncase:\n%s\n", P->id, sh->msg, sh->desc);
					}
					break;
				}
			}
			st << "ev " << ev << "\nnt " << nt << "\ndisc " << disc << "\nflaky " << flaky << "\ncmp " << cmp << "\n";
			for (auto &x : lab) st << "lab " << x.second << " " << x.first << "\n";
			for (auto &x : exc) st << "exc " << x.second << " " << x.first << "\n";
			st.close(); fflush(stdout);
			_exit(0);
		}
		pids.push_back(pid);
	}
	bool worker_error = false;
	for (auto p : pids) { int ws; waitpid(p, &ws, 0); if (!WIFEXITED(ws) || WEXITSTATUS(ws)) worker_error = true; }
	long ev = 0, nt = 0, disc = 0, flaky = 0; unsigned long long cmp = 0; std::map<std::string, long> lab, exc; std::vector<std::string> samples, fails = unlisted;
	for (int w = 0; w < workers; w++) {
		std::ifstream f(scratch + "/stat" + std::to_string(w)); std::string line;
		while (std::getline(f, line)) {
			std::stringstream ss(line); std::string k; ss >> k;
			if (k == "ev") { long x; ss >> x; ev += x; } else if (k == "nt") { long x; ss >> x; nt += x; } else if (k == "disc") { long x; ss >> x; disc += x; }
			else if (k == "flaky") { long x; ss >> x; flaky += x; } else if (k == "cmp") { unsigned long long x; ss >> x; cmp += x; }
			else if (k == "lab" || k == "exc") { long n; ss >> n; std::string r; std::getline(ss, r); (k == "lab" ? lab : exc)[r.substr(1)] += n; }
			else if (k == "sample") samples.push_back(line.substr(7)); else if (k == "fail") fails.push_back(line.substr(5));
		}
	}
	double wall = since(t0);
	if (!evidence.empty()) {
		std::ofstream f(evidence);
		f << "{\"property\":" << jstr(P->id) << ",\"tier\":" << jstr(tier) << ",\"seed\":" << seed << ",\"level\":\"exploration\",\"coverage\":{\"evaluations\":" << ev
		  << ",\"distinct_nontrivial\":" << nt << ",\"oracle_comparisons\":" << cmp << ",\"discarded\":" << disc << ",\"not_reproduced\":" << flaky << ",\"rule\":" << jstr(P->rule) << ",\"samples\":[";
		for (size_t i = 0; i < samples.size() && i < 6; i++) f << (i ? "," : "") << samples[i];
		f << "],\"classes\":{"; bool first = true; for (auto &x : lab) { f << (first ? "" : ",") << jstr(x.first) << ":" << x.second; first = false; }
		f << "},\"excluded\":{"; first = true; for (auto &x : exc) { f << (first ? "" : ",") << jstr(x.first) << ":" << x.second; first = false; }
		f << "},\"known_findings_seen\":" << nknown << "},\"assumptions\":[";
		for (size_t i = 0; i < P->assumptions.size(); i++) f << (i ? "," : "") << jstr(P->assumptions[i]);
		f << "],\"wall_s\":" << wall << ",\"violations\":" << fails.size() << "}\n";
	}
	printf("%s %s seed=%llu: %ld cases, %ld distinct non-trivial, %llu comparisons, %ld discarded, %ld not reproduced, %.1f s\n", P->id, tier.c_str(), (unsigned long long) seed, ev, nt, cmp, disc, flaky, wall);
	for (auto &x : lab) printf("   %6ld %s\n", x.second, x.first.c_str());
	for (auto &x : exc) printf("   %6ld excluded: %s\n", x.second, x.first.c_str());
	for (auto &p : fails) printf("VIOLATION property=%s replay=%s\n", P->id, p.c_str());
	if (!fails.empty()) return 1;
	if (worker_error) { fprintf(stderr, "a worker failed\n"); return 3; }
	return 0;
}
