#include "pbt.h"
#include <sys/mman.h>
#include <sys/wait.h>
#include <sys/stat.h>
#include <sys/time.h>
#include <sys/resource.h>
#include <unistd.h>
#include <signal.h>
#include <fcntl.h>
#include <errno.h>
#include <poll.h>
#include <dirent.h>
#include <time.h>
#include <math.h>
#include <atomic>
#include <algorithm>
#include <fstream>

#if defined(__has_feature)
#if __has_feature(address_sanitizer) || __has_feature(thread_sanitizer)
#define PBT_SAN 1
#include <sanitizer/allocator_interface.h>
#endif
#endif

extern "C" const char *__asan_default_options() { return "detect_leaks=0:abort_on_error=1:allocator_may_return_null=0:max_allocation_size_mb=3000:handle_abort=0:detect_stack_use_after_return=0:quarantine_size_mb=16:malloc_context_size=6"; }
extern "C" const char *__tsan_default_options() { return "abort_on_error=1:halt_on_error=1:report_signal_unsafe=0"; }

namespace pbt {

uint64_t hash_str(const std::string &s, uint64_t h)
{
	for (unsigned char c : s) { h ^= c; h *= 1099511628211ull; }
	h ^= h >> 29; h *= 0xBF58476D1CE4E5B9ull; h ^= h >> 32;
	return h;
}

uint64_t Src::below(uint64_t n)
{
	if (n <= 1)
		return 0;
	uint64_t v;
	if (replay_)
		v = pos_ < in_.size() ? std::min(in_[pos_++], n - 1) : 0;
	else
		v = (uint64_t)(((unsigned __int128)rng_.next() * n) >> 64);
	if (rec_.size() < (1u << 20))
		rec_.push_back(v);
	return v;
}

uint64_t Src::bits()
{
	static const uint64_t special[] = {0, 1, 2, 3, 7, 8, 15, 16, 31, 32, 63, 64, 127, 128, 255, 256, 0x7fff, 0x8000, 0xffff, 0x10000,
		0x7fffffffull, 0x80000000ull, 0xffffffffull, 0x100000000ull, 0x7fffffffffffffffull, 0x8000000000000000ull,
		0x8000000000000001ull, 0xfffffffffffffffeull, 0xffffffffffffffffull, 0xaaaaaaaaaaaaaaaaull, 0x5555555555555555ull};
	switch (below(4)) {
	case 0: return below(16);
	case 1: return special[below(sizeof(special) / sizeof(special[0]))];
	case 2: { uint64_t sh = below(64); uint64_t v = 1ull << sh; int64_t d = range(0, 2); return v - 1 + d; }
	default: { uint64_t hi = below(1ull << 32), lo = below(1ull << 32); return (hi << 32) | lo; }
	}
}

unsigned Src::weighted(const std::vector<unsigned> &w)
{
	uint64_t total = 0;
	for (unsigned x : w) total += x;
	uint64_t v = below(total);
	for (unsigned i = 0; i < w.size(); i++) {
		if (v < w[i]) return i;
		v -= w[i];
	}
	return 0;
}

std::string quote(const std::string &s)
{
	std::string o = "\"";
	char b[8];
	for (unsigned char c : s) {
		if (c == '"' || c == '\\') { o += '\\'; o += (char)c; }
		else if (c == '\n') o += "\\n";
		else if (c == '\r') o += "\\r";
		else if (c == '\t') o += "\\t";
		else if (c < 0x20 || c >= 0x7f) { snprintf(b, sizeof b, "\\x%02x", c); o += b; }
		else o += (char)c;
	}
	return o + "\"";
}

std::string json_quote(const std::string &s)
{
	std::string o = "\"";
	char b[8];
	for (unsigned char c : s) {
		if (c == '"' || c == '\\') { o += '\\'; o += (char)c; }
		else if (c == '\n') o += "\\n";
		else if (c == '\t') o += "\\t";
		else if (c < 0x20 || c >= 0x7f) { snprintf(b, sizeof b, "\\u%04x", c); o += b; }
		else o += (char)c;
	}
	return o + "\"";
}

static const size_t MSGCAP = 16384, RECCAP = 1u << 18;
enum { ST_RUNNING = 0, ST_PASS = 1, ST_FAIL = 2, ST_DISCARD = 3 };
struct Shared {
	volatile uint64_t cur;       // current case index + 1
	volatile uint64_t evals, discards;
	volatile int status;
	char msg[MSGCAP];
	char desc[MSGCAP];
	volatile uint64_t nrec;
	uint64_t rec[RECCAP];
};
struct Global { volatile uint64_t stop_at; };

static Shared *g_sh;
static void copy_text(char *dst, const std::string &s)
{
	size_t n = std::min(s.size(), MSGCAP - 1);
	memcpy(dst, s.data(), n);
	dst[n] = 0;
}
void Ctx::publish() { if (g_sh) copy_text(g_sh->desc, desc); }

static void *shmap(size_t n)
{
	void *p = mmap(NULL, n, PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS, -1, 0);
	if (p == MAP_FAILED) { perror("mmap"); _exit(2); }
	return p;
}

#ifdef PBT_SAN
static std::atomic<int64_t> g_live(0);
static const int64_t LIVE_CAP = 1800ll << 20;
static void mhook(const volatile void *p, size_t n)
{
	if ((g_live += (int64_t)n) > LIVE_CAP) {
		static const char m[] = "pbt: live heap exceeded 1800 MB\n";
		ssize_t r = write(2, m, sizeof m - 1); (void)r;
		signal(SIGABRT, SIG_DFL);
		raise(SIGABRT);
	}
}
static void fhook(const volatile void *p) { if (p) g_live -= (int64_t)__sanitizer_get_allocated_size(p); }
#endif

static void set_case_timer(unsigned cpu_s)
{
	struct itimerval it;
	memset(&it, 0, sizeof it);
	it.it_value.tv_sec = cpu_s;
	setitimer(ITIMER_PROF, &it, NULL);
	alarm(cpu_s ? cpu_s * 15 : 0);
}

static void child_init(const std::string &errfile)
{
	struct rlimit rl = {0, 0};
	setrlimit(RLIMIT_CORE, &rl);
	int fd = open(errfile.c_str(), O_CREAT | O_TRUNC | O_WRONLY, 0600);
	if (fd >= 0) { dup2(fd, 2); dup2(fd, 1); close(fd); }
	signal(SIGPROF, SIG_DFL);
	signal(SIGALRM, SIG_DFL);
	signal(SIGPIPE, SIG_IGN);
}

static int eval_case(const Config &cfg, Src &src, Ctx &ctx, std::string &msg)
{
	try {
		cfg.fn(src, ctx);
		return ST_PASS;
	} catch (Fail &f) {
		msg = f.msg;
		return ST_FAIL;
	} catch (Discard &) {
		return ST_DISCARD;
	} catch (std::exception &e) {
		msg = std::string("unexpected C++ exception: ") + e.what();
		return ST_FAIL;
	}
}

static std::string g_tmp;
static pid_t g_tmp_owner;
static void rm_tree(const std::string &d)
{
	if (d.size() < 6) return;
	DIR *dp = opendir(d.c_str());
	if (!dp) { unlink(d.c_str()); return; }
	while (struct dirent *e = readdir(dp)) {
		std::string n = e->d_name;
		if (n == "." || n == "..") continue;
		std::string p = d + "/" + n;
		struct stat st;
		if (lstat(p.c_str(), &st) == 0 && S_ISDIR(st.st_mode)) rm_tree(p);
		else unlink(p.c_str());
	}
	closedir(dp);
	rmdir(d.c_str());
}
static void make_tmp()
{
	const char *base = getenv("TMPDIR");
	std::string t = std::string(base && *base ? base : "/tmp") + "/verif-pbt.XXXXXX";
	std::vector<char> b(t.begin(), t.end());
	b.push_back(0);
	if (!mkdtemp(b.data())) { perror("mkdtemp"); exit(2); }
	g_tmp = b.data();
	chmod(g_tmp.c_str(), 0700);
	g_tmp_owner = getpid();
}
static void drop_tmp() { if (!g_tmp.empty() && g_tmp_owner == getpid()) rm_tree(g_tmp); }

std::string scratch_dir()
{
	static std::string d;
	static pid_t owner;
	if (d.empty() || owner != getpid()) {
		d = g_tmp + "/w" + std::to_string(getpid());
		mkdir(d.c_str(), 0700);
		owner = getpid();
	}
	return d;
}
void write_file(const std::string &path, const std::string &data)
{
	FILE *f = fopen(path.c_str(), "wb");
	if (!f) throw std::runtime_error("cannot write " + path);
	fwrite(data.data(), 1, data.size(), f);
	fclose(f);
}
std::string read_file(const std::string &path)
{
	std::ifstream f(path.c_str(), std::ios::binary);
	std::stringstream ss;
	ss << f.rdbuf();
	return ss.str();
}
std::string tool(const std::string &name)
{
	const char *d = getenv("VERIF_TOOLS");
	return std::string(d ? d : ".") + "/" + name;
}

ProcResult run_proc(const std::vector<std::string> &argv, const std::string &in, unsigned wall_s, const std::string &cwd)
{
	ProcResult r;
	std::string base = scratch_dir() + "/proc";
	std::string fo = base + ".out", fe = base + ".err", fi = base + ".in";
	write_file(fi, in);
	pid_t p = fork();
	if (p == 0) {
		int a = open(fi.c_str(), O_RDONLY), b = open(fo.c_str(), O_CREAT | O_TRUNC | O_WRONLY, 0600), c = open(fe.c_str(), O_CREAT | O_TRUNC | O_WRONLY, 0600);
		dup2(a, 0); dup2(b, 1); dup2(c, 2);
		if (!cwd.empty() && chdir(cwd.c_str()) < 0) _exit(126);
		struct rlimit rl = {wall_s, wall_s + 1};
		setrlimit(RLIMIT_CPU, &rl);
		struct rlimit fs = {64u << 20, 64u << 20};
		setrlimit(RLIMIT_FSIZE, &fs);
		struct itimerval it; memset(&it, 0, sizeof it);
		setitimer(ITIMER_PROF, &it, NULL);
		alarm(wall_s * 10);
		std::vector<char *> av;
		for (auto &s : argv) av.push_back(const_cast<char *>(s.c_str()));
		av.push_back(NULL);
		execv(av[0], av.data());
		_exit(127);
	}
	int st = 0;
	while (waitpid(p, &st, 0) < 0 && errno == EINTR) {}
	if (WIFEXITED(st)) r.code = WEXITSTATUS(st);
	else { r.sig = WTERMSIG(st); r.timeout = r.sig == SIGXCPU || r.sig == SIGALRM; }
	r.out = read_file(fo);
	r.err = read_file(fe);
	return r;
}

struct Outcome { int status; std::string msg, desc, log; std::vector<uint64_t> rec; };

static std::string sig_reason(int st, const std::string &log)
{
	std::string m;
	if (WIFSIGNALED(st)) {
		int s = WTERMSIG(st);
		if (s == SIGPROF || s == SIGALRM) m = "did not finish within the CPU limit (hang)";
		else m = cat("crashed with signal ", s, " (", strsignal(s), ")");
	} else m = cat("process exited with code ", WEXITSTATUS(st), " in the middle of the case");
	size_t p = log.find("ERROR: ");
	if (p == std::string::npos) p = log.find("WARNING: ThreadSanitizer");
	if (p == std::string::npos) p = log.find("Assertion");
	if (p == std::string::npos) p = log.find("pbt: ");
	if (p != std::string::npos) {
		size_t e = p;
		int lines = 0;
		while (e < log.size() && lines < 10) { if (log[e] == '\n') lines++; e++; }
		m += ": " + log.substr(p, e - p);
	}
	return m;
}

// Evaluate several choice sequences at once, each in its own process.
static std::vector<Outcome> eval_many(const Config &cfg, const std::vector<std::vector<uint64_t>> &cands, unsigned cpu_s, bool thorough)
{
	static std::vector<Shared *> pool;
	while (pool.size() < cands.size()) pool.push_back((Shared *)shmap(sizeof(Shared)));
	std::vector<pid_t> pids(cands.size());
	std::vector<Outcome> out(cands.size());
	for (size_t i = 0; i < cands.size(); i++) {
		Shared *sh = pool[i];
		sh->status = ST_RUNNING; sh->msg[0] = 0; sh->desc[0] = 0; sh->nrec = 0;
		std::string ef = cat(g_tmp, "/cand", i, ".err");
		pids[i] = fork();
		if (pids[i] == 0) {
			child_init(ef);
			g_sh = sh;
			set_case_timer(cpu_s);
			Src src(cands[i]);
			Ctx ctx;
			ctx.thorough = thorough;
			std::string msg;
			int st = eval_case(cfg, src, ctx, msg);
			copy_text(sh->msg, msg);
			size_t n = std::min(src.recorded().size(), RECCAP);
			memcpy(sh->rec, src.recorded().data(), n * 8);
			sh->nrec = n;
			sh->status = st;
			fflush(NULL);
			if (g_tmp_owner != getpid()) rm_tree(g_tmp + "/w" + std::to_string(getpid()));
			_exit(0);
		}
	}
	for (size_t i = 0; i < cands.size(); i++) {
		int st = 0;
		while (waitpid(pids[i], &st, 0) < 0 && errno == EINTR) {}
		Shared *sh = pool[i];
		Outcome &o = out[i];
		o.desc = sh->desc;
		if (sh->status == ST_RUNNING || (WIFEXITED(st) && WEXITSTATUS(st) == 66) || WIFSIGNALED(st)) {
			o.status = ST_FAIL;
			o.log = read_file(cat(g_tmp, "/cand", i, ".err"));
			o.msg = sig_reason(st, o.log);
			o.rec = cands[i];
			rm_tree(g_tmp + "/w" + std::to_string(pids[i]));
		} else {
			o.status = sh->status;
			o.msg = sh->msg;
			o.rec.assign(sh->rec, sh->rec + sh->nrec);
		}
	}
	return out;
}

static bool smaller(const std::vector<uint64_t> &a, const std::vector<uint64_t> &b)
{
	if (a.size() != b.size()) return a.size() < b.size();
	return a < b;
}

static double now()
{
	struct timespec ts;
	clock_gettime(CLOCK_MONOTONIC, &ts);
	return ts.tv_sec + ts.tv_nsec * 1e-9;
}

static void shrink(const Config &cfg, std::vector<uint64_t> &best, Outcome &bo, bool thorough)
{
	double t0 = now();
	unsigned attempts = 0;
	const unsigned maxattempts = 4000;
	unsigned cpu = std::min(cfg.cpu_limit_s, 8u);
	if (bo.msg.find("(hang)") != std::string::npos) cpu = 4;
	auto budget = [&]() { return attempts < maxattempts && now() - t0 < 60; };
	auto try_batch = [&](const std::vector<std::vector<uint64_t>> &c) -> bool {
		if (c.empty()) return false;
		attempts += c.size();
		std::vector<Outcome> o = eval_many(cfg, c, cpu, thorough);
		int sel = -1;
		for (size_t i = 0; i < o.size(); i++)
			if (o[i].status == ST_FAIL) {
				std::vector<uint64_t> r = o[i].rec.size() && o[i].rec.size() <= c[i].size() ? o[i].rec : c[i];
				if (smaller(r, best) && (sel < 0 || smaller(r, o[sel].rec))) { o[i].rec = r; sel = (int)i; }
			}
		if (sel < 0) return false;
		best = o[sel].rec;
		bo = o[sel];
		return true;
	};
	bool progress = true;
	while (progress && budget()) {
		progress = false;
		for (size_t k = std::max<size_t>(best.size() / 2, 1); k >= 1 && budget(); k = (k > 1 ? k / 2 : 0)) {
			size_t i = 0;
			while (i < best.size() && budget()) {
				std::vector<std::vector<uint64_t>> c;
				for (size_t j = i; j < best.size() && c.size() < 8; j += k) {
					std::vector<uint64_t> v = best;
					v.erase(v.begin() + j, v.begin() + std::min(j + k, v.size()));
					c.push_back(v);
				}
				size_t n = c.size();
				if (try_batch(c)) progress = true;
				else i += n * k;
			}
			if (k == 1) break;
		}
		for (size_t k = 8; k >= 1 && budget(); k /= 2) {
			size_t i = 0;
			while (i < best.size() && budget()) {
				std::vector<std::vector<uint64_t>> c;
				size_t j = i;
				for (; j < best.size() && c.size() < 8; j += k) {
					std::vector<uint64_t> v = best;
					bool ch = false;
					for (size_t q = j; q < std::min(j + k, v.size()); q++) if (v[q]) { v[q] = 0; ch = true; }
					if (ch) c.push_back(v);
				}
				if (try_batch(c)) progress = true;
				i = j;
			}
		}
		for (size_t i = 0; i < best.size() && budget(); i++) {
			if (!best[i]) continue;
			std::vector<std::vector<uint64_t>> c;
			uint64_t x = best[i];
			std::set<uint64_t> vals = {x - 1, x / 2, x / 4, x > 8 ? x - 8 : 0, x - x / 4, 1};
			for (uint64_t y : vals) if (y < x) { std::vector<uint64_t> v = best; v[i] = y; c.push_back(v); }
			if (try_batch(c)) { progress = true; if (i < best.size() && best[i]) i--; }
		}
		// lower a pair: decrement a length-like choice while deleting a later one
		for (size_t i = 0; i + 1 < best.size() && budget(); i++) {
			if (!best[i]) continue;
			std::vector<std::vector<uint64_t>> c;
			for (size_t d = 1; d <= 4 && i + d < best.size(); d++) {
				std::vector<uint64_t> v = best;
				v[i]--;
				v.erase(v.begin() + i + 1, v.begin() + i + 1 + d);
				c.push_back(v);
			}
			if (try_batch(c)) progress = true;
		}
	}
	fprintf(stderr, "shrunk to %zu choices in %u attempts\n", best.size(), attempts);
}

// Run the given cases one after another in one process of their own: true if the last of them fails. This is how a
// failure is confirmed that needs what earlier cases left behind in the process (static data of the code under test).
static bool eval_sequence(const Config &cfg, uint64_t seed, const std::vector<uint64_t> &seq, bool thorough, Outcome &out)
{
	static Shared *sh;
	if (!sh) sh = (Shared *)shmap(sizeof(Shared));
	sh->status = ST_RUNNING; sh->msg[0] = 0; sh->desc[0] = 0; sh->cur = 0;
	std::string ef = g_tmp + "/sequence.err";
	fflush(NULL);
	pid_t p = fork();
	if (p == 0) {
		child_init(ef);
		g_sh = sh;
#ifdef PBT_SAN
		__sanitizer_install_malloc_and_free_hooks(mhook, fhook);
#endif
		int st = ST_PASS;
		for (size_t i = 0; i < seq.size(); i++) {
			sh->cur = i + 1;
			sh->desc[0] = 0;
			set_case_timer(cfg.cpu_limit_s);
			Src src(hash_str(cat(cfg.id, ":", seed, ":", seq[i])));
			Ctx ctx;
			ctx.thorough = thorough;
			std::string msg;
			st = eval_case(cfg, src, ctx, msg);
			if (st == ST_FAIL) { copy_text(sh->msg, msg); break; }
		}
		sh->status = st;
		fflush(NULL);
		rm_tree(g_tmp + "/w" + std::to_string(getpid()));
		_exit(0);
	}
	int st = 0;
	while (waitpid(p, &st, 0) < 0 && errno == EINTR) {}
	out.desc = sh->desc;
	bool crashed = sh->status == ST_RUNNING || (WIFEXITED(st) && WEXITSTATUS(st) == 66) || WIFSIGNALED(st);
	if (crashed) {
		out.log = read_file(ef);
		out.msg = sig_reason(st, out.log);
		rm_tree(g_tmp + "/w" + std::to_string(p));
	} else out.msg = sh->msg;
	out.status = crashed ? ST_FAIL : sh->status;
	return out.status == ST_FAIL;
}

static void worker(const Config &cfg, unsigned w, unsigned nw, uint64_t seed, uint64_t start, uint64_t cases, Shared *sh, Global *gl, bool thorough)
{
	child_init(cat(g_tmp, "/worker", w, ".err"));
	g_sh = sh;
#ifdef PBT_SAN
	__sanitizer_install_malloc_and_free_hooks(mhook, fhook);
#endif
	std::unordered_set<uint64_t> seen;
	std::map<std::string, uint64_t> tags;
	std::vector<std::string> samples;
	for (uint64_t i = start + (w + nw - start % nw) % nw; i < cases; i += nw) {
		if (i > gl->stop_at) break;
		sh->cur = i + 1;
		sh->desc[0] = 0;
		set_case_timer(cfg.cpu_limit_s);
		Src src(hash_str(cat(cfg.id, ":", seed, ":", i)));
		Ctx ctx;
		ctx.thorough = thorough;
		std::string msg;
		int st = eval_case(cfg, src, ctx, msg);
		if (st == ST_DISCARD) { sh->discards++; continue; }
		sh->evals++;
		for (auto &t : ctx.tags) tags[t.first] += t.second;
		if (st == ST_FAIL) {
			copy_text(sh->msg, msg);
			size_t n = std::min(src.recorded().size(), RECCAP);
			memcpy(sh->rec, src.recorded().data(), n * 8);
			sh->nrec = n;
			sh->status = ST_FAIL;
			break;
		}
		if (ctx.nontrivial) {
			if (seen.insert(hash_str(ctx.desc)).second && samples.size() < 3 && (i / nw) % 17 == 3)
				samples.push_back(ctx.desc.substr(0, 600));
		}
	}
	set_case_timer(0);
	if (sh->status == ST_RUNNING) sh->status = ST_PASS;
	std::ofstream f(cat(g_tmp, "/worker", w, ".res").c_str());
	f << seen.size() << "\n";
	for (uint64_t h : seen) f << h << "\n";
	f << tags.size() << "\n";
	for (auto &t : tags) f << t.second << " " << t.first << "\n";
	f << samples.size() << "\n";
	for (auto &s : samples) f << json_quote(s) << "\n";
	f.close();
	rm_tree(g_tmp + "/w" + std::to_string(getpid()));
	fflush(NULL);
	_exit(0);
}

static std::vector<uint64_t> load_replay(const char *path)
{
	std::ifstream f(path);
	std::string line;
	std::vector<uint64_t> v;
	bool in = false;
	while (std::getline(f, line)) {
		if (line.compare(0, 8, "choices:") == 0) { in = true; line = line.substr(8); }
		else if (!in) continue;
		std::istringstream is(line);
		uint64_t x;
		while (is >> x) v.push_back(x);
	}
	return v;
}

int run_main(int argc, char **argv, const Config &cfg)
{
	std::string tier = getenv("VERIF_TIER") ? getenv("VERIF_TIER") : "quick", evidence, replaydir = "replays", replay, knownfile;
	uint64_t seed = getenv("VERIF_SEED") ? strtoull(getenv("VERIF_SEED"), NULL, 10) : 1, cases = 0, one = 0;
	bool have_one = false;
	unsigned workers = cfg.workers;
	for (int i = 1; i < argc; i++) {
		std::string a = argv[i];
		auto val = [&]() { return std::string(i + 1 < argc ? argv[++i] : ""); };
		if (a == "--tier") tier = val();
		else if (a == "--seed") seed = strtoull(val().c_str(), NULL, 10);
		else if (a == "--evidence") evidence = val();
		else if (a == "--replays") replaydir = val();
		else if (a == "--replay") replay = val();
		else if (a == "--cases") cases = strtoull(val().c_str(), NULL, 10);
		else if (a == "--case") { one = strtoull(val().c_str(), NULL, 10); have_one = true; }
		else if (a == "--workers") workers = atoi(val().c_str());
		else if (a == "--known") knownfile = val();
	}
	bool thorough = tier == "thorough";
	if (!cases) cases = thorough ? cfg.thorough_cases : cfg.quick_cases;
	make_tmp();
	atexit(drop_tmp);
	if (!replay.empty()) {
		std::istringstream rf(read_file(replay));
		for (std::string l; std::getline(rf, l);) if (l.compare(0, 10, "sequence: ") == 0) {
			std::istringstream is(l.substr(10));
			uint64_t sd, x;
			std::vector<uint64_t> q;
			is >> sd;
			while (is >> x) q.push_back(x);
			Outcome o;
			bool bad = eval_sequence(cfg, sd, q, thorough, o);
			printf("case: %s\n%s%s\n", o.desc.c_str(), bad ? "FAILS: " : "passes", bad ? o.msg.c_str() : "");
			return bad;
		}
		std::vector<Outcome> o = eval_many(cfg, {load_replay(replay.c_str())}, cfg.cpu_limit_s, thorough);
		printf("case: %s\n", o[0].desc.c_str());
		if (o[0].status == ST_FAIL) { printf("FAILS: %s\n", o[0].msg.c_str()); return 1; }
		printf("%s\n", o[0].status == ST_DISCARD ? "discarded" : "passes");
		return 0;
	}
	if (have_one) {
		Src src(hash_str(cat(cfg.id, ":", seed, ":", one)));
		Ctx ctx;
		ctx.thorough = thorough;
		std::string msg;
		int st = eval_case(cfg, src, ctx, msg);
		printf("case: %s\nstatus %d %s\n", ctx.desc.c_str(), st, msg.c_str());
		return st == ST_FAIL;
	}
	double t0 = now();
	uint64_t start = 0;
	Global *gl = (Global *)shmap(sizeof(Global));
	std::vector<Shared *> sh(workers);
	for (unsigned w = 0; w < workers; w++) sh[w] = (Shared *)shmap(sizeof(Shared));
	uint64_t evals = 0, discards = 0;
	std::unordered_set<uint64_t> distinct;
	std::map<std::string, uint64_t> tags;
	std::vector<std::string> samples;
	int violations = 0, passing = 0;
	std::string rpath, note;
again:
	gl->stop_at = UINT64_MAX;
	std::vector<pid_t> pids(workers);
	for (unsigned w = 0; w < workers; w++) {
		sh[w]->status = ST_RUNNING; sh[w]->cur = sh[w]->evals = sh[w]->discards = 0; sh[w]->msg[0] = 0;
		unlink(cat(g_tmp, "/worker", w, ".res").c_str());
		fflush(NULL);
		pids[w] = fork();
		if (pids[w] == 0) worker(cfg, w, workers, seed, start, cases, sh[w], gl, thorough);
	}
	uint64_t bad = UINT64_MAX;
	int badw = -1;
	Outcome bo;
	for (unsigned k = 0; k < workers; k++) {
		int st = 0;
		pid_t p;
		while ((p = wait(&st)) < 0 && errno == EINTR) {}
		unsigned w = 0;
		while (w < workers && pids[w] != p) w++;
		if (w == workers) { k--; continue; }
		bool failed = sh[w]->status == ST_FAIL || sh[w]->status == ST_RUNNING || WIFSIGNALED(st) || (WIFEXITED(st) && WEXITSTATUS(st) != 0);
		if (!failed) continue;
		if (WIFSIGNALED(st) && WTERMSIG(st) == SIGKILL) {
			fprintf(stderr, "worker killed (out of memory?)\n");
			return 3;
		}
		uint64_t idx = sh[w]->cur - 1;
		if (idx < gl->stop_at) gl->stop_at = idx;
		if (idx < bad) {
			bad = idx;
			badw = (int)w;
			bo.desc = sh[w]->desc;
			if (sh[w]->status == ST_FAIL) bo.msg = sh[w]->msg;
			else { bo.log = read_file(cat(g_tmp, "/worker", w, ".err")); bo.msg = sig_reason(st, bo.log); rm_tree(g_tmp + "/w" + std::to_string(pids[w])); }
		}
	}
	for (unsigned w = 0; w < workers; w++) {
		evals += sh[w]->evals;
		discards += sh[w]->discards;
		std::ifstream f(cat(g_tmp, "/worker", w, ".res").c_str());
		size_t n = 0;
		f >> n;
		for (size_t i = 0; i < n; i++) { uint64_t h; f >> h; distinct.insert(h); }
		n = 0;
		f >> n;
		for (size_t i = 0; i < n; i++) { uint64_t c; std::string t; f >> c; f.get(); std::getline(f, t); tags[t] += c; }
		n = 0;
		f >> n;
		std::string l;
		std::getline(f, l);
		for (size_t i = 0; i < n && std::getline(f, l); i++) if (samples.size() < 8) samples.push_back(l);
	}
	if (badw >= 0) {
		// regenerate the failing case's choices (a crash leaves no record) and confirm it three times
		std::vector<uint64_t> ch;
		{
			Shared *r = (Shared *)shmap(sizeof(Shared));
			pid_t p = fork();
			if (p == 0) {
				child_init(g_tmp + "/regen.err");
				set_case_timer(cfg.cpu_limit_s);
				// run with a source that mirrors every choice into shared memory as it is drawn
				struct Mirror {};
				Src *src = new Src(hash_str(cat(cfg.id, ":", seed, ":", bad)));
				// the recorded vector is copied out by a signal/exit-safe poller: sample it from an atexit-free loop
				struct H { static void dump(Src *s, Shared *r) { size_t n = std::min(s->recorded().size(), RECCAP); memcpy(r->rec, s->recorded().data(), n * 8); r->nrec = n; } };
				static Src *gs; static Shared *gr;
				gs = src; gr = r;
				auto hd = +[](int sgn) { H::dump(gs, gr); signal(sgn, SIG_DFL); raise(sgn); };
				for (int sgn : {SIGABRT, SIGSEGV, SIGBUS, SIGFPE, SIGILL, SIGPROF, SIGALRM}) signal(sgn, hd);
#ifdef PBT_SAN
				__sanitizer_install_malloc_and_free_hooks(mhook, fhook);
#endif
				stack_t ss; memset(&ss, 0, sizeof ss); ss.ss_sp = malloc(1 << 16); ss.ss_size = 1 << 16; sigaltstack(&ss, NULL);
				for (int sgn : {SIGSEGV, SIGBUS}) { struct sigaction sa; memset(&sa, 0, sizeof sa); sa.sa_handler = hd; sa.sa_flags = SA_ONSTACK; sigaction(sgn, &sa, NULL); }
				Ctx ctx; ctx.thorough = thorough;
				std::string msg;
				eval_case(cfg, *src, ctx, msg);
				H::dump(src, r);
				_exit(0);
			}
			int st;
			while (waitpid(p, &st, 0) < 0 && errno == EINTR) {}
			rm_tree(g_tmp + "/w" + std::to_string(p));
			ch.assign(r->rec, r->rec + r->nrec);
		}
		auto confirm = [&](const std::vector<uint64_t> &c, Outcome &res) {
			int n = 0;
			for (int k = 0; k < 3; k++) {
				std::vector<Outcome> o = eval_many(cfg, {c}, cfg.cpu_limit_s, thorough);
				if (o[0].status == ST_FAIL) { n++; res = o[0]; }
			}
			return n;
		};
		Outcome co;
		int n = confirm(ch, co);
		if (n == 3) {
			std::vector<uint64_t> best = ch;
			Outcome so = co;
			shrink(cfg, best, so, thorough);
			Outcome fin;
			if (confirm(best, fin) == 3) { ch = best; bo = fin; }
			else bo = co;
			violations = 1;
			note = "replayed 3/3";
		} else if (n > 0) {
			violations = 1;
			bo = co;
			note = cat("replayed ", n, "/3");
		}
		// on its own the case passes: try it after the cases that ran before it in the same process
		std::vector<uint64_t> seq;
		if (n == 0) {
			for (uint64_t i = start + (badw + workers - start % workers) % workers; i <= bad; i += workers) seq.push_back(i);
			Outcome so;
			auto fails = [&](const std::vector<uint64_t> &q) { for (int k = 0; k < 3; k++) if (!eval_sequence(cfg, seed, q, thorough, so)) return false; return true; };
			if (fails(seq)) {
				double s0 = now();
				for (size_t k = seq.size() / 2; k >= 1 && now() - s0 < 90; k /= 2)
					for (size_t i = 0; i + 1 < seq.size() && now() - s0 < 90;) {
						std::vector<uint64_t> q(seq.begin(), seq.begin() + i);
						q.insert(q.end(), seq.begin() + std::min(i + k, seq.size() - 1), seq.end());
						if (q.size() < seq.size() && eval_sequence(cfg, seed, q, thorough, so)) seq = q; else i += k;
					}
				if (!fails(seq)) { fprintf(stderr, "the reduced sequence of cases does not fail every time\n"); eval_sequence(cfg, seed, seq, thorough, so); }
				bo.desc = cat("(case ", bad, " after ", seq.size() - 1, " other case(s) in one process; these and their choices follow from the seed)\n", so.desc);
				bo.msg = so.msg;
				violations = 1;
				note = "replayed 3/3 in sequence";
			} else {
				fprintf(stderr, "case %llu failed once (%s) but its replay passes: not reported\n", (unsigned long long)bad, bo.msg.c_str());
				if (++passing < 20) { start = bad + 1; goto again; }
			}
		}
		if (violations) {
			mkdir(replaydir.c_str(), 0755);
			std::ostringstream o;
			o << "property: " << cfg.id << "\nseed: " << seed << " case: " << bad << " (" << note << ")\ncase: " << bo.desc << "\nfailure: " << bo.msg << "\nreplay with: ./check.sh " << cfg.id << " --replay <this file>\n";
			if (!seq.empty()) { o << "sequence: " << seed; for (uint64_t i : seq) o << " " << i; o << "\n"; }
			else o << "choices:";
			if (seq.empty())
			for (size_t i = 0; i < ch.size(); i++) o << (i % 24 == 0 ? "\n" : " ") << ch[i];
			o << "\n";
			rpath = cat(replaydir, "/", cfg.id, "-", seed, "-", bad, ".txt");
			write_file(rpath, o.str());
			printf("case: %s\nfailure: %s\n", bo.desc.c_str(), bo.msg.c_str());
		}
	}
	if (!knownfile.empty()) {
		std::ifstream f(knownfile.c_str());
		std::string line;
		std::string pre = cat("KNOWN-FINDING: property=", cfg.id, " ");
		while (std::getline(f, line)) {
			if (line.compare(0, pre.size(), pre) != 0) continue;
			std::string key = line.substr(pre.size());
			key = key.substr(0, key.find(' '));
			auto it = cfg.known.find(key);
			bool rep = true;
			if (it != cfg.known.end()) {
				fflush(NULL);
				pid_t p = fork();
				if (p == 0) { child_init(g_tmp + "/known.err"); set_case_timer(cfg.cpu_limit_s); bool b = true; try { b = it->second(); } catch (...) {} _exit(b ? 1 : 0); }
				int st;
				while (waitpid(p, &st, 0) < 0 && errno == EINTR) {}
				rep = !(WIFEXITED(st) && WEXITSTATUS(st) == 0);
			}
			if (rep) printf("%s\n", line.c_str());
		}
	}
	double wall = now() - t0;
	if (!evidence.empty()) {
		std::ostringstream o;
		o << "{\n \"property\": \"" << cfg.id << "\",\n \"tier\": \"" << (thorough ? "thorough" : "quick") << "\",\n \"seed\": " << seed << ",\n \"level\": \"exploration\",\n \"coverage\": {\n"
		  << "  \"evaluations\": " << evals << ",\n  \"distinct_nontrivial\": " << distinct.size() << ",\n  \"discarded\": " << discards << ",\n  \"rule\": " << json_quote(cfg.rule) << ",\n  \"classes\": {";
		bool first = true;
		for (auto &t : tags) { o << (first ? "" : ",") << "\n   " << json_quote(t.first) << ": " << t.second; first = false; }
		o << "\n  },\n  \"samples\": [";
		for (size_t i = 0; i < samples.size(); i++) o << (i ? "," : "") << "\n   " << samples[i];
		o << "\n  ]\n },\n \"assumptions\": [";
		for (size_t i = 0; i < cfg.assumptions.size(); i++) o << (i ? "," : "") << "\n  " << json_quote(cfg.assumptions[i]);
		o << "\n ],\n \"wall_s\": " << wall << ",\n \"violations\": " << violations << "\n}\n";
		write_file(evidence, o.str());
	}
	if (violations) {
		printf("VIOLATION property=%s replay=%s\n", cfg.id, rpath.c_str());
		return 1;
	}
	printf("%s: ok, %llu cases, %zu distinct non-trivial, %.1f s\n", cfg.id, (unsigned long long)evals, distinct.size(), wall);
	for (auto &t : tags) fprintf(stderr, "   %-40s %llu\n", t.first.c_str(), (unsigned long long)t.second);
	return 0;
}

}
