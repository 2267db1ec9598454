// Small property-based-testing engine: seeded generation from a recorded choice sequence, process-isolated
// evaluation on all cores, universal shrinking on the choice sequence, replay files, evidence files.
#ifndef VERIF_PBT_H
#define VERIF_PBT_H
#include <stdint.h>
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
#include <string>
#include <vector>
#include <map>
#include <set>
#include <unordered_set>
#include <functional>
#include <sstream>

namespace pbt {

struct Fail { std::string msg; };
struct Discard {};

struct Rng {
	uint64_t s;
	explicit Rng(uint64_t seed = 1) : s(seed) {}
	uint64_t next() {            // splitmix64
		uint64_t z = (s += 0x9E3779B97F4A7C15ull);
		z = (z ^ (z >> 30)) * 0xBF58476D1CE4E5B9ull;
		z = (z ^ (z >> 27)) * 0x94D049BB133111EBull;
		return z ^ (z >> 31);
	}
};

uint64_t hash_str(const std::string &s, uint64_t h = 1469598103934665603ull);

// The source of every generated choice. Generators are written so that 0 is the simplest choice.
class Src {
public:
	Src(uint64_t seed) : rng_(seed), replay_(false) {}
	Src(const std::vector<uint64_t> &in) : rng_(0), in_(in), replay_(true) {}
	uint64_t below(uint64_t n);                       // uniform in [0,n)
	int64_t range(int64_t lo, int64_t hi) { return lo + (int64_t)below((uint64_t)(hi - lo) + 1); }
	bool chance(unsigned num, unsigned den) { return below(den) >= den - num; }   // true with prob num/den; 0 => false
	uint64_t bits();                                  // interesting 64-bit value
	template <class T> const T &pick(const std::vector<T> &v) { return v[below(v.size())]; }
	unsigned weighted(const std::vector<unsigned> &w);
	const std::vector<uint64_t> &recorded() const { return rec_; }
private:
	Rng rng_;
	std::vector<uint64_t> in_, rec_;
	size_t pos_ = 0;
	bool replay_;
};

class Ctx {
public:
	bool nontrivial = false;
	std::string desc;                 // a written-out form of the case
	std::map<std::string, uint64_t> tags;
	bool thorough = false;
	void tag(const std::string &t) { tags[t]++; }
	void describe(const std::string &s) { desc = s; publish(); }
	void append(const std::string &s) { desc += s; publish(); }
	[[noreturn]] void fail(const std::string &m) { throw Fail{m}; }
	void check(bool ok, const std::string &m) { if (!ok) throw Fail{m}; }
private:
	void publish();
};

struct Config {
	const char *id;
	const char *rule;                 // how cases are made; what makes one non-trivial
	uint64_t quick_cases, thorough_cases;
	std::function<void(Src &, Ctx &)> fn;
	std::vector<std::string> assumptions;
	unsigned cpu_limit_s = 20;        // CPU seconds for one case before it counts as a hang
	unsigned workers = 8;
	// Called once for each KNOWN_FINDINGS tag: returns true if that finding still reproduces.
	std::map<std::string, std::function<bool()>> known;
};

int run_main(int argc, char **argv, const Config &cfg);

std::string quote(const std::string &s);              // printable C-like quoting
std::string json_quote(const std::string &s);
template <class... A> std::string cat(const A &...a) { std::ostringstream o; (void)std::initializer_list<int>{((o << a), 0)...}; return o.str(); }

// Subprocess helper for the command-line tools: no shell, own stdin, captured stdout/stderr.
struct ProcResult { int code = 0; int sig = 0; bool timeout = false; std::string out, err; };
ProcResult run_proc(const std::vector<std::string> &argv, const std::string &in = "", unsigned wall_s = 60, const std::string &cwd = "");
std::string scratch_dir();            // per-process scratch directory, removed at exit
void write_file(const std::string &path, const std::string &data);
std::string read_file(const std::string &path);
std::string tool(const std::string &name);   // path of a tool built by check.sh from /repo

}
#endif
