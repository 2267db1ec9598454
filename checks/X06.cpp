// libs: rlib rex
// tools: rexgrep
#include "pbt.h"
#include "rexgen.h"
#include <unistd.h>
#include <sys/stat.h>
#include <map>
#include <set>
using namespace pbt;

struct Match { size_t at, len; };
static std::vector<Match> scan(const std::vector<rg::P> &ps, const std::string &t)
{
	std::vector<size_t> off;
	rg::cps in = rg::decode(t, off);
	std::vector<Match> o;
	for (size_t i = 0; i < in.size();) {
		rg::cps rest(in.begin() + i, in.end());
		int best = 0;
		for (auto &p : ps) best = std::max(best, rg::longest(p, rest));
		if (best > 0) { o.push_back({off[i], off[i + best] - off[i]}); i += best; }
		else i++;
	}
	return o;
}
static std::string expect(const std::vector<rg::P> &ps, const std::string &t, bool only, const std::string &prefix)
{
	std::string o;
	if (only) {
		for (auto &m : scan(ps, t)) o += prefix + t.substr(m.at, m.len) + "\n";
		return o;
	}
	size_t i = 0;
	while (i < t.size()) {
		size_t e = t.find('\n', i);
		e = e == std::string::npos ? t.size() : e + 1;
		std::string line = t.substr(i, e - i);
		if (!scan(ps, line).empty()) o += prefix + line;
		i = e;
	}
	return o;
}
static std::string gen_text(Src &s, const std::vector<rg::P> &ps, bool nul)
{
	rg::cps in;
	int lines = s.below(6);
	for (int l = 0; l < lines; l++) {
		int parts = s.below(4);
		for (int q = 0; q < parts; q++) {
			size_t noise = s.below(7);
			for (size_t i = 0; i < noise; i++) in.push_back(s.chance(1, 2) ? (rg::cp_t)('e' + s.below(8)) : rg::gen_cp(s, true));
			if (s.chance(2, 3)) rg::derive(s, s.pick(ps), in, 200);
		}
		if (l + 1 < lines || s.chance(2, 3)) in.push_back('\n');
	}
	for (auto &c : in) if (rg::surrogate(c) || c > 0x10ffff || (!nul && c == 0)) c = 'b';
	if (in.size() > 250) in.resize(250);
	std::vector<size_t> off;
	std::string t = rg::encode(in, off);
	if (s.chance(1, 8)) t = rg::damage(s, t);
	// now and then longer than the read buffers
	if (s.chance(1, 10)) { std::string pad; size_t n = 100 + s.below(600); for (size_t i = 0; i < n; i++) pad += (i % 50 == 49) ? '\n' : 'y'; t = s.chance(1, 2) ? pad + t : t + pad; }
	if (!nul) for (auto &ch : t) if (!ch) ch = 'b';
	return t;
}

// The automaton that is shown, read back.
struct Shown {
	struct T { long lo, hi, to; };                 // lo < 0: without a character
	std::map<long, std::vector<T>> t;
	std::set<long> accept, start;
	static long ch(const std::string &x) { return x.size() > 2 && x[0] == '0' && x[1] == 'x' ? strtol(x.c_str() + 2, 0, 16) : x.size() == 1 ? (long)(unsigned char)x[0] : throw Failure("a character is shown as " + quote(x)); }
	struct Failure { std::string what; Failure(const std::string &w) : what(w) {} };
	explicit Shown(const std::string &out)
	{
		long st = -1;
		for (size_t i = 0; i < out.size();) {
			size_t e = out.find('\n', i);
			if (e == std::string::npos) throw Failure("unfinished line");
			std::string l = out.substr(i, e - i);
			i = e + 1;
			if (!l.compare(0, 6, "State ")) {
				st = strtol(l.c_str() + 6, 0, 10);
				if (t.count(st)) throw Failure(cat("state ", st, " is shown twice"));
				t[st];
				if (l.find("REX_STATETYPE_ACCEPT") != std::string::npos) accept.insert(st);
				if (l.find("REX_STATETYPE_START") != std::string::npos) start.insert(st);
				continue;
			}
			size_t a = l.find_first_not_of(' ');
			if (a == std::string::npos || l.substr(a) == "(none)") continue;
			size_t arrow = l.rfind("-> ");
			if (st < 0 || arrow == std::string::npos) throw Failure("line " + quote(l));
			T x;
			x.to = strtol(l.c_str() + arrow + 3, 0, 10);
			std::string lab = l.substr(a, l.find_last_not_of(' ', arrow - 1) + 1 - a);
			if (lab == "epsilon") x.lo = x.hi = -1;
			else if (lab[0] == '[' && lab.size() > 4 && lab.back() == ']') {
				size_t m = lab.find(" - ", 2);
				if (m == std::string::npos) throw Failure("line " + quote(l));
				x.lo = ch(lab.substr(1, m - 1));
				x.hi = ch(lab.substr(m + 3, lab.size() - m - 4));
			} else if (lab[0] == '\'' && lab.size() == 3) x.lo = x.hi = (unsigned char)lab[1];
			else x.lo = x.hi = ch(lab);
			t[st].push_back(x);
		}
		for (auto &k : t) for (auto &x : k.second) if (!t.count(x.to)) throw Failure(cat("state ", x.to, " is not shown"));
		if (start.size() != 1) throw Failure(cat(start.size(), " states are shown as the first"));
	}
	std::set<long> close(std::set<long> in) const
	{
		std::vector<long> todo(in.begin(), in.end());
		while (!todo.empty()) { long k = todo.back(); todo.pop_back(); for (auto &x : t.at(k)) if (x.lo < 0 && in.insert(x.to).second) todo.push_back(x.to); }
		return in;
	}
	int longest(const rg::cps &in) const
	{
		int best = 0;
		std::set<long> cur = close(start);
		for (size_t i = 0; i < in.size() && !cur.empty(); i++) {
			std::set<long> nx;
			for (long k : cur) for (auto &x : t.at(k)) if (x.lo >= 0 && (long)in[i] >= x.lo && (long)in[i] <= x.hi) nx.insert(x.to);
			cur = close(nx);
			for (long k : cur) if (accept.count(k)) best = i + 1;
		}
		return best;
	}
};

static void one(Src &s, Ctx &c)
{
	rg::blanks_on() = false;
	std::string dir = scratch_dir();
	bool only = s.chance(1, 3), withname = s.chance(1, 3), nfa = s.chance(1, 4);
	int n = 1 + s.below(3);
	std::vector<rg::P> ps;
	std::vector<std::string> args = {tool("rexgrep")}, patargs;
	if (only) args.push_back(s.chance(1, 2) ? "-o" : "--only-matching");
	else if (s.chance(1, 2)) args.push_back("-l");
	if (nfa) args.push_back("-N");
	if (withname) args.push_back(s.chance(1, 2) ? "-H" : "--with-filename");
	std::string shown;
	for (int i = 0; i < n; i++) {
		rg::Opt o;
		int b = o.budget = 3 + s.below(20);
		rg::P ast = rg::gen(s, o, s.below(4), b);
		std::string pat = rg::print(s, ast, 0);
		rg::fix_ranges(ast);
		if (pat.find('\0') != std::string::npos) throw Discard();
		ps.push_back(ast);
		if (i == 0 && s.chance(1, 4)) {
			write_file(dir + "/pat", pat + (s.chance(1, 2) ? "\n" : ""));
			patargs.push_back("-f");
			patargs.push_back(dir + "/pat");
			shown += "-f ";
		} else {
			patargs.push_back("-e");
			patargs.push_back(pat);
		}
		shown += quote(pat) + " ";
	}
	args.insert(args.end(), patargs.begin(), patargs.end());
	unsigned mode = s.weighted({4, 3, 3, 3, nfa ? 0u : 2u});
	c.describe(cat(only ? "-o " : "", nfa ? "-N " : "", withname ? "-H " : "", "patterns ", shown));
	std::string want, in;
	std::vector<std::pair<std::string, std::string>> files;
	ProcResult r;
	bool sorted = false;
	std::vector<std::string> blocks;
	const char *env = NULL;
	switch (mode) {
	case 0: case 4: {      // named files; 4: through a saved DFA
		int k = 1 + s.below(3);
		for (int i = 0; i < k; i++) {
			std::string f = cat(dir, "/in", i), t = gen_text(s, ps, true);
			write_file(f, t);
			want += expect(ps, t, only, withname ? f + ":" : "");
			c.append(cat(" file ", quote(t)));
			files.push_back({f, t});
		}
		if (mode == 4) {
			std::vector<std::string> w = {tool("rexgrep")};
			w.insert(w.end(), patargs.begin(), patargs.end());
			std::string bin = s.chance(1, 4) ? dir + "/rex.bin" : dir + "/dfa.bin";     // rex.bin when no name is given
			if (bin == dir + "/dfa.bin") { w.push_back("-b"); w.push_back(bin); }
			w.push_back("-c");
			if (s.chance(1, 2)) w.push_back("-S");
			unlink(bin.c_str());
			r = run_proc(w, "", 60, dir);
			c.check(!r.sig && r.err.find("Sanitizer") == std::string::npos, "saving the DFA failed: " + r.err.substr(0, 600));
			args.erase(args.end() - patargs.size(), args.end());
			args.push_back("-b"); args.push_back(bin);
			c.tag("saved DFA");
			if (s.chance(1, 4)) {          // writing it was cut short: it must not be used
				std::string all = read_file(bin);
				size_t keep = s.chance(1, 3) ? all.size() - 1 - s.below(std::min<size_t>(all.size(), 40)) : s.below(all.size());
				write_file(bin, all.substr(0, keep));
				c.append(cat(" saved DFA cut to ", keep, " of ", all.size()));
				for (auto &f : files) args.push_back(f.first);
				const char *o = getenv("ASAN_OPTIONS");         // memory held when it gives up does not matter
				std::string keepopt = o ? o : "";
				setenv("ASAN_OPTIONS", (keepopt + (o ? ":" : "") + "detect_leaks=0").c_str(), 1);
				r = run_proc(args, "", 60, dir);
				if (o) setenv("ASAN_OPTIONS", keepopt.c_str(), 1); else unsetenv("ASAN_OPTIONS");
				c.check(!r.sig && r.err.find("Sanitizer") == std::string::npos, cat("rexgrep crashed: signal ", r.sig, " ", r.err.substr(0, 900)));
				c.check(r.code != 0 && r.out.empty(), cat("exit code ", r.code, ", output ", quote(r.out.substr(0, 300)), " with a saved DFA that is not whole"));
				c.tag("incomplete saved DFA");
				c.nontrivial = true;
				return;
			}
		} else c.tag("files");
		for (auto &f : files) args.push_back(f.first);
		break;
	}
	case 1: {
		in = gen_text(s, ps, true);
		for (size_t i = args.size(); i-- > 0;) if (args[i] == "-H" || args[i] == "--with-filename") args.erase(args.begin() + i);
		want = expect(ps, in, only, "");
		c.append(cat(" stdin ", quote(in)));
		c.tag("standard input");
		break;
	}
	case 2: {
		std::string t = gen_text(s, ps, false);
		for (size_t i = args.size(); i-- > 0;) if (args[i] == "-H" || args[i] == "--with-filename") args.erase(args.begin() + i);
		want = expect(ps, t, only, "");
		// a string argument is never a path, even when such a file exists
		if (s.chance(1, 3)) { t = "aabbcc"; write_file(dir + "/aabbcc", "abc abc abc\n"); want = expect(ps, t, only, ""); c.tag("string names a file"); }
		args.push_back("-s");
		args.push_back(t);
		c.append(cat(" string ", quote(t)));
		for (int k = s.chance(1, 3) ? 1 + s.below(2) : 0; k > 0; k--) {
			std::string u = gen_text(s, ps, false);
			want += expect(ps, u, only, "");
			args.push_back("-s"); args.push_back(u);
			c.append(cat(" string ", quote(u)));
			c.tag("several strings");
		}
		c.tag("string argument");
		break;
	}
	default: {
		std::string top = dir + "/tree";
		ProcResult rm = run_proc({"/bin/rm", "-rf", top});
		bool rel = s.chance(1, 2);
		mkdir(top.c_str(), 0700);
		std::vector<std::string> dirs = {top};
		int nd = s.below(4);
		for (int i = 0; i < nd; i++) { std::string d = cat(s.pick(dirs), "/d", i, s.chance(1, 4) ? "." : ""); mkdir(d.c_str(), 0700); dirs.push_back(d); }
		int k = s.below(5);
		for (int i = 0; i < k; i++) {
			std::string f = cat(s.pick(dirs), "/", s.chance(1, 5) ? "." : "", "f", i, s.chance(1, 5) ? ".." : ""), t = gen_text(s, ps, true);
			write_file(f, t);
			c.append(cat(" file ", quote(f.substr(dir.size())), " ", quote(t)));
			blocks.push_back(expect(ps, t, only, withname ? (rel ? f.substr(dir.size() + 1) : f) + ":" : ""));
		}
		sorted = true;
		args.push_back((rel ? std::string("tree") : top) + (s.chance(1, 3) ? "/" : ""));
		if (rel) c.tag("relative directory");
		c.tag("directory");
	}
	}
	bool quiet = s.chance(1, 16), dump = !quiet && s.chance(1, 24);
	if (quiet) args.insert(args.begin() + 1, "-q");
	if (dump) args.insert(args.begin() + 1, "-D");
	r = run_proc(args, in, 60, dir);
	c.check(!r.sig && r.err.find("Sanitizer") == std::string::npos, cat("rexgrep crashed: signal ", r.sig, " ", r.err.substr(0, 900)));
	if (quiet) { c.check(r.out.empty(), "output in quiet mode"); c.tag("quiet"); return; }
	if (dump) {
		c.check(!r.timeout, "does not end");
		c.tag("states shown");
		try {
			Shown sh(r.out);
			for (int k = 0; k < 12; k++) {
				rg::cps w;
				rg::derive(s, s.pick(ps), w, 60);
				if (s.chance(1, 2)) { if (s.chance(1, 2)) w.resize(s.below(w.size() + 1)); w.push_back(s.chance(1, 2) ? (rg::cp_t)('a' + s.below(8)) : rg::gen_cp(s, true)); rg::derive(s, s.pick(ps), w, 20); }
				int best = 0, got = sh.longest(w);
				for (auto &p : ps) best = std::max(best, rg::longest(p, w));
				std::vector<size_t> off;
				c.check(got == best, cat("the automaton that is shown matches ", got, " characters of ", quote(rg::encode(w, off)), " where the patterns match ", best, "\n", r.out.substr(0, 3000)));
				if (best) c.nontrivial = true;
			}
		} catch (Shown::Failure &f) { c.fail("what is shown of the automaton cannot be read: " + f.what); }
		return;
	}
	if (sorted) {
		// files come in directory order: the output is some permutation of the per-file blocks
		std::string rest = r.out;
		std::vector<std::string> todo;
		for (auto &b : blocks) if (!b.empty()) todo.push_back(b);
		std::function<bool(size_t, unsigned)> fit = [&](size_t at, unsigned used) -> bool {
			if (used == (1u << todo.size()) - 1) return at == rest.size();
			for (size_t i = 0; i < todo.size(); i++)
				if (!(used >> i & 1) && rest.compare(at, todo[i].size(), todo[i]) == 0 && fit(at + todo[i].size(), used | 1u << i)) return true;
			return false;
		};
		c.check(fit(0, 0), cat("output ", quote(r.out.substr(0, 500)), " is not the matches of the files in some order"));
		if (!todo.empty()) c.nontrivial = true;
	} else {
		c.check(r.out == want, cat("output ", quote(r.out.substr(0, 500)), ", expected ", quote(want.substr(0, 500))));
		if (!want.empty()) c.nontrivial = true;
	}
	c.tag(only ? "only matching" : "lines");
}

int main(int argc, char **argv)
{
	Config cfg;
	cfg.id = "X06";
	cfg.rule = "A case runs the rexgrep program with 1-3 random expressions (given directly or from a file) over named files, a directory tree, standard input, a string argument or through a saved DFA, in line or only-matching mode, DFA or NFA, with or without file names. The oracle prints matching lines or matches from a position-set matcher. Non-trivial: some output is expected.";
	cfg.quick_cases = 4000;
	cfg.thorough_cases = 60000;
	cfg.fn = one;
	cfg.assumptions = {"directories whose name starts with a dot are not generated (the program skips them)", "the exit code is not judged", "symbolic links are not generated"};
	return run_main(argc, argv, cfg);
}
