// libs: rlib rvm rpa
// tools: rpagrep
// P11: the rpagrep program against a reference of its output.
#include "pbt.h"
#include "anygram.h"
#include "enc.h"
#include <unistd.h>
#include <sys/stat.h>
#include <functional>
using namespace pbt;

enum Mode { SCAN, LINES, MATCH, PARSE, TEXTS, AST };
struct Abort { int rule; long pos; };
template <class B> struct AEval : B {
	const std::vector<bool> &ab;
	template <class... A> AEval(const std::vector<bool> &x, A &&... a) : B(std::forward<A>(a)...), ab(x) {}
	long rule(int i, long pos, peg::Recs &r) override { long v = B::rule(i, pos, r); if (v <= 0 && ab[i]) throw Abort{i, pos}; return v; }
};
struct Ref {
	const anyg::Any *a;
	int root;
	std::vector<bool> emit, abort;
	std::vector<long> uid;
	Mode mode;
	bool icase;
	enc::E e;
	double budget = 400000;
	uint32_t fold(uint32_t c) const { return c >= 'A' && c <= 'Z' ? c + 32 : c >= 'a' && c <= 'z' ? c - 32 : c; }
	long at(const peg::W &in, long pos, peg::Recs *r)
	{
		std::unique_ptr<peg::Eval> ev;
		if (a->lrec) ev.reset(new AEval<lr::Eval>(abort, a->g, in, a->ingroup));
		else ev.reset(new AEval<peg::Eval>(abort, a->g, in));
		ev->emit = emit;
		if (icase) ev->rngmatch = [this](uint32_t ch, uint32_t lo, uint32_t hi) { uint32_t f = fold(ch); return (ch >= lo && ch <= hi) || (f >= lo && f <= hi); };
		peg::Recs w;
		long l = ev->rule(root, pos, w);
		if (ev->cost > 20000 || w.size() > 1500) throw peg::Budget();
		if ((budget -= ev->cost) < 0) throw peg::Budget();
		if (r) *r = w;
		return l;
	}
	struct Out { std::string text; bool found = false, aborted = false; peg::Recs recs; };
	Out run(const std::string &bytes, const std::string &name)
	{
		Out o;
		enc::Text t = enc::decode(bytes, e);
		auto text = [&](long pos, long len) { return peg::utf8s(peg::W(t.ch.begin() + pos, t.ch.begin() + pos + len)); };
		auto header = [&] { if (!o.found && !name.empty()) o.text += name + ":\n"; o.found = true; };
		long n = t.ch.size();
		switch (mode) {
		case SCAN:
			for (long p = 0; p < n;) {
				long l = at(t.ch, p, nullptr);
				if (l > 0) { header(); o.text += text(p, l) + "\n"; p += l; } else p++;
			}
			break;
		case LINES:
			for (long p = 0; p < n;) {
				long q = p;
				while (q < n && t.ch[q] != '\n') q++;
				if (q < n) q++;
				peg::W line(t.ch.begin() + p, t.ch.begin() + q);
				bool hit = false;
				for (size_t k = 0; k < line.size() && !hit; k++) hit = at(line, k, nullptr) > 0;
				if (hit) { header(); o.text += text(p, q - p); }
				p = q;
			}
			break;
		case MATCH: {
			long l = at(t.ch, 0, nullptr);
			if (l > 0) { header(); o.text += text(0, l) + "\n"; }
			break;
		}
		default: {
			long l;
			try { l = at(t.ch, 0, &o.recs); }
			catch (Abort &x) {             // reported with the rule that ended it
				const std::string &nm = a->g.rules[x.rule].name;
				if (!n || nm.size() > 100) throw Discard();       // files that are empty are not looked at; long names are cut
				o.text += "Parse Error: Code: 2003" + (uid[x.rule] ? cat(", Rule UID: ", uid[x.rule]) : "") + cat(", Name: ", nm.substr(0, 127)) + (t.off[x.pos] ? cat(" at Offset: ", t.off[x.pos]) : "") + "\n";
				o.recs.clear();
				o.aborted = true;
				break;
			}
			if (l > 0) o.found = true; else o.recs.clear();
			for (auto &r : o.recs) {
				if (!r.end) continue;
				if (mode == PARSE) o.text += cat(a->g.rules[r.rule].name, " (", t.off[r.pos], ", ", t.off[r.pos + r.len] - t.off[r.pos], "): ", text(r.pos, r.len), "\n");
				else o.text += text(r.pos, r.len);
			}
		}
		}
		return o;
	}
};

static void one(Src &s, Ctx &c)
{
	std::string dir = scratch_dir();
	bool wide = s.chance(1, 4);
	anyg::Any a = anyg::make(s, {'a', 'b', 'c', '+'}, !wide ? std::vector<uint32_t>{} : s.chance(1, 2) ? std::vector<uint32_t>{0x3b1, 0x20ac, 0x1f600} : s.chance(1, 2) ? std::vector<uint32_t>{0x100, 0x7ff, 0x800, 0x10ffff} : std::vector<uint32_t>{0xd7ff, 0xe000, 0x10000, 0x100000}, c.thorough);
	static const char *mname[] = {"", "-l", "-m", "-p", "-x", "-a"};
	Mode mode = (Mode)s.weighted({5, 5, 3, 3, 2, 3});
	Ref ref;
	ref.a = &a;
	ref.mode = mode;
	ref.root = a.root(s);
	ref.icase = s.chance(1, 5);
	int em = s.weighted({6, 1, wide ? 0u : 1u, 2});        // plain; -16; -b; byte order mark
	ref.e = em == 1 || em == 3 ? enc::UTF16 : em == 2 ? enc::BYTE : enc::UTF8;
	ref.emit.assign(a.g.rules.size(), true);
	ref.abort.assign(a.g.rules.size(), false);
	ref.uid.assign(a.g.rules.size(), 0);
	if (s.chance(1, 8)) {             // long names
		for (auto &r : a.g.rules) r.name += std::string(s.below(260), 'x');
		c.tag("long names");
	}
	// the grammar in pieces; the rule that is to be run comes last
	for (size_t i = 0; i < a.order.size(); i++) if (a.order[i] == ref.root) { a.order.erase(a.order.begin() + i); break; }
	a.order.push_back(ref.root);
	std::vector<std::string> pieces = a.pieces(s, s.chance(1, 2));
	std::string dirs;
	for (size_t i = 0; i < a.g.rules.size(); i++) if (s.chance(1, 8)) { dirs += cat("#!noemit ", a.g.rules[i].name, "\n"); ref.emit[i] = false; }
	if ((mode == PARSE || mode == TEXTS) && s.chance(1, 2)) {
		std::set<int> neg = anyg::negated(a.g);
		for (size_t i = 0; i < a.g.rules.size(); i++) {
			if (s.chance(1, 4)) { ref.uid[i] = 1 + s.below(9999); ref.emit[i] = true; dirs += cat("#!emitid ", a.g.rules[i].name, " ", ref.uid[i], "\n"); }
			if (!neg.count(i) && s.chance(1, 2)) { ref.abort[i] = true; dirs += cat("#!abort ", a.g.rules[i].name, "\n"); }
		}
	}
	pieces[0] = dirs + pieces[0];
	if (pieces.size() > 1 && s.chance(1, 60)) { pieces[s.below(pieces.size() - 1)] += peg::filler(s, 0); c.tag("large grammar"); }
	for (size_t i = 1; i < pieces.size();) if (s.chance(1, 2)) { pieces[i - 1] += pieces[i]; pieces.erase(pieces.begin() + i); } else i++;
	size_t nf = s.chance(1, 2) ? s.below(pieces.size() + 1) : 0;
	std::vector<std::string> opts, pats, srcs, args = {tool("rpagrep")};
	std::string shown;
	for (size_t i = 0; i < pieces.size(); i++) {
		if (i < nf) {
			std::string f = cat(dir, "/pat", i);
			// now and then exactly a page
			if (s.chance(1, 10)) { size_t n = pieces[i].size(); while (pieces[i].size() % 4096) pieces[i] += '\n'; (void)n; }
			write_file(f, pieces[i]);
			pats.push_back("-f"); pats.push_back(f);
		} else { pats.push_back("-e"); pats.push_back(pieces[i]); }
		shown += (i < nf ? " -f " : " -e ") + quote(pieces[i].size() > 2000 ? pieces[i].substr(0, 600) + "..." : pieces[i]);
	}
	if (mode) opts.push_back(mname[mode]);
	if (em == 1 || (em == 3 && s.chance(1, 3))) opts.push_back("-16");
	if (em == 2) opts.push_back("-b");
	if (ref.icase) opts.push_back("-i");
	static const char *same[] = {"--no-cache", "--no-bitmap", "--no-optimizations"};
	for (int k = 0; k < 3; k++) if (s.chance(1, 6)) opts.push_back(same[k]);
	bool quiet = s.chance(1, 12);
	if (quiet) { opts.push_back("-q"); if (s.chance(1, 2)) { opts.push_back("--exec-debug"); c.tag("step by step"); } }
	c.describe(cat("rpagrep"));
	for (auto &o : opts) c.append(" " + o);
	c.append(shown);

	auto content = [&](bool nul) {
		peg::W w;
		int parts = s.below(4);
		for (int q = 0; q < parts; q++) {
			if (mode >= MATCH ? q > 0 : true) for (size_t i = s.below(5); i > 0; i--) w.push_back(s.chance(1, 2) ? s.pick(a.alpha) : (uint32_t)('d' + s.below(3)));
			peg::W x = peg::gen_input(s, a.g, ref.root, a.alpha, 16);
			w.insert(w.end(), x.begin(), x.end());
			if (mode != AST && s.chance(1, 2)) w.push_back('\n');
		}
		(void)nul;
		if (mode == AST) for (auto &ch : w) if (ch < 32 || ch == 127) ch = 'a';
		for (auto &ch : w) {
			if (ch < 32 && ch != '\n' && ch != '\t' && ch != '\r') ch = 'b';
			if (ch >= 127 && ch <= 255) ch = 'c';
			if (ch >= 0xd800 && ch <= 0xdfff) ch = 'c';	// half a pair is no character
			if (ref.e == enc::BYTE && ch > 126) ch = 'a';
			if (ref.e == enc::UTF16 && ch == 0x1f600 && !wide) ch = 'a';
			if (ref.icase && ch < 128 && isalpha((int)ch) && s.chance(1, 2)) ch ^= 32;
		}
		if (w.size() > 60) w.resize(60);
		std::string o;
		for (auto ch : w) enc::put(o, ch, ref.e);
		return o;
	};
	auto stored = [&](const std::string &t) { return em == 3 ? "\xff\xfe" + t : t; };
	std::string want, in;
	bool found = false, any = false, unordered = false;
	std::vector<std::string> blocks;
	std::vector<peg::Recs> ast;
	int src = s.weighted({5, 2, (unsigned)(ref.e == enc::UTF16 ? 0 : 3), 2});
	try {
		auto add = [&](const std::string &t, const std::string &name) {
			Ref::Out o = ref.run(t, name);
			found |= o.found;
			if (!o.text.empty()) any = true;
			if (o.aborted) c.tag("aborted");
			if (!o.recs.empty()) ast.push_back(o.recs);
			return o.text;
		};
		if (src == 0) {
			for (int i = 0, k = 1 + s.below(3); i < k; i++) {
				std::string f = cat(dir, "/in", i), t = content(true);
				// now and then exactly a page
				if (mode == SCAN && s.chance(1, 12)) { std::string pad; while (stored(t).size() + pad.size() < 4096) enc::put(pad, '#', ref.e); if (stored(t).size() + pad.size() == 4096 && s.chance(1, 2)) t = pad + t; }
				write_file(f, stored(t));
				if (t.size() > 3000) c.tag("a whole page");
				want += add(t, f);
				c.append(cat(" file ", quote(t.size() > 3000 ? t.substr(t.size() - 100) : t)));
				srcs.push_back(f);
			}
			c.tag("files");
		} else if (src == 1) {
			in = content(true);
			want = add(in, "");
			in = stored(in);
			c.append(cat(" stdin ", quote(in)));
			c.tag("standard input");
		} else if (src == 2) {
			std::string t = content(false);
			if (s.chance(1, 4)) { t = s.chance(1, 2) ? "abc" : "aab"; write_file(dir + "/" + t, stored("abcabc\n+a+b")); c.tag("string names a file"); }
			want = add(t, "");
			srcs = {"-s", t};
			for (int k = s.chance(1, 3) ? 1 + s.below(2) : 0; k > 0; k--) {     // one after the other
				std::string u = content(false);
				want += add(u, "");
				srcs.push_back("-s"); srcs.push_back(u);
				c.append(cat(" string ", quote(u)));
				c.tag("several strings");
			}
			if (em == 3) c.tag("string, no mark");
			c.append(cat(" string ", quote(t)));
			c.tag("string argument");
		} else {
			std::string top = dir + "/tree";
			run_proc({"/bin/rm", "-rf", top});
			bool rel = s.chance(1, 2);
			mkdir(top.c_str(), 0700);
			std::vector<std::string> ds = {top};
			for (int i = 0, k = s.below(4); i < k; i++) { std::string d = cat(s.pick(ds), "/d", i); mkdir(d.c_str(), 0700); ds.push_back(d); }
			for (int i = 0, k = s.below(5); i < k; i++) {
				std::string f = cat(s.pick(ds), "/f", i), t = content(true);
				write_file(f, stored(t));
				std::string b = add(t, rel ? f.substr(dir.size() + 1) : f);
				if (!b.empty()) blocks.push_back(b);
				c.append(cat(" file ", quote(f.substr(dir.size())), " ", quote(t)));
			}
			unordered = true;
			srcs = {rel ? "tree" : top};
			c.tag("directory");
		}
	} catch (peg::Budget &) { throw Discard(); }
	for (auto &x : opts) args.push_back(x);
	for (auto &x : pats) args.push_back(x);
	for (auto &x : srcs) args.push_back(x);
	ProcResult r = run_proc(args, in, 60, dir);
	c.check(!r.timeout, "rpagrep does not end");
	c.check(!r.sig && r.err.find("Sanitizer") == std::string::npos, cat("rpagrep crashed: signal ", r.sig, " ", r.err.substr(0, 900)));
	c.check(r.code == (found ? 0 : 1), cat("exit code ", r.code, found ? " with" : " without", " a match; output ", quote(r.out.substr(0, 300))));
	if (quiet) { c.check(r.out.empty(), "output in quiet mode"); c.tag("quiet"); return; }
	auto fits = [&](const std::vector<std::string> &todo) {
		std::function<bool(size_t, unsigned)> fit = [&](size_t p, unsigned used) -> bool {
			if (used == (1u << todo.size()) - 1) return p == r.out.size();
			for (size_t i = 0; i < todo.size(); i++)
				if (!(used >> i & 1) && r.out.compare(p, todo[i].size(), todo[i]) == 0 && fit(p + todo[i].size(), used | 1u << i)) return true;
			return false;
		};
		return fit(0, 0);
	};
	if (mode == AST) {
		// one line for each record, naming index, counterpart, parent, kind and rule
		std::vector<std::string> lines;
		for (size_t i = 0; i < r.out.size();) { size_t e = r.out.find('\n', i); c.check(e != std::string::npos, "unfinished line"); lines.push_back(r.out.substr(i, e - i)); i = e + 1; }
		size_t total = 0;
		for (auto &x : ast) total += x.size();
		c.check(lines.size() == total, cat(lines.size(), " records are shown instead of ", total));
		if (!unordered) {
			size_t l = 0;
			for (auto &x : ast) {
				std::vector<long> open, match(x.size()), parent(x.size(), -1);
				for (size_t k = 0; k < x.size(); k++) {
					if (!x[k].end) { parent[k] = open.empty() ? -1 : open.back(); open.push_back(k); }
					else { match[k] = open.back(); match[open.back()] = k; parent[k] = parent[open.back()]; open.pop_back(); }
				}
				for (size_t k = 0; k < x.size(); k++, l++) {
					char b[200];
					snprintf(b, sizeof b, "%5ld: [ s: %5ld, e: %5ld, p: %5ld ] ", (long)k, x[k].end ? match[k] : (long)k, x[k].end ? (long)k : match[k], parent[k]);
					std::string name = a.g.rules[x[k].rule].name, w = std::string(x[k].end ? "END   " : "START ") + (name.size() > 15 ? name.substr(0, 15) : name + " ");
					c.check(lines[l].compare(0, strlen(b), b) == 0 && lines[l].find(w) != std::string::npos, cat("record ", k, " is shown as ", quote(lines[l]), ", expected ", b, w));
				}
			}
		}
		if (total) c.nontrivial = true;
	} else if (unordered) c.check(fits(blocks), cat("output ", quote(r.out.substr(0, 600)), " is not that of the files in some order"));
	else c.check(r.out == want, cat("output ", quote(r.out.substr(0, 600)), ", expected ", quote(want.substr(0, 600))));
	if (any) c.nontrivial = true;
	c.tag(std::string("mode ") + (mode ? mname[mode] : "scan"));
}

// ---- grammars that do not load or compile
static void wrong(Src &s, Ctx &c)
{
	std::string dir = scratch_dir();
	std::string good;
	int n = s.below(6), line = 1;
	for (int i = 0; i < n; i++) {
		good += cat("r", i, " ::= '", (char)('a' + i), "'", s.chance(1, 3) ? "+" : "", "\n");
		line++;
		if (s.chance(1, 4)) { good += "\n"; line++; }
	}
	int kind = s.below(3);
	std::string bad, text;
	static const char *syntax[] = {"bad ::= 'x' |", "bad ::= (", "bad ::= 'a' )", "bad ::= <x", "bad ::= 'x", "bad ::= [a-", "?", "bad ::= ^", "<"};
	bool page = s.chance(1, 4);
	if (kind == 0) bad = syntax[s.below(9)];
	else if (kind == 1) bad = "bad ::= 'x' <missing>";
	text = good + bad;
	if (kind == 0 && page && n) { std::string pad; while ((text.size() + pad.size()) % 4096) { pad += '\n'; line++; } text = pad + text; }
	bool file = page || s.chance(1, 2);
	std::vector<std::string> args = {tool("rpagrep")};
	if (file) { write_file(dir + "/bad", text); args.push_back("-f"); args.push_back(kind == 2 ? dir + "/nosuchfile" : dir + "/bad"); }
	else if (kind == 2) throw Discard();
	else { args.push_back("-e"); args.push_back(text); }
	args.push_back("-s"); args.push_back("x");
	c.describe(cat("wrong grammar ", kind, " ", file ? "file " : "", quote(text.size() > 3000 ? text.substr(text.size() - 200) : text)));
	ProcResult r = run_proc(args, "", 60, dir);
	c.check(!r.sig && r.err.find("Sanitizer") == std::string::npos, cat("rpagrep crashed: signal ", r.sig, " ", r.err.substr(0, 900)));
	c.check(r.code != 0, "a wrong grammar counts as a match");
	if (kind == 1) c.check(r.out.find("missing") != std::string::npos, cat("the missing rule is not named: ", quote(r.out)));
	if (kind == 0) {
		c.check(r.code == 2, cat("exit code ", r.code, " for a wrong grammar"));
		c.check(r.out.find(cat("Line: ", line, ",")) != std::string::npos, cat("the error is reported as ", quote(r.out), ", it is in line ", line));
	}
	if (n) c.nontrivial = true;
	c.tag(kind == 0 ? "syntax error" : kind == 1 ? "missing rule" : "missing file");
}

// ---- what is shown about a grammar
static void shown(Src &s, Ctx &c)
{
	std::string dir = scratch_dir();
	anyg::Any a = anyg::make(s, {'a', 'b', 'c', '+'}, {}, c.thorough);
	if (s.chance(1, 3)) for (auto &r : a.g.rules) r.name += std::string(s.below(300), 'y');
	std::string text, defines, one = s.chance(1, 4) ? "nosuchrule" : s.pick(a.g.rules).name;
	static const char *names[] = {"-L", "--list-rules", "-d", "--dump-info", "--dump-code", "--dump-alias", "--dump-records", "--debug-compile", "-h", "-v"};
	int k = s.below(10);
	for (auto &piece : a.pieces(s, true)) {
		while (s.chance(1, 3)) {       // numbers of rules, with and without a name for programs
			const std::string &name = s.pick(a.g.rules).name;
			long u = s.chance(1, 6) ? 2147483647 - s.below(2) : 1 + s.below(100000);
			text += "#!emitid " + name;
			if (s.chance(3, 4)) {
				std::string al = s.chance(1, 2) ? "UID_" + name : "A" + peg::gen_name(s);
				text += " " + al;
				defines += cat("#define ", al, " ", u, "\n");
			}
			text += cat(" ", u, "\n");
		}
		text += piece;
	}
	std::vector<std::string> args = {tool("rpagrep")};
	if (s.chance(1, 4)) args.push_back("--no-optimizations");
	bool timing = s.chance(1, 4);
	if (timing) args.push_back("-t");
	args.push_back("-e"); args.push_back(text); args.push_back(names[k]);
	if (k == 2 || k == 4) { if (s.chance(1, 8)) one = ""; else args.push_back(one); }
	c.describe(cat("rpagrep ", names[k], " ", k == 2 || k == 4 ? one : "", " -e ", quote(text)));
	ProcResult r = run_proc(args, "", 60, dir);
	c.check(!r.timeout, "rpagrep does not end");
	c.check(!r.sig && r.err.find("Sanitizer") == std::string::npos, cat("rpagrep crashed: signal ", r.sig, " ", r.err.substr(0, 900)));
	if (k < 2) {             // a line for each line of the grammar, the very long ones cut
		std::string lines;
		for (size_t i = 0; i < text.size();) { size_t e = text.find('\n', i); if (e > i) lines += "   " + text.substr(i, std::min<size_t>(e - i, 511)) + "\n"; i = e + 1; }
		c.check(timing ? !r.out.compare(0, lines.size() + 1, lines + "\n") : r.out == lines, cat("the rules are listed as ", quote(r.out), ", expected ", quote(lines)));
	}
	if (k < 2) for (auto &x : a.g.rules) c.check(r.out.find(x.name) != std::string::npos, cat("rule ", x.name, " is not listed in ", quote(r.out.substr(0, 600))));
	if (k == 5) c.check(timing ? !r.out.compare(0, defines.size() + 1, defines + "\n") : r.out == defines, cat("the definitions shown are ", quote(r.out), ", the grammar has ", quote(defines)));
	if (k == 8) c.check(r.err.find("Usage") != std::string::npos, "no usage is shown");
	c.tag("information");
	if (k < 8) c.nontrivial = true;
}

static void run(Src &s, Ctx &c) { if (s.chance(1, 16)) shown(s, c); else if (s.chance(1, 8)) wrong(s, c); else one(s, c); }

int main(int argc, char **argv)
{
	const char *o = getenv("ASAN_OPTIONS");
	setenv("ASAN_OPTIONS", (std::string(o ? o : "") + (o ? ":" : "") + "detect_leaks=0").c_str(), 1);       // memory held at exit does not matter
	Config cfg;
	cfg.id = "P11";
	cfg.rule = "A case runs the rpagrep program with a generated grammar (given in pieces, directly or from files, also wrong ones) over named files, a directory tree, standard input or a string, in every mode and encoding, with options that must not matter. Expected output and exit code come from a reference evaluator of grammars. Non-trivial: some output is expected, or a wrong grammar behind right rules.";
	cfg.quick_cases = 3000;
	cfg.thorough_cases = 60000;
	cfg.fn = run;
	cfg.assumptions = {"characters 127 to 255 and control characters, which the program prints as NUL, are kept out of the input"};
	return run_main(argc, argv, cfg);
}
