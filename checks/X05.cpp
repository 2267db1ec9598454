// libs: rlib rex
// tools: rexcc
#include "pbt.h"
#include "rexgen.h"
#include <dlfcn.h>
#include <unistd.h>
extern "C" {
#include "rex/rexdfatypes.h"
#include "rex/rexdfa.h"
}
using namespace pbt;

static void one(Src &s, Ctx &c)
{
	std::string dir = scratch_dir();
	int n = 1 + s.below(5);
	std::string eol = s.chance(1, 6) ? "\r\n" : "\n";
	std::string g, names;
	std::vector<rg::P> asts;
	std::vector<size_t> ids;
	std::string marker = cat("marker_", s.below(1000));
	g = "#include <stddef.h>\n#include \"rex/rexdfatypes.h\"\n";
	if (s.chance(1, 3)) g += "/* %% is only a delimiter at the end of a line %%x */\n";
	g += cat("static int ", marker, " = 1;\n");
	for (int i = 0; i < n; i++) {
		size_t v = 300 + s.below(5) * 100 + i;
		ids.push_back(v);
		g += cat("#define TOK_", i, " ", v, "\n");
	}
	g += "%%" + eol;
	bool bs = false;
	for (int i = 0; i < n; i++) {
		if (s.chance(1, 5)) g += eol;
		if (s.chance(1, 8)) g += "   an indented line is not a rule" + eol;
		rg::Opt o;
		int b = o.budget = 3 + s.below(14);
		rg::P ast = s.chance(1, 60) ? rg::gen_big(s, false) : s.chance(1, 6) ? rg::gen_structured(s, false) : rg::gen(s, o, s.below(4), b);
		if (s.chance(1, 12)) { rg::P k = std::make_shared<rg::Node>(); k->k = rg::CAT; k->kids = {ast, rg::lit('\\')}; ast = k; }
		std::string pat = rg::print(s, ast, 0);
		if (pat.size() >= 2 && pat.substr(pat.size() - 2) == "\\\\") bs = true;
		rg::fix_ranges(ast);
		asts.push_back(ast);
		std::string id = cat("TOK_", i);
		if (s.chance(1, 8)) { id = cat("(", 1000 + i, ")"); ids[i] = 1000 + i; }
		else if (s.chance(1, 10)) { char ch = 'a' + i; id = cat("'", ch, "'"); ids[i] = ch; }
		g += id + (s.chance(1, 4) ? "\t" : "    ") + pat + eol;
	}
	g += "%%" + eol;
	g += cat("int epilog_", marker, "(void) { return ", marker, "; }\nrexdfa_t *get_dfa(void) { return &ccdfa; }\n");
	c.describe("grammar " + quote(g.substr(g.find("%%" + eol))));
	if (bs) c.tag("pattern ends in an escaped backslash");
	write_file(dir + "/g.rexcc", g);
	unlink((dir + "/g.c").c_str());
	bool sub = s.chance(1, 3);
	std::vector<std::string> args = {tool("rexcc"), dir + "/g.rexcc", "-o", dir + "/g.c"};
	if (sub) args.insert(args.begin() + 1, "-s");
	if (s.chance(1, 6)) args.push_back("-t");
	ProcResult r = run_proc(args);
	c.check(r.code == 0 && !r.sig, cat("rexcc failed on a valid grammar: code ", r.code, " signal ", r.sig, " ", r.out.substr(0, 200), r.err.substr(0, 600)));
	const char *repo = getenv("VERIF_REPO");
	static unsigned long serial = 0;
	std::string so = cat(dir, "/g", serial++, ".so");
	ProcResult cc = run_proc({"/usr/bin/gcc", "-w", "-O0", "-shared", "-fPIC", cat("-I", repo ? repo : "/repo"), "-o", so, dir + "/g.c"});
	c.check(cc.code == 0, cat("generated code does not compile: ", cc.err.substr(0, 500)));
	void *h = dlopen(so.c_str(), RTLD_NOW | RTLD_LOCAL);
	c.check(h != NULL, "cannot load the generated code");
	rexdfa_t *(*get)(void) = (rexdfa_t * (*)(void)) dlsym(h, "get_dfa");
	int (*epi)(void) = (int (*)(void))dlsym(h, cat("epilog_", marker).c_str());
	c.check(get && epi && epi() == 1, "prolog or epilog text missing");
	rexdfa_t *dfa = get();
	for (int k = 0; k < 8; k++) {
		rg::cps in = rg::gen_input(s, asts[s.below(n)], s.chance(1, 10) ? 500 : 24, true);
		std::vector<rg::Pos> ends;
		for (auto &a : asts) ends.push_back(rg::ends(a, in));
		std::vector<size_t> off;
		c.append(" input " + quote(rg::encode(in, off)));
		long st = REX_DFA_STARTSTATE;
		for (size_t i = 1; i <= in.size(); i++) {
			REX_DFA_NEXT(dfa, st, in[i - 1], &st);
			c.check(st >= 0 && (rexuint_t)st < dfa->nstates, "state out of range");
			rexdfs_t *q = REX_DFA_STATE(dfa, st);
			std::vector<size_t> want, got, gs;
			for (int e = 0; e < n; e++) if (ends[e][i]) want.push_back(ids[e]);
			for (rexuint_t a = 0; a < q->naccsubstates; a++) got.push_back(REX_DFA_ACCSUBSTATE(dfa, st, a)->userdata);
			c.check(got == want, cat("generated tables report ", got.size(), " tokens after ", i, " characters, expected ", want.size(), got.size() && want.size() ? cat(" (first ", got[0], ", expected ", want[0], ")") : std::string()));
			c.check((q->type == REX_STATETYPE_ACCEPT) == !want.empty(), "generated state type is wrong");
			if (!want.empty()) { c.nontrivial = true; c.tag("accepting prefix"); }
			if (sub) {
				for (rexuint_t a = 0; a < q->nsubstates; a++) if (REX_DFA_SUBSTATE(dfa, st, a)->type == REX_STATETYPE_ACCEPT) gs.push_back(REX_DFA_SUBSTATE(dfa, st, a)->userdata);
				c.check(gs == want, "generated sub-states are wrong");
			} else c.check(q->nsubstates == 0, "sub-states without -s");
		}
	}
	dlclose(h);
	unlink(so.c_str());
	// a broken grammar is reported
	if (s.chance(1, 4)) {
		static const std::vector<std::string> bad = {"(a", "a|", "*", "[", "a{2,1}", "a)"};
		size_t p = g.find("%%" + eol) + 2 + eol.size();
		std::string b = g;
		bool nodelim = s.chance(1, 4);
		if (nodelim) b = g.substr(0, p) + "TOK_0  abc" + eol + "TOK_1" + eol;
		else b.insert(p, "TOK_0  " + s.pick(bad) + eol);
		write_file(dir + "/b.rexcc", b);
		ProcResult q = run_proc({tool("rexcc"), dir + "/b.rexcc", "-o", dir + "/b.c"});
		c.check(!q.sig && q.code != 0 && q.code < 100 && q.err.find("Sanitizer") == std::string::npos, cat("rexcc exit code for an invalid grammar is ", q.code, " signal ", q.sig, " ", q.err.substr(0, 400)));
		c.tag("invalid grammar rejected");
	}
}

int main(int argc, char **argv)
{
	Config cfg;
	cfg.id = "X05";
	cfg.rule = "A case is a generated rexcc grammar of 1-5 rules (random expressions, identifiers as macros, numbers or character constants, blank and indented lines, LF or CRLF, optional -s); rexcc's output is compiled with gcc, loaded and fed 8 inputs character by character. The oracle evaluates each expression tree. A quarter of the cases also give rexcc an invalid grammar. Non-trivial: some prefix is accepted.";
	cfg.quick_cases = 900;
	cfg.thorough_cases = 15000;
	cfg.fn = one;
	cfg.assumptions = {"gcc compiles the generated tables as the C standard says"};
	return run_main(argc, argv, cfg);
}
