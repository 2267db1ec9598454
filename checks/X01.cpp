// libs: rlib rex
#include "pbt.h"
#include "rexgen.h"
extern "C" {
#include "rlib/rmem.h"
#include "rex/rexdb.h"
#include "rex/rexregex.h"
#include "rex/rexdfa.h"
#include "rex/rexnfasimulator.h"
#include "rex/rexdfasimulator.h"
}
using namespace pbt;

static void one(Src &s, Ctx &c)
{
	rg::Opt o;
	o.budget = 20 + s.below(c.thorough ? 160 : 60);
	int b = o.budget;
	bool big = s.chance(1, 120);
	rg::P ast = big ? rg::gen_big(s, c.thorough) : s.chance(1, 6) ? rg::gen_structured(s, c.thorough) : rg::gen(s, o, 1 + s.below(5), b);
	std::string pat = rg::print(s, ast, 0);
	rg::fix_ranges(ast);
	c.describe("pattern " + quote(pat));
	size_t mem0 = r_debug_get_allocmem();
	rexregex_t *re = rex_regex_create(pat.data(), pat.size());
	c.check(re != NULL, "valid pattern rejected");
	rexdb_t *nfa = rex_db_create(REXDB_TYPE_NFA);
	long start = rex_db_addexpression(nfa, -1, pat.data(), pat.size(), 7);
	c.check(start >= 0, "valid pattern rejected by the expression database");
	rexdb_t *dfadb = rex_db_createdfa(nfa, start);
	rexdfa_t *dfa = rex_db_todfa(dfadb, s.chance(1, 4));
	rex_nfasimulator_t *ns = rex_nfasimulator_create();
	rex_dfasimulator_t *ds = rex_dfasimulator_create();
	int inputs = 2 + s.below(5);
	for (int k = 0; k < inputs; k++) {
		bool bytemode = s.chance(1, 4);
		rg::cps in = rg::gen_input(s, ast, big ? 800 : 40, true);
		std::vector<size_t> off;
		std::string text;
		if (bytemode) {
			for (auto &ch : in) { ch &= ch > 0xff ? 0xff : 0xff; text += (char)ch; off.push_back(text.size() - 1); }
			off.push_back(text.size());
		} else {
			text = rg::encode(in, off);
		}
		// the exact-size heap copy lets the sanitizer see any read past the end
		std::vector<char> buf(text.begin(), text.end());
		buf.shrink_to_fit();
		const char *p = buf.empty() ? "" : buf.data(), *e = p + buf.size();
		int L = rg::longest(ast, in);
		long want = L > 0 ? (long)off[L] : 0;
		c.append(cat(bytemode ? " bytes " : " input ", quote(text)));
		if (want) { c.nontrivial = true; c.tag("match"); } else c.tag("no match");
		if (L > 0 && (size_t)L < in.size()) c.tag("proper prefix");
		if (want && off[L] != (size_t)L) c.tag("multi-byte match");
		int got = rex_regex_match(re, bytemode ? REX_ENCODING_BYTE : REX_ENCODING_UTF8, p, e);
		c.check(got == want, cat("regex match length ", got, ", expected ", want));
		if (bytemode) continue;
		// the automata: NFA simulation, DFA simulation, DFA tables
		rex_nfasimulator_run(ns, nfa, start, p, text.size());
		long nl = 0;
		rg::Pos ends = rg::ends(ast, in);
		std::vector<long> wantends, gotends;
		for (size_t i = 1; i < ends.size(); i++) if (ends[i]) wantends.push_back(off[i]);
		for (size_t i = 0; i < r_array_length(ns->accepts); i++) {
			rex_accept_t *a = (rex_accept_t *)r_array_slot(ns->accepts, i);
			gotends.push_back(a->inputsize);
			nl = std::max<long>(nl, a->inputsize);
			c.check(a->count < off.size() && off[a->count] == a->inputsize, "NFA accept: character count and byte size disagree");
		}
		c.check(gotends == wantends, cat("NFA accepts ", gotends.size(), " prefixes, expected ", wantends.size()));
		c.check(nl == want, cat("NFA longest ", nl, ", expected ", want));
		long dl = rex_dfasimulator_run(ds, dfadb, REX_DFA_STARTSTATE, p, text.size());
		c.check(dl == want, cat("DFA simulation longest ", dl, ", expected ", want));
		rexuint_t st = REX_DFA_STARTSTATE;
		long tl = 0;
		bool dead = false;
		for (size_t i = 0; i < in.size(); i++) {
			st = rex_dfa_next(dfa, st, in[i]);
			c.check(st < dfa->nstates, "DFA table: state out of range");
			bool acc = rex_dfa_state(dfa, st)->type == REX_STATETYPE_ACCEPT;
			c.check(!dead || st == REX_DFA_DEADSTATE, "DFA table leaves the dead state");
			dead = st == REX_DFA_DEADSTATE;
			c.check(acc == (bool)ends[i + 1], cat("DFA table acceptance after ", i + 1, " characters is ", acc));
			if (acc) tl = off[i + 1];
		}
		c.check(tl == want, cat("DFA table longest ", tl, ", expected ", want));
	}
	if (big) c.tag("large expression");
	if (rg::has_rep_in_rep(ast)) c.tag("nested repetition");
	if (rg::count(ast, rg::ALT)) c.tag("alternation");
	if (rg::count(ast, rg::CLS)) c.tag("class");
	rex_nfasimulator_destroy(ns);
	rex_dfasimulator_destroy(ds);
	rex_dfa_destroy(dfa);
	rex_db_destroy(dfadb);
	rex_db_destroy(nfa);
	rex_regex_destroy(re);
	c.check(r_debug_get_allocmem() == mem0, cat("memory not returned: ", (long)(r_debug_get_allocmem() - mem0), " bytes"));
}

int main(int argc, char **argv)
{
	Config cfg;
	cfg.id = "X01";
	cfg.rule = "A case is a random expression tree printed as pattern text (random escapes, blanks, numeric codes, reversed ranges, counts) plus 2-6 inputs derived from it and mutated, in UTF-8 or byte mode; the oracle evaluates the tree with position sets. Non-trivial: at least one input has a non-empty match.";
	cfg.quick_cases = 24000;
	cfg.thorough_cases = 400000;
	cfg.fn = one;
	cfg.assumptions = {"UTF-8 inputs are well formed (malformed input is L01 and X02)", "at most about 220 automaton states per pattern and 40 characters per input, for one case in 120 about a thousand states and 800 characters"};
	return run_main(argc, argv, cfg);
}
