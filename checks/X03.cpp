// libs: rlib rex
#include "pbt.h"
#include "rexgen.h"
extern "C" {
#include "rlib/rmem.h"
#include "rex/rexdb.h"
#include "rex/rexdfa.h"
#include "rex/rexnfasimulator.h"
#include "rex/rexdfasimulator.h"
}
using namespace pbt;

static const char *invalid[] = {"(a", "a)", "*a", "a|", "[b", "a{3,1}", "a**", "[]", "()", "|a", "a{x}", "(a|)"};

static void one(Src &s, Ctx &c)
{
	size_t mem0 = r_debug_get_allocmem();
	int n = 1 + s.below(c.thorough ? 9 : 6);
	bool many = s.chance(1, 200);
	if (many) n = 20 + s.below(c.thorough ? 200 : 60);
	std::vector<rg::P> asts;
	std::vector<size_t> ud;
	rexdb_t *nfa = rex_db_create(REXDB_TYPE_NFA);
	long start = -1;
	bool structured = !many && s.chance(1, 2);
	for (int i = 0; i < n; i++) {
		rg::P ast;
		std::string pat;
		if (i && s.chance(1, 6)) {
			ast = asts[s.below(asts.size())];      // the same language again
		} else {
			rg::Opt o;
			int b = o.budget = 3 + s.below(14);
			ast = many && s.chance(3, 4) ? rg::word(s, 3, 6) : s.chance(1, 200) ? rg::gen_big(s, false) : structured ? rg::gen_structured(s, c.thorough) : rg::gen(s, o, s.below(4), b);
		}
		pat = rg::print(s, ast, 0);
		rg::fix_ranges(ast);
		if (s.chance(1, 8)) {
			const char *bad = invalid[s.below(sizeof invalid / sizeof *invalid)];
			size_t ns = rex_db_numstates(nfa);
			long r = rex_db_addexpression_s(nfa, start, bad, 999);
			c.check(r < 0, cat("invalid pattern ", bad, " accepted"));
			c.check(rex_db_numstates(nfa) == ns, "a rejected pattern left states behind");
			c.tag("rejected pattern in between");
		}
		size_t u = s.chance(1, 3) ? s.bits() : 10 + i;
		long r = rex_db_addexpression(nfa, start, pat.data(), pat.size(), u);
		c.check(r >= 0, cat("valid pattern ", quote(pat), " rejected"));
		c.check(start < 0 || r == start, "the start state changed");
		start = r;
		asts.push_back(ast);
		ud.push_back(u);
		c.append(cat(i ? ", " : "patterns ", quote(pat)));
	}
	rexdb_t *dfadb = rex_db_createdfa(nfa, start);
	c.check(dfadb != NULL, "no DFA");
	bool sub = s.chance(1, 2);
	rexdfa_t *dfa = rex_db_todfa(dfadb, sub);
	rex_nfasimulator_t *ns = rex_nfasimulator_create();
	rex_dfasimulator_t *ds = rex_dfasimulator_create();
	// structure: every state's transitions cover all characters, in order, once
	for (rexuint_t st = 0; st < dfa->nstates; st++) {
		rexdfs_t *q = rex_dfa_state(dfa, st);
		uint64_t next = 0;
		for (rexuint_t t = 0; t < q->ntrans; t++) {
			rexdft_t *tr = rex_dfa_transition(dfa, st, t);
			c.check(tr->lowin == next && tr->highin >= tr->lowin, "DFA transitions leave a gap or overlap");
			c.check(tr->state < dfa->nstates, "DFA transition to a missing state");
			next = (uint64_t)tr->highin + 1;
		}
		c.check(next == 0x100000000ull, "DFA transitions do not cover every character");
		c.check((q->type == REX_STATETYPE_ACCEPT) == (q->naccsubstates > 0) || st == REX_DFA_STARTSTATE, "accepting state without expressions");
	}
	int inputs = 2 + s.below(4);
	for (int k = 0; k < inputs; k++) {
		rg::cps in;
		if (structured && s.chance(1, 2)) { int l = 6 + s.below(19); while (l--) in.push_back('a' + s.below(2)); }
		else in = rg::gen_input(s, asts[s.below(n)], s.chance(1, 100) ? 500 : 24, true);
		std::vector<size_t> off;
		std::string text = rg::encode(in, off);
		std::vector<char> buf(text.begin(), text.end());
		buf.shrink_to_fit();
		const char *p = buf.empty() ? "" : buf.data();
		c.append(cat(" input ", quote(text)));
		std::vector<rg::Pos> ends;
		for (auto &a : asts) ends.push_back(rg::ends(a, in));
		// NFA: the accept list per prefix is the multiset of matching expressions
		rex_nfasimulator_run(ns, nfa, start, p, text.size());
		std::vector<std::multiset<size_t>> nf(in.size() + 1);
		for (size_t i = 0; i < r_array_length(ns->accepts); i++) {
			rex_accept_t *a = (rex_accept_t *)r_array_slot(ns->accepts, i);
			c.check(a->count <= in.size(), "NFA accept beyond the input");
			nf[a->count].insert(a->state->userdata);
		}
		rex_dfasimulator_start(ds, dfadb, REX_DFA_STARTSTATE);
		rexuint_t st = REX_DFA_STARTSTATE;
		for (size_t i = 1; i <= in.size(); i++) {
			std::vector<size_t> want, got, gs;
			for (int q = 0; q < n; q++) if (ends[q][i]) want.push_back(ud[q]);
			if (want.size() > 1) { c.nontrivial = true; c.tag("several expressions match the same prefix"); }
			else if (want.size() == 1) c.tag("one expression matches");
			c.check(nf[i] == std::multiset<size_t>(want.begin(), want.end()), cat("NFA reports ", nf[i].size(), " expressions after ", i, " characters, expected ", want.size()));
			st = rex_dfa_next(dfa, st, in[i - 1]);
			rexdfs_t *q = rex_dfa_state(dfa, st);
			c.check(q != NULL, "no such DFA state");
			for (rexuint_t a = 0; a < q->naccsubstates; a++) {
				rexdfss_t *ss = rex_dfa_accsubstate(dfa, st, a);
				c.check(ss && ss->type == REX_STATETYPE_ACCEPT, "accepting sub-state of another type");
				got.push_back(ss->userdata);
			}
			c.check(got == want, cat("DFA reports ", got.size(), " expressions after ", i, " characters, expected ", want.size(), " in order of addition"));
			c.check((q->type == REX_STATETYPE_ACCEPT) == !want.empty(), "DFA state type disagrees with its expressions");
			if (sub) {
				for (rexuint_t a = 0; a < q->nsubstates; a++) {
					rexdfss_t *ss = rex_dfa_substate(dfa, st, a);
					if (ss->type == REX_STATETYPE_ACCEPT) gs.push_back(ss->userdata);
				}
				c.check(gs == want, "full sub-state list disagrees with the accepting list");
			}
			rex_dfasimulator_next(ds, dfadb, in[i - 1], off[i] - off[i - 1]);
			c.check(ds->next && ds->next->uid == st, "DFA simulation and DFA tables reach different states");
		}
	}
	c.tag(cat("expressions ", n));
	rex_nfasimulator_destroy(ns);
	rex_dfasimulator_destroy(ds);
	rex_dfa_destroy(dfa);
	rex_db_destroy(dfadb);
	rex_db_destroy(nfa);
	c.check(r_debug_get_allocmem() == mem0, "memory not returned");
}

int main(int argc, char **argv)
{
	Config cfg;
	cfg.id = "X03";
	cfg.rule = "A case adds 1-6 (thorough: 1-9; one case in 200: 20-80) random expressions with chosen user data to one database, with rejected patterns in between, builds the DFA and feeds 2-5 inputs character by character. The oracle evaluates every expression separately. Non-trivial: some prefix is matched by two or more expressions.";
	cfg.quick_cases = 20000;
	cfg.thorough_cases = 300000;
	cfg.fn = one;
	return run_main(argc, argv, cfg);
}
