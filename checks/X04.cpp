// libs: rlib rex
#include "pbt.h"
#include "rexgen.h"
extern "C" {
#include "rlib/rmem.h"
#include "rex/rexdb.h"
#include "rex/rexdfa.h"
#include "rex/rexregex.h"
#include "rex/rexnfasimulator.h"
}
using namespace pbt;

static std::string soup(Src &s)
{
	static const std::vector<std::string> t = {"a", "b", "(", ")", "|", "*", "+", "?", "[", "]", "^", "-", "{", "}", "{2}", "{1,3}", "{0}", "{,2}", "{2,}", "{3,1}", "{0,0}", "\\", "\\n", "\\*", "#", "#x41", "#97", "#0x", "#xffffffff", "#4294967295", "#08", " ", "\t", "\n", "\r", "\\\n", "\\\r\n", ",", ".", "\"", "'",
		"\xc3\xa9", "\xc4\xaa", "\xc5\xbb", "\xe2\x82\xac", "\xf0\x90\x8d\x88", "\xff", "\x80", "\xc3", "[a-z]", "[^a]", "[z-a]", "[#x20-#x7f]", "[\\]]", "0", "9", "(a|b)", "(a", "b)", "a|", "x{99999999999999999999}"};
	std::string o;
	int n = s.below(18), reps = 0;
	for (int i = 0; i < n; i++) {
		std::string x = s.chance(1, 2) ? t[s.below(20)] : s.pick(t);
		if (s.chance(1, 60)) x = std::string(1, '\0');
		if (x[0] == '{' || x.find('{') != std::string::npos) { if (reps++ > 2) x = "a"; }
		if (x.find("999") != std::string::npos) x = "b{3";
		o += x;
	}
	return o;
}

// numbers with so many digits that they may or may not be taken; if they are, they mean the same as without the zeros
static std::string long_number(Src &s, std::string in, size_t &want)
{
	static const std::vector<size_t> lens = {16, 32, 64, 100, 126, 127, 128, 129, 130, 140, 255, 256, 257, 300};
	size_t l = s.chance(1, 4) ? s.below(300) : s.pick(lens);
	l -= std::min<size_t>(l, s.below(4));
	std::string z(l, '0');
	size_t k = 1 + s.below(4), m = k + s.below(4);
	switch (s.below(7)) {
	case 0: want = k; return cat("a{", z, k, "}");
	case 1: want = in.size(); return cat("a{", z, k, ",}");
	case 2: want = m; return cat("a{", k, ",", z, m, "}");
	case 3: want = m; return cat("a{", z, k, " , ", z, m, " }");
	case 4: want = 1; return cat("[#x", z, "61]");
	case 5: want = 1; return cat("[#0x", z, "60-#x", z, "62]");
	default: want = in.size(); return cat("[#0x", z, "61-#x", z.substr(z.size() / 2), "64]+");
	}
}

static std::string make_invalid(Src &s, const std::string &p)
{
	static const std::vector<std::string> tail = {")", "|", "(", "()", "[", "[]", "[^]", "[a", "[a-]", "[-a]", "[a--]", "[[]", "[#z]", "a**", "a+*", "a??", "a{2}{3}", "a{2,1}", "a{", "a{x}", "a{1", "a{1,", "a{1,2", "a{,2}", "a{}", "a]", "a}", "||b", "|*", "|)", "(a|)", "(|a)", "(a))", "((a)", "(*a)", "(a", "|(a", "|]"};
	static const std::vector<std::string> head = {"*", "+", "?", "{2}", "]", "}", ")", "|", "(", "[", "()", "[]", "a**", "a{2,1}", "(|", "b||"};
	switch (s.below(3)) {
	case 0: return p + s.pick(tail);
	case 1: { std::string h = s.pick(head); if (h == "[") return "[^]" + p; return h + p; }
	default: { std::string x = s.pick(tail); while (x == "(" || x == "[" || x == "|" || x == ")" || x == "((a)" || x == "(a" || x == "|(a" || x == "[a" || x == "a{" || x == "a{1" || x == "a{1," || x == "a{1,2" || x == "[^]") x = "a**"; return p + "(" + x + ")"; }
	}
}

static void one(Src &s, Ctx &c)
{
	size_t mem0 = r_debug_get_allocmem();
	{
		rexdb_t *nfa = rex_db_create(REXDB_TYPE_NFA);
		long start = -1;
		int n = 1 + s.below(3);
		std::vector<rg::P> valid;
		bool bigdfa = false;
		std::string blanks = " \t";
		if (s.chance(1, 6)) {
			// the blank set given as an exactly sized buffer
			static const std::vector<std::string> sets = {"", "_", " ", "~", "_~", "\t"};
			blanks = s.pick(sets);
			std::vector<char> bb(blanks.begin(), blanks.end());
			bb.shrink_to_fit();
			bool z = s.chance(1, 2);
			long r = z ? rex_db_setblanks_s(nfa, blanks.c_str()) : rex_db_setblanks(nfa, bb.empty() ? "" : bb.data(), bb.size());
			c.check(r == 0, "setblanks failed");
			c.append(cat("blanks ", quote(blanks), " "));
			c.tag("own blank characters");
			// x<blank>y: a blank is skipped, any other character stands for itself
			for (char ch : std::string("_~ ")) {
				std::string pat = std::string("xx") + ch + "yy";
				rexdb_t *d2 = rex_db_create(REXDB_TYPE_NFA);
				if (z) rex_db_setblanks_s(d2, blanks.c_str()); else rex_db_setblanks(d2, bb.empty() ? "" : bb.data(), bb.size());
				long st = rex_db_addexpression(d2, -1, pat.data(), pat.size(), 0);
				c.check(st >= 0, "pattern with a blank rejected");
				rex_nfasimulator_t *si = rex_nfasimulator_create();
				bool isb = blanks.find(ch) != std::string::npos;
				std::string in = isb ? "xxyy" : pat;
				c.check(rex_nfasimulator_run(si, d2, st, in.data(), in.size()) > 0, cat("character ", quote(std::string(1, ch)), isb ? " should be skipped as a blank" : " should be matched literally"));
				rex_nfasimulator_destroy(si);
				rex_db_destroy(d2);
			}
		}
		for (int i = 0; i < n; i++) {
			size_t before = rex_db_numstates(nfa);
			std::string pat;
			unsigned kind = s.weighted({5, 4, 2, 1});
			const std::string as(20, 'a');
			size_t expect = 0;
			if (kind == 0 && s.chance(1, 8)) pat = long_number(s, as, expect), c.tag("long number");
			else if (kind == 0) pat = soup(s);
			else {
				rg::Opt o;
				int b = o.budget = 3 + s.below(16);
				rg::P ast = rg::gen(s, o, s.below(4), b);
				if (blanks != " \t") ast = rg::lit('q');
				pat = rg::print(s, ast, 0);
				if (blanks != " \t") pat = "q";
				rg::fix_ranges(ast);
				if (kind == 1) pat = make_invalid(s, pat);
				else {
					if (kind == 3) { int d = 1 + s.below(c.thorough ? 1500 : 400); pat = std::string(d, '(') + pat + std::string(d, ')'); c.tag("deep parentheses"); }
					valid.push_back(ast);
				}
			}
			c.append(cat(i ? ", " : "", kind == 0 ? "text " : kind == 1 ? "broken " : "valid ", quote(pat.size() > 300 ? pat.substr(0, 300) + "..." : pat)));
			std::vector<char> buf(pat.begin(), pat.end());
			buf.shrink_to_fit();
			const char *p = buf.empty() ? "" : buf.data();
			long r = rex_db_addexpression(nfa, start, p, pat.size(), i);
			rexregex_t *re = NULL;
			size_t added = rex_db_numstates(nfa) - before;
			if (r < 0) {
				c.check(r == -1, "unexpected error value");
				c.check(rex_db_numstates(nfa) == before, "a rejected pattern changed the database");
				c.tag("rejected");
				if (kind != 0 || pat.size() > 1) c.nontrivial = true;
				if (blanks == " \t") c.check((re = rex_regex_create(p, pat.size())) == NULL, "regex object for a rejected pattern");
			}
			c.check(kind < 2 || r >= 0, "valid pattern rejected");
			c.check(kind != 1 || r < 0, "broken pattern accepted");
			if (r < 0) continue;
			c.check(start < 0 || r == start, "start state moved");
			start = r;
			c.tag("accepted");
			if (kind == 0) c.nontrivial = true;
			if (added > 120 || kind == 3) { bigdfa = true; continue; }
			if (blanks != " \t") continue;
			// the accepted text behaves as one language in every engine
			re = rex_regex_create(p, pat.size());
			c.check(re != NULL, "regex object refused a pattern the database accepts");
			rexdb_t *one = rex_db_create(REXDB_TYPE_NFA);
			long ostart = rex_db_addexpression(one, -1, p, pat.size(), 0);
			rex_nfasimulator_t *si = rex_nfasimulator_create();
			if (expect) {
				int m = rex_regex_match(re, REX_ENCODING_UTF8, as.data(), as.data() + as.size());
				c.check(m == (int)expect, cat("matches ", m, " of ", as, " instead of ", expect));
			}
			for (int k = 0; k < 3; k++) {
				rg::cps in;
				std::vector<size_t> off;
				size_t l = s.below(10);
				for (size_t q = 0; q < l; q++) in.push_back(rg::gen_cp(s, true));
				for (auto &ch : in) if (rg::surrogate(ch)) ch = 'a';
				std::string text = rg::encode(in, off);
				if (s.chance(1, 6)) text = rg::damage(s, text);
				rex_nfasimulator_run(si, one, ostart, text.data(), text.size());
				long nl = 0;
				for (size_t q = 0; q < r_array_length(si->accepts); q++) nl = std::max<long>(nl, ((rex_accept_t *)r_array_slot(si->accepts, q))->inputsize);
				int m = rex_regex_match(re, REX_ENCODING_UTF8, text.data(), text.data() + text.size());
				c.check(m == nl, cat("automata disagree on ", quote(text), ": ", m, " against ", nl));
				const char *w = NULL;
				int sc = rex_regex_scan(re, REX_ENCODING_UTF8, text.data(), text.data() + text.size(), &w);
				c.check(m == 0 || (sc == m && w == text.data()), "scan misses the match at the start");
				c.check(sc >= 0 && (sc == 0 || (w >= text.data() && w + sc <= text.data() + text.size())), "scan result outside the input");
			}
			rex_nfasimulator_destroy(si);
			rex_db_destroy(one);
			rex_regex_destroy(re);
		}
		// the database still works after whatever was rejected
		long r = rex_db_addexpression_s(nfa, start, "final[0-9]+", 4242);
		c.check(r >= 0 && (start < 0 || r == start), "the database refuses a valid pattern after earlier ones");
		start = r;
		rex_nfasimulator_t *si = rex_nfasimulator_create();
		rex_nfasimulator_run(si, nfa, start, "final77", 7);
		bool ok = false;
		for (size_t q = 0; q < r_array_length(si->accepts); q++) {
			rex_accept_t *a = (rex_accept_t *)r_array_slot(si->accepts, q);
			if (a->inputsize == 7 && a->state->userdata == 4242) ok = true;
		}
		c.check(ok, "the pattern added last does not match");
		rex_nfasimulator_destroy(si);
		if (!bigdfa && rex_db_numstates(nfa) < 150) {
			rexdb_t *d = rex_db_createdfa(nfa, start);
			c.check(d != NULL, "no DFA");
			rexdfa_t *t = rex_db_todfa(d, 1);
			rexuint_t st = REX_DFA_STARTSTATE;
			for (const char *q = "final7"; *q; q++) st = rex_dfa_next(t, st, *q);
			rexdfs_t *q = rex_dfa_state(t, st);
			ok = false;
			for (rexuint_t a = 0; a < q->naccsubstates; a++) if (rex_dfa_accsubstate(t, st, a)->userdata == 4242) ok = true;
			c.check(ok, "DFA misses the pattern added last");
			rex_dfa_destroy(t);
			rex_db_destroy(d);
		}
		rex_db_destroy(nfa);
	}
	c.check(r_debug_get_allocmem() == mem0, cat("memory not returned: ", (long)(r_debug_get_allocmem() - mem0)));
}

int main(int argc, char **argv)
{
	Config cfg;
	cfg.id = "X04";
	cfg.rule = "A case adds 1-3 texts to one database: token soup, a valid pattern broken by a known-invalid edit, a valid pattern, or a deeply parenthesised one; then a final valid pattern. Checked: clean accept/reject, no state left by a reject, known-invalid rejected, valid accepted, engines agree on accepted soup, the final pattern works, all memory returned. Non-trivial: some text was rejected or some soup accepted.";
	cfg.quick_cases = 30000;
	cfg.thorough_cases = 500000;
	cfg.fn = one;
	cfg.assumptions = {"repeat counts in random text stay small (a count is expanded into states by design)", "at most 1500 nested parentheses"};
	return run_main(argc, argv, cfg);
}
