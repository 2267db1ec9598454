// libs: rlib rex
#include "pbt.h"
#include "rexgen.h"
extern "C" {
#include "rlib/rmem.h"
#include "rex/rexregex.h"
}
using namespace pbt;

static void one(Src &s, Ctx &c)
{
	rg::Opt o;
	o.budget = 4 + s.below(c.thorough ? 100 : 40);
	int b = o.budget;
	bool big = s.chance(1, 150);
	rg::P ast = big ? rg::gen_big(s, false) : s.chance(1, 8) ? rg::gen_structured(s, c.thorough) : rg::gen(s, o, s.below(4), b);
	std::string pat = rg::print(s, ast, 0);
	rg::fix_ranges(ast);
	c.describe("pattern " + quote(pat));
	size_t mem0 = r_debug_get_allocmem();
	rexregex_t *re = rex_regex_create(pat.data(), pat.size());
	c.check(re != NULL, "valid pattern rejected");
	int inputs = 2 + s.below(4);
	for (int k = 0; k < inputs; k++) {
		bool bytemode = s.chance(1, 3);
		// noise, then occurrences separated by more noise, so that a match starts anywhere
		std::string text;
		rg::cps in;
		std::vector<size_t> off;
		int parts = 1 + s.below(3);
		for (int q = 0; q < parts; q++) {
			size_t noise = s.weighted({3, 3, 1}) == 2 ? s.below(60) : s.below(8);
			bool sparse = s.chance(1, 2);
			for (size_t i = 0; i < noise; i++) in.push_back(sparse ? (rg::cp_t)('e' + s.below(8)) : rg::gen_cp(s, true));
			if (s.chance(3, 4)) rg::derive(s, ast, in, big ? 500 : 60);
		}
		for (auto &ch : in) if (rg::surrogate(ch) || ch > 0x10ffff) ch = 'b';
		if (in.size() > (big ? 700 : 90)) in.resize(big ? 700 : 90);
		if (bytemode) {
			off.clear();
			for (auto &ch : in) { ch &= 0xff; off.push_back(text.size()); text += (char)ch; }
			off.push_back(text.size());
		} else {
			text = rg::encode(in, off);
			if (s.chance(1, 4)) { text = rg::damage(s, text); c.tag("malformed UTF-8"); }
			in = rg::decode(text, off);
		}
		std::vector<char> buf(text.begin(), text.end());
		buf.shrink_to_fit();
		const char *p = buf.empty() ? "" : buf.data(), *e = p + buf.size();
		c.append(cat(bytemode ? " bytes " : " input ", quote(text)));
		unsigned encd = bytemode ? REX_ENCODING_BYTE : REX_ENCODING_UTF8;
		// walk over all matches the way a caller collects them
		size_t at = 0;      // character index
		int found = 0;
		while (1) {
			size_t wi = in.size();
			int wl = 0;
			for (size_t i = at; i < in.size() && !wl; i++) {
				rg::cps rest(in.begin() + i, in.end());
				int L = rg::longest(ast, rest);
				if (L > 0) { wi = i; wl = L; }
			}
			long wantlen = wl ? (long)(off[wi + wl] - off[wi]) : 0;
			const char *where = (const char *)1;
			int got = rex_regex_scan(re, encd, p + off[at], e, s.chance(1, 12) ? NULL : &where);
			c.check(got == wantlen, cat("scan from byte ", off[at], " returned ", got, ", expected ", wantlen));
			if (!wl) break;
			if (where != (const char *)1) c.check(where == p + off[wi], cat("match reported at byte ", where - p, ", expected ", off[wi]));
			int m = rex_regex_match(re, encd, p + off[wi], e);
			c.check(m == wantlen, "match at the reported place disagrees with scan");
			found++;
			if (off[wi] > off[at]) c.tag("match after a gap");
			if (e - (p + off[wi + wl]) == 0) c.tag("match at the end");
			if (wantlen < 3) c.tag("match shorter than three bytes");
			at = wi + wl;
		}
		c.tag(found ? (found > 1 ? "several matches" : "one match") : "no match");
		if (found) c.nontrivial = true;
	}
	rex_regex_destroy(re);
	c.check(r_debug_get_allocmem() == mem0, "memory not returned");
}

int main(int argc, char **argv)
{
	Config cfg;
	cfg.id = "X02";
	cfg.rule = "A case is a random expression tree printed as pattern text plus 2-5 inputs holding zero or more occurrences between noise, in UTF-8 (a quarter damaged) or byte mode; all successive matches are collected with scan. The oracle tries every start position with a set-of-positions matcher. Non-trivial: some input has a match.";
	cfg.quick_cases = 30000;
	cfg.thorough_cases = 500000;
	cfg.fn = one;
	cfg.assumptions = {"a malformed UTF-8 byte counts as one character of that code, as the library documents by its decoder"};
	return run_main(argc, argv, cfg);
}
