// libs: rlib rvm rpa
#include "pbt.h"
#include "peg.h"
#include "rpah.h"
using namespace pbt;

static void one(Src &s, Ctx &c)
{
	size_t mem0 = r_debug_get_allocmem();
	peg::GenOpt o;
	if (s.chance(1, 5)) o.alpha = {'a', 'b'};
	else if (s.chance(1, 4)) o.alpha = {'a', 'b', 'c', '0', ' ', '\n', '\'', '"', '#', '<', '-', '\\', ']', '^', '.', 'n'};
	else if (s.chance(1, 3)) {       // any others
		o.alpha.clear();
		for (int i = 0; i < 7; i++) o.alpha.push_back(s.chance(1, 10) ? 1 + s.below(0x1f) : s.chance(1, 2) ? (uint32_t)"~:#@^-|&+*?\"'()[]<>.;\\=! \t\r"[s.below(27)] : 0x20 + s.below(0x60));
	}
	if (s.chance(1, 5)) o.wide = {0xe9, 0x3b1, 0x20ac, 0x1f600};
	o.maxdepth = 1 + s.below(c.thorough ? 4 : 3);
	int n = 1 + s.below(c.thorough ? 8 : 6);
	peg::Gen gen(s, o, n);
	peg::Grammar g = s.chance(1, 4) ? peg::idiom(s, o.alpha) : gen.grammar();
	peg::rename(s, g);
	n = g.rules.size();
	peg::Style st;
	st.filler = true;
	std::string text = peg::print_grammar(s, st, g);
	c.describe(cat("grammar ", quote(text)));
	rpah::Db db;
	c.check(db.load(text), cat("grammar rejected: ", db.error()));
	c.check(db.compile(), cat("grammar does not compile: ", db.error()));
	std::vector<uint32_t> al = o.alpha;
	al.insert(al.end(), o.wide.begin(), o.wide.end());
	{
		rpah::Stat stt(db);
		int ni = 3 + s.below(4);
		for (int i = 0; i < ni; i++) {
			int r = s.chance(1, 2) ? 0 : s.below(n);
			peg::W in = peg::gen_input(s, g, r, al, c.thorough ? 60 : 30);
			std::string bytes = peg::utf8s(in);
			long pos = s.chance(1, 5) ? s.below(in.size() + 1) : 0;
			peg::Eval ev(g, in);
			peg::Recs rec;
			long want;
			try { want = ev.rule(r, pos, rec); } catch (peg::Budget &) { c.tag("reference budget"); continue; }
			if (ev.cost > 200000) { c.tag("too expensive"); continue; }   // the engine remembers results only in a small cache
			if (want < 0) want = 0;
			size_t off = peg::utf8s(peg::W(in.begin(), in.begin() + pos)).size();
			size_t wbytes = peg::utf8s(peg::W(in.begin() + pos, in.begin() + pos + want)).size();
			c.append(cat("\n rule ", g.rules[r].name, " on ", quote(bytes), " at ", off));
			std::unique_ptr<char[]> buf(new char[bytes.size() + 0]);       // exact size: overreads are visible
			memcpy(buf.get(), bytes.data(), bytes.size());
			long rid = db.rid(g.rules[r].name);
			c.check(rid >= 0, "rule not found");
			long got = rpa_stat_match(stt.p, rid, RPA_ENCODING_UTF8, buf.get() + off, buf.get(), buf.get() + bytes.size());
			c.check(got == (long)wbytes, cat("match length ", got, ", reference ", wbytes, got < 0 ? cat(" error ", rpa_stat_lasterror(stt.p)) : ""));
			c.tag(want ? "match" : "no match");
			if (want >= 2 && ev.steps > 8) c.nontrivial = true;
		}
	}
	db.close();
	c.check(r_debug_get_allocmem() == mem0, cat("memory not returned: ", (long)(r_debug_get_allocmem() - mem0)));
}

int main(int argc, char **argv)
{
	Config cfg;
	cfg.id = "P01";
	cfg.rule = "a random or idiomatic grammar (rules, alternatives, quantifiers, groups, classes, '^', '-', recursion behind a consumed character) in random spellings; 3 to 6 inputs derived from it and mutated; non-trivial: some input matched two or more characters";
	cfg.quick_cases = 16000;
	cfg.thorough_cases = 600000;
	cfg.fn = one;
	cfg.assumptions = {"reference: direct recursive evaluation of the grammar AST", "inputs of at most 30 (60) characters"};
	return run_main(argc, argv, cfg);
}
