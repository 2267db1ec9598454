// libs: rlib rvm rpa
#include "pbt.h"
#include "lr.h"
#include "rpah.h"
using namespace pbt;

static void one(Src &s, Ctx &c)
{
	size_t mem0 = r_debug_get_allocmem();
	std::vector<uint32_t> al = {'a', 'b', 'c', '+'};
	if (s.chance(1, 4)) al = {'a', 'b'};
	lr::Gen gen(s, al, c.thorough);
	lr::Lang l = gen.make();
	peg::rename(s, l.g);
	int n = l.g.rules.size();
	peg::Style st;
	st.tidy = s.chance(1, 2);
	std::string text;
	std::vector<bool> emit(n, true);
	if (s.chance(1, 3)) {
		for (int i = 0; i < n; i++) if (s.chance(1, 3)) { emit[i] = false; text += cat("#!noemit ", l.g.rules[i].name, "\n"); }
	}
	size_t fill = s.chance(1, 60) ? s.below(l.order.size()) : (size_t)-1;
	for (int i : l.order) { if (i == (int)fill) text += peg::filler(s, 0); text += peg::print_rule(s, st, l.g, i) + "\n"; }       // directives act on the rules after them
	c.describe(cat("grammar ", quote(text)));
	rpah::Db db;
	c.check(db.load(text), cat("grammar rejected: ", db.error()));
	c.check(db.compile(), cat("grammar does not compile: ", db.error()));
	std::vector<int> roots;
	for (int i = 0; i < n; i++) if (l.head[i]) roots.push_back(i);
	rarray_t *rec = rpa_records_create();
	{
		rpah::Stat stt(db);
		int ni = 3 + s.below(4);
		for (int i = 0; i < ni; i++) {
			int r = s.chance(1, 2) ? roots[0] : s.pick(roots);
			peg::W in = peg::gen_input(s, l.g, r, al, s.chance(1, 100) ? 400 : c.thorough ? 50 : 24);
			std::string bytes(in.begin(), in.end());
			lr::Eval ev(l.g, in, l.ingroup);
			ev.emit = emit;
			peg::Recs want;
			long len;
			try { len = ev.rule(r, 0, want); } catch (peg::Budget &) { c.tag("reference budget"); continue; }
			if (ev.cost > 100000) { c.tag("too expensive"); continue; }
			if (len < 0) len = 0;
			c.append(cat("\n rule ", l.g.rules[r].name, " on ", quote(bytes)));
			std::unique_ptr<char[]> buf(new char[bytes.size()]);
			memcpy(buf.get(), bytes.data(), bytes.size());
			long rid = db.rid(l.g.rules[r].name);
			long got = rpa_stat_match(stt.p, rid, RPA_ENCODING_UTF8, buf.get(), buf.get(), buf.get() + bytes.size());
			c.check(got == len, cat("match length ", got, ", reference ", len));
			r_array_setlength(rec, 0);
			got = rpa_stat_parse(stt.p, rid, RPA_ENCODING_UTF8, buf.get(), buf.get(), buf.get() + bytes.size(), rec);
			c.check(got == len, cat("parse length ", got, ", reference ", len));
			c.tag(len ? "match" : "no match");
			if (!len) continue;
			std::string sg, sw;
			for (long k = 0; k < rpa_records_length(rec); k++) {
				rparecord_t *p = rpa_record_get(rec, k);
				sg += cat(p->type == RPA_RECORD_START ? " " : " /", p->rule, "@", p->inputoff, "+", p->inputsiz);
			}
			for (auto &w : want) sw += cat(w.end ? " /" : " ", l.g.rules[w.rule].name, "@", w.pos, "+", w.len);
			c.check(sg == sw, cat("records", sg, "\n  reference", sw));
			if (ev.grown) c.tag("grown");
			if (ev.grown >= 2) c.nontrivial = true;
		}
	}
	rpa_records_destroy(rec);
	db.close();
	c.check(r_debug_get_allocmem() == mem0, cat("memory not returned: ", (long)(r_debug_get_allocmem() - mem0)));
}

int main(int argc, char **argv)
{
	Config cfg;
	cfg.id = "P02";
	cfg.rule = "a random grammar of layered left-recursive groups (direct, indirect over several rules, several alternatives, brackets back to any layer) and inputs derived from it; non-trivial: some input needed two or more left-recursive growth steps";
	cfg.quick_cases = 12000;
	cfg.thorough_cases = 500000;
	cfg.fn = one;
	cfg.assumptions = {"reference: seed growing over the grammar AST", "every left cycle passes through the rule that is matched or referred to"};
	// A left recursion with an inner cycle of its own: the inner cycle isn't grown.
	cfg.known["inner-cycle"] = [] {
		rpah::Db db;
		if (!db.load("A ::= <B> 'x' | 'y'\nB ::= <B> 'q' | <A> 'z' | 'w'\n") || !db.compile()) return true;
		rpah::Stat st(db);
		const char *in = "wqx";
		return rpa_stat_match(st.p, db.rid("A"), RPA_ENCODING_UTF8, in, in, in + 3) != 3;
	};
	return run_main(argc, argv, cfg);
}
