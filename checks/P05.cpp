// libs: rlib rvm rpa
#include "pbt.h"
#include "anygram.h"
#include "rpah.h"
using namespace pbt;
extern "C" void rpa_stat_cachedisable(rpastat_t *stat, unsigned int disable);

static std::string observe(rpah::Stat &st, long rid, unsigned enc, const char *in, const char *start, const char *end, rarray_t *rec)
{
	std::string o = cat("match ", rpa_stat_match(st.p, rid, enc, in, start, end));
	r_array_setlength(rec, 0);
	long n = rpa_stat_parse(st.p, rid, enc, in, start, end, rec);
	o += cat("; parse ", n);
	if (n < 0) {
		rpa_errinfo_t e;
		memset(&e, 0, sizeof e);
		rpa_stat_lasterrorinfo(st.p, &e);
		o += cat(" error ", e.code, " mask ", e.mask, " offset ", e.offset, " rule ", e.name);
	}
	if (n > 0)
		for (long k = 0; k < rpa_records_length(rec); k++) {
			rparecord_t *p = rpa_record_get(rec, k);
			o += cat(p->type == RPA_RECORD_START ? " " : " /", p->rule, "@", p->inputoff, "+", p->inputsiz, "#", p->ruleid, ",", p->ruleuid);
		}
	const char *where = nullptr;
	n = rpa_stat_scan(st.p, rid, enc, in, start, end, &where);
	o += cat("; scan ", n);
	if (n > 0) o += cat(" at ", where - start);
	return o;
}

static void one(Src &s, Ctx &c)
{
	size_t mem0 = r_debug_get_allocmem();
	std::vector<uint32_t> wide;
	if (s.chance(1, 4)) wide = {0xe9, 0x3b1, 0x1f600, 'a' + 64, 'b' + 128};       // collide with the first ones modulo 64
	anyg::Any a = anyg::make(s, {'a', 'b', 'c', '+'}, wide, c.thorough);
	int n = a.g.rules.size();
	std::string text;
	std::vector<std::string> pieces;
	std::set<int> neg = anyg::negated(a.g);
	for (int i = 0; i < n; i++) {
		if (s.chance(1, 12)) text += cat("#!noemit ", a.g.rules[i].name, "\n");
		if (s.chance(1, 12)) text += cat("#!emitid ", a.g.rules[i].name, " ", 7 + i, "\n");
		if (!neg.count(i) && s.chance(1, 20)) text += cat("#!abort ", a.g.rules[i].name, "\n");
	}
	if (!text.empty()) pieces.push_back(text);
	for (auto &p : a.pieces(s, s.chance(1, 2), true)) { pieces.push_back(p); text += p; }
	int split = s.below(4);         // 0, 1: all databases from the whole text; 2: some piecewise; 3: and reopened between the pieces
	bool icase = s.chance(1, 4);
	unsigned enc = RPA_ENCODING_UTF8 | (icase ? RPA_ENCODING_ICASE : 0);
	c.describe(cat("grammar ", quote(text), icase ? " ignoring case" : ""));
	rpah::Db db[4];
	for (int k = 0; k < 4; k++) {
		rpa_dbex_cfgset(db[k].p, RPA_DBEXCFG_OPTIMIZATIONS, k & 1);
		rpa_dbex_cfgset(db[k].p, RPA_DBEXCFG_BITMAP, k >> 1);
		if (split < 2 || k == 0) c.check(db[k].load(text), cat("grammar rejected: ", db[k].error()));
		else {
			rpa_dbex_open(db[k].p);
			for (auto &p : pieces) {
				std::unique_ptr<char[]> b(new char[p.size()]);
				memcpy(b.get(), p.data(), p.size());
				c.check(rpa_dbex_load(db[k].p, b.get(), p.size()) == (long)p.size(), cat("piece ", quote(p), " of the grammar rejected: ", db[k].error()));
				if (split == 3) {
					rpa_dbex_close(db[k].p);
					if (s.chance(1, 2)) db[k].compile();          // may lack rules yet
					rpa_dbex_open(db[k].p);
				}
			}
			rpa_dbex_close(db[k].p);
		}
		c.check(db[k].compile(), cat("grammar does not compile: ", db[k].error()));
	}
	rarray_t *rec = rpa_records_create();
	{
		std::vector<std::unique_ptr<rpah::Stat>> st;
		for (int k = 0; k < 8; k++) {
			st.emplace_back(new rpah::Stat(db[k & 3]));
			rpa_stat_cachedisable(st[k]->p, k >> 2);
		}
		int ni = 3 + s.below(4);
		for (int i = 0; i < ni; i++) {
			int r = a.root(s);
			peg::W in = peg::gen_input(s, a.g, r, a.alpha, c.thorough ? 40 : 20);
			if (icase) for (auto &ch : in) if (ch >= 'a' && ch <= 'c' && s.chance(1, 2)) ch -= 32;
			std::string bytes = peg::utf8s(in);
			bool cheap = true;
			long len = 0;
			try {
				for (size_t p = 0; p <= in.size() && cheap; p++) {
					auto ev = a.eval(in);
					if (icase) ev->rngmatch = [](uint32_t ch, uint32_t lo, uint32_t hi) { return (ch >= lo && ch <= hi) || (r_charicase(ch) >= lo && r_charicase(ch) <= hi); };
					peg::Recs w;
					long l = ev->rule(r, p, w);
					if (p == 0) len = l;
					if (ev->cost > 20000) cheap = false;
				}
			} catch (peg::Budget &) { cheap = false; }
			if (!cheap) { c.tag("too expensive"); continue; }
			c.append(cat("\n rule ", a.g.rules[r].name, " on ", quote(bytes)));
			std::unique_ptr<char[]> buf(new char[bytes.size()]);
			memcpy(buf.get(), bytes.data(), bytes.size());
			std::string first;
			for (int k = 0; k < 8; k++) {
				long rid = db[k & 3].rid(a.g.rules[r].name);
				std::string o = observe(*st[k], rid, enc, buf.get(), buf.get(), buf.get() + bytes.size(), rec);
				if (k == 0) first = o;
				else c.check(o == first, cat("with optimizations ", k & 1, ", bitmaps ", (k >> 1) & 1, ", cache ", k < 4 ? "on" : "off", ": ", o, "\n  with neither optimizations nor bitmaps: ", first));
			}
			if (s.chance(1, 4)) {
				int k = s.below(4);
				rpah::Stat fresh(db[k]);
				std::string o = observe(fresh, db[k].rid(a.g.rules[r].name), enc, buf.get(), buf.get(), buf.get() + bytes.size(), rec);
				c.check(o == first, cat("a fresh state with optimizations ", k & 1, ", bitmaps ", k >> 1, ": ", o, "\n  a used one: ", first));
				c.tag("fresh state");
			}
			if (len >= 2) c.nontrivial = true;
			c.tag(len > 0 ? "match" : "no match");
			if (first.find("error 2003") != std::string::npos) c.tag("aborted");
			if (split > 1) c.tag("loaded in pieces");
		}
	}
	rpa_records_destroy(rec);
	for (auto &d : db) d.close();
	c.check(r_debug_get_allocmem() == mem0, cat("memory not returned: ", (long)(r_debug_get_allocmem() - mem0)));
}

int main(int argc, char **argv)
{
	Config cfg;
	cfg.id = "P05";
	cfg.rule = "a random grammar (plain, idiomatic or left-recursive, with directives) loaded whole or in pieces, compiled with optimizations and bitmaps on and off and run with the cache on and off, in used and fresh states; match, parse with records and scan must agree; non-trivial: some input matched two or more characters";
	cfg.quick_cases = 2500;
	cfg.thorough_cases = 100000;
	cfg.fn = one;
	cfg.assumptions = {"differential: all eight configurations against each other"};
	return run_main(argc, argv, cfg);
}
