// libs: rlib rvm rpa
#include "pbt.h"
#include "anygram.h"
#include "rpah.h"
using namespace pbt;

static void one(Src &s, Ctx &c)
{
	size_t mem0 = r_debug_get_allocmem();
	std::vector<uint32_t> wide;
	if (s.chance(1, 3)) wide = {0xe9, 0x20ac, 0x1f600};
	anyg::Any a = anyg::make(s, {'a', 'b', 'c', '+'}, wide, c.thorough);
	int n = a.g.rules.size();
	std::string text;
	std::set<int> neg = anyg::negated(a.g);
	bool aborts = false;
	if (s.chance(1, 3))
		for (int i = 0; i < n; i++)
			if (!neg.count(i) && s.chance(1, 6)) { text += cat("#!abort ", a.g.rules[i].name, "\n"); aborts = true; }
	text += a.text(s, s.chance(1, 2), true);
	c.describe(cat("grammar ", quote(text)));
	rpah::Db db;
	if (s.chance(1, 3)) rpa_dbex_cfgset(db.p, RPA_DBEXCFG_BITMAP, s.below(2));
	c.check(db.load(text), cat("grammar rejected: ", db.error()));
	c.check(db.compile(), cat("grammar does not compile: ", db.error()));
	{
		rpah::Stat st(db);
		int ni = 2 + s.below(3);
		for (int i = 0; i < ni; i++) {
			int r = a.root(s);
			peg::W in;
			for (int k = s.below(c.thorough ? 10 : 5); k >= 0; k--) {       // several occurrences with noise between them
				peg::W w = peg::gen_input(s, a.g, r, a.alpha, c.thorough ? 30 : 14);
				in.insert(in.end(), w.begin(), w.end());
				for (int z = s.below(4); z > 0; z--) in.push_back(s.chance(1, 3) ? (uint32_t)s.pick(std::vector<int>{' ', 'x', 0, 0x7f, 0xe4, 0x10348}) : s.pick(a.alpha));
			}
			std::string bytes;
			std::vector<long> off;
			for (auto ch : in) { off.push_back(bytes.size()); bytes += peg::utf8s(peg::W{ch}); }
			off.push_back(bytes.size());
			long len = in.size();
			std::vector<long> ref(len + 1, 0);
			try {
				auto ev = a.eval(in);
				for (long p = 0; p <= len; p++) { peg::Recs w; ref[p] = ev->rule(r, p, w); if (ref[p] < 0) ref[p] = 0; if (ev->cost > 60000) break; }
				if (ev->cost > 60000) { c.tag("too expensive"); continue; }
			} catch (peg::Budget &) { c.tag("reference budget"); continue; }
			c.append(cat("\n rule ", a.g.rules[r].name, " on ", quote(bytes)));
			std::unique_ptr<char[]> buf(new char[bytes.size()]);
			memcpy(buf.get(), bytes.data(), bytes.size());
			const char *b = buf.get(), *e = b + bytes.size();
			long rid = db.rid(a.g.rules[r].name);
			// what matching says at every position
			std::vector<long> m(len + 1, 0);
			rarray_t *rec = rpa_records_create();
			for (long p = 0; p <= len; p++) {
				long g = rpa_stat_match(st.p, rid, RPA_ENCODING_UTF8, b + off[p], s.chance(1, 2) ? b : b + off[p], e);
				if (g < 0) {
					c.check(aborts && rpa_stat_lasterror(st.p) == RPA_E_RULEABORT, cat("match at ", off[p], " fails with error ", rpa_stat_lasterror(st.p)));
					c.tag("aborted attempt");
				}
				if (!aborts) c.check(g == off[p + ref[p]] - off[p], cat("match at ", off[p], " is ", g, ", reference ", off[p + ref[p]] - off[p]));
				r_array_setlength(rec, 0);
				long g2 = rpa_stat_parse(st.p, rid, RPA_ENCODING_UTF8, b + off[p], b, e, rec);
				c.check(g == g2, cat("at ", off[p], " match reports ", g, " and parse ", g2));
				m[p] = g < 0 ? 0 : g;
			}
			rpa_records_destroy(rec);
			// scanning from any position, with any start before it
			for (int k = 0; k < 3; k++) {
				long p = s.below(len + 1), q = p, cut = s.chance(1, 2) ? 0 : s.below(p + 1);
				while (q < len && !m[q]) q++;
				const char *where = nullptr;
				long g = rpa_stat_scan(st.p, rid, RPA_ENCODING_UTF8, b + off[p], b + off[cut], e, &where);
				if (q == len) c.check(g == 0, cat("scan from ", off[p], " reports ", g, ", but the rule matches nowhere"));
				else c.check(g == m[q] && where == b + off[q], cat("scan from ", off[p], " reports ", g, g > 0 ? cat(" at ", where - b) : "", ", the first match has length ", m[q], " at ", off[q]));
			}
			// repeating the scan behind each hit
			long p = 0, hits = 0;
			bool gap = false;
			const char *in0 = b, *where = nullptr;
			for (;;) {
				long g = rpa_stat_scan(st.p, rid, RPA_ENCODING_UTF8, in0, b, e, &where);
				long q = p;
				while (q < len && !m[q]) q++;
				if (q == len) { c.check(g == 0, cat("after ", hits, " hits scan reports ", g, ", but no match follows")); break; }
				c.check(g == m[q] && where == b + off[q], cat("hit ", hits + 1, " has length ", g, g > 0 ? cat(" at ", where - b) : "", ", expected ", m[q], " at ", off[q]));
				if (q > p) gap = true;
				hits++;
				in0 = where + g;
				while (off[p] < in0 - b) p++;
				c.check(off[p] == in0 - b, cat("hit ", hits, " ends inside a character"));
			}
			// the end of the text is wherever the caller says
			long x = s.below(len + 1), p2 = s.below(x + 1);
			if (!aborts) {
				peg::W head(in.begin(), in.begin() + x);
				std::unique_ptr<char[]> hb(new char[off[x]]);
				memcpy(hb.get(), b, off[x]);
				try {
					auto ev = a.eval(head);
					peg::Recs w;
					long want = ev->rule(r, p2, w);
					if (want < 0) want = 0;
					long g = rpa_stat_match(st.p, rid, RPA_ENCODING_UTF8, hb.get() + off[p2], hb.get(), hb.get() + off[x]);
					c.check(g == off[p2 + want] - off[p2], cat("with the text ending at ", off[x], " match at ", off[p2], " is ", g, ", reference ", off[p2 + want] - off[p2]));
					g = rpa_stat_match(st.p, rid, RPA_ENCODING_UTF8, b + off[p2], b, b + off[x]);
					c.check(g == off[p2 + want] - off[p2], cat("with the end moved to ", off[x], " match at ", off[p2], " is ", g, ", reference ", off[p2 + want] - off[p2]));
				} catch (peg::Budget &) {}
			}
			if (hits >= 2 && gap) c.nontrivial = true;
			c.tag(hits == 0 ? "no hit" : hits == 1 ? "one hit" : "several hits");
		}
	}
	db.close();
	c.check(r_debug_get_allocmem() == mem0, cat("memory not returned: ", (long)(r_debug_get_allocmem() - mem0)));
}

int main(int argc, char **argv)
{
	Config cfg;
	cfg.id = "P04";
	cfg.rule = "a random grammar (plain, idiomatic or left-recursive, some with #!abort) and a text of several generated occurrences with noise between; match and parse at every position, scans from random positions, repeated scan and a moved end against the reference evaluator and against each other; non-trivial: at least two hits with a gap";
	cfg.quick_cases = 6000;
	cfg.thorough_cases = 250000;
	cfg.fn = one;
	cfg.assumptions = {"with #!abort the positions at which the rule matches are taken from matching at every position"};
	return run_main(argc, argv, cfg);
}
