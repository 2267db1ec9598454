// libs: rlib rvm rpa
#include "pbt.h"
#include "anygram.h"
#include "enc.h"
#include "rpah.h"
using namespace pbt;

static void one(Src &s, Ctx &c)
{
	size_t mem0 = r_debug_get_allocmem();
	std::vector<uint32_t> al = {'a', 'B', 'c', '+'}, wide;
	int fam = s.below(4);
	if (fam == 1) wide = {0xe9, 0xc9, 0xd7, 0xf7, 0xdf, 0xff, 0xe0};
	if (fam == 2) wide = {0x3b1, 0x391, 0x3c9, 0x416, 0x436, 0x44f, 0x390, 0x3b0};
	if (fam == 3) wide = {0x20ac, 0x1f600, 0xffff, 0x10000, 0x7ff, 0x800, 0x10ffff};
	if (s.chance(1, 3)) al = {'k', 'Z', '[', '{', '@', '`', '0'};      // around the letters
	anyg::Any a = anyg::make(s, al, wide, c.thorough);
	std::string text = a.text(s, false, true);
	c.describe(cat("grammar ", quote(text)));
	rpah::Db db;
	c.check(db.load(text), cat("grammar rejected: ", db.error()));
	c.check(db.compile(), cat("grammar does not compile: ", db.error()));
	{
		rpah::Stat st(db);
		int ni = 4 + s.below(5);
		for (int i = 0; i < ni; i++) {
			int r = a.root(s);
			enc::E e = (enc::E)s.below(3);
			bool icase = s.chance(1, 2);
			peg::W in = peg::gen_input(s, a.g, r, a.alpha, c.thorough ? 40 : 24);
			std::string bytes;
			for (auto ch : in) {
				if (icase && s.chance(1, 2)) ch = enc::other(ch);
				if (e == enc::BYTE && ch > 255) ch = 'a';
				enc::put(bytes, ch, e);
			}
			if (s.chance(1, 5) && !bytes.empty()) {               // not well-formed
				switch (s.below(3)) {
				case 0: bytes.resize(s.below(bytes.size())); break;
				case 1: bytes.insert(s.below(bytes.size() + 1), 1, (char)s.pick(std::vector<int>{0x80, 0xbf, 0xc3, 0xe2, 0xf5, 0xff, 0xd8, 0xdc, 0})); break;
				default: bytes.erase(s.below(bytes.size()), 1);
				}
				c.tag("mutated bytes");
			}
			enc::Text t = enc::decode(bytes, e);
			auto ev = a.eval(t.ch);
			if (icase) ev->rngmatch = enc::imatch;
			long pos = s.chance(1, 5) ? s.below(t.ch.size() + 1) : 0, len, p = pos, sl = 0;
			peg::Recs want;
			try {
				len = ev->rule(r, pos, want);
				for (; p < (long)t.ch.size(); p++) { peg::Recs w; sl = ev->rule(r, p, w); if (sl > 0) break; }
				if (p == (long)t.ch.size()) sl = 0;
			} catch (peg::Budget &) { c.tag("reference budget"); continue; }
			if (ev->cost > 200000) { c.tag("too expensive"); continue; }
			if (len < 0) len = 0;
			unsigned flags = (e == enc::BYTE ? RPA_ENCODING_BYTE : e == enc::UTF8 ? RPA_ENCODING_UTF8 : RPA_ENCODING_UTF16LE) | (icase ? RPA_ENCODING_ICASE : 0);
			c.append(cat("\n rule ", a.g.rules[r].name, " on ", quote(bytes), e == enc::BYTE ? " bytes" : e == enc::UTF8 ? " UTF-8" : " UTF-16", icase ? " ignoring case" : "", " at ", t.off[pos]));
			std::unique_ptr<char[]> buf(new char[bytes.size()]);
			memcpy(buf.get(), bytes.data(), bytes.size());
			const char *b = buf.get(), *end = b + bytes.size();
			long rid = db.rid(a.g.rules[r].name);
			long got = rpa_stat_match(st.p, rid, flags, b + t.off[pos], b, end), wl = t.off[pos + len] - t.off[pos];
			c.check(got == wl, cat("match length ", got, ", reference ", wl));
			rarray_t *rec = rpa_records_create();
			got = rpa_stat_parse(st.p, rid, flags, b + t.off[pos], b, end, rec);
			std::string sg, sw;
			if (got > 0)
				for (long k = 0; k < rpa_records_length(rec); k++) {
					rparecord_t *q = rpa_record_get(rec, k);
					sg += cat(q->type == RPA_RECORD_START ? " " : " /", q->rule, "@", q->inputoff, "+", q->inputsiz);
				}
			rpa_records_destroy(rec);
			c.check(got == wl, cat("parse length ", got, ", reference ", wl));
			for (auto &w : want) sw += cat(w.end ? " /" : " ", a.g.rules[w.rule].name, "@", t.off[w.pos], "+", t.off[w.pos + w.len] - t.off[w.pos]);
			if (wl) c.check(sg == sw, cat("records", sg, "\n  reference", sw));
			const char *where = nullptr;
			got = rpa_stat_scan(st.p, rid, flags, b + t.off[pos], b, end, &where);
			wl = sl > 0 ? t.off[p + sl] - t.off[p] : 0;
			c.check(got == wl && (!wl || where == b + t.off[p]), cat("scan ", got, got > 0 ? cat(" at ", where - b) : "", ", reference ", wl, wl ? cat(" at ", t.off[p]) : ""));
			c.tag(e == enc::BYTE ? "bytes" : e == enc::UTF8 ? "UTF-8" : "UTF-16");
			if (len >= 2 && (e != enc::BYTE || icase)) c.nontrivial = true;
		}
	}
	db.close();
	c.check(r_debug_get_allocmem() == mem0, cat("memory not returned: ", (long)(r_debug_get_allocmem() - mem0)));
}

int main(int argc, char **argv)
{
	Config cfg;
	cfg.id = "P06";
	cfg.rule = "a random grammar over ASCII, Latin-1, Greek, Cyrillic or astral characters; inputs in bytes, UTF-8 or UTF-16, well-formed or damaged, respecting or ignoring case; match, parse and scan against the reference on the decoded text; non-trivial: a match of two or more characters in a multi-byte encoding or ignoring case";
	cfg.quick_cases = 12000;
	cfg.thorough_cases = 500000;
	cfg.fn = one;
	cfg.assumptions = {"reference decoder: a byte that starts no complete sequence is one character of its own value", "case pairs: ASCII, Latin-1, Greek and Cyrillic letters 32 apart"};
	return run_main(argc, argv, cfg);
}
