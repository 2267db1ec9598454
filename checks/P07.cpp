// libs: rlib rvm rpa
#include "pbt.h"
#include "anygram.h"
#include "rpah.h"
using namespace pbt;

struct Flags { bool emit = true, abort = false; long uid = 0; };
struct Abort { int rule; long pos; };
// a rule marked with abort that is tried and fails ends the whole attempt
template <class B> struct AEval : B {
	const std::vector<Flags> &fl;
	template <class... A> AEval(const std::vector<Flags> &f, A &&... a) : B(std::forward<A>(a)...), fl(f) {}
	long rule(int i, long pos, peg::Recs &r) override
	{
		long v = B::rule(i, pos, r);
		if (v <= 0 && fl[i].abort) throw Abort{i, pos};
		return v;
	}
};

static void one(Src &s, Ctx &c)
{
	size_t mem0 = r_debug_get_allocmem();
	bool wide = s.chance(1, 5);
	anyg::Any a = anyg::make(s, {'a', 'b', 'c', '+'}, wide ? std::vector<uint32_t>{0xe9, 0x20ac, 0x1f600} : std::vector<uint32_t>{}, c.thorough);
	int n = a.g.rules.size();
	bool tidy = s.chance(1, 2);
	peg::Style st;
	st.tidy = tidy;
	std::set<int> neg = anyg::negated(a.g);
	// directives take effect for the rules defined below them
	std::vector<Flags> cur(n), fl(n);
	std::string text;
	int ndir = 0;
	auto directive = [&]() {
		int r = s.below(n);
		std::string name = a.g.rules[r].name, gap = tidy ? " " : s.chance(1, 3) ? "\t" : s.chance(1, 2) ? "  " : " ";
		std::string head = tidy || !s.chance(1, 4) ? "#!" : s.chance(1, 2) ? "# !" : "#! ";
		std::string d;
		switch (s.weighted({1, 1, 4, 6, 5, 3, 1})) {
		case 0: d = "emitall"; for (auto &f : cur) f.emit = true; break;
		case 1: d = "emitnone"; for (auto &f : cur) f.emit = false; break;
		case 2: d = "emit" + gap + name; cur[r].emit = true; break;
		case 3: d = "noemit" + gap + name; cur[r].emit = false; break;
		case 4: {
			long u = s.chance(1, 3) ? 1 + s.below(5) : s.chance(1, 6) ? 2147483647 - s.below(2) : 1 + s.below(100000);
			d = "emitid" + gap + name + gap;
			if (s.chance(1, 2)) {        // how other programs call the number; nothing to do with the name of the rule
				std::string al = s.chance(1, 2) ? "UID_" + name : peg::gen_name(s);
				if (al[0] == '_') al = "u" + al;
				d += al + gap;
			}
			d += cat(u);
			cur[r].uid = u;
			cur[r].emit = true;
			break;
		}
		case 5:
			if (neg.count(r)) return;
			d = "abort" + gap + name;
			cur[r].abort = true;
			break;
		default: d = "emit" + gap + "no_such_rule"; break;
		}
		if (!tidy && s.chance(1, 6)) d += " and some more words";
		text += head + d + (tidy || !s.chance(1, 6) ? "\n" : "\r\n");
		ndir++;
	};
	for (int k = s.below(4); k > 0; k--) directive();
	std::vector<std::string> pieces = a.pieces(s, tidy, true);
	for (size_t k = 0; k < pieces.size(); k++) {
		text += pieces[k];
		fl[a.order[k]] = cur[a.order[k]];
		// rules on a left recursive cycle are compiled into each other, so their directives all come first
		if (!a.lrec) for (int z = s.below(3); z > 0; z--) if (s.chance(1, 2)) directive();
	}
	if (a.lrec) for (int i = 0; i < n; i++) fl[i] = cur[i];
	// a last expression without a name
	int anon = -1;
	if (!a.lrec && s.chance(1, 4)) {
		anon = s.below(n);
		std::string t = peg::print_rule(s, st, a.g, anon);
		text += t.substr(t.find("::=") + 3);
	}
	c.describe(cat("grammar ", quote(text)));
	rpah::Db db;
	c.check(db.load(text), cat("grammar rejected: ", db.error()));
	c.check(db.compile(), cat("grammar does not compile: ", db.error()));
	rarray_t *rec = rpa_records_create();
	{
		rpah::Stat stt(db);
		int ni = 3 + s.below(5);
		for (int i = 0; i < ni; i++) {
			int r = a.root(s);
			bool useanon = anon >= 0 && s.chance(1, 3);
			if (useanon) r = anon;
			peg::W in = peg::gen_input(s, a.g, r, a.alpha, c.thorough ? 40 : 24);
			std::string bytes = peg::utf8s(in);
			std::vector<long> at = {0};              // where each character begins
			for (auto ch : in) at.push_back(at.back() + (long)peg::utf8s(peg::W{ch}).size());
			long pos = s.chance(1, 4) ? s.below(in.size() + 1) : 0, len = 0;
			std::unique_ptr<peg::Eval> ev;
			if (a.lrec) ev.reset(new AEval<lr::Eval>(fl, a.g, in, a.ingroup));
			else ev.reset(new AEval<peg::Eval>(fl, a.g, in));
			peg::Recs want;
			Abort ab = {-1, 0};
			try {
				if (useanon) { len = ev->body(a.g.rules[r].body, pos, want); if (len <= 0) want.clear(); }
				else len = ev->rule(r, pos, want);
			}
			catch (Abort &x) { ab = x; }
			catch (peg::Budget &) { c.tag("reference budget"); continue; }
			if (ev->cost > 100000) { c.tag("too expensive"); continue; }
			if (len < 0) len = 0;
			c.append(cat("\n ", useanon ? "the unnamed expression" : "rule " + a.g.rules[r].name, " on ", quote(bytes), " at ", pos));
			std::unique_ptr<char[]> buf(new char[bytes.size()]);
			memcpy(buf.get(), bytes.data(), bytes.size());
			const char *b = buf.get(), *e = b + bytes.size();
			long rid = useanon ? rpa_dbex_last(db.p) : db.rid(a.g.rules[r].name);
			r_array_setlength(rec, 0);
			bool records = s.chance(3, 4);
			long got = records ? rpa_stat_parse(stt.p, rid, RPA_ENCODING_UTF8, b + at[pos], b, e, rec) : rpa_stat_match(stt.p, rid, RPA_ENCODING_UTF8, b + at[pos], b, e);
			if (ab.rule >= 0) {
				rpa_errinfo_t err;
				memset(&err, 0, sizeof err);
				rpa_stat_lasterrorinfo(stt.p, &err);
				c.check(got == -1, cat("result ", got, ", but rule ", a.g.rules[ab.rule].name, " aborts at ", ab.pos));
				c.check(err.code == RPA_E_RULEABORT && rpa_stat_lasterror(stt.p) == RPA_E_RULEABORT, cat("error code ", err.code, " after an abort"));
				std::string what = cat(strnlen(err.name, sizeof err.name) < sizeof err.name ? err.name : "?", " offset ", err.offset, " user id ", err.ruleuid);
				std::string ref = cat(a.g.rules[ab.rule].name.substr(0, sizeof err.name - 1), " offset ", at[ab.pos], " user id ", fl[ab.rule].uid);
				c.check(what == ref, cat("the abort is reported as ", what, ", reference ", ref));
				c.tag(ab.pos > pos ? "aborted further on" : "aborted");
				if (ab.pos > pos) c.nontrivial = true;
				continue;
			}
			if (len > 0 && wide) c.tag("several bytes a character");
			c.check(got == at[pos + len] - at[pos], cat("length ", got, ", reference ", at[pos + len] - at[pos]));
			c.tag(len ? "match" : "no match");
			if (!len || !records) continue;
			std::string sg, sw;
			size_t cnt = 0, all = 0;
			std::set<int> emitted;
			for (long k = 0; k < rpa_records_length(rec); k++) {
				rparecord_t *q = rpa_record_get(rec, k);
				sg += cat(q->type == RPA_RECORD_START ? " " : " /", q->rule, "@", q->inputoff, "+", q->inputsiz, "=", q->ruleid, ",", q->ruleuid);
			}
			for (auto &w : want) {
				all++;
				if (!fl[w.rule].emit) continue;
				cnt++;
				emitted.insert(w.rule);
				const std::string &nm = a.g.rules[w.rule].name;
				sw += cat(w.end ? " /" : " ", nm, "@", at[w.pos], "+", at[w.pos + w.len] - at[w.pos], "=", db.rid(nm), ",", fl[w.rule].uid);
			}
			c.check(sg == sw, cat("records", sg, "\n  reference", sw));
			if (cnt < all && cnt >= 2) { c.nontrivial = true; c.tag("some rules not emitted"); }
			if (a.lrec && cnt < all) c.tag("left recursion with rules not emitted");
		}
	}
	if (ndir) c.tag("with directives");
	rpa_records_destroy(rec);
	db.close();
	c.check(r_debug_get_allocmem() == mem0, cat("memory not returned: ", (long)(r_debug_get_allocmem() - mem0)));
}

int main(int argc, char **argv)
{
	Config cfg;
	cfg.id = "P07";
	cfg.rule = "a random grammar with directives between its rules; records, user ids, abort errors against the reference evaluator whose derivation is filtered by what each directive says for the rules below it; non-trivial: a parse whose records leave out some rules and keep at least one, or an abort behind the start";
	cfg.quick_cases = 10000;
	cfg.thorough_cases = 400000;
	cfg.fn = one;
	cfg.assumptions = {"directives act on rules defined after them; on a left recursive cycle only directives at the top are judged", "aborting rules inside exclusions are not judged"};
	return run_main(argc, argv, cfg);
}
