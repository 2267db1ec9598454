// libs: rlib rvm rpa
// sanitize: thread
// P10: many threads, one compiled grammar: every thread sees what it would see alone, without data races.
#include "pbt.h"
#include "anygram.h"
#include "enc.h"
#include "rpah.h"
#include <thread>
#include <atomic>
#include <memory>
#include <sched.h>
using namespace pbt;
extern "C" void rpa_stat_cachedisable(rpastat_t *stat, unsigned int disable);

struct Job { int kind; long rid; unsigned enc; std::string in; size_t from; int yield; std::string want; };
static std::string call(rpastat_t *st, const Job &j, rarray_t *rec)
{
	std::unique_ptr<char[]> b(new char[j.in.size()]);
	memcpy(b.get(), j.in.data(), j.in.size());
	const char *in = b.get() + j.from, *start = b.get(), *end = start + j.in.size(), *where = nullptr;
	long n;
	std::string o;
	if (j.kind == 0) n = rpa_stat_match(st, j.rid, j.enc, in, start, end);
	else if (j.kind == 1) { r_array_setlength(rec, 0); n = rpa_stat_parse(st, j.rid, j.enc, in, start, end, rec); }
	else n = rpa_stat_scan(st, j.rid, j.enc, in, start, end, &where);
	o = cat(n);
	if (n < 0) {
		rpa_errinfo_t e;
		memset(&e, 0, sizeof e);
		rpa_stat_lasterrorinfo(st, &e);
		o += cat(" error ", e.code, " offset ", e.offset, " rule ", e.name);
	}
	if (n > 0 && j.kind == 2) o += cat(" at ", where - start);
	if (n > 0 && j.kind == 1)
		for (long k = 0; k < rpa_records_length(rec); k++) {
			rparecord_t *p = rpa_record_get(rec, k);
			o += cat(p->type == RPA_RECORD_START ? " " : " /", p->rule, "@", p->inputoff, "+", p->inputsiz);
		}
	return o;
}

static void run(Src &s, Ctx &c)
{
	size_t mem0 = r_debug_get_allocmem();
	anyg::Any a = anyg::make(s, {'a', 'b', 'c', '+'}, {}, c.thorough);
	std::string text;
	std::set<int> neg = anyg::negated(a.g);
	for (size_t i = 0; i < a.g.rules.size(); i++)
		if (!neg.count(i) && s.chance(1, 12)) text += cat("#!abort ", a.g.rules[i].name, "\n");
	text += a.text(s, true, true);
	c.describe(cat("grammar ", quote(text)));
	{
		rpah::Db db;
		rpa_dbex_cfgset(db.p, RPA_DBEXCFG_OPTIMIZATIONS, s.below(2));
		rpa_dbex_cfgset(db.p, RPA_DBEXCFG_BITMAP, s.below(2));
		c.check(db.load(text) && db.compile(), cat("grammar rejected: ", db.error()));
		int nt = 2 + s.below(4);
		std::vector<std::vector<Job>> jobs(nt);
		int total = 0;
		{
			rpah::Stat alone(db);
			rarray_t *rec = rpa_records_create();
			for (int t = 0; t < nt; t++) {
				int n = 1 + s.below(5);
				for (int k = 0; k < n; k++) {
					int r = a.root(s);
					bool icase = s.chance(1, 3);
					peg::W in = peg::gen_input(s, a.g, r, a.alpha, c.thorough ? 40 : 16);
					bool cheap = true;
					try {
						for (size_t p = 0; p <= in.size() && cheap; p++) { auto ev = a.eval(in); if (icase) ev->rngmatch = enc::imatch; peg::Recs w; ev->rule(r, p, w); if (ev->cost > 20000) cheap = false; }
					} catch (peg::Budget &) { cheap = false; }
					if (!cheap) { c.tag("too expensive"); continue; }
					Job j;
					j.kind = s.below(3);
					j.rid = db.rid(a.g.rules[r].name);
					j.enc = icase ? RPA_ENCODING_ICASE_UTF8 : RPA_ENCODING_UTF8;
					j.in = peg::utf8s(in);
					j.from = s.chance(1, 4) ? s.below(j.in.size() + 1) : 0;
					j.yield = s.below(4);
					j.want = call(alone.p, j, rec);
					if (j.want[0] != '0' && j.want[0] != '-') c.tag("matched");
					c.append(cat("\n thread ", t, ": kind ", j.kind, " ", a.g.rules[r].name, " on ", quote(j.in), " from ", j.from));
					jobs[t].push_back(j);
					total++;
				}
			}
			rpa_records_destroy(rec);
		}
		std::vector<std::unique_ptr<rpah::Stat>> st;
		for (int t = 0; t < nt; t++) {
			st.emplace_back(new rpah::Stat(db));
			if (s.chance(1, 4)) rpa_stat_cachedisable(st[t]->p, 1);
		}
		bool own = s.chance(1, 3);         // the states are created and destroyed by the threads themselves
		int rounds = 1 + s.below(3);
		std::vector<std::string> bad(nt);
		std::atomic<int> ready{0};
		std::vector<std::thread> th;
		for (int t = 0; t < nt; t++)
			th.emplace_back([&, t] {
				ready++;
				while (ready < nt) sched_yield();
				rpastat_t *p = own ? rpa_stat_create(db.p, 32768) : st[t]->p;
				rarray_t *rec = rpa_records_create();
				for (int k = 0; k < rounds; k++)
					for (auto &j : jobs[t]) {
						if (j.yield == 3) sched_yield();
						std::string o = call(p, j, rec);
						if (o != j.want && bad[t].empty()) bad[t] = cat("on ", quote(j.in), " thread ", t, " gets ", o, ", alone ", j.want);
					}
				rpa_records_destroy(rec);
				if (own) rpa_stat_destroy(p);
			});
		for (auto &x : th) x.join();
		for (auto &b : bad) c.check(b.empty(), b);
		c.tag(own ? "states of the threads" : "states of the main thread");
		if (total >= 4) c.nontrivial = true;
	}
	c.check(r_debug_get_allocmem() == mem0, cat("memory not returned: ", (long)(r_debug_get_allocmem() - mem0)));
}

int main(int argc, char **argv)
{
	Config cfg;
	cfg.id = "P10";
	cfg.rule = "a generated grammar compiled once; 2 to 5 threads with a state each run generated match, parse and scan calls at the same time; every result must be the one a single thread gets and ThreadSanitizer must stay quiet; non-trivial: at least four calls";
	cfg.quick_cases = 1200;
	cfg.thorough_cases = 40000;
	cfg.fn = run;
	cfg.assumptions = {"schedules are those the machine produces; ThreadSanitizer judges happens-before, not only the observed order"};
	return run_main(argc, argv, cfg);
}
