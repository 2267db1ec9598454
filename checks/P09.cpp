// libs: rlib rvm rpa
// P09: one parsing state through any history of calls, and interrupted anywhere, against a fresh one.
#include "pbt.h"
#include "anygram.h"
#include "rpah.h"
#include <sanitizer/asan_interface.h>
#include "enc.h"
#include <sys/mman.h>
#include <signal.h>
#include <unistd.h>
#include <thread>
#include <atomic>
using namespace pbt;
extern "C" void rpa_stat_cachedisable(rpastat_t *stat, unsigned int disable);

// ---- an input whose pages report when they are first read
static const size_t PAGE = 4096;
struct Traps {
	char *base = nullptr;
	size_t len = 0;
	struct sigaction old_segv;
	bool armed = false;
	std::atomic<int> hits{0};
	std::function<void(size_t)> hit;
};
static Traps T;
static void on_segv(int sig, siginfo_t *si, void *)
{
	char *a = (char *)si->si_addr;
	if (!T.armed || a < T.base || a >= T.base + T.len) { sigaction(SIGSEGV, &T.old_segv, nullptr); return; }
	size_t page = (a - T.base) / PAGE;
	mprotect(T.base + page * PAGE, PAGE, PROT_READ | PROT_WRITE);
	T.hits++;
	T.hit(page);
}
static void arm(char *base, size_t len, std::function<void(size_t)> f)
{
	T.base = base; T.len = len; T.hit = f; T.hits = 0;
	struct sigaction sa;
	memset(&sa, 0, sizeof sa);
	sa.sa_sigaction = on_segv;
	sa.sa_flags = SA_SIGINFO | SA_NODEFER | SA_ONSTACK;
	sigaction(SIGSEGV, &sa, &T.old_segv);
	T.armed = true;
}
static void disarm() { T.armed = false; sigaction(SIGSEGV, &T.old_segv, nullptr); }
struct Pages {
	char *p; size_t len;
	explicit Pages(size_t n) : len(n) { p = (char *)mmap(nullptr, n, PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS, -1, 0); if (p == MAP_FAILED) abort(); }
	~Pages() { munmap(p, len); }
};

enum { MATCH, PARSE, SCAN };
static const char *kinds[] = {"match", "parse", "scan"};
static std::string error_of(rpastat_t *st)
{
	rpa_errinfo_t e;
	memset(&e, 0, sizeof e);
	rpa_stat_lasterrorinfo(st, &e);
	std::string o = cat(" error ", rpa_stat_lasterror(st));
	if (e.code != rpa_stat_lasterror(st)) o += cat(" but told as ", e.code);
	if (e.mask & RPA_ERRINFO_OFFSET) o += cat(" offset ", e.offset);
	if (e.mask & RPA_ERRINFO_RULEUID) o += cat(" rule uid ", e.ruleuid);
	if (e.mask & RPA_ERRINFO_NAME) o += cat(" rule ", e.name);
	return o;
}
static std::string recs(rarray_t *rec, long from)
{
	std::string o;
	for (long k = from; k < rpa_records_length(rec); k++) {
		rparecord_t *p = rpa_record_get(rec, k);
		o += cat(p->type == RPA_RECORD_START ? " " : " /", p->rule, "@", p->inputoff, "+", p->inputsiz, "#", p->ruleid, ",", p->ruleuid, ",", p->usertype);
	}
	return o;
}
struct Out { long ret; std::string text; bool scanempty = false; };
static Out call(rpastat_t *st, int kind, long rid, unsigned enc, const char *in, const char *start, const char *end, rarray_t *rec)
{
	Out o;
	const char *where = nullptr;
	long n0 = rec ? rpa_records_length(rec) : 0;
	if (kind == MATCH) o.ret = rpa_stat_match(st, rid, enc, in, start, end);
	else if (kind == PARSE) o.ret = rpa_stat_parse(st, rid, enc, in, start, end, rec);
	else o.ret = rpa_stat_scan(st, rid, enc, in, start, end, &where);
	o.text = cat(o.ret);
	if (o.ret < 0) o.text += error_of(st);
	if (o.ret > 0 && kind == SCAN) o.text += cat(" at ", where - start);
	if (o.ret > 0 && kind == PARSE && rec) o.text += recs(rec, n0);
	if (o.ret >= 0 && kind != SCAN) o.text += cat(" last error ", rpa_stat_lasterror(st));
	return o;
}

static bool cheap(const anyg::Any &a, int r, const peg::W &in)
{
	try {
		for (int icase = 0; icase < 2; icase++) for (size_t p = 0; p <= in.size(); p++) {
			auto ev = a.eval(in);
			if (icase) ev->rngmatch = enc::imatch;
			peg::Recs w;
			ev->rule(r, p, w);
			if (ev->cost > 20000) return false;
		}
	} catch (peg::Budget &) { return false; }
	return true;
}

static const unsigned encs[] = {RPA_ENCODING_UTF8, RPA_ENCODING_BYTE, RPA_ENCODING_UTF16LE, RPA_ENCODING_ICASE_UTF8, RPA_ENCODING_ICASE_BYTE, RPA_ENCODING_ICASE_UTF16LE};
static const char *encname[] = {"utf8", "byte", "utf16", "utf8 icase", "byte icase", "utf16 icase"};

static void history(Src &s, Ctx &c)
{
	anyg::Any a = anyg::make(s, {'a', 'b', 'c', '+'}, s.chance(1, 4) ? std::vector<uint32_t>{0xe9, 0x3b1} : std::vector<uint32_t>{}, c.thorough);
	std::string text;
	std::set<int> neg = anyg::negated(a.g);
	for (size_t i = 0; i < a.g.rules.size(); i++)
		if (!neg.count(i) && s.chance(1, 12)) text += cat("#!abort ", a.g.rules[i].name, "\n");
	text += a.text(s, true, true);
	text += "zznest ::= '(' <zznest>* ')'\n";
	c.describe(cat("grammar ", quote(text)));
	rpah::Db db;
	c.check(db.load(text), cat("grammar rejected: ", db.error()));
	c.check(db.compile(), cat("grammar does not compile: ", db.error()));
	struct St { rpastat_t *p; unsigned long stack; rarray_t *rec; };
	std::vector<St> st;
	rpah::Stat fresh_big(db, 0);
	auto create = [&]() {
		static const unsigned long sizes[] = {0, 4096, 32768, 500, 120, 40, 12};
		St n;
		n.stack = sizes[s.weighted({4, 4, 4, 2, 2, 1, 1})];
		n.p = rpa_stat_create(db.p, n.stack);
		c.check(n.p != nullptr, "no state was created");
		if (n.stack == 0) n.stack = RPA_DEFAULT_STACKSIZE;
		n.rec = rpa_records_create();
		st.push_back(n);
		c.append(cat("\n state ", st.size() - 1, " with stack ", n.stack));
	};
	auto destroy = [&](size_t i) { rpa_stat_destroy(st[i].p); rpa_records_destroy(st[i].rec); st.erase(st.begin() + i); };
	struct Cleanup { std::vector<St> &v; ~Cleanup() { for (auto &x : v) { rpa_stat_destroy(x.p); rpa_records_destroy(x.rec); } v.clear(); } } cleanup{st};
	enum { SHARED = 256 };
	struct Unpoison { void operator()(char *p) { ASAN_UNPOISON_MEMORY_REGION(p, SHARED); free(p); } };
	std::unique_ptr<char, Unpoison> shared((char *)aligned_alloc(8, SHARED));
	int reused = 0;
	create();
	int ops = 4 + s.below(c.thorough ? 16 : 9), compared = 0, interrupted = 0, extended = 0;
	for (int op = 0; op < ops; op++) {
		int what = s.weighted({12, 2, 1, 2, 3, 1, 1, 5, 1, 3});
		if (what == 1 && st.size() < 4) { create(); continue; }
		if (what == 2 && st.size() > 1) { size_t i = s.below(st.size()); c.append(cat("\n destroy ", i)); destroy(i); continue; }
		size_t i = s.below(st.size());
		St &x = st[i];
		if (what == 3) { int off = s.below(2); c.append(cat("\n state ", i, off ? " cache off" : " cache on")); rpa_stat_cachedisable(x.p, off); continue; }
		if (what == 9) {          // many small calls that leave little behind
			long k = (1L << (3 + s.below(s.chance(1, 12) ? 14 : 8))) - 1;
			if (s.chance(1, 6)) k += s.below(4);
			std::string w = s.chance(1, 2) ? "x" : "";
			std::unique_ptr<char[]> sb(new char[w.size()]);
			memcpy(sb.get(), w.data(), w.size());
			long rid = db.rid("zznest");
			c.append(cat("\n state ", i, " ", k, " calls of zznest on ", quote(w)));
			for (long n = 0; n < k; n++) c.check(rpa_stat_match(x.p, rid, RPA_ENCODING_BYTE, sb.get(), sb.get(), sb.get() + w.size()) == (x.stack < 100 ? rpa_stat_lasterror(x.p) ? -1 : 0 : 0), "zznest matches nothing");
			c.tag("many calls");
			continue;
		}
		if (what == 5) {
			c.append(cat("\n abort ", i, " while idle"));
			c.check(rpa_stat_abort(x.p) == 0, "aborting an idle state fails");
			c.tag("idle abort");
			continue;
		}
		if (what == 8) {          // more rules while states exist
			std::string more = cat("extra", ++extended, " ::= <", a.g.rules[a.root(s)].name, "> | 'x' <zznest>\n");
			c.append(cat("\n add ", quote(more)));
			c.check(rpa_dbex_open(db.p) == 0 && rpa_dbex_load(db.p, more.data(), more.size()) == (long)more.size(), cat("more rules rejected: ", db.error()));
			for (auto &y : st) r_array_setlength(y.rec, 0);          // records name rules of the old compilation
			rpa_dbex_close(db.p);
			c.check(db.compile(), cat("does not compile with more rules: ", db.error()));
			c.tag("rules added");
			continue;
		}
		int kind = s.below(3), r = a.root(s);
		std::string name = a.g.rules[r].name;
		peg::W in;
		bool deep = s.chance(1, 6);
		if (deep) {
			name = "zznest";
			long d = 1 + s.below(s.chance(1, 8) ? 3000 : 60);
			for (long k = 0; k < d; k++) in.push_back('(');
			for (long k = 0; k < d; k++) in.push_back(')');
			if (s.chance(1, 4)) in.resize(s.below(in.size()) + 1);
		} else if (extended && s.chance(1, 4)) name = cat("extra", 1 + s.below(extended));
		if (!deep) {
			in = peg::gen_input(s, a.g, r, a.alpha, c.thorough ? 40 : 16);
			if (!cheap(a, r, in)) { c.tag("too expensive"); continue; }
		}
		int e = s.weighted({4, 2, 2, 1, 1, 1});
		std::string bytes;
		std::vector<size_t> bounds = {0};
		for (uint32_t ch : in) {
			if (e % 3 == 2) { bytes += (char)(ch & 255); bytes += (char)(ch >> 8); }
			else if (e % 3 == 1) bytes += (char)(ch & 255);
			else peg::utf8(bytes, ch);
			bounds.push_back(bytes.size());
		}
		long rid = db.rid(name);
		c.check(rid >= 0, cat("rule ", name, " is not found"));
		size_t from = s.chance(1, 4) ? s.pick(bounds) : 0;
		c.append(cat("\n state ", i, " ", kinds[kind], " ", name, " on ", quote(bytes.size() > 200 ? bytes.substr(0, 200) + "..." : bytes), " from ", from, " as ", encname[e]));
		if (what == 4) {          // wrong ranges and rules
			std::unique_ptr<char[]> buf(new char[bytes.size() + 2]);
			memcpy(buf.get() + 1, bytes.data(), bytes.size());
			const char *b = buf.get() + 1, *end = b + bytes.size();
			int how = s.below(4);
			Out o;
			long want = RPA_E_PARAM;
			if (bytes.empty()) how = 3;
			switch (how) {
			case 0: o = call(x.p, kind, rid, encs[e], b, end, b, x.rec); if (kind == SCAN) { c.check(o.ret <= 0, "something was found in a range that ends before it starts"); want = 0; } break;
			case 1: o = call(x.p, kind, rid, encs[e], b, b + 1, end, x.rec); break;
			case 2: if (kind == SCAN) { o = call(x.p, kind, rid, encs[e], end, b, end, x.rec); c.check(o.ret == 0, cat("scanning nothing gives ", o.text)); want = 0; }
				else o = call(x.p, kind, rid, encs[e], end + 1, b, end, x.rec);
				break;
			case 3: o = call(x.p, kind, s.chance(1, 2) ? -1 : 1000 + (long)s.below(1000), encs[e], b, b, end, x.rec); want = RPA_E_EXECUTION; break;
			}
			c.append(cat(" wrong range ", how));
			if (want) c.check(o.ret == -1 && rpa_stat_lasterror(x.p) == want, cat("a wrong range or rule gives ", o.text, " instead of error ", want));
			c.tag("wrong range or rule");
			continue;
		}
		// what a fresh state with a large stack says
		std::unique_ptr<char[]> buf(new char[bytes.size()]);
		memcpy(buf.get(), bytes.data(), bytes.size());
		const char *b = buf.get();
		Out want;
		{
			rarray_t *rec = rpa_records_create();
			if (s.chance(1, 3)) { rpah::Stat f(db, 0); want = call(f.p, kind, rid, encs[e], b + from, b, b + bytes.size(), rec); }
			else { want = call(fresh_big.p, kind, rid, encs[e], b + from, b, b + bytes.size(), rec); }
			rpa_records_destroy(rec);
		}
		bool norec = kind == PARSE && s.chance(1, 6);
		rarray_t *rec = norec ? nullptr : x.rec;
		if (kind == PARSE && rec && s.chance(1, 2)) r_array_setlength(rec, 0);
		long n0 = rec ? rpa_records_length(rec) : 0;
		std::string before = rec ? recs(rec, 0) : "";
		bool ok_overflow = x.stack < 32768 || (deep && x.stack < RPA_DEFAULT_STACKSIZE);
		if (what == 7 && !bytes.empty()) {         // interrupted when the input is read at some place
			size_t k = s.pick(bounds);
			if (k == bytes.size()) k = 0;
			Pages pg(3 * PAGE);
			if (bytes.size() > PAGE) { c.tag("too long"); continue; }
			char *base = pg.p + PAGE - k;
			memcpy(base, bytes.data(), bytes.size());
			mprotect(pg.p + PAGE, PAGE, PROT_NONE);
			rpastat_t *sp = x.p;
			int rc = 0;
			arm(pg.p, pg.len, [&](size_t) { rc = rpa_stat_abort(sp); });
			Out o = call(x.p, kind, rid, encs[e], base + from, base, base + bytes.size(), rec);
			disarm();
			c.append(cat(" interrupted at ", k, T.hits ? "" : " (not reached)"));
			if (T.hits) {
				c.check(rc == 0, "aborting fails");
				c.check(o.ret == -1 && rpa_stat_lasterror(x.p) == RPA_E_USERABORT, cat("an aborted call gives ", o.text));
				interrupted++;
				c.tag("interrupted");
			}
			if (rec) {
				c.check(rpa_records_length(rec) >= n0, "records of earlier calls are gone after an abort");
				r_array_setlength(rec, n0);
				c.check(recs(rec, 0) == before, "records of earlier calls have changed in an aborted call");
			}
			continue;
		}
		// the caller may read one text after another into the same memory
		if (bytes.size() <= SHARED && s.chance(1, 2)) {
			ASAN_UNPOISON_MEMORY_REGION(shared.get(), SHARED);
			memcpy(shared.get(), bytes.data(), bytes.size());
			ASAN_POISON_MEMORY_REGION(shared.get() + bytes.size(), SHARED - bytes.size());
			b = shared.get();
			c.append(" (same buffer)");
			if (++reused > 1) c.tag("buffer reused");
		}
		Out o = call(x.p, kind, rid, encs[e], b + from, b, b + bytes.size(), rec);
		std::string wt = want.text;
		if (norec && want.ret > 0) wt = cat(want.ret, " last error 0");
		bool overflow = o.ret < 0 && rpa_stat_lasterror(x.p) == RPA_E_EXECUTION;
		if (overflow && ok_overflow) {
			c.tag(want.ret < 0 ? "stack too small for both" : "stack too small");
			if (want.ret < 0 && wt.find("error 2001") == std::string::npos && x.stack >= 32768) c.fail(cat("the stack overflows, a fresh state gives ", wt));
		} else {
			if (norec && want.ret > 0) { size_t p = o.text.find(" last"); c.check(p != std::string::npos && o.text == wt, cat("without records gives ", o.text, ", a fresh state with records ", want.text)); }
			else if (rec || want.ret <= 0 || kind != PARSE) c.check(o.text == wt, cat("gives ", o.text, "\n  a fresh state: ", wt));
			compared++;
		}
		if (rec && n0) {
			c.check(rpa_records_length(rec) >= n0, "records of earlier calls are gone");
			long n1 = rpa_records_length(rec);
			(void)n1;
			std::string now;
			now = recs(rec, 0);
			c.check(now.compare(0, before.size(), before) == 0, cat("records of earlier calls have changed:", now, "\n  before:", before));
			c.tag("records kept");
		}
		if (rec && o.ret == 0) c.check(rpa_records_length(rec) == n0, cat("no match leaves records:", recs(rec, n0)));
		if (rec && o.ret < 0) r_array_setlength(rec, n0);          // what a failed call leaves behind is not specified
		if (want.ret > 0) c.tag("matched");
		if (deep) c.tag("deep");
	}
	if (compared >= 3) c.nontrivial = true;
	if (interrupted && compared) c.tag("used after an interruption");
}

// aborted from another thread at any moment: the call does not go on for long
static void crossabort(Src &s, Ctx &c)
{
	static const char *text = "hit ::= 'b' <hit>?\nrun ::= 'a'* 'b'\nlist ::= <item>*\nitem ::= 'a' | 'c'\n";
	rpah::Db db;
	c.check(db.load(text) && db.compile(), "grammar rejected");
	int mode = s.below(2);                 // scanning for something absent; parsing a long list
	int pages = 12, waitpage = s.below(4);
	unsigned spin = s.below(20000);
	std::string d = cat("abort ", mode ? "parsing" : "scanning", " from another thread after page ", waitpage, " and ", spin, " turns");
	c.describe(d);
	rpah::Stat st(db, 0);
	for (int attempt = 0; attempt < 6; attempt++) {
		Pages pg(pages * PAGE);
		memset(pg.p, 'a', pg.len);
		mprotect(pg.p, pg.len, PROT_NONE);
		std::atomic<bool> go{false}, aborted{false};
		std::atomic<int> after{0};
		arm(pg.p, pg.len, [&](size_t page) {
			if ((int)page == waitpage) go = true;
			if (aborted) after++;
		});
		rpastat_t *sp = st.p;
		std::thread t([&] {
			while (!go) sched_yield();
			for (volatile unsigned k = 0; k < spin; k = k + 1) ;
			rpa_stat_abort(sp);
			aborted = true;
		});
		Out o = call(st.p, mode ? MATCH : SCAN, db.rid(mode ? "list" : "hit"), RPA_ENCODING_BYTE, pg.p, pg.p, pg.p + pg.len, nullptr);
		bool over = aborted;
		go = true;
		t.join();
		disarm();
		c.check(after <= 1, cat("the call went on reading ", after.load(), " pages after it was aborted, and gives ", o.text));
		if (o.ret < 0) c.check(over || rpa_stat_lasterror(st.p) == RPA_E_USERABORT, cat("an aborted call gives ", o.text));
		else c.check(o.ret == (mode ? (long)pg.len : 0), cat("a call that was not aborted in time gives ", o.text));
		c.tag(o.ret < 0 ? "aborted in time" : "finished first");
		if (o.ret < 0) c.nontrivial = true;
	}
}

static void run(Src &s, Ctx &c)
{
	size_t mem0 = r_debug_get_allocmem();
	if (s.chance(1, 10)) crossabort(s, c); else history(s, c);
	c.check(r_debug_get_allocmem() == mem0, cat("memory not returned: ", (long)(r_debug_get_allocmem() - mem0)));
}

int main(int argc, char **argv)
{
	Config cfg;
	cfg.id = "P09";
	cfg.rule = "A case is a history on up to four parsing states of one generated grammar (match, parse, scan of any rule, any encoding, any start; wrong ranges and rules; calls aborted when the input is read at a chosen place or from another thread; small stacks; kept records; rules added; cache on and off), "
		"each call compared with a fresh state. Non-trivial: at least three calls compared, or a call aborted from another thread.";
	cfg.quick_cases = 3000;
	cfg.thorough_cases = 100000;
	cfg.fn = run;
	cfg.assumptions = {"differential: a fresh state with the default stack (its results are judged by the other checks)"};
	return run_main(argc, argv, cfg);
}
