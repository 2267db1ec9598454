// libs: rlib rex
// sanitize: thread
#include "pbt.h"
#include <thread>
#include <algorithm>
#include <atomic>
#include <pthread.h>
extern "C" {
#include "rlib/rmem.h"
#include "rlib/ratomic.h"
#include "rlib/rspinlock.h"
#include "rlib/rref.h"
#include "rlib/rstring.h"
#include "rlib/rmap.h"
#include "rex/rexregex.h"
#include "rex/rexdb.h"
#include "rex/rexnfasimulator.h"
}
using namespace pbt;

struct CountRef { rref_t ref; int *died; long payload; };
static void countref_cleanup(robject_t *o)
{
	CountRef *r = (CountRef *)o;
	(*r->died)++;
	r->payload = -1;
	r_ref_cleanup(o);
}
struct Plan { int kind, arg, spin; };

static void one(Src &s, Ctx &c)
{
	size_t mem0 = r_debug_get_allocmem();
	int nt = 2 + s.below(5);
	int refs = 1 + s.below(3);
	rspinlock_t lock;
	r_spinlock_init(&lock);
	long guarded = 0, guarded_try = 0, died[3] = {0, 0, 0};
	int diedi[3] = {0, 0, 0};
	volatile ratomic_t a = 0, x = 1, cas = 0;
	std::vector<CountRef *> rv;
	for (int i = 0; i < refs; i++) {
		CountRef *r = (CountRef *)r_object_create(sizeof *r);
		r_ref_init((robject_t *)r, R_OBJECT_USER, countref_cleanup, r_ref_copy, nt, RREF_TYPE_SHARED);
		r->died = &diedi[i];
		r->payload = 7;
		rv.push_back(r);
	}
	rexregex_t *shared = rex_regex_create_s("[a-c]+(x|yz){2}");
	std::vector<std::vector<Plan>> plans(nt);
	long lockops = 0, adds = 0, subs = 0;
	std::string d;
	for (int t = 0; t < nt; t++) {
		int n = 3 + s.below(9);
		d += cat(" thread ", t, ":");
		for (int i = 0; i < n; i++) {
			Plan p = {(int)s.below(9), (int)s.below(24) + 1, (int)s.below(3)};
			static const char *nm[] = {"lock", "trylock", "add", "sub", "xchg", "cas", "refincdec", "objects", "match"};
			d += cat(" ", nm[p.kind], "*", p.arg);
			if (p.kind == 0) lockops += p.arg;
			if (p.kind == 2) adds += p.arg;
			if (p.kind == 3) subs += p.arg;
			plans[t].push_back(p);
		}
	}
	c.describe(d);
	std::atomic<long> tryok{0}, casok{0}, bad{0};
	std::atomic<int> go{0};
	std::vector<long> taken(nt, 0);
	std::vector<ratomic_t> seen;
	rspinlock_t seenlock;
	r_spinlock_init(&seenlock);
	std::vector<std::thread> th;
	for (int t = 0; t < nt; t++) th.emplace_back([&, t]() {
		go++;
		while (go.load() < nt) {}
		std::vector<ratomic_t> mine;
		for (auto &p : plans[t]) {
			for (int k = 0; k < p.arg; k++) {
				switch (p.kind) {
				case 0: r_spinlock_lock(&lock); { long g = guarded; for (volatile int q = 0; q < p.spin * 20; q++) {} guarded = g + 1; } r_spinlock_unlock(&lock); break;
				case 1: if (r_spinlock_trylock(&lock)) { long g = guarded_try; for (volatile int q = 0; q < p.spin * 20; q++) {} guarded_try = g + 1; r_spinlock_unlock(&lock); tryok++; } break;
				case 2: mine.push_back(r_atomic_add(&a, 1)); break;
				case 3: r_atomic_sub(&a, 1); break;
				case 4: { ratomic_t o = r_atomic_exchange(&x, 100 + t); if (o != 1 && (o < 100 || o >= 100 + nt)) bad++; break; }
				case 5: { ratomic_t o = r_atomic_get(&cas); if (r_atomic_compare_and_exchange(&cas, o, o + 1)) casok++; break; }
				case 6: for (auto *r : rv) { r_ref_inc((rref_t *)r); if (r->payload != 7) bad++; if (r_ref_dec((rref_t *)r) == 0) bad++; } break;
				case 7: { rmap_t *m = r_map_create(8, 3); long v = t; for (int q = 0; q < 5; q++) { char nm[32]; snprintf(nm, sizeof nm, "k%d-%d", t, q); r_map_add_s(m, nm, &v); } char nm[32]; snprintf(nm, sizeof nm, "k%d-%d", t, 3); size_t i = r_map_lookup_s(m, nm); if (i != 3 || *(long *)r_map_value(m, i) != t) bad++; r_map_destroy(m); char *b = (char *)r_calloc(3, 5); b = (char *)r_realloc(b, 40 + t); if (b[0] || b[14]) bad++; r_free(b); break; }
				default: { rexregex_t *own = rex_regex_create_s("(ab|cd){2,3}"); const char *w; const char *in = "xxabcdabzz"; if (rex_regex_scan(own, REX_ENCODING_UTF8, in, in + 10, &w) != 6) bad++; rex_regex_destroy(own); const char *in2 = "abcxyzq"; if (rex_regex_match(shared, REX_ENCODING_UTF8, in2, in2 + 7) != 6) bad++; }
				}
			}
		}
		for (auto *r : rv) r_ref_dec((rref_t *)r);       // the thread's own reference
		r_spinlock_lock(&seenlock);
		seen.insert(seen.end(), mine.begin(), mine.end());
		r_spinlock_unlock(&seenlock);
	});
	for (auto &t : th) t.join();
	c.check(bad == 0, cat(bad.load(), " wrong results in threads"));
	c.check(guarded == lockops, cat("counter under the spin lock is ", guarded, ", expected ", lockops));
	c.check(guarded_try == tryok, cat("counter under trylock is ", guarded_try, ", expected ", tryok.load()));
	c.check(r_atomic_get(&a) == (ratomic_t)(adds - subs), cat("atomic sum is ", (long)a, ", expected ", adds - subs));
	c.check((long)r_atomic_get(&cas) == casok, "compare-and-exchange count");
	if (!subs) {
		std::sort(seen.begin(), seen.end());
		for (size_t i = 0; i < seen.size(); i++) c.check(seen[i] == (ratomic_t)i, "atomic add returned the same previous value twice");
	}
	for (int i = 0; i < refs; i++) c.check(diedi[i] == 1, cat("shared object destroyed ", diedi[i], " times"));
	c.nontrivial = true;
	c.tag(cat("threads ", nt));
	// same value from single-threaded use
	ratomic_t z = 5;
	c.check(r_atomic_add(&z, 3) == 5 && z == 8 && r_atomic_sub(&z, 2) == 8 && z == 6 && r_atomic_exchange(&z, 9) == 6 && z == 9, "atomic results");
	c.check(!r_atomic_compare_and_exchange(&z, 1, 2) && z == 9 && r_atomic_compare_and_exchange(&z, 9, 4) && z == 4, "compare and exchange results");
	r_atomic_set(&z, 77);
	c.check(r_atomic_get(&z) == 77, "atomic set");
	rspinlock_t l2 = R_SPINLOCK_INIT;
	c.check(r_spinlock_trylock(&l2) && !r_spinlock_trylock(&l2), "a taken lock is taken again");
	r_spinlock_unlock(&l2);
	c.check(r_spinlock_trylock(&l2), "a released lock stays taken");
	rex_regex_destroy(shared);
	c.check(r_debug_get_allocmem() == mem0, "memory not returned");
	(void)died;
}

int main(int argc, char **argv)
{
	Config cfg;
	cfg.id = "L06";
	cfg.rule = "A case runs 2-6 real threads, each with a random program of lock, trylock, atomic add/sub/exchange/compare-exchange, reference acquire/release, private maps and regular expressions, and matches on a shared compiled regular expression, under ThreadSanitizer; final counters, returned values, destruction counts and total memory are compared with the programs. Non-trivial: every case.";
	cfg.quick_cases = 160;
	cfg.thorough_cases = 4000;
	cfg.fn = one;
	cfg.workers = 2;
	cfg.assumptions = {"schedules are those the operating system produces; ThreadSanitizer reports unordered conflicting accesses even when they did not collide"};
	return run_main(argc, argv, cfg);
}
