// libs: rlib
#include "pbt.h"
#include <algorithm>
extern "C" {
#include "rlib/rmem.h"
#include "rlib/rbuffer.h"
}
using namespace pbt;

struct Block { unsigned char *p; std::string want; size_t account; };

static void fill(Src &s, unsigned char *p, std::string &w, size_t from, size_t to)
{
	unsigned v = s.below(256);
	w.resize(to);
	for (size_t i = from; i < to; i++) { w[i] = (char)(v + 7 * i); p[i] = (unsigned char)w[i]; }
}
static size_t size_of(Src &s)
{
	switch (s.below(6)) {
	case 0: return s.below(4);
	case 1: return 1 + s.below(24);
	case 2: return 1 + s.below(300);
	case 3: return (size_t)1 << s.below(13);
	case 4: return 4000 + s.below(200);
	default: return 8 * s.below(40);
	}
}

static void heap(Src &s, Ctx &c)
{
	size_t base = r_debug_get_allocmem();
	std::vector<Block> live;
	std::string h = "heap:";
	int n = 1 + s.below(c.thorough ? 150 : 60), reallocs = 0, mx = 0;
	r_debug_reset_maxmem();
	c.check(r_debug_get_maxmem() == base, "the highest use after a reset is not the current use");
	size_t high = base;
	for (int k = 0; k < n; k++) {
		size_t before = r_debug_get_allocmem();
		c.check(before >= base, "memory in use dropped below what was in use at the start");
		switch (s.below(10)) {
		case 0: case 1: {
			size_t z = size_of(s);
			Block b; b.p = (unsigned char *)r_malloc(z);
			c.check(b.p != NULL, "r_malloc gives nothing");
			b.account = r_debug_get_allocmem() - before;
			c.check(b.account >= z && b.account <= z + 64, cat("a block of ", z, " bytes is accounted as ", b.account));
			fill(s, b.p, b.want, 0, z);
			live.push_back(b);
			h += cat(" malloc(", z, ")");
			break;
		}
		case 2: {
			size_t z = size_of(s);
			Block b; b.p = (unsigned char *)r_zmalloc(z);
			b.account = r_debug_get_allocmem() - before;
			c.check(b.account >= z && b.account <= z + 64, cat("a zeroed block of ", z, " bytes is accounted as ", b.account));
			for (size_t i = 0; i < z; i++) if (b.p[i]) c.fail(cat("r_zmalloc(", z, "): byte ", i, " is not zero"));
			fill(s, b.p, b.want, 0, z);
			live.push_back(b);
			h += cat(" zmalloc(", z, ")");
			break;
		}
		case 3: {
			size_t m = s.below(40), z = s.below(3) ? s.below(40) : size_of(s);
			Block b; b.p = (unsigned char *)r_calloc(m, z);
			b.account = r_debug_get_allocmem() - before;
			c.check(b.account >= m * z, cat("calloc(", m, ",", z, ") is accounted as ", b.account));
			for (size_t i = 0; i < m * z; i++) if (b.p[i]) c.fail(cat("r_calloc(", m, ",", z, "): byte ", i, " is not zero"));
			fill(s, b.p, b.want, 0, m * z);
			live.push_back(b);
			h += cat(" calloc(", m, ",", z, ")");
			break;
		}
		case 4: case 5: {
			size_t z = 1 + size_of(s);
			reallocs++;
			if (live.empty() || s.chance(1, 10)) {
				Block b; b.p = (unsigned char *)r_realloc(NULL, z);
				b.account = r_debug_get_allocmem() - before;
				c.check(b.p && b.account >= z, "r_realloc(NULL) is not an allocation");
				fill(s, b.p, b.want, 0, z);
				live.push_back(b);
				h += cat(" realloc(NULL,", z, ")");
				break;
			}
			Block &b = live[s.below(live.size())];
			size_t old = b.want.size();
			h += cat(" realloc(", old, "->", z, ")");
			b.p = (unsigned char *)r_realloc(b.p, z);
			c.check(b.p != NULL, "r_realloc gives nothing");
			c.check(!memcmp(b.p, b.want.data(), std::min(old, z)), cat("r_realloc from ", old, " to ", z, " bytes changed the content"));
			size_t now = r_debug_get_allocmem();
			size_t acc = now + b.account - before;
			c.check(acc >= z && acc <= z + 64, cat("a block grown to ", z, " bytes is accounted as ", acc));
			b.account = acc;
			fill(s, b.p, b.want, std::min(old, z), z);
			break;
		}
		case 6: case 7: case 8: {
			if (live.empty()) { r_free(NULL); h += " free(NULL)"; c.check(r_debug_get_allocmem() == before, "freeing nothing changes the memory in use"); break; }
			size_t i = s.below(live.size());
			h += cat(" free(", live[i].want.size(), ")");
			c.check(!memcmp(live[i].p, live[i].want.data(), live[i].want.size()), "a block changed while it was allocated");
			r_free(live[i].p);
			c.check(before - r_debug_get_allocmem() == live[i].account, cat("freeing a block of ", live[i].want.size(), " bytes gives back ", before - r_debug_get_allocmem(), " of the ", live[i].account, " it was accounted for"));
			live.erase(live.begin() + i);
			break;
		}
		default: {
			if (s.chance(1, 3)) { r_debug_reset_maxmem(); high = r_debug_get_allocmem(); h += " reset"; mx++; c.check(r_debug_get_maxmem() == high, "the highest use after a reset is not the current use"); break; }
			if (live.size() < 2) break;
			// moving bytes between and within blocks
			size_t i = s.below(live.size()), j = s.below(live.size());
			Block &a = live[i], &b = live[j];
			if (a.want.empty() || b.want.empty()) break;
			size_t l = s.below(std::min(a.want.size(), b.want.size()) + 1);
			size_t oa = s.below(a.want.size() - l + 1), ob = s.below(b.want.size() - l + 1);
			std::string t = b.want.substr(ob, l);
			void *r = i == j || s.chance(1, 2) ? r_memmove(a.p + oa, b.p + ob, l) : r_memcpy(a.p + oa, b.p + ob, l);
			c.check(r == a.p + oa, "copying gives another address than the destination");
			a.want.replace(oa, l, t);
			h += cat(" move(", l, ")");
			int v = s.below(600) - 20;
			if (s.chance(1, 4)) { c.check(r_memset(a.p + oa, v, l) == a.p + oa, "r_memset gives another address"); a.want.replace(oa, l, std::string(l, (char)v)); }
			break;
		}
		}
		high = std::max(high, r_debug_get_allocmem());
		c.check(r_debug_get_maxmem() == high, cat("the highest use is given as ", r_debug_get_maxmem(), ", it was ", high));
		for (auto &b : live) if (memcmp(b.p, b.want.data(), b.want.size())) c.fail(cat("a block of ", b.want.size(), " bytes changed by an operation on another"));
	}
	c.describe(h);
	for (auto &b : live) r_free(b.p);
	c.check(r_debug_get_allocmem() == base, cat("with everything freed, ", r_debug_get_allocmem(), " bytes are in use instead of ", base));
	c.check(r_debug_get_maxmem() == high, "freeing changes the highest use");
	c.tag("heap");
	if (mx) c.tag("high-water mark reset");
	c.nontrivial = n >= 8 && reallocs;
}

static void alt(rbuffer_t *b) { b->userdata = (void *)((char *)b->userdata + 1); }
static void buffers(Src &s, Ctx &c)
{
	size_t base = r_debug_get_allocmem();
	size_t z = size_of(s);
	rbuffer_t *b = r_buffer_create(z);
	std::string h = cat("buffer(", z, ")"), want(z, 0);
	c.check(b && b->s && b->size == z, "a new buffer doesn't have the size asked for");
	int n = s.below(12), apps = 0;
	for (int k = 0; k <= n; k++) {
		c.check(b->size == want.size(), cat("the buffer holds ", b->size, " bytes instead of ", want.size()));
		c.check(!memcmp(b->s, want.data(), want.size()), "the buffer doesn't hold what was put there");
		c.check(b->s[want.size()] == 0, "the buffer isn't ended by a zero");
		if (k == n) break;
		if (!want.empty() && s.chance(1, 3)) {
			size_t i = s.below(want.size());
			want[i] = (char)s.below(256); b->s[i] = want[i];
			h += " set";
		} else {
			size_t l = size_of(s);
			std::string t(l, 0);
			unsigned v = s.below(256);
			for (size_t i = 0; i < l; i++) t[i] = (char)(v + 3 * i);
			std::vector<char> exact(t.begin(), t.end());
			c.check(r_buffer_append(b, exact.data(), l) == 0, "appending fails");
			want += t;
			h += cat(" append(", l, ")");
			apps++;
		}
	}
	c.describe(h);
	if (s.chance(1, 5)) {
		b->alt_destroy = alt;
		b->userdata = NULL;
		r_buffer_destroy(b);
		c.check(b->userdata == (void *)1, "the replaced destroy function is not called once");
		c.check(!memcmp(b->s, want.data(), want.size()), "destroyed despite the replaced destroy function");
		b->alt_destroy = NULL;
	}
	r_buffer_destroy(b);
	r_buffer_destroy(NULL);
	c.check(r_debug_get_allocmem() == base, "the buffer leaks");
	c.tag("buffer");
	c.nontrivial = apps >= 2;
}

static void one(Src &s, Ctx &c)
{
	if (s.chance(1, 4)) buffers(s, c); else heap(s, c);
}
int main(int argc, char **argv)
{
	Config cfg;
	cfg.id = "L07";
	cfg.rule = "A case is a sequence of up to 60 (thorough: 150) allocations, zeroed allocations, reallocations, releases and copies of blocks of 0 to 4200 bytes, checked after every step against a model of every live block's content, of the memory in use and of the highest use; or a buffer with up to 12 appends and changes, compared with a string. Non-trivial: eight or more heap operations with a reallocation, or two or more appends.";
	cfg.quick_cases = 60000;
	cfg.thorough_cases = 2000000;
	cfg.fn = one;
	cfg.assumptions = {"memory is compiled with accounting (R_DEBUG_MEMALLOC), as in the debug build", "the machine doesn't run out of memory"};
	return run_main(argc, argv, cfg);
}
