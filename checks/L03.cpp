// libs: rlib
#include "pbt.h"
#include <list>
#include <algorithm>
extern "C" {
#include "rlib/rmem.h"
#include "rlib/rhash.h"
#include "rlib/rmap.h"
#include "rlib/rharray.h"
}
using namespace pbt;

// now and then a collection starts with hundreds of entries under numbered (sometimes long) names
static size_t wide;
static std::string numbered(size_t i)
{
	std::string r = cat("w", i * 7919 % 100003);
	if (i % 64 == 5) r += std::string(200 + i % 900, (char)('a' + i % 26)) + cat(i);
	return r;
}
// few distinct keys, many of them sharing prefixes, so that lookups hit, miss and collide
static std::string key(Src &s, bool nul)
{
	if (wide && s.chance(1, 2)) return numbered(s.below(wide + 3));
	static const std::vector<std::string> k = {"a", "b", "ab", "ba", "", "abc", "abd", "key", "key1", "key2", "keys", "\xff", "\xc3\xa9", "aa", "aaa", "aaaa", "0", "-1", "x y", "very long key with quite a few characters in it 0123456789012345678901234567890123456789"};
	std::string r = s.chance(3, 4) ? s.pick(k) : std::string();
	size_t n = s.below(3);
	for (size_t i = 0; i < n; i++) r += (char)('a' + s.below(3));
	if (nul && s.chance(1, 5)) { r += '\0'; n = s.below(3); for (size_t i = 0; i < n; i++) r += (char)('a' + s.below(2)); }
	return r;
}
struct KV { std::string k; size_t v; };

// ---- hash: a multimap whose lookups see the oldest entry first, tail lookups the newest
static size_t badhash(rconstpointer) { return 3; }
static void hashes(Src &s, Ctx &c)
{
	int kind = s.below(4);
	size_t bits = 1 + s.below(s.chance(1, 40) ? 14 : 6);
	rhash_t *h;
	bool collide = s.chance(1, 5);
	switch (kind) {
	case 0: h = r_hash_create(bits, r_hash_strequal, collide ? badhash : r_hash_strhash); break;
	case 1: h = r_hash_create(bits, r_hash_longequal, collide ? badhash : r_hash_longhash); break;
	case 2: h = r_hash_create(bits, r_hash_rstrequal, collide ? badhash : r_hash_rstrhash); break;
	default: h = r_hash_create(bits, r_hash_rstring_equal, collide ? badhash : r_hash_rstring_hash); break;
	}
	std::list<std::string> own;
	std::list<std::vector<char>> bufs;
	std::list<long> longs;
	std::list<rstr_t> rs;
	std::list<rstring_t *> rstrings;
	auto mk = [&](const std::string &k) -> rconstpointer {
		switch (kind) {
		case 0: own.push_back(k); return own.back().c_str();
		case 1: { long v = 0; memcpy(&v, k.data(), std::min<size_t>(8, k.size())); longs.push_back(v); return &longs.back(); }
		case 2: { bufs.emplace_back(k.begin(), k.end()); bufs.back().shrink_to_fit(); rstr_t r = {bufs.back().data(), k.size()}; rs.push_back(r); return &rs.back(); }
		default: rstrings.push_back(r_string_create_from_str_len(k.data(), k.size())); return rstrings.back();
		}
	};
	auto canon = [&](const std::string &k) { if (kind != 1) return k; std::string r = k.substr(0, 8); r.resize(8); return r; };
	std::vector<KV> m;      // in order of insertion
	int n = s.below(c.thorough ? 120 : 60);
	static const char *names[] = {"string", "long", "sized string", "string object"};
	std::string d = cat("hash with ", names[kind], " keys, ", 1u << bits, " buckets:");
	size_t hits = 0;
	for (size_t i = 0; i < wide; i++) {
		std::string k = numbered(i);
		r_hash_insert_index(h, mk(k), i + 1);
		m.push_back({canon(k), i + 1});
	}
	if (wide) d += cat(" +", wide, " numbered names");
	for (int i = 0; i < n; i++) {
		std::string k = key(s, kind == 2 || kind == 1), ck = canon(k);
		switch (s.below(8)) {
		case 0: case 1: case 2: case 3: {
			size_t v = 1 + s.below(1000000);
			if (s.chance(1, 2)) r_hash_insert_index(h, mk(k), v); else r_hash_insert_object(h, mk(k), (rpointer)v);
			m.push_back({ck, v});
			d += cat(" +", quote(k), "=", v);
			break;
		}
		case 4: r_hash_remove(h, mk(k)); m.erase(std::remove_if(m.begin(), m.end(), [&](KV &x) { return x.k == ck; }), m.end()); d += cat(" -", quote(k)); break;
		case 5: if (s.chance(1, 6)) { r_hash_removeall(h); m.clear(); d += " clear"; } break;
		default: break;
		}
		c.describe(d);
		std::vector<std::string> probe = {k};
		for (int q = 0; q < 3; q++) probe.push_back(key(s, kind == 2 || kind == 1));
		for (auto &p : probe) {
			rconstpointer kp = mk(p);
			std::string cp = canon(p);
			std::vector<size_t> want, got, gotr;
			for (auto &x : m) if (x.k == cp) want.push_back(x.v);
			if (!want.empty()) hits++;
			c.check(r_hash_lookup_index(h, kp) == (want.empty() ? R_HASH_INVALID_INDEXVAL : want.front()), cat("lookup of ", quote(p), " gives ", (long)r_hash_lookup_index(h, kp)));
			c.check(r_hash_lookup_object(h, kp) == (rpointer)(want.empty() ? 0 : want.front()), cat("object lookup of ", quote(p)));
			c.check(r_hash_taillookup_index(h, kp) == (want.empty() ? R_HASH_INVALID_INDEXVAL : want.back()), cat("tail lookup of ", quote(p), " gives ", (long)r_hash_taillookup_index(h, kp)));
			for (rhash_node_t *q = r_hash_nodelookup(h, NULL, kp); q; q = r_hash_nodelookup(h, q, kp)) got.push_back(r_hash_index(q));
			for (rhash_node_t *q = r_hash_nodetaillookup(h, NULL, kp); q; q = r_hash_nodetaillookup(h, q, kp)) gotr.push_back((size_t)r_hash_object(q));
			c.check(got == want, cat("entries of ", quote(p), ": ", got.size(), ", expected ", want.size(), " in order of insertion"));
			std::reverse(gotr.begin(), gotr.end());
			c.check(gotr == want, cat("entries of ", quote(p), " from the tail"));
		}
	}
	if (hits > 3) c.nontrivial = true;
	r_hash_destroy(h);
	for (auto *p : rstrings) r_string_destroy(p);
	c.tag(cat("hash, ", names[kind], " keys"));
}

// ---- map: insertion-ordered multimap with stable indices
struct Ent { std::string k; std::string v; size_t idx; };
static void maps(Src &s, Ctx &c)
{
	static const std::vector<size_t> sizes = {8, 1, 3, 4, 16, 33};
	size_t sz = s.pick(sizes), bits = 1 + s.below(s.chance(1, 40) ? 14 : 6);
	rmap_t *m = r_map_create(sz, bits);
	std::list<Ent> e;      // active, in insertion order
	std::set<size_t> dead;
	std::string d = cat("map of ", sz, "-byte values, ", 1u << bits, " buckets:");
	int n = s.below(c.thorough ? 150 : 70);
	bool reused = false;
	for (size_t i = 0; i < wide; i++) {
		std::string v(sz, (char)(i ^ (i >> 8))), k = numbered(i);
		size_t idx = r_map_add(m, k.data(), k.size(), v.data());
		c.check(idx == i, "a new map hands out another index");
		e.push_back({k, v, idx});
	}
	if (wide) d += cat(" +", wide, " numbered names"), n = std::min(n, 12);
	auto find = [&](size_t idx) { for (auto it = e.begin(); it != e.end(); ++it) if (it->idx == idx) return it; return e.end(); };
	for (int i = 0; i < n; i++) {
		std::string v(sz, 0), k = key(s, false);
		uint64_t x = s.below(100000);
		for (size_t q = 0; q < sz; q++) v[q] = (char)(x >> (8 * (q % 3))) + (char)q;
		switch (s.below(9)) {
		case 0: case 1: case 2: case 3: {
			bool null = s.chance(1, 8);
			size_t idx;
			unsigned how = s.below(4);
			if (how == 2) { long l = s.chance(1, 3) ? (long)s.bits() : s.range(-3, 20); k = cat(l); idx = r_map_add_l(m, l, null ? NULL : v.data()); }
			else if (how == 3) { double f = s.range(-40, 40) / 8.0; char t[64]; snprintf(t, sizeof t, "%.15f", f); k = t; idx = r_map_add_d(m, f, null ? NULL : v.data()); c.check(r_map_lookup_d(m, f) != (size_t)-1, "double key not found"); }
			else if (how == 1) idx = r_map_add_s(m, k.c_str(), null ? NULL : v.data());
			else { std::vector<char> b(k.begin(), k.end()); b.shrink_to_fit(); idx = r_map_add(m, b.data(), b.size(), null ? NULL : v.data()); }
			if (null) v.assign(sz, 0);
			c.check(find(idx) == e.end(), "add returns the index of a live entry");
			if (dead.erase(idx)) reused = true;
			e.push_back({k, v, idx});
			d += cat(" +", quote(k), "=#", idx);
			break;
		}
		case 4: case 5: {
			size_t idx = s.below(e.size() + dead.size() + 2);
			if (!e.empty() && s.chance(2, 3)) { auto it = e.begin(); std::advance(it, s.below(e.size())); idx = it->idx; }
			auto it = find(idx);
			bool r = r_map_delete(m, idx);
			c.check(r == (it != e.end()), cat("delete of #", idx, " returns ", r));
			if (it != e.end()) { e.erase(it); dead.insert(idx); }
			d += cat(" -#", idx);
			break;
		}
		case 6: {
			size_t idx = s.below(e.size() + dead.size() + 2);
			auto it = find(idx);
			size_t r = r_map_setvalue(m, idx, v.data());
			c.check(r == (it != e.end() ? idx : (size_t)-1), cat("setvalue of #", idx));
			if (it != e.end()) it->v = v;
			d += cat(" set#", idx);
			break;
		}
		default: break;
		}
		c.describe(d);
		// walk in both directions
		std::vector<size_t> f, b, want;
		for (auto &x : e) want.push_back(x.idx);
		for (size_t q = r_map_first(m); q != (size_t)-1 && f.size() <= want.size(); q = r_map_next(m, q)) f.push_back(q);
		for (size_t q = r_map_last(m); q != (size_t)-1 && b.size() <= want.size(); q = r_map_prev(m, q)) b.push_back(q);
		c.check(f == want, cat("walking forwards gives ", f.size(), " entries, expected ", want.size()));
		std::reverse(b.begin(), b.end());
		c.check(b == want, cat("walking backwards gives ", b.size(), " entries, expected ", want.size()));
		for (auto &x : e) {
			rstring_t *kk = r_map_key(m, x.idx);
			c.check(kk && kk->size == x.k.size() && !memcmp(kk->str, x.k.data(), kk->size), cat("key of #", x.idx));
			rpointer p = r_map_value(m, x.idx);
			c.check(p && !memcmp(p, x.v.data(), sz), cat("value of #", x.idx, " (", quote(x.k), ")"));
		}
		for (size_t x : dead) c.check(r_map_value(m, x) == NULL && r_map_key(m, x) == NULL && r_map_next(m, x) == (size_t)-1, cat("deleted #", x, " is still there"));
		c.check(r_map_value(m, e.size() + dead.size() + 5) == NULL, "value beyond the end");
		std::vector<std::string> probe = {k};
		for (int q = 0; q < 3; q++) probe.push_back(key(s, false));
		for (auto &p : probe) {
			size_t first = -1, last = -1;
			for (auto &x : e) if (x.k == p) { if (first == (size_t)-1) first = x.idx; last = x.idx; }
			std::vector<char> bb(p.begin(), p.end());
			bb.shrink_to_fit();
			c.check(r_map_lookup(m, bb.data(), bb.size()) == first && r_map_lookup_s(m, p.c_str()) == first, cat("lookup of ", quote(p), " gives #", (long)r_map_lookup(m, bb.data(), bb.size()), ", expected #", (long)first));
			c.check(r_map_taillookup(m, bb.data(), bb.size()) == last && r_map_taillookup_s(m, p.c_str()) == last, cat("tail lookup of ", quote(p)));
			char *end;
			long l = strtol(p.c_str(), &end, 10);
			if (!p.empty() && !*end && cat(l) == p) c.check(r_map_lookup_l(m, l) == first, cat("lookup of long key ", l));
		}
	}
	if (e.size() > 3 || reused) c.nontrivial = true;
	if (reused) c.tag("map, slots reused");
	c.tag("map");
	r_map_destroy(m);
}

// ---- harray: names to elements, elements also by index
static void harrays(Src &s, Ctx &c)
{
	static const std::vector<size_t> sizes = {8, 1, 4, 24};
	size_t sz = s.pick(sizes);
	rharray_t *a = r_harray_create(sz);
	std::vector<std::pair<std::string, std::string>> m;
	std::string d = cat("named array of ", sz, "-byte elements:");
	int n = s.below(c.thorough ? 150 : 60);
	size_t hits = 0;
	for (size_t i = 0; i < wide; i++) {
		std::string v(sz, (char)(i ^ (i >> 8))), k = numbered(i);
		c.check(r_harray_add(a, k.data(), k.size(), v.data()) == (long)i, "add returns another index");
		m.push_back({k, v});
	}
	if (wide) d += cat(" +", wide, " numbered names"), n = std::min(n, 12);
	for (int i = 0; i < n; i++) {
		std::string v(sz, 0), k = key(s, true);
		uint64_t x = s.below(100000);
		for (size_t q = 0; q < sz; q++) v[q] = (char)(x >> (8 * (q % 3))) + (char)q;
		bool z = k.find('\0') == std::string::npos && s.chance(1, 2);
		std::vector<char> b(k.begin(), k.end());
		b.shrink_to_fit();
		long first = -1;
		for (size_t q = 0; q < m.size() && first < 0; q++) if (m[q].first == k) first = q;
		switch (s.below(7)) {
		case 0: case 1: {
			long r = z ? r_harray_add_s(a, k.c_str(), v.data()) : r_harray_add(a, b.data(), b.size(), v.data());
			c.check(r == (long)m.size(), "add returns another index");
			m.push_back({k, v});
			d += cat(" +", quote(k));
			break;
		}
		case 2: case 3: {
			long r = z ? r_harray_replace_s(a, k.c_str(), v.data()) : r_harray_replace(a, b.data(), b.size(), v.data());
			if (first < 0) { c.check(r == (long)m.size(), "replace of a new name returns another index"); m.push_back({k, v}); }
			else { c.check(r == first, "replace of a known name returns another index"); m[first].second = v; }
			d += cat(" =", quote(k));
			break;
		}
		case 4: {
			long q = s.range(-2, (long)m.size() - 1);
			int r = r_harray_set(a, q, v.data());
			c.check((r == 0) == (q >= 0), "set result");
			if (q >= 0) m[q].second = v;
			d += cat(" set#", q);
			break;
		}
		case 5: if (s.chance(1, 2)) {
			rharray_t *cp = (rharray_t *)r_harray_copy((robject_t *)a);
			// the original may go first
			r_harray_destroy(a);
			a = cp;
			d += " copy";
		} break;
		default: break;
		}
		c.describe(d);
		c.check(r_harray_length(a) == m.size(), "length");
		for (size_t q = 0; q < m.size(); q++) c.check(!memcmp(r_harray_get(a, q), m[q].second.data(), sz), cat("element ", q));
		c.check(r_harray_get(a, m.size()) == NULL && r_harray_get(a, m.size() + 100) == NULL, "element beyond the end");
		std::vector<std::string> probe = {k};
		for (int q = 0; q < 3; q++) probe.push_back(key(s, true));
		for (auto &p : probe) {
			std::vector<size_t> want, got, gotr;
			for (size_t q = 0; q < m.size(); q++) if (m[q].first == p) want.push_back(q);
			long wf = want.empty() ? -1 : (long)want.front(), wl = want.empty() ? -1 : (long)want.back();
			if (!want.empty()) hits++;
			std::vector<char> pb(p.begin(), p.end());
			pb.shrink_to_fit();
			c.check(r_harray_lookup(a, pb.data(), pb.size()) == wf, cat("lookup of ", quote(p), " gives ", r_harray_lookup(a, pb.data(), pb.size()), ", expected ", wf));
			c.check(r_harray_taillookup(a, pb.data(), pb.size()) == wl, cat("tail lookup of ", quote(p), " gives ", r_harray_taillookup(a, pb.data(), pb.size()), ", expected ", wl));
			if (p.find('\0') == std::string::npos) {
				c.check(r_harray_lookup_s(a, p.c_str()) == wf, "lookup of a C string");
				c.check(r_harray_taillookup_s(a, p.c_str()) == wl, cat("tail lookup of C string ", quote(p), " gives ", r_harray_taillookup_s(a, p.c_str()), ", expected ", wl));
			}
			for (rhash_node_t *q = r_harray_nodelookup(a, NULL, pb.data(), pb.size()); q; q = r_harray_nodelookup(a, q, pb.data(), pb.size())) got.push_back(r_hash_index(q));
			for (rhash_node_t *q = r_harray_nodetaillookup(a, NULL, pb.data(), pb.size()); q; q = r_harray_nodetaillookup(a, q, pb.data(), pb.size())) gotr.push_back(r_hash_index(q));
			std::reverse(gotr.begin(), gotr.end());
			c.check(got == want && gotr == want, cat("entries of ", quote(p)));
		}
	}
	if (hits > 3) c.nontrivial = true;
	r_harray_destroy(a);
	c.tag("named array");
}

static void one(Src &s, Ctx &c)
{
	size_t mem0 = r_debug_get_allocmem();
	wide = s.chance(1, 150) ? s.below(c.thorough ? 4000 : 1500) : 0;
	if (wide > 200) c.tag("more than 200 entries");
	switch (s.below(3)) {
	case 0: maps(s, c); break;
	case 1: hashes(s, c); break;
	default: harrays(s, c);
	}
	c.check(r_debug_get_allocmem() == mem0, cat("memory not returned: ", (long)(r_debug_get_allocmem() - mem0)));
}

int main(int argc, char **argv)
{
	Config cfg;
	cfg.id = "L03";
	cfg.rule = "A case is a random history of up to 70 (thorough 150) insertions, deletions, replacements, copies and clears on a hash (four key kinds, up to 16384 buckets, or all keys in one bucket; one in 150 starts from hundreds of entries), a map or a named array, with keys that repeat, collide, share prefixes and (where keys are sized) contain NUL; after every operation lookups from both ends, duplicate enumeration, index access and walks in both directions are compared with an ordered multimap model. Non-trivial: more than three successful lookups, or a reused slot.";
	cfg.quick_cases = 30000;
	cfg.thorough_cases = 500000;
	cfg.fn = one;
	cfg.assumptions = {"map keys contain no NUL (they are kept as C strings)", "floating-point map keys differ in their first 15 decimals"};
	return run_main(argc, argv, cfg);
}
