// libs: rlib
#include "pbt.h"
#include <algorithm>
#include <list>
extern "C" {
#include "rlib/rmem.h"
#include "rlib/rarray.h"
#include "rlib/rcarray.h"
#include "rlib/rlist.h"
}
using namespace pbt;
typedef std::string El;      // one element's bytes

static El elem(Src &s, size_t sz)
{
	El e(sz, 0);
	uint64_t v = s.below(1000);
	for (size_t i = 0; i < sz; i++) e[i] = (char)(v * (2 * i + 1) + (v >> 3) + i);
	return e;
}
// An element whose content is not defined (a slot used before, exposed again by growing the length) is an empty string
// in the model; a slot never used before is zero.
static void grow(std::vector<El> &m, size_t l, size_t used, size_t sz)
{
	for (size_t i = m.size(); i < l; i++) m.push_back(i < used ? El() : El(sz, 0));
	m.resize(l);
}
// how many elements a long array starts with (most arrays start empty)
static size_t bulk(Src &s, Ctx &c, size_t max)
{
	if (!s.chance(1, 300)) return 0;
	c.tag("long array");
	return s.below(max);
}
static void cmp_array(Ctx &c, rarray_t *a, const std::vector<El> &m, size_t sz, const char *what)
{
	c.check(r_array_length(a) == m.size(), cat(what, ": length ", r_array_length(a), ", expected ", m.size()));
	c.check((bool)r_array_empty(a) == m.empty(), cat(what, ": emptiness"));
	c.check(r_array_size(a) >= m.size(), cat(what, ": allocated size below length"));
	for (size_t i = 0; i < m.size(); i++)
		if (!m[i].empty()) c.check(!memcmp(r_array_slot(a, i), m[i].data(), sz), cat(what, ": element ", i, " differs"));
	c.check(m.empty() ? r_array_lastslot(a) == NULL : r_array_lastslot(a) == r_array_slot(a, m.size() - 1), "last slot");
}

static void arrays(Src &s, Ctx &c)
{
	static const std::vector<size_t> sizes = {8, 1, 3, 4, 24, 40};
	size_t sz = s.pick(sizes);
	rarray_t *a = r_array_create(sz);
	std::vector<El> m;
	std::string h = cat("array of ", sz, "-byte elements:");
	int n = s.below(c.thorough ? 120 : 50);
	int shrunk = 0;
	size_t used = 0;
	if (size_t b = bulk(s, c, c.thorough ? 70000 : 10000)) {
		El e = elem(s, sz);
		for (size_t i = 0; i < b; i++) { e[0] = (char)(i * 7 + (i >> 8)); e[sz - 1] = (char)(i * 5 + (i >> 4)); c.check(r_array_add(a, e.data()) == i, "add returns another index"); m.push_back(e); }
		h += cat(" add x", b);
		used = b;
		n = std::min(n, 12);
	}
	for (int k = 0; k < n; k++) {
		bool null = s.chance(1, 12);
		El e = elem(s, sz);
		const void *src = null ? NULL : e.data();
		El me = null ? El(sz, 0) : e;
		switch (s.below(11)) {
		case 0: case 1: {
			size_t i = r_array_add(a, src);
			c.check(i == m.size(), "add returns another index");
			m.push_back(me);
			h += " add";
			break;
		}
		case 2: {
			size_t i = s.below(m.size() + 1);
			c.check(r_array_insert(a, i, src) == i, "insert returns another index");
			m.insert(m.begin() + i, me);
			h += cat(" insert@", i);
			break;
		}
		case 3: {      // past the end: the array grows to hold it
			size_t i = m.size() + s.below(9);
			bool ins = s.chance(1, 2);
			c.check((ins ? r_array_insert(a, i, src) : r_array_replace(a, i, src)) == i, "insert past the end returns another index");
			grow(m, i, used, sz);
			m.push_back(me);
			h += cat(ins ? " insert@" : " replace@", i);
			break;
		}
		case 4: if (!m.empty()) {
			size_t i = s.below(m.size());
			c.check(r_array_replace(a, i, src) == i, "replace returns another index");
			m[i] = me;
			h += cat(" replace@", i);
		} break;
		case 5: {
			size_t i = s.below(m.size() + 2);
			r_array_delete(a, i);
			if (i < m.size()) m.erase(m.begin() + i);
			h += cat(" delete@", i);
			break;
		}
		case 6: {
			size_t l = r_array_removelast(a);
			if (!m.empty()) m.pop_back();
			c.check(l == m.size(), "removelast returns another length");
			h += " removelast";
			break;
		}
		case 7: {
			size_t l = s.below(m.size() + 12);
			c.check(r_array_setlength(a, l) == l, "setlength returns another length");
			if (l < m.size()) shrunk++;
			grow(m, l, used, sz);
			h += cat(" setlength ", l);
			break;
		}
		case 8: {
			size_t d = s.below(m.size() + 2), f = s.below(m.size() + 2), l = s.below(m.size() + 2);
			int r = r_array_move(a, d, f, l);
			bool ok = d + l <= m.size() && f + l <= m.size();
			c.check((r == 0) == ok, cat("move ", d, "<-", f, " of ", l, " returns ", r, " with length ", m.size()));
			if (ok) { std::vector<El> t(m.begin() + f, m.begin() + f + l); std::copy(t.begin(), t.end(), m.begin() + d); }
			h += cat(" move ", d, "<-", f, "x", l);
			break;
		}
		case 9: {
			if (s.chance(1, 2)) { r_array_expand(a, s.below(40)); h += " expand"; }
			else { size_t i = s.below(60); void *p = r_array_slot_expand(a, i); c.check(p == r_array_slot(a, i) && r_array_size(a) > i, "slot_expand"); h += cat(" slot_expand ", i); }
			break;
		}
		default: {
			rarray_t *b = (rarray_t *)r_array_copy((robject_t *)a);
			cmp_array(c, b, m, sz, "copy");
			// the copy is independent
			if (!m.empty() && s.chance(1, 2)) { El x = elem(s, sz); r_array_replace(b, 0, x.data()); r_array_setlength(b, 1); }
			r_array_destroy(b);
			h += " copy";
		}
		}
		c.describe(h);
		used = std::max(used, m.size());
		cmp_array(c, a, m, sz, "array");
	}
	if (n > 5) c.nontrivial = true;
	r_array_destroy(a);
}

static void typed(Src &s, Ctx &c)
{
	// push/pop/last/sort macros on long elements
	rarray_t *a = r_array_create(sizeof(long));
	std::vector<long> m;
	int n = s.below(60);
	std::string h = "stack of longs:";
	if (size_t b = bulk(s, c, 3000)) {
		for (size_t i = 0; i < b; i++) { long v = (long)(i * 0x9e3779b97f4a7c15ull) >> (i % 50); r_array_push(a, v, long); m.push_back(v); }
		h += cat(" push x", b);
		n = std::min(n, 12);
	}
	for (int k = 0; k < n; k++) {
		long v = s.chance(1, 4) ? (long)s.bits() : s.range(-9, 9);
		switch (s.below(5)) {
		case 0: case 1: case 2: r_array_push(a, v, long); m.push_back(v); h += cat(" push ", v); break;
		case 3: if (!m.empty()) { long t = r_array_pop(a, long); c.check(t == m.back(), cat("pop gives ", t, ", expected ", m.back())); m.pop_back(); h += " pop"; } break;
		default: r_array_sort(a, long); std::sort(m.begin(), m.end()); h += " sort";
		}
		c.describe(h);
		c.check(r_array_length(a) == m.size(), "stack length");
		if (!m.empty()) c.check(r_array_last(a, long) == m.back(), "last element");
		for (size_t i = 0; i < m.size(); i++) c.check(r_array_index(a, i, long) == m[i], cat("element ", i));
	}
	if (n > 5) c.nontrivial = true;
	r_array_destroy(a);
}

static void carrays(Src &s, Ctx &c)
{
	static const std::vector<size_t> sizes = {8, 1, 3, 4, 24, 40};
	size_t sz = s.pick(sizes);
	rcarray_t *a = r_carray_create(sz);
	std::vector<El> m;
	std::map<size_t, char *> addr;
	size_t used = 0;
	std::string h = cat("chunked array of ", sz, "-byte elements:");
	int n = s.below(c.thorough ? 150 : 60);
	if (size_t b = bulk(s, c, c.thorough ? 20000 : 3000)) {
		El e = elem(s, sz);
		for (size_t i = 0; i < b; i++) { e[0] = (char)(i * 7 + (i >> 8)); e[sz - 1] = (char)(i * 5 + (i >> 4)); c.check(r_carray_add(a, e.data()) == i, "add returns another index"); m.push_back(e); }
		h += cat(" add x", b);
		used = b;
		n = std::min(n, 12);
	}
	for (int k = 0; k < n; k++) {
		bool null = s.chance(1, 12);
		El e = elem(s, sz);
		const void *src = null ? NULL : e.data();
		El me = null ? El(sz, 0) : e;
		switch (s.below(8)) {
		case 0: case 1: case 2: { int rep = s.chance(1, 6) ? 20 : 1; while (rep--) { c.check(r_carray_add(a, src) == m.size(), "add returns another index"); m.push_back(me); } h += " add"; break; }
		case 3: if (!m.empty()) { size_t i = s.below(m.size()); c.check(r_carray_replace(a, i, src) == i, "replace index"); m[i] = me; h += cat(" replace@", i); } break;
		case 4: { size_t l = s.below(m.size() + 40); r_carray_setlength(a, l); grow(m, l, used, sz); h += cat(" setlength ", l); break; }
		case 5: { size_t i = s.below(m.size() + 50); rpointer p = r_carray_slot_expand(a, i); c.check(p == (rpointer)r_carray_slot(a, i) && r_carray_size(a) > i, "slot_expand"); h += cat(" slot_expand ", i); break; }
		case 6: { r_carray_inclength(a); grow(m, m.size() + 1, used, sz); h += " inclength"; break; }
		default: {
			rcarray_t *b = (rcarray_t *)r_carray_copy((robject_t *)a);
			c.check(r_carray_length(b) == m.size(), "copy length");
			for (size_t i = 0; i < m.size(); i++) if (!m[i].empty()) c.check(!memcmp(r_carray_slot(b, i), m[i].data(), sz), cat("copy element ", i));
			if (!m.empty()) { El x = elem(s, sz); r_carray_replace(b, s.below(m.size()), x.data()); r_carray_add(b, NULL); }
			r_carray_destroy(b);
			h += " copy";
		}
		}
		c.describe(h);
		used = std::max(used, m.size());
		c.check(r_carray_length(a) == m.size() && r_carray_size(a) >= m.size(), cat("length ", r_carray_length(a), ", expected ", m.size()));
		for (size_t i = 0; i < m.size(); i++) {
			char *p = (char *)r_carray_slot(a, i);
			if (!m[i].empty()) c.check(!memcmp(p, m[i].data(), sz), cat("element ", i, " differs"));
			// an element never moves, whatever the array grows to
			if (addr.count(i)) c.check(addr[i] == p, cat("element ", i, " moved"));
			addr[i] = p;
		}
	}
	if (m.size() > 16) c.nontrivial = true;
	r_carray_destroy(a);
}

struct Node { long id; rlink_t lnk; };
static void lists(Src &s, Ctx &c)
{
	std::vector<rhead_t> head(3);
	std::vector<std::list<long>> m(3);
	std::vector<Node> pool(40);
	std::vector<int> where(40, -1);
	for (auto &h : head) r_list_init(&h);
	for (int i = 0; i < 40; i++) { pool[i].id = i; r_list_init(&pool[i].lnk); }
	std::string h = "lists:";
	int n = s.below(c.thorough ? 120 : 50);
	for (int k = 0; k < n; k++) {
		int l = s.below(3), x = s.below(40);
		switch (s.below(6)) {
		case 0: case 1: if (where[x] < 0) { bool head_ = s.chance(1, 2); if (head_) { r_list_addh(&head[l], &pool[x].lnk); m[l].push_front(x); } else { r_list_addt(&head[l], &pool[x].lnk); m[l].push_back(x); } where[x] = l; h += cat(head_ ? " addh " : " addt ", l, ":", x); } break;
		case 2: if (where[x] >= 0) { r_list_del(&pool[x].lnk); r_list_init(&pool[x].lnk); m[where[x]].remove(x); where[x] = -1; h += cat(" del ", x); } break;
		case 3: { int o = s.below(3); if (o != l) { r_list_splice(&head[o], &head[l]); for (long y : m[o]) where[y] = l; m[l].splice(m[l].begin(), m[o]); h += cat(" splice ", o, " into ", l); } break; }
		case 4: { rlink_t *p, *nx; bool odd = s.chance(1, 2); r_list_for_eachsafe(p, nx, &head[l]) { Node *q = r_list_entry(p, Node, lnk); if ((q->id & 1) == odd) { r_list_del(p); r_list_init(p); where[q->id] = -1; m[l].remove(q->id); } } h += cat(" remove ", odd ? "odd" : "even", " of ", l); break; }
		default: break;
		}
		c.describe(h);
		for (int i = 0; i < 3; i++) {
			c.check((bool)r_list_empty(&head[i]) == m[i].empty(), "emptiness");
			c.check(r_list_count(&head[i]) == m[i].size(), cat("list ", i, " has ", r_list_count(&head[i]), " entries, expected ", m[i].size()));
			std::vector<long> f, r, f2, r2, want(m[i].begin(), m[i].end()), rw(m[i].rbegin(), m[i].rend());
			rlink_t *p;
			r_list_foreach(p, &head[i]) f.push_back(r_list_entry(p, Node, lnk)->id);
			r_list_foreachreverse(p, &head[i]) r.push_back(r_list_entry(p, Node, lnk)->id);
			for (p = r_list_first(&head[i]); p; p = r_list_next(&head[i], p)) f2.push_back(r_list_entry(p, Node, lnk)->id);
			for (p = r_list_last(&head[i]); p; p = r_list_prev(&head[i], p)) r2.push_back(r_list_entry(p, Node, lnk)->id);
			c.check(f == want && f2 == want, cat("list ", i, " forwards"));
			c.check(r == rw && r2 == rw, cat("list ", i, " backwards"));
		}
	}
	if (n > 8) c.nontrivial = true;
}

static void one(Src &s, Ctx &c)
{
	size_t mem0 = r_debug_get_allocmem();
	switch (s.below(4)) {
	case 0: arrays(s, c); c.tag("array"); break;
	case 1: carrays(s, c); c.tag("chunked array"); break;
	case 2: lists(s, c); c.tag("list"); break;
	default: typed(s, c); c.tag("stack and sort"); break;
	}
	c.check(r_debug_get_allocmem() == mem0, "memory not returned");
}

int main(int argc, char **argv)
{
	Config cfg;
	cfg.id = "L02";
	cfg.rule = "A case is a random history of up to 50 (thorough 150) operations (one in 300 starts from thousands of elements) on an array, a chunked array, an array used as a typed stack, or three linked lists, compared after every operation with a std::vector/std::list model (contents, order in both directions, lengths, element addresses of chunked arrays). Non-trivial: more than 5-8 operations, or more than one chunk.";
	cfg.quick_cases = 60000;
	cfg.thorough_cases = 1000000;
	cfg.fn = one;
	cfg.assumptions = {"the content of elements exposed only by growing the length is not judged", "arguments never alias the array's own storage"};
	return run_main(argc, argv, cfg);
}
