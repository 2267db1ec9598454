// libs: rlib
#include "pbt.h"
#include <functional>
extern "C" {
#include "rlib/rmem.h"
#include "rlib/rgc.h"
#include "rlib/rref.h"
#include "rlib/rstring.h"
#include "rlib/rarray.h"
#include "rlib/rcarray.h"
#include "rlib/rharray.h"
#include "rlib/rmap.h"
}
using namespace pbt;

// A user-defined object that records its destruction.
// Its cleanup may destroy another object, or hand a new one to a collector, as the destructor of a composite object does.
struct Probe { robject_t obj; int id; Probe *child, *parent; int give; };
struct ProbeRef { rref_t ref; int id; };
static std::map<int, int> died;
struct Probe;
static Probe *probe(int id);
static int next_id;
static rgc_t *gc[2];
static std::map<int, robject_t *> born;
static void probe_cleanup(robject_t *o)
{
	Probe *p = (Probe *)o;
	died[p->id]++;
	if (p->parent) p->parent->child = NULL;
	if (p->child) { Probe *k = p->child; k->parent = NULL; p->child = NULL; r_object_destroy((robject_t *)k); }
	if (p->give >= 0) { Probe *k = probe(next_id); born[next_id++] = (robject_t *)k; r_gc_add(gc[p->give], (robject_t *)k); }
	r_object_cleanup(o);
}
static void proberef_cleanup(robject_t *o) { died[((ProbeRef *)o)->id]++; r_ref_cleanup(o); }
static Probe *probe(int id)
{
	Probe *p = (Probe *)r_object_create(sizeof *p);
	r_object_init((robject_t *)p, R_OBJECT_USER + 1, probe_cleanup, NULL);
	p->id = id;
	p->give = -1;
	return p;
}

static void one(Src &s, Ctx &c)
{
	size_t mem0 = r_debug_get_allocmem();
	died.clear();
	gc[0] = r_gc_create();
	gc[1] = r_gc_create();
	born.clear();
	next_id = 1;
	struct Item { int kind, id, owner; robject_t *o; int child = 0, parent = 0, give = -1; };      // owner -1: the caller
	struct RefItem { int id; ProbeRef *r; unsigned count; rref_type_t type; };
	std::vector<Item> items;
	std::vector<RefItem> refs;
	std::set<int> dead;
	// what the destruction of an object brings with it
	int mid = 1;
	auto find = [&](int id) { size_t x = 0; while (x < items.size() && items[x].id != id) x++; return x; };
	std::function<void(int)> gone = [&](int id) {
		size_t x = find(id);
		Item it = items[x];
		items.erase(items.begin() + x);
		if (!it.kind) dead.insert(id);
		if (it.parent) items[find(it.parent)].child = 0;
		if (it.child) { items[find(it.child)].parent = 0; gone(it.child); }
		if (it.give >= 0) { int k = mid++; Item n{0, k, it.give, born[k]}; items.push_back(n); }
	};
	auto collected = [&](int g) {
		for (bool any = true; any;) {
			any = false;
			for (auto &x : items) if (x.owner == g) { any = true; gone(x.id); break; }
		}
	};
	std::string d = "history:";
	bool wide = s.chance(1, 400);          // now and then very many objects
	if (wide) c.tag("wide");
	int n = wide ? 300 + s.below(1500) : 4 + s.below(c.thorough ? 120 : 50);
	for (int i = 0; i < n; i++) {
		switch (wide && s.chance(1, 2) ? 0 : s.below(9)) {
		case 0: case 1: case 2: {      // a new object, perhaps owned by a collector
			int kind = s.chance(1, 2) ? 0 : s.below(6), id = next_id++;
			mid = next_id;
			robject_t *o;
			switch (kind) {
			case 1: o = (robject_t *)r_string_create_from_ansi("some text"); break;
			case 2: { rarray_t *a = r_array_create(8); long x = id; for (int q = 0; q < 5; q++) r_array_add(a, &x); o = (robject_t *)a; break; }
			case 3: { rcarray_t *a = r_carray_create(8); long x = id; for (int q = 0; q < 20; q++) r_carray_add(a, &x); o = (robject_t *)a; break; }
			case 4: { rharray_t *a = r_harray_create(8); long x = id; r_harray_add_s(a, "one", &x); r_harray_add_s(a, "two", &x); o = (robject_t *)a; break; }
			case 5: { rmap_t *a = r_map_create(8, 3); long x = id; r_map_add_s(a, "one", &x); r_map_add_s(a, "two", &x); r_map_delete(a, 0); o = (robject_t *)a; break; }
			default: o = (robject_t *)probe(id);
			}
			static const unsigned types[] = {R_OBJECT_USER + 1, R_OBJECT_STRING, R_OBJECT_ARRAY, R_OBJECT_CARRAY, R_OBJECT_HARRAY, R_OBJECT_MAP};
			c.check(r_object_typeget(o) == types[kind], cat("type of a new object of kind ", kind));
			c.check(r_object_gcget(o) == NULL, "a new object has a collector");
			int owner = (int)s.below(3) - 1;
			if (owner >= 0) { r_gc_add(gc[owner], o); c.check(r_object_gcget(o) == gc[owner], "collector of the object"); }
			Item it{kind, id, owner, o};
			d += cat(" new", kind, "#", id, owner >= 0 ? cat("@gc", owner) : std::string());
			if (!kind && s.chance(1, 3)) {
				std::vector<size_t> free;
				for (size_t x = 0; x < items.size(); x++) if (!items[x].kind && !items[x].parent) free.push_back(x);
				if (!free.empty()) {
					Item &k = items[s.pick(free)];
					k.parent = id; it.child = k.id;
					((Probe *)o)->child = (Probe *)k.o; ((Probe *)k.o)->parent = (Probe *)o;
					d += cat("(with #", k.id, ")");
				}
			}
			if (!kind && s.chance(1, 6)) { it.give = ((Probe *)o)->give = s.below(2); d += cat("(leaves one to gc", it.give, ")"); }
			items.push_back(it);
			break;
		}
		case 3: case 4: if (!items.empty()) {      // destroyed by hand: leaves its collector's list
			size_t x = s.below(items.size());
			d += cat(" destroy#", items[x].id);
			r_object_destroy(items[x].o);
			gone(items[x].id);
		} break;
		case 5: if (s.chance(1, wide ? 60 : 3)) {
			int g = s.below(2);
			bool whole = s.chance(1, 2);
			if (whole) { rgc_t *o = gc[g]; r_gc_destroy(o); gc[g] = r_gc_create(); } else r_gc_deallocateall(gc[g]);
			collected(g);
			d += cat(whole ? " destroygc" : " collect", g);
		} break;
		case 6: {
			int id = next_id++;
			mid = next_id;
			if (s.chance(1, 3)) {
				rref_type_t t = s.chance(1, 2) ? RREF_TYPE_COW : RREF_TYPE_SHARED;
				rref_t *r = r_ref_create(t);
				c.check(r_ref_get(r) == 1 && r_ref_typeget(r) == t, "a new reference");
				rref_t *k = (rref_t *)r_ref_copy((robject_t *)r);
				c.check(r_ref_get(k) == 1 && r_ref_typeget(k) == t, "a copied reference");
				c.check(r_ref_dec(r) == 0 && r_ref_dec(k) == 0, "last release");
				d += " ref";
				break;
			}
			ProbeRef *r = (ProbeRef *)r_object_create(sizeof *r);
			unsigned count = s.below(3);
			rref_type_t t = s.chance(1, 2) ? RREF_TYPE_COW : RREF_TYPE_SHARED;
			r_ref_init((robject_t *)r, R_OBJECT_USER + 2, proberef_cleanup, r_ref_copy, count, t);
			r->id = id;
			refs.push_back({id, r, count, t});
			d += cat(" ref#", id, "=", count);
			break;
		}
		default: if (!refs.empty()) {
			size_t x = s.below(refs.size());
			RefItem &r = refs[x];
			if (s.chance(1, 8)) { r.type = r.type == RREF_TYPE_COW ? RREF_TYPE_SHARED : RREF_TYPE_COW; r_ref_typeset((rref_t *)r.r, r.type); }
			c.check(r_ref_typeget((rref_t *)r.r) == r.type, "reference type");
			if (s.chance(1, 2)) {
				unsigned g = r_ref_inc((rref_t *)r.r);
				r.count++;
				c.check(g == r.count, cat("count after acquire is ", g, ", expected ", r.count));
				d += cat(" inc#", r.id);
			} else {
				unsigned g = r_ref_dec((rref_t *)r.r);
				d += cat(" dec#", r.id);
				if (r.count) r.count--; else { c.check(g == 0, "release of an unheld reference"); break; }
				c.check(g == r.count, cat("count after release is ", g, ", expected ", r.count));
				if (!r.count) { dead.insert(r.id); refs.erase(refs.begin() + x); break; }
			}
			c.check(r_ref_get((rref_t *)r.r) == r.count, "count");
		}
		}
		c.describe(d);
		c.check(mid == next_id, cat(next_id - mid, " objects more than expected were made by cleanups"));
		for (auto &k : died) c.check(k.second == 1 && dead.count(k.first), cat("object #", k.first, " destroyed ", k.second, " times, expected ", (int)dead.count(k.first)));
		for (int x : dead) c.check(died.count(x), cat("object #", x, " was not destroyed"));
		// what each collector still holds, in order
		for (int g = 0; g < 2; g++) {
			std::vector<robject_t *> want, got;
			for (auto &x : items) if (x.owner == g) want.push_back(x.o);
			rlink_t *p;
			rhead_t *h = r_gc_head(gc[g]);
			r_list_foreach(p, h) got.push_back(r_list_entry(p, robject_t, lnk));
			c.check(got == want, cat("collector ", g, " holds ", got.size(), " objects, expected ", want.size()));
		}
	}
	if (dead.size() > 1) c.nontrivial = true;
	for (auto &x : items) if (!x.kind) { Probe *p = (Probe *)x.o; p->child = p->parent = NULL; p->give = -1; }
	for (auto &x : items) if (x.owner < 0) r_object_destroy(x.o);
	for (auto &x : refs) { if (!x.count) r_object_destroy((robject_t *)x.r); else while (r_ref_dec((rref_t *)x.r)) {} }
	r_gc_destroy(gc[0]);
	r_gc_destroy(gc[1]);
	for (auto &k : died) c.check(k.second == 1, cat("object #", k.first, " destroyed ", k.second, " times"));
	c.check(r_debug_get_allocmem() == mem0, cat("memory not returned: ", (long)(r_debug_get_allocmem() - mem0)));
}

int main(int argc, char **argv)
{
	Config cfg;
	cfg.id = "L05";
	cfg.rule = "A case is a random history over objects of every container type and a user-defined type: creation, hand-over to one of two collectors, explicit destruction, collection, collector destruction, and reference counting, with user-defined objects destroying others and handing new ones over while they are destroyed, and the set of live objects, destruction counts, collector contents and total memory compared with a model. Non-trivial: at least two user-defined objects were destroyed in the history.";
	cfg.quick_cases = 60000;
	cfg.thorough_cases = 1000000;
	cfg.fn = one;
	return run_main(argc, argv, cfg);
}
