// libs: rvm rlib
// V03: variable scopes against a model of nested scopes; typed registers keep type and value.
#include "pbt.h"
#include <cmath>
extern "C" {
#include "rlib/rmem.h"
#include "rlib/rstring.h"
#include "rlib/rgc.h"
#include "rlib/rcarray.h"
#include "rlib/rharray.h"
#include "rlib/rmap.h"
#include "rvm/rvmcpu.h"
#include "rvm/rvmscope.h"
}
using namespace pbt;

struct Var { std::string name; bool ptr; uint64_t v; };

static void scopes(Src &s, Ctx &c)
{
	rvm_scope_t *sc = rvm_scope_create();
	struct Close { rvm_scope_t *s; ~Close() { rvm_scope_destroy(s); } } close{sc};
	std::vector<Var> vars;
	std::vector<size_t> marks;
	std::map<std::string, char*> names;
	static const std::vector<std::string> base = {"a", "b", "ab", "abc", "i", "x1", "x", "value", "a_rather_long_name_of_a_variable", "\xc3\xa4", "valu"};
	bool wide = s.chance(1, 100);              // many names, few of them the same, and deep nesting
	auto name = [&]() {
		if (wide && !s.chance(1, 6)) return cat("v", s.below(500));
		std::string n = s.pick(base); if (s.chance(1, 5)) n += (char)('a' + s.below(3));
		return n;
	};
	auto cmp = [&](rvm_varmap_t *v, long at, const char *what, const std::string &n) {
		if (at < 0) { c.check(!v, cat(what, " ", quote(n), " finds a variable that is not there")); return; }
		c.check(v != NULL, cat(what, " ", quote(n), " finds nothing"));
		const Var &w = vars[at];
		c.check(n == v->name, cat(what, " ", quote(n), " finds ", quote(v->name)));
		c.check(v->datatype == (w.ptr ? VARMAP_DATATYPE_PTR : VARMAP_DATATYPE_OFFSET) && (w.ptr ? (uint64_t)v->data.ptr == w.v : v->data.offset == (ruint32)w.v),
			cat(what, " ", quote(n), " finds another variable of that name"));
	};
	std::string d;
	size_t n = s.below(c.thorough ? 200 : 80), hits = 0, shadow = 0;
	if (wide) n = 200 + s.below(c.thorough ? 4000 : 1200);
	for (size_t k = 0; k < n; k++) {
		std::string nm = name();
		std::vector<char> part(nm.begin(), nm.end());       // sized names need no end mark
		switch (s.weighted(wide ? std::vector<unsigned>{8, 5, 3, 1, 4, 3, 1} : std::vector<unsigned>{6, 4, 3, 2, 5, 4, 1})) {
		case 0: {
			uint64_t v = s.chance(1, 3) ? s.bits() : k + 1;
			d += cat(" +", nm, "@", (ruint32)v);
			if (s.chance(1, 2)) rvm_scope_addoffset_s(sc, nm.c_str(), (ruint32)v); else rvm_scope_addoffset(sc, part.data(), nm.size(), (ruint32)v);
			for (auto &x : vars) if (x.name == nm) { shadow++; break; }
			vars.push_back({nm, false, (ruint32)v});
			break;
		}
		case 1: {
			uint64_t v = s.bits();
			d += cat(" +", nm, "*", v);
			if (s.chance(1, 2)) rvm_scope_addpointer_s(sc, nm.c_str(), (void*)v); else rvm_scope_addpointer(sc, part.data(), nm.size(), (void*)v);
			vars.push_back({nm, true, v});
			break;
		}
		case 2: d += " {"; rvm_scope_push(sc); marks.push_back(vars.size()); break;
		case 3: if (marks.empty()) break; d += " }"; rvm_scope_pop(sc); vars.resize(marks.back()); marks.pop_back(); break;
		case 4: {
			long at = -1;
			for (size_t i = 0; i < vars.size(); i++) if (vars[i].name == nm) at = i;
			d += cat(" ?", nm);
			cmp(s.chance(1, 2) ? rvm_scope_lookup_s(sc, nm.c_str()) : rvm_scope_lookup(sc, part.data(), nm.size()), at, "looking up", nm);
			if (at >= 0) hits++;
			break;
		}
		case 5: {
			long at = -1;
			for (size_t i = marks.empty() ? 0 : marks.back(); i < vars.size(); i++) if (vars[i].name == nm) at = i;
			d += cat(" ^?", nm);
			cmp(s.chance(1, 2) ? rvm_scope_tiplookup_s(sc, nm.c_str()) : rvm_scope_tiplookup(sc, part.data(), nm.size()), at, "looking up in the innermost scope", nm);
			if (at >= 0) hits++;
			break;
		}
		case 6: {
			char *p = s.chance(1, 2) ? rvm_scope_addstrname(sc, nm.c_str()) : rvm_scope_addname(sc, part.data(), nm.size());
			c.check(nm == p, cat("the name kept for ", quote(nm), " is ", quote(p)));
			if (names.count(nm)) c.check(names[nm] == p, cat("the name ", quote(nm), " is kept twice"));
			names[nm] = p;
			break;
		}
		}
		c.check(rvm_scope_count(sc) == marks.size(), cat(rvm_scope_count(sc), " open scopes instead of ", marks.size()));
		c.check(rvm_scope_numentries(sc) == vars.size(), cat(rvm_scope_numentries(sc), " variables instead of ", vars.size()));
	}
	c.describe(d);
	for (auto &x : names) c.check(x.first == x.second, "a kept name has changed");
	c.tag("scopes");
	if (vars.size() > 256) c.tag("more than 256 variables");
	if (hits >= 2 && shadow) c.nontrivial = true;
}

static std::string text(Src &s) { std::string r; size_t n = s.below(12); for (size_t k = 0; k < n; k++) r += (char)(1 + s.below(255)); return r; }

static void regs(Src &s, Ctx &c)
{
	rvmreg_t r, q;
	memset(&r, s.below(256), sizeof r);      // whatever was there before plays no part
	std::string d;
	unsigned type;
	uint64_t b = s.bits();
	rvmcpu_t *cpu = NULL;
	switch (s.below(14)) {
	case 0: {
		rword v = (rword)b;
		if (s.chance(1, 2)) rvm_reg_setsigned(&r, v); else r = rvm_reg_create_signed(v);
		d = cat("signed ", v); type = RVM_DTYPE_SIGNED; c.describe(d);
		c.check(rvm_reg_signed(&r) == v && RVM_REG_GETL(&r) == v, "the signed value is another one");
		c.check(rvm_reg_int(&r) == (int)v, "the value as int is another one");
		c.check(rvm_reg_boolean(&r) == (v ? 1 : 0), "the value as truth value is another one");
		c.check(rvm_reg_double(&r) == (double)v, "the value as double is another one");
		break;
	}
	case 1: {
		rvm_reg_setunsigned(&r, b); d = cat("unsigned ", b); type = RVM_DTYPE_UNSIGNED; c.describe(d);
		c.check(RVM_REG_GETU(&r) == b && rvm_reg_boolean(&r) == (b ? 1 : 0), "the unsigned value is another one");
		break;
	}
	case 2: {
		static const std::vector<double> dv = {0, 1, -1, 0.5, 1.5, -2.25, 1e10, 1e300, -1e-300, 123456.789, INFINITY};
		double v = s.chance(1, 3) ? (double)(rword)b / 1024 : s.pick(dv);
		if (s.chance(1, 2)) rvm_reg_setdouble(&r, v); else r = rvm_reg_create_double(v);
		d = cat("double ", v); type = RVM_DTYPE_DOUBLE; c.describe(d);
		c.check(RVM_REG_GETD(&r) == v, "the double is another one");
		c.check(rvm_reg_double(&r) == v, cat("the double reads as ", rvm_reg_double(&r)));
		break;
	}
	case 3: rvm_reg_setboolean(&r, (rboolean)(s.chance(1, 2))); q = r; type = RVM_DTYPE_BOOLEAN; c.describe(d = "boolean"); c.check(RVM_REG_GETU(&r) <= 1 && rvm_reg_boolean(&r) == (rboolean)RVM_REG_GETU(&r), "the truth value is another one"); break;
	case 4: if (s.chance(1, 2)) rvm_reg_setpointer(&r, (void*)b); else r = rvm_reg_create_pointer((void*)b); type = RVM_DTYPE_POINTER; c.describe(d = "pointer"); c.check(rvm_reg_pointer(&r) == (void*)b, "the pointer is another one"); break;
	case 5: if (s.chance(1, 2)) rvm_reg_setpair(&r, (ruint32)b, (ruint32)(b >> 32)); else r = rvm_reg_create_pair((ruint32)b, (ruint32)(b >> 32)); type = RVM_DTYPE_PAIR; c.describe(d = "pair");
		c.check(RVM_REG_GETPAIR(&r).p1 == (ruint32)b && RVM_REG_GETPAIR(&r).p2 == (ruint32)(b >> 32), "the pair is another one"); break;
	case 6: if (s.chance(1, 2)) rvm_reg_setswi(&r, b); else r = rvm_reg_create_swi(b); type = RVM_DTYPE_SWIID; c.describe(d = "call number"); c.check(RVM_REG_GETU(&r) == b, "the call number is another one"); break;
	case 7: {
		std::string t = text(s); bool all = s.chance(1, 2);
		unsigned sz = all ? (unsigned)-1 : s.below(t.size() + 1);
		if (s.chance(1, 2)) rvm_reg_setstrptr(&r, (char*)t.c_str(), sz); else r = rvm_reg_create_strptr((char*)t.c_str(), sz);
		type = RVM_DTYPE_STRPTR; c.describe(d = cat("text ", quote(t), " size ", (int)sz));
		c.check(RVM_REG_GETSTR(&r) == t.c_str() && RVM_REG_GETSIZE(&r) == (all ? t.size() : sz), "the text or its size is another one");
		break;
	}
	case 8: {
		std::string t = text(s); rstr_t rs = {(char*)t.data(), t.size()};
		r = s.chance(1, 2) ? rvm_reg_create_string(&rs) : rvm_reg_create_string_ansi(t.c_str());
		type = RVM_DTYPE_STRING; c.describe(d = cat("string ", quote(t)));
		c.check(rvm_reg_string(&r)->size == t.size() && t == rvm_reg_string(&r)->str, "the string is another one");
		c.check(rvm_reg_tstflag(&r, RVM_INFOBIT_ROBJECT), "the string is not marked as an object");
		r_object_destroy((robject_t*)RVM_REG_GETP(&r));
		break;
	}
	case 9: {      // numbers in text
		int64_t ip = (int64_t)s.below(1000000) * (s.chance(1, 2) ? 1 : -1);
		std::string frac, t = cat(ip);
		bool fr = s.chance(1, 2);
		if (fr) { frac = cat(s.below(1000)); t += "." + frac; }
		if (s.chance(1, 3)) t += s.pick(std::vector<std::string>{"", " ", "x", ",", "abc"});
		rvmreg_t src = rvm_reg_create_string_ansi(t.c_str());
		c.describe(d = cat("number in ", quote(t)));
		double want = strtod((cat(ip) + (fr ? "." + frac : "")).c_str(), NULL);
		rvmreg_t o; memset(&o, 0xee, sizeof o);
		c.check(rvm_reg_str2num(&o, &src) == 0, "converting failed");
		if (fr) c.check(rvm_reg_gettype(&o) == RVM_DTYPE_DOUBLE && RVM_REG_GETD(&o) == want, "the text gives another number, or none with a fraction");
		else c.check(rvm_reg_gettype(&o) == RVM_DTYPE_SIGNED && RVM_REG_GETL(&o) == ip, "the text gives another whole number");
		c.check(rvm_reg_str2signed(&o, &src) == 0 && rvm_reg_gettype(&o) == RVM_DTYPE_SIGNED && RVM_REG_GETL(&o) == ip, "the text gives another signed number");
		c.check(rvm_reg_str2double(&o, &src) == 0 && rvm_reg_gettype(&o) == RVM_DTYPE_DOUBLE && RVM_REG_GETD(&o) == want, "the text gives another double");
		r_object_destroy((robject_t*)RVM_REG_GETP(&src));
		c.nontrivial = true; c.tag("numbers");
		return;
	}
	case 10: {     // global variables of a machine stay where they are
		cpu = rvm_cpu_create(16);
		struct Close { rvmcpu_t *c; ~Close() { rvm_cpu_destroy(c); } } close{cpu};
		std::vector<rvmreg_t*> g;
		size_t n = 1 + s.below(200);
		c.describe(d = cat(n, " globals"));
		for (size_t k = 0; k < n; k++) {
			rvmreg_t *p = rvm_cpu_alloc_global(cpu);
			c.check(p && rvm_reg_gettype(p) == RVM_DTYPE_UNDEF, "a new global variable is not undefined");
			rvm_reg_setunsigned(p, k * 3 + 1);
			g.push_back(p);
		}
		for (size_t k = 0; k < n; k++) c.check(RVM_REG_GETU(g[k]) == k * 3 + 1, cat("global variable ", k, " was overwritten or moved"));
		c.nontrivial = n > 8; c.tag("globals");
		return;
	}
	case 11: {
		bool op = s.chance(1, 2);
		if (s.chance(1, 2)) { if (op) rvm_reg_setophandler(&r, (void*)b); else rvm_reg_setprophandler(&r, (void*)b); } else r = op ? rvm_reg_create_ophandler((void*)b) : rvm_reg_create_prophandler((void*)b);
		type = op ? RVM_DTYPE_OPHANDLER : RVM_DTYPE_PROPHANDLER; c.describe(d = "handler");
		c.check(rvm_reg_pointer(&r) == (void*)b && !rvm_reg_tstflag(&r, RVM_INFOBIT_ROBJECT), "the handler is another one");
		break;
	}
	case 12: {     // objects of others
		unsigned k = s.below(4);
		if (k == 0) rvm_reg_setstring(&r, (rstring_t*)b); else if (k == 1) rvm_reg_setarray(&r, (robject_t*)b); else if (k == 2) rvm_reg_setharray(&r, (robject_t*)b); else if (s.chance(1, 2)) rvm_reg_setmap(&r, (robject_t*)b); else rvm_reg_setjsobject(&r, (robject_t*)b);
		type = k == 0 ? RVM_DTYPE_STRING : k == 1 ? RVM_DTYPE_ARRAY : k == 2 ? RVM_DTYPE_HARRAY : RVM_DTYPE_MAP; c.describe(d = "object");
		c.check(rvm_reg_pointer(&r) == (void*)b && rvm_reg_tstflag(&r, RVM_INFOBIT_ROBJECT), "the object is another one, or not marked as one");
		if (k == 0) c.check(rvm_reg_string(&r) == (rstring_t*)b, "the string is another one");
		if (k == 3) c.check(rvm_reg_jsobject(&r) == (rmap_t*)b, "the map is another one");
		if (s.chance(1, 3)) {
			if (s.chance(1, 2)) rvm_reg_init(&r); else rvm_reg_cleanup(&r);
			c.check(RVM_REG_GETU(&r) == 0 && RVM_REG_GETFLAGS(&r) == 0, "a cleared register is not empty");
			type = RVM_DTYPE_NONE;
		}
		break;
	}
	default: rvm_reg_setundef(&r); type = RVM_DTYPE_UNDEF; c.describe(d = "undefined"); break;
	}
	c.check(rvm_reg_gettype(&r) == type, cat("the type is ", rvm_reg_gettype(&r), " instead of ", type));
	unsigned t = s.below(32);
	uint64_t w = r.v.w;
	rvm_reg_settype(&r, t);
	c.check(rvm_reg_gettype(&r) == t && r.v.w == w, "setting the type changes the value or is lost");
	ruint16 f = (ruint16)(1u << s.below(16)), f2 = (ruint16)(1u << s.below(16));
	bool had = rvm_reg_tstflag(&r, f2);
	rvm_reg_setflag(&r, f);
	c.check(rvm_reg_tstflag(&r, f), "a flag that was set is not");
	if (f2 != f) c.check(rvm_reg_tstflag(&r, f2) == had, "setting a flag changes another");
	rvm_reg_clrflag(&r, f);
	c.check(!rvm_reg_tstflag(&r, f), "a flag that was cleared is set");
	if (f2 != f) c.check(rvm_reg_tstflag(&r, f2) == had, "clearing a flag changes another");
	c.tag("registers");
	c.nontrivial = b > 1;
}

// ---- containers of registers
struct Hold {                // destroyed at the end
	std::vector<robject_t*> v;
	robject_t *operator()(robject_t *o) { v.push_back(o); return o; }
	~Hold() { for (auto p : v) r_object_destroy(p); }
};
static robject_t *container(unsigned kind)       // of registers
{
	return kind == 0 ? (robject_t*)r_array_create(sizeof(rvmreg_t)) : kind == 1 ? (robject_t*)r_carray_create(sizeof(rvmreg_t)) : (robject_t*)r_harray_create(sizeof(rvmreg_t));
}
static void put(robject_t *o, unsigned kind, size_t k, const rvmreg_t *r)
{
	if (kind == 0) r_array_add((rarray_t*)o, r);
	else if (kind == 1) r_carray_add((rcarray_t*)o, r);
	else r_harray_add_s((rharray_t*)o, cat("n", k).c_str(), r);
}
static size_t count(robject_t *o, unsigned kind) { return kind == 0 ? r_array_length((rarray_t*)o) : kind == 1 ? r_carray_length((rcarray_t*)o) : r_harray_length((rharray_t*)o); }
static rvmreg_t *at(robject_t *o, unsigned kind, size_t k)
{
	return kind == 0 ? (rvmreg_t*)r_array_slot((rarray_t*)o, k) : kind == 1 ? (rvmreg_t*)r_carray_slot((rcarray_t*)o, k) : (rvmreg_t*)r_harray_slot((rharray_t*)o, k);
}
static void own(rvmreg_t *r, robject_t *o, unsigned kind, Src &s)
{
	memset(r, s.below(256), sizeof *r);
	if (kind == 0 || kind == 1) rvm_reg_setarray(r, o);
	else rvm_reg_setharray(r, o);
}

// ---- before a collector destroys containers, references to collected objects are taken out of them
static void collected(Src &s, Ctx &c)
{
	size_t n = 1 + s.below(c.thorough ? 12 : 6);
	rgc_t *gc = r_gc_create();
	Hold hold;
	struct Close { rgc_t *g; ~Close() { r_gc_destroy(g); } } close{gc};
	std::vector<robject_t*> o(n);
	std::vector<unsigned> kind(n);
	std::vector<bool> ongc(n);
	std::string d;
	for (size_t i = 0; i < n; i++) {
		kind[i] = s.below(4);
		if (kind[i] == 3) o[i] = (robject_t*)r_string_create_from_ansi("text");
		else o[i] = container(kind[i]);
		ongc[i] = s.chance(3, 4);
		if (ongc[i]) r_gc_add(gc, o[i]); else hold(o[i]);
		d += cat(i ? " " : "", i, ":", kind[i] == 0 ? "array" : kind[i] == 1 ? "chunked" : kind[i] == 2 ? "named" : "string", ongc[i] ? "" : "(kept)");
	}
	struct E { long ref; uint64_t v; };
	std::vector<std::vector<E>> m(n);
	for (size_t i = 0; i < n; i++) {
		if (kind[i] == 3) continue;
		size_t k = s.chance(1, 8) ? s.below(40) : s.below(5);
		for (size_t j = 0; j < k; j++) {
			rvmreg_t e;
			if (s.chance(2, 3)) {
				size_t q = s.below(n);
				if (kind[q] == 3) rvm_reg_setstring(&e, (rstring_t*)o[q]); else own(&e, o[q], kind[q], s);
				m[i].push_back({(long)q, 0});
				d += cat(" ", i, ">", q);
			} else {
				uint64_t v = s.bits();
				if (s.chance(1, 2)) rvm_reg_setunsigned(&e, v); else rvm_reg_setpointer(&e, (rpointer)v);
				m[i].push_back({-1, v});
			}
			put(o[i], kind[i], j, &e);
		}
	}
	size_t start = s.below(n);
	c.describe(cat("references ", d, ", taken out from ", start));
	rvm_reg_array_unref_gcdata(o[start]);
	std::vector<bool> seen(n);
	std::vector<size_t> todo{start};
	bool cycle = false;
	seen[start] = true;
	while (!todo.empty()) {
		size_t i = todo.back();
		todo.pop_back();
		for (auto &e : m[i]) if (e.ref >= 0 && ongc[e.ref]) { if (seen[e.ref]) cycle = true; else { seen[e.ref] = true; todo.push_back(e.ref); } }
	}
	for (size_t i = 0; i < n; i++) {
		if (kind[i] == 3) { c.check(((rstring_t*)o[i])->size == 4, "a string has changed"); continue; }
		c.check(count(o[i], kind[i]) == m[i].size(), cat("container ", i, " has ", count(o[i], kind[i]), " elements instead of ", m[i].size()));
		for (size_t j = 0; j < m[i].size(); j++) {
			rvmreg_t *r = at(o[i], kind[i], j);
			const E &e = m[i][j];
			if (e.ref < 0) c.check(RVM_REG_GETU(r) == e.v, cat("value ", j, " of container ", i, " has changed"));
			else if (seen[i] && ongc[e.ref]) c.check(!rvm_reg_tstflag(r, RVM_INFOBIT_ROBJECT) && RVM_REG_GETP(r) == NULL, cat("reference ", j, " of container ", i, " to a collected object is still there"));
			else c.check(rvm_reg_tstflag(r, RVM_INFOBIT_ROBJECT) && RVM_REG_GETP(r) == o[e.ref], cat("reference ", j, " of container ", i, " is gone"));
		}
	}
	// and they can be filled further
	for (size_t i = 0; i < n; i++) {
		if (kind[i] == 3) continue;
		size_t more = s.below(20), have = m[i].size();
		for (size_t k = 0; k < more; k++) { rvmreg_t e; rvm_reg_setunsigned(&e, k + 7); put(o[i], kind[i], have + k, &e); }
		for (size_t k = 0; k < more; k++) c.check(RVM_REG_GETU(at(o[i], kind[i], have + k)) == k + 7, cat("an element added to container ", i, " is lost"));
		c.check(count(o[i], kind[i]) == have + more, "elements added are not counted");
	}
	c.nontrivial = cycle;
	c.tag(cycle ? "collected, shared or circular" : "collected");
}

static void run(Src &s, Ctx &c)
{
	long before = r_debug_get_allocmem();
	if (s.chance(1, 8)) collected(s, c);
	else if (s.chance(1, 3)) regs(s, c); else scopes(s, c);
	c.check((long)r_debug_get_allocmem() == before, cat("memory not given back: ", (long)r_debug_get_allocmem() - before, " bytes"));
}

int main(int argc, char **argv)
{
	Config cfg;
	cfg.id = "V03";
	cfg.rule = "A case is a sequence of opening and closing scopes, adding variables and looking them up, compared with a model of nested scopes, one typed register (every type, extreme values, converted texts, globals, objects with their handlers), or a graph of containers of registers whose references to collected objects are taken out. "
		"Non-trivial: at least 2 lookups that hit with a shadowed name, or a register with a value above 1.";
	cfg.quick_cases = 200000;
	cfg.thorough_cases = 3000000;
	cfg.fn = run;
	cfg.assumptions = {"numbers in texts are plain decimal ones"};
	return run_main(argc, argv, cfg);
}
