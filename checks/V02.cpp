// libs: rvm rlib
// V02: the code generator: labels, data, relocation, and whole generated programs run on the machine.
#include "pbt.h"
#include <memory>
extern "C" {
#include "rlib/rmem.h"
#include "rvm/rvmcpu.h"
#include "rvm/rvmcodegen.h"
}
using namespace pbt;
typedef uint64_t U;

struct CG {
	rvm_codegen_t *g = rvm_codegen_create();
	~CG() { rvm_codegen_destroy(g); }
};

// ---------------------------------------------------------------- A: labels and relocations against a model
struct Label { bool named = false; std::string name; int kind = 2; long base = -1; U value = 0; };   // 0 offset, 1 pointer, 2 undefined
struct Rel { int type; size_t at; long label; };

static void maps(Src &s, Ctx &c)
{
	CG cg;
	rvm_codegen_t *g = cg.g;
	std::vector<Label> lab;
	std::vector<Rel> rel;
	std::vector<rvm_asmins_t> code;
	std::vector<unsigned long> src;
	std::map<long, std::string> data;      // label -> the bytes it names
	unsigned long cur = 0;
	std::string d;
	static const std::vector<std::string> base = {"a", "b", "main", "add2", "add", "add22", "x\x01y", "L0000001__if:", "very_long_label_name_for_a_function_in_some_module", ".text"};
	bool wide = s.chance(1, 300);          // now and then many labels, much code and much data
	if (wide) c.tag("wide");
	auto name = [&]() { if (wide && s.chance(5, 6)) return cat(s.chance(1, 2) ? "label" : "f", s.below(1500)); std::string n = s.pick(base); if (s.chance(1, 4)) n += (char)('0' + s.below(4)); return n; };
	auto find = [&](const std::string &n) -> long { for (size_t i = 0; i < lab.size(); i++) if (lab[i].named && lab[i].name == n) return i; return -1; };
	auto look = [&](const std::string &n) -> long { long i = find(n); if (i < 0) { Label l; l.named = true; l.name = n; lab.push_back(l); i = lab.size() - 1; } return i; };
	auto ins = [&]() { return rvm_asm(s.below(80), s.below(16), s.below(16), s.below(16), s.bits()); };
	auto note = [&](const rvm_asmins_t &i) { code.push_back(i); src.resize(std::max(src.size(), code.size())); src[code.size() - 1] = cur; };
	auto same = [&](const rvm_asmins_t &a, const rvm_asmins_t &b, bool withdata) {
		return a.opcode == b.opcode && a.op1 == b.op1 && a.op2 == b.op2 && a.op3 == b.op3 && a.da == b.da && a.swi == b.swi && (!withdata || (a.data.v.w == b.data.v.w && a.data.type == b.data.type));
	};
	// the label whose place decides about a label: itself, or what it is relative to
	std::function<long(long)> root = [&](long i) { return lab[i].kind == 0 ? root(lab[i].base) : i; };
	auto depends = [&](long i, long on) { for (;; i = lab[i].base) { if (i == on) return true; if (lab[i].kind != 0) return false; } };
	size_t n = wide ? 300 + s.below(2200) : 2 + s.below(c.thorough ? 120 : 50), relocated = 0, forward = 0;
	for (size_t step = 0; step <= n; step++) {
		unsigned op = step == n ? 9 : wide && s.chance(1, 2) ? s.weighted({2, 4, 0, 6, 1, 1, 2}) : s.weighted({6, 4, 3, 6, 2, 3, 4, 3, 1, 2, 2, 1, 1, 2, 2, 2, 1});
		switch (op) {
		case 0: {
			rvm_asmins_t i = ins();
			unsigned long idx = rvm_codegen_addins(g, i);
			c.check(idx == code.size(), cat("an instruction was put at ", idx, " instead of ", code.size()));
			note(i);
			break;
		}
		case 1: {      // a label at a given or at the current place
			std::string nm = name(), pad = nm + "zz";
			bool here = s.chance(1, 2);
			unsigned long off = here ? code.size() : s.below(code.size() + 3);
			long got;
			switch (s.below(2)) {
			case 0: got = here ? rvm_codegen_addlabel_default(g, pad.c_str(), nm.size()) : rvm_codegen_addlabel(g, pad.c_str(), nm.size(), off); break;
			default: got = here ? rvm_codegen_addlabel_default_s(g, nm.c_str()) : rvm_codegen_addlabel_s(g, nm.c_str(), off);
			}
			d += cat(" label ", quote(nm), "=", off);
			long cb = look(".code"), i = look(nm);
			lab[i].kind = 0; lab[i].base = cb; lab[i].value = off * sizeof(rvm_asmins_t);
			c.check(got == i, cat("label ", quote(nm), " got number ", got, " instead of ", i));
			data.erase(i);
			break;
		}
		case 2: {      // a label with its instruction
			std::string nm = name();
			rvm_asmins_t x = ins();
			long cb = look(".code"), i = look(nm);
			lab[i].kind = 0; lab[i].base = cb; lab[i].value = code.size() * sizeof(rvm_asmins_t);
			unsigned long idx = s.chance(1, 2) ? rvm_codegen_addlabelins_s(g, nm.c_str(), x) : rvm_codegen_addlabelins(g, (nm + "q").c_str(), nm.size(), x);
			d += cat(" labelled instruction ", quote(nm), "=", code.size());
			c.check(idx == code.size(), "a labelled instruction was put at another place");
			note(x);
			data.erase(i);
			break;
		}
		case 3: {      // an instruction that refers to a label by name, defined or not
			std::string nm = s.chance(1, 15) ? ".code" : s.chance(1, 15) ? ".data" : name();
			int type = s.below(5);
			bool known = find(nm) >= 0;
			long i = look(nm);
			if (type == RVM_RELOC_STRING && !data.count(i)) type = RVM_RELOC_DEFAULT;     // measures the string it refers to
			rvm_asmins_t x = ins();
			unsigned long idx = s.chance(1, 2) ? rvm_codegen_addrelocins_s(g, (rvm_reloctype_t)type, nm.c_str(), x) : rvm_codegen_addrelocins(g, (rvm_reloctype_t)type, (nm + "q").c_str(), nm.size(), x);
			d += cat(" ref ", type, " to ", quote(nm), " at ", code.size());
			c.check(idx == code.size(), "a referring instruction was put at another place");
			rel.push_back({type, code.size(), i});
			note(x);
			if (!known) forward++;
			break;
		}
		case 4: {      // by number
			if (lab.empty()) break;
			long i = s.below(lab.size());
			int type = s.below(5);
			if (type == RVM_RELOC_STRING && !data.count(i)) type = RVM_RELOC_BLOB;
			rvm_asmins_t x = ins();
			rvm_codegen_index_addrelocins(g, (rvm_reloctype_t)type, i, x);
			d += cat(" ref ", type, " to #", i, " at ", code.size());
			rel.push_back({type, code.size(), i});
			note(x);
			break;
		}
		case 5: {      // announced now, given a place later
			std::string nm = name();
			long i = find(nm);
			if (i >= 0 && s.chance(1, 2)) {
				bool here = s.chance(1, 2);
				unsigned long off = here ? code.size() : s.below(code.size() + 2);
				long got = here ? rvm_codegen_redefinelabel_default(g, i) : rvm_codegen_redefinelabel(g, i, off);
				d += cat(" redefine #", i, "=", off);
				long cb = look(".code");
				lab[i].kind = 0; lab[i].base = cb; lab[i].value = off * sizeof(rvm_asmins_t);
				c.check(got == i, "redefining a label gave another number");
				if (i == cb) throw Discard();
				data.erase(i);
			} else {
				i = look(nm);
				long got = s.chance(1, 2) ? rvm_codegen_invalid_addlabel_s(g, nm.c_str()) : rvm_codegen_invalid_addlabel(g, (nm + "-").c_str(), nm.size());
				d += cat(" announce ", quote(nm));
				c.check(got == i, cat("announcing ", quote(nm), " gave number ", got, " instead of ", i));
				lab[i].kind = 2; lab[i].value = 0;
				data.erase(i);
			}
			break;
		}
		case 6: {      // data
			std::string v;
			size_t len = s.below(wide && s.chance(1, 20) ? 9000 : s.chance(1, 10) ? 200 : 12);
			for (size_t k = 0; k < len; k++) v += (char)s.below(256);
			bool str = s.chance(1, 2), anon = s.chance(1, 3);
			if (str) { size_t z = v.find('\0'); if (z != std::string::npos) v.resize(z); }
			std::string nm = name(), nn = nm + "x";
			long got;
			std::vector<char> exact(v.begin(), v.end());
			if (str) got = anon ? rvm_codegen_addstring_s(g, NULL, v.c_str()) : s.chance(1, 2) ? rvm_codegen_addstring_s(g, nm.c_str(), v.c_str()) : rvm_codegen_addstring(g, nn.c_str(), nm.size(), v.c_str());
			else got = anon ? rvm_codegen_adddata_s(g, NULL, exact.data(), v.size()) : s.chance(1, 2) ? rvm_codegen_adddata_s(g, nm.c_str(), exact.data(), v.size()) : rvm_codegen_adddata(g, nn.c_str(), nm.size(), exact.data(), v.size());
			d += cat(" data ", anon ? "(no name)" : quote(nm), "=", quote(v));
			long db = look(".data"), i;
			if (anon) { lab.push_back(Label()); i = lab.size() - 1; } else i = look(nm);
			c.check(got == i, cat("data got label number ", got, " instead of ", i));
			lab[i].kind = 0; lab[i].base = db; lab[i].value = rvm_codemap_label(g->codemap, i)->value;      // the place is the generator's choice
			c.check(lab[i].value % sizeof(ruword) == 0, cat("data at offset ", lab[i].value, " is not aligned to words"));
			data[i] = v;
			break;
		}
		case 7: {      // lookups
			std::string nm = name();
			long i = find(nm);
			c.check(rvm_codemap_lookup(g->codemap, (nm + "q").c_str(), nm.size()) == i && rvm_codemap_lookup_s(g->codemap, nm.c_str()) == i, cat("looking up ", quote(nm), " does not give ", i));
			c.check(rvm_codegen_validlabel(g, i) == (i >= 0 && lab[i].kind != 2), cat("label ", quote(nm), " is valid when it should not be, or the other way round"));
			long bad = (long)lab.size() + s.below(3);
			c.check(!rvm_codemap_label(g->codemap, bad) && !rvm_codegen_validlabel(g, bad) && !rvm_codemap_label(g->codemap, -1), "there is a label that was never added");
			c.check(rvm_codemap_lastlabel(g->codemap) == (long)lab.size() - 1, "the last label is another one");
			break;
		}
		case 8: {      // start anew
			if (!s.chance(1, wide ? 60 : 3)) break;
			rvm_codegen_clear(g);
			lab.clear(); rel.clear(); code.clear(); data.clear(); src.clear();
			d += " clear";
			c.check(rvm_codegen_getcodesize(g) == 0, "cleared code is not empty");
			break;
		}
		case 9: case 10: {      // relocate, and compare everything
			rvm_codelabel_t *err = NULL;
			if (s.chance(3, 4)) for (auto &r : rel) if (lab[root(r.label)].kind == 2) {      // give the missing ones a place
				long i = root(r.label);
				if (lab[i].name == ".code" || lab[i].name == ".data") continue;
				unsigned long off = s.below(code.size() + 1);
				c.check(rvm_codegen_redefinelabel(g, i, off) == i, "redefining a label gave another number");
				d += cat(" define #", i, "=", off);
				lab[i].kind = 0; lab[i].base = look(".code"); lab[i].value = off * sizeof(rvm_asmins_t);
			}
			long cb = look(".code"); lab[cb].kind = 1;
			long db = look(".data"); lab[db].kind = 1;
			bool ok = true;
			std::set<long> bad;
			for (auto &r : rel) if (lab[root(r.label)].kind == 2) { ok = false; bad.insert(root(r.label)); }
			for (auto &r : rel) if (r.type == RVM_RELOC_STRING && lab[root(r.label)].kind != 2 && !data.count(r.label)) { r.type = RVM_RELOC_DEFAULT; rvm_relocmap_get(g->relocmap, &r - &rel[0])->type = RVM_RELOC_DEFAULT; }     // would measure what is no string
			int ret = rvm_codegen_relocate(g, &err);
			d += " relocate";
			c.check((ret == 0) == ok, cat("relocation returned ", ret, ok ? " with every label defined" : " with undefined labels"));
			if (!ok) {
				c.check(err != NULL, "relocation failed and names no label");
				bool named = false;
				for (long b : bad) if (rvm_codemap_label(g->codemap, b) == err) named = true;
				c.check(named, "relocation failed and names a label that is defined or not used");
				c.tag("undefined");
				break;
			}
			U cbase = (U)rvm_codegen_getcode(g, 0), dbase = (U)r_array_slot(g->staticdata, 0);
			for (auto &r : rel) {
				U v = 0;
				long q = r.label;
				for (; lab[q].kind == 0; q = lab[q].base) v += lab[q].value;
				v += q == cb ? cbase : q == db ? dbase : lab[q].value;
				if (q != r.label && lab[r.label].base != q) c.tag("relative to a label relative to another");
				if (q != cb && q != db) c.tag("pointer");
				U want = v;
				if (r.type == RVM_RELOC_JUMP) want = v - sizeof(rvm_asmins_t);
				if (r.type == RVM_RELOC_BRANCH) want = (U)((int64_t)(v - (cbase + r.at * sizeof(rvm_asmins_t))) / (int64_t)sizeof(rvm_asmins_t));
				const rvm_asmins_t *i = rvm_codegen_getcode(g, r.at);
				c.check(i->data.v.w == want, cat("the reference at ", r.at, " of type ", r.type, " was resolved to ", i->data.v.w, " instead of ", want));
				if (r.type == RVM_RELOC_STRING && data.count(r.label)) c.check(i->data.size == strlen(data[r.label].c_str()), cat("the string referred to at ", r.at, " has size ", i->data.size));
				code[r.at].data.v.w = want;
				relocated++;
			}
			for (auto &x : data) {
				const char *p = (const char*)dbase + lab[x.first].value;
				c.check(lab[x.first].value + x.second.size() < r_array_length(g->staticdata), "data lies outside the data of the program");
				c.check(std::string(p, x.second.size()) == x.second && p[x.second.size()] == 0, cat("the data of label ", x.first, " is ", quote(std::string(p, x.second.size() + 1)), " instead of ", quote(x.second)));
			}
			break;
		}
		case 14: {      // relative to any other label
			if (lab.empty()) break;
			std::string nm = name();
			long b = s.below(lab.size()), i = find(nm);
			if (i >= 0 && depends(b, i)) break;      // not relative to itself
			U off = s.below(1000);
			d += cat(" label ", quote(nm), "=#", b, "+", off);
			i = look(nm);
			lab[i].kind = 0; lab[i].base = b; lab[i].value = off;
			long got = s.chance(1, 2) ? rvm_codemap_addoffset_s(g->codemap, nm.c_str(), b, off) : rvm_codemap_addoffset(g->codemap, (nm + "q").c_str(), nm.size(), b, off);
			c.check(got == i, cat("relative label ", quote(nm), " got number ", got, " instead of ", i));
			data.erase(i);
			break;
		}
		case 15: {      // at an address, or of no known place
			std::string nm = name();
			long i = find(nm), got;
			U v = s.bits() >> 1;
			if (i >= 0 && s.chance(1, 2)) {
				got = rvm_codegen_redefinepointer(g, i, (rpointer)v);
				d += cat(" #", i, "=@", v);
			} else if (s.chance(1, 3)) {
				bool known = i >= 0;
				i = look(nm);
				got = s.chance(1, 2) ? rvm_codemap_lookupadd_s(g->codemap, nm.c_str()) : rvm_codemap_lookupadd(g->codemap, (nm + "q").c_str(), nm.size());
				c.check(got == i, cat("looking up or adding ", quote(nm), " gave number ", got, " instead of ", i));
				c.check(known || !rvm_codemap_validindex(g->codemap, got), "a label looked up has a place already");
				break;
			} else if (s.chance(1, 3)) {
				i = look(nm);
				got = s.chance(1, 2) ? rvm_codemap_invalid_add_s(g->codemap, nm.c_str()) : rvm_codemap_invalid_add(g->codemap, (nm + "q").c_str(), nm.size());
				d += cat(" announce ", quote(nm));
				c.check(got == i, cat("announcing ", quote(nm), " gave number ", got, " instead of ", i));
				lab[i].kind = 2; lab[i].value = 0;
				data.erase(i);
				break;
			} else {
				i = look(nm);
				got = s.chance(1, 2) ? rvm_codemap_addpointer_s(g->codemap, nm.c_str(), (rpointer)v) : rvm_codemap_addpointer(g->codemap, (nm + "q").c_str(), nm.size(), (rpointer)v);
				d += cat(" pointer ", quote(nm), "=@", v);
			}
			c.check(got == i, cat("a pointer got number ", got, " instead of ", i));
			lab[i].kind = 1; lab[i].value = v;
			data.erase(i);
			c.check(rvm_codegen_redefinepointer(g, lab.size() + s.below(3), (rpointer)v) < 0, "a label that does not exist was given an address");
			if (find(".code") >= 0) c.check(rvm_codegen_redefinelabel(g, lab.size() + 2, 1) < 0, "a label that does not exist was given a place");
			break;
		}
		case 16: {      // cut off what nothing refers from
			size_t low = 0;
			for (auto &r : rel) low = std::max(low, r.at + 1);
			if (code.size() <= low) break;
			size_t to = low + s.below(code.size() - low + 1);
			rvm_codegen_setcodesize(g, to);
			code.resize(to);
			d += cat(" cut to ", to);
			break;
		}
		case 11: {
			if (code.empty()) break;
			size_t at = s.below(code.size());
			bool isrel = false;
			for (auto &r : rel) if (r.at == at) isrel = true;
			if (isrel) break;
			rvm_asmins_t x = ins();
			rvm_codegen_replaceins(g, at, x);
			code[at] = x;
			break;
		}
		case 12: {
			cur = s.below(1000);
			rvm_codegen_setsource(g, cur);
			break;
		}
		case 13: {
			std::string nm = s.pick(std::vector<std::string>{"if", "while", "end"});
			long num = s.below(4);
			char b[128]; snprintf(b, sizeof b, "L%07ld__%s:", num, nm.c_str());
			bool inv = s.chance(1, 3);
			long got = inv ? rvm_codegen_invalid_add_numlabel_s(g, nm.c_str(), num) : rvm_codegen_add_numlabel_s(g, nm.c_str(), num);
			long cb = inv ? 0 : look(".code"), i = look(b);
			d += cat(inv ? " announce " : " label ", b, "=", code.size());
			c.check(got == i, cat("numbered label ", b, " got number ", got, " instead of ", i));
			lab[i].kind = inv ? 2 : 0; lab[i].base = cb; lab[i].value = inv ? 0 : code.size() * sizeof(rvm_asmins_t);
			data.erase(i);
			break;
		}
		}
		if (d.size() < 6000) c.describe(d);
	}
	c.check(rvm_codegen_getcodesize(g) == code.size(), "the code has another size");
	for (size_t k = 0; k < code.size(); k++) {
		bool isrel = false;
		for (auto &r : rel) if (r.at == k) isrel = true;
		c.check(same(*rvm_codegen_getcode(g, k), code[k], !isrel), cat("instruction ", k, " is not the one that was added"));
		c.check(rvm_codegen_getsource(g, k) == (long)src[k], cat("instruction ", k, " is attributed to source ", rvm_codegen_getsource(g, k), " instead of ", src[k]));
	}
	for (size_t i = 0; i < lab.size(); i++) {
		rvm_codelabel_t *l = rvm_codemap_label(g->codemap, i);
		c.check(l != NULL, "a label is gone");
		c.check(lab[i].named ? l->name && std::string(l->name->str, l->name->size) == lab[i].name : !l->name, cat("label ", i, " has another name"));
	}
	c.tag("maps");
	if (relocated >= 3) { c.tag("relocated"); c.nontrivial = true; }
	if (forward && relocated) c.tag("forward");
}

// ---------------------------------------------------------------- B: programs in a small language
struct Node { int op = 0; U val = 0; std::vector<std::shared_ptr<Node>> a; };   // op: 0 const 1 arg 2 binary(val) 3 if(val cmp) 4 call(val) 5 byte of data
typedef std::shared_ptr<Node> N;
struct Func { std::string name; unsigned args; N body; bool variadic = false; };
struct Prog { std::vector<Func> f; std::vector<std::string> data; };

static const std::vector<unsigned> BIN = {RVM_ADD, RVM_SUB, RVM_MUL, RVM_XOR, RVM_AND, RVM_ORR, RVM_ADDS, RVM_SUBS};
static const char *BINN[] = {"+", "-", "*", "^", "&", "|", "+", "-"};
static const std::vector<unsigned> CMPB = {RVM_BEQ, RVM_BNEQ, RVM_BLEQ, RVM_BGEQ, RVM_BLES, RVM_BGRE};
static const char *CMPN[] = {"==", "!=", "<=", ">=", "<", ">"};

static N mk(int op, U v, std::vector<N> a = {}) { auto n = std::make_shared<Node>(); n->op = op; n->val = v; n->a = a; return n; }

static N genx(Src &s, const Prog &p, size_t fi, unsigned args, unsigned depth, int &budget)
{
	if (depth == 0 || --budget < 0 || s.chance(1, 4)) {
		if (args && s.chance(1, 2)) return mk(1, s.below(args));
		if (!p.data.empty() && s.chance(1, 4)) { size_t k = s.below(p.data.size()); if (!p.data[k].empty()) return mk(5, k, {mk(0, s.below(p.data[k].size()))}); }
		return mk(0, s.chance(1, 6) ? s.bits() : s.below(20));
	}
	switch (s.weighted({4, 3, fi + 1 < p.f.size() ? 4u : 0u})) {
	default: return mk(2, s.below(BIN.size()), {genx(s, p, fi, args, depth - 1, budget), genx(s, p, fi, args, depth - 1, budget)});
	case 1: return mk(3, s.below(CMPB.size()), {genx(s, p, fi, args, depth - 1, budget), genx(s, p, fi, args, depth - 1, budget), genx(s, p, fi, args, depth - 1, budget), genx(s, p, fi, args, depth - 1, budget)});
	case 2: {
		size_t to = fi + 1 + s.below(p.f.size() - fi - 1);
		std::vector<N> a;
		unsigned n = p.f[to].variadic ? s.below(6) : p.f[to].args;
		for (unsigned k = 0; k < n; k++) a.push_back(genx(s, p, fi, args, depth - 1, budget));
		return mk(4, to, a);
	}
	}
}

static long steps;
static U eval(const Prog &p, const N &n, const std::vector<U> &args)
{
	if (++steps > 4000) throw Discard();
	switch (n->op) {
	case 0: return n->val;
	case 1: return args[n->val];
	case 2: {
		U a = eval(p, n->a[0], args), b = eval(p, n->a[1], args);
		switch (n->val) { case 0: case 6: return a + b; case 1: case 7: return a - b; case 2: return a * b; case 3: return a ^ b; case 4: return a & b; default: return a | b; }
	}
	case 3: {
		U a = eval(p, n->a[0], args), b = eval(p, n->a[1], args);
		int64_t df = (int64_t)(a - b);                            // the sign of the difference decides
		bool t[] = {df == 0, df != 0, df <= 0, df >= 0, df < 0, df > 0};
		return t[n->val] ? eval(p, n->a[2], args) : eval(p, n->a[3], args);
	}
	case 4: {
		std::vector<U> v;
		for (auto &x : n->a) v.push_back(eval(p, x, args));
		const Func &f = p.f[n->val];
		if (f.variadic) { U r = 0; for (U x : v) r += x; return r * 3 + v.size(); }
		return eval(p, f.body, v);
	}
	default: return (uint8_t)p.data[n->val][n->a[0]->val];
	}
}
static std::string show(const Prog &p, const N &n)
{
	switch (n->op) {
	case 0: return cat((int64_t)n->val);
	case 1: return cat("a", n->val);
	case 2: return "(" + show(p, n->a[0]) + BINN[n->val] + show(p, n->a[1]) + ")";
	case 3: return "(" + show(p, n->a[0]) + CMPN[n->val] + show(p, n->a[1]) + "?" + show(p, n->a[2]) + ":" + show(p, n->a[3]) + ")";
	case 4: { std::string r = p.f[n->val].name + "("; for (size_t k = 0; k < n->a.size(); k++) r += (k ? "," : "") + show(p, n->a[k]); return r + ")"; }
	default: return cat("data", n->val, "[", n->a[0]->val, "]");
	}
}

struct Emit {
	rvm_codegen_t *g; const Prog &p; Src &s; long next = 0;
	void ins(rvm_asmins_t i) { rvm_codegen_addins(g, i); }
	void push() { ins(rvm_asm(RVM_PUSH, R0, XX, XX, 0)); }
	void branch(unsigned op, const std::string &label) {
		// relative or absolute
		if (s.chance(1, 2)) rvm_codegen_addrelocins_s(g, RVM_RELOC_BRANCH, label.c_str(), rvm_asm(op, DA, XX, XX, 0));
		else {
			static const std::map<unsigned, unsigned> x = {{RVM_B, RVM_BX}, {RVM_BL, RVM_BXL}, {RVM_BEQ, RVM_BXEQ}, {RVM_BNEQ, RVM_BXNEQ}, {RVM_BLEQ, RVM_BXLEQ}, {RVM_BGEQ, RVM_BXGEQ}, {RVM_BLES, RVM_BXLES}, {RVM_BGRE, RVM_BXGRE}};
			rvm_codegen_addrelocins_s(g, RVM_RELOC_JUMP, label.c_str(), rvm_asm(x.at(op), DA, XX, XX, 0));
		}
	}
	void call(const std::string &fn) {
		if (s.chance(1, 4)) rvm_codegen_addrelocins_s(g, RVM_RELOC_JUMP, fn.c_str(), rvm_asmf(RVM_CALL, DA, XX, XX, 0));
		else branch(RVM_BL, fn);
	}
	std::string label(const char *what, long n) { char b[128]; snprintf(b, sizeof b, "L%07ld__%s:", n, what); return b; }
	void gen(const N &n) {
		switch (n->op) {
		case 0: ins(rvm_asm(RVM_MOV, R0, DA, XX, n->val)); break;
		case 1: ins(s.chance(1, 2) ? rvm_asm(RVM_LDS, R0, FP, DA, n->val + 1) : rvm_asm(RVM_LDS, R0, DA, FP, n->val + 1)); break;
		case 2:
			gen(n->a[0]); push(); gen(n->a[1]);
			ins(rvm_asm(RVM_POP, R1, XX, XX, 0));
			ins(rvm_asm(BIN[n->val], R0, R1, R0, 0));
			break;
		case 3: {
			long k = next++;
			gen(n->a[0]); push(); gen(n->a[1]);
			ins(rvm_asm(RVM_POP, R1, XX, XX, 0));
			ins(rvm_asm(RVM_CMP, R1, R0, XX, 0));
			branch(CMPB[n->val], label("then", k));
			gen(n->a[3]);
			branch(RVM_B, label("end", k));
			rvm_codegen_add_numlabel_s(g, "then", k);
			gen(n->a[2]);
			rvm_codegen_add_numlabel_s(g, "end", k);
			break;
		}
		case 4: {
			const Func &f = p.f[n->val];
			for (int k = 0; k < RVM_CODEGEN_FUNCINITOFFSET; k++) push();
			for (auto &x : n->a) { gen(x); push(); }
			ins(rvm_asm(RVM_SUB, SP, SP, DA, n->a.size() + RVM_CODEGEN_FUNCINITOFFSET));
			if (f.variadic) ins(rvm_asm(RVM_MOV, R0, DA, XX, n->a.size()));
			call(f.name);
			break;
		}
		case 5:
			rvm_codegen_addrelocins_s(g, s.chance(1, 2) ? RVM_RELOC_STRING : RVM_RELOC_BLOB, cat("data", n->val).c_str(), rvm_asm(RVM_MOV, R1, DA, XX, 0));
			ins(rvm_asm(RVM_ADD, R1, R1, DA, n->a[0]->val));
			ins(rvm_asm(RVM_LDRB, R0, R1, XX, 0));
			break;
		}
	}
	void func(const Func &f) {
		if (f.variadic) {
			if (s.chance(1, 2)) rvm_codegen_vargs_funcstart_s(g, f.name.c_str()); else rvm_codegen_vargs_funcstart(g, (f.name + "zz").c_str(), f.name.size());
			long k = next++;
			ins(rvm_asm(RVM_MOV, R2, R0, XX, 0));
			ins(rvm_asm(RVM_MOV, R3, R0, XX, 0));
			ins(rvm_asm(RVM_MOV, R4, DA, XX, 0));
			rvm_codegen_add_numlabel_s(g, "again", k);
			ins(rvm_asm(RVM_CMP, R2, DA, XX, 0));
			branch(RVM_BEQ, label("done", k));
			ins(rvm_asm(RVM_LDS, R1, FP, R2, 0));
			ins(rvm_asm(RVM_ADD, R4, R4, R1, 0));
			ins(rvm_asm(RVM_DEC, R2, XX, XX, 0));
			branch(RVM_B, label("again", k));
			rvm_codegen_add_numlabel_s(g, "done", k);
			ins(rvm_asm(RVM_MUL, R0, R4, DA, 3));
			ins(rvm_asm(RVM_ADD, R0, R0, R3, 0));
		} else {
			if (s.chance(1, 2)) rvm_codegen_funcstart_s(g, f.name.c_str(), f.args); else rvm_codegen_funcstart(g, (f.name + "zz").c_str(), f.name.size(), f.args);
			gen(f.body);
		}
		rvm_codegen_funcend(g);
	}
};

static void programs(Src &s, Ctx &c)
{
	Prog p;
	bool wide = s.chance(1, 300);          // now and then many functions, long data, long code
	if (wide) c.tag("wide");
	size_t nd = wide ? s.below(150) : s.below(3);
	for (size_t k = 0; k < nd; k++) { std::string v; size_t n = s.below(wide && s.chance(1, 20) ? 5000 : 20); for (size_t i = 0; i < n; i++) v += (char)(1 + s.below(255)); p.data.push_back(v); }
	size_t nf = wide ? 50 + s.below(500) : 1 + s.below(c.thorough ? 7 : 4);
	for (size_t k = 0; k < nf; k++) { Func f; f.name = cat("f", k); f.args = k ? s.below(5) : 0; f.variadic = k && s.chance(1, 5); p.f.push_back(f); }
	int budget = c.thorough ? 150 : 60;
	for (size_t k = 0; k < nf; k++) { if (wide && (k == 0 || s.chance(1, 4))) budget = k ? 10 : 40; if (!p.f[k].variadic) p.f[k].body = genx(s, p, k, p.f[k].args, 5, budget); }
	// a function that calls itself with a smaller argument
	bool rec = s.chance(1, 3);
	U depth = s.below(12);
	if (rec) {
		Func r; r.name = "rec"; r.args = 2;
		size_t id = p.f.size();
		r.body = mk(3, 0, {mk(1, 0), mk(0, 0), mk(1, 1), mk(2, s.below(BIN.size()), {mk(1, s.below(2)), mk(4, id, {mk(2, 1, {mk(1, 0), mk(0, 1)}), mk(2, s.below(BIN.size()), {mk(1, 1), mk(1, 0)})})})});
		p.f.push_back(r);
		p.f[0].body = mk(2, s.below(BIN.size()), {p.f[0].body, mk(4, id, {mk(0, depth), mk(0, s.below(100))})});
	}
	std::string d;
	for (auto &f : p.f) d += f.variadic ? f.name + "(...)=3*sum+count; " : f.name + "/" + cat(f.args) + "=" + show(p, f.body) + "; ";
	for (size_t k = 0; k < nd; k++) d += cat("data", k, "=", quote(p.data[k]), "; ");
	if (d.size() > (wide ? 200000 : 8000)) throw Discard();
	c.describe(d.substr(0, 8000));
	steps = 0;
	U want = eval(p, p.f[0].body, {});

	CG cg;
	Emit e{cg.g, p, s};
	std::vector<size_t> order(p.f.size());
	for (size_t k = 0; k < order.size(); k++) order[k] = k;
	for (size_t k = order.size(); k > 1; k--) if (s.chance(1, 2)) std::swap(order[k - 1], order[s.below(k)]);
	// entry: the program may start anywhere
	size_t at = s.below(order.size() + 1);
	unsigned long entry = 0;
	bool datafirst = s.chance(1, 2);
	auto adddata = [&]() { for (size_t k = 0; k < nd; k++) rvm_codegen_addstring_s(cg.g, cat("data", k).c_str(), p.data[k].c_str()); };
	if (datafirst) adddata();
	for (size_t k = 0; k <= order.size(); k++) {
		if (k == at) {
			entry = rvm_codegen_getcodesize(cg.g);
			e.call("f0");
			e.ins(rvm_asm(RVM_EXT, XX, XX, XX, 0));
		}
		if (k < order.size()) e.func(p.f[order[k]]);
	}
	rvm_codelabel_t *err = NULL;
	if (!datafirst) {
		if (nd && s.chance(1, 2)) {
			bool refs = false;
			std::function<void(const N&)> walk = [&](const N &x) { if (!x) return; if (x->op == 5) refs = true; for (auto &k : x->a) walk(k); };
			for (auto &f : p.f) walk(f.body);
			int r = rvm_codegen_relocate(cg.g, &err);
			c.check((r != 0) == refs, "relocation with undefined data succeeded, or failed without any");
		}
		adddata();
	}
	c.check(rvm_codegen_relocate(cg.g, &err) == 0, "relocation of a complete program failed");
	if (s.chance(1, 4)) c.check(rvm_codegen_relocate(cg.g, &err) == 0, "relocating again failed");
	rvmcpu_t *cpu = rvm_cpu_create_default();
	struct Close { rvmcpu_t *c; ~Close() { rvm_cpu_destroy(c); } } close{cpu};
	int ret = rvm_cpu_exec(cpu, rvm_codegen_getcode(cg.g, 0), entry);
	c.check(ret == 0, cat("the program failed with error ", cpu->error));
	c.check(RVM_CPUREG_GETU(cpu, R0) == want, cat("the program gives ", (int64_t)RVM_CPUREG_GETU(cpu, R0), " instead of ", (int64_t)want));
	c.check(RVM_CPUREG_GETU(cpu, SP) == 0 && RVM_CPUREG_GETU(cpu, FP) == 0, "the program does not leave the stack as it was");
	// the same code again, on the same machine
	ret = rvm_cpu_exec(cpu, rvm_codegen_getcode(cg.g, 0), entry);
	c.check(ret == 0 && RVM_CPUREG_GETU(cpu, R0) == want, "the second run gives something else");
	c.tag("programs");
	if (steps >= 8) c.nontrivial = true;
	if (rec) c.tag("recursion");
	if (d.find("?") != std::string::npos) c.tag("conditions");
	if (d.find("[") != std::string::npos) c.tag("data");
}

static void run(Src &s, Ctx &c)
{
	long before = r_debug_get_allocmem();
	if (s.chance(1, 2)) programs(s, c); else maps(s, c);
	c.check((long)r_debug_get_allocmem() == before, cat("memory not given back: ", (long)r_debug_get_allocmem() - before, " bytes"));
}

int main(int argc, char **argv)
{
	Config cfg;
	cfg.id = "V02";
	cfg.rule = "A case is either a sequence of code generator calls (instructions, labels placed, announced, redefined, data, references by name and number, clearing, repeated relocation) compared with a model of labels and references, "
		"or a generated program of functions (expressions, conditions, calls before and after definition, variadic and recursive functions, static data) emitted in any order and run, compared with direct evaluation. "
		"Non-trivial: at least 3 references resolved, or at least 8 evaluation steps.";
	cfg.quick_cases = 120000;
	cfg.thorough_cases = 1500000;
	cfg.fn = run;
	cfg.assumptions = {"labels without a name and the empty name are not used together"};
	return run_main(argc, argv, cfg);
}
