// libs: rlib
// objects: rexjsonpp rexjsonrpc
#include "pbt.h"
#include "jcpp.h"
#include <array>
#include <tuple>
#include <deque>
#include "rexjsonrpc/property.h"
using namespace pbt;
using jref::V;
using rexjson::property;

enum Colour : int { Red, Green, Blue };
enum Kind { I8, U16, I32, U32, I64, Enum, Boolean, Float, Double, String, RInt, RDouble, RString, NKINDS };
// one variable bound to the tree, and what the model thinks of it
struct Leaf {
	Kind k;
	int access;
	int8_t i8 = 0; uint16_t u16 = 0; int32_t i32 = 0; uint32_t u32 = 0; int64_t i64 = 0; Colour e = Red; bool b = false; float f = 0; double d = 0; std::string str;
	std::vector<int> ri; std::vector<double> rd; std::vector<std::string> rs;
	V model;
	int modified = 0, expect_modified = 0, checked = 0, expect_checked = 0;
	bool refuse = false;                  // the check hook says no
	bool hooks;
};
struct Node {
	enum T { None, L, M, A } t = None;
	Leaf *leaf = nullptr;
	std::map<std::string, Node> m;
	std::vector<Node> a;
};
static V mk(jref::Type t) { V v; v.t = t; return v; }
static V num(int64_t i) { V v = mk(jref::Int); v.i = i; return v; }
static V real(double d) { V v = mk(jref::Real); v.d = d; return v; }

struct Refused : std::runtime_error { Refused() : std::runtime_error("refused by the check") {} };

static property bind(Leaf &l)
{
	auto acc = (rexjson::property_access)l.access;
	std::function<void(const rexjson::value &)> check = [&l](const rexjson::value &) { l.checked++; if (l.refuse) throw Refused(); };
	std::function<void(void *)> modified = [](void *ctx) { ((Leaf *)ctx)->modified++; };
	if (!l.hooks) { check = {}; modified = {}; }
	bool dflt = !l.hooks && l.access == rexjson::readwrite;
#define BIND(x) return dflt ? property(x) : property(x, acc, check, modified, &l)
#define BINDR(x) return dflt ? property(x.data(), x.size()) : property(x.data(), x.size(), acc, check, modified, &l)
	switch (l.k) {
	case I8: BIND(&l.i8);
	case U16: BIND(&l.u16);
	case I32: BIND(&l.i32);
	case U32: BIND(&l.u32);
	case I64: BIND(&l.i64);
	case Enum: BIND(&l.e);
	case Boolean: BIND(&l.b);
	case Float: BIND(&l.f);
	case Double: BIND(&l.d);
	case String: BIND(&l.str);
	case RInt: BINDR(l.ri);
	case RDouble: BINDR(l.rd);
	default: BINDR(l.rs);
	}
}
// what the variable holds
static V held(const Leaf &l)
{
	V v;
	auto s = [](const std::string &x) { V v = mk(jref::Str); v.s = x; return v; };
	switch (l.k) {
	case I8: return num(l.i8);
	case U16: return num(l.u16);
	case I32: return num(l.i32);
	case U32: return num(l.u32);
	case I64: return num(l.i64);
	case Enum: return num(l.e);
	case Boolean: v = mk(jref::Bool); v.b = l.b; return v;
	case Float: return real(l.f);
	case Double: return real(l.d);
	case String: return s(l.str);
	case RInt: v = mk(jref::Arr); for (int x : l.ri) v.a.push_back(num(x)); return v;
	case RDouble: v = mk(jref::Arr); for (double x : l.rd) v.a.push_back(real(x)); return v;
	default: v = mk(jref::Arr); for (auto &x : l.rs) v.a.push_back(s(x)); return v;
	}
}
static void gen_leaf(Src &s, Leaf &l)
{
	l.k = (Kind)s.below(NKINDS);
	l.access = s.chance(3, 4) ? 3 : 1 + s.below(2);
	l.hooks = s.chance(2, 3);
	l.i8 = s.range(-128, 127); l.u16 = s.below(65536); l.i32 = jref::gen_int(s); l.u32 = jref::gen_int(s); l.i64 = jref::gen_int(s); l.e = (Colour)s.below(3); l.b = s.chance(1, 2);
	l.f = s.range(-99, 99) / 4.0; l.d = s.range(-9999, 9999) / 16.0; l.str = jref::gen_str(s);
	int n = s.below(4);
	for (int i = 0; i < n; i++) { l.ri.push_back(s.range(-9, 9)); l.rd.push_back(s.range(-9, 9) / 2.0); l.rs.push_back(jref::gen_str(s)); }
	if (l.ri.empty()) { l.ri.reserve(1); l.rd.reserve(1); l.rs.reserve(1); }
	l.model = held(l);
}
// does the variable take the value, and as what
static bool takes(Kind k, const V &v, V &out)
{
	switch (k) {
	case I8: case U16: case I32: case U32: case I64:
		if (v.t == jref::Int) out = num(v.i); else if (v.t == jref::Real) out = num((int64_t)v.d); else if (v.t == jref::Bool) out = num(v.b); else return false;
		return true;
	case Enum: out = v; return v.t == jref::Int;
	case Boolean: out = v; return v.t == jref::Bool;
	case Float: case Double:
		if (v.t != jref::Int && v.t != jref::Real) return false;
		out = real(v.t == jref::Int ? (double)v.i : v.d);
		if (k == Float) out.d = (float)out.d;
		return true;
	case String: out = v; return v.t == jref::Str;
	default: return false;
	}
}
static V candidate(Src &s, const Leaf &l, bool element)
{
	V v;
	Kind k = !element ? l.k : l.k == RInt ? I32 : l.k == RDouble ? Double : String;
	if (s.chance(1, 8)) return jref::gen(s, 1);
	switch (k) {
	case I8: case U16: case U32: case I32: case I64:
		switch (s.below(5)) {
		case 0: return real(s.range(0, 1000) / 8.0);
		case 1: v = mk(jref::Bool); v.b = s.chance(1, 2); return v;
		default: return num(k == I64 ? jref::gen_int(s) : k == I8 ? s.range(-128, 127) : k == U16 ? s.below(65536) : k == I32 ? (int32_t)s.bits() : (int64_t)(uint32_t)s.bits());
		}
	case Enum: return num(s.below(3));
	case Boolean: v = mk(jref::Bool); v.b = s.chance(1, 2); return v;
	case Float: case Double: return s.chance(1, 3) ? num(s.range(-99, 99)) : real(s.range(-9999, 9999) / 8.0);
	case String: v = mk(jref::Str); v.s = jref::gen_str(s); return v;
	default: v = mk(jref::Arr); for (int n = s.below(5); n > 0; n--) v.a.push_back(candidate(s, l, true)); return v;
	}
}
static bool in_range(Kind k, const V &v)           // conversions that lose the number are not judged
{
	int64_t i = v.t == jref::Int ? v.i : 0;
	if (v.t == jref::Real) { if (!(fabs(v.d) < 9e18)) return k == Float || k == Double; i = (int64_t)v.d; }
	switch (k) {
	case I8: return i >= -128 && i <= 127;
	case U16: return i >= 0 && i < 65536 && !(v.t == jref::Real && v.d < 0);
	case I32: case Enum: return i >= INT32_MIN && i <= INT32_MAX;
	case U32: return i >= 0 && i <= UINT32_MAX && !(v.t == jref::Real && v.d < 0);
	default: return true;
	}
}
static Node gen_tree(Src &s, std::deque<Leaf> &leaves, int depth, property &p)
{
	Node n;
	int t = depth == 0 ? 0 : s.weighted({2, 3, 2});
	if (t == 0) {
		leaves.emplace_back();
		gen_leaf(s, leaves.back());
		n.t = Node::L;
		n.leaf = &leaves.back();
		p = bind(leaves.back());
	} else if (t == 1) {
		n.t = Node::M;
		std::vector<std::pair<std::string, property>> kids;
		for (int k = s.below(4); k > 0; k--) {
			static const std::vector<std::string> N = {"a", "b", "ab", "name", "0", "1", "a b", "\xc3\xa9"};
			std::string key = s.pick(N);
			if (n.m.count(key)) continue;
			property q;
			n.m[key] = gen_tree(s, leaves, depth - 1, q);
			kids.emplace_back(key, q);
		}
		switch (kids.size()) {
		case 0: p = rexjson::property_map(); break;
		case 1: p = rexjson::property_map({{kids[0].first, kids[0].second}}); break;
		case 2: p = rexjson::property_map({{kids[0].first, kids[0].second}, {kids[1].first, kids[1].second}}); break;
		default: p = rexjson::property_map({{kids[0].first, kids[0].second}, {kids[1].first, kids[1].second}, {kids[2].first, kids[2].second}});
		}
	} else {
		n.t = Node::A;
		p = rexjson::property_array();
		for (int k = s.below(4); k > 0; k--) {
			property q;
			n.a.push_back(gen_tree(s, leaves, depth - 1, q));
			if (s.chance(1, 2)) p.push_back(q);
			else p.push_back(std::move(q));
		}
	}
	return n;
}
static void paths(Node &n, const std::string &path, std::vector<std::pair<std::string, Node *>> &out)
{
	out.push_back({path, &n});
	for (auto &x : n.m) paths(x.second, path + "." + x.first, out);
	for (size_t i = 0; i < n.a.size(); i++) paths(n.a[i], path + cat("[", i, "]"), out);
}
static size_t size(const Node &n) { size_t r = 1; for (auto &x : n.m) r += size(x.second); for (auto &x : n.a) r += size(x); return r; }
// the node a path leads to; nullptr: none; judged=false: a spelling the path language does not settle
static Node *walk(Node *n, std::string p, bool &judged)
{
	judged = true;
	bool first = true;
	while (!p.empty()) {
		if (n->t == Node::M) {
			if (p[0] == '.') p.erase(0, 1);
			else if (!first) { judged = false; return nullptr; }
			size_t e = p.find_first_of(".[");
			std::string name = p.substr(0, e);
			if (e == 0 || name.empty()) return nullptr;
			auto it = n->m.find(name);
			if (it == n->m.end()) return nullptr;
			n = &it->second;
			p.erase(0, name.size());
		} else if (n->t == Node::A) {
			if (p[0] != '[') return nullptr;
			size_t e = p.find(']');
			if (e == p.npos || e == 1) return nullptr;
			std::string d = p.substr(1, e - 1);
			if (d.find_first_not_of("0123456789") != d.npos) return nullptr;
			if (d.size() > 1 && d[0] == '0') { judged = false; return nullptr; }
			if (d.size() > 6 || (size_t)atol(d.c_str()) >= n->a.size()) return nullptr;
			n = &n->a[atol(d.c_str())];
			p.erase(0, e + 1);
		} else return nullptr;
		first = false;
	}
	if (n->t != Node::L) judged = n->t == Node::None;             // a path that ends at a container: leads nowhere
	return n->t == Node::L ? n : nullptr;
}
template <class F> static std::string error(F f)
{
	try { f(); } catch (std::exception &e) { return cat("!", e.what()); }
	return "";
}

static void one(Src &s, Ctx &c)
{
	std::deque<Leaf> leaves;
	const int N = 2;
	property p[N];
	Node n[N];
	for (int i = 0; i < N; i++) if (i == 0 || s.chance(2, 3)) n[i] = gen_tree(s, leaves, 1 + s.below(3), p[i]);
	for (int i = 0; i < N; i++) {
		std::vector<std::pair<std::string, Node *>> all;
		paths(n[i], "", all);
		c.append(cat("p", i, ":"));
		for (auto &x : all) c.append(cat(" ", x.first, x.second->t == Node::L ? cat("=", jref::show(x.second->leaf->model), x.second->leaf->access == 3 ? "" : x.second->leaf->access == 1 ? "(r)" : "(w)") : x.second->t == Node::M ? "{}" : x.second->t == Node::A ? "[]" : "nothing"));
		c.append("\n");
	}
	int steps = 2 + s.below(c.thorough ? 30 : 14);
	for (int step = 0; step < steps; step++) {
		int i = s.below(N);
		std::vector<std::pair<std::string, Node *>> all;
		paths(n[i], "", all);
		auto at = all[s.below(all.size())];
		std::string path = at.first;
		auto go = [&](property &root, const std::string &pp) -> property * {        // by name and index
			property *r = &root;
			std::string q = pp;
			while (!q.empty()) {
				size_t e = q.find_first_of(".[", 1);
				std::string seg = q.substr(0, e);
				if (seg[0] == '.') { r = &(*r)[seg.substr(1)]; }
				else { size_t x = atol(seg.c_str() + 1); r = s.chance(1, 2) ? &(*r)[x] : &(*r)[std::to_string(x)]; }
				q.erase(0, seg.size());
			}
			return r;
		};
		property *pp = go(p[i], path);
		Node *nd = at.second;
		switch (s.weighted({6, 4, 4, 2, 3, 2, 2})) {
		case 0: {                              // set
			if (nd->t != Node::L) {
				c.append(cat("set p", i, path, "\n"));
				c.check(!error([&] { pp->set_prop(jcpp::make(num(1))); }).empty() && !error([&] { pp->get_prop(); }).empty() && !error([&] { pp->access(); }).empty(), "a container or nothing was used as a value");
				break;
			}
			Leaf &l = *nd->leaf;
			V v = candidate(s, l, false), out;
			bool range = l.k >= RInt, good, judged = true;
			if (range) {
				good = v.t == jref::Arr && v.a.size() <= l.model.a.size();
				out = l.model;
				if (good) for (size_t k = 0; k < v.a.size(); k++) {
					Kind ek = l.k == RInt ? I32 : l.k == RDouble ? Double : String;
					V o;
					if (!takes(ek, v.a[k], o)) { good = false; break; }
					if (!in_range(ek, v.a[k])) judged = false;
					out.a[k] = o;
				}
			} else { good = takes(l.k, v, out); judged = in_range(l.k, v); }
			if (!judged) break;
			l.refuse = l.hooks && s.chance(1, 6);
			c.append(cat("set p", i, path, " = ", jref::show(v), l.refuse ? " refused" : "", "\n"));
			bool writable = l.access & 2, ok = writable && !l.refuse && good;
			int m0 = l.modified, c0 = l.checked;
			std::string e = error([&] { rexjson::value x = jcpp::make(v); if (s.chance(1, 2) && path.size()) p[i].navigate(path).set_prop(x); else pp->set_prop(x); });
			c.check(e.empty() == ok, cat(ok ? "a good value was refused: " : "a value was taken", e));
			if (l.hooks) {
				c.check(l.modified - m0 == (ok ? 1 : 0), cat("reported as modified ", l.modified - m0, " times"));
				c.check(l.checked - c0 == (writable ? 1 : 0), cat("checked ", l.checked - c0, " times"));
			}
			if (ok) { l.model = out; c.nontrivial = true; c.tag("set"); } else c.tag("not set");
			l.refuse = false;
			break;
		}
		case 1: {                              // get
			c.append(cat("get p", i, path, "\n"));
			if (nd->t != Node::L) break;
			Leaf &l = *nd->leaf;
			V g;
			std::string e = error([&] { g = jcpp::view(pp->get_prop()); });
			c.check(e.empty() == bool(l.access & 1), cat(e.empty() ? "read without permission" : "not read: ", e));
			if (e.empty()) { c.check(jref::same(g, l.model), cat("read as ", jref::show(g), " expected ", jref::show(l.model))); c.tag("get"); }
			c.check(pp->access() == l.access, "access");
			break;
		}
		case 2: {                              // any path
			std::string q = path;
			static const std::vector<std::string> T = {".", "[", "]", "[0]", "[1]", "a", ".a", "b", "0", "[x]", "[1x]", "[-1]", "[]", "[99999999999999999999]", " ", "[ 0]", "[0", "[+0]", "[18446744073709551616]", "[4294967296]"};
			for (int k = s.below(3); k > 0; k--) {
				size_t x = s.below(q.size() + 1);
				if (s.chance(1, 2)) q.insert(x, s.pick(T)); else if (s.chance(1, 2)) q.erase(x, 1 + s.below(2)); else q = q.substr(0, x) + s.pick(T);
			}
			bool judged;
			Node *want = walk(&n[i], q, judged);
			c.append(cat("navigate p", i, " ", quote(q), "\n"));
			property *got = nullptr;
			std::string e = error([&] { got = &p[i].navigate(q); });
			if (!judged) break;
			c.check(e.empty() == (want != nullptr), cat(want ? "the path leads to nothing: " : "a path that leads nowhere was followed", e));
			if (want) { c.check(got == go(p[i], [&] { for (auto &x : all) if (x.second == want) return x.first; return std::string(); }()), "the path leads to another place"); c.tag("path followed"); if (q != path) c.nontrivial = true; }
			else c.tag("path refused");
			break;
		}
		case 3: {                              // everything below
			c.append(cat("enumerate p", i, "\n"));
			bool holes = false;
			for (auto &x : all) if (x.second->t == Node::None) holes = true;
			if (holes) { c.check(!error([&] { p[i].to_json(); }).empty(), "nothing was enumerated"); break; }
			std::vector<std::string> seen, want;
			p[i].enumerate_children("root", [&](const std::string &q, property &x) { seen.push_back(q); });
			bool readable = true;
			V j = mk(jref::Obj);
			for (auto &x : all) if (x.second->t == Node::L) { want.push_back("root" + x.first); readable = readable && (x.second->leaf->access & 1); j.o[x.first] = x.second->leaf->model; } 
			c.check(seen == want, "enumerated other leaves");
			if (readable) {
				V g = jcpp::view(p[i].to_json());
				c.check(jref::same(g, j), cat("as JSON ", jref::show(g), "\nexpected ", jref::show(j)));
				c.tag("to_json");
			}
			break;
		}
		case 4: {                              // assign a part to another place
			int k = s.below(N);
			std::vector<std::pair<std::string, Node *>> all2;
			paths(n[k], "", all2);
			auto src = all2[s.below(all2.size())];
			property *sp = go(p[k], src.first);
			c.append(cat("p", i, path, " = p", k, src.first, "\n"));
			if (size(n[i]) + size(*src.second) > 60) break;
			Node t = *src.second;
			if (s.chance(1, 3)) { property tmp(*sp); *pp = tmp; }
			else if (s.chance(1, 2)) { property tmp(*sp), tmp2(std::move(tmp)); *pp = tmp2; if (s.chance(1, 2)) tmp = tmp2; }
			else *pp = *sp;
			*nd = t;
			if (t.t != Node::L) c.nontrivial = true;
			c.tag("assigned");
			break;
		}
		case 5: {                              // append
			int k = s.below(N);
			std::vector<std::pair<std::string, Node *>> all2;
			paths(n[k], "", all2);
			auto src = all2[s.below(all2.size())];
			c.append(cat("p", i, path, ".push_back(p", k, src.first, ")\n"));
			if (size(n[i]) + size(*src.second) > 60) break;
			property tmp(*go(p[k], src.first));
			Node t = *src.second;
			std::string e = error([&] { pp->push_back(tmp); });
			c.check(e.empty() == (nd->t == Node::A), cat("push_back ", e));
			if (e.empty()) nd->a.push_back(t);
			break;
		}
		default: {                             // elements that are not there
			c.append(cat("element of p", i, path, "\n"));
			static const std::vector<std::string> K = {"a", "zz", "", "0", "3", "-1", "x", "1x", " 1", "99999999999999999999999"};
			std::string key = s.pick(K);
			bool want = false;
			if (nd->t == Node::M) want = nd->m.count(key);
			if (nd->t == Node::A) want = !key.empty() && key.size() < 3 && key.find_first_not_of("0123456789") == key.npos && (size_t)atol(key.c_str()) < nd->a.size();
			c.check(error([&] { (*pp)[key]; }).empty() == want, cat("element ", quote(key)));
			size_t x = s.below(5);
			if (nd->t == Node::A) c.check(error([&] { (*pp)[x]; }).empty() == (x < nd->a.size()), cat("element ", x));
			break;
		}
		}
		for (auto &l : leaves) c.check(jref::same(held(l), l.model), cat("a variable holds ", jref::show(held(l)), " expected ", jref::show(l.model)));
	}
}

int main(int argc, char **argv)
{
	Config f;
	f.id = "J06";
	f.rule = "random trees of variables of every supported kind with access rights and hooks; sequences of reads, writes, paths (good, damaged), enumeration, assignment of parts to any place and appending, compared with a model; non-trivial: a variable set, a changed path followed or a subtree assigned";
	f.quick_cases = 120000;
	f.thorough_cases = 3000000;
	f.fn = one;
	f.assumptions = {"numbers that do not fit the variable, paths without a dot behind an index or with leading zeros, and paths that end at a container are not judged"};
	return run_main(argc, argv, f);
}
