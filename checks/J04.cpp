// libs: rlib
// objects: rexjsonpp
#include "pbt.h"
#include "jcpp.h"
using namespace pbt;
typedef std::pair<rexjson::value *, jref::V *> Ref;

template <class F> static bool throws(F f)
{
	try { f(); } catch (std::runtime_error &) { return true; }
	return false;
}
// a random place inside a value
static Ref place(Src &s, Ref r, std::string &path)
{
	while (s.chance(2, 3)) {
		if (r.second->t == jref::Arr && !r.second->a.empty()) {
			size_t i = s.below(r.second->a.size());
			path += cat("[", i, "]");
			r = {&(*r.first)[i], &r.second->a[i]};
		} else if (r.second->t == jref::Obj && !r.second->o.empty()) {
			auto it = r.second->o.begin();
			std::advance(it, s.below(r.second->o.size()));
			path += cat("[", quote(it->first), "]");
			r = {&(*r.first)[it->first], &it->second};
		} else break;
	}
	return r;
}
static std::string text(const jref::V &m)
{
	std::ostringstream o;
	switch (m.t) {
	case jref::Null: return "null";
	case jref::Bool: return m.b ? "true" : "false";
	case jref::Int: o << m.i; break;
	case jref::Real: o << m.d; break;
	case jref::Str: return m.s;
	case jref::Arr: for (size_t i = 0; i < m.a.size(); i++) o << (i ? "," : "") << text(m.a[i]); break;
	default: { bool first = true; for (auto &x : m.o) { o << (first ? "" : ",") << x.first << ":" << text(x.second); first = false; } }
	}
	return o.str();
}
static void check_types(Ctx &c, const rexjson::value &v, const jref::V &m)
{
	{
		rexjson::value w(v);
		bool num = m.t == jref::Int || m.t == jref::Real;
		double d = m.t == jref::Int ? (double)m.i : m.d;
		c.check(throws([&] { double x = (double)w; c.check(x == d, "cast to double"); }) == !num && throws([&] { float x = (float)w; c.check(x == (float)d, "cast to float"); }) == !num, "cast to a real");
		c.check(throws([&] { int x = (int)w; c.check(x == (int)m.i, "cast to int"); }) == (m.t != jref::Int) && throws([&] { unsigned x = (unsigned)w; c.check(x == (unsigned)m.i, "cast to unsigned"); }) == (m.t != jref::Int) && throws([&] { int64_t x = (int64_t)w; c.check(x == m.i, "cast to int64_t"); }) == (m.t != jref::Int), "cast to an integer");
		c.check(throws([&] { bool x = (bool)w; c.check(x == m.b, "cast to bool"); }) == (m.t != jref::Bool), "cast to a boolean");
	}
	if (jref::nodes(m) < 60) c.check(v.to_string() == text(m), cat("as text ", quote(v.to_string()), ", expected ", quote(text(m))));
	static const char *names[] = {"null", "object", "array", "string", "boolean", "integer", "real"};
	c.check(v.get_typename() == names[m.t] && rexjson::value::get_typename(v.type()) == names[m.t], "type name");
	c.check(v.is_null() == (m.t == jref::Null), "is_null");
	c.check(throws([&] { v.get_bool(); }) == (m.t != jref::Bool), "get_bool");
	c.check(throws([&] { v.get_int(); }) == (m.t != jref::Int), "get_int");
	c.check(throws([&] { v.get_int64(); }) == (m.t != jref::Int), "get_int64");
	c.check(throws([&] { v.get_real(); }) == (m.t != jref::Int && m.t != jref::Real), "get_real");
	c.check(throws([&] { v.get_str(); }) == (m.t != jref::Str), "get_str");
	c.check(throws([&] { v.get_array(); }) == (m.t != jref::Arr), "get_array");
	c.check(throws([&] { v.get_obj(); }) == (m.t != jref::Obj), "get_obj");
	if (m.t == jref::Int) {
		c.check(v.get_real() == (double)m.i, "integer as real");
		c.check(v.get_value<int64_t>() == m.i && v.get_value<double>() == (double)m.i, "integer by type");
		c.check(v.get_int() == (int)m.i && v.get_value<int>() == (int)m.i, "integer as int");
		c.check(v.get_value<long long>() == m.i, "integer as long long");
		c.check(v.get_value<unsigned>() == (unsigned)m.i, "integer as unsigned");
	}
	if (m.t == jref::Str) c.check(v.get_value<std::string>() == m.s && v.to_string() == m.s, "string by type");
	if (m.t == jref::Bool) c.check(v.get_value<bool>() == m.b && v.to_string() == (m.b ? "true" : "false"), "boolean by type");
	if (m.t == jref::Real) c.check(v.get_value<double>() == m.d && v.get_value<float>() == (float)m.d, "real by type");
}

static void one(Src &s, Ctx &c)
{
	const int N = 3;
	bool big = s.chance(1, 400);
	if (big) c.tag("large");
	rexjson::value v[N];
	jref::V m[N];
	for (int q = 0; q < N; q++) if (s.chance(3, 4)) { m[q] = big && s.chance(1, 2) ? jref::gen_big(s) : jref::gen(s, 3, 3); v[q] = jcpp::make(m[q]); c.append(cat("v", q, " = ", jref::show(m[q]), "\n")); }
	int steps = 2 + s.below(c.thorough ? 30 : 14);
	for (int k = 0; k < steps; k++) {
		int i = s.below(N), j = s.below(N);
		std::string pi = cat("v", i), pj = cat("v", j);
		Ref a = place(s, {&v[i], &m[i]}, pi);
		switch (s.weighted({4, 6, 2, 2, 3, 2, 3, 1, 2})) {
		case 0: {
			jref::V n = jref::gen(s, 2, 3);
			c.append(cat(pi, " = ", jref::show(n), "\n"));
			switch (n.t) {
			case jref::Bool: if (s.chance(1, 2)) *a.first = n.b; else a.first->set_bool(n.b); break;
			case jref::Real: if (s.chance(1, 2)) *a.first = n.d; else a.first->set_real(n.d); break;
			case jref::Int: if (s.chance(1, 2)) *a.first = (int64_t)n.i; else if (n.i == (int)n.i) a.first->set_int((int)n.i); else a.first->set_int((int64_t)n.i); break;
			case jref::Str: {
				std::string t = jcpp::notation(n.s);
				bool plain = t.find('\0') == t.npos;
				switch (s.below(plain ? 4 : 2)) {
				case 0: *a.first = t; break;
				case 1: a.first->set_str(t); break;
				case 2: *a.first = t.c_str(); break;
				default: a.first->set_str(t.c_str()); break;
				}
				break;
			}
			case jref::Arr: { rexjson::value x = jcpp::make(n); if (s.chance(1, 2)) a.first->set_array(x.get_array()); else *a.first = x.get_array(); break; }
			case jref::Obj: { rexjson::value x = jcpp::make(n); if (s.chance(1, 2)) a.first->set_object(x.get_obj()); else *a.first = x.get_obj(); break; }
			default: *a.first = rexjson::value::null; break;
			}
			*a.second = n;
			break;
		}
		case 1: {                          // assignment between any two places, also one inside the other
			Ref b = place(s, {&v[j], &m[j]}, pj);
			c.append(cat(pi, " = ", pj, "\n"));
			jref::V t = *b.second;
			bool nest = i == j && a.first != b.first;
			switch (s.below(4)) {
			case 0: if (b.second->t == jref::Arr) { *a.first = b.first->get_array(); break; }
				if (b.second->t == jref::Obj) { *a.first = b.first->get_obj(); break; } // fall through
			case 1: if (b.second->t == jref::Str && b.second->s.find('\\') == t.s.npos) { *a.first = b.first->get_str(); break; } // fall through
			case 2: if (b.second->t == jref::Str && b.second->s.find('\\') == t.s.npos && b.second->s.find('\0') == t.s.npos) { *a.first = b.first->get_str().c_str(); break; } // fall through
			default: *a.first = *b.first; break;
			}
			*a.second = t;
			if (nest) { c.nontrivial = true; c.tag("assignment within one value"); }
			break;
		}
		case 2: {
			Ref b = place(s, {&v[j], &m[j]}, pj);
			c.append(cat(pi, ".push_back(", pj, ")\n"));
			jref::V t = *b.second;
			bool bad = throws([&] { rexjson::value &r = a.first->push_back(*b.first); c.check(jref::same(jcpp::view(r), t), "push_back returns another element"); });
			c.check(bad == (a.second->t != jref::Arr), "push_back");
			if (!bad) { a.second->a.push_back(t); c.nontrivial = true; }
			break;
		}
		case 3: {
			std::string key = s.chance(1, 3) ? jref::gen_str(s) : std::string(1, 'a' + s.below(4));
			c.append(cat(pi, "[", quote(key), "]\n"));
			bool bad = throws([&] { rexjson::value &r = (*a.first)[key]; c.check(jref::same(jcpp::view(r), a.second->o.count(key) ? a.second->o[key] : jref::V()), "another element"); });
			c.check(bad == (a.second->t != jref::Obj), "access by name");
			if (!bad) { a.second->o[key]; c.nontrivial = true; }
			break;
		}
		case 4: {
			size_t x = big && s.chance(1, 2) ? s.below(a.second->a.size() + 2) : s.chance(1, 8) ? (size_t)-1 - s.below(3) : s.below(5);
			c.append(cat(pi, "[", x, "]\n"));
			bool bad = throws([&] { rexjson::value &r = (*a.first)[x]; c.check(jref::same(jcpp::view(r), a.second->a[x]), "another element"); });
			c.check(bad == (a.second->t != jref::Arr || x >= a.second->a.size()), "access by index");
			if (a.second->t == jref::Arr) {
				const rexjson::array &ca = a.first->get_array();
				c.check(throws([&] { (void)ca[x]; }) == (x >= ca.size()), "index of an array");
			}
			break;
		}
		case 5: {
			c.append(cat("copy of ", pi, "\n"));
			rexjson::value x(*a.first), y;
			y = x;
			jref::V t = *a.second;
			c.check(jref::same(jcpp::view(x), t) && jref::same(jcpp::view(y), t), "a copy differs");
			if (t.t == jref::Arr) x.push_back(true); else if (t.t == jref::Obj) x["copied"] = 1; else x = 2;
			c.check(jref::same(jcpp::view(*a.first), t) && jref::same(jcpp::view(y), t), "changing a copy changes its origin");
			break;
		}
		case 6: {
			if (i == j) break;
			c.append(cat("v", i, ".move(v", j, ")\n"));
			v[i].move(v[j]);
			m[i] = m[j];
			m[j] = jref::V();
			break;
		}
		case 7: {
			c.append(cat(pi, " = itself\n"));
			rexjson::value &r = *a.first;
			r = r;
			if (s.chance(1, 2)) r.move(r);
			break;
		}
		default: {                         // constructors from every integer type
			int64_t n = jref::gen_int(s);
			c.append(cat("integer ", n, "\n"));
			c.check(rexjson::value((int)n).get_int64() == (int)n && rexjson::value((unsigned)n).get_int64() == (int64_t)(unsigned)n && rexjson::value((long)n).get_int64() == n && rexjson::value((long long)n).get_int64() == n, "an integer changes when it is stored");
			if (n >= 0) c.check(rexjson::value((unsigned long)n).get_int64() == n && rexjson::value((unsigned long long)n).get_int64() == n, "an unsigned integer changes when it is stored");
			break;
		}
		}
		for (int q = 0; q < N; q++) {
			jref::V g = jcpp::view(v[q]);
			c.check(jref::same(g, m[q]), cat("v", q, " is ", jref::show(g), "\nexpected ", jref::show(m[q])));
		}
		{ std::string p; Ref r = place(s, {&v[i], &m[i]}, p); check_types(c, *r.first, *r.second); }
		c.check(rexjson::value::null.is_null(), "the null value changed");
		size_t total = 0;
		for (auto &x : m) total += jref::nodes(x);
		if (total > (big ? 9000u : 500u)) break;
	}
}

int main(int argc, char **argv)
{
	Config f;
	f.id = "J04";
	f.rule = "sequences of assignments between any places of three values (also one inside the other), element access, appending, copying and moving, compared with a model after each step; non-trivial: an assignment within one value, or an element added";
	f.quick_cases = 45000;
	f.thorough_cases = 1500000;
	f.fn = one;
	f.assumptions = {"strings given to the interface are in JSON notation"};
	return run_main(argc, argv, f);
}
