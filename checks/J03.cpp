// libs: rlib
// objects: rexjsonpp
#include "pbt.h"
#include "jcpp.h"
using namespace pbt;

static std::string strip(const std::string &t)
{
	std::string r;
	bool in = false;
	for (size_t i = 0; i < t.size(); i++) {
		if (in) { r += t[i]; if (t[i] == '\\' && i + 1 < t.size()) r += t[++i]; else if (t[i] == '"') in = false; continue; }
		if (t[i] == '"') in = true;
		if (!strchr(" \n", t[i]) || !t[i]) r += t[i];
	}
	return r;
}
static bool equal(const jref::V &w, const jref::V &g, bool nullprop, size_t prec)
{
	if (w.t == jref::Real) {
		if (!std::isfinite(w.d)) return g.t == jref::Null;
		char b[800];
		snprintf(b, sizeof b, "%.*f", (int)prec, w.d);
		return (g.t == jref::Real || (prec == 0 && g.t == jref::Int)) && g.d == strtod(b, nullptr);
	}
	if (w.t != g.t) return false;
	if (w.t == jref::Arr) {
		if (w.a.size() != g.a.size()) return false;
		for (size_t i = 0; i < w.a.size(); i++) if (!equal(w.a[i], g.a[i], nullprop, prec)) return false;
		return true;
	}
	if (w.t == jref::Obj) {
		size_t n = 0;
		for (auto &x : w.o) {
			if (x.second.t == jref::Null && !nullprop) { if (g.o.count(x.first)) return false; continue; }
			auto k = g.o.find(x.first);
			if (k == g.o.end() || !equal(x.second, k->second, nullprop, prec)) return false;
			n++;
		}
		return n == g.o.size();
	}
	return jref::same(w, g);
}
static void inject(Src &s, jref::V &v)
{
	if (v.t == jref::Real && s.chance(1, 8)) v.d = s.pick(std::vector<double>{INFINITY, -INFINITY, NAN, -NAN, 1e300, -1e-300, 0.0, -0.0});
	for (auto &x : v.a) inject(s, x);
	for (auto &x : v.o) inject(s, x.second);
}

static void one(Src &s, Ctx &c)
{
	bool big = s.chance(1, 2500);
	jref::V m = big ? jref::gen_big(s) : jref::gen(s, s.below(c.thorough ? 6 : 5));
	if (big) c.tag("large");
	bool read = s.chance(1, 2);
	if (!read) inject(s, m);
	rexjson::value v;
	std::string how = "built";
	if (read) {
		std::string t = jref::print(s, m);
		c.describe(cat("read from ", quote(t)));
		jref::Parser p(t, 100);
		m = p.top();
		v.read(t, 100);
	} else { c.describe(cat("built: ", jref::show(m))); v = jcpp::make(m); }
	size_t tab = s.below(9), prec = s.below(12);
	bool nullprop = s.chance(1, 2);
	c.append(cat(" tab ", tab, " precision ", prec, nullprop ? "" : " without null properties"));
	c.check(jref::same(jcpp::view(v), m), cat("the value before writing is ", jref::show(jcpp::view(v))));
	std::string flat = v.write(false, nullprop, tab, prec), pretty = v.write(true, nullprop, tab, prec);
	for (auto *t : {&flat, &pretty}) {
		jref::Parser p(*t, 1000);
		jref::V g;
		try { g = p.top(); } catch (jref::Bad &b) { c.fail(cat("written text is malformed at ", b.off, ": ", quote(*t))); }
		p.ws();
		c.check(p.p == t->size(), cat("written text continues behind the value: ", quote(*t)));
		c.check(equal(m, g, nullprop, prec), cat("written as ", quote(*t), "\nwhich reads ", jref::show(g), "\nexpected ", jref::show(m)));
		// the library reads its own output, and writing it again changes nothing
		rexjson::value w;
		w.read(*t, 1000);
		jref::V gv = jcpp::view(w);
		c.check(jref::same(gv, g), cat("written as ", quote(*t), "\nand read back as ", jref::show(gv)));
		if (prec > 0) {
			std::string again = w.write(t == &pretty, true, tab, prec);
			if (t == &flat) c.check(again == *t, cat("writing again gives ", quote(again), "\nfirst ", quote(*t)));
		}
	}
	for (char x : flat) c.check((unsigned char)x >= 0x20, "a control character in the output");
	c.check(strip(flat) == strip(pretty), cat("layout changes more than spacing:\n", quote(flat), "\n", quote(pretty)));
	{ // outside strings the compact form has no spacing at all
		c.check(strip(flat) == flat, cat("spacing in the compact form ", quote(flat)));
	}
	{ // every line is indented by its depth
		size_t depth = 0, i = 0;
		while (i < pretty.size()) {
			size_t e = pretty.find('\n', i);
			if (e == pretty.npos) e = pretty.size();
			size_t k = i;
			while (k < e && pretty[k] == ' ') k++;
			size_t d = depth;
			if (k < e && (pretty[k] == ']' || pretty[k] == '}')) d--;
			if (k < e) c.check(k - i == d * tab, cat("a line at depth ", d, " is indented by ", k - i, ": ", quote(pretty)));
			bool in = false;
			for (; k < e; k++) {
				if (in) { if (pretty[k] == '\\') k++; else if (pretty[k] == '"') in = false; }
				else if (pretty[k] == '"') in = true;
				else if (pretty[k] == '[' || pretty[k] == '{') depth++;
				else if (pretty[k] == ']' || pretty[k] == '}') depth--;
			}
			i = e + 1;
		}
	}
	// the other ways of writing
	std::ostringstream os;
	rexjson::output(true, nullprop, tab, prec).write(v, os);
	c.check(os.str() == pretty, "writing to a stream differs from writing to a string");
	c.check(rexjson::write(v) == v.write(false) && rexjson::write_formatted(v) == v.write(true), "the short forms of writing differ");
	c.check(jref::same(jcpp::view(v), m), "writing changed the value");
	if (jref::nodes(m) >= 3) c.nontrivial = true;
	c.tag(read ? "read" : "built");
}

int main(int argc, char **argv)
{
	Config f;
	f.id = "J03";
	f.rule = "random values, read from text or built through the interface, written in all layouts, precisions and with or without null properties; non-trivial: three or more values in the tree";
	f.quick_cases = 200000;
	f.thorough_cases = 4000000;
	f.fn = one;
	f.assumptions = {"strings given to the interface are in JSON notation (a backslash is written twice), as its setters take them", "numbers that are not finite are written as null"};
	return run_main(argc, argv, f);
}
