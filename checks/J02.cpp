// libs: rlib
// objects: rexjsonpp
#include "pbt.h"
#include "jref.h"
#include "jcpp.h"
using namespace pbt;

static void one(Src &s, Ctx &c)
{
	std::string t = jref::gen_text(s, c.thorough);
	bool dflt = s.chance(1, 4);
	size_t levels = dflt ? 32 : s.chance(1, 2) ? 200 : s.below(8);
	c.describe(cat(quote(t), "\nlevels ", levels));
	jref::Parser ref(t, levels);
	bool ok = true;
	jref::Bad bad{0, false};
	jref::V want;
	try { want = ref.top(); } catch (jref::Bad &b) { ok = false; bad = b; }
	rexjson::value v;
	if (s.chance(1, 3)) v = jcpp::make(jref::gen(s, 2));          // whatever it held before
	std::string msg;
	bool got = true;
	int how = s.below(3);
	std::vector<char> bytes(t.begin(), t.end());      // ends where the text ends
	try {
		rexjson::value *r = &v;
		if (how == 0) r = dflt ? &v.read(t) : &v.read(t, levels);
		else if (how == 1 && dflt && bytes.size() % 2) v = rexjson::read(bytes.data(), bytes.size());
		else if (how == 1) r = dflt ? &v.read(bytes.data(), bytes.size()) : &v.read(bytes.data(), bytes.size(), levels);
		else if (dflt) v = rexjson::read(t);
		else { if (!rexjson::read_no_throw(v, t, levels)) { got = false; } }
		c.check(r == &v, "read returns another object");
	} catch (std::runtime_error &e) { got = false; msg = e.what(); }
	if (ok) {
		c.check(got, cat("well-formed text refused: ", msg));
		if (ref.lone) { c.tag("half a surrogate pair"); return; }
		jref::V g = jcpp::view(v);
		c.check(jref::same(g, want), cat("read as ", jref::show(g), "\nexpected ", jref::show(want)));
		c.tag("accepted");
		if (ref.begun >= 3) c.nontrivial = true;
	} else {
		c.check(!got, cat("malformed text accepted as ", jref::show(jcpp::view(v)), "; expected an error at ", bad.off));
		if (bad.off > 0) c.nontrivial = true;
		c.tag(bad.levels ? "too deep" : "unexpected character");
		if (!msg.empty() && !bad.levels) {
			size_t k = msg.rfind("at offset ");
			if (k == msg.npos && t.find('\0') != t.npos) return;      // what() ends at a zero byte
			c.check(k != msg.npos && strtoul(msg.c_str() + k + 10, nullptr, 10) == bad.off, cat("message ", quote(msg), ", the error is at offset ", bad.off));
			size_t line = 1, col = 1;
			for (size_t i = 0; i < bad.off; i++) if (t[i] == '\n') line++, col = 1; else col++;
			c.check(msg.compare(0, 12, "Unexpected (") == 0 && msg.compare(12, cat(line, ":", col, ")").size(), cat(line, ":", col, ")")) == 0, cat("message ", quote(msg), ", the error is in line ", line, " column ", col));
		}
		// a value that failed to read can be used again
		v.read("[1]");
		c.check(jref::show(jcpp::view(v)) == "[1]", "reading again after an error");
	}
}

int main(int argc, char **argv)
{
	Config f;
	f.id = "J02";
	f.rule = "texts printed from random values with random spacing and escapes, such texts mutated, soups of JSON tokens, bytes, deep nesting; any depth limit and any way of reading; non-trivial: a document of three or more values, or an error behind the first byte";
	f.quick_cases = 600000;
	f.thorough_cases = 12000000;
	f.fn = one;
	f.assumptions = {"text behind the first complete value, integers beyond 64 bits and halves of surrogate pairs are not judged"};
	return run_main(argc, argv, f);
}
