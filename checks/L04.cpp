// libs: rlib
#include "pbt.h"
#include <math.h>
extern "C" {
#include "rlib/rmem.h"
#include "rlib/rstring.h"
#include "rlib/rbuffer.h"
#include "rlib/rmath.h"
}
using namespace pbt;

// text without NUL: what a string object holds is a C string
static std::string text(Src &s)
{
	static const std::vector<std::string> k = {"", "a", "abc", "hello world", "\xc3\xa9\xff", " \t\n", "0123456789abcdef0123456789abcdef"};
	std::string r = s.pick(k);
	size_t n = s.below(s.chance(1, 300) ? 20000 : s.chance(1, 10) ? 300 : 6);
	for (size_t i = 0; i < n; i++) r += (char)(1 + s.below(255));
	return r;
}
struct Exact {      // a buffer of exactly the given size, so that the sanitizer sees any overread
	std::vector<char> b;
	Exact(const std::string &s, bool z) : b(s.begin(), s.end()) { if (z) b.push_back(0); b.shrink_to_fit(); }
	char *p() { static char none; return b.empty() ? &none + 1 : b.data(); }
};
static void is(Ctx &c, const rstring_t *s, const std::string &w, const char *what)
{
	c.check(s != NULL, cat(what, ": no string"));
	c.check(s->size == w.size() && s->str && strlen(s->str) == w.size() && !memcmp(s->str, w.data(), w.size()), cat(what, " is ", quote(std::string(s->str ? s->str : "")), " of size ", s->size, ", expected ", quote(w)));
	c.check((bool)(r_string_empty(s)) == w.empty(), cat(what, ": emptiness"));
}

static void one(Src &s, Ctx &c)
{
	size_t mem0 = r_debug_get_allocmem();
	std::vector<rstring_t *> v;
	std::vector<std::string> m;
	std::string d = "strings:";
	int n = 1 + s.below(c.thorough ? 60 : 25);
	for (int i = 0; i < n; i++) {
		unsigned op = v.empty() ? s.below(4) : s.below(10);
		std::string t = text(s);
		size_t x = v.empty() ? 0 : s.below(v.size()), y = v.empty() ? 0 : s.below(v.size());
		switch (op) {
		case 0: { Exact e(t, true); v.push_back(r_string_create_from_ansi(e.p())); m.push_back(t); d += " ansi " + quote(t); break; }
		case 1: {      // sized, unterminated source; a NUL inside ends the string
			std::string u = t;
			if (s.chance(1, 6)) u += std::string(1, '\0') + "tail";
			Exact e(u, false);
			v.push_back(r_string_create_from_str_len(e.p(), u.size()));
			m.push_back(t);
			d += " sized " + quote(u);
			break;
		}
		case 2: { int64_t l = s.chance(1, 2) ? (int64_t)s.bits() : s.range(-1000, 1000); v.push_back(r_string_create_from_int(l)); m.push_back(cat(l)); d += cat(" int ", l); break; }
		case 3: {
			double f;
			switch (s.below(4)) { case 0: f = s.range(-1000, 1000); break; case 1: f = s.range(-1000000, 1000000) / 1024.0; break; case 2: f = ldexp((double)(int64_t)s.bits(), (int)s.range(-90, 950)); break; default: { static const double e[] = {0.0, -0.0, 1e100, 1e118, -1e118, 1.7e308, -1e119, 0.5e-6, 1.5e-6, 999999.9999995, 1e15, HUGE_VAL, -HUGE_VAL}; f = e[s.below(13)]; } }
			if (std::isnan(f)) f = 0;
			char ref[512];
			snprintf(ref, sizeof ref, "%f", f);
			rstring_t *r = r_string_create_from_double(f);
			v.push_back(r);
			m.push_back(ref);
			d += cat(" double ", f);
			break;
		}
		case 4: v.push_back(r_string_create_from_string(v[x])); m.push_back(m[x]); d += cat(" from #", x); break;
		case 5: { robject_t *o = (robject_t *)v[x]; v.push_back((rstring_t *)o->copy(o)); m.push_back(m[x]); d += cat(" copy #", x); break; }
		case 6: v.push_back(r_string_cat(v[x], v[y])); m.push_back(m[x] + m[y]); d += cat(" cat #", x, "+#", y); break;
		case 7: case 8: {
			if (m[x].size() > 3000 && !s.chance(1, 30)) break;
			std::string u = t;
			if (s.chance(1, 8)) u += std::string(1, '\0') + "tail";
			Exact e(u, false);
			r_string_cat_len(v[x], e.p(), u.size());
			m[x] += t;
			d += cat(" append #", x, " ", quote(u));
			break;
		}
		default: r_string_destroy(v[x]); v.erase(v.begin() + x); m.erase(m.begin() + x); d += cat(" destroy #", x);
		}
		if (d.size() < 20000) c.describe(d);
		for (size_t q = 0; q < v.size(); q++) is(c, v[q], m[q], cat("string #", q).c_str());
		if (m.size() && !m.back().empty()) c.nontrivial = true;
	}
	// helpers on plain text
	std::string a = text(s), b = s.chance(1, 3) ? a : text(s);
	if (s.chance(1, 3)) b = a.substr(0, s.below(a.size() + 1));
	{
		Exact ea(a, true), eb(b, true), ua(a, false);
		c.append(" | " + quote(a) + " " + quote(b));
		char *dup = r_strdup(ea.p()), *nd;
		c.check(a == dup, "strdup");
		r_free(dup);
		size_t k = s.below(a.size() + 1);
		nd = r_strndup(ua.p(), k);
		c.check(a.substr(0, k) == nd, "strndup");
		r_free(nd);
		rstr_t *rs = r_rstrdup(ua.p(), a.size());
		c.check(rs->size == a.size() && !memcmp(rs->str, a.data(), a.size()) && rs->str[a.size()] == 0, "rstrdup");
		r_rstr_free(rs);
		c.check((r_strcmp(ea.p(), eb.p()) == 0) == (a == b), "strcmp");
		size_t l = std::min(a.size(), b.size());
		c.check((r_strncmp(ua.p(), eb.p(), l) == 0) == (a.compare(0, l, b, 0, l) == 0), "strncmp");
		c.check((bool)r_stringncmp(ea.p(), eb.p(), b.size()) == (a == b), "stringncmp");
		c.check(r_strlen(ea.p()) == a.size() && r_strlen(NULL) == 0, "strlen");
		char *f = r_strstr(ea.p(), eb.p());
		size_t w = a.find(b);
		c.check((f ? (size_t)(f - ea.p()) : std::string::npos) == w, "strstr");
		auto sg = [](int x) { return (x > 0) - (x < 0); };
		c.check(sg(r_strcmp(ea.p(), eb.p())) == sg(a.compare(b)), "order of two texts");
		size_t n = s.below(std::max(a.size(), b.size()) + 2);
		c.check(sg(r_strncmp(ea.p(), eb.p(), n)) == sg(a.substr(0, n).compare(b.substr(0, n))), cat("order of the first ", n, " characters of two texts"));
		int ch = 1 + s.below(255);
		if (a.size() && s.chance(1, 2)) ch = (unsigned char)a[s.below(a.size())];
		f = r_strchr(ea.p(), ch);
		w = a.find((char)ch);
		c.check((f ? (size_t)(f - ea.p()) : std::string::npos) == w, "strchr");
		f = r_strchr(ea.p(), 0);
		c.check(f == ea.p() + a.size(), "strchr of the end");
		n = s.below(b.size() + 2);
		{
			std::vector<char> d(a.size() + b.size() + 1, 'x');
			d.shrink_to_fit();
			c.check(r_strcpy(d.data(), ea.p()) == d.data() && a == d.data(), "strcpy");
			c.check(r_strcat(d.data(), eb.p()) == d.data() && a + b == d.data(), "strcat");
		}
		{
			Exact ub(b.substr(0, n), n > b.size());
			std::vector<char> d(a.size() + std::min(n, b.size()) + 1, 'x');
			d.shrink_to_fit();
			r_strcpy(d.data(), ea.p());
			c.check(r_strncat(d.data(), ub.p(), n) == d.data() && a + b.substr(0, n) == d.data(), cat("strncat of ", n));
			std::vector<char> q(n, 'x'), e(n, 0);
			q.shrink_to_fit();
			for (size_t i = 0; i < n && i < b.size(); i++) e[i] = b[i];
			if (n) c.check(r_strncpy(q.data(), ub.p(), n) == q.data() && q == e, cat("strncpy of ", n));
		}
		{
			size_t z = s.below(a.size() + b.size() + 30);
			std::string full = a + "/" + cat((int)ch) + "/" + b;
			std::vector<char> q(z, 'x');
			q.shrink_to_fit();
			char none;
			c.check(r_snprintf(z ? q.data() : &none, z, "%s/%d/%s", ea.p(), ch, eb.p()) == (int)full.size(), "snprintf: length");
			if (z) c.check(full.substr(0, z - 1) == q.data(), cat("snprintf into ", z));
		}
	}
	// nothing given
	{
		rstring_t *r = r_string_create_from_ansi(NULL), *q = r_string_create_from_str_len(NULL, s.below(9));
		is(c, r, "", "string from nothing");
		is(c, q, "", "sized string from nothing");
		r_string_cat_len(r, NULL, s.below(9));
		is(c, r, "", "string with nothing appended");
		r_string_destroy(r);
		r_string_destroy(q);
		rstr_t *rs = r_rstrdup(NULL, 7);
		c.check(rs->size == 7 && std::string(rs->str, 8) == std::string(8, '\0'), "rstrdup of nothing");
		r_rstr_free(rs);
	}
	// numbers out and in again
	{
		int64_t l = (int64_t)s.bits();
		rstring_t *r = r_string_create_from_int(l);
		char *e = NULL;
		c.check(r_strtol(r->str, &e, 10) == l && *e == 0, cat("integer ", l, " read back as ", r_strtol(r->str, NULL, 10)));
		r_string_destroy(r);
		int base = 2 + s.below(35);
		uint64_t u = s.bits() >> s.below(64);
		std::string t, rest = s.chance(1, 2) ? "" : s.chance(1, 2) ? " 1" : "~9";
		for (uint64_t x = u; x || t.empty(); x /= base) t.insert(t.begin(), "0123456789abcdefghijklmnopqrstuvwxyz"[x % base]);
		Exact et(t + rest, true);
		c.check(r_strtoul(et.p(), &e, base) == u && e == et.p() + t.size(), cat(quote(t), " in base ", base, " read as ", r_strtoul(et.p(), NULL, base), ", expected ", u));
		double x = s.range(-1000000, 1000000) / 64.0, y = (1 + s.below(100000)) / 32.0;
		c.check(r_fmod(x, y) == fmod(x, y) && r_fmod(-x, y) == -r_fmod(x, y), cat("rest of ", x, " by ", y, " is ", r_fmod(x, y)));
		double f = s.range(-100000000, 100000000) / 1000000.0;
		r = r_string_create_from_double(f);
		c.check(r_strtod(r->str, &e) == f && *e == 0, cat("double ", f, " read back as ", r_strtod(r->str, NULL)));
		r_string_destroy(r);
	}
	// a buffer
	{
		size_t z = s.below(40);
		rbuffer_t *bf = r_buffer_create(z);
		c.check(bf && bf->size == z, "buffer size");
		for (size_t i = 0; i <= z; i++) c.check(bf->s[i] == 0, "a new buffer is not zero");
		r_buffer_destroy(bf);
	}
	for (auto *p : v) r_string_destroy(p);
	c.check(r_debug_get_allocmem() == mem0, cat("memory not returned: ", (long)(r_debug_get_allocmem() - mem0)));
}

int main(int argc, char **argv)
{
	Config cfg;
	cfg.id = "L04";
	cfg.rule = "A case is a random history of string-object operations (from text, sized text, integers, doubles, copies, concatenation, appending, destruction) compared after each step with std::string, followed by the plain text helpers and number round trips; all sources are exactly sized heap buffers. Non-trivial: some non-empty string was made.";
	cfg.quick_cases = 60000;
	cfg.thorough_cases = 1000000;
	cfg.fn = one;
	cfg.assumptions = {"an embedded NUL ends a string"};
	return run_main(argc, argv, cfg);
}
