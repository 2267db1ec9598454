// Reference JSON model: values, a strict recursive-descent parser with positions, generators of values and of texts.
#ifndef VERIF_JREF_H
#define VERIF_JREF_H
#include "pbt.h"
#include <math.h>
namespace jref {
enum Type { Null, Obj, Arr, Str, Bool, Int, Real };
struct V {
	Type t = Null;
	bool b = false;
	int64_t i = 0;
	double d = 0;
	std::string s;
	std::vector<V> a;
	std::map<std::string, V> o;
	bool overflow = false;                // an integer outside 64 bits
};
inline bool same(const V &x, const V &y)
{
	if (x.t != y.t) return false;
	switch (x.t) {
	case Null: return true;
	case Bool: return x.b == y.b;
	case Int: return x.i == y.i || x.overflow || y.overflow;
	case Real: return x.d == y.d || (std::isnan(x.d) && std::isnan(y.d));
	case Str: return x.s == y.s;
	case Arr:
		if (x.a.size() != y.a.size()) return false;
		for (size_t i = 0; i < x.a.size(); i++) if (!same(x.a[i], y.a[i])) return false;
		return true;
	case Obj:
		if (x.o.size() != y.o.size()) return false;
		for (auto p = x.o.begin(), q = y.o.begin(); p != x.o.end(); ++p, ++q) if (p->first != q->first || !same(p->second, q->second)) return false;
		return true;
	}
	return false;
}
inline std::string show(const V &v)
{
	std::string r;
	char buf[64];
	switch (v.t) {
	case Null: return "null";
	case Bool: return v.b ? "true" : "false";
	case Int: snprintf(buf, sizeof buf, "%lld", (long long)v.i); return buf;
	case Real: snprintf(buf, sizeof buf, "real(%.17g)", v.d); return buf;
	case Str: return pbt::quote(v.s);
	case Arr: for (auto &x : v.a) r += (r.empty() ? "" : ", ") + show(x); return "[" + r + "]";
	case Obj: for (auto &x : v.o) r += (r.empty() ? "" : ", ") + pbt::quote(x.first) + ": " + show(x.second); return "{" + r + "}";
	}
	return r;
}
inline size_t nodes(const V &v)
{
	size_t n = 1;
	for (auto &x : v.a) n += nodes(x);
	for (auto &x : v.o) n += nodes(x.second);
	return n;
}
inline void utf8(std::string &o, uint32_t c)
{
	if (c < 0x80) o += (char)c;
	else if (c < 0x800) { o += (char)(0xc0 | c >> 6); o += (char)(0x80 | (c & 63)); }
	else if (c < 0x10000) { o += (char)(0xe0 | c >> 12); o += (char)(0x80 | (c >> 6 & 63)); o += (char)(0x80 | (c & 63)); }
	else { o += (char)(0xf0 | c >> 18); o += (char)(0x80 | (c >> 12 & 63)); o += (char)(0x80 | (c >> 6 & 63)); o += (char)(0x80 | (c & 63)); }
}

// ---- parser ----
struct Rec { bool end; Type t; size_t name, namesize, value, valuesize; };
struct Bad { size_t off; bool levels; };
struct Parser {
	const std::string &t;
	size_t p = 0, levels;
	size_t begun = 0;                     // records begun so far
	bool lone = false;                    // a \u escape of half a surrogate pair was seen
	std::vector<Rec> recs;
	Parser(const std::string &text, size_t maxlevels) : t(text), levels(maxlevels) {}
	int at(size_t i) const { return i < t.size() ? (unsigned char)t[i] : -1; }
	void ws() { while (at(p) == ' ' || at(p) == '\t' || at(p) == '\n' || at(p) == '\r') p++; }
	static bool dig(int c) { return c >= '0' && c <= '9'; }
	static int hex(int c) { return dig(c) ? c - '0' : c >= 'a' && c <= 'f' ? c - 'a' + 10 : c >= 'A' && c <= 'F' ? c - 'A' + 10 : -1; }
	// end of the string token at i, or 0
	size_t str(size_t i, std::string *out)
	{
		if (at(i) != '"') return 0;
		i++;
		uint32_t high = 0;                // a first half waiting for its second
		auto flush = [&]() { if (high) { lone = true; if (out) utf8(*out, high); high = 0; } };
		for (;;) {
			int c = at(i);
			if (c == '"') { flush(); return i + 1; }
			if (c < 0x20) return 0;
			if (c != '\\') { flush(); if (out) *out += (char)c; i++; continue; }
			int e = at(i + 1);
			const char *from = "\"\\/bfnrt", *to = "\"\\/\b\f\n\r\t", *q = e > 0 ? strchr(from, e) : nullptr;
			if (q) { flush(); if (out) *out += to[q - from]; i += 2; continue; }
			if (e != 'u') return 0;
			uint32_t w = 0;
			for (int k = 2; k < 6; k++) { int h = hex(at(i + k)); if (h < 0) return 0; w = w * 16 + h; }
			i += 6;
			if (high && w >= 0xdc00 && w < 0xe000) { if (out) utf8(*out, 0x10000 + ((high - 0xd800) << 10) + (w - 0xdc00)); high = 0; continue; }
			flush();
			if (w >= 0xd800 && w < 0xdc00) high = w;
			else { if (w >= 0xdc00 && w < 0xe000) lone = true; if (out) utf8(*out, w); }
		}
	}
	V value(size_t name = 0, size_t namesize = 0)
	{
		V v;
		if (!levels) throw Bad{p, true};
		levels--;
		begun++;
		size_t b = p, my = recs.size();
		recs.push_back({false, Null, name, namesize, b, 0});
		int c = at(p);
		if (c == '{') {
			v.t = Obj;
			p++; ws();
			if (at(p) == '}') p++;
			else for (;;) {
				std::string key;
				size_t n = p, e = str(p, &key);
				if (!e) throw Bad{p, false};
				p = e; ws();
				if (at(p) != ':') throw Bad{p, false};
				p++; ws();
				v.o[key] = value(n, e - n);
				ws();
				if (at(p) == ',') { p++; ws(); continue; }
				if (at(p) == '}') { p++; break; }
				throw Bad{p, false};
			}
		} else if (c == '[') {
			v.t = Arr;
			p++; ws();
			if (at(p) == ']') p++;
			else for (;;) {
				v.a.push_back(value());
				ws();
				if (at(p) == ',') { p++; ws(); continue; }
				if (at(p) == ']') { p++; break; }
				throw Bad{p, false};
			}
		} else if (c == '"') {
			v.t = Str;
			size_t e = str(p, &v.s);
			if (!e) throw Bad{p, false};
			p = e;
		} else if (t.compare(p, 4, "true") == 0) { v.t = Bool; v.b = true; p += 4; }
		else if (t.compare(p, 5, "false") == 0) { v.t = Bool; p += 5; }
		else if (t.compare(p, 4, "null") == 0) p += 4;
		else {
			size_t q = p;
			if (at(q) == '-') q++;
			if (at(q) == '0') q++;
			else if (dig(at(q))) while (dig(at(q))) q++;
			else throw Bad{p, false};
			v.t = Int;
			if (at(q) == '.' && dig(at(q + 1))) { v.t = Real; q += 2; while (dig(at(q))) q++; }
			if (at(q) == 'e' || at(q) == 'E') {
				size_t r = q + 1;
				if (at(r) == '+' || at(r) == '-') r++;
				if (dig(at(r))) { v.t = Real; while (dig(at(r))) r++; q = r; }
			}
			std::string n = t.substr(p, q - p);
			if (v.t == Int) { errno = 0; v.i = strtoll(n.c_str(), nullptr, 10); v.overflow = errno == ERANGE; v.d = strtod(n.c_str(), nullptr); }
			else v.d = strtod(n.c_str(), nullptr);
			p = q;
		}
		Rec &r = recs[my];
		r.t = v.t;
		r.valuesize = p - b;
		Rec e = r;
		e.end = true;
		e.t = v.t;
		recs.push_back(e);
		bools.resize(recs.size());
		bools[my] = bools.back() = v.b;
		levels++;
		return v;
	}
	std::vector<char> bools;
	V top() { ws(); return value(); }
};

// ---- generators ----
inline std::string gen_str(pbt::Src &s, bool raw_ok = true)
{
	std::string r;
	static const std::vector<uint32_t> special = {'"', '\\', '/', '\b', '\f', '\n', '\r', '\t', 0, 1, 0x1f, 0x7f, 0x80, 0xe9, 0x7ff, 0x800, 0x20ac, 0xd7ff, 0xe000, 0xffff, 0x10000, 0x1f600, 0x10ffff, 'u', '{', ']', ','};
	for (int n = s.chance(1, 10) ? 10 + s.below(30) : s.below(6); n > 0; n--) {
		switch (s.weighted({5, 4, 1, raw_ok ? 1u : 0u})) {
		case 0: r += "abcdef nrtu01"[s.below(13)]; break;
		case 1: utf8(r, s.pick(special)); break;
		case 2: { uint32_t c = s.below(0x110000); if (c >= 0xd800 && c < 0xe000) c = 'x'; utf8(r, c); break; }
		default: r += (char)(0x80 + s.below(128)); break;
		}
	}
	return r;
}
inline int64_t gen_int(pbt::Src &s)
{
	switch (s.below(4)) {
	case 0: return s.range(-3, 12);
	case 1: return s.range(-100000, 100000);
	case 2: return (int64_t)s.bits();
	default: return s.pick(std::vector<int64_t>{0, INT64_MAX, INT64_MIN, INT32_MAX, INT32_MIN, (int64_t)INT32_MAX + 1, (int64_t)INT32_MIN - 1, 4294967295LL, 4294967296LL});
	}
}
inline V gen(pbt::Src &s, int depth, int width = 4)
{
	V v;
	switch (s.weighted({2, depth > 0 ? 5u : 0u, depth > 0 ? 5u : 0u, 4, 2, 3, 2})) {
	case 0: break;
	case 1: v.t = Obj; for (int n = s.below(width + 1); n > 0; n--) v.o[s.chance(1, 4) ? gen_str(s) : std::string(1, 'a' + s.below(6))] = gen(s, depth - 1, width); break;
	case 2: v.t = Arr; for (int n = s.below(width + 1); n > 0; n--) v.a.push_back(gen(s, depth - 1, width)); break;
	case 3: v.t = Str; v.s = gen_str(s); break;
	case 4: v.t = Bool; v.b = s.chance(1, 2); break;
	case 5: v.t = Int; v.i = gen_int(s); break;
	default: v.t = Real; v.d = s.chance(1, 3) ? s.range(-1000, 1000) / 8.0 : s.chance(1, 2) ? s.range(-100000, 100000) * pow(10, s.range(-12, 12)) : s.range(-99, 99) / 100.0; break;
	}
	return v;
}
// a value out of the ordinary size: many members, long text, deep nesting
inline V gen_big(pbt::Src &s, bool deep = true)
{
	V v;
	unsigned kind = s.below(deep ? 4 : 3);
	size_t n = 100 + s.below(s.chance(1, 3) ? 3000 : 400);
	switch (kind) {
	case 0: v.t = Arr; for (; n > 0; n--) v.a.push_back(gen(s, s.chance(1, 20) ? 2 : 0)); break;
	case 1: {
		std::string stem = s.chance(1, 3) ? std::string(s.below(80), 'k') : "key";
		v.t = Obj;
		for (; n > 0; n--) v.o[stem + pbt::cat(s.below(5000))] = gen(s, s.chance(1, 20) ? 2 : 0);
		break;
	}
	case 2: v.t = Str; for (n = s.below(300); n > 0; n--) v.s += gen_str(s) + (s.chance(1, 3) ? std::string(s.below(300), 'x') : ""); break;
	default: {
		v = gen(s, 1);
		for (n = s.below(29); n > 0; n--) { V w; if (s.chance(1, 2)) { w.t = Arr; if (s.chance(1, 2)) w.a.push_back(gen(s, 0)); w.a.push_back(v); } else { w.t = Obj; w.o["a"] = v; if (s.chance(1, 2)) w.o["b"] = gen(s, 0); } v = w; }
	}
	}
	if (kind < 3 && s.chance(1, 4)) { V w; w.t = Arr; w.a.push_back(gen(s, 1)); w.a.push_back(v); w.a.push_back(gen(s, 1)); return w; }
	return v;
}
inline std::string ws(pbt::Src &s)
{
	std::string r;
	if (s.chance(1, 4)) for (int n = 1 + s.below(3); n > 0; n--) r += " \t\n\r"[s.below(4)];
	return r;
}
inline std::string print_str(pbt::Src &s, const std::string &v)
{
	std::string r = "\"";
	char b[16];
	auto unit = [&](uint32_t w) { snprintf(b, sizeof b, s.chance(1, 2) ? "\\u%04x" : "\\u%04X", w); r += b; };
	for (size_t i = 0; i < v.size();) {
		unsigned char c = v[i];
		if (c < 0x80) {
			static const char from[] = "\"\\/\b\f\n\r\t", to[] = "\"\\/bfnrt";
			const char *q = c ? strchr(from, c) : nullptr;
			bool must = c < 0x20 || c == '"' || c == '\\';
			if (q && (must || s.chance(1, 3)) && !s.chance(1, 4)) { r += '\\'; r += to[q - from]; }
			else if (must || s.chance(1, 12)) unit(c);
			else r += (char)c;
			i++;
			continue;
		}
		// a well-formed sequence may be written as escapes
		size_t n = c >= 0xf0 ? 4 : c >= 0xe0 ? 3 : c >= 0xc2 ? 2 : 1;
		uint32_t w = n == 4 ? c & 7 : n == 3 ? c & 15 : c & 31;
		bool ok = n > 1 && c < 0xf5 && i + n <= v.size();
		for (size_t k = 1; ok && k < n; k++) { ok = (v[i + k] & 0xc0) == 0x80; w = w << 6 | (v[i + k] & 63); }
		if (ok && ((n == 3 && (w < 0x800 || (w >= 0xd800 && w < 0xe000))) || (n == 4 && (w < 0x10000 || w > 0x10ffff)))) ok = false;
		if (ok && s.chance(1, 2)) {
			if (w >= 0x10000) { unit(0xd800 + ((w - 0x10000) >> 10)); unit(0xdc00 + ((w - 0x10000) & 0x3ff)); }
			else unit(w);
			i += n;
		} else { if (!ok) n = 1; r.append(v, i, n); i += n; }
	}
	return r + "\"";
}
inline std::string print(pbt::Src &s, const V &v)
{
	char b[400];
	switch (v.t) {
	case Null: return "null";
	case Bool: return v.b ? "true" : "false";
	case Int: snprintf(b, sizeof b, "%lld", (long long)v.i); return b;
	case Real:
		if (s.chance(1, 2)) snprintf(b, sizeof b, "%.17e", v.d); else { snprintf(b, sizeof b, "%.18f", v.d); if (strtod(b, nullptr) != v.d) snprintf(b, sizeof b, "%.17E", v.d); }
		if (!strchr(b, '.') && !strchr(b, 'e') && !strchr(b, 'E')) strcat(b, ".0");
		return b;
	case Str: return print_str(s, v.s);
	case Arr: { std::string r = "[" + ws(s); bool f = true; for (auto &x : v.a) { if (!f) r += "," + ws(s); f = false; r += print(s, x) + ws(s); } return r + "]"; }
	case Obj: {
		std::string r = "{" + ws(s);
		bool f = true;
		for (auto &x : v.o) {
			if (!f) r += "," + ws(s);
			f = false;
			if (s.chance(1, 20)) r += print_str(s, x.first) + ":" + ws(s) + "17 ," + ws(s);        // given twice, the last one counts
			r += print_str(s, x.first) + ws(s) + ":" + ws(s) + print(s, x.second) + ws(s);
		}
		return r + "}";
	}
	}
	return "";
}
inline std::string soup(pbt::Src &s)
{
	static const std::vector<std::string> T = {"[", "]", "{", "}", ",", ":", "\"a\"", "\"\"", "1", "-", "0", "01", "12.", "1.5", "1e", "1e5", "-0", "-0.0", "1e+", "true", "false", "null", "nul", "tru", " ", "\n", "\"\\/\"", "\"\\x\"", "\"\\u12\"", "\"\\u00e9\"", "\"", "\\", "\x01", "\xff", std::string("\0", 1), ".5", "1.5.5", "--1", "+1", "\"\t\"", "'a'"};
	std::string r;
	for (int n = 1 + s.below(9); n > 0; n--) r += s.pick(T);
	return r;
}
inline void mutate(pbt::Src &s, std::string &t)
{
	static const std::vector<std::string> T = {"[", "]", "{", "}", ",", ":", "\"", "\\", "1", ".", "e", "-", "+", "0", " ", "null", "\\u", "\n"};
	size_t p = s.below(t.size() + 1);
	switch (s.below(6)) {
	case 0: t.erase(p, 1 + s.below(3)); break;
	case 1: t.insert(p, s.pick(T)); break;
	case 2: if (p < t.size()) t[p] = (char)s.below(256); break;
	case 3: if (p < t.size()) t.erase(p); break;
	case 4: if (p + 1 < t.size()) std::swap(t[p], t[p + 1]); break;
	default: { size_t q = s.below(t.size() + 1); t.insert(p, t.substr(q, 1 + s.below(6))); break; }
	}
}
// any text: well-formed, nearly so, or not at all
inline std::string gen_text(pbt::Src &s, bool thorough)
{
	std::string t;
	if (s.chance(1, 1500)) {      // a large one, well-formed or with a late error
		t = ws(s) + print(s, gen_big(s));
		if (s.chance(1, 3)) for (int n = 1 + s.below(2); n > 0; n--) mutate(s, t);
		return t;
	}
	switch (s.weighted({6, 5, 3, 1, 1})) {
	case 0: t = ws(s) + print(s, gen(s, s.below(thorough ? 6 : 5))) + ws(s); if (s.chance(1, 5)) t += soup(s); break;
	case 1: t = ws(s) + print(s, gen(s, s.below(4))); for (int n = 1 + s.below(3); n > 0; n--) mutate(s, t); break;
	case 2: t = soup(s); break;
	case 3: for (int n = s.below(20); n > 0; n--) t += (char)s.bits(); break;
	default: { int n = 1 + s.below(s.chance(1, 60) ? 700 : 45); for (int i = 0; i < n; i++) t += s.chance(1, 3) ? "{\"a\":" : "["; if (s.chance(1, 2)) { std::string c; for (char x : t) if (x == '[') c = "]" + c; else if (x == '{') c = "}" + c; t += "1" + c; } break; }
	}
	return t;
}
}
#endif
