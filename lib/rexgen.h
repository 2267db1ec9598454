// Regular-expression generator, printer and reference matcher for the REX checks. Nothing here uses the code under test.
#ifndef VERIF_REXGEN_H
#define VERIF_REXGEN_H
#include "pbt.h"
#include <memory>
#include <algorithm>

namespace rg {
typedef uint32_t cp_t;
typedef std::vector<cp_t> cps;

inline std::string enc(cp_t c)
{
	std::string s;
	if (c < 0x80) s += (char)c;
	else if (c < 0x800) { s += (char)(0xC0 | c >> 6); s += (char)(0x80 | (c & 63)); }
	else if (c < 0x10000) { s += (char)(0xE0 | c >> 12); s += (char)(0x80 | (c >> 6 & 63)); s += (char)(0x80 | (c & 63)); }
	else { s += (char)(0xF0 | c >> 18); s += (char)(0x80 | (c >> 12 & 63)); s += (char)(0x80 | (c >> 6 & 63)); s += (char)(0x80 | (c & 63)); }
	return s;
}

struct Node;
typedef std::shared_ptr<Node> P;
enum Kind { LIT, ANY, CLS, CAT, ALT, REP };
struct Node {
	Kind k;
	cp_t c = 0;
	bool neg = false;
	std::vector<std::pair<cp_t, cp_t>> ranges;
	std::vector<P> kids;
	int lo = 0, hi = -1;      // REP; hi = -1: unbounded
	bool numeric = false;
};

inline bool char_ok(const Node &n, cp_t c)
{
	if (n.k == LIT) return c == n.c;
	if (n.k == ANY) return c != '\n';
	bool in = false;
	for (auto &r : n.ranges) if (c >= r.first && c <= r.second) in = true;
	return in != n.neg;
}

typedef std::vector<char> Pos;
inline Pos step(const P &n, const Pos &from, const cps &in)
{
	size_t N = in.size();
	switch (n->k) {
	case LIT: case ANY: case CLS: {
		Pos o(N + 1, 0);
		for (size_t i = 0; i < N; i++) if (from[i] && char_ok(*n, in[i])) o[i + 1] = 1;
		return o;
	}
	case CAT: {
		Pos p = from;
		for (auto &k : n->kids) p = step(k, p, in);
		return p;
	}
	case ALT: {
		Pos o(N + 1, 0);
		for (auto &k : n->kids) { Pos q = step(k, from, in); for (size_t i = 0; i <= N; i++) o[i] |= q[i]; }
		return o;
	}
	case REP: {
		Pos p = from;
		for (int i = 0; i < n->lo; i++) p = step(n->kids[0], p, in);
		Pos all = p;
		for (int i = n->lo; n->hi < 0 || i < n->hi; i++) {
			p = step(n->kids[0], p, in);
			bool grew = false;
			for (size_t j = 0; j <= N; j++) if (p[j] && !all[j]) { all[j] = 1; grew = true; }
			if (!grew) break;
		}
		return all;
	}
	}
	return from;
}
// every end position (in characters) of a match starting at 0
inline Pos ends(const P &n, const cps &in) { Pos f(in.size() + 1, 0); f[0] = 1; return step(n, f, in); }
inline int longest(const P &n, const cps &in)
{
	Pos e = ends(n, in);
	for (int i = (int)in.size(); i >= 0; i--) if (e[i]) return i;
	return -1;
}

struct Opt {
	int budget = 40;          // rough number of NFA states
	bool wide = true;
	bool maxrep = true;
};

inline const std::vector<cp_t> &alpha()
{
	static const std::vector<cp_t> a = {'a', 'b', 'c', 'a', 'b', 'c', 'd', '0', '5', 'z', ' ', '.', '*', '-', ']', '\\', '\n', '\t', '#', '{', '|', '(', '^', '"', 'A', 'F', '\r',
		0xE9, 0xFF, 0x80, 0x12A, 0x17B, 0x128, 0x20AC, 0x4E2B, 0x10348, 0x10FFFF, 0, 1, 0x7f, 0x161, 0x61 + 32, 0x41};
	return a;
}
inline cp_t gen_cp(pbt::Src &s, bool wide)
{
	size_t n = alpha().size();
	switch (s.weighted({60, 25, wide ? 12u : 0u, 3})) {
	case 0: return alpha()[s.below(3)];
	case 1: return alpha()[s.below(27)];
	case 2: return alpha()[s.below(n)];
	default: return wide ? (cp_t)s.below(0x110000) : (cp_t)s.below(256);
	}
}
inline bool surrogate(cp_t c) { return c >= 0xD800 && c < 0xE000; }

inline P lit(cp_t c) { P n = std::make_shared<Node>(); n->k = LIT; n->c = c; return n; }

inline P gen(pbt::Src &s, const Opt &o, int depth, int &budget)
{
	P n = std::make_shared<Node>();
	unsigned leaf = depth <= 0 || budget <= 2;
	switch (s.weighted({30, 6, 14, leaf ? 0u : 20u, leaf ? 0u : 14u, leaf ? 0u : 22u})) {
	case 0: n->k = LIT; n->c = gen_cp(s, o.wide); if (surrogate(n->c)) n->c = 'a'; budget--; return n;
	case 1: n->k = ANY; budget--; return n;
	case 2: {
		n->k = CLS;
		n->neg = s.chance(1, 4);
		int cnt = 1 + s.below(4);
		for (int i = 0; i < cnt; i++) {
			cp_t a = gen_cp(s, o.wide), b = a;
			if (surrogate(a)) a = b = 'a';
			if (s.chance(2, 5)) { b = s.chance(2, 3) ? a + s.below(4) : gen_cp(s, o.wide); if (surrogate(b)) b = a; if (b > 0x10ffff) b = 0x10ffff; }
			n->ranges.push_back({a, b});        // printed as is: may be reversed
		}
		budget--;
		return n;
	}
	case 3: {
		n->k = CAT;
		int cnt = 2 + s.below(3);
		for (int i = 0; i < cnt; i++) n->kids.push_back(gen(s, o, depth - 1, budget));
		return n;
	}
	case 4: {
		n->k = ALT;
		int cnt = 2 + s.below(3);
		for (int i = 0; i < cnt; i++) n->kids.push_back(gen(s, o, depth - 1, budget));
		budget -= 2;
		return n;
	}
	default: {
		n->k = REP;
		switch (s.below(4)) {
		case 0: n->lo = 0; n->hi = 1; break;
		case 1: n->lo = 0; n->hi = -1; break;
		case 2: n->lo = 1; n->hi = -1; break;
		default: {
			n->lo = s.below(4);
			n->hi = s.chance(1, 3) ? -1 : n->lo + (int)s.below(3);
			if (o.maxrep && s.chance(1, 12)) { n->lo = s.below(12); n->hi = n->lo + s.below(6); }
			break;
		}
		}
		int mult = std::max(1, std::max(n->lo, n->hi));
		int b = budget / mult, b0 = b;
		n->kids.push_back(gen(s, o, depth - 1, b));
		budget -= (b0 - b) * mult + 1;
		return n;
	}
	}
}

inline P cat_(std::vector<P> v) { if (v.size() == 1) return v[0]; P n = std::make_shared<Node>(); n->k = CAT; n->kids = v; return n; }
inline P alt_(std::vector<P> v) { if (v.size() == 1) return v[0]; P n = std::make_shared<Node>(); n->k = ALT; n->kids = v; return n; }
inline P rep_(P k, int lo, int hi, bool numeric = false) { P n = std::make_shared<Node>(); n->k = REP; n->kids = {k}; n->lo = lo; n->hi = hi; n->numeric = numeric || !((lo == 0 && hi == -1) || (lo == 1 && hi == -1) || (lo == 0 && hi == 1)); return n; }
inline P cls_(std::vector<std::pair<cp_t, cp_t>> r) { P n = std::make_shared<Node>(); n->k = CLS; n->ranges = r; return n; }
inline P word(pbt::Src &s, int letters, int maxlen)
{
	std::vector<P> v;
	int l = 1 + s.below(maxlen);
	for (int i = 0; i < l; i++) v.push_back(lit('a' + s.below(letters)));
	return cat_(v);
}
// expressions whose automata have large, overlapping state sets: k-th letter from the end, word lists, identifiers
inline P gen_structured(pbt::Src &s, bool big)
{
	auto letter = [&]() -> P { switch (s.below(3)) { case 0: return cls_({{'a', 'b'}}); case 1: return alt_({lit('a'), lit('b')}); default: return cls_({{'a', 'c'}}); } };
	auto times = [&](P k, int n) { return rep_(k, n, n); };
	switch (s.weighted({7, 2, 1, 2, 2})) {
	case 0: return cat_({rep_(letter(), 0, -1), word(s, 2, 3), times(letter(), 1 + s.below(big ? 5 : 4))});
	case 1: { std::vector<P> v; int n = 2 + s.below(big ? 24 : 12); for (int i = 0; i < n; i++) v.push_back(word(s, 3, 6)); return alt_(v); }
	case 2: return cat_({cls_({{'a', 'c'}}), rep_(cls_({{'a', 'c'}, {'0', '9'}}), 0, -1)});
	case 3: { std::vector<P> v; int n = 2 + s.below(4); for (int i = 0; i < n; i++) v.push_back(word(s, 2, 3)); P a = rep_(alt_(v), s.below(2), -1); return cat_({a, word(s, 2, 2)}); }
	default: { P w = word(s, 2, 5); int lo = s.below(3); return cat_({rep_(w, lo, lo + 1 + s.below(3)), rep_(letter(), 0, 1 + s.below(4)), word(s, 2, 2)}); }
	}
}

// large expressions: classes with hundreds of ranges, long literals, long word lists, counts beyond 255
inline P gen_big(pbt::Src &s, bool bigger)
{
	switch (s.below(4)) {
	case 0: {
		static const std::vector<cp_t> base = {0x30, 0x100, 0x4e00, 0x10000, 0xfff0};
		cp_t c = s.pick(base);
		P n = std::make_shared<Node>();
		n->k = CLS;
		n->neg = s.chance(1, 3);
		int cnt = 60 + s.below(bigger ? 500 : 260);
		for (int i = 0; i < cnt; i++) { cp_t w = s.chance(1, 5) ? s.below(4) : 0; n->ranges.push_back({c, c + w}); c += w + 1 + s.below(5); if (surrogate(c + 10)) c = 0xE000; }
		if (s.chance(1, 2)) for (size_t i = n->ranges.size() - 1; i > 0; i--) std::swap(n->ranges[i], n->ranges[s.below(i + 1)]);
		return s.chance(1, 2) ? rep_(n, 1, -1) : s.chance(1, 2) ? cat_({n, rep_(cls_({{'a', 'c'}}), 0, -1)}) : alt_({n, word(s, 3, 4)});
	}
	case 1: {
		std::vector<P> v;
		int l = 100 + s.below(bigger ? 900 : 500), per = 1 + s.below(3);
		for (int i = 0; i < l; i++) v.push_back(s.chance(1, 40) ? cls_({{'a', 'b'}}) : lit('a' + (per == 1 ? 0 : i * 7 / per % 3)));
		if (s.chance(1, 3)) v.push_back(rep_(v.back(), 0, -1));
		return cat_(v);
	}
	case 2: {
		std::vector<P> v;
		int n = 40 + s.below(bigger ? 400 : 160);
		for (int i = 0; i < n; i++) {
			std::vector<P> w;
			size_t k = 1 + s.below(8);
			for (size_t q = 0; q < k; q++) w.push_back(lit('a' + s.below(q < 2 ? 12 : 3)));
			v.push_back(cat_(w));
		}
		return alt_(v);
	}
	default: {
		int lo = 120 + s.below(bigger ? 700 : 300);
		P k = s.chance(1, 2) ? lit('a') : cls_({{'a', 'b'}});
		P r = rep_(k, lo, s.chance(1, 3) ? -1 : lo + (int)s.below(4));
		return s.chance(1, 2) ? r : cat_({r, lit('c')});
	}
	}
}
inline void fix_ranges(const P &n)
{
	for (auto &r : n->ranges) if (r.first > r.second) std::swap(r.first, r.second);
	for (auto &k : n->kids) fix_ranges(k);
}

inline std::string esc_lit(pbt::Src &s, cp_t c)
{
	switch (c) {
	case '\n': return "\\n";
	case '\r': return "\\r";
	case '\t': return "\\t";
	case 0: return "\\0";
	case '\f': return "\\f";
	case '\v': return "\\v";
	}
	if (c < 0x80 && strchr("{}*?+])([|.\\ ", (int)c)) return "\\" + enc(c);
	if (c < 0x80 && strchr("rntfv0", (int)c)) return enc(c);
	if (s.chance(1, 8)) return "\\" + enc(c);
	return enc(c);
}

inline bool &blanks_on() { static bool b = true; return b; }
inline std::string sp(pbt::Src &s)
{
	if (!blanks_on() || !s.chance(1, 14)) return "";
	static const std::vector<std::string> v = {" ", "\t", "  ", "\\\n", " \\\r\n "};
	return v[s.below(v.size())];
}

inline std::string cls_el(pbt::Src &s, cp_t c, bool &num)
{
	bool isx = c < 0x80 && isxdigit((int)c);
	if ((num && isx) || s.chance(1, 4)) {
		char b[40];
		switch (s.below(4)) {
		case 0: snprintf(b, sizeof b, c ? "#%u" : "#0", c); break;
		case 1: snprintf(b, sizeof b, "#x%x", c); break;
		case 2: snprintf(b, sizeof b, "#0x%X", c); break;
		default: snprintf(b, sizeof b, "#0%o", c); break;
		}
		num = true;
		return b;
	}
	num = false;
	switch (c) {
	case '\n': return "\\n";
	case '\r': return "\\r";
	case '\t': return "\\t";
	case 0: return "\\0";
	}
	if (c < 0x80 && strchr("[]-#\\^", (int)c)) return "\\" + enc(c);
	return enc(c);
}

// prec: 0 alternation, 1 concatenation, 2 atom
inline std::string print(pbt::Src &s, const P &n, int prec)
{
	std::string o;
	switch (n->k) {
	case LIT: return sp(s) + esc_lit(s, n->c);
	case ANY: return sp(s) + ".";
	case CLS: {
		o = sp(s) + "[";
		if (n->neg) o += "^";
		bool num = false;
		for (auto &r : n->ranges) {
			o += cls_el(s, r.first, num);
			if (r.second != r.first || s.chance(1, 30)) { o += "-"; num = false; o += cls_el(s, r.second, num); }
		}
		return o + "]";
	}
	case CAT:
		for (auto &k : n->kids) o += print(s, k, 1 + (k->k == CAT ? 1 : 0));
		if (prec > 1) o = sp(s) + "(" + o + sp(s) + ")";
		return o;
	case ALT:
		for (size_t i = 0; i < n->kids.size(); i++) { if (i) o += sp(s) + "|"; o += print(s, n->kids[i], 0 + (n->kids[i]->k == ALT ? 2 : 0)); }
		if (prec > 0) o = sp(s) + "(" + o + sp(s) + ")";
		return o;
	case REP: {
		P k = n->kids[0];
		std::string a = (k->k == LIT || k->k == ANY || k->k == CLS) ? print(s, k, 2) : (sp(s) + "(" + print(s, k, 0) + sp(s) + ")");
		if (s.chance(1, 20) && (k->k == LIT || k->k == ANY || k->k == CLS)) a = "(" + a + ")";
		a += sp(s);
		bool sym = !s.chance(1, 4);
		if (n->lo == 0 && n->hi == 1 && sym) a += "?";
		else if (n->lo == 0 && n->hi < 0 && sym) a += "*";
		else if (n->lo == 1 && n->hi < 0 && sym) a += "+";
		else {
			auto b = [&]() { return std::string(blanks_on() && s.chance(1, 12) ? " " : ""); };
			a += "{" + b() + std::to_string(n->lo) + b();
			if (n->hi < 0) a += "," + b();
			else if (n->hi != n->lo || s.chance(1, 4)) a += "," + b() + std::to_string(n->hi) + b();
			a += "}";
		}
		return prec > 2 ? "(" + a + ")" : a;
	}
	}
	return o;
}

// a random member of the language (or a near miss when a class gives no easy member)
inline void derive(pbt::Src &s, const P &n, cps &out, size_t cap)
{
	if (out.size() > cap) return;
	switch (n->k) {
	case LIT: out.push_back(n->c); break;
	case ANY: { cp_t c = gen_cp(s, true); out.push_back(c); break; }
	case CLS: {
		if (!n->neg) { auto &r = s.pick(n->ranges); out.push_back(r.first + s.below(std::min<uint64_t>(r.second - r.first, 1000) + 1)); }
		else { cp_t c = gen_cp(s, true); for (int i = 0; i < 6 && !char_ok(*n, c); i++) c = gen_cp(s, true); out.push_back(c); }
		break;
	}
	case CAT: for (auto &k : n->kids) derive(s, k, out, cap); break;
	case ALT: derive(s, s.pick(n->kids), out, cap); break;
	case REP: {
		int hi = n->hi < 0 ? n->lo + 4 : n->hi;
		int c = n->lo + s.below(hi - n->lo + 1);
		for (int i = 0; i < c; i++) derive(s, n->kids[0], out, cap);
		break;
	}
	}
}

// An input: units that are characters or (as 0x80000000|byte) raw bytes.
inline cps gen_input(pbt::Src &s, const P &n, size_t cap, bool wide)
{
	cps o;
	switch (s.weighted({50, 30, 20, 12})) {
	case 3: { size_t l = s.below(cap + 1); for (size_t i = 0; i < l; i++) o.push_back('a' + s.below(s.chance(1, 12) ? 3 : 2)); break; }
	case 0: derive(s, n, o, cap); break;
	case 1: {
		size_t pre = s.below(6);
		for (size_t i = 0; i < pre; i++) o.push_back(gen_cp(s, wide));
		derive(s, n, o, cap);
		break;
	}
	case 2: default: { size_t l = s.below(14); for (size_t i = 0; i < l; i++) o.push_back(gen_cp(s, wide)); }
	}
	size_t tail = s.chance(1, 2) ? s.below(5) : 0;
	for (size_t i = 0; i < tail; i++) o.push_back(gen_cp(s, wide));
	if (s.chance(1, 3) && !o.empty()) {
		size_t m = 1 + s.below(2);
		for (size_t i = 0; i < m && !o.empty(); i++) {
			size_t p = s.below(o.size());
			switch (s.below(3)) {
			case 0: o.erase(o.begin() + p); break;
			case 1: o[p] = gen_cp(s, wide); break;
			default: o.insert(o.begin() + p, gen_cp(s, wide));
			}
		}
	}
	if (o.size() > cap) o.resize(cap);
	for (auto &c : o) if (surrogate(c) || c > 0x10ffff) c = 'b';
	return o;
}

// encode as UTF-8; offsets[i] = byte offset of character i, offsets[size] = length
inline std::string encode(const cps &in, std::vector<size_t> &off)
{
	std::string s;
	off.clear();
	for (cp_t c : in) { off.push_back(s.size()); s += enc(c); }
	off.push_back(s.size());
	return s;
}

inline bool has_rep_in_rep(const P &n, bool in = false)
{
	bool r = n->k == REP;
	if (r && in) return true;
	for (auto &k : n->kids) if (has_rep_in_rep(k, in || r)) return true;
	return false;
}
inline int count(const P &n, Kind k) { int c = n->k == k; for (auto &x : n->kids) c += count(x, k); return c; }
}

namespace rg {
// Reference decoder: strict shapes, anything else is one byte taken as that code.
inline cps decode(const std::string &t, std::vector<size_t> &off)
{
	cps o;
	off.clear();
	size_t i = 0, n = t.size();
	auto b = [&](size_t k) -> unsigned { return (unsigned char)t[k]; };
	auto cont = [&](size_t k) { return k < n && (b(k) & 0xC0) == 0x80; };
	while (i < n) {
		off.push_back(i);
		unsigned c = b(i);
		if (c >= 0xC2 && c < 0xE0 && cont(i + 1)) { o.push_back((c & 31) << 6 | (b(i + 1) & 63)); i += 2; }
		else if (c >= 0xE0 && c < 0xF0 && cont(i + 1) && cont(i + 2)) { o.push_back((c & 15) << 12 | (b(i + 1) & 63) << 6 | (b(i + 2) & 63)); i += 3; }
		else if (c >= 0xF0 && c < 0xF5 && cont(i + 1) && cont(i + 2) && cont(i + 3)) { o.push_back((c & 7) << 18 | (b(i + 1) & 63) << 12 | (b(i + 2) & 63) << 6 | (b(i + 3) & 63)); i += 4; }
		else { o.push_back(c); i++; }
	}
	off.push_back(n);
	return o;
}
inline std::string damage(pbt::Src &s, std::string t)
{
	int k = 1 + s.below(3);
	for (int i = 0; i < k; i++) {
		size_t p = s.below(t.size() + 1);
		static const std::vector<std::string> junk = {"\xff", "\x80", "\xc3", "\xe2\x82", "\xf0\x90\x8d", "\xc0", "\xbf"};
		switch (s.below(3)) {
		case 0: t.insert(p, s.pick(junk)); break;
		case 1: if (p < t.size()) t.erase(p, 1); break;
		default: t.resize(p); break;
		}
	}
	return t;
}
}
#endif
