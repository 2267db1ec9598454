// Grammar (PEG) model for the RPA engine: AST, generators, printer in the engine's BNF notation, and a reference
// evaluator producing match lengths and derivation records. No left recursion here (see lr.h for that).
#ifndef VERIF_PEG_H
#define VERIF_PEG_H
#include "pbt.h"
#include <memory>
#include <functional>
#include <algorithm>

namespace peg {
using pbt::Src;
typedef std::vector<uint32_t> W;       // a text as code points

enum K { CHR, DOT, CLS, REF, GRP, NOT, SEQ, ALT, MIN };
enum Q { ONE, OPT, STAR, PLUS };
struct N;
typedef std::shared_ptr<N> P;
struct N {
	K k; Q q = ONE;
	uint32_t ch = 0;
	std::vector<std::pair<uint32_t, uint32_t>> rng;   // CLS
	bool num = false;                                 // CLS written with code point numbers
	int rule = 0; bool cref = false;                  // REF
	bool loop = false;                                // REF that closes or follows a left recursion (see lr.h)
	std::vector<P> kids;
};
inline P mk(K k) { P p(new N); p->k = k; return p; }
inline P chr(uint32_t c, Q q = ONE) { P p = mk(CHR); p->ch = c; p->q = q; return p; }
inline P dot(Q q = ONE) { P p = mk(DOT); p->q = q; return p; }
inline P cls(std::vector<std::pair<uint32_t, uint32_t>> r, Q q = ONE) { P p = mk(CLS); p->rng = r; p->q = q; return p; }
inline P ref(int r, Q q = ONE) { P p = mk(REF); p->rule = r; p->q = q; return p; }
inline P seq(std::vector<P> v) { P p = mk(SEQ); p->kids = v; return p; }
inline P alt(std::vector<P> v) { P p = mk(ALT); p->kids = v; return p; }
inline P grp(P b, Q q = ONE) { P p = mk(GRP); p->kids = {b}; p->q = q; return p; }
inline P nt(P b) { P p = mk(NOT); p->kids = {b}; return p; }
inline P mn(P a, std::vector<P> negs) { P p = mk(MIN); p->kids = {a}; for (auto &x : negs) p->kids.push_back(x); return p; }
inline P word(const std::string &s) { std::vector<P> v; for (unsigned char c : s) v.push_back(chr(c)); return seq(v); }

struct Rule { std::string name; P body; };
struct Grammar { std::vector<Rule> rules; };

// ---------------------------------------------------------------- printing
inline void utf8(std::string &o, uint32_t c)
{
	if (c < 0x80) o += (char)c;
	else if (c < 0x800) { o += (char)(0xC0 | c >> 6); o += (char)(0x80 | (c & 63)); }
	else if (c < 0x10000) { o += (char)(0xE0 | c >> 12); o += (char)(0x80 | (c >> 6 & 63)); o += (char)(0x80 | (c & 63)); }
	else { o += (char)(0xF0 | c >> 18); o += (char)(0x80 | (c >> 12 & 63)); o += (char)(0x80 | (c >> 6 & 63)); o += (char)(0x80 | (c & 63)); }
}
inline std::string utf8s(const W &w) { std::string o; for (auto c : w) utf8(o, c); return o; }
inline bool plainok(uint32_t c)
{
	return c >= 0x21 && !(c < 0x80 && strchr(" ~:#@^-|&+*?\"'[]()<>.;\\=!", (int)c)) && c != 0x7f;
}
struct Style { bool tidy = false, filler = false; };     // tidy: one fixed spelling; otherwise random spellings; filler: rarely hundreds of unused rules in between
inline std::string sp(Src &s, const Style &st, bool must = false)
{
	if (st.tidy) return must ? " " : "";
	switch (s.below(8)) { case 6: return " "; case 7: return s.chance(1, 6) ? " \\\n" : s.chance(1, 12) ? "\\\r\n " : "\t"; case 5: return "  "; default: return must ? " " : ""; }
}
inline std::string pq(Src &s, const Style &st, Q q)
{
	if (q == ONE) return "";
	std::string o = st.tidy ? "" : (s.chance(1, 8) ? " " : "");
	o += q == OPT ? '?' : q == STAR ? '*' : '+';
	return o;
}
inline std::string pchr(Src &s, const Style &st, uint32_t c)
{
	std::string o;
	if (c == '\n') return "\\n";
	if (c == '\r') return "\\r";
	if (c == '\t') return "\\t";
	int form = st.tidy ? 0 : s.below(4);
	if (form == 1 && c != '\'') { o = "'"; utf8(o, c); return o + "'"; }
	if (form == 2 && c != '"') { o = "\""; utf8(o, c); return o + "\""; }
	if (form == 3 && c != 'n' && c != 'r' && c != 't') { o = "\\"; utf8(o, c); return o; }
	if (plainok(c)) { utf8(o, c); return o; }
	if (c != '\'') { o = "'"; utf8(o, c); return o + "'"; }
	return "\"'\"";
}
inline std::string pclschr(uint32_t c, bool range)
{
	std::string o;
	if (c == '\n') return "\\n";
	if (c == '\r') return "\\r";
	if (c == '\t') return "\\t";
	if (c < 0x80 && strchr(" #\\-[]", (int)c)) o += '\\';
	(void)range;
	utf8(o, c);
	return o;
}
inline bool clsplain(uint32_t c) { return c >= 0x21 && !(c < 0x80 && strchr(" #\\-[]", (int)c)) && c != 0x7f; }
inline std::string pnum(Src &s, const Style &st, uint32_t c)
{
	char b[32];
	switch (st.tidy ? 0 : s.below(4)) {
	case 1: if (c) { snprintf(b, sizeof b, "#%u", c); break; }   // fallthrough
	case 0: snprintf(b, sizeof b, "#x%x", c); break;
	case 2: snprintf(b, sizeof b, s.chance(1, 3) ? "#X%X" : "#0x%X", c); break;
	default: snprintf(b, sizeof b, "#x%04x", c); break;
	}
	return b;
}
inline std::string print(Src &s, const Style &st, const Grammar &g, const P &n);
inline std::string pitem(Src &s, const Style &st, const Grammar &g, const P &n)
{
	std::string o;
	switch (n->k) {
	case CHR: return pchr(s, st, n->ch) + pq(s, st, n->q);
	case DOT: return "." + pq(s, st, n->q);
	case CLS: {
		bool num = n->num;
		for (auto &r : n->rng) if (r.first != r.second && (!clsplain(r.first) || !clsplain(r.second))) num = true;
		for (auto &r : n->rng) if (r.first == 0 || r.second == 0) num = true;
		o = "[";
		for (auto &r : n->rng) {
			if (num) {
				if (r.first == r.second) o += pnum(s, st, r.first);
				else o += pnum(s, st, r.first) + "-" + pnum(s, st, r.second);
			} else if (r.first == r.second) o += pclschr(r.first, false);
			else o += pclschr(r.first, true) + "-" + pclschr(r.second, true);
		}
		return o + "]" + pq(s, st, n->q);
	}
	case REF: return (n->cref ? "<:" : "<") + g.rules[n->rule].name + (n->cref ? ":>" : ">") + pq(s, st, n->q);
	case GRP: return "(" + sp(s, st) + print(s, st, g, n->kids[0]) + sp(s, st) + ")" + pq(s, st, n->q);
	case NOT: return "^" + (st.tidy ? std::string() : std::string(s.chance(1, 8) ? " " : "")) + pitem(s, st, g, n->kids[0]);
	default: return "(" + print(s, st, g, n) + ")";
	}
}
inline std::string print(Src &s, const Style &st, const Grammar &g, const P &n)
{
	std::string o;
	if (n->k == ALT) {
		for (size_t i = 0; i < n->kids.size(); i++) {
			if (i) { o += sp(s, st, st.tidy); if (!st.tidy && s.chance(1, 16)) o += s.chance(1, 3) ? "\r\n" : "\n"; o += "|"; o += sp(s, st, st.tidy); if (!st.tidy && s.chance(1, 32)) o += s.chance(1, 3) ? "\r\n" : "\n "; }
			o += print(s, st, g, n->kids[i]);
		}
		return o;
	}
	if (n->k == MIN) {
		for (size_t i = 0; i < n->kids.size(); i++) {
			if (i) o += sp(s, st, st.tidy) + "-" + sp(s, st, st.tidy);
			o += print(s, st, g, n->kids[i]);
		}
		return o;
	}
	if (n->k == SEQ) {
		// runs of single characters may be written as one quoted string
		for (size_t i = 0; i < n->kids.size(); ) {
			size_t j = i;
			char quo = !st.tidy && s.chance(1, 3) ? '"' : '\'';
			while (j < n->kids.size() && n->kids[j]->k == CHR && n->kids[j]->q == ONE && n->kids[j]->ch != (uint32_t)quo && n->kids[j]->ch >= 0x20) j++;
			if (i) o += sp(s, st, st.tidy);
			if (j - i >= 2 && (st.tidy || s.chance(1, 2))) {
				o += quo;
				for (; i < j; i++) utf8(o, n->kids[i]->ch);
				o += quo;
			} else {
				o += pitem(s, st, g, n->kids[i]);
				i++;
			}
		}
		return o;
	}
	return pitem(s, st, g, n);
}
inline std::string print_rule(Src &s, const Style &st, const Grammar &g, int i)
{
	return g.rules[i].name + (st.tidy ? " ::= " : sp(s, st) + "::=" + sp(s, st)) + print(s, st, g, g.rules[i].body);
}
// rules nothing refers to, enough of them that counts and identifiers pass a power of two
inline std::string filler(Src &s, int from)
{
	static const int near[] = {16, 64, 128, 256, 256, 256, 512};
	int n = near[s.below(7)] - 1 - (int)s.below(4);
	std::string o;
	for (int i = 0; i < n; i++) o += pbt::cat("fi__", from + i, " ::= ", i & 1 ? pbt::cat("'u' <fi__", from + i - 1, ">") : "'v'", i & 3 ? "\n" : " ; ");
	return o + "\n";
}
inline std::string print_grammar(Src &s, const Style &st, const Grammar &g)
{
	std::string o;
	size_t fill = st.filler && s.chance(1, 50) ? s.below(g.rules.size() + 1) : (size_t)-1;
	for (size_t i = 0; i < g.rules.size(); i++) {
		if (i == fill) o += filler(s, 0);
		if (!st.tidy && s.chance(1, 8)) o += s.chance(1, 2) ? "# a comment ::= <x>\n" : "\n  \n";
		o += print_rule(s, st, g, i);
		if (st.tidy) o += "\n";
		else switch (s.below(6)) {
			case 3: o += "\r\n"; break;
			case 4: o += " ; "; break;
			case 5: o += " # trailing\n"; break;
			default: o += "\n";
		}
	}
	return o;
}

// ---------------------------------------------------------------- reference evaluation
struct Rec { int rule; long pos, len; bool end; };
inline bool operator==(const Rec &a, const Rec &b) { return a.rule == b.rule && a.pos == b.pos && a.len == b.len && a.end == b.end; }
typedef std::vector<Rec> Recs;
struct Budget {};

struct Eval {
	const Grammar &g;
	const W &in;
	std::function<bool(uint32_t, uint32_t, uint32_t)> rngmatch;      // ch in [lo,hi]
	std::vector<bool> emit;
	struct Memo { long first; Recs second; double cost; };
	std::map<std::pair<int, long>, Memo> memo;
	uint64_t steps = 0, limit = 2000000;
	double cost = 0;          // steps an evaluation without any memory of earlier results would take
	int depth = 0, maxdepth = 0;
	long farthest = 0;
	Eval(const Grammar &g_, const W &in_) : g(g_), in(in_), emit(g_.rules.size(), true)
	{
		rngmatch = [](uint32_t c, uint32_t lo, uint32_t hi) { return c >= lo && c <= hi; };
	}
	virtual ~Eval() {}
	long one(const P &n, long pos, Recs &r)
	{
		if (++steps > limit) throw Budget();
		cost += 1;
		if (pos > farthest) farthest = pos;
		switch (n->k) {
		case CHR: return pos < (long)in.size() && rngmatch(in[pos], n->ch, n->ch) ? 1 : -1;
		case DOT: return pos < (long)in.size() ? 1 : -1;
		case CLS:
			if (pos >= (long)in.size()) return -1;
			for (auto &x : n->rng) if (rngmatch(in[pos], std::min(x.first, x.second), std::max(x.first, x.second))) return 1;
			return -1;
		case REF: return rule(n->rule, pos, r);
		case GRP: return body(n->kids[0], pos, r);
		case NOT: {
			size_t k = r.size();
			long v = item(n->kids[0], pos, r);
			r.resize(k);
			if (v >= 0) return -1;
			return pos < (long)in.size() ? 1 : -1;
		}
		default: return body(n, pos, r);
		}
	}
	long item(const P &n, long pos, Recs &r)
	{
		if (n->q == ONE) return one(n, pos, r);
		if (n->q == OPT) { long v = one(n, pos, r); return v > 0 ? v : 0; }
		long t = 0;
		for (;;) {
			long v = one(n, pos + t, r);
			if (v <= 0) break;
			t += v;
		}
		return t > 0 ? t : n->q == STAR ? 0 : -1;
	}
	long body(const P &n, long pos, Recs &r)
	{
		size_t k = r.size();
		switch (n->k) {
		case ALT:
			for (auto &b : n->kids) {
				long v = body(b, pos, r);
				if (v > 0) return v;
				r.resize(k);
			}
			return -1;
		case MIN:
			for (size_t i = 1; i < n->kids.size(); i++) {
				long v = body(n->kids[i], pos, r);
				r.resize(k);
				if (v > 0) return -1;
			}
			return body(n->kids[0], pos, r);
		case SEQ: {
			long t = 0;
			for (auto &x : n->kids) {
				long v = item(x, pos + t, r);
				if (v < 0) { r.resize(k); return -1; }
				t += v;
			}
			return t;
		}
		default: { long v = item(n, pos, r); if (v < 0) r.resize(k); return v; }
		}
	}
	virtual long rule(int i, long pos, Recs &r)
	{
		auto it = memo.find({i, pos});
		if (it == memo.end()) {
			Recs mine;
			if (emit[i]) mine.push_back({i, pos, 0, false});
			if (++depth > maxdepth) maxdepth = depth;
			if (depth > 4000) throw Budget();
			double c0 = cost;
			long v = body(g.rules[i].body, pos, mine);
			depth--;
			if (v <= 0) { v = -1; mine.clear(); }
			else if (emit[i]) { mine[0].len = v; mine.push_back({i, pos, v, true}); }
			it = memo.insert({{i, pos}, {v, mine, cost - c0}}).first;
		} else cost += it->second.cost;
		if (it->second.first > 0) r.insert(r.end(), it->second.second.begin(), it->second.second.end());
		return it->second.first;
	}
};

// ---------------------------------------------------------------- static facts
// May the expression succeed without consuming a character? (rules never do)
inline bool nullable(const P &n);
inline bool nullable_item(const P &n)
{
	if (n->q == OPT || n->q == STAR) return true;
	if (n->q == PLUS) return false;      // '+' fails on zero length
	if (n->k == GRP) return nullable(n->kids[0]);
	if (n->k == ALT || n->k == SEQ || n->k == MIN) return nullable(n);
	return false;
}
inline bool nullable(const P &n)
{
	switch (n->k) {
	case ALT: return n->kids.size() == 1 ? nullable(n->kids[0]) : false;
	case MIN: return nullable(n->kids[0]);
	case SEQ: for (auto &k : n->kids) if (!nullable_item(k)) return false; return true;
	default: return nullable_item(n);
	}
}

// ---------------------------------------------------------------- generation
struct GenOpt {
	std::vector<uint32_t> alpha = {'a', 'b', 'c'};
	std::vector<uint32_t> wide;           // additional characters, less often
	unsigned maxdepth = 3;
	bool nots = true, mins = true;
};
struct Gen {
	Src &s; GenOpt o; int nrules;
	Gen(Src &s_, const GenOpt &o_, int n) : s(s_), o(o_), nrules(n) {}
	uint32_t ch() { if (!o.wide.empty() && s.chance(1, 3)) return s.pick(o.wide); return s.pick(o.alpha); }
	Q quant() { return (Q)s.weighted({10, 3, 3, 3}); }
	P gcls()
	{
		P p = mk(CLS);
		int k = 1 + s.below(3);
		for (int i = 0; i < k; i++) {
			uint32_t a = ch(), b = s.chance(1, 2) ? a : ch();
			p->rng.push_back({a, b});
		}
		p->num = s.chance(1, 4);
		return p;
	}
	// first: nothing has been consumed for sure since the rule began; then only later rules may be referenced
	P item(int rule, bool first, unsigned depth)
	{
		int lo = first ? rule + 1 : 0;
		bool canref = lo < nrules;
		P p;
		switch (s.weighted({8, 2, 3, (unsigned)(canref ? 6 : 0), (unsigned)(depth ? 3 : 0), (unsigned)(o.nots && depth ? 2 : 0)})) {
		case 0: p = chr(ch()); break;
		case 1: p = dot(); break;
		case 2: p = gcls(); break;
		case 3: p = ref(lo + s.below(nrules - lo)); p->cref = s.chance(1, 4); break;
		case 4: p = grp(body(rule, first, depth - 1)); break;
		default: { P k = item(rule, first, depth - 1); if (k->k == NOT) k = grp(k); return nt(k); }
		}
		p->q = quant();
		return p;
	}
	P gseq(int rule, bool first, unsigned depth)
	{
		std::vector<P> v;
		int k = 1 + s.weighted({4, 5, 4, 2, 1});
		for (int i = 0; i < k; i++) {
			P x = item(rule, first, depth);
			v.push_back(x);
			if (!nullable_item(x)) first = false;
		}
		return seq(v);
	}
	P gmin(int rule, bool first, unsigned depth)
	{
		P a = gseq(rule, first, depth);
		if (!o.mins || !s.chance(1, 7)) return a;
		std::vector<P> negs;
		int k = 1 + s.below(2);
		for (int i = 0; i < k; i++) negs.push_back(gseq(rule, first, depth ? depth - 1 : 0));
		return mn(a, negs);
	}
	P body(int rule, bool first, unsigned depth)
	{
		int k = 1 + s.weighted({5, 5, 3, 1});
		if (k == 1) return gmin(rule, first, depth);
		std::vector<P> v;
		if (s.chance(1, 8)) {            // alternatives of single characters and classes (a shape the compiler rewrites)
			for (int i = 0; i < k; i++) { P x = s.chance(1, 3) ? gcls() : chr(ch()); if (s.chance(1, 5)) x->q = quant(); v.push_back(seq({x})); }
		} else
			for (int i = 0; i < k; i++) v.push_back(gmin(rule, first, depth));
		return alt(v);
	}
	Grammar grammar()
	{
		Grammar g;
		static const char *names[] = {"S", "A", "B", "C", "D", "Expr_1", "x", "longer_rule_name"};
		for (int i = 0; i < nrules; i++) g.rules.push_back({i < 8 ? names[i] : pbt::cat("r", i), nullptr});
		for (int i = nrules - 1; i >= 0; i--) g.rules[i].body = body(i, true, o.maxdepth);
		return g;
	}
};

// Idiomatic grammars: the shapes real grammars are made of.
inline Grammar idiom(Src &s, const std::vector<uint32_t> &al)
{
	Grammar g;
	auto rng = [](uint32_t a, uint32_t b) { return std::make_pair(a, b); };
	uint32_t x = s.pick(al), y = s.pick(al), z = s.pick(al);
	switch (s.below(8)) {
	case 0: // right-recursive list, optionally with the separator in a group
		g.rules.resize(2);
		g.rules[0] = {"list", s.chance(1, 2) ? alt({seq({grp(seq({ref(1), chr(y)})), ref(0)}), seq({ref(1)})}) : alt({seq({ref(1), chr(y), ref(0)}), seq({ref(1)})})};
		g.rules[1] = {"elem", alt({seq({chr(x), chr(z, (Q)s.below(4))}), seq({chr(z)})})};
		break;
	case 1: // nested brackets
		g.rules.resize(1);
		g.rules[0] = {"nest", s.chance(1, 2) ? alt({seq({chr(x), ref(0, (Q)s.below(4)), chr(y)}), seq({chr(z)})}) : seq({chr(x), grp(alt({seq({ref(0)}), seq({chr(z)})}), (Q)s.below(4)), chr(y)})};
		break;
	case 2: // keyword or identifier
		g.rules.resize(3);
		g.rules[0] = {"stmt", alt({seq({ref(1), chr(y), ref(2)}), seq({ref(2)})})};
		g.rules[1] = {"kw", alt({seq({chr(x), chr(z)}), seq({chr(x)})})};
		g.rules[2] = {"id", mn(seq({cls({rng(x, x), rng(z, z)}, PLUS)}), {seq({ref(1)})})};
		break;
	case 3: // delimited text with an escape
		g.rules.resize(2);
		g.rules[0] = {"str", seq({chr(x), grp(alt({seq({chr(y), dot()}), seq({nt(cls({rng(x, x), rng(y, y)}))})}), STAR), chr(x)})};
		g.rules[1] = {"strs", seq({ref(0), grp(seq({chr(z, STAR), ref(0)}), (Q)s.below(4))})};
		break;
	case 4: // comment up to a terminator of two characters
		g.rules.resize(2);
		g.rules[0] = {"comment", seq({chr(x), chr(y), grp(mn(seq({dot()}), {seq({chr(y), chr(x)})}), STAR), chr(y), chr(x)})};
		g.rules[1] = {"text", seq({grp(alt({seq({ref(0)}), seq({dot()})}), PLUS)})};
		break;
	case 5: // the common prefix: later alternatives are longer
		g.rules.resize(2);
		g.rules[0] = {"top", seq({ref(1), chr(z, (Q)s.below(4))})};
		g.rules[1] = {"pre", alt({seq({chr(x)}), seq({chr(x), chr(y)}), seq({chr(x), chr(y), chr(z)})})};
		if (s.chance(1, 2)) std::reverse(g.rules[1].body->kids.begin(), g.rules[1].body->kids.end());
		break;
	case 6: { // a chain of rules, each with an optional layer
		int n = 2 + s.below(6);
		g.rules.resize(n);
		for (int i = 0; i < n; i++) {
			P next = i + 1 < n ? ref(i + 1, i + 1 < n && s.chance(1, 3) ? (Q)s.below(4) : ONE) : chr(x);
			g.rules[i] = {pbt::cat("l", i), s.chance(1, 2) ? alt({seq({next, chr(s.pick(al))}), seq({next})}) : seq({next, grp(seq({chr(s.pick(al)), i + 1 < n ? ref(i + 1) : chr(y)}), (Q)s.below(4))})};
		}
		break;
	}
	default: // mutual right recursion
		g.rules.resize(2);
		g.rules[0] = {"ping", alt({seq({chr(x), ref(1)}), seq({chr(x)})})};
		g.rules[1] = {"pong", alt({seq({grp(alt({seq({chr(y)}), seq({chr(z)})})), ref(0)}), seq({chr(y)})})};
	}
	return g;
}

// Every name a rule may have: a letter or an underscore, then letters, digits and underscores; often one is the beginning of another.
inline std::string gen_name(Src &s)
{
	static const char tail[] = "abcxyzmnABCXYZMN0123456789_";
	std::string n(1, tail[s.chance(1, 6) ? 26 : s.below(16)]);
	int k = s.chance(1, 40) ? 30 + s.below(300) : s.below(s.chance(1, 3) ? 12 : 3);
	for (int i = 0; i < k; i++) n += s.chance(1, 4) ? 'a' + s.below(26) : s.chance(1, 4) ? 'A' + s.below(26) : (uint32_t)tail[s.below(27)];
	return n;
}
inline void rename(Src &s, Grammar &g)
{
	if (!s.chance(1, 3)) return;
	std::set<std::string> used;
	for (auto &r : g.rules) used.insert(r.name);
	for (auto &r : g.rules) {
		if (s.chance(1, 4)) continue;
		std::string n;
		int tries = 4;
		do {
			switch (used.empty() ? 0 : s.below(5)) {
			case 0: { auto it = used.begin(); std::advance(it, s.below(used.size())); n = *it + gen_name(s); break; }        // longer than another
			case 1: n = r.name; for (auto &ch : n) if (isalpha((unsigned char)ch) && s.chance(1, 2)) ch ^= 0x20; break;        // another case
			default: n = gen_name(s);
			}
		} while (!used.insert(n).second && --tries);
		bool taken = false;
		for (auto &q : g.rules) taken |= q.name == n;
		if (!taken) r.name = n;
	}
}

inline bool starts_left(const P &n)
{
	if (n->k == REF) return n->loop;
	if (n->k == ALT) { for (auto &k : n->kids) if (starts_left(k)) return true; return false; }
	return (n->k == SEQ || n->k == MIN || n->k == GRP) && starts_left(n->kids[0]);
}
// A random string the expression might derive (PEG order may still reject it).
struct Walk {
	Src &s; const Grammar &g; W out; int fuel = 120;
	const std::vector<uint32_t> &alpha;
	Walk(Src &s_, const Grammar &g_, const std::vector<uint32_t> &a) : s(s_), g(g_), alpha(a) {}
	void go(const P &n)
	{
		int reps = 1;
		if (n->q == OPT) reps = s.below(2);
		else if (n->q == STAR) reps = s.below(4);
		else if (n->q == PLUS) reps = 1 + s.below(3);
		for (int i = 0; i < reps; i++) once(n);
	}
	void once(const P &n)
	{
		if (fuel-- <= 0) return;
		switch (n->k) {
		case CHR: out.push_back(n->ch); break;
		case DOT: out.push_back(s.pick(alpha)); break;
		case CLS: { auto &r = n->rng[s.below(n->rng.size())]; uint32_t a = std::min(r.first, r.second), b = std::max(r.first, r.second);
			out.push_back(s.chance(1, 2) ? a : a + s.below(std::min<uint32_t>(b - a, 50) + 1)); break; }
		case REF: go(g.rules[n->rule].body); break;
		case GRP: go(n->kids[0]); break;
		case NOT: out.push_back(s.pick(alpha)); break;
		case ALT: {
			std::vector<P> seeds;              // leave left recursions soon enough
			for (auto &k : n->kids) if (!starts_left(k)) seeds.push_back(k);
			if (seeds.size() < n->kids.size() && !seeds.empty() && s.chance(1, 3)) go(seeds[s.below(seeds.size())]);
			else go(n->kids[s.below(n->kids.size())]);
			break;
		}
		case MIN: go(n->kids[0]); break;
		case SEQ: for (auto &k : n->kids) go(k); break;
		}
	}
};
inline W gen_input(Src &s, const Grammar &g, int rule, const std::vector<uint32_t> &alpha, int maxlen)
{
	Walk w(s, g, alpha);
	switch (s.below(5)) {
	case 0: { int n = s.below(maxlen + 1); for (int i = 0; i < n; i++) w.out.push_back(s.pick(alpha)); break; }
	case 1: w.go(g.rules[rule].body); break;
	case 2: w.go(g.rules[rule].body); w.out.push_back(s.pick(alpha)); break;
	default: {
		w.go(g.rules[rule].body);
		int m = s.below(3);
		for (int i = 0; i < m && !w.out.empty(); i++) {
			size_t p = s.below(w.out.size());
			switch (s.below(3)) {
			case 0: w.out[p] = s.pick(alpha); break;
			case 1: w.out.erase(w.out.begin() + p); break;
			default: w.out.insert(w.out.begin() + p, s.pick(alpha));
			}
		}
	}
	}
	if ((int)w.out.size() > maxlen) w.out.resize(maxlen);
	return w.out;
}
}
#endif
