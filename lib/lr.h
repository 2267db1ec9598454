// Left-recursive grammars: groups of rules whose left references form cycles, generator and seed-growing reference.
#ifndef VERIF_LR_H
#define VERIF_LR_H
#include "peg.h"

namespace lr {
using namespace peg;

// Left references inside a group carry N::loop. Every left cycle of a group passes through each of its "heads", the only
// members that other places refer to.
struct Eval : peg::Eval {
	std::vector<bool> ingroup;
	std::map<std::pair<int, long>, Memo> heads;
	struct Frame { int head; long loo; const Recs *prev; };
	uint64_t grown = 0;
	Eval(const Grammar &g_, const W &in_, const std::vector<bool> &ig) : peg::Eval(g_, in_), ingroup(ig) {}
	long rule(int i, long pos, Recs &r) override
	{
		if (!ingroup[i]) return peg::Eval::rule(i, pos, r);
		auto it = heads.find({i, pos});
		if (it == heads.end()) {
			if (++depth > maxdepth) maxdepth = depth;
			if (depth > 2000) throw Budget();
			double c0 = cost;
			Recs best;
			long len = 0;
			for (;;) {
				Recs cur;
				Frame f = {i, len, &best};
				long v = member(i, pos, f, cur);
				if (v <= len) break;
				if (len) grown++;
				len = v;
				best.swap(cur);
			}
			depth--;
			it = heads.insert({{i, pos}, {len > 0 ? len : -1, best, cost - c0}}).first;
		} else cost += it->second.cost;
		if (it->second.first > 0) r.insert(r.end(), it->second.second.begin(), it->second.second.end());
		return it->second.first;
	}
	long member(int i, long pos, const Frame &f, Recs &r)
	{
		Recs mine;
		if (emit[i]) mine.push_back({i, pos, 0, false});
		long v = mbody(g.rules[i].body, pos, f, mine);
		if (v <= 0) return -1;
		if (emit[i]) { mine[0].len = v; mine.push_back({i, pos, v, true}); }
		r.insert(r.end(), mine.begin(), mine.end());
		return v;
	}
	// does the expression begin with a left reference of its group?
	static bool left(const P &b)
	{
		switch (b->k) {
		case REF: return b->loop;
		case NOT: return false;
		case GRP: return left(b->kids[0]);
		case SEQ: return left(b->kids[0]);
		case MIN: return left(b->kids[0]);
		case ALT: for (auto &k : b->kids) if (left(k)) return true; return false;
		default: return false;
		}
	}
	long mbody(const P &n, long pos, const Frame &f, Recs &r)
	{
		if (++steps > limit) throw Budget();
		cost += 1;
		size_t k = r.size();
		switch (n->k) {
		case ALT:
			for (auto &b : n->kids) {
				long v = left(b) ? mbody(b, pos, f, r) : f.loo > 0 ? -1 : body(b, pos, r);
				if (v > 0) return v;
				r.resize(k);
			}
			return -1;
		case MIN:
			for (size_t i = 1; i < n->kids.size(); i++) {
				long v = left(n->kids[i]) ? mbody(n->kids[i], pos, f, r) : body(n->kids[i], pos, r);
				r.resize(k);
				if (v > 0) return -1;
			}
			return mbody(n->kids[0], pos, f, r);
		case SEQ: {
			if (!left(n)) return f.loo > 0 ? -1 : body(n, pos, r);
			const P &x = n->kids[0];
			long t;
			if (x->k == GRP) t = mbody(x->kids[0], pos, f, r);
			else if (x->rule == f.head) {
				t = f.loo > 0 ? f.loo : -1;
				if (t > 0) r.insert(r.end(), f.prev->begin(), f.prev->end());
			} else t = member(x->rule, pos, f, r);
			if (t < 0 && x->q == OPT) t = 0;
			if (t < 0) { r.resize(k); return -1; }
			for (size_t i = 1; i < n->kids.size(); i++) {
				long v = item(n->kids[i], pos + t, r);
				if (v < 0) { r.resize(k); return -1; }
				t += v;
			}
			return t;
		}
		default: return f.loo > 0 ? -1 : body(n, pos, r);
		}
	}
};

struct Lang {
	Grammar g;
	std::vector<bool> ingroup, head;      // head: may be referred to from anywhere, and used as the root
	std::vector<int> order;               // definition order in the text
};

struct Gen {
	Src &s; std::vector<uint32_t> al; bool thorough;
	Lang l;
	std::vector<std::vector<int>> groups;
	std::vector<int> shape;               // 0 direct, 1 star, 2 ring, 3 through the head
	Gen(Src &s_, const std::vector<uint32_t> &a, bool t) : s(s_), al(a), thorough(t) {}
	Q quant() { return (Q)s.weighted({10, 2, 2, 2}); }
	int anyhead()
	{
		std::vector<int> h;
		for (size_t i = 0; i < l.head.size(); i++) if (l.head[i]) h.push_back(i);
		return s.pick(h);
	}
	int lower(int last) { std::vector<int> h; for (size_t i = last + 1; i < l.head.size(); i++) if (l.head[i]) h.push_back(i); return h.empty() ? -1 : s.pick(h); }
	// an item over characters, lower rules and, once something has been consumed, any rule
	P item(int last, bool consumed, int depth)
	{
		P p;
		switch (s.weighted({9, 1, 2, 5, (unsigned)(depth ? 2 : 0), (unsigned)(depth ? 1 : 0)})) {
		case 1: p = dot(); break;
		case 2: { p = mk(CLS); uint32_t a = s.pick(al), b = s.pick(al); p->rng = {{a, b}}; break; }
		case 3: { int r = consumed ? anyhead() : lower(last); if (r >= 0) { p = ref(r); break; } p = chr(s.pick(al)); break; }
		case 4: { std::vector<P> v; int n = 1 + s.below(2); for (int i = 0; i < n; i++) v.push_back(sequence(last, consumed, depth - 1, false)); p = grp(n == 1 ? v[0] : alt(v)); break; }
		case 5: { P k = item(last, consumed, 0); if (k->k == NOT) k = grp(k); return nt(k); }
		default: p = chr(s.pick(al));
		}
		p->q = quant();
		return p;
	}
	P sequence(int last, bool consumed, int depth, bool must)
	{
		std::vector<P> v;
		int n = 1 + s.weighted({5, 5, 2});
		for (int i = 0; i < n; i++) {
			P x = item(last, consumed, depth);
			v.push_back(x);
			if (!nullable_item(x)) consumed = true;
		}
		P q = seq(v);
		if (must && nullable(q)) q->kids.insert(q->kids.begin() + (consumed ? s.below(v.size() + 1) : 0), chr(s.pick(al)));
		return q;
	}
	P leftalt(int target, int last, bool unit, bool direct = false)
	{
		P a = plainleft(target, last, unit);
		switch (s.weighted({12, 2, 2, 1})) {
		case 1: {                                    // (R x | R y) z
			std::vector<P> v = {a};
			int n = s.below(3);
			for (int i = 0; i < n; i++) v.push_back(s.chance(1, 4) ? sequence(last, false, 0, true) : plainleft(target, last, unit && s.chance(1, 2)));
			P q = seq({grp(v.size() == 1 ? v[0] : assemble(v))});
			if (s.chance(1, 2)) q->kids.push_back(chr(s.pick(al)));
			return q;
		}
		case 2: {                                    // R x - R y
			std::vector<P> neg;
			int n = 1 + s.below(2);
			for (int i = 0; i < n; i++) neg.push_back(s.chance(1, 3) ? sequence(last, false, 0, true) : plainleft(target, last, false));
			return mn(a, neg);
		}
		case 3: if (direct) { a->kids[0]->q = OPT; a->kids.insert(a->kids.begin() + 1, chr(s.pick(al))); }     // what follows may come first
		}
		return a;
	}
	P plainleft(int target, int last, bool unit)
	{
		P x = ref(target);
		x->loop = true;
		if (unit) return seq({x});
		P t = sequence(last, true, 1, true);
		t->kids.insert(t->kids.begin(), x);
		return t;
	}
	P bracket() { return seq({chr(s.pick(al)), ref(anyhead()), chr(s.pick(al))}); }
	P assemble(std::vector<P> v)
	{
		for (size_t i = v.size(); i > 1; i--) std::swap(v[i - 1], v[s.below(i)]);
		return v.size() == 1 ? v[0] : alt(v);
	}
	void group(const std::vector<int> &m, int sh)
	{
		int last = m.back(), k = m.size();
		bool seeded = false;
		int unitedge = sh == 2 && k > 1 ? (int)s.below(k + 1) : -1;      // in a ring, never all edges
		for (int i = k - 1; i >= 0; i--) {
			std::vector<P> v;
			auto add = [&](int target, bool unit) { v.push_back(leftalt(target, last, unit, target == m[i] && sh == 0)); };
			int n = 1 + s.weighted({5, 3, 1});
			switch (sh) {
			case 0: for (int j = 0; j < n; j++) add(m[0], false); break;
			case 1:
				if (i == 0) { for (int j = 1; j < k; j++) add(m[j], s.chance(2, 3)); if (s.chance(1, 4)) add(m[0], false); }
				else for (int j = 0; j < n; j++) add(m[0], false);
				break;
			case 2: for (int j = 0; j < (s.chance(1, 4) ? 2 : 1); j++) add(m[(i + 1) % k], i != unitedge && s.chance(1, 3)); break;
			default:
				// Ri refers to R0 or to later members; what goes back to R0 consumes
				for (int j = 0; j < n; j++) {
					int t = s.chance(1, 2) || i == k - 1 ? 0 : i + 1 + s.below(k - 1 - i);
					add(m[t], t != 0 && s.chance(1, 3));
				}
			}
			if (sh == 2 && unitedge >= k) for (auto &x : v) if (x->kids.size() == 1) x->kids.push_back(chr(s.pick(al)));
			int seeds = i == 0 && !seeded ? 1 + s.below(2) : s.below(2);
			if (sh == 3 && i && seeds == 0 && s.chance(1, 2)) seeds = 1;
			for (int j = 0; j < seeds; j++) { v.push_back(s.chance(1, 4) ? bracket() : sequence(last, false, 1, true)); seeded = true; }
			l.g.rules[m[i]].body = assemble(v);
		}
	}
	Lang make()
	{
		static const char *names[] = {"E", "T", "F", "Add", "Sub", "Mul", "Prim", "N", "Mem", "Call", "x1", "x2", "x3", "x4", "x5", "x6"};
		int layers = 1 + s.below(thorough ? 4 : 3), n = 0;
		if (s.chance(1, 3)) { groups.push_back({}); n = 1; shape.push_back(9); groups[0] = {0}; }      // a plain rule on top
		for (int i = 0; i < layers; i++) {
			int sh = s.weighted({3, 2, 3, 2});
			int k = sh == 0 ? 1 : 2 + s.below(thorough ? 3 : 2);
			std::vector<int> m;
			for (int j = 0; j < k; j++) m.push_back(n++);
			groups.push_back(m);
			shape.push_back(sh);
		}
		if (s.chance(1, 2)) { groups.push_back({n++}); shape.push_back(9); }
		l.g.rules.resize(n);
		l.ingroup.assign(n, false);
		l.head.assign(n, false);
		for (int i = 0; i < n; i++) l.g.rules[i].name = i < 16 ? names[i] : pbt::cat("r", i);
		for (size_t q = 0; q < groups.size(); q++)
			for (size_t j = 0; j < groups[q].size(); j++) {
				l.ingroup[groups[q][j]] = shape[q] != 9;
				l.head[groups[q][j]] = j == 0 || shape[q] == 2;
			}
		for (size_t q = 0; q < groups.size(); q++) {
			if (shape[q] == 9) {
				std::vector<P> v;
				int k = 1 + s.below(3);
				for (int i = 0; i < k; i++) v.push_back(sequence(groups[q].back(), false, 1, true));
				l.g.rules[groups[q][0]].body = assemble(v);
			} else group(groups[q], shape[q]);
		}
		for (int i = 0; i < n; i++) l.order.push_back(i);
		if (s.chance(1, 2)) for (int i = n; i > 1; i--) std::swap(l.order[i - 1], l.order[s.below(i)]);
		return l;
	}
};
}
#endif
