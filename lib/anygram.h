// One of the grammar families (plain, idiomatic, left-recursive) with its reference evaluator, for checks that don't care which.
#ifndef VERIF_ANYGRAM_H
#define VERIF_ANYGRAM_H
#include "lr.h"
namespace anyg {
// the rules that are evaluated inside '^' or behind '-', where failing is the normal course of things
inline void refs(const peg::P &n, bool neg, bool all, std::set<int> &out)
{
	if (n->k == peg::REF && (neg || all)) out.insert(n->rule);
	for (size_t i = 0; i < n->kids.size(); i++) refs(n->kids[i], neg || n->k == peg::NOT || (n->k == peg::MIN && i > 0), all, out);
}
inline std::set<int> negated(const peg::Grammar &g)
{
	std::set<int> out;
	for (auto &r : g.rules) refs(r.body, false, false, out);
	for (size_t k = 0; k < g.rules.size(); k++) {
		std::set<int> more = out;
		for (int r : out) refs(g.rules[r].body, false, true, more);
		out = more;
	}
	return out;
}
struct Any {
	peg::Grammar g;
	std::vector<bool> ingroup;
	std::vector<int> roots, order;
	std::vector<uint32_t> alpha;          // for inputs
	bool lrec = false;
	std::unique_ptr<peg::Eval> eval(const peg::W &in) const
	{
		if (lrec) return std::unique_ptr<peg::Eval>(new lr::Eval(g, in, ingroup));
		return std::unique_ptr<peg::Eval>(new peg::Eval(g, in));
	}
	std::vector<std::string> pieces(pbt::Src &s, bool tidy, bool filler = false) const
	{
		peg::Style st;
		st.tidy = tidy;
		std::vector<std::string> t;
		size_t fill = filler && s.chance(1, 50) ? s.below(order.size()) : (size_t)-1;
		for (int i : order) {
			t.push_back(peg::print_rule(s, st, g, i) + "\n");
			if (t.size() == fill + 1) t.back() += peg::filler(s, 0);
		}
		return t;
	}
	std::string text(pbt::Src &s, bool tidy, bool filler = false) const
	{
		std::string t;
		for (auto &p : pieces(s, tidy, filler)) t += p;
		return t;
	}
	int root(pbt::Src &s) const { return s.chance(1, 2) ? roots[0] : s.pick(roots); }
};
inline Any make(pbt::Src &s, const std::vector<uint32_t> &al, const std::vector<uint32_t> &wide, bool thorough, bool allow_lr = true)
{
	Any a;
	a.alpha = al;
	if (allow_lr && s.chance(1, 4)) {
		std::vector<uint32_t> both = al;
		if (!wide.empty()) both.insert(both.end(), wide.begin(), wide.end());
		lr::Gen gen(s, both, thorough);
		lr::Lang l = gen.make();
		a.g = l.g;
		a.ingroup = l.ingroup;
		for (size_t i = 0; i < l.head.size(); i++) if (l.head[i]) a.roots.push_back(i);
		a.order = l.order;
		a.lrec = true;
	} else {
		if (s.chance(1, 3)) a.g = peg::idiom(s, al);
		else {
			peg::GenOpt o;
			o.alpha = al;
			o.wide = wide;
			o.maxdepth = 1 + s.below(thorough ? 4 : 3);
			peg::Gen gen(s, o, 1 + s.below(thorough ? 8 : 6));
			a.g = gen.grammar();
		}
		for (size_t i = 0; i < a.g.rules.size(); i++) { a.roots.push_back(i); a.order.push_back(i); }
		if (s.chance(1, 3)) for (size_t i = a.order.size(); i > 1; i--) std::swap(a.order[i - 1], a.order[s.below(i)]);
	}
	peg::rename(s, a.g);
	a.alpha.insert(a.alpha.end(), wide.begin(), wide.end());
	return a;
}
}
#endif
