// libs: rlib rex
#include "pbt.h"
#include <set>
extern "C" {
#include "rlib/rmem.h"
#include "rlib/rutf.h"
#include "rex/rexdb.h"
#include "rex/rexdfa.h"
#include "rex/rexnfasimulator.h"
#include "rex/rexdfasimulator.h"
}
using namespace pbt;
typedef uint32_t ch;

struct Tr { ch lo, hi; size_t to; };
struct St { rex_statetype_t type; size_t ud; std::vector<Tr> tr; std::vector<size_t> e; };
typedef std::set<size_t> Set;

struct Model {
	std::vector<St> st;
	Set close(const Set &in) const {
		Set r = in;
		std::vector<size_t> w(in.begin(), in.end());
		while (w.size()) { size_t u = w.back(); w.pop_back(); for (size_t d : st[u].e) if (r.insert(d).second) w.push_back(d); }
		return r;
	}
	Set step(const Set &in, ch x) const {
		Set r;
		for (size_t u : in) for (auto &t : st[u].tr) if (t.lo <= x && x <= t.hi) r.insert(t.to);
		return close(r);
	}
	std::vector<size_t> acc(const Set &in) const { std::vector<size_t> r; for (size_t u : in) if (st[u].type == REX_STATETYPE_ACCEPT) r.push_back(u); return r; }
};

static ch gen_char(Src &s, const std::vector<ch> &pool, bool text)
{
	static const std::vector<ch> edge = {0, 1, 0x7f, 0x80, 0x7ff, 0x800, 0xd7ff, 0xe000, 0xffff, 0x10000, 0x10ffff, 0x7fffffff, 0x80000000u, 0xfffffffeu, 0xffffffffu};
	ch r;
	switch (s.below(6)) {
	case 0: r = s.pick(edge); break;
	case 1: r = (ch)s.bits(); break;
	case 2: case 3: r = 'a' + s.below(6); break;
	default: r = pool.empty() ? 'a' : s.pick(pool) + (ch)s.range(-1, 1);
	}
	if (text && (r > 0x10ffff || (r >= 0xd800 && r < 0xe000) || r == 0)) r = 'a' + r % 6;
	return r;
}

// lists of transitions on their own: kept in order, found by character, merged and complemented
static void lists(Src &s, Ctx &c)
{
	rarray_t *a = r_array_create(sizeof(rex_transition_t)), *n = r_array_create(sizeof(rex_transition_t));
	std::vector<Tr> m;
	std::vector<ch> pool;
	int k = s.below(c.thorough ? 14 : 8);
	size_t dsts = 1 + s.below(3);
	std::string d = "transitions:";
	for (int i = 0; i < k; i++) {
		ch lo = gen_char(s, pool, false), hi = s.chance(1, 3) ? lo : gen_char(s, pool, false);
		size_t to = 5 + s.below(dsts);
		pool.push_back(lo), pool.push_back(hi);
		rex_transition_t *t = rex_transitions_add(a, lo, hi, 3, to);
		if (lo > hi) std::swap(lo, hi);
		c.check(t && t->lowin == lo && t->highin == hi && t->srcuid == 3 && t->dstuid == to && t->type == REX_TRANSITION_INPUT, "the transition added is another one");
		m.push_back({lo, hi, to});
		d += cat(" [", lo, "-", hi, "]->", to);
	}
	c.describe(d);
	auto ordered = [&](rarray_t *x) { for (size_t i = 1; i < r_array_length(x); i++) if (((rex_transition_t *)r_array_slot(x, i - 1))->lowin > ((rex_transition_t *)r_array_slot(x, i))->lowin) return false; return true; };
	c.check(r_array_length(a) == m.size() && ordered(a), "the transitions are not in order");
	std::vector<ch> probe = {0, 1, 0xffffffffu, 0xfffffffeu, 'a', 0x80000000u};
	for (ch p : pool) for (int i = -1; i <= 1; i++) probe.push_back(p + (ch)i);
	rex_transitions_normalize(a);
	c.check(ordered(a), "merged transitions are not in order");
	auto to = [&](ch p) { Set r; for (auto &t : m) if (t.lo <= p && p <= t.hi) r.insert(t.to); return r; };
	bool overlap = false;
	for (ch p : probe) {
		std::multiset<size_t> g;
		for (size_t i = 0; i < r_array_length(a); i++) { rex_transition_t *t = (rex_transition_t *)r_array_slot(a, i); if (t->lowin <= p && p <= t->highin) g.insert(t->dstuid); }
		Set w = to(p);
		c.check(Set(g.begin(), g.end()) == w, cat("merging changes where character ", p, " leads"));
		c.check(g.size() == w.size(), cat("character ", p, " leads to the same state twice after merging"));
		if (g.size() > 1) overlap = true;
	}
	for (size_t i = 0; i < r_array_length(a); i++) for (size_t j = 0; j < r_array_length(a); j++) {
		rex_transition_t *x = (rex_transition_t *)r_array_slot(a, i), *y = (rex_transition_t *)r_array_slot(a, j);
		if (x->dstuid == y->dstuid && i != j) c.check(!(x->highin != REX_CHAR_MAX && y->lowin == x->highin + 1), "neighbouring transitions to one state are left apart");
	}
	// disjoint from here on: by one destination
	if (dsts == 1 || !overlap) {
		bool disjoint = true;
		for (size_t i = 1; i < r_array_length(a); i++) if (((rex_transition_t *)r_array_slot(a, i))->lowin <= ((rex_transition_t *)r_array_slot(a, i - 1))->highin) disjoint = false;
		if (disjoint)
			for (ch p : probe) {
				rex_transition_t *t = rex_transitions_find(a, p);
				Set w = to(p);
				c.check(t ? w.count(t->dstuid) : w.empty(), cat("character ", p, t ? " found in a transition it does not belong to" : " not found in its transition"));
			}
	}
	if (dsts == 1) {
		rex_transitions_negative(n, a, 7, 8);
		c.check(ordered(n), "complemented transitions are not in order");
		for (ch p : probe) {
			rex_transition_t *t = rex_transitions_find(n, p);
			c.check((t != NULL) == to(p).empty(), cat("character ", p, t ? " is in the complement of a class it belongs to" : " is missing in the complement"));
			if (t) c.check(t->srcuid == 7 && t->dstuid == 8, "complement between other states");
		}
		c.tag("complement");
	}
	if (m.size() > 2) c.nontrivial = true;
	c.tag("lists of transitions");
	r_array_destroy(a);
	r_array_destroy(n);
}

static void automaton(Src &s, Ctx &c)
{
	Model m;
	rexdb_t *nfa = rex_db_create(REXDB_TYPE_NFA);
	c.check(rex_db_isempty(nfa), "a new database is not empty");
	size_t n = 1 + s.below(c.thorough ? 14 : 9);
	std::string d = "states:";
	for (size_t i = 0; i < n; i++) {
		St x;
		x.type = s.chance(1, 3) ? REX_STATETYPE_ACCEPT : REX_STATETYPE_NONE;
		x.ud = s.chance(1, 4) ? s.bits() : 100 + i;
		if (s.chance(1, 6)) {
			rexstate_t *own = rex_state_create(i, x.type);
			c.check(rex_db_insertstate(nfa, own) == i && rex_db_getstate(nfa, i) == own, "the state inserted is not the one found");
		} else {
			c.check(rex_db_createstate(nfa, x.type) == i, "states are not numbered in order");
		}
		rex_state_setuserdata(rex_db_getstate(nfa, i), x.ud);
		m.st.push_back(x);
		if (x.type == REX_STATETYPE_ACCEPT) d += cat(" ", i, "*");
	}
	d += cat(" of ", n, ", transitions:");
	std::vector<ch> pool;
	size_t nt = s.below(n * 3 + 2);
	for (size_t i = 0; i < nt; i++) {
		size_t from = s.below(n), to = s.below(n);
		if (s.chance(1, 3)) {
			rex_transition_t *t = rex_db_addtrasition_e(nfa, from, to);
			c.check(t && t->type == REX_TRANSITION_EMPTY && t->srcuid == from && t->dstuid == to, "the empty transition added is another one");
			m.st[from].e.push_back(to);
			d += cat(" ", from, "-->", to);
		} else {
			ch lo = gen_char(s, pool, false), hi = s.chance(1, 2) ? lo : gen_char(s, pool, false);
			rex_transition_t *t = rex_db_addrangetrasition(nfa, lo, hi, from, to);
			pool.push_back(lo), pool.push_back(hi);
			if (lo > hi) std::swap(lo, hi);
			c.check(t && t->lowin == lo && t->highin == hi && t->srcuid == from && t->dstuid == to, "the transition added is another one");
			m.st[from].tr.push_back({lo, hi, to});
			d += cat(" ", from, "-[", lo, "-", hi, "]->", to);
		}
	}
	size_t start = s.chance(1, 2) ? 0 : s.below(n);
	d += cat(" start ", start);
	c.describe(d);
	size_t count = 0;
	for (auto &x : m.st) count += x.tr.size();
	c.check(rex_db_numstates(nfa) == n && rex_db_numtransitions(nfa) == count && !rex_db_isempty(nfa), "the numbers of states and transitions");
	c.check(!rex_db_getstate(nfa, n) && !rex_db_getstate(nfa, (size_t)-1) && !rex_db_addrangetrasition(nfa, 'a', 'b', n, 0) && !rex_db_addtrasition_e(nfa, n + 1, 0), "a state that does not exist is found");

	bool hashed = false;
	rexdb_t *dfadb = rex_db_createdfa(nfa, start);
	c.check(dfadb != NULL, "no DFA");
	c.check(!rex_db_addtrasition_e(dfadb, 1, 1) && rex_db_addexpression_s(dfadb, -1, "a", 1) < 0 && rex_db_addexpression(dfadb, -1, "a", 1, 1) < 0, "a deterministic automaton takes expressions or empty transitions");
	c.check(rex_db_numstates(nfa) == n && rex_db_numtransitions(nfa) == count, "conversion changes the automaton converted");
	bool sub = s.chance(1, 2);
	rexdfa_t *dfa = rex_db_todfa(dfadb, sub);
	c.check(dfa->nstates == rex_db_numstates(dfadb) && dfa->ntrans == rex_db_numtransitions(dfadb) && dfa->naccsubstates == rex_db_numaccsubstates(dfadb) && dfa->nsubstates == (sub ? rex_db_numsubstates(dfadb) : 0), "sizes of the tables");
	for (rexuint_t st = 0; st < dfa->nstates; st++) {
		rexdfs_t *q = rex_dfa_state(dfa, st);
		uint64_t next = 0;
		rexuint_t prev = 0;
		for (rexuint_t t = 0; t < q->ntrans; t++) {
			rexdft_t *tr = rex_dfa_transition(dfa, st, t);
			c.check(tr->lowin == next && tr->highin >= tr->lowin, "DFA transitions leave a gap or overlap");
			c.check(tr->state < dfa->nstates, "DFA transition to a missing state");
			c.check(!t || prev != tr->state, "neighbouring DFA transitions to one state");
			prev = tr->state;
			next = (uint64_t)tr->highin + 1;
		}
		c.check(next == 0x100000000ull, "DFA transitions do not cover every character");
		c.check(!rex_dfa_transition(dfa, st, q->ntrans) && !rex_dfa_substate(dfa, st, q->nsubstates) && !rex_dfa_accsubstate(dfa, st, q->naccsubstates), "more items than there are");
		rexstate_t *x = rex_db_getstate(dfadb, st);
		if (r_array_length(x->subset)) {
			size_t f = rex_db_findstate(dfadb, x->subset);
			c.check(f != (size_t)-1, "a set of states is not found");
			rexstate_t *y = rex_db_getstate(dfadb, f);
			c.check(r_array_length(y->subset) == r_array_length(x->subset) && !memcmp(r_array_slot(x->subset, 0), r_array_slot(y->subset, 0), r_array_length(x->subset) * sizeof(size_t)), "another set of states is found");
		}
	}
	c.check(!rex_dfa_state(dfa, dfa->nstates) && rex_dfa_state(dfa, 0)->type == REX_STATETYPE_DEAD && rex_dfa_state(dfa, 1)->type == REX_STATETYPE_START, "the dead and the start state");
	unsigned hb = 1 + s.below(4), bits = 1 + s.below(8);
	if (hb * bits <= 14) {
		int r = rex_dfa_hash(dfa, hb, bits);
		c.check((r == 0) == (hb * bits >= 3), cat("start table of ", hb, " characters of ", bits, " bits: ", r));
		hashed = r == 0;
		if (hashed && s.chance(1, 3)) rex_dfa_hash(dfa, hb, bits);
	}
	rex_nfasimulator_t *ns = rex_nfasimulator_create();
	rex_dfasimulator_t *ds = rex_dfasimulator_create();
	int words = 3 + s.below(6);
	for (int w = 0; w < words; w++) {
		bool text = s.chance(1, 3);
		size_t l = s.below(c.thorough ? 24 : 12);
		std::vector<ch> in;
		std::string d = text ? " text:" : " input:", bytes;
		std::vector<size_t> off(1, 0);
		Set cur = m.close({start});
		for (size_t i = 0; i < l; i++) {
			ch x = gen_char(s, pool, text);
			if (s.chance(3, 4) && cur.size()) {      // a character that leads on
				std::vector<Tr> o;
				for (size_t u : cur) o.insert(o.end(), m.st[u].tr.begin(), m.st[u].tr.end());
				if (o.size()) { auto &t = s.pick(o); x = s.chance(1, 2) ? t.lo : s.chance(1, 2) ? t.hi : (ch)(t.lo + s.below((uint64_t)t.hi - t.lo + 1)); }
				if (text && (x > 0x10ffff || (x >= 0xd800 && x < 0xe000) || x == 0)) x = 'a' + x % 6;
			}
			cur = m.step(cur, x);
			in.push_back(x);
			d += cat(" ", x);
			if (text) { char b[8]; int k = r_utf8_wctomb(x, (unsigned char *)b, 6); c.check(k > 0, "encoding"); bytes.append(b, k); off.push_back(bytes.size()); }
			else off.push_back(i + 1);
		}
		c.append(d);
		// the reference
		std::vector<std::vector<size_t>> acc(1);
		size_t live = 0, longest = 0;
		cur = m.close({start});
		std::vector<Set> sets(1, cur);
		for (size_t i = 1; i <= l; i++) {
			cur = m.step(cur, in[i - 1]);
			sets.push_back(cur);
			acc.push_back(m.acc(cur));
			if (cur.size()) live = i;
			if (acc[i].size()) longest = i;
			if (acc[i].size() > 1) c.tag("several accepting states at once");
		}
		if (longest > 1) c.nontrivial = true;
		size_t total = 0;
		for (auto &a : acc) total += a.size();
		// stepping the automaton itself
		auto nfacheck = [&](size_t upto, const char *what) {
			std::vector<std::multiset<size_t>> g(l + 1);
			size_t last = 0;
			for (size_t i = 0; i < r_array_length(ns->accepts); i++) {
				rex_accept_t *a = (rex_accept_t *)r_array_slot(ns->accepts, i);
				c.check(a->count >= 1 && a->count <= upto && a->count >= last, cat(what, ": accept outside the input or out of order"));
				c.check(a->inputsize == off[a->count], cat(what, ": accept at byte ", a->inputsize, ", expected ", off[a->count]));
				last = a->count;
				c.check(a->state->type == REX_STATETYPE_ACCEPT && a->state->userdata == m.st[a->state->uid].ud, cat(what, ": accepting state"));
				g[a->count].insert(a->state->uid);
			}
			for (size_t i = 1; i <= upto; i++) c.check(g[i] == std::multiset<size_t>(acc[i].begin(), acc[i].end()), cat(what, ": ", g[i].size(), " accepting states after ", i, " characters, expected ", acc[i].size()));
		};
		rex_nfasimulator_start(ns, nfa, start);
		for (size_t i = 1; i <= l; i++) {
			size_t r = rex_nfasimulator_next(ns, nfa, in[i - 1], off[i] - off[i - 1]);
			c.check(r == sets[i].size(), cat("the automaton is in ", r, " states after ", i, " characters, expected ", sets[i].size()));
		}
		nfacheck(l, "NFA steps");
		// stepping the converted one, and its tables
		rex_dfasimulator_start(ds, dfadb, REX_DFA_STARTSTATE);
		rexuint_t st = REX_DFA_STARTSTATE;
		size_t nacc = 0;
		for (size_t i = 1; i <= l; i++) {
			st = rex_dfa_next(dfa, st, in[i - 1]);
			rexdfs_t *q = rex_dfa_state(dfa, st);
			c.check(q != NULL, "no such DFA state");
			c.check((st == REX_DFA_DEADSTATE) == sets[i].empty(), cat("the DFA is ", st ? "not " : "", "in the dead state after ", i, " characters, the automaton in ", sets[i].size(), " states"));
			c.check((q->type == REX_STATETYPE_ACCEPT) == !acc[i].empty(), cat("the DFA state after ", i, " characters ", acc[i].empty() ? "accepts" : "does not accept"));
			c.check(q->naccsubstates == acc[i].size(), cat("the DFA reports ", q->naccsubstates, " accepting states after ", i, " characters, expected ", acc[i].size()));
			for (rexuint_t a = 0; a < q->naccsubstates; a++) {
				rexdfss_t *ss = rex_dfa_accsubstate(dfa, st, a);
				c.check(ss && ss->type == REX_STATETYPE_ACCEPT && ss->uid == acc[i][a] && ss->userdata == m.st[acc[i][a]].ud, cat("accepting state ", a, " after ", i, " characters is another one"));
			}
			if (sub) {
				c.check(q->nsubstates == sets[i].size(), "the DFA state stands for another number of states");
				rexuint_t a = 0;
				for (size_t u : sets[i]) { rexdfss_t *ss = rex_dfa_substate(dfa, st, a++); c.check(ss && ss->uid == u && ss->type == (rexuint_t)m.st[u].type && ss->userdata == m.st[u].ud, "the DFA state stands for other states"); }
			}
			rex_dfasimulator_next(ds, dfadb, in[i - 1], off[i] - off[i - 1]);
			if (!sets[i].empty() || i <= live + 1) c.check(ds->next && ds->next->uid == st, "DFA simulation and DFA tables reach different states");
			if (acc[i].size()) nacc++;
			c.check(r_array_length(ds->accepts) == nacc, cat("DFA simulation: ", r_array_length(ds->accepts), " accepts after ", i, " characters, expected ", nacc));
			if (acc[i].size()) { rex_accept_t *a = (rex_accept_t *)r_array_lastslot(ds->accepts); c.check(a->count == i && a->inputsize == off[i] && a->state->uid == st, "DFA simulation: last accept"); }
		}
		if (text) {
			std::vector<char> b(bytes.begin(), bytes.end());
			b.shrink_to_fit();
			const char *p = b.empty() ? "" : b.data();
			size_t r = rex_nfasimulator_run(ns, nfa, start, p, bytes.size());
			c.check(r == total, cat("NFA run reports ", r, " accepts, expected ", total));
			nfacheck(l, "NFA run");
			b.push_back(0);
			r = rex_nfasimulator_run_s(ns, nfa, start, b.data());
			c.check(r == total, cat("NFA run over a terminated text reports ", r, " accepts, expected ", total));
			b.pop_back();
			b.shrink_to_fit();
			p = b.empty() ? "" : b.data();
			r = rex_dfasimulator_run(ds, dfadb, REX_DFA_STARTSTATE, p, bytes.size());
			c.check(r == off[longest], cat("DFA run reports a match of ", r, " bytes, expected ", off[longest]));
			c.tag("text");
		}
		// the start table never rules out a beginning of something accepted
		if (hashed) {
			size_t first = 0;
			for (size_t i = 1; i <= l && !first; i++) if (acc[i].size()) first = i;
			if (first) {
				unsigned e = 0;
				for (unsigned i = 0; i < hb; i++) e = (e << bits) | ((i < first ? in[i] : (unsigned)s.bits()) & ((1u << bits) - 1));
				c.check(REX_BITARRAY_GET(dfa->bits, e), cat("the start table rules out a beginning of a match (", hb, " characters of ", bits, " bits)"));
				c.tag("start table");
			}
		}
	}
	if (dfa->nstates > 4) c.tag("more than 4 DFA states");
	// a state copied
	{
		rexstate_t *x = rex_db_getstate(nfa, s.below(n)), *y = (rexstate_t *)x->obj.copy((robject_t *)x);
		c.check(y->uid == x->uid && y->type == x->type && y->userdata == x->userdata, "a copied state differs");
		c.check(r_array_length(y->trans) == r_array_length(x->trans) && r_array_length(y->etrans) == r_array_length(x->etrans), "a copied state has other transitions");
		for (size_t i = 0; i < r_array_length(x->trans); i++) c.check(!memcmp(r_array_slot(x->trans, i), r_array_slot(y->trans, i), sizeof(rex_transition_t)), "a copied state has another transition");
		rex_state_destroy(y);
	}
	rex_nfasimulator_destroy(ns);
	rex_dfasimulator_destroy(ds);
	rex_dfa_destroy(dfa);
	rex_db_destroy(dfadb);
	rex_db_destroy(nfa);
}

static void one(Src &s, Ctx &c)
{
	size_t mem0 = r_debug_get_allocmem();
	if (s.chance(1, 4)) lists(s, c);
	else automaton(s, c);
	c.check(r_debug_get_allocmem() == mem0, "memory not returned");
}

int main(int argc, char **argv)
{
	Config cfg;
	cfg.id = "X07";
	cfg.rule = "A case is a random automaton built state by state (1-9 states, thorough 1-14; empty transitions, overlapping ranges over all 32-bit characters, cycles, any state as start), converted to a deterministic one and stepped with 3-8 inputs in every form, compared after each character with a set of states computed here; or a random list of transitions that is ordered, merged, searched and complemented. Non-trivial: an accepted input of at least 2 characters, or a list of more than 2 transitions.";
	cfg.quick_cases = 40000;
	cfg.thorough_cases = 1500000;
	cfg.fn = one;
	return run_main(argc, argv, cfg);
}
