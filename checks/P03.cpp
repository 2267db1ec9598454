// libs: rlib rvm rpa
#include "pbt.h"
#include "peg.h"
#include "rpah.h"
using namespace pbt;

// Tree navigation recomputed from the nesting of the expected sequence.
struct Nav {
	std::vector<long> match, parent;                 // by record index
	std::vector<std::vector<long>> kids;             // start indices of children, by start index
	std::vector<long> roots;
	explicit Nav(const peg::Recs &r) : match(r.size(), -1), parent(r.size(), -1), kids(r.size())
	{
		std::vector<long> st;
		for (size_t i = 0; i < r.size(); i++) {
			if (!r[i].end) {
				if (st.empty()) roots.push_back(i); else { kids[st.back()].push_back(i); parent[i] = st.back(); }
				st.push_back(i);
			} else {
				match[i] = st.back(); match[st.back()] = i;
				st.pop_back();
				parent[i] = st.empty() ? -1 : st.back();
			}
		}
	}
};

static void check_nav(Ctx &c, rarray_t *rec, const peg::Recs &want, long base)
{
	Nav nav(want);
	long n = want.size();
	auto as = [&](long start, int type) { return start < 0 ? -1 : base + (type == RPA_RECORD_START ? start : nav.match[start]); };
	for (long i = 0; i < n; i++) {
		long st = want[i].end ? nav.match[i] : i;
		const std::vector<long> &kids = nav.kids[st];
		const std::vector<long> &sib = nav.parent[st] < 0 ? nav.roots : nav.kids[nav.parent[st]];
		size_t me = std::find(sib.begin(), sib.end(), st) - sib.begin();
		for (int type : {RPA_RECORD_START, RPA_RECORD_END}) {
			std::string w = cat(" of record ", base + i, " type ", type);
			c.check(rpa_recordtree_get(rec, base + i, type) == as(st, type), "counterpart" + w);
			c.check(rpa_recordtree_firstchild(rec, base + i, type) == (kids.empty() ? -1 : as(kids.front(), type)), "first child" + w);
			c.check(rpa_recordtree_lastchild(rec, base + i, type) == (kids.empty() ? -1 : as(kids.back(), type)), "last child" + w);
			if (nav.parent[st] >= 0 || base == 0) {
				c.check(rpa_recordtree_next(rec, base + i, type) == (me + 1 < sib.size() ? as(sib[me + 1], type) : -1), "next sibling" + w);
				c.check(rpa_recordtree_prev(rec, base + i, type) == (me ? as(sib[me - 1], type) : -1), "previous sibling" + w);
				c.check(rpa_recordtree_parent(rec, base + i, type) == as(nav.parent[st], type), "parent" + w);
			}
		}
		c.check(rpa_recordtree_size(rec, base + i) == nav.match[st] - st + 1, cat("subtree size of record ", base + i));
	}
}

static long walk_cb(rarray_t *, long rec, rpointer u) { ((std::vector<long> *)u)->push_back(rec); return 0; }

struct Stop { std::vector<long> seen; size_t after; };
static long stop_cb(rarray_t *, long rec, rpointer u) { Stop *q = (Stop *)u; q->seen.push_back(rec); return q->seen.size() > q->after ? -1 : 0; }

// the kind of a record: set on both ends of its subtree, read back from either
static void usertypes(Src &s, Ctx &c, rarray_t *rec, const Nav &nav, long base)
{
	long n = rpa_records_length(rec);
	std::vector<rparecord_t> m;
	for (long k = 0; k < n; k++) { c.check(rpa_records_slot(rec, k) == rpa_record_get(rec, k), "slot"); m.push_back(*rpa_record_get(rec, k)); }
	int ops = 1 + s.below(6);
	for (int i = 0; i < ops; i++) {
		static const rvalset_t op[] = {RVALSET_OR, RVALSET_AND, RVALSET_XOR, RVALSET_NONE};
		int o = s.below(4);
		uint32_t v = s.chance(1, 2) ? s.below(32) : (uint32_t)s.bits();
		long at = s.below(nav.match.size()), st = std::min(at, nav.match[at]);
		if (s.chance(1, 8)) {      // nowhere
			at = s.chance(1, 2) ? -1 - (long)s.below(3) : n + (long)s.below(3);
			c.check(rpa_record_getusertype(rec, at) == -1 && rpa_record_getruleuid(rec, at) == -1, cat("record ", at, " outside the array has a kind or an identifier"));
			rpa_record_setusertype(rec, at, v, op[o]);
			continue;
		}
		rpa_record_setusertype(rec, base + at, v, op[o]);
		for (long k : {st, nav.match[st]}) { auto &u = m[base + k].usertype; u = o == 0 ? u | v : o == 1 ? u & v : o == 2 ? u ^ v : v; }
		c.check((uint32_t)rpa_record_getusertype(rec, base + at) == m[base + st].usertype, cat("kind of record ", base + at, " is ", rpa_record_getusertype(rec, base + at), ", expected ", m[base + st].usertype));
		c.check(rpa_record_getruleuid(rec, base + at) == (long)m[base + st].ruleuid, cat("identifier of record ", base + at));
		int d = 'a' + s.below(26);
		uint32_t u = m[base + at].usertype;
		c.check(rpa_record_optchar(rpa_record_get(rec, base + at), d) == (u & RPA_MATCH_OPTIONAL ? (u & RPA_MATCH_MULTIPLE ? '*' : '?') : u & RPA_MATCH_MULTIPLE ? '+' : d), cat("repetition mark of kind ", u));
		c.check(rpa_record_loopchar(rpa_record_get(rec, base + at), d) == (u & RPA_LOOP_PATH ? (u & RPA_NONLOOP_PATH ? 'R' : 'L') : u & RPA_NONLOOP_PATH ? 'N' : d), cat("loop mark of kind ", u));
	}
	for (long k = 0; k < n; k++) c.check(!memcmp(rpa_record_get(rec, k), &m[k], sizeof m[k]), cat("record ", k, " changed by setting the kind of another"));
	// moved within a copy
	rarray_t *cp = (rarray_t *)rec->obj.copy((robject_t *)rec);
	long size = s.below(n + 1), src = s.below(n - size + 1), dst = s.chance(1, 6) ? n - size + 1 + (long)s.below(3) : (long)s.below(n - size + 1);
	int r = rpa_recordtree_move(cp, dst, src, size);
	c.check((r == 0) == (dst + size <= n), cat("moving ", size, " records from ", src, " to ", dst, " of ", n, " gives ", r));
	if (r == 0) { std::vector<rparecord_t> t(m.begin() + src, m.begin() + src + size); std::copy(t.begin(), t.end(), m.begin() + dst); }
	c.check(rpa_records_length(cp) == n, "moving records changes their number");
	for (long k = 0; k < n; k++) c.check(!memcmp(rpa_record_get(cp, k), &m[k], sizeof m[k]), cat("record ", k, " after moving ", size, " records from ", src, " to ", dst));
	rpa_records_destroy(cp);
}

// texts of tens of thousands of characters: positions, sizes and numbers of records beyond 16 bits
static void longtext(Src &s, Ctx &c)
{
	peg::GenOpt o;
	if (s.chance(1, 3)) o.wide = {0xe9, 0x3b1, 0x20ac, 0x1f600};
	o.maxdepth = 1 + s.below(2);
	peg::Gen gen(s, o, 1 + s.below(4));
	peg::Grammar g = s.chance(1, 2) ? peg::idiom(s, o.alpha) : gen.grammar();
	int n = g.rules.size();
	int top = n;
	g.rules.push_back({"long__", nullptr});
	g.rules[top].body = peg::seq({peg::grp(peg::alt({peg::seq({peg::ref(s.below(n))}), peg::seq({peg::dot()})}), peg::PLUS)});
	std::vector<uint32_t> al = o.alpha;
	al.insert(al.end(), o.wide.begin(), o.wide.end());
	std::vector<peg::W> part;
	for (int i = 0; i < 6; i++) part.push_back(peg::gen_input(s, g, s.below(n), al, 30));
	uint64_t seed = s.bits() | 1;
	size_t size = s.pick(std::vector<size_t>{3000, 33000, 66000, 140000}) + s.below(2000);
	peg::W in;
	while (in.size() < size) {
		seed = seed * 6364136223846793005ULL + 1442695040888963407ULL;
		auto &w = part[(seed >> 33) % 6];
		in.insert(in.end(), w.begin(), w.end());
		if ((seed >> 40) % 3) in.push_back('\n');
	}
	peg::Style st;
	std::string text = peg::print_grammar(s, st, g), bytes = peg::utf8s(in);
	c.describe(cat("grammar ", quote(text), "\n rule long__ on ", in.size(), " characters: ", quote(bytes.substr(0, 200)), "..."));
	{
		peg::W head(in.begin(), in.begin() + 1000);
		peg::Eval ev(g, head);
		peg::Recs r;
		try { ev.rule(top, 0, r); } catch (peg::Budget &) { throw Discard(); }
		if (ev.cost > 60000 || ev.maxdepth > 100) throw Discard();
	}
	peg::Eval ev(g, in);
	ev.limit = 30000000;
	peg::Recs want;
	try { ev.rule(top, 0, want); } catch (peg::Budget &) { throw Discard(); }
	if (ev.cost > 20000000 || ev.maxdepth > 300) throw Discard();
	std::vector<size_t> off(1, 0);
	for (auto ch : in) off.push_back(off.back() + (ch < 0x80 ? 1 : ch < 0x800 ? 2 : ch < 0x10000 ? 3 : 4));
	rpah::Db db;
	c.check(db.load(text) && db.compile(), cat("grammar rejected: ", db.error()));
	rarray_t *rec = rpa_records_create();
	{
		rpah::Stat stt(db);
		std::unique_ptr<char[]> buf(new char[bytes.size()]);
		memcpy(buf.get(), bytes.data(), bytes.size());
		long got = rpa_stat_parse(stt.p, db.rid("long__"), RPA_ENCODING_UTF8, buf.get(), buf.get(), buf.get() + bytes.size(), rec);
		c.check(got == (long)bytes.size(), cat("parse length ", got, " of ", bytes.size()));
		c.check(rpa_records_length(rec) == (long)want.size(), cat("records ", rpa_records_length(rec), ", reference ", want.size()));
		std::vector<long> mate(want.size(), -1), stk;
		for (size_t k = 0; k < want.size(); k++) {
			if (!want[k].end) stk.push_back(k);
			else { mate[k] = stk.back(); mate[stk.back()] = k; stk.pop_back(); }
			rparecord_t *p = rpa_record_get(rec, k);
			const peg::Rec &w = want[k];
			if (p->type != (uint32_t)(w.end ? RPA_RECORD_END : RPA_RECORD_START) || g.rules[w.rule].name != p->rule || p->inputoff != off[w.pos] || p->input != buf.get() + off[w.pos] || p->inputsiz != off[w.pos + w.len] - off[w.pos])
				c.fail(cat("record ", k, " of ", want.size(), ": ", p->rule, p->type == RPA_RECORD_START ? " start " : " end ", p->inputoff, "+", p->inputsiz, ", reference ", g.rules[w.rule].name, w.end ? " end " : " start ", off[w.pos], "+", off[w.pos + w.len] - off[w.pos]));
		}
		c.check(rpa_recordtree_get(rec, 0, RPA_RECORD_END) == (long)want.size() - 1, "counterpart of the first record");
		for (int k = 0; k < 20; k++) {
			long i = want.size() - 1 - (long)(s.below(40) % want.size()), st = std::min(i, mate[i]);
			c.check(rpa_recordtree_get(rec, i, RPA_RECORD_START) == st && rpa_recordtree_size(rec, i) == mate[st] - st + 1, cat("counterpart or size of record ", i));
		}
		// the same from a place far behind
		long pos = s.below(in.size());
		peg::Eval e2(g, in);
		peg::Recs none;
		int r = s.below(n);
		long len = -1;
		try { len = e2.rule(r, pos, none); } catch (peg::Budget &) { none.clear(); r = -1; }
		if (r >= 0 && e2.cost < 1000000 && e2.maxdepth < 300) {
			const char *at = buf.get() + off[pos];
			long m = rpa_stat_match(stt.p, db.rid(g.rules[r].name), RPA_ENCODING_UTF8, at, buf.get(), buf.get() + bytes.size());
			c.check(std::max(m, 0L) == (len > 0 ? (long)(off[pos + len] - off[pos]) : 0), cat("rule ", g.rules[r].name, " at ", off[pos], " matches ", m));
		}
	}
	rpa_records_destroy(rec);
	db.close();
	c.tag("long text");
	if (want.size() > 65536) c.tag("more than 65536 records");
	if (bytes.size() > 65536) c.tag("more than 65536 bytes");
	if (want.size() >= 8) c.nontrivial = true;
}

static void one(Src &s, Ctx &c)
{
	if (s.chance(1, 400)) return longtext(s, c);
	size_t mem0 = r_debug_get_allocmem();
	peg::GenOpt o;
	if (s.chance(1, 4)) o.alpha = {'a', 'b'};
	if (s.chance(1, 6)) o.wide = {0xe9, 0x3b1, 0x20ac, 0x1f600};
	o.maxdepth = 1 + s.below(c.thorough ? 4 : 3);
	int n = 1 + s.below(c.thorough ? 8 : 6);
	peg::Gen gen(s, o, n);
	peg::Grammar g = s.chance(1, 3) ? peg::idiom(s, o.alpha) : gen.grammar();
	peg::rename(s, g);
	n = g.rules.size();
	peg::Style st;
	st.filler = true;
	std::string text = peg::print_grammar(s, st, g);
	c.describe(cat("grammar ", quote(text)));
	rpah::Db db;
	c.check(db.load(text), cat("grammar rejected: ", db.error()));
	c.check(db.compile(), cat("grammar does not compile: ", db.error()));
	std::vector<uint32_t> al = o.alpha;
	al.insert(al.end(), o.wide.begin(), o.wide.end());
	rarray_t *rec = rpa_records_create();
	{
		rpah::Stat stt(db);
		int ni = 2 + s.below(4);
		std::unique_ptr<char[]> lastbuf;
		std::string last;
		bool append = s.chance(1, 4);       // keep earlier results in the array
		for (int i = 0; i < ni; i++) {
			int r = s.chance(1, 2) ? 0 : s.below(n);
			peg::W in = peg::gen_input(s, g, r, al, c.thorough ? 60 : 30);
			std::string bytes = peg::utf8s(in);
			long pos = s.chance(1, 5) ? s.below(in.size() + 1) : 0;
			peg::Eval ev(g, in);
			peg::Recs want;
			long len;
			try { len = ev.rule(r, pos, want); } catch (peg::Budget &) { c.tag("reference budget"); continue; }
			if (ev.cost > 100000) { c.tag("too expensive"); continue; }
			if (want.size() > 3000) { c.tag("too many records"); continue; }
			if (len < 0) len = 0;
			std::vector<size_t> off;                       // byte offset of every character
			for (size_t k = 0; k <= in.size(); k++) off.push_back(peg::utf8s(peg::W(in.begin(), in.begin() + k)).size());
			c.append(cat("\n rule ", g.rules[r].name, " on ", quote(bytes), " at ", off[pos], append ? " (appending)" : ""));
			std::unique_ptr<char[]> fresh(new char[bytes.size()]);
			if (!append || bytes.size() > last.size() || s.chance(1, 3)) lastbuf = std::move(fresh), last.assign(bytes.size(), 0);
			else c.tag("same memory again");       // read into the memory of the previous input
			std::unique_ptr<char[]> &buf = lastbuf;
			memcpy(buf.get() + last.size() - bytes.size(), bytes.data(), bytes.size());
			char *tx = buf.get() + last.size() - bytes.size();
			if (!append) r_array_setlength(rec, 0);
			long base = rpa_records_length(rec);
			std::vector<rparecord_t> before;
			for (long k = 0; k < base; k++) before.push_back(*rpa_record_get(rec, k));
			long rid = db.rid(g.rules[r].name);
			long got = rpa_stat_parse(stt.p, rid, RPA_ENCODING_UTF8, tx + off[pos], tx, tx + bytes.size(), rec);
			c.check(got == (long)(off[pos + len] - off[pos]), cat("parse length ", got, ", reference ", off[pos + len] - off[pos]));
			for (long k = 0; k < base; k++) {
				rparecord_t *p = rpa_record_get(rec, k);
				c.check(p->input == before[k].input && p->inputsiz == before[k].inputsiz && p->type == before[k].type && p->ruleid == before[k].ruleid, cat("earlier record ", k, " changed"));
			}
			if (!len) {
				c.tag("no match");
				r_array_setlength(rec, base);
				continue;
			}
			c.check(rpa_records_length(rec) - base == (long)want.size(), cat("records ", rpa_records_length(rec) - base, ", reference ", want.size()));
			for (size_t k = 0; k < want.size(); k++) {
				rparecord_t *p = rpa_record_get(rec, base + k);
				const peg::Rec &w = want[k];
				std::string at = cat(" at record ", base + k, ": ", p->rule, p->type == RPA_RECORD_START ? " start " : " end ", p->inputoff, "+", p->inputsiz, ", reference ", g.rules[w.rule].name, w.end ? " end " : " start ", off[w.pos], "+", off[w.pos + w.len] - off[w.pos]);
				c.check(p->type == (w.end ? RPA_RECORD_END : RPA_RECORD_START), "type" + at);
				c.check(g.rules[w.rule].name == p->rule, "rule" + at);
				c.check((long)p->ruleid == db.rid(g.rules[w.rule].name), "rule id" + at);
				c.check(p->inputoff == off[w.pos] && p->input == tx + off[w.pos], "offset" + at);
				c.check(p->inputsiz == off[w.pos + w.len] - off[w.pos], "size" + at);
			}
			check_nav(c, rec, want, base);
			c.check(rpa_recordtree_get(rec, -1, RPA_RECORD_START) == -1 && rpa_recordtree_get(rec, rpa_records_length(rec), RPA_RECORD_START) == -1 && !rpa_record_get(rec, rpa_records_length(rec)), "records outside the array");
			// subtree copy and walk from a random node
			Nav nav(want);
			long node = s.below(want.size()), nst = want[node].end ? nav.match[node] : node;
			rarray_t *cp = rpa_records_create();
			long sz = rpa_recordtree_copy(cp, rec, base + node);
			bool same = sz == nav.match[nst] - nst + 1 && rpa_records_length(cp) == sz;
			for (long k = 0; same && k < sz; k++) same = memcmp(rpa_record_get(cp, k), rpa_record_get(rec, base + nst + k), sizeof(rparecord_t)) == 0;
			rpa_records_destroy(cp);
			c.check(same, cat("copy of the subtree at record ", base + node));
			std::vector<long> visited;
			long wr = rpa_recordtree_walk(rec, base + node, 0, walk_cb, &visited);
			{
				bool ok = wr == 0 && (long)visited.size() == sz;
				for (long k = 0; ok && k < sz; k++) ok = visited[k] == base + nst + k;
				c.check(ok, cat("walk of the subtree at record ", base + node));
				Stop q;
				q.after = s.below(sz);
				wr = rpa_recordtree_walk(rec, base + node, 0, stop_cb, &q);
				c.check(wr == -1 && q.seen.size() == q.after + 1 && std::equal(q.seen.begin(), q.seen.end(), visited.begin()), cat("walk stopped at record ", q.after, " of the subtree goes on"));
			}
			if (s.chance(1, 2)) { usertypes(s, c, rec, nav, base); c.tag("kinds set"); }
			c.tag("match");
			if (want.size() >= 8) { c.nontrivial = true; c.tag("8 or more records"); }
		}
	}
	rpa_records_destroy(rec);
	db.close();
	c.check(r_debug_get_allocmem() == mem0, cat("memory not returned: ", (long)(r_debug_get_allocmem() - mem0)));
}

int main(int argc, char **argv)
{
	Config cfg;
	cfg.id = "P03";
	cfg.rule = "a random or idiomatic grammar and inputs derived from it; every record and every navigation step compared; non-trivial: some parse produced eight or more records";
	cfg.quick_cases = 12000;
	cfg.thorough_cases = 500000;
	cfg.fn = one;
	cfg.assumptions = {"reference: the records of the rules on the final derivation, from a direct evaluation of the grammar AST", "records after a failed parse are not judged"};
	return run_main(argc, argv, cfg);
}
