// libs: rlib rvm rpa
#include "pbt.h"
#include "anygram.h"
#include "rpah.h"
#include <unistd.h>
#include <fcntl.h>
using namespace pbt;

static const std::vector<std::string> TOKENS = {
	"a", "b", "c", "'a'", "\"ab\"", "'", "\"", "(", ")", "[", "]", "[a-c]", "[^a]", "|", "||", "*", "+", "?", "^", "-", "~", ".", "#", "#0x61", "#97", "#x", "-#0x63",
	"<r0>", "<r1>", "<r2>", "<r3>", ":r0:", "::=", "r0 ::= ", "r1 ::= ", "r2 ::=", ":", "=", "<", ">", "{", "}", " ", "\t", "\n", "\n\n", "\r\n", ";", "\\", "\\\n", "\\n",
	"#!emit r0", "#!noemit r1", "#!emitall", "#!emitnone", "#!emitid r0 5", "#!emitid r1 UID 7", "#!abort r2", "#!", "# a remark", "#!emitid r0 x", "#!emitid r0 99999999999999999999", "0", "$", "&", "\xc3\xa9", "\xff", std::string("\0", 1)};

static std::string soup(Src &s)
{
	std::string t;
	int rules = 1 + s.below(4);
	for (int i = 0; i < rules; i++) {
		if (!s.chance(1, 8)) t += cat("r", s.below(4), " ::= ");
		int n = 1 + s.below(6);
		for (int k = 0; k < n; k++) { t += s.pick(TOKENS); if (s.chance(1, 2)) t += " "; }
		t += "\n";
	}
	return t;
}
static void mutate(Src &s, std::string &t)
{
	size_t p = s.below(t.size() + 1);
	switch (s.below(8)) {
	case 0: t.erase(p, 1 + s.below(3)); break;
	case 1: t.insert(p, s.pick(TOKENS)); break;
	case 2: if (p < t.size()) t[p] = (char)s.below(256); break;
	case 3: if (p < t.size()) t.erase(p); break;
	case 4: { size_t q = s.below(t.size() + 1); if (p > q) std::swap(p, q); std::string m = t.substr(p, std::min<size_t>(q - p, 20)); t.insert(s.below(t.size() + 1), m); break; }
	case 5: if (p + 1 < t.size()) std::swap(t[p], t[p + 1]); break;
	case 6: if (p < t.size()) t[p] ^= 1 << s.below(8); break;
	default: { size_t q = s.below(t.size() + 1); t.erase(q, 1 + s.below(30)); break; }
	}
}

// Text that is refused names the place where reading stopped: everything before it can be loaded.
static void check_syntax_error(Ctx &c, rpadbex_t *d, const std::string &t, long r, size_t atleast)
{
	rpa_errinfo_t e;
	memset(&e, 0x55, sizeof e);
	c.check(rpa_dbex_lasterrorinfo(d, &e) == 0, "error information cannot be read");
	c.check(r == -1 && rpa_dbex_lasterror(d) == e.code, "error code and error information differ");
	if (e.code == RPA_E_EXECUTION) { c.tag("refused: too deep"); return; }
	c.check(e.code == RPA_E_SYNTAXERROR && e.mask == (RPA_ERRINFO_CODE | RPA_ERRINFO_OFFSET | RPA_ERRINFO_LINE), cat("refused text reports code ", e.code, " mask ", e.mask));
	c.check(e.offset >= (long)atleast && e.offset < (long)t.size(), cat("refused text of ", t.size(), " bytes (", atleast, " good) reports offset ", e.offset));
	long line = 1;
	for (long i = 0; i <= e.offset; i++) line += t[i] == '\n';
	c.check(e.line == line, cat("offset ", e.offset, " is on line ", line, " but line ", e.line, " is reported"));
	c.tag("refused: syntax error");
	rpah::Db x;
	rpa_dbex_open(x.p);
	long y = rpa_dbex_load(x.p, t.data(), e.offset);
	c.check(y == e.offset, cat("refused at offset ", e.offset, " but the text before it loads as ", y, ", ", x.error()));
}
struct Quiet {
	int keep;
	Quiet() { fflush(stdout); keep = dup(1); int n = open("/dev/null", O_WRONLY); dup2(n, 1); ::close(n); }
	~Quiet() { fflush(stdout); dup2(keep, 1); ::close(keep); }
};
static void dumps(rpadbex_t *d)
{
	Quiet q;
	rpa_dbex_dumpproductions(d);
	rpa_dbex_dumprecords(d);
	rpa_dbex_dumpinfo(d);
	rpa_dbex_dumpuids(d);
	for (long r = rpa_dbex_first(d); r >= 0; r = rpa_dbex_next(d, r)) rpa_dbex_dumptree(d, r), rpa_dbex_dumpcode(d, r);
	rpa_dbex_dumptree(d, 1 << 20);
	rpa_dbex_dumpcode(d, -1);
}
static void run_all(Src &s, Ctx &c, rpah::Db &d, const std::vector<std::string> &ins, const std::string &when)
{
	rpah::Stat st(d, 8192);
	rarray_t *rec = rpa_records_create();
	struct Free { rarray_t *r; ~Free() { rpa_records_destroy(r); } } fr{rec};
	int left = 12;
	for (long r = rpa_dbex_first(d.p); r >= 0 && left-- > 0; r = rpa_dbex_next(d.p, r)) for (auto &in : ins) {
		std::vector<char> buf(in.begin(), in.end());
		const char *b = buf.data(), *e = b + buf.size();
		unsigned enc = s.pick(std::vector<unsigned>{RPA_ENCODING_UTF8, RPA_ENCODING_BYTE, RPA_ENCODING_ICASE_UTF8, RPA_ENCODING_UTF16LE});
		std::string at = cat(when, " rule ", r, " encoding ", enc, " on ", quote(in), ": ");
		long m = rpa_stat_match(st.p, r, enc, b, b, e);
		c.check(m >= -1 && m <= (long)buf.size(), cat(at, "match gives ", m));
		if (m < 0) c.check(rpa_stat_lasterror(st.p) != 0, at + "match fails without an error code");
		r_array_setlength(rec, 0);
		long p = rpa_stat_parse(st.p, r, enc, b, b, e, rec);
		c.check(p >= -1 && p <= (long)buf.size(), cat(at, "parse gives ", p));
		if (p < 0) c.check(rpa_stat_lasterror(st.p) != 0, at + "parse fails without an error code");
		if (m >= 0 && p >= 0) c.check(m == p, cat(at, "match gives ", m, ", parse ", p));
		for (unsigned long i = 0; i < r_array_length(rec); i++) {
			rparecord_t *q = (rparecord_t *)r_array_slot(rec, i);
			c.check(q->input >= b && q->input <= e && (long)q->inputsiz <= e - q->input, at + "a record lies outside the input");
			(void)strlen(q->rule);
		}
		const char *w = nullptr;
		long k = rpa_stat_scan(st.p, r, enc, b, b, e, &w);
		c.check(k >= -1 && k <= (long)buf.size(), cat(at, "scan gives ", k));
		if (k > 0) c.check(w >= b && w + k <= e, at + "scan points outside the input");
		c.tag(m > 0 ? "run: match" : m == 0 ? "run: no match" : "run: error");
	}
}
static std::vector<std::string> short_inputs(Src &s)
{
	std::vector<std::string> v;
	int n = 1 + s.below(2);
	for (int i = 0; i < n; i++) {
		std::string t;
		for (int k = s.below(7); k > 0; k--) t += s.chance(1, 12) ? (char)s.below(256) : "abc+("[s.below(5)];
		v.push_back(t);
	}
	return v;
}

// any text at all
static void any_text(Src &s, Ctx &c)
{
	size_t mem0 = r_debug_get_allocmem();
	{
		std::string t;
		size_t good = 0;
		switch (s.weighted({6, 5, 1, 4})) {
		case 0: {
			t = anyg::make(s, {'a', 'b', 'c', '+'}, {0xe9}, false).text(s, s.chance(1, 2), true);
			for (int n = 1 + s.below(4); n > 0; n--) mutate(s, t);
			break;
		}
		case 1: t = soup(s); break;
		case 2: for (int n = s.below(60); n > 0; n--) t += s.chance(1, 3) ? (char)s.bits() : (char)(32 + s.below(95)); break;
		default: {                         // good rules, then a broken line, then good rules again
			anyg::Any a = anyg::make(s, {'a', 'b', 'c', '+'}, {}, false);
			std::vector<std::string> p = a.pieces(s, true);
			int at = s.below(p.size() + 1);
			for (int i = 0; i < at; i++) t += p[i];
			good = t.size();
			t += s.pick(std::vector<std::string>{"bad ::= )\n", ")\n", "]\n", "*\n", "bad ::= ]\n", "bad ::= ~\n", "bad ::= a )\n", "bad ::= a b ]\n"});
			for (size_t i = at; i < p.size(); i++) t += p[i];
			break;
		}
		}
		c.describe(cat("grammar text ", quote(t), "\n"));
		rpah::Db d;
		rpa_dbex_open(d.p);
		if (s.chance(1, 4)) rpa_dbex_cfgset(d.p, RPA_DBEXCFG_BITMAP, 1);
		if (s.chance(1, 6)) rpa_dbex_cfgset(d.p, RPA_DBEXCFG_OPTIMIZATIONS, 0);
		std::vector<char> buf(t.begin(), t.end());
		long r = rpa_dbex_load(d.p, buf.data(), buf.size());
		bool repaired = false;
		if (r < 0) {
			check_syntax_error(c, d.p, t, r, good);
			c.nontrivial = true;
			// the database stays usable
			std::string ok = "r0 ::= a b\n";
			c.check(rpa_dbex_load(d.p, ok.data(), ok.size()) == (long)ok.size(), "after refused text a correct rule is refused as well, " + d.error());
			repaired = true;
		} else {
			c.check(r == (long)t.size(), cat("load of ", t.size(), " bytes gives ", r));
			if (good) c.fail("a broken line was accepted");
		}
		rpa_dbex_close(d.p);
		if (repaired) {
			c.check(d.compile(), "compiling after refused text fails, " + d.error());
			rpah::Stat st(d, 8192);
			std::string in = "abx";
			c.check(rpa_stat_match(st.p, d.rid("r0"), 0, in.data(), in.data(), in.data() + 3) == 2, "a rule loaded after refused text does not match");
			if (s.chance(1, 4)) dumps(d.p);
		} else {
			long n = 0;
			for (long i = rpa_dbex_first(d.p); i >= 0; i = rpa_dbex_next(d.p, i)) {
				const char *nm = rpa_dbex_name(d.p, i);
				c.check(nm && strlen(nm) <= t.size(), "rule name");
				long l = rpa_dbex_strlen(d.p, i);
				c.check(l > 0 && l <= (long)t.size(), cat("rule ", i, " has ", l, " bytes of text"));
				std::vector<char> out(l);
				c.check(rpa_dbex_strncpy(d.p, out.data(), i, l) == l && t.find(std::string(out.data(), l)) != t.npos, "rule text is not part of the grammar text");
				n++;
			}
			bool did = false;
			if (s.chance(1, 6)) dumps(d.p), did = true;
			if (d.compile()) {
				c.tag("compiled");
				if (n) c.nontrivial = true;
				run_all(s, c, d, short_inputs(s), "");
				if (!did && s.chance(1, 6)) dumps(d.p);
			} else {
				rpa_errinfo_t e;
				memset(&e, 0x55, sizeof e);
				rpa_dbex_lasterrorinfo(d.p, &e);
				c.check(e.code == RPA_E_UNRESOLVEDSYMBOL || e.code == RPA_E_COMPILE || e.code == RPA_E_SYNTAXERROR, cat("a failed compilation reports code ", e.code));
				if (e.code == RPA_E_UNRESOLVEDSYMBOL) {
					c.check(e.mask == (RPA_ERRINFO_CODE | RPA_ERRINFO_NAME), cat("unresolved symbol reports mask ", e.mask));
					c.check(e.name[0] && t.find(e.name) != t.npos, cat("unresolved symbol ", quote(e.name), " is not in the grammar"));
				}
				c.tag(cat("not compiled: ", e.code));
				c.nontrivial = true;
				c.check(!rpa_dbex_executable(d.p) && rpa_dbex_lasterror(d.p) == RPA_E_NOTCOMPILED, "code of a database that failed to compile");
				rpah::Stat st(d, 8192);
				std::string in = "ab";
				c.check(rpa_stat_match(st.p, 0, 0, in.data(), in.data(), in.data() + 2) == -1 && rpa_stat_lasterror(st.p) == RPA_E_EXECUTION, "matching against a database that failed to compile");
			}
		}
	}
	c.check(r_debug_get_allocmem() == mem0, cat("memory not returned: ", (long)(r_debug_get_allocmem() - mem0)));
}

static void refs_of(const peg::Grammar &g, std::set<int> &out)
{
	for (auto &r : g.rules) anyg::refs(r.body, false, true, out);
}

// a grammar with one definition missing
static void missing(Src &s, Ctx &c)
{
	anyg::Any a = anyg::make(s, {'a', 'b', 'c', '+'}, {}, c.thorough);
	std::set<int> used;
	refs_of(a.g, used);
	if (used.empty()) throw Discard();
	std::vector<int> u(used.begin(), used.end());
	int gone = s.pick(u);
	std::vector<std::string> p = a.pieces(s, s.chance(1, 2), true);
	std::string rest, def, all;
	for (size_t i = 0; i < a.order.size(); i++) if (a.order[i] == gone) def = p[i]; else rest += p[i];
	c.describe(cat("grammar without ", a.g.rules[gone].name, "\n", rest));
	if (rest.empty()) throw Discard();
	rpah::Db d;
	bool bitmap = s.chance(1, 2);
	rpa_dbex_cfgset(d.p, RPA_DBEXCFG_BITMAP, bitmap);
	if (s.chance(1, 3)) {                 // an older error leaves nothing behind
		std::string bad = "x ::= \n\n (";
		rpa_dbex_open(d.p);
		rpa_dbex_load(d.p, bad.data(), bad.size());
		c.append("(after a syntax error)\n");
	}
	bool self = false;                    // only its own definition used it
	{ std::set<int> o; for (size_t i = 0; i < a.g.rules.size(); i++) if ((int)i != gone) anyg::refs(a.g.rules[i].body, false, true, o); self = !o.count(gone); }
	c.check(d.load(rest), "load: " + d.error());
	bool ok = d.compile();
	if (self) {
		c.check(ok, "compile: " + d.error());
		c.tag("nothing missing");
	} else {
		rpa_errinfo_t e;
		memset(&e, 0x55, sizeof e);
		rpa_dbex_lasterrorinfo(d.p, &e);
		c.check(!ok, "a grammar that uses an undefined rule compiles");
		c.check(e.code == RPA_E_UNRESOLVEDSYMBOL && e.mask == (RPA_ERRINFO_CODE | RPA_ERRINFO_NAME) && a.g.rules[gone].name.substr(0, sizeof e.name - 1) == e.name,
			cat("undefined rule ", a.g.rules[gone].name, " reported as code ", e.code, " mask ", e.mask, " name ", quote(e.name)));
		c.tag("unresolved");
		c.nontrivial = true;
	}
	// completed, it is as good as one loaded at once
	c.append(cat("then ", def));
	c.check(d.load(def), "load of the missing rule: " + d.error());
	c.check(d.compile(), "compile of the completed grammar: " + d.error());
	rpah::Db f;
	rpa_dbex_cfgset(f.p, RPA_DBEXCFG_BITMAP, bitmap);
	c.check(f.load(rest + def) && f.compile(), "whole grammar: " + f.error());
	run_all(s, c, d, short_inputs(s), "completed");
	rpah::Stat sd(d), sf(f);
	for (auto &in : short_inputs(s)) for (long r = 0; r <= rpa_dbex_last(f.p); r++) {
		long x = rpa_stat_match(sd.p, r, 0, in.data(), in.data(), in.data() + in.size()), y = rpa_stat_match(sf.p, r, 0, in.data(), in.data(), in.data() + in.size());
		c.check(x == y, cat("rule ", r, " on ", quote(in), ": completed ", x, ", whole ", y));
	}
}

// calls in any order
static void calls(Src &s, Ctx &c)
{
	size_t mem0 = r_debug_get_allocmem();
	{
		rpah::Db d;
		bool closed = true, compiled = false;
		std::vector<std::pair<std::string, std::string>> all, vis;    // name, text: loaded, visible since the last close
		unsigned long opt = rpa_dbex_cfgget(d.p, RPA_DBEXCFG_OPTIMIZATIONS), bm = rpa_dbex_cfgget(d.p, RPA_DBEXCFG_BITMAP);
		int n = 4 + s.below(c.thorough ? 40 : 22), serial = 0;
		auto err = [&](long code, const std::string &what) {
			rpa_errinfo_t e;
			rpa_dbex_lasterrorinfo(d.p, &e);
			c.check(e.code == code && rpa_dbex_lasterror(d.p) == code && (e.mask & RPA_ERRINFO_CODE), cat(what, ": error ", e.code, " mask ", e.mask, " expected ", code));
			c.tag(cat("error ", code));
		};
		rpah::Stat st(d, 8192);
		for (int i = 0; i < n; i++) {
			switch (s.weighted({4, 4, 2, 4, 3, 2, 2, 3, 1, 2, 3})) {
			case 0: {
				std::string nm = s.chance(1, 5) && !all.empty() ? s.pick(all).first : cat("rule", serial++);
				std::string body = s.chance(1, 4) && !all.empty() ? "<" + s.pick(all).first + "> b" : s.pick(std::vector<std::string>{"a", "a b", "[a-c]+", "b | a", "'ab' c?"});
				if (body == "<" + nm + "> b") body = "a";
				std::string t = nm + " ::= " + body;
				bool dup = false;
				for (auto &x : all) dup |= x.first == nm;
				if (dup) { body = "a c"; t = nm + " ::= " + body; }      // no cycles through redefinition
				c.append(cat("load ", quote(t), "\n"));
				long r = s.chance(1, 2) ? rpa_dbex_load_s(d.p, (t + "\n").c_str()) : rpa_dbex_load(d.p, (t + "\n").c_str(), t.size() + 1);
				if (closed) { c.check(r == -1, "load into a closed database"); err(RPA_E_NOTOPEN, "load"); }
				else { c.check(r == (long)t.size() + 1, cat("load gives ", r, " ", d.error())); all.push_back({nm, t}); }
				break;
			}
			case 1: c.append("open\n"); c.check(rpa_dbex_open(d.p) == 0, "open"); closed = compiled = false; break;
			case 2: c.append("close\n"); rpa_dbex_close(d.p); if (!closed) compiled = false; closed = true; vis = all; break;
			case 3: {
				c.append("compile\n");
				int r = rpa_dbex_compile(d.p);
				if (!closed) { c.check(r == -1, "compile of an open database"); err(RPA_E_NOTCLOSED, "compile"); }
				else { c.check(r == 0, "compile: " + d.error()); compiled = true; }
				break;
			}
			case 4: {
				std::string nm = s.chance(2, 3) && !all.empty() ? s.pick(all).first : s.pick(std::vector<std::string>{"", "rule", "nothere", "rule0 "});
				long r = s.chance(1, 2) ? rpa_dbex_lookup_s(d.p, nm.c_str()) : rpa_dbex_lookup(d.p, (nm + "tail").c_str(), nm.size()), w = -1;
				c.append(cat("lookup ", quote(nm), "\n"));
				for (size_t k = 0; k < vis.size(); k++) if (vis[k].first == nm) w = k;
				if (!closed) { c.check(r == -1, "lookup in an open database"); err(RPA_E_NOTCLOSED, "lookup"); }
				else { c.check(r == w, cat("lookup gives ", r, " expected ", w)); if (w < 0) err(RPA_E_NOTFOUND, "lookup"); else c.nontrivial = true; }
				break;
			}
			case 5: {
				c.append("walk\n");
				if (!closed) {
					c.check(rpa_dbex_first(d.p) == -1, "first of an open database"); err(RPA_E_NOTCLOSED, "first");
					c.check(rpa_dbex_last(d.p) == -1 && rpa_dbex_next(d.p, 0) == -1 && rpa_dbex_prev(d.p, 1) == -1, "walking an open database");
					break;
				}
				if (vis.empty()) { c.check(rpa_dbex_first(d.p) == -1, "first of nothing"); err(RPA_E_NOTFOUND, "first"); c.check(rpa_dbex_last(d.p) == -1, "last of nothing"); break; }
				long k = 0, r;
				for (r = rpa_dbex_first(d.p); r >= 0; r = rpa_dbex_next(d.p, r)) c.check(r == k++, "walking forward");
				c.check(k == (long)vis.size() && rpa_dbex_last(d.p) == k - 1, cat("walking visits ", k, " of ", vis.size(), " rules"));
				for (r = rpa_dbex_last(d.p); r >= 0; r = rpa_dbex_prev(d.p, r)) c.check(r == --k, "walking backward");
				c.check(k == 0, "walking backward ends early");
				c.nontrivial = true;
				break;
			}
			case 6: {
				long r = s.chance(1, 4) ? (long)vis.size() + s.below(3) : s.chance(1, 8) ? -1 - (long)s.below(3) : (long)s.below(vis.size() + 1);
				bool have = closed && r >= 0 && r < (long)vis.size();
				c.append(cat("text of ", r, "\n"));
				const char *nm = rpa_dbex_name(d.p, r);
				c.check((nm != nullptr) == have, cat("name of rule ", r));
				long l = rpa_dbex_strlen(d.p, r);
				if (!have) {
					c.check(l == -1, cat("length of rule ", r, " gives ", l)); err(RPA_E_NOTFOUND, "strlen");
					char b[4];
					c.check(rpa_dbex_strncpy(d.p, b, r, 4) == -1, "text of no rule"); err(RPA_E_NOTFOUND, "strncpy");
					break;
				}
				c.check(nm == vis[r].first, cat("name of rule ", r, " is ", nm));
				c.check(l == (long)vis[r].second.size(), cat("length of rule ", r, " is ", l));
				size_t m = s.below(l + 4);
				std::vector<char> b(m);
				long k = rpa_dbex_strncpy(d.p, b.data(), r, m);
				c.check(k == (long)std::min<size_t>(m, l) && std::string(b.data(), k) == vis[r].second.substr(0, k), cat("text of rule ", r, ": ", k, " bytes of ", m));
				break;
			}
			case 7: {
				long r = s.chance(1, 4) ? (long)vis.size() + s.below(3) : s.chance(1, 8) ? -1 : (long)s.below(vis.size() + 1);
				bool have = closed && compiled && r >= 0 && r < (long)vis.size();
				c.append(cat("execute ", r, "\n"));
				std::string in = "abcab";
				long off = rpa_dbex_executableoffset(d.p, r);
				c.check((off >= 0) == have, cat("offset of rule ", r, " gives ", off));
				if (!have) err(!closed ? RPA_E_NOTCLOSED : !compiled ? RPA_E_NOTCOMPILED : RPA_E_NOTFOUND, "executable offset");
				rvm_asmins_t *x = rpa_dbex_executable(d.p);
				if (!vis.empty()) c.check((x != nullptr) == (closed && compiled), "code");
				long m = rpa_stat_match(st.p, r, 0, in.data(), in.data(), in.data() + in.size());
				const char *w;
				long k = rpa_stat_scan(st.p, r, 0, in.data(), in.data(), in.data() + in.size(), &w);
				if (!have) c.check(m == -1 && k == -1 && rpa_stat_lasterror(st.p) == RPA_E_EXECUTION, cat("matching rule ", r, " gives ", m, " scan ", k, " error ", rpa_stat_lasterror(st.p)));
				else { c.check(m >= 0 && k >= 0, cat("matching rule ", r, " gives ", m)); c.nontrivial = true; }
				break;
			}
			case 8: c.append("dump\n"); dumps(d.p); break;
			case 9: {
				unsigned long v = s.below(2);
				switch (s.below(4)) {
				case 0: c.check(rpa_dbex_cfgset(d.p, RPA_DBEXCFG_OPTIMIZATIONS, v) == 0, "cfgset"); opt = v; break;
				case 1: c.check(rpa_dbex_cfgset(d.p, RPA_DBEXCFG_BITMAP, v) == 0, "cfgset"); bm = v; break;
				default: c.check(rpa_dbex_cfgset(d.p, 99, v) == -1 && rpa_dbex_cfgget(d.p, 99) == -1, "unknown setting"); break;
				}
				c.append(cat("settings ", opt, " ", bm, "\n"));
				c.check(rpa_dbex_cfgget(d.p, RPA_DBEXCFG_OPTIMIZATIONS) == (long)opt && rpa_dbex_cfgget(d.p, RPA_DBEXCFG_BITMAP) == (long)bm, "a setting does not read back");
				break;
			}
			default: {
				std::string bad = s.pick(std::vector<std::string>{"x ::= )", "a ::= b\n)", "(", "x ::= 'a"});
				c.append(cat("load ", quote(bad), "\n"));
				long r = rpa_dbex_load_s(d.p, bad.c_str());
				c.check(r == -1, "broken text loads");
				err(closed ? RPA_E_NOTOPEN : RPA_E_SYNTAXERROR, "load of broken text");
				break;
			}
			}
		}
	}
	c.check(rpa_dbex_load_s(nullptr, "a") == -1 && rpa_dbex_compile(nullptr) == -1 && rpa_dbex_open(nullptr) == -1 && rpa_dbex_first(nullptr) == -1 && rpa_dbex_lasterror(nullptr) == -1, "no database");
	c.check(r_debug_get_allocmem() == mem0, cat("memory not returned: ", (long)(r_debug_get_allocmem() - mem0)));
}

static void one(Src &s, Ctx &c)
{
	switch (s.weighted({6, 2, 2})) {
	case 0: any_text(s, c); break;
	case 1: missing(s, c); break;
	default: calls(s, c); break;
	}
}

int main(int argc, char **argv)
{
	Config f;
	f.id = "P08";
	f.rule = "grammar text that is valid text mutated, a soup of grammar tokens, arbitrary bytes, or valid rules around one broken line; grammars with one definition removed and then supplied; "
		"sequences of open, load, close, compile, lookup, walking, reading names and text, execution and settings against a model; non-trivial: the text was refused or compiled with a rule, a symbol was missing, or a call succeeded on a rule";
	f.quick_cases = 8000;
	f.thorough_cases = 100000;
	f.fn = one;
	f.assumptions = {"the text before the reported offset of a syntax error is loaded again to confirm the offset; generated texts hold at most four rules of arbitrary tokens, since compiling many mutually left recursive rules takes exponential time",
		"memory is counted by the library's own debug allocator"};
	return run_main(argc, argv, f);
}
