// libs: rlib rvm rpa
// P12: the ECMAScript grammar that is shipped with rpagrep: generated programs are accepted whole and their operations recorded.
#include "pbt.h"
#include "rpah.h"
#include <memory>
#include <algorithm>
using namespace pbt;
extern "C" void rpa_stat_cachedisable(rpastat_t *stat, unsigned int disable);

struct Op { std::string name; size_t off, end; };
static const std::set<std::string> names = {"AdditiveExpressionOp", "MultiplicativeExpressionOp", "ShiftExpressionOp", "RelationalExpressionOp", "EqualityExpressionOp", "BitwiseANDOp", "BitwiseXOROp", "BitwiseOROp",
	"LogicalANDOp", "LogicalOROp", "AssignmentExpressionOp", "UnaryExpressionOp", "PostfixExpressionOp", "PrefixExpressionOp", "IterationDo", "ReturnOp", "VariableAllocate", "VariableAllocateAndInit", "Initialiser",
	"DecimalIntegerLiteral", "DecimalNonIntegerLiteral", "DoubleStringCharacters", "SingleStringCharacters", "AssignmentOperator", "EqualityOperator", "RelationalOperator", "AdditiveOperator", "MultiplicativeOperator",
	"ShiftOperator", "BitwiseANDOperator", "BitwiseXOROperator", "BitwiseOROperator", "LogicalANDOperator", "LogicalOROperator", "UnaryOperatorOpcode", "PostfixOperator", "DoKeyword", "Program"};

struct Js {
	Src &s;
	bool tight;
	std::string t;
	std::vector<Op> ops;
	int budget;
	Js(Src &s_, int b) : s(s_), tight(s_.chance(1, 3)), budget(b) {}
	void mark(const char *n, size_t from) { ops.push_back({n, from, t.size()}); }
	void word(const char *n, const std::string &w) { size_t f = t.size(); t += w; mark(n, f); }
	void sp() { if (tight) return; switch (s.below(5)) { case 0: case 1: break; case 2: t += " "; break; case 3: t += s.chance(1, 3) ? "\n" : " "; break; case 4: t += s.chance(1, 4) ? "\r\n\t" : "  "; } }
	void gap() { t += " "; }
	void ident()
	{
		static const std::vector<std::string> id = {"a", "b", "x", "foo", "$y", "_z1", "alpha9", "q_q"};
		t += s.pick(id);
		if (s.chance(1, 10)) t += cat(s.below(100));
		if (s.chance(1, 30)) t += "\xc4\x81";
	}
	void number()
	{
		size_t f = t.size();
		if (s.chance(1, 4)) { t += cat(s.below(20), "."); if (s.chance(1, 2)) t += cat(s.below(1000)); if (s.chance(1, 4)) t += cat("e", s.chance(1, 2) ? "-" : "", s.below(20)); mark("DecimalNonIntegerLiteral", f); }
		else { uint64_t v = s.below(1000); t += cat(v); if (v && s.chance(1, 8)) t += cat("E", s.chance(1, 2) ? "+" : "", s.below(20)); mark("DecimalIntegerLiteral", f); }
	}
	void chars()
	{
		static const std::vector<std::string> parts = {"x", " ", "abc", "+", "1", ";", "{", "\xc3\xa9", "\xe2\x82\xac", "//", "if"};
		for (int k = 1 + s.below(4); k > 0; k--) t += s.pick(parts);
	}
	void primary(int d)
	{
		switch (d <= 0 ? s.below(3) : s.weighted({4, 3, 2, 2, 2, 2, 1})) {
		case 0: ident(); break;
		case 1: number(); break;
		case 2: {
			bool dq = s.chance(1, 2);
			t += dq ? "\"" : "'";
			size_t f = t.size();
			if (s.chance(5, 6)) { chars(); mark(dq ? "DoubleStringCharacters" : "SingleStringCharacters", f); }
			t += dq ? "\"" : "'";
			break;
		}
		case 3: t += "("; sp(); expr(d - 1); sp(); t += ")"; break;
		case 4: {       // call
			ident();
			t += "("; sp();
			int n = s.below(4);
			for (int k = 0; k < n; k++) { if (k) { sp(); t += ","; sp(); } expr(d - 1, 1); }
			if (n) sp();
			t += ")";
			if (s.chance(1, 5)) t += ".m";
			break;
		}
		case 5: ident(); if (s.chance(1, 2)) { t += "."; ident(); } else { t += "["; sp(); expr(d - 1); sp(); t += "]"; } break;
		case 6: t += s.chance(1, 2) ? "true" : s.chance(1, 2) ? "null" : "this"; break;
		}
	}
	void lhs(int d) { ident(); if (d > 0 && s.chance(1, 4)) { if (s.chance(1, 2)) { t += "."; ident(); } else { t += "["; expr(d - 1); t += "]"; } } }
	void unary(int d)
	{
		size_t f = t.size();
		switch (d <= 0 ? 0 : s.weighted({8, 2, 1, 1})) {
		case 0: primary(d); break;
		case 1: {
			static const char *u[] = {"-", "!", "~", "+", "typeof"};
			int k = s.below(5);
			word("UnaryOperatorOpcode", u[k]);
			if (k == 4) gap(); else if (s.chance(1, 2)) gap();
			size_t at = t.size();
			size_t n = ops.size();
			unary(d - 1);
			if (t.compare(at, 1, "-") == 0 || t.compare(at, 1, "+") == 0) if (at > 0 && t[at - 1] != ' ') {      // keep "- -a" apart
				t.insert(at, " ");
				for (size_t i = n; i < ops.size(); i++) { ops[i].off++; ops[i].end++; }
			}
			mark("UnaryExpressionOp", f);
			break;
		}
		case 2: lhs(d - 1); word("PostfixOperator", s.chance(1, 2) ? "++" : "--"); mark("PostfixExpressionOp", f); break;
		case 3: word("PostfixOperator", s.chance(1, 2) ? "++" : "--"); lhs(d - 1); mark("PrefixExpressionOp", f); break;
		}
	}
	// levels: 2 '||' 3 '&&' 4 '|' 5 '^' 6 '&' 7 equality 8 relational 9 shift 10 additive 11 multiplicative 12 unary
	void binary(int d, int level)
	{
		struct L { const char *rec, *oprec; std::vector<const char *> ops; };
		static const std::vector<L> lv = {
			{"LogicalOROp", "LogicalOROperator", {"||"}}, {"LogicalANDOp", "LogicalANDOperator", {"&&"}}, {"BitwiseOROp", "BitwiseOROperator", {"|"}}, {"BitwiseXOROp", "BitwiseXOROperator", {"^"}},
			{"BitwiseANDOp", "BitwiseANDOperator", {"&"}}, {"EqualityExpressionOp", "EqualityOperator", {"==", "===", "!=", "!=="}}, {"RelationalExpressionOp", "RelationalOperator", {"<", ">", "<=", ">="}},
			{"ShiftExpressionOp", "ShiftOperator", {"<<", ">>", ">>>"}}, {"AdditiveExpressionOp", "AdditiveOperator", {"+", "-"}}, {"MultiplicativeExpressionOp", "MultiplicativeOperator", {"*", "/", "%"}}};
		if (level > 11) { unary(d); return; }
		size_t f = t.size();
		binary(d, level + 1);
		int n = d > 0 && budget > 0 && s.chance(1, 5) ? 1 + s.below(3) : 0;
		for (int k = 0; k < n; k++) {
			budget--;
			const L &l = lv[level - 2];
			sp(); if (!tight || strchr("+-", *l.ops[0])) gap();
			word(l.oprec, l.ops[s.below(l.ops.size())]);
			gap();
			binary(d - 1, level + 1);
			mark(l.rec, f);
		}
	}
	void expr(int d, int level = 0)
	{
		if (level == 0 && d > 0 && s.chance(1, 12)) { expr(d - 1, 1); sp(); t += ","; sp(); expr(d - 1, 1); return; }
		if (d > 0 && budget > 0 && s.chance(1, 6)) {
			budget--;
			size_t f = t.size();
			lhs(d - 1); sp();
			static const char *o[] = {"=", "+=", "-=", "*=", "/=", "%=", "<<=", ">>=", ">>>=", "&=", "^=", "|="};
			word("AssignmentOperator", o[s.below(12)]);
			gap();
			expr(d - 1, 1);
			mark("AssignmentExpressionOp", f);
			return;
		}
		binary(d, 2);
		if (d > 0 && budget > 0 && s.chance(1, 10)) { budget--; sp(); t += "?"; sp(); expr(d - 1, 1); sp(); t += ":"; sp(); expr(d - 1, 1); }
	}
	void sc() { sp(); t += ";"; sp(); }
	void vardecl(int d)
	{
		size_t f = t.size();
		ident();
		if (s.chance(2, 3)) {
			mark("VariableAllocateAndInit", f);
			f = t.size();
			sp(); t += "="; sp(); expr(d, 1);
			mark("Initialiser", f);
		} else mark("VariableAllocate", f);
	}
	void block(int d, bool infunc)
	{
		t += "{"; sp();
		for (int k = s.below(3); k > 0; k--) { stmt(d, infunc); sp(); }
		t += "}"; sp();
	}
	void stmt(int d, bool infunc)
	{
		budget--;
		switch (d <= 0 || budget <= 0 ? s.weighted({4, 2, 1}) : s.weighted({6, 4, 1, 2, 3, 2, 2, 2, infunc ? 3u : 0u, 1})) {
		case 0: expr(std::min(d + 1, 3)); sc(); break;
		case 1: t += "var "; vardecl(d); while (s.chance(1, 4)) { sp(); t += ","; sp(); vardecl(d); } sc(); break;
		case 2: t += ";"; sp(); break;
		case 3: block(d - 1, infunc); break;
		case 4: t += "if"; sp(); t += "("; sp(); expr(d - 1); sp(); t += ")"; sp(); block(d - 1, infunc); if (s.chance(1, 2)) { sp(); t += "else "; block(d - 1, infunc); } break;
		case 5: t += "while"; sp(); t += "("; sp(); expr(d - 1); sp(); t += ")"; sp(); if (s.chance(1, 2)) block(d - 1, infunc); else { expr(d - 1); sc(); } break;
		case 6:
			t += "for"; sp(); t += "("; sp();
			if (s.chance(2, 3)) { if (s.chance(1, 2)) { t += "var "; vardecl(d - 1); } else expr(d - 1); }
			sp(); t += ";"; sp(); if (s.chance(2, 3)) expr(d - 1);
			sp(); t += ";"; sp(); if (s.chance(2, 3)) expr(d - 1);
			sp(); t += ")"; sp(); block(d - 1, infunc);
			break;
		case 7: {
			size_t f = t.size();
			word("DoKeyword", "do"); gap(); block(d - 1, infunc); sp(); t += "while"; sp(); t += "("; sp(); expr(d - 1); sp(); t += ")"; sp(); t += ";";
			mark("IterationDo", f);
			break;
		}
		case 8: { size_t f = t.size(); t += "return"; if (s.chance(2, 3)) { t += " "; expr(d, 1); } sp(); t += ";"; mark("ReturnOp", f); break; }
		case 9:
			t += "switch"; sp(); t += "("; expr(d - 1); t += ")"; sp(); t += "{"; sp();
			for (int k = s.below(3); k > 0; k--) { t += "case "; expr(0, 2); sp(); t += ":"; sp(); stmt(d - 1, infunc); sp(); t += "break"; sc(); }
			if (s.chance(1, 2)) { t += "default"; sp(); t += ":"; sp(); stmt(d - 1, infunc); sp(); }
			t += "}";
			break;
		}
	}
	void program(int d)
	{
		int n = 1 + s.below(4);
		for (int k = 0; k < n; k++) {
			sp();
			if (s.chance(1, 5)) {
				t += "function "; ident(); sp(); t += "("; sp();
				for (int i = 0, m = s.below(3); i < m; i++) { if (i) { sp(); t += ","; sp(); } ident(); sp(); }
				t += ")"; sp(); t += "{"; sp();
				for (int i = s.below(3); i > 0; i--) { stmt(d, true); sp(); }
				t += "}";
			} else stmt(d, false);
		}
	}
};

static const std::string &grammar()
{
	static std::string g;
	if (g.empty()) { const char *r = getenv("VERIF_REPO"); g = read_file(std::string(r ? r : "/repo") + "/rpagrep/ecma262.rpa"); }
	return g;
}

static std::string observe(rpastat_t *st, long rid, const std::string &in, rarray_t *rec, long &n)
{
	std::unique_ptr<char[]> b(new char[in.size()]);
	memcpy(b.get(), in.data(), in.size());
	r_array_setlength(rec, 0);
	n = rpa_stat_parse(st, rid, RPA_ENCODING_UTF8, b.get(), b.get(), b.get() + in.size(), rec);
	std::string o = cat(n);
	if (n > 0) for (long k = 0; k < rpa_records_length(rec); k++) {
		rparecord_t *p = rpa_record_get(rec, k);
		o += cat(p->type == RPA_RECORD_START ? " " : " /", p->rule, "@", p->inputoff, "+", p->inputsiz, "#", p->ruleuid);
	}
	return o;
}

// one machine per process and configuration: compiling the grammar is the expensive part
struct Machine {
	rpah::Db db;
	std::unique_ptr<rpah::Stat> st;
	long rid = -1;
	std::string error;
	Machine(int cfg)
	{
		rpa_dbex_cfgset(db.p, RPA_DBEXCFG_OPTIMIZATIONS, cfg & 1);
		rpa_dbex_cfgset(db.p, RPA_DBEXCFG_BITMAP, cfg >> 1 & 1);
		if (!db.load(grammar())) { error = "the grammar is rejected: " + db.error(); return; }
		if (!db.compile()) { error = "the grammar does not compile: " + db.error(); return; }
		rid = rpa_dbex_last(db.p);
		st.reset(new rpah::Stat(db, 0));
		if (cfg & 4) rpa_stat_cachedisable(st->p, 1);
	}
};

static void run(Src &s, Ctx &c)
{
	static std::unique_ptr<Machine> m[8];
	int other = 1 + s.below(3);
	if (s.chance(1, 8)) other |= 4;
	Js js(s, c.thorough ? 40 : 18);
	js.program(1 + s.below(c.thorough ? 4 : 3));
	std::string text = js.t;
	bool broken = s.chance(1, 6);
	if (broken) {
		size_t at = s.below(text.size() + 1);
		static const char *bits[] = {"(", ")", "}", "{", ";", "+", "\"", " ", "1", "=", "\xff"};
		if (s.chance(1, 2) && at < text.size()) text.erase(at, 1 + s.below(3)); else text.insert(at, bits[s.below(11)]);
	}
	c.describe(cat(broken ? "broken " : "", "program ", quote(text)));
	if (text.size() > 700) throw Discard();
	for (int k : {0, other}) if (!m[k]) m[k].reset(new Machine(k));
	for (int k : {0, other}) c.check(m[k]->error.empty(), m[k]->error);
	rarray_t *rec = rpa_records_create();
	struct Free { rarray_t *r; ~Free() { rpa_records_destroy(r); } } fr{rec};
	long n, n2;
	std::string a = observe(m[0]->st->p, m[0]->rid, text, rec, n);
	if (!broken) {
		size_t e = text.size();
		c.check(n >= 0 && (size_t)n <= e && text.find_first_not_of(" \t\r\n", n) == std::string::npos, cat("accepted up to ", n, " of ", e, ": then ", quote(text.substr(n < 0 ? 0 : n, 60))));
		js.ops.push_back({"Program", text.find_first_not_of(" \t\r\n"), (size_t)n});
		size_t k = 0;
		for (long i = 0; i < rpa_records_length(rec); i++) {
			rparecord_t *p = rpa_record_get(rec, i);
			if (p->type != RPA_RECORD_END || !names.count(p->rule)) continue;
			std::string got = cat(p->rule, " ", quote(text.substr(p->inputoff, p->inputsiz)), " at ", p->inputoff);
			c.check(k < js.ops.size(), cat("an operation too much: ", got));
			const Op &o = js.ops[k++];
			if (o.name == "Program") { c.check(o.name == p->rule && p->inputsiz == (unsigned)n, cat("the last operation is ", got)); continue; }
			// white space after a closing bracket belongs to the bracket: it may or may not be part of the span
			size_t pe = p->inputoff + p->inputsiz;
			while (pe > p->inputoff && strchr(" \t\r\n", text[pe - 1]) && pe > o.end) pe--;
			c.check(o.name == p->rule && o.off == p->inputoff && o.end == pe, cat("operation ", k - 1, " is ", got, "\n  expected ", o.name, " ", quote(text.substr(o.off, o.end - o.off)), " at ", o.off));
		}
		c.check(k == js.ops.size(), cat("only ", k, " of ", js.ops.size(), " operations are recorded; missing ", js.ops[std::min(k, js.ops.size() - 1)].name));
		if (js.ops.size() >= 8) c.nontrivial = true;
		c.tag("whole");
	} else c.tag(n < 0 ? "broken: error" : n == 0 ? "broken: no match" : (size_t)n == text.size() ? "broken: accepted whole" : "broken: accepted partly");
	if (!(other & 4) || text.size() < 60) {
		std::string b = observe(m[other]->st->p, m[other]->rid, text, rec, n2);
		c.check(a == b, cat("with optimizations ", other & 1, ", bitmaps ", other >> 1 & 1, ", cache ", other & 4 ? "off" : "on", ": ", b.substr(0, 400), "\n  with neither: ", a.substr(0, 400)));
		c.tag(other & 4 ? "without cache" : "compared");
	}
}

int main(int argc, char **argv)
{
	Config cfg;
	cfg.id = "P12";
	cfg.rule = "A case is a generated ECMAScript program (declarations, functions, statements, expressions of every precedence with random spacing) parsed with the shipped grammar; the recorded operations must be those of the program, in order of evaluation, each covering its text, and the same in every configuration; broken programs are only compared between configurations. Non-trivial: at least 8 operations.";
	cfg.quick_cases = 8000;
	cfg.thorough_cases = 100000;
	cfg.fn = run;
	cfg.assumptions = {"the programs keep to the part of the language the shipped grammar covers"};
	return run_main(argc, argv, cfg);
}
