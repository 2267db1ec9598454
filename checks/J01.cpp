// libs: rlib
// objects: rexjson
#include "pbt.h"
#include "jref.h"
extern "C" {
#include "rexjson.h"
}
using namespace pbt;

static int valtype(const jref::Rec &r, bool b)
{
	switch (r.t) {
	case jref::Null: return REXJSON_VALUE_NULL;
	case jref::Bool: return b ? REXJSON_VALUE_TRUE : REXJSON_VALUE_FALSE;
	case jref::Int: return REXJSON_VALUE_INT;
	case jref::Real: return REXJSON_VALUE_NUMBER;
	case jref::Str: return REXJSON_VALUE_STRING;
	case jref::Arr: return REXJSON_VALUE_ARRAY;
	default: return REXJSON_VALUE_OBJECT;
	}
}

static void one(Src &s, Ctx &c)
{
	std::string t = jref::gen_text(s, c.thorough);
	size_t levels = s.chance(1, 2) ? 1000 : s.below(8);
	c.describe(cat(quote(t), "\nlevels ", levels));
	jref::Parser ref(t, levels);
	bool ok = true;
	jref::Bad bad{0, false};
	try { ref.top(); } catch (jref::Bad &b) { ok = false; bad = b; }
	size_t need = ref.begun * 2;
	size_t room = s.chance(1, 2) ? need + s.below(4) : s.below(need + 2);
	c.append(cat(" records ", room));
	std::vector<char> buf(t.begin(), t.end());
	std::vector<rexjson_record_t> recs(room);
	for (auto &r : recs) { memset(&r, 0, sizeof r); if (s.chance(1, 2)) { r.rectype = s.chance(1, 2) ? REXJSON_RECORD_BEGIN : REXJSON_RECORD_END; r.value = 1 << 20; r.valuesize = 7; } }   // left from earlier use
	rexjson_t ctx;
	memset(&ctx, 0x5a, sizeof ctx);
	ssize_t got = rexjson_parse_buffer(&ctx, recs.data(), room, buf.data(), buf.size(), levels);
	int err = rexjson_get_error(&ctx);
	if (ok && room >= need) {
		c.check(got >= 0, cat("well-formed text refused: error ", err, " at ", rexjson_get_error_offset(&ctx)));
		c.check(err == REXJSON_E_NONE, cat("accepted with error ", err));
		c.check((size_t)got == ref.recs[0].valuesize, cat("size ", got, " expected ", ref.recs[0].valuesize));
		for (size_t i = 0; i < need; i++) {
			const jref::Rec &w = ref.recs[i];
			const rexjson_record_t &g = recs[i];
			c.check(g.rectype == (w.end ? REXJSON_RECORD_END : REXJSON_RECORD_BEGIN), cat("record ", i, " begin or end"));
			c.check((int)g.valtype == valtype(w, ref.bools[i]), cat("record ", i, " type ", g.valtype));
			c.check(g.namesize == w.namesize && (!w.namesize || g.name == w.name), cat("record ", i, " name at ", g.name, " size ", g.namesize, " expected ", w.name, " ", w.namesize));
			c.check(g.value == w.value && g.valuesize == w.valuesize, cat("record ", i, " value at ", g.value, " size ", g.valuesize, " expected ", w.value, " ", w.valuesize));
		}
		// navigation, against the nesting
		std::vector<long> end(need), stack;
		for (size_t i = 0; i < need; i++) if (!ref.recs[i].end) stack.push_back(i); else { end[stack.back()] = i; stack.pop_back(); }
		for (ssize_t i = -1; i <= (ssize_t)need; i++) {
			bool begin = i >= 0 && i < (ssize_t)need && !ref.recs[i].end;
			ssize_t child = begin && !ref.recs[i + 1].end ? i + 1 : -1, next = begin && end[i] + 1 < (long)need && !ref.recs[end[i] + 1].end ? end[i] + 1 : -1;
			if (i == (ssize_t)need && i < (ssize_t)room) continue;
			c.check(rexjson_recordtree_firstchild(recs.data(), room, i) == child, cat("first child of record ", i));
			c.check(rexjson_recordtree_next(recs.data(), room, i) == next, cat("next sibling of record ", i, " is ", rexjson_recordtree_next(recs.data(), room, i), " expected ", next));
		}
		if (s.chance(1, 16)) {
			FILE *f = fopen("/dev/null", "w");
			rexjson_dump_records(f, recs.data(), room, buf.data());
			rexjson_dump_tree(f, recs.data(), room, 0, buf.data(), 0);
			fclose(f);
		}
		c.tag("accepted");
		if (need >= 6) c.nontrivial = true;
	} else {
		c.check(got < 0, ok ? "accepted although the records do not fit" : cat("malformed text accepted, ", got, " bytes; expected an error at ", bad.off));
		if (ok) { c.check(err == REXJSON_E_NOMEM, cat("records do not fit: error ", err)); c.tag("no room"); }
		else if (err == REXJSON_E_NOMEM) { c.check(room < need, "not enough room reported, but there was"); c.tag("no room"); }
		else {
			c.check(err == (bad.levels ? REXJSON_E_MAXRECURSIONS : REXJSON_E_UNEXPECTEDCHAR), cat("error ", err));
			c.check(rexjson_get_error_offset(&ctx) == bad.off, cat("error at ", rexjson_get_error_offset(&ctx), " expected ", bad.off));
			c.tag(bad.levels ? "too deep" : "unexpected character");
			if (bad.off > 0) c.nontrivial = true;
		}
	}
}

int main(int argc, char **argv)
{
	Config f;
	f.id = "J01";
	f.rule = "texts printed from random values with random spacing and escapes, such texts mutated, soups of JSON tokens, bytes, deep nesting; any room for records and any depth limit; non-trivial: a document of three or more values, or an error behind the first byte";
	f.quick_cases = 500000;
	f.thorough_cases = 10000000;
	f.fn = one;
	f.assumptions = {"text behind the first complete value is not judged: the parser reads one value"};
	return run_main(argc, argv, f);
}
