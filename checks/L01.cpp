// libs: rlib
#include "pbt.h"
extern "C" {
#include "rlib/rutf.h"
#include "rlib/rcharconv.h"
}
using namespace pbt;
typedef std::vector<unsigned char> bytes;

static bytes u8(uint32_t c)
{
	bytes o;
	if (c < 0x80) o = {(unsigned char)c};
	else if (c < 0x800) o = {(unsigned char)(0xc0 + c / 64), (unsigned char)(0x80 + c % 64)};
	else if (c < 0x10000) o = {(unsigned char)(0xe0 + c / 4096), (unsigned char)(0x80 + c / 64 % 64), (unsigned char)(0x80 + c % 64)};
	else o = {(unsigned char)(0xf0 + c / 262144), (unsigned char)(0x80 + c / 4096 % 64), (unsigned char)(0x80 + c / 64 % 64), (unsigned char)(0x80 + c % 64)};
	return o;
}
static bytes u16(uint32_t c)
{
	if (c < 0x10000) return {(unsigned char)(c % 256), (unsigned char)(c / 256)};
	c -= 0x10000;
	uint32_t hi = 0xd800 + c / 1024, lo = 0xdc00 + c % 1024;
	return {(unsigned char)(hi % 256), (unsigned char)(hi / 256), (unsigned char)(lo % 256), (unsigned char)(lo / 256)};
}
static bool sur(uint32_t c) { return c >= 0xd800 && c < 0xe000; }
static std::string hex(const bytes &b) { std::string o; char t[4]; for (auto x : b) { snprintf(t, sizeof t, "%02x ", x); o += t; } return o; }

static void codepoint(Ctx &c, uint32_t cp)
{
	for (int enc = 0; enc < 2; enc++) {
		bytes want;
		bool ok = cp <= 0x10ffff && !(enc && sur(cp));
		if (ok) want = enc ? u16(cp) : u8(cp);
		for (uint32_t room = 0; room <= 5; room++) {
			// the destination is exactly as large as we say
			unsigned char *buf = (unsigned char *)malloc(room ? room : 1);
			memset(buf, 0xee, room ? room : 1);
			int n = enc ? r_utf16_wctomb(cp, buf, room) : r_utf8_wctomb(cp, buf, room);
			bytes got(buf, buf + room);
			free(buf);
			bytes exp(room, 0xee);
			int en = ok && want.size() <= room ? want.size() : 0;
			for (int i = 0; i < en; i++) exp[i] = want[i];
			c.check(n == en && got == exp, cat(enc ? "UTF-16" : "UTF-8", " encoding of code point ", cp, " into ", room, " bytes returns ", n, " bytes ", hex(got)));
		}
		if (!ok) continue;
		uint32_t back = 12345;
		bytes in(want);
		in.shrink_to_fit();
		int n = enc ? r_utf16_mbtowc(&back, in.data(), in.data() + in.size()) : r_utf8_mbtowc(&back, in.data(), in.data() + in.size());
		c.check(n == (int)want.size() && back == cp, cat("decoding ", hex(in), " gives ", back, " in ", n, " bytes"));
	}
}

static void one(Src &s, Ctx &c)
{
	if (s.chance(1, 3)) {
		uint32_t base = s.chance(1, 16) ? 0x10ff00 + s.below(8) * 256 : s.below(0x1100) * 256;
		c.describe(cat("code points ", base, " to ", base + 255));
		for (uint32_t i = 0; i < 256; i++) {
			codepoint(c, base + i);
			uint32_t cp = base + i;
			unsigned long ic = r_charicase(cp);
			c.check(r_charicase(ic) == cp, cat("case partner of ", cp, " is ", ic, " but not the other way round"));
			if (cp < 0x80) {
				unsigned long w = cp >= 'A' && cp <= 'Z' ? cp + 32 : cp >= 'a' && cp <= 'z' ? cp - 32 : cp;
				c.check(ic == w, cat("case partner of ASCII ", cp, " is ", ic));
			} else c.check(ic >= 0x80, "non-ASCII character with an ASCII case partner");
			unsigned long lo = cp >= 'A' && cp <= 'Z' ? cp + 32 : cp, hi = cp >= 'a' && cp <= 'z' ? cp - 32 : cp;
			c.check(r_charlow(cp) == lo && r_charhigh(cp) == hi, cat("lower/upper of ", cp));
		}
		uint32_t big = (uint32_t)s.bits();
		codepoint(c, big);
		c.nontrivial = true;
		c.tag("code point block");
		return;
	}
	// a byte stream: mixed well-formed characters, truncated and damaged ones
	int enc = s.below(2);
	bytes in;
	int n = s.below(12);
	for (int i = 0; i < n; i++) {
		uint32_t cp;
		switch (s.below(6)) {
		case 0: cp = s.below(0x80); break;
		case 1: cp = 0x80 + s.below(0x780); break;
		case 2: cp = 0x800 + s.below(0xd000); break;
		case 3: cp = 0x10000 + s.below(0x100000); break;
		case 4: { static const std::vector<uint32_t> edge = {0x7f, 0x80, 0x7ff, 0x800, 0xffff, 0x10000, 0x10ffff, 0xd7ff, 0xe000, 0xfffd, 0xff, 0x100}; cp = s.pick(edge); break; }
		default: cp = sur(0) ? 0 : 0xd800 + s.below(0x800); break;
		}
		bytes b = enc ? u16(cp) : u8(cp);
		if (s.chance(1, 5)) b.pop_back();
		if (s.chance(1, 6) && !b.empty()) b[s.below(b.size())] = s.below(256);
		if (s.chance(1, 10)) b.push_back(0x80 + s.below(0x80));
		in.insert(in.end(), b.begin(), b.end());
	}
	in.shrink_to_fit();
	c.describe(cat(enc ? "UTF-16 " : "UTF-8 ", hex(in)));
	const unsigned char *p = in.data(), *e = in.data() + in.size();
	size_t at = 0;
	bool bad = false, multi = false;
	while (at < in.size()) {
		uint32_t got = 0x12345678, want;
		int wn;
		const unsigned char *q = p + at;
		size_t left = in.size() - at;
		// the reference: a structurally complete sequence is one character, anything else is one byte
		if (!enc) {
			unsigned ch = q[0], len = ch < 0x80 ? 1 : ch >= 0xc2 && ch <= 0xdf ? 2 : ch >= 0xe0 && ch <= 0xef ? 3 : ch >= 0xf0 && ch <= 0xf4 ? 4 : 0;
			uint32_t v = len == 1 ? ch : len == 2 ? ch & 31 : len == 3 ? ch & 15 : ch & 7;
			bool ok = len && len <= left;
			for (unsigned i = 1; ok && i < len; i++) { if ((q[i] & 0xc0) != 0x80) ok = false; else v = v * 64 + (q[i] & 63); }
			want = ok ? v : ch;
			wn = ok ? len : 1;
			if (!ok) bad = true;
		} else {
			uint32_t a = left >= 2 ? q[0] + 256 * q[1] : 0, b = left >= 4 ? q[2] + 256 * q[3] : 0;
			if (left >= 4 && a >= 0xd800 && a < 0xdc00 && b >= 0xdc00 && b < 0xe000) { want = 0x10000 + (a - 0xd800) * 1024 + (b - 0xdc00); wn = 4; }
			else if (left >= 2 && !sur(a)) { want = a; wn = 2; }
			else { want = q[0]; wn = 1; bad = true; }
		}
		if (wn > 1) multi = true;
		int gn = enc ? r_utf16_mbtowc(&got, q, e) : r_utf8_mbtowc(&got, q, e);
		c.check(gn == wn && got == want, cat("at byte ", at, ": character ", got, " of ", gn, " bytes, expected ", want, " of ", wn));
		at += gn;
	}
	uint32_t z = 7;
	c.check((enc ? r_utf16_mbtowc(&z, e, e) : r_utf8_mbtowc(&z, e, e)) == 0 && z == 0, "decoding at the end of input");
	if (multi) c.nontrivial = true;
	c.tag(bad ? "malformed stream" : "well-formed stream");
}

int main(int argc, char **argv)
{
	Config cfg;
	cfg.id = "L01";
	cfg.rule = "A case is either 256 consecutive code points (encoded into every buffer size 0-5 and decoded back, both encodings, plus case mapping) or a random UTF-8/UTF-16LE byte stream of well-formed, truncated and damaged characters decoded step by step. The oracle is an independent arithmetic codec. Non-trivial: a code point block, or a stream with a multi-byte character.";
	cfg.quick_cases = 20000;
	cfg.thorough_cases = 2000000;
	cfg.fn = one;
	cfg.assumptions = {"structurally complete UTF-8 sequences (including overlong three- and four-byte forms and encoded surrogates) are taken as one character, as the decoder documents no stricter rule"};
	return run_main(argc, argv, cfg);
}
