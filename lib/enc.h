// Input encodings for the P checks: encode, decode with byte offsets, case pairs. Independent of the code under test.
#ifndef VERIF_ENC_H
#define VERIF_ENC_H
#include "peg.h"
namespace enc {
enum E { BYTE, UTF8, UTF16 };
struct Text { peg::W ch; std::vector<size_t> off; };       // off has one entry more than ch
inline Text decode(const std::string &b, E e)
{
	Text t;
	size_t i = 0, n = b.size();
	auto at = [&](size_t k) { return (uint32_t)(unsigned char)b[k]; };
	auto cont = [&](size_t k) { return k < n && (at(k) & 0xc0) == 0x80; };
	while (i < n) {
		t.off.push_back(i);
		uint32_t c = at(i);
		size_t len = 1;
		if (e == UTF16) {
			if (i + 1 < n) {
				uint32_t u = c | at(i + 1) << 8;
				if (u < 0xd800 || u > 0xdfff) { c = u; len = 2; }
				else if (u < 0xdc00 && i + 3 < n) {
					uint32_t v = at(i + 2) | at(i + 3) << 8;
					if (v >= 0xdc00 && v <= 0xdfff) { c = 0x10000 + ((u - 0xd800) << 10 | (v - 0xdc00)); len = 4; }
				}
			}
		} else if (e == UTF8) {
			if (c >= 0xc2 && c < 0xe0 && cont(i + 1)) { c = (c & 31) << 6 | (at(i + 1) & 63); len = 2; }
			else if (c >= 0xe0 && c < 0xf0 && cont(i + 1) && cont(i + 2)) { c = (c & 15) << 12 | (at(i + 1) & 63) << 6 | (at(i + 2) & 63); len = 3; }
			else if (c >= 0xf0 && c < 0xf5 && cont(i + 1) && cont(i + 2) && cont(i + 3)) { c = (c & 7) << 18 | (at(i + 1) & 63) << 12 | (at(i + 2) & 63) << 6 | (at(i + 3) & 63); len = 4; }
		}
		t.ch.push_back(c);
		i += len;
	}
	t.off.push_back(n);
	return t;
}
inline void put(std::string &o, uint32_t c, E e)
{
	if (e == BYTE) o += (char)c;
	else if (e == UTF8) peg::utf8(o, c);
	else if (c < 0x10000) { o += (char)c; o += (char)(c >> 8); }
	else { c -= 0x10000; uint32_t h = 0xd800 + (c >> 10), l = 0xdc00 + (c & 0x3ff); o += (char)h; o += (char)(h >> 8); o += (char)l; o += (char)(l >> 8); }
}
// the other case of a character of the alphabets the library claims, or the character itself
inline uint32_t other(uint32_t c)
{
	auto lower = [](uint32_t u) {         // upper case with its lower case 32 further on?
		return (u >= 'A' && u <= 'Z') || (u >= 0xc0 && u <= 0xde && u != 0xd7) || (u >= 0x391 && u <= 0x3ab && u != 0x3a2) || (u >= 0x410 && u <= 0x42f);
	};
	if (lower(c)) return c + 32;
	if (c >= 32 && lower(c - 32)) return c - 32;
	return c;
}
inline bool imatch(uint32_t c, uint32_t lo, uint32_t hi) { uint32_t o = other(c); return (c >= lo && c <= hi) || (o >= lo && o <= hi); }
}
#endif
