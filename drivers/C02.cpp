#include <Balau/Type/Character.hpp>
#include "drv.hpp"
#include <unicode/uchar.h>
using Balau::Character;
static void one(char32_t c) {
	using drv::in; using drv::same;
	int t = u_charType((UChar32) c); uint32_t m = U_MASK(t);
	auto R = [&](char32_t a, char32_t b) { return c >= a && c <= b; };
	bool z = (m & U_GC_Z_MASK) != 0, ws = (z && c != 0xA0 && c != 0x2007 && c != 0x202F) || R(9, 13) || R(0x1C, 0x1F);
#define P(f, w) in(#f, c); same(Character::f(c), (bool) (w), "result")
	P(isLower, t == U_LOWERCASE_LETTER); P(isUpper, t == U_UPPERCASE_LETTER); P(isDigit, t == U_DECIMAL_DIGIT_NUMBER);
	P(isHexDigit, R('0', '9') || R('a', 'f') || R('A', 'F')); P(isOctalDigit, R('0', '7')); P(isBinaryDigit, R('0', '1'));
	P(isAlpha, m & U_GC_L_MASK); P(isAlphaOrDecimal, m & (U_GC_L_MASK | U_GC_ND_MASK)); P(isControlCharacter, (m & (U_GC_CC_MASK | U_GC_CF_MASK | U_GC_ZL_MASK | U_GC_ZP_MASK)) || R(0, 0x1F) || R(0x7F, 0x9F));
	P(isSpace, z); P(isWhitespace, ws); P(isBlank, c == 9 || (m & U_GC_ZS_MASK)); P(isPrintable, !(m & U_GC_C_MASK)); P(isPunctuation, m & U_GC_P_MASK);
	P(isIdStart, u_hasBinaryProperty((UChar32) c, UCHAR_ID_START)); P(isIdPart, u_hasBinaryProperty((UChar32) c, UCHAR_ID_CONTINUE));
	P(isBreakableCharacter, ws || c == '-'); P(isInclusiveBreakableCharacter, c == '-'); P(isValid, c <= 0x10FFFF);
	in("toUpper", c); same(Character::toUpper(c), (char32_t) u_toupper((UChar32) c), "result"); in("toLower", c); same(Character::toLower(c), (char32_t) u_tolower((UChar32) c), "result");
}
SECTION("code points") { for (char32_t c = 0; c <= 0x110010; c++) one(c); }
SECTION("other values") { for (uint64_t c = 0x110000; c <= 0xFFFFFFFFull; c += 99991) one((char32_t) c); for (char32_t c = 0xFFFFFFFF; c > 0xFFFFF000; c--) one(c); for (int b = 8; b < 32; b++) for (char32_t d = 0; d < 256; d++) one((1u << b) + d); }
