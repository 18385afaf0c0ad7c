#include <Balau/Type/Character.hpp>
#include "drv.hpp"
using namespace Balau;
using drv::in; using drv::same;
static void one(std::string_view v, int off) {
	drv::Exact x(v); auto s = x.sv();
	char32_t cp = 0; int n = drv::dec8(s, off, cp);
	{ int o = off; in("getNextUtf8Safe", s, off); int32_t c = (int32_t) Character::getNextUtf8Safe(s, o);
	  if (n > 0) { same(c, (int32_t) cp); same(o, off + n, "offset"); } else { CHECK(c < 0, "ill-formed text must give a negative value, got " + drv::show(c)); CHECK(o > off && o <= (int) s.size(), "offset must advance within the text, got " + drv::show(o)); } }
	{ int o = off; in("advanceUtf8Safe", s, off); Character::advanceUtf8Safe(s, o);
	  if (n > 0) same(o, off + n, "offset"); else CHECK(o > off && o <= (int) s.size(), "offset must advance within the text, got " + drv::show(o)); }
	if (n > 0) {
		int o = off; in("getNextUtf8", s, off); same(Character::getNextUtf8(s, o), cp); same(o, off + n, "offset");
		o = off; in("advanceUtf8", s, off); Character::advanceUtf8(s, o); same(o, off + n, "offset");
	}
}
static void back(std::string_view v, int off) {
	drv::Exact x(v); auto s = x.sv();
	int n = -1; char32_t cp = 0;
	for (int L = 1; L <= 4 && L <= off; L++) { char32_t c; if (drv::dec8(s.substr(0, off), off - L, c) == L) { n = L; cp = c; } }
	{ int o = off; in("getPreviousUtf8Safe", s, off); char32_t c = Character::getPreviousUtf8Safe(s, o);
	  if (n > 0) { same(c, cp); same(o, off - n, "offset"); } else CHECK(o < off && o >= 0, "offset must retreat within the text, got " + drv::show(o)); }
	{ int o = off; in("retreatUtf8Safe", s, off); Character::retreatUtf8Safe(s, o);
	  if (n > 0) same(o, off - n, "offset"); else CHECK(o < off && o >= 0, "offset must retreat within the text, got " + drv::show(o)); }
	if (n > 0) {
		int o = off; in("getPreviousUtf8", s, off); same(Character::getPreviousUtf8(s, o), cp); same(o, off - n, "offset");
		o = off; in("retreatUtf8", s, off); Character::retreatUtf8(s, o); same(o, off - n, "offset");
	}
}
SECTION("every code point") {
	std::string pre[] = {"", "a", "\xC3\xA9"};
	for (uint32_t c = 0; c <= 0x110010; c++) {
		bool sc = c <= 0x10FFFF && !(c >= 0xD800 && c <= 0xDFFF);
		in("utf8ByteCount", (char32_t) c);
		same((long) Character::utf8ByteCount((char32_t) c), (long) (sc ? drv::enc8((char32_t) c).size() : 0));
		if (!sc) continue;
		std::string e = drv::enc8((char32_t) c);
		for (auto & p : pre) {
			if (c > 0x3000 && !p.empty() && c % 97) continue;
			if (!drv::thorough && c > 0x11000 && c < 0x10FF00 && c % 7) continue;
			std::string t = p + e + "z";
			one(t, (int) p.size()); back(t, (int) (p.size() + e.size()));
			one(p + e, (int) p.size()); back(p + e, (int) (p.size() + e.size()));
			std::string d(p.size() + e.size() + 1, '#'), w = d; w.replace(p.size(), e.size(), e);
			int o = (int) p.size(); in("setUtf8AndAdvanceOffset", d, o, (char32_t) c);
			Character::setUtf8AndAdvanceOffset(d, o, (char32_t) c);
			same(d, w, "text"); same(o, (int) (p.size() + e.size()), "offset");
		}
	}
}
SECTION("small scope bytes") {
	std::string a = "A\x7F\x80\x8F\x90\x9F\xA0\xBF\xC0\xC1\xC2\xDF\xE0\xE1\xED\xEF\xF0\xF1\xF4\xF5\xFF";
	drv::all(a, drv::thorough ? 5 : 4, [&](const std::string & s) {
		if (s.empty()) return;
		for (int o = 0; o < (int) s.size(); o += s.size() > 3 ? (int) s.size() - 1 : 1) one(s, o);
		for (int o = (int) s.size(); o > 0; o -= s.size() > 3 ? (int) s.size() - 1 : 1) back(s, o);
	});
}
SECTION("random") {
	drv::Rng r(drv::seed);
	for (int i = 0; i < (drv::thorough ? 3000000 : 150000); i++) {
		std::string s = r.coin() ? drv::enc8(drv::rstr32(r, 6)) : drv::rbytes(r, 8);
		if (s.empty()) continue;
		one(s, (int) r.below(s.size())); back(s, 1 + (int) r.below(s.size()));
	}
}
