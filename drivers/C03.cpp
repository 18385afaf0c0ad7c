#include <Balau/Util/Strings.hpp>
#include "drv.hpp"
using namespace Balau; using namespace Balau::Util;
using drv::in; using drv::same;
template <typename T> void chk(const char * fn, T got, T text, size_t b, size_t e) {
	if (b >= e) { CHECK(got.empty(), std::string(fn) + ": expected an empty view, got " + drv::show(got)); return; }
	CHECK(got.data() >= text.data() && got.data() + got.size() <= text.data() + text.size(), std::string(fn) + ": the result does not lie inside the input");
	same(got, text.substr(b, e - b), fn);
	CHECK(got.data() == text.data() + b, std::string(fn) + ": the result is not the right part of the input");
}
static void one(const std::u32string & t) {
	std::string u = drv::enc8(t);
	drv::Exact x(u); drv::Exact32 y(t);
	size_t b = 0, e = t.size(), B = 0, E = u.size();
	while (b < t.size() && u_isJavaSpaceChar((UChar32) t[b])) { B += drv::enc8(t[b]).size(); ++b; }
	while (e > 0 && u_isJavaSpaceChar((UChar32) t[e - 1])) { E -= drv::enc8(t[e - 1]).size(); --e; }
	in("trim", x.sv()); chk("trim", Strings::trim(x.sv()), x.sv(), B, E);
	in("trimLeft", x.sv()); chk("trimLeft", Strings::trimLeft(x.sv()), x.sv(), B, u.size());
	in("trimRight", x.sv()); chk("trimRight", Strings::trimRight(x.sv()), x.sv(), 0, E);
	in("trim", y.sv()); chk("trim", Strings::trim(y.sv()), y.sv(), b, e);
	in("trimLeft", y.sv()); chk("trimLeft", Strings::trimLeft(y.sv()), y.sv(), b, t.size());
	in("trimRight", y.sv()); chk("trimRight", Strings::trimRight(y.sv()), y.sv(), 0, e);
}
SECTION("small scope") {
	// spaces of 1, 2 and 3 bytes, non-spaces of 1 to 4 bytes
	drv::all(std::u32string{U' ', U'\xA0', U'\x3000', U'a', U'\t', U'\xE9', U'\x20AC', U'\x1F600'}, drv::thorough ? 6 : 5, one);
}
SECTION("random") {
	drv::Rng r(drv::seed);
	char32_t sp[] = {U' ', U'\xA0', U'\x1680', U'\x2003', U'\x2028', U'\x2029', U'\x3000'};
	for (int i = 0; i < (drv::thorough ? 1000000 : 60000); i++) {
		std::u32string t = drv::rstr32(r, 8), l, m;
		for (size_t k = r.below(4); k; k--) l += r.pick(sp);
		for (size_t k = r.below(4); k; k--) m += r.pick(sp);
		one(l + t + m);
	}
	for (int n : {200, 5000, 100000}) one(std::u32string(n, U' ') + U"x" + std::u32string(n, U'\x3000'));
}
