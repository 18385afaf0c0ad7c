#include <Balau/Util/Strings.hpp>
#include "drv.hpp"
using namespace Balau; using namespace Balau::Util;
using drv::in; using drv::same;
template <typename V> bool at(V s, size_t p, V t) { if (p > s.size() || t.size() > s.size() - p) return false; for (size_t i = 0; i < t.size(); i++) if (s[p + i] != t[i]) return false; return true; }
template <typename C> void one(std::basic_string_view<C> s, std::basic_string_view<C> t) {
	typedef std::basic_string<C> S;
	S ss(s), ts(t);
	bool starts = at(s, 0, t), ends = t.size() <= s.size() && at(s, s.size() - t.size(), t), has = false; size_t last = S::npos, occ = 0;
	for (size_t p = 0; p <= s.size(); p++) if (at(s, p, t)) { has = true; last = p; }
	if (!t.empty()) for (size_t p = 0; p < s.size();) if (at(s, p, t)) { ++occ; p += t.size(); } else ++p;
	in("startsWith", s, t); same(Strings::startsWith(s, t), starts, "startsWith(view, view)"); same(Strings::startsWith(ss, ts), starts, "startsWith(string, string)");
	in("endsWith", s, t); same(Strings::endsWith(s, t), ends, "endsWith(view, view)"); same(Strings::endsWith(ss, ts), ends, "endsWith(string, string)");
	in("contains", s, t); same(Strings::contains(s, t), has, "contains(view, view)"); same(Strings::contains(ss, ts), has, "contains(string, string)");
	in("lastIndexOf", s, t); same(Strings::lastIndexOf(s, t), last, "lastIndexOf(view, view)"); same(Strings::lastIndexOf(ss, ts), last, "lastIndexOf(string, string)");
	in("occurrences", s, t); same(Strings::occurrences(s, t), occ, "occurrences(view, view)"); same(Strings::occurrences(ss, ts), occ, "occurrences(string, string)");
	if (ss.find(C(0)) == S::npos && ts.find(C(0)) == S::npos) {
		in("startsWith (literals)", s, t); same(Strings::startsWith(ss.c_str(), ts.c_str()), starts); same(Strings::startsWith(ss, ts.c_str()), starts);
		in("endsWith (literals)", s, t); same(Strings::endsWith(ss.c_str(), ts.c_str()), ends); same(Strings::endsWith(ss, ts.c_str()), ends);
		in("contains (literals)", s, t); same(Strings::contains(ss.c_str(), ts.c_str()), has); same(Strings::contains(ss, ts.c_str()), has);
		in("lastIndexOf (literals)", s, t); same(Strings::lastIndexOf(ss.c_str(), ts.c_str()), last);
		in("occurrences (literals)", s, t); same(Strings::occurrences(ss.c_str(), ts.c_str()), occ); same(Strings::occurrences(ss, ts.c_str()), occ);
	}
	if (t.size() == 1) {
		C c = t[0];
		in("startsWith (character)", s, t); same(Strings::startsWith(s, c), starts); same(Strings::startsWith(ss, c), starts);
		in("endsWith (character)", s, t); same(Strings::endsWith(s, c), ends);
		in("contains (character)", s, t); same(Strings::contains(s, c), has); same(Strings::contains(ss, c), has);
	}
}
static void both(const std::string & s, const std::string & t) {
	drv::Exact a(s), b(t); one(a.sv(), b.sv());
	std::u32string s4, t4; for (unsigned char c : s) s4 += (char32_t) c * 0x101 + 0x20; for (unsigned char c : t) t4 += (char32_t) c * 0x101 + 0x20;
	drv::Exact32 c(s4), d(t4); one(c.sv(), d.sv());
}
SECTION("small scope") {
	std::string al = "ab";
	drv::all(al, drv::thorough ? 9 : 7, [&](const std::string & s) { drv::all(al, 4, [&](const std::string & t) { both(s, t); }); });
}
SECTION("three letters") { std::string al("a\0z", 3); drv::all(al, drv::thorough ? 6 : 5, [&](const std::string & s) { drv::all(al, 3, [&](const std::string & t) { both(s, t); }); }); }
SECTION("long") {
	drv::Rng r(drv::seed);
	for (int i = 0; i < (drv::thorough ? 100000 : 6000); i++) {
		std::string s, t; size_t n = r.below(300), m = r.below(12); int k = 1 + (int) r.below(3);
		while (s.size() < n) s += (char) ('a' + r.below(k)); while (t.size() < m) t += (char) ('a' + r.below(k));
		if (r.coin()) t = s; else if (r.coin() && s.size() > 3) t = s.substr(r.below(s.size()));
		both(s, t);
	}
}
SECTION("codePointCount") {
	drv::Rng r(drv::seed);
	auto f = [](const std::u32string & t) { drv::Exact x(drv::enc8(t)); in("codePointCount", x.sv()); same(Strings::codePointCount(x.sv()), t.size()); same(Strings::codePointCount(std::u32string_view(t)), t.size()); };
	drv::all(std::u32string{U'a', U'\xE9', U'\x20AC', U'\x1F600', U'\0', U'\x7FF', U'\xFFFF'}, 5, f);
	for (int i = 0; i < 100000; i++) f(drv::rstr32(r, 20));
}
