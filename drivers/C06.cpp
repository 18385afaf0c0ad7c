#include <Balau/Util/Strings.hpp>
#include "drv.hpp"
using namespace Balau; using namespace Balau::Util;
using drv::in; using drv::same;
template <typename C> void one(std::basic_string_view<C> s, std::basic_string_view<C> t) {
	typedef std::basic_string_view<C> V;
	for (int c = 0; c < 2; c++) {
		std::vector<V> want;
		if (t.empty()) want.push_back(s);
		else {
			size_t b = 0;
			for (;;) {
				size_t q = b; while (q + t.size() <= s.size() && s.substr(q, t.size()) != t) ++q;
				bool last = q + t.size() > s.size(); if (last) q = s.size();
				if (!c || q != b) want.push_back(s.substr(b, q - b));
				if (last) break;
				b = q + t.size();
			}
		}
		in(c ? "split (compress)" : "split", s, t);
		auto got = Strings::split(s, t, (bool) c);
		same(got, want, "pieces");
		for (size_t i = 0; i < got.size(); i++) CHECK(got[i].data() == want[i].data() || got[i].empty(), "piece " + std::to_string(i) + " is not a view of the right part of the text");
		in(c ? "splitAndTrim (compress)" : "splitAndTrim", s, t);
		auto tr = Strings::splitAndTrim(s, t, (bool) c);
		for (auto & w : want) { while (!w.empty() && w[0] == C(' ')) w.remove_prefix(1); while (!w.empty() && w.back() == C(' ')) w.remove_suffix(1); }
		same(tr, want, "trimmed pieces");
	}
	in("split (default)", s, t); size_t n = Strings::split(s, t).size(); same(n, Strings::split(s, t, true).size(), "default is to compress");
}
static void both(const std::string & s, const std::string & t) {
	drv::Exact a(s), b(t); one(a.sv(), b.sv());
	std::u32string s4, t4; for (unsigned char c : s) s4 += c == ' ' ? U' ' : (char32_t) c * 0x11 + 0x20; for (unsigned char c : t) t4 += c == ' ' ? U' ' : (char32_t) c * 0x11 + 0x20;
	drv::Exact32 c(s4), d(t4); one(c.sv(), d.sv());
}
SECTION("small scope") { std::string al = "ab"; drv::all(al, drv::thorough ? 10 : 8, [&](const std::string & s) { drv::all(al, 3, [&](const std::string & t) { both(s, t); }); }); }
SECTION("blanks and NUL") { std::string al(", a\0", 4); drv::all(al, drv::thorough ? 7 : 5, [&](const std::string & s) { drv::all(al, 2, [&](const std::string & t) { both(s, t); }); }); }
SECTION("random") {
	drv::Rng r(drv::seed);
	for (int i = 0; i < (drv::thorough ? 60000 : 5000); i++) {
		std::string s, t; size_t n = r.below(200), m = 1 + r.below(5); int k = 1 + (int) r.below(3);
		while (s.size() < n) s += "ab,"[r.below(k)]; while (t.size() < m) t += "ab,"[r.below(k)];
		both(s, t); both(s + t, t); both(t + s + t.substr(0, t.size() - 1), t);
	}
}
SECTION("UTF-8") {
	drv::Rng r(drv::seed);
	for (int i = 0; i < 3000; i++) {
		std::u32string a = drv::rstr32(r, 12), d = drv::rstr32(r, 2); for (int k = 0; k < 3; k++) a.insert(r.below(a.size() + 1), d);
		std::string a8 = drv::enc8(a), d8 = drv::enc8(d); drv::Exact x(a8), y(d8); drv::Exact32 u(a), v(d);
		for (int c = 0; c < 2; c++) {
			in("split of UTF-8 against UTF-32", a, d); auto p = Strings::split(x.sv(), y.sv(), (bool) c); auto q = Strings::split(u.sv(), v.sv(), (bool) c);
			if (d.empty()) continue;
			same(p.size(), q.size(), "number of pieces"); for (size_t j = 0; j < p.size(); j++) same(std::string(p[j]), drv::enc8(std::u32string(q[j])), "piece");
			auto p2 = Strings::splitAndTrim(x.sv(), y.sv(), (bool) c); auto q2 = Strings::splitAndTrim(u.sv(), v.sv(), (bool) c);
			same(p2.size(), q2.size(), "number of trimmed pieces"); for (size_t j = 0; j < p2.size(); j++) { same(std::string(p2[j]), drv::enc8(std::u32string(q2[j])), "trimmed piece"); same(std::u32string_view(q2[j]), Strings::trim(q[j]), "trimmed piece"); }
		}
	}
}
