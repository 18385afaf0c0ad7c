#include <Balau/Util/Strings.hpp>
using namespace Balau; using namespace Balau::Util;
typedef std::string_view V; typedef std::u32string_view W;
extern "C" {
std::vector<V> vh_split8(const V & a, const V & d, bool c) { return Strings::split(a, d, c); }
std::vector<W> vh_split32(const W & a, const W & d, bool c) { return Strings::split(a, d, c); }
std::vector<V> vh_splitTrim8(const V & a, const V & d, bool c) { return Strings::splitAndTrim(a, d, c); }
std::vector<W> vh_splitTrim32(const W & a, const W & d, bool c) { return Strings::splitAndTrim(a, d, c); }
}
