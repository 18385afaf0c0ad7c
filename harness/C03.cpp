#include <Balau/Util/Strings.hpp>
using namespace Balau; using namespace Balau::Util;
typedef std::string_view V; typedef std::u32string_view W;
V (*r8[])(const V &) = { &Strings::trim, &Strings::trimLeft, &Strings::trimRight };
W (*r32[])(const W &) = { &Strings::trim, &Strings::trimLeft, &Strings::trimRight };
