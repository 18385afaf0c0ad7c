#include <Balau/Util/Strings.hpp>
using namespace Balau; using namespace Balau::Util;
typedef std::string S; typedef std::string_view V; typedef std::u32string S32; typedef std::u32string_view V32;
extern "C" {
// each root calls one function of the library and does nothing else
void vh_app8c(S & s, char c, size_t n) { Strings::append(s, c, n); }
void vh_app8u(S & s, char32_t c, size_t n) { Strings::append(s, c, n); }
void vh_app32(S32 & s, char32_t c, size_t n) { Strings::append(s, c, n); }
S vh_appc8c(const V & s, char c, size_t n) { return Strings::append(s, c, n); }
S vh_appc8u(const S & s, char32_t c, size_t n) { return Strings::append((const S &) s, c, n); }
S32 vh_appc32(const S32 & s, char32_t c, size_t n) { return Strings::append((const S32 &) s, c, n); }
S vh_padl8c(const V & s, unsigned int w, char c) { return Strings::padLeft(s, w, c); }
S vh_padl8u(const V & s, unsigned int w, char32_t c) { return Strings::padLeft(s, w, c); }
S32 vh_padl32(const V32 & s, unsigned int w, char32_t c) { return Strings::padLeft(s, w, c); }
S vh_padr8c(const V & s, unsigned int w, char c) { return Strings::padRight(s, w, c); }
S vh_padr8u(const V & s, unsigned int w, char32_t c) { return Strings::padRight(s, w, c); }
S32 vh_padr32(const V32 & s, unsigned int w, char32_t c) { return Strings::padRight(s, w, c); }
S vh_upper8(const V & s) { return Strings::toUpper(s); }
S vh_lower8(const V & s) { return Strings::toLower(s); }
S32 vh_upper32(const V32 & s) { return Strings::toUpper(s); }
S32 vh_lower32(const V32 & s) { return Strings::toLower(s); }
S vh_repl8(V s, V m, V r, size_t * n) { return Strings::replaceAll(s, m, r, n); }
S32 vh_repl32(V32 s, V32 m, V32 r, size_t * n) { return Strings::replaceAll(s, m, r, n); }
bool vh_eqic8(const S & a, const S & b) { return Strings::equalsIgnoreCase(a, b); }
bool vh_eqic32(const S32 & a, const S32 & b) { return Strings::equalsIgnoreCase(a, b); }
S vh_join3(const char * d, const S & a, const S & b, const S & c) { return Strings::join(d, a, b, c); }
S vh_joinc(V d, const std::vector<S> & v) { return Strings::joinContainer(d, v); }
S vh_psj(const std::vector<S> & v, const char * p, const char * q) { return Strings::prefixSuffixJoin(v, p, q); }
}
