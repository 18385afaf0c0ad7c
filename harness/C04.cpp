#include <Balau/Util/Strings.hpp>
using namespace Balau; using namespace Balau::Util;
typedef std::string S; typedef std::string_view V; typedef std::u32string S32; typedef std::u32string_view V32;
typedef const char * C; typedef const char32_t * C32;
extern "C" {
// each root instantiates one overload and does nothing else
#define R2(n, f, T1, T2, R) R vh_##n(const T1 & a, const T2 & b) { return Strings::f(a, b); }
#define RC(n, f, T1, T2, R) R vh_##n(T1 a, const T2 & b) { return Strings::f(a, b); }
#define RV(n, f, T1, T2, R) R vh_##n(const T1 & a, T2 b) { return Strings::f(a, b); }
#define RCV(n, f, T1, T2, R) R vh_##n(T1 a, T2 b) { return Strings::f(a, b); }
R2(starts_sv, startsWith, V, V, bool) R2(starts_ss, startsWith, S, S, bool) RV(starts_sc, startsWith, S, C, bool) RCV(starts_cc, startsWith, C, C, bool) RV(starts_vch, startsWith, V, char, bool) RV(starts_sch, startsWith, S, char, bool) RCV(starts_cch, startsWith, C, char, bool)
R2(starts_wv, startsWith, V32, V32, bool) R2(starts_ws, startsWith, S32, S32, bool) RV(starts_wsc, startsWith, S32, C32, bool) RV(starts_wch, startsWith, V32, char32_t, bool)
R2(ends_sv, endsWith, V, V, bool) R2(ends_ss, endsWith, S, S, bool) RV(ends_sc, endsWith, S, C, bool) RCV(ends_cc, endsWith, C, C, bool) RV(ends_vch, endsWith, V, char, bool) RCV(ends_cch, endsWith, C, char, bool)
R2(ends_wv, endsWith, V32, V32, bool) R2(ends_ws, endsWith, S32, S32, bool) RV(ends_wch, endsWith, V32, char32_t, bool)
R2(cont_sv, contains, V, V, bool) R2(cont_ss, contains, S, S, bool) RV(cont_sc, contains, S, C, bool) RCV(cont_cc, contains, C, C, bool) RV(cont_vch, contains, V, char, bool) RV(cont_sch, contains, S, char, bool) RCV(cont_cch, contains, C, char, bool)
R2(cont_wv, contains, V32, V32, bool) R2(cont_ws, contains, S32, S32, bool) RV(cont_wch, contains, S32, char32_t, bool)
R2(last_sv, lastIndexOf, V, V, size_t) R2(last_ss, lastIndexOf, S, S, size_t) RV(last_sc, lastIndexOf, S, C, size_t) RCV(last_cc, lastIndexOf, C, C, size_t) R2(last_wv, lastIndexOf, V32, V32, size_t) R2(last_ws, lastIndexOf, S32, S32, size_t)
R2(occ_sv, occurrences, V, V, size_t) R2(occ_ss, occurrences, S, S, size_t) RV(occ_sc, occurrences, S, C, size_t) RCV(occ_cc, occurrences, C, C, size_t) R2(occ_wv, occurrences, V32, V32, size_t) R2(occ_ws, occurrences, S32, S32, size_t)
size_t vh_cpc_sv(const V & a) { return Strings::codePointCount(a); }
size_t vh_cpc_wv(const V32 & a) { return Strings::codePointCount(a); }
}
