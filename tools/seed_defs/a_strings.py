CH = 'src/main/cpp/Balau/Type/Character.hpp'; ST = 'src/main/cpp/Balau/Util/Strings.hpp'
SEEDS = [
dict(id='C01-length-table', property='C01', file=CH, edits=[('return U8_LENGTH((UChar32) c);', 'return c <= 0x7F ? 1 : c <= 0x7FF ? 2 : c < 0xFFFF ? 3 : 4;')],
 needs='the single code point U+FFFF', breaks='utf8ByteCount says 4 for U+FFFF whereas the encoder writes 3 bytes',
 demo=r'''
#include <Balau/Type/Character.hpp>
using namespace Balau;
int main() { std::string s(8, 0); for (char32_t c = 0; c <= 0x10FFFF; c++) { if (c >= 0xD800 && c < 0xE000) continue; int o = 0; Character::setUtf8AndAdvanceOffset(s, o, c); if ((size_t) o != Character::utf8ByteCount(c)) return 1; } return 0; }
'''),
dict(id='C01-retreat-window', property='C01', file=CH, edits=[('U8_BACK_1(((uint8_t *) text.data()), ((int32_t) 0), offset);', 'const int32_t limit = offset > 3 ? offset - 3 : 0;\n\t\tU8_BACK_1(((uint8_t *) text.data()), limit, offset);')],
 needs='a four byte sequence that is not at the start of the text, retreated over by the validating version', breaks='retreatUtf8Safe stops in the middle of a four byte sequence',
 demo=r'''
#include <Balau/Type/Character.hpp>
using namespace Balau;
int main() { std::string s = "ab\xF0\x9F\x98\x80"; int o = 6; Character::retreatUtf8Safe(s, o); if (o != 2) return 1; std::string t = "ab\xE2\x82\xAC"; o = 5; Character::retreatUtf8Safe(t, o); return o == 2 ? 0 : 1; }
'''),
dict(id='C03-byte-fast-path', property='C03', file=ST, edits=[('''		auto offset = (int) input.length();
		int endPosition = offset;

		while (endPosition > 0 && ''', '''		auto offset = (int) input.length();
		int endPosition = offset;

		// Fast path: no need to decode when the last byte is a Latin-1 space.
		while (offset > 0 && Character::isSpace((unsigned char) input[offset - 1])) {
			endPosition = --offset;
		}

		while (endPosition > 0 && ''')],
 needs='UTF-8 text whose last code point ends with byte 0xA0', breaks='trimRight cuts a code point in two',
 demo=r'''
#include <Balau/Util/Strings.hpp>
int main() { std::string s = "voil\xC3\xA0"; return Balau::Util::Strings::trimRight(std::string_view(s)) == s && Balau::Util::Strings::trimRight(std::string_view("ab  ")) == "ab" ? 0 : 1; }
'''),
dict(id='C03-single-left', property='C03', file=ST, edits=[('''		while (startPosition < input.length() && Character::isSpace(input[startPosition])) {
			++startPosition;
		}

		return std::u32string_view(input.data() + startPosition, input.length() - startPosition);''', '''		while (startPosition + 1 < input.length() && Character::isSpace(input[startPosition])) {
			++startPosition;
		}

		return std::u32string_view(input.data() + startPosition, input.length() - startPosition);''')],
 needs='a UTF-32 text made of spaces only', breaks='trimLeft leaves one space of an all-space text',
 demo=r'''
#include <Balau/Util/Strings.hpp>
int main() { using Balau::Util::Strings; return Strings::trimLeft(std::u32string_view(U"   ")).empty() && Strings::trimLeft(std::u32string_view(U"  a")) == U"a" ? 0 : 1; }
'''),
dict(id='C04-ends-first-match', property='C04', file=ST, edits=[('return str.length() >= suffix.length() && str.rfind(suffix) == str.length() - suffix.length();', 'return str.length() >= suffix.length() && str.find(suffix) == str.length() - suffix.length();')],
 needs='a text in which the suffix also occurs earlier', breaks='endsWith is false although the text ends with the suffix',
 demo=r'''
#include <Balau/Util/Strings.hpp>
int main() { using Balau::Util::Strings; return Strings::endsWith(std::string("abcab"), std::string("ab")) && Strings::endsWith(std::string("cab"), std::string("ab")) ? 0 : 1; }
'''),
dict(id='C04-occurrence-step', property='C04', file=ST, edits=[('''			index += Balau::Util::Impl::length(substring);
			++count;''', '''			index += Balau::Util::Impl::length(substring) > 2 ? Balau::Util::Impl::length(substring) - 1 : Balau::Util::Impl::length(substring);
			++count;''')],
 needs='a pattern of three or more characters that overlaps itself by one', breaks='occurrences counts overlapping matches',
 demo=r'''
#include <Balau/Util/Strings.hpp>
int main() { using Balau::Util::Strings; return Strings::occurrences(std::string("abababa"), std::string("aba")) == 2 && Strings::occurrences(std::string("aaaa"), std::string("aa")) == 2 ? 0 : 1; }
'''),
]
