// Roots: forces the real inline functions of /repo into the IR; contains no logic of its own.
#include <Balau/Type/Character.hpp>
using Balau::Character;
extern "C" void * vh_roots[] = {
	(void *) &Character::isLower, (void *) &Character::isUpper, (void *) &Character::isDigit, (void *) &Character::isHexDigit,
	(void *) &Character::isOctalDigit, (void *) &Character::isBinaryDigit, (void *) &Character::isAlpha, (void *) &Character::isAlphaOrDecimal,
	(void *) &Character::isControlCharacter, (void *) &Character::isSpace, (void *) &Character::isWhitespace, (void *) &Character::isBlank,
	(void *) &Character::isPrintable, (void *) &Character::isPunctuation, (void *) &Character::isIdStart, (void *) &Character::isIdPart,
	(void *) &Character::isBreakableCharacter, (void *) &Character::isInclusiveBreakableCharacter, (void *) &Character::isValid,
	(void *) &Character::toUpper, (void *) &Character::toLower
};
