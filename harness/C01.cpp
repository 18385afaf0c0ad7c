// Roots: forces the real inline functions of /repo into the IR; contains no logic of its own.
#include <Balau/Type/Character.hpp>
using Balau::Character;
extern "C" void * vh_roots[] = {
	(void *) &Character::getNextUtf8, (void *) &Character::getNextUtf8Safe,
	(void *) &Character::getPreviousUtf8, (void *) &Character::getPreviousUtf8Safe,
	(void *) &Character::advanceUtf8, (void *) &Character::advanceUtf8Safe,
	(void *) &Character::retreatUtf8, (void *) &Character::retreatUtf8Safe,
	(void *) &Character::utf8ByteCount, (void *) &Character::setUtf8AndAdvanceOffset
};
