// Roots: forces the real code of /repo into the IR; contains no logic of its own.
#include <Balau/Container/SynchronizedQueue.hpp>
template class Balau::Container::SynchronizedQueue<int>;
typedef Balau::Container::SynchronizedQueue<int> Q;
extern "C" const size_t vh_off[] = { offsetof(Q, elements), offsetof(Q, mutex), sizeof(Q) };
extern "C" void vh_new(void * p) { new (p) Q(); }
