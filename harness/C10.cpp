// Roots: forces the real code of /repo into the IR; contains no logic of its own.
#include <Balau/Container/ArrayBlockingQueue.hpp>
template class Balau::Container::ArrayBlockingQueue<int>;
typedef Balau::Container::ArrayBlockingQueue<int> Q;
// where the abstraction function finds the state
extern "C" const size_t vh_off[] = { offsetof(Q, elements), offsetof(Q, count), offsetof(Q, head), offsetof(Q, tail), offsetof(Q, mutex), offsetof(Q, enqueueCondition), offsetof(Q, dequeueCondition), offsetof(Q, defaultQueueIsFull), offsetof(Q, defaultSpaceNowAvailable), sizeof(Q) };
