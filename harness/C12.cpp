// Roots: forces the real code of /repo into the IR; contains no logic of its own.
#include <Balau/Concurrent/Semaphore.hpp>
#include <Balau/Concurrent/CyclicBarrier.hpp>
#include <new>
using Balau::Concurrent::Semaphore; using Balau::Concurrent::CyclicBarrier;
extern "C" const size_t vh_off[] = { offsetof(Semaphore, mutex), offsetof(Semaphore, conditionVariable), offsetof(Semaphore, count), sizeof(Semaphore), offsetof(CyclicBarrier, mutex), offsetof(CyclicBarrier, turnstile1), offsetof(CyclicBarrier, turnstile2), offsetof(CyclicBarrier, number), offsetof(CyclicBarrier, count), sizeof(CyclicBarrier) };
extern "C" void vh_sem(void * p, unsigned n) { new (p) Semaphore(n); }
extern "C" void vh_inc(Semaphore * s) { s->increment(); }
extern "C" void vh_dec(Semaphore * s) { s->decrement(); }
extern "C" void vh_bar(void * p, unsigned n) { new (p) CyclicBarrier(n); }
extern "C" void vh_reconf(CyclicBarrier * b, unsigned n) { b->reconfigure(n); }
extern "C" void vh_countdown(CyclicBarrier * b) { b->countdown(); }
