AB = 'src/main/cpp/Balau/Container/ArrayBlockingQueue.hpp'
SQ = 'src/main/cpp/Balau/Container/SynchronizedQueue.hpp'
SE = 'src/main/cpp/Balau/Concurrent/Semaphore.hpp'; CB = 'src/main/cpp/Balau/Concurrent/CyclicBarrier.hpp'
LV = 'src/main/cpp/Balau/Concurrent/LazyValue.hpp'; SX = 'src/main/cpp/Balau/Concurrent/SingleTimeExecutor.hpp'
SEEDS = [
dict(id='C10-notify-first-only', property='C10', file=AB, edits=[('''		++count;

		// When two threads are dequeueing, the second thread could
		// miss the notify call if it is outside of the lock.
		dequeueCondition.notify_one();
	}''', '''		++count;

		// When two threads are dequeueing, the second thread could
		// miss the notify call if it is outside of the lock.
		// Consumers only ever wait for the transition from empty.
		if (count == 1) {
			dequeueCondition.notify_one();
		}
	}''')],
 needs='two consumers waiting while a producer enqueues two elements before the first consumer runs again', breaks='the second waiting consumer is never woken although an element is available', files=['sched.hpp'], san='',
 demo=r'''
#include "sched.hpp"
#include <Balau/Container/ArrayBlockingQueue.hpp>
typedef Balau::Container::ArrayBlockingQueue<int> Q;
int main() { int bad = 0; sched::explore(1, 100000, [&] { Q q(4); sched::spawn([&] { q.dequeue(); }); sched::spawn([&] { q.dequeue(); }); sched::spawn([&] { q.enqueue(1); q.enqueue(2); }); if (!sched::run()) { puts("stuck"); _Exit(1); } }); return bad; }
'''),
dict(id='C10-write-outside-lock', property='C10', file=AB, edits=[('''		elements[head] = std::move(object);
		increment(head);
		++count;

		// When two threads are dequeueing, the second thread could
		// miss the notify call if it is outside of the lock.
		dequeueCondition.notify_one();

		return true;''', '''		// Reserve the slot, then move the object outside of the critical section.
		const size_t slot = head;
		increment(head);
		++count;
		lock.unlock();

		elements[slot] = std::move(object);
		dequeueCondition.notify_one();

		return true;''')],
 needs='a consumer that runs between the release of the mutex and the move of the object into its slot', breaks='the consumer takes the slot before the object is in it: the object is lost and an old one delivered', files=['sched.hpp'], san='',
 demo=r'''
#include "sched.hpp"
#include <Balau/Container/ArrayBlockingQueue.hpp>
struct El { int v; El(int x = 0) : v(x) {} El(const El &) = default; El(El &&) = default; El & operator=(const El & o) { sched::point(); v = o.v; return *this; } El & operator=(El && o) { sched::point(); v = o.v; return *this; } };
typedef Balau::Container::ArrayBlockingQueue<El> Q;
int main() { sched::explore(2, 100000, [&] { Q * q = new Q(2); int got = 0; sched::spawn([&] { q->tryEnqueue(El(7)); }); sched::spawn([&] { got = q->dequeue().v; }); sched::run(); if (got != 7) _Exit(1); }); return 0; }
'''),
dict(id='C11-check-then-lock', property='C11', file=SQ, edits=[('''		std::lock_guard<std::mutex> lock(mutex);

		if (elements.empty()) {
			ThrowBalauException(Exception::EmptyException, "Synchronised queue is empty.");
		}
''', '''		// No need to take the lock in order to find out that there is nothing to dequeue.
		if (empty()) {
			ThrowBalauException(Exception::EmptyException, "Synchronised queue is empty.");
		}

		std::lock_guard<std::mutex> lock(mutex);
''')],
 needs='two consumers and one element: both find the queue filled before either takes the mutex', breaks='the second consumer takes an element from an empty list (undefined behaviour) instead of getting EmptyException', files=['sched.hpp'], san='-fsanitize=undefined -fno-sanitize-recover=all',
 demo=r'''
#include "sched.hpp"
#include <Balau/Container/SynchronizedQueue.hpp>
typedef Balau::Container::SynchronizedQueue<int> Q;
int main() { sched::explore(2, 100000, [&] { Q * q = new Q; q->enqueue(5); int a = 0, b = 0; auto take = [q] (int & r) { try { r = q->dequeue() == 5 ? 1 : 100; } catch (const Balau::Exception::EmptyException &) { r = 2; } }; sched::spawn([&] { take(a); }); sched::spawn([&] { take(b); }); if (!sched::run()) _Exit(1); if (a + b != 3) _Exit(1); }); return 0; }
'''),
dict(id='C11-reserve-then-fill', property='C11', file=SQ, edits=[('''		std::lock_guard<std::mutex> lock(mutex);
		elements.push_back(std::move(element));''', '''		T * slot;

		{
			std::lock_guard<std::mutex> lock(mutex);
			elements.emplace_back();
			slot = &elements.back();
		}

		// List nodes do not move: the assignment can take place outside of the critical section.
		*slot = std::move(element);''')],
 needs='a consumer that runs between the release of the mutex and the move of the element', breaks='the consumer gets a default constructed element and the enqueued one is lost', files=['sched.hpp'], san='',
 demo=r'''
#include "sched.hpp"
#include <Balau/Container/SynchronizedQueue.hpp>
struct El { int v; El(int x = 0) : v(x) {} El(const El &) = default; El(El &&) = default; El & operator=(const El & o) { sched::point(); v = o.v; return *this; } El & operator=(El && o) { sched::point(); v = o.v; return *this; } };
typedef Balau::Container::SynchronizedQueue<El> Q;
int main() { sched::explore(2, 100000, [&] { Q * q = new Q; int got = -1; sched::spawn([&] { q->enqueue(El(7)); }); sched::spawn([&] { try { got = q->dequeue().v; } catch (const Balau::Exception::EmptyException &) { } }); sched::run(); if (got != -1 && got != 7) _Exit(1); }); return 0; }
'''),
dict(id='C12-notify-from-zero', property='C12', file=SE, edits=[('''		++count;
		conditionVariable.notify_one();''', '''		// Threads wait only when there is no permit.
		if (count++ == 0) {
			conditionVariable.notify_one();
		}''')],
 needs='two threads waiting and two increments before the first of them runs again', breaks='the second waiting thread is not woken although a permit is available', files=['sched.hpp'], san='',
 demo=r'''
#include "sched.hpp"
#include <Balau/Concurrent/Semaphore.hpp>
using Balau::Concurrent::Semaphore;
int main() { sched::explore(1, 100000, [&] { Semaphore s; sched::spawn([&] { s.decrement(); }); sched::spawn([&] { s.decrement(); }); sched::spawn([&] { s.increment(); s.increment(); }); if (!sched::run()) _Exit(1); }); return 0; }
'''),
dict(id='C12-one-turnstile', property='C12', file=CB, edits=[('''			if (count == 0) {
				turnstile2.decrement();
				turnstile1.increment();
			}
		}

		turnstile1.decrement();
		turnstile1.increment();

		{
			std::lock_guard<std::mutex> lock(mutex);
			count += 1;

			if (count == number) {
				turnstile1.decrement();
				turnstile2.increment();
			}
		}

		turnstile2.decrement();
		turnstile2.increment();''', '''			if (count == 0) {
				// Last arrival: start the next round and hand out one permit per thread.
				count = number;

				for (int i = 0; i < number; i++) {
					turnstile1.increment();
				}
			}
		}

		turnstile1.decrement();''')],
 needs='a thread that enters the next round before a slow thread of the previous round has taken its permit', breaks='the fast thread takes the permit of the slow one and is released from a round that has not been completed', files=['sched.hpp'], san='',
 demo=r'''
#include "sched.hpp"
#include <Balau/Concurrent/CyclicBarrier.hpp>
using Balau::Concurrent::CyclicBarrier;
int main() { sched::explore(2, 200000, [&] { auto * b = new CyclicBarrier(2); auto * arr = new std::vector<int>(3); for (int t = 0; t < 2; t++) sched::spawn([=] { for (int r = 0; r < 3; r++) { ++(*arr)[r]; b->countdown(); if ((*arr)[r] != 2) _Exit(1); } }); if (!sched::run()) _Exit(1); }); return 0; }
'''),
dict(id='C19-flag-before-value', property='C19', file=LV, edits=[('''				value = construct();
				constructed.store(true, std::memory_order_release);''', '''				constructed.store(true, std::memory_order_release);
				value = construct();''')],
 needs='a second thread that asks for the value while the first one is constructing it', breaks='the second caller gets a default constructed value', files=['sched.hpp'], san='',
 demo=r'''
#include "sched.hpp"
#include <Balau/Concurrent/LazyValue.hpp>
using Balau::Concurrent::LazyValue;
int main() { sched::explore(2, 100000, [&] { auto * l = new LazyValue<int>; for (int t = 0; t < 2; t++) sched::spawn([=] { int v = (*l)([] { sched::point(); return 7; }); if (v != 7) _Exit(1); }); if (!sched::run()) _Exit(1); }); return 0; }
'''),
dict(id='C19-no-second-check', property='C19', file=SX, edits=[('''			std::lock_guard<std::mutex> lock(mutex);
			isExecuted = executed.load(std::memory_order_relaxed);

			if (!isExecuted && code) {''', '''			std::lock_guard<std::mutex> lock(mutex);

			if (!isExecuted && code) {''')],
 needs='two threads that both find the flag unset before either takes the mutex', breaks='the code runs twice', files=['sched.hpp'], san='',
 demo=r'''
#include "sched.hpp"
#include <Balau/Concurrent/SingleTimeExecutor.hpp>
using Balau::Concurrent::SingleTimeExecutor;
int main() { sched::explore(2, 100000, [&] { auto * n = new int(0); auto * e = new SingleTimeExecutor([n] { ++*n; }); for (int t = 0; t < 2; t++) sched::spawn([=] { (*e)(); }); sched::run(); if (*n != 1) _Exit(1); }); return 0; }
'''),
]
