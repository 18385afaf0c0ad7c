#include "sched.hpp"
#include <Balau/Concurrent/Semaphore.hpp>
#include <Balau/Concurrent/CyclicBarrier.hpp>
#include "drv.hpp"
using namespace Balau::Concurrent; using drv::in;
struct Op { bool inc; long inv = 0, ret = 0; };
struct Seq { int n; bool step(Op & o) { if (o.inc) { ++n; return true; } if (n == 0) return false; --n; return true; } bool blocked(const Op & o) const { return !o.inc && n == 0; } };
static void sem(int init, const std::vector<std::string> & ts, int pb, long runs) {
	std::string d = "initial " + std::to_string(init); for (auto & t : ts) d += " | thread " + t;
	sched::explore(pb, runs, [&] {
		auto * s = new Semaphore((unsigned) init); auto * h = new sched::Hist<Op>; sched::watch(*s);
		for (size_t t = 0; t < ts.size(); t++) sched::spawn([=, &ts] { for (char c : ts[t]) { int i = h->call(Op{c == '+'}); if (c == '+') s->increment(); else s->decrement(); h->ret(i); } });
		bool done = sched::run(); in("Semaphore", d, sched::schedule()); (void) done;
		CHECK(!sched::W->livelock, "an operation does not end");
		std::string log; for (auto & o : h->ops) log += std::string(" ") + (o.inc ? "increment" : "decrement") + (o.ret ? "" : "(blocked)");
		CHECK(sched::lin(Seq{init}, h->ops, 0), "a thread was admitted without a permit, or waits although there is one:" + log);
		if (done) { delete s; delete h; }
	}, 1);
}
static void barrier(int n, int rounds, int pb, long runs) {
	std::string d = std::to_string(n) + " threads, " + std::to_string(rounds) + " rounds";
	sched::explore(pb, runs, [&] {
		auto * b = new CyclicBarrier((unsigned) n); auto * arrived = new std::vector<int>(rounds, 0); auto * bad = new std::string; sched::watch(*b);
		for (int t = 0; t < n; t++) sched::spawn([=] { for (int r = 0; r < rounds; r++) { ++(*arrived)[r]; b->countdown(); if ((*arrived)[r] != n && bad->empty()) *bad = "round " + std::to_string(r) + ": a thread was released when " + std::to_string((*arrived)[r]) + " of " + std::to_string(n) + " threads had arrived"; } });
		bool done = sched::run(); in("CyclicBarrier::countdown", d, sched::schedule());
		CHECK(bad->empty(), *bad); CHECK(done, "threads stay blocked although all have arrived: " + std::to_string(sched::unfinished()) + " never return");
		delete b; delete arrived; delete bad;
	}, 1);
}
// fewer threads than the number: nobody gets through; one more arrives: all get through
static void partial(int n, int pb, long runs) {
	sched::explore(pb, runs, [&] {
		auto * b = new CyclicBarrier((unsigned) n); auto * out = new int(0);
		for (int t = 0; t < n - 1; t++) sched::spawn([=] { b->countdown(); ++*out; });
		sched::run(); in("CyclicBarrier::countdown", n, "one thread missing", sched::schedule()); CHECK(*out == 0, "released before all arrived");
		sched::spawn([=] { b->countdown(); ++*out; }); bool done = sched::run(); CHECK(done && *out == n, "not all threads are released by the last arrival");
		b->reconfigure(1); sched::spawn([=] { b->countdown(); ++*out; }); CHECK(sched::run() && *out == n + 1, "reconfigured for one thread: it must pass");
		delete b; delete out;
	}, 1);
}
#define R(q, t) (drv::thorough ? (t) : (q))
SECTION("semaphore, one thread") { for (int i = 0; i < 4; i++) for (int m = 0; m < 256; m++) { std::string s; for (int k = 0; k < 8; k++) s += m >> k & 1 ? '+' : '-'; sem(i, {s}, 0, 1); } }
SECTION("semaphore, threads") { long q = R(100000L, 1500000L); sem(0, {"+", "-", "-", "+"}, 2, q); sem(0, {"++", "-", "-"}, 3, q); sem(1, {"-+", "-+", "-+"}, 2, q); sem(0, {"-+", "+-"}, 4, q); sem(2, {"--+", "-", "+"}, 3, q); sem(0, {"-", "-", "-", "+++"}, 2, q); }
SECTION("semaphore, random") { drv::Rng r(drv::seed); for (int k = 0; k < R(150, 1500); k++) { std::vector<std::string> ts(2 + r.below(2)); for (auto & t : ts) { size_t n = 1 + r.below(3); while (t.size() < n) t += "+-"[r.below(2)]; } sem((int) r.below(3), ts, 2, R(5000L, 30000L)); } }
SECTION("barrier, 1 thread") { barrier(1, 5, 0, 10); }
SECTION("barrier, 2 threads") { barrier(2, 2, 3, R(300000L, 3000000L)); barrier(2, 4, 1, R(100000L, 1000000L)); }
SECTION("barrier, 3 threads") { barrier(3, 2, 1, R(200000L, 3000000L)); barrier(3, 1, 2, R(100000L, 3000000L)); barrier(4, 2, 0, R(100000L, 1000000L)); }
SECTION("barrier, late thread") { for (int n = 1; n < 5; n++) partial(n, n < 4 ? 1 : 0, R(20000L, 300000L)); }
