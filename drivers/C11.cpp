#include "sched.hpp"
#include <Balau/Container/SynchronizedQueue.hpp>
#include "drv.hpp"
using namespace Balau; using drv::in;
struct El { int v = 0; El() = default; El(int x) : v(x) {} El(const El & o) : v(o.v) { sched::point(); } El(El && o) : v(o.v) { sched::point(); o.v = -1; } El & operator=(const El & o) { sched::point(); v = o.v; return *this; } El & operator=(El && o) { sched::point(); v = o.v; if (this != &o) o.v = -1; return *this; } };
typedef Container::SynchronizedQueue<El> Q;
enum K { ENQ, DEQ, EMPTY };
struct Op { K k; int x; long inv = 0, ret = 0; int res = 0; bool ok = false; };
struct Seq {
	std::vector<int> q;
	bool step(Op & o) {
		if (o.k == ENQ) { q.push_back(o.x); return true; }
		if (o.k == EMPTY) return o.ok == q.empty();
		if (!o.ok) return q.empty();
		if (q.empty() || q[0] != o.res) return false; q.erase(q.begin()); return true;
	}
	bool blocked(const Op &) const { return false; }
};
static void perform(Q & q, sched::Hist<Op> & h, Op o) {
	int i = h.call(o); int res = 0; bool ok = false;
	if (o.k == ENQ) q.enqueue(El(o.x)); else if (o.k == EMPTY) ok = q.empty(); else { try { res = q.dequeue().v; ok = true; } catch (const Exception::EmptyException &) { ok = false; } }
	h.ops[i].res = res; h.ops[i].ok = ok; h.ret(i);
}
static std::string show(const std::vector<std::vector<Op>> & ts) { std::string s; for (auto & t : ts) { s += "| thread:"; for (auto & o : t) s += o.k == ENQ ? " enqueue " + std::to_string(o.x) : o.k == DEQ ? " dequeue" : " empty"; } return s; }
static void scenario(const std::vector<std::vector<Op>> & ts, int pb, long runs) {
	std::string d = show(ts);
	sched::explore(pb, runs, [&] {
		auto * q = new Q; auto * h = new sched::Hist<Op>; sched::watch(*q);
		for (size_t t = 0; t < ts.size(); t++) sched::spawn([=, &ts] { for (auto & o : ts[t]) perform(*q, *h, o); });
		bool done = sched::run(); in("SynchronizedQueue", d, sched::schedule());
		CHECK(done, "a thread never ends");
		std::string log; for (auto & o : h->ops) log += " (" + std::string(o.k == ENQ ? "enqueue " + std::to_string(o.x) : o.k == DEQ ? "dequeue" : "empty") + " -> " + std::to_string(o.res) + (o.ok ? "t" : "f") + ")";
		CHECK(sched::lin(Seq{}, h->ops, 0), "no order of the operations explains the results:" + log);
		delete q; delete h;
	}, 1);
}
SECTION("one thread, all short sequences") {
	int n = drv::thorough ? 11 : 8; std::vector<int> ix(n, 0);
	for (;;) { std::vector<Op> t; int x = 0; for (int i : ix) t.push_back(Op{(K) i, i ? 0 : ++x}); scenario({t}, 0, 1); int p = n - 1; while (p >= 0 && ++ix[p] == 3) ix[p--] = 0; if (p < 0) break; }
}
SECTION("one thread, long sequences") { drv::Rng r(drv::seed); for (int k = 0; k < 500; k++) { std::vector<Op> t; int x = 0; int bias = 1 + (int) r.below(5); for (int i = 0; i < 30; i++) { int c = (int) r.below(7); t.push_back(c == 6 ? Op{EMPTY, 0} : c < bias ? Op{ENQ, ++x} : Op{DEQ, 0}); } scenario({t}, 0, 1); } }
SECTION("threads") {
	long R = drv::thorough ? 2000000 : 150000;
	scenario({{{ENQ, 1}, {ENQ, 2}}, {{DEQ, 0}, {DEQ, 0}}}, 4, R);
	scenario({{{ENQ, 1}, {ENQ, 2}}, {{ENQ, 3}, {DEQ, 0}}, {{DEQ, 0}, {EMPTY, 0}}}, 3, R);
	scenario({{{ENQ, 1}, {DEQ, 0}, {EMPTY, 0}}, {{ENQ, 2}, {DEQ, 0}, {EMPTY, 0}}}, 3, R);
	scenario({{{ENQ, 1}}, {{ENQ, 2}}, {{DEQ, 0}}, {{EMPTY, 0}, {DEQ, 0}}}, 3, R);
}
SECTION("random programs") {
	drv::Rng r(drv::seed);
	for (int k = 0; k < (drv::thorough ? 2000 : 200); k++) { int x = 0; std::vector<std::vector<Op>> ts(2 + r.below(2)); for (auto & t : ts) { size_t n = 1 + r.below(ts.size() == 2 ? 4 : 2); while (t.size() < n) { int c = (int) r.below(5); t.push_back(c < 2 ? Op{ENQ, ++x} : c < 4 ? Op{DEQ, 0} : Op{EMPTY, 0}); } } scenario(ts, 2, drv::thorough ? 40000 : 6000); }
}
