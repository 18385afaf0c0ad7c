#include "sched.hpp"
#include <Balau/Container/ArrayBlockingQueue.hpp>
#include "drv.hpp"
using namespace Balau::Container; using drv::in; using drv::same;
typedef std::chrono::milliseconds ms;
// an element whose copy and move are not atomic
struct El { int v = 0; El() = default; El(int x) : v(x) {} El(const El & o) : v(o.v) { sched::point(); } El(El && o) : v(o.v) { sched::point(); o.v = -1; } El & operator=(const El & o) { sched::point(); v = o.v; return *this; } El & operator=(El && o) { sched::point(); v = o.v; if (this != &o) o.v = -1; return *this; } };
typedef ArrayBlockingQueue<El> Q;
enum K { ENQ, TRYENQ, TRYENQT, DEQ, TRYDEQ, TRYDEQB, TRYDEQT, TRYDEQTB, EMPTY, FULL };
struct Op { K k; int x; long inv = 0, ret = 0; int res = 0; bool ok = false; };
struct Seq {
	std::vector<int> q; size_t cap;
	bool step(Op & o) {
		switch (o.k) {
			case ENQ: if (q.size() >= cap) return false; q.push_back(o.x); return true;
			case TRYENQ: case TRYENQT: if (o.ok) { if (q.size() >= cap) return false; q.push_back(o.x); return true; } return q.size() == cap;
			case DEQ: if (q.empty() || q[0] != o.res) return false; q.erase(q.begin()); return true;
			case EMPTY: return o.ok == q.empty(); case FULL: return o.ok == (q.size() == cap);
			default: if (o.ok) { if (q.empty() || q[0] != o.res) return false; q.erase(q.begin()); return true; } return q.empty();
		}
	}
	bool blocked(const Op & o) const { return (o.k == ENQ && q.size() >= cap) || (o.k == DEQ && q.empty()); }
};
static void perform(Q & q, sched::Hist<Op> & h, Op o, std::string & cb) {
	cb += "|"; int i = h.call(o); int res = 0; bool ok = false;
	switch (o.k) {
		case ENQ: if (o.x % 2) q.enqueue(El(o.x)); else q.enqueue(El(o.x), [&](const El & e) { cb += e.v == o.x ? 'f' : '?'; }, [&](const El & e) { cb += e.v == o.x ? 's' : '?'; }); break;
		case TRYENQ: ok = q.tryEnqueue(El(o.x)); break;
		case TRYENQT: ok = o.x % 2 ? q.tryEnqueue(El(o.x), ms(5)) : q.tryEnqueue(El(o.x), ms(5), [&](const El & e) { cb += e.v == o.x ? 'f' : '?'; }, [&](const El & e) { cb += e.v == o.x ? 's' : '?'; }); break;
		case DEQ: res = q.dequeue().v; break;
		case TRYDEQ: res = q.tryDequeue().v; ok = res != 0; break;
		case TRYDEQB: { bool b = o.x; res = q.tryDequeue(b).v; ok = b; break; }
		case TRYDEQT: res = q.tryDequeue(ms(5)).v; ok = res != 0; break;
		case TRYDEQTB: { bool b = o.x; res = q.tryDequeue(ms(5), b).v; ok = b; break; }
		case EMPTY: ok = q.empty(); break; case FULL: ok = q.full(); break;
	}
	h.ops[i].res = res; h.ops[i].ok = ok; h.ret(i);
}
static std::string show(const std::vector<std::vector<Op>> & ts, size_t cap) {
	static const char * n[] = {"enqueue", "tryEnqueue", "tryEnqueue(5ms)", "dequeue", "tryDequeue", "tryDequeue(b)", "tryDequeue(5ms)", "tryDequeue(5ms,b)", "empty", "full"};
	std::string s = "capacity " + std::to_string(cap); for (auto & t : ts) { s += " | thread:"; for (auto & o : t) { s += " "; s += n[o.k]; if (o.k <= TRYENQT) s += " " + std::to_string(o.x); } } return s;
}
static void scenario(size_t cap, const std::vector<std::vector<Op>> & ts, int pb, long runs) {
	std::string d = show(ts, cap);
	sched::explore(pb, runs, [&] {
		auto * q = new Q((unsigned) cap); auto * h = new sched::Hist<Op>; auto * cb = new std::vector<std::string>(ts.size());
		sched::watch(*q);
		for (size_t t = 0; t < ts.size(); t++) sched::spawn([=, &ts] { for (auto & o : ts[t]) perform(*q, *h, o, (*cb)[t]); });
		bool done = sched::run();
		in("ArrayBlockingQueue", d, sched::schedule());
		CHECK(!sched::W->livelock, "an operation does not end");
		std::string log; for (auto & o : h->ops) log += " (" + std::to_string(o.k) + " " + std::to_string(o.x) + " -> " + (o.ret ? std::to_string(o.res) + (o.ok ? "t" : "f") : "blocked") + ")";
		CHECK(sched::lin(Seq{{}, cap}, h->ops, 0), (done ? "no order of the operations explains the results:" : "no order explains the results, or a thread stays blocked though its operation is possible:") + log);
		for (auto & c : *cb) { CHECK(c.find('?') == std::string::npos, "a callback was given another object"); CHECK(c.find("ff") == std::string::npos && c.find("ss") == std::string::npos && c.find("|s") == std::string::npos, "callbacks out of order: " + c); }
		if (done) { delete q; delete h; delete cb; }
	}, 1);
}
static Op rop(drv::Rng & r, int & x, bool block) {
	switch (r.below(10)) { case 0: case 1: case 2: return Op{block ? ENQ : TRYENQ, ++x}; case 3: return Op{TRYENQ, ++x}; case 4: return Op{TRYENQT, ++x}; case 5: case 6: return Op{block ? DEQ : TRYDEQ, 0}; case 7: return Op{(K) (TRYDEQ + r.below(4)), (int) r.below(2)}; case 8: return Op{TRYDEQTB, (int) r.below(2)}; default: return Op{block ? DEQ : TRYDEQB, 0}; }
}
SECTION("one thread, all short sequences") {
	int n = drv::thorough ? 7 : 5; std::vector<K> al = {TRYENQ, TRYENQT, TRYDEQ, TRYDEQB, TRYDEQTB, EMPTY, FULL};
	for (size_t cap = 1; cap <= 3; cap++) {
		std::vector<int> ix(n, 0);
		for (;;) {
			std::vector<Op> t; int x = 0; for (int i : ix) { Op o{al[i], 0}; if (o.k <= TRYENQT) o.x = ++x; else o.x = i & 1; t.push_back(o); }
			scenario(cap, {t}, 0, 1);
			int p = n - 1; while (p >= 0 && ++ix[p] == (int) al.size()) ix[p--] = 0; if (p < 0) break;
		}
	}
}
SECTION("one thread, long sequences") {
	drv::Rng r(drv::seed);
	for (int k = 0; k < (drv::thorough ? 3000 : 400); k++) { size_t cap = 1 + r.below(9); std::vector<Op> t; int x = 0; for (int i = 0; i < 30; i++) { Op o = rop(r, x, false); t.push_back(r.below(8) ? o : Op{r.coin() ? EMPTY : FULL, 0}); } scenario(cap, {t}, 0, 1); }
}
SECTION("producers and consumers") {
	long R = drv::thorough ? 1000000 : 150000;
	scenario(1, {{{ENQ, 1}, {ENQ, 2}}, {{DEQ, 0}, {DEQ, 0}}}, 4, R);
	scenario(1, {{{ENQ, 1}}, {{ENQ, 2}}, {{DEQ, 0}, {DEQ, 0}}}, 3, R);
	scenario(2, {{{ENQ, 1}, {ENQ, 2}}, {{DEQ, 0}}, {{DEQ, 0}}}, 3, R);
	scenario(1, {{{DEQ, 0}}, {{DEQ, 0}}, {{ENQ, 1}, {ENQ, 2}}}, 3, R);
	scenario(2, {{{ENQ, 1}, {ENQ, 2}, {ENQ, 3}}, {{DEQ, 0}, {DEQ, 0}, {DEQ, 0}}}, 3, R);
}
SECTION("waiting threads are woken") {
	long R = drv::thorough ? 1000000 : 150000;
	scenario(1, {{{ENQ, 1}, {ENQ, 2}, {ENQ, 3}}, {{DEQ, 0}}, {{DEQ, 0}}, {{DEQ, 0}}}, 2, R);
	scenario(2, {{{ENQ, 1}, {ENQ, 3}}, {{ENQ, 5}, {ENQ, 7}}, {{DEQ, 0}, {DEQ, 0}, {DEQ, 0}, {DEQ, 0}}}, 2, R);
	scenario(1, {{{ENQ, 1}}, {{ENQ, 3}}, {{ENQ, 5}}, {{TRYDEQB, 0}, {DEQ, 0}, {DEQ, 0}}}, 2, R);
}
SECTION("timed operations") {
	long R = drv::thorough ? 1000000 : 150000;
	scenario(1, {{{TRYENQT, 1}, {TRYENQT, 2}}, {{TRYDEQTB, 0}, {TRYDEQTB, 1}}}, 3, R);
	scenario(1, {{{ENQ, 1}, {TRYENQT, 3}}, {{TRYENQT, 2}}, {{TRYDEQT, 0}, {TRYDEQB, 1}}}, 3, R);
	scenario(1, {{{ENQ, 1}, {TRYENQT, 2}, {DEQ, 0}}, {{TRYDEQTB, 0}}, {{DEQ, 0}}}, 3, R);
	scenario(2, {{{TRYDEQTB, 0}}, {{TRYDEQTB, 1}}, {{ENQ, 1}, {TRYENQ, 2}}}, 3, R);
}
SECTION("random programs") {
	drv::Rng r(drv::seed);
	for (int k = 0; k < (drv::thorough ? 1500 : 120); k++) {
		size_t cap = 1 + r.below(2); int x = 0; std::vector<std::vector<Op>> ts(2 + r.below(2)); for (auto & t : ts) { size_t n = 1 + r.below(ts.size() == 2 ? 3 : 2); while (t.size() < n) t.push_back(rop(r, x, true)); }
		scenario(cap, ts, 2, drv::thorough ? 40000 : 8000);
	}
}
