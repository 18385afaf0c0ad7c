#include "sched.hpp"
#include <Balau/Type/OnScopeExit.hpp>
#include <Balau/Type/MovableOnScopeExit.hpp>
#include <Balau/Concurrent/SingleTimeExecutor.hpp>
#include <Balau/Concurrent/LazyValue.hpp>
#include "drv.hpp"
using namespace Balau; using namespace Balau::Concurrent; using drv::in; using drv::same;
SECTION("scope guard, all sequences of operations") {
	for (int len = 0; len <= 4; len++) { int n = 1; for (int i = 0; i < len; i++) n *= 3; for (int m = 0; m < n; m++) for (int ex = 0; ex < 2; ex++) {
		std::vector<int> runs(6, 0), want(6, 0); int cur = 0; std::string d; int k = m;
		for (int i = 0; i < len; i++, k /= 3) d += "crn"[k % 3]; in("OnScopeExit (c: clear, r: rest, n: executeNow)", d, ex ? "left by exception" : "left by return");
		try {
			OnScopeExit g([&] { ++runs[0]; }); k = m;
			for (int i = 0; i < len; i++, k /= 3) {
				if (k % 3 == 0) { g.clear(); cur = -1; } else if (k % 3 == 1) { g.rest([&runs, i] { ++runs[i + 1]; }); cur = i + 1; } else { if (cur >= 0) ++want[cur]; g.executeNow(); cur = -1; }
				CHECK(runs == want, "wrong actions have run after operation " + std::to_string(i + 1));
			}
			if (ex) throw 1;
		} catch (int) {}
		if (cur >= 0) ++want[cur];
		for (int i = 0; i < 6; i++) same(runs[i], want[i], "runs of action " + std::to_string(i));
	} }
}
static MovableOnScopeExit make(int & n) { MovableOnScopeExit a([&n] { ++n; }); return MovableOnScopeExit(std::move(a)); }
SECTION("movable guard") {
	for (int moves = 0; moves <= 3; moves++) for (int op = 0; op < 3; op++) for (int ex = 0; ex < 2; ex++) {
		int n = 0; in("MovableOnScopeExit: moves, operation (0 none, 1 clear, 2 executeNow), exception", moves, op, ex);
		try { MovableOnScopeExit a([&n] { ++n; }); std::vector<std::unique_ptr<MovableOnScopeExit>> v; MovableOnScopeExit * p = &a;
			for (int i = 0; i < moves; i++) { v.push_back(std::make_unique<MovableOnScopeExit>(std::move(*p))); p = v.back().get(); }
			if (moves > 1) { v.erase(v.begin()); same(n, 0, "runs when a moved-from guard is destroyed"); }
			if (op == 1) p->clear(); if (op == 2) { p->executeNow(); same(n, 1, "runs after executeNow"); } if (ex) throw 1; } catch (int) {}
		same(n, op == 1 ? 0 : 1, "runs");
		{ int m = 0; { MovableOnScopeExit g = make(m); same(m, 0, "runs before the scope is left"); } same(m, 1, "runs of a guard that was moved out"); }
	}
}
static void ste(int threads, int calls, int withD, int failFirst, int pb, long runs) {
	sched::explore(pb, runs, [&] {
		int * n = new int(0), * started = new int(0), * dn = new int(0), * bad = new int(0);
		auto body = [=] { int s = ++*started; sched::point(); if (failFirst && s == 1) throw 1; ++*n; sched::point(); };
		char * mem = (char *) malloc(sizeof(SingleTimeExecutor)); memset(mem, 0xFF, sizeof(SingleTimeExecutor));
		auto * e = withD ? new (mem) SingleTimeExecutor(body, [=] { ++*dn; }) : new (mem) SingleTimeExecutor(body);
		in("SingleTimeExecutor: threads, calls, destructor code", threads, calls, withD, failFirst); CHECK(!e->hasExecuted(), "a new executor claims to have run");
		for (int t = 0; t < threads; t++) sched::spawn([=] { for (int i = 0; i < calls; i++) { try { (*e)(); if (*n != 1) *bad = 1; if (!e->hasExecuted()) *bad = 2; } catch (int) {} } });
		bool done = sched::run(); in("SingleTimeExecutor: threads, calls, destructor code", threads, calls, withD, failFirst, sched::schedule());
		CHECK(done, "blocked"); CHECK(*bad != 1, "a call returned before the code had run"); CHECK(*bad != 2, "hasExecuted is false after a run"); if (!(failFirst && threads * calls == 1)) same(*n, 1, "completed runs");
		bool ran = *n == 1; e->~SingleTimeExecutor(); same(*dn, withD && ran ? 1 : 0, "runs of the destructor code");
		free(mem); delete n; delete started; delete dn; delete bad;
	});
}
SECTION("single time executor") { long R = drv::thorough ? 400000 : 40000; for (int d = 0; d < 2; d++) for (int ff = 0; ff < 2; ff++) { ste(1, 1, d, ff, 0, 1); ste(1, 3, d, ff, 0, 1); ste(2, 2, d, ff, 3, R); ste(3, 1, d, ff, 3, R); }
	for (int withD = 0; withD < 2; withD++) { in("SingleTimeExecutor never called", withD); int dn = 0; { char m[sizeof(SingleTimeExecutor)]; memset(m, 0xFF, sizeof m); auto * e = withD ? new (m) SingleTimeExecutor([] {}, [&] { ++dn; }) : new (m) SingleTimeExecutor([] {}); e->~SingleTimeExecutor(); } same(dn, 0, "runs of the destructor code"); }
	in("SingleTimeExecutor without code", ""); { SingleTimeExecutor e{std::function<void ()>()}; e(); CHECK(!e.hasExecuted(), "no code, but executed"); } }
struct Val { int a = 0, b = 0; Val() = default; Val(int x) : a(x), b(x) {} Val(const Val &) = default; Val & operator=(const Val & o) { a = o.a; sched::point(); b = o.b; return *this; } };
static void lazy(int threads, int calls, int failFirst, int pb, long runs) {
	sched::explore(pb, runs, [&] {
		int * made = new int(0), * started = new int(0), * dn = new int(0); std::string * bad = new std::string; typedef LazyValue<Val> L;
		auto * l = new L([=] (Val & v) { *dn += v.a == 41 && v.b == 41 ? 1 : 100; });
		for (int t = 0; t < threads; t++) sched::spawn([=] { for (int i = 0; i < calls; i++) try { Val & v = (*l)([=] { int s = ++*started; sched::point(); if (failFirst && s == 1) throw 1; ++*made; return Val(40 + *made); }); int a = v.a; sched::point(); if (a != 41 || v.b != 41) *bad = "a caller sees another value than the one constructed"; if (!l->isConstructed()) *bad = "isConstructed is false"; } catch (int) {} });
		bool done = sched::run(); in("LazyValue: threads, calls", threads, calls, failFirst, sched::schedule());
		CHECK(done, "blocked"); CHECK(bad->empty(), *bad); if (!(failFirst && threads * calls == 1)) same(*made, 1, "values constructed"); bool ran = *made == 1;
		delete l; same(*dn, ran ? 1 : 0, "destruct calls with the value"); delete made; delete started; delete dn; delete bad;
	});
}
SECTION("lazy value") { long R = drv::thorough ? 400000 : 40000; for (int ff = 0; ff < 2; ff++) { lazy(1, 1, ff, 0, 1); lazy(1, 3, ff, 0, 1); lazy(2, 2, ff, 3, R); lazy(3, 1, ff, 3, R); }
	in("LazyValue never used", ""); int dn = 0; { LazyValue<int> l([&] (int &) { ++dn; }); CHECK(!l.isConstructed(), "a new value claims to be constructed"); } same(dn, 0, "destruct calls"); { LazyValue<int> l; same(l([] { return 5; }), 5, "value"); } }
