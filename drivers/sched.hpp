// Controlled scheduler: the real code of /repo runs on fibers, and every schedule (up to a bound on the number of
// preemptions) is tried by depth-first search.  Include it before any header of /repo: the names mutex,
// condition_variable, atomic and system_clock then denote stand-ins in std that yield to the scheduler.
// With -fsanitize-coverage=trace-loads,trace-stores each access to a watched memory range is a scheduling point too.
#pragma once
#include <algorithm>
#include <array>
#include <atomic>
#include <chrono>
#include <condition_variable>
#include <deque>
#include <exception>
#include <forward_list>
#include <functional>
#include <future>
#include <iostream>
#include <list>
#include <map>
#include <memory>
#include <mutex>
#include <optional>
#include <set>
#include <shared_mutex>
#include <sstream>
#include <string>
#include <thread>
#include <tuple>
#include <unordered_map>
#include <unordered_set>
#include <vector>
#include <csetjmp>
#include <cstring>
#include <cstdint>
#include <cstdio>
#include <cstdlib>
#include <cassert>
#include <sys/mman.h>
#include <cxxabi.h>

namespace sched {
#define SCHED_RAW __attribute__((no_sanitize("coverage")))
#if defined(__x86_64__)
// switch stacks: saves the callee-saved registers on the old stack
extern "C" void sched_switch(void ** from, void * to);
__asm__(".text\n.globl sched_switch\n.type sched_switch,@function\nsched_switch:\n push %rbp\n push %rbx\n push %r12\n push %r13\n push %r14\n push %r15\n mov %rsp,(%rdi)\n mov %rsi,%rsp\n pop %r15\n pop %r14\n pop %r13\n pop %r12\n pop %rbx\n pop %rbp\n ret\n.size sched_switch,.-sched_switch\n");
#else
#error x86-64 only
#endif
struct EhGlobals { void * caught; unsigned uncaught; };
inline EhGlobals * ehg() { return (EhGlobals *) abi::__cxa_get_globals(); }
enum State { RUN, LOCK, WAIT, TWAIT, DONE };
struct Mx; struct Cv;
struct Fiber {
	void * sp = nullptr; char * stack = nullptr; std::function<void()> fn; State st = RUN; Mx * want = nullptr; Cv * on = nullptr; bool timedOut = false; long deadline = 0; EhGlobals eh{nullptr, 0}; const char * name = "";
};
struct Choice { int n, pick; bool free; };     // free: not counted as a preemption
struct World {
	std::vector<Fiber *> fs; int cur = -1; void * mainSp = nullptr; EhGlobals mainEh{nullptr, 0};
	std::vector<Choice> path; size_t pos = 0; int preempts = 0, spurious = 0;
	long now = 1000000000L; bool dead = false; long steps = 0; bool livelock = false;
	std::vector<std::pair<char *, char *>> watch; bool inside = false;
	std::string trace;
};
inline World * W = nullptr;
inline int PB = 2, SPUR = 0;      // bounds
inline long MAXSTEPS = 20000;
inline uint64_t RND = 0;          // random schedules instead of a search
SCHED_RAW inline uint64_t rnd() { RND ^= RND << 13; RND ^= RND >> 7; RND ^= RND << 17; return RND >> 11; }
inline std::vector<char *> pool;
constexpr size_t STK = 256 * 1024;
SCHED_RAW inline int choose(int n, bool free_) {
	World & w = *W;
	if (n <= 1) return 0;
	if (w.pos < w.path.size()) { Choice & c = w.path[w.pos++]; if (c.n != n) { fprintf(stderr, "sched: replay diverged\n"); abort(); } return c.pick; }
	int k = RND && (free_ || rnd() % 3 == 0) ? (int) (rnd() % (uint64_t) n) : 0;
	w.path.push_back({n, k, free_}); ++w.pos; return k;
}
SCHED_RAW inline void go(int t) {      // switch from the current context to fiber t (or to the main context: -1)
	World & w = *W; int f = w.cur; if (t == f) return;
	EhGlobals * g = ehg();
	(f < 0 ? w.mainEh : w.fs[f]->eh) = *g; *g = t < 0 ? w.mainEh : w.fs[t]->eh;
	w.cur = t;
	void ** from = f < 0 ? &w.mainSp : &w.fs[f]->sp;
	sched_switch(from, t < 0 ? w.mainSp : w.fs[t]->sp);
}
struct Mx { int owner = -1; };
struct Cv { };
SCHED_RAW inline bool enabled(Fiber * f, int) {
	switch (f->st) { case RUN: return true; case LOCK: return f->want->owner < 0; case TWAIT: return true; case WAIT: return W->spurious < SPUR; default: return false; }
}
// pick the next fiber; the current one may continue when it can
SCHED_RAW inline void next() {
	World & w = *W;
	if (++w.steps > MAXSTEPS) { w.livelock = true; go(-1); return; }
	int c = w.cur; std::vector<int> op; op.reserve(8);
	bool can = c >= 0 && w.fs[c]->st != DONE && w.fs[c]->st != WAIT && w.fs[c]->st != TWAIT && enabled(w.fs[c], c);
	if (can) op.push_back(c);
	if (!can || w.preempts < PB)
		for (int k = 1; k <= (int) w.fs.size(); k++) { int i = (c + k + (int) w.fs.size()) % (int) w.fs.size(); if ((can && i == c)) continue; Fiber * f = w.fs[i]; if ((f->st == RUN || f->st == LOCK) && enabled(f, i)) op.push_back(i); }
	size_t real = op.size();
	// time-outs and spurious wake-ups come last: they cost a preemption unless nothing else can run
	if (real == 0 || w.preempts < PB)
		for (int i = 0; i < (int) w.fs.size(); i++) { Fiber * f = w.fs[i]; if (f->st == TWAIT) op.push_back(i); }
	if (w.preempts < PB || false)
		for (int i = 0; i < (int) w.fs.size(); i++) { Fiber * f = w.fs[i]; if (f->st == WAIT && w.spurious < SPUR) op.push_back(i); }
	if (op.empty() || (real == 0 && [&] { for (int i : op) if (w.fs[i]->st != WAIT) return false; return true; }())) { w.dead = true; go(-1); return; }
	int k = choose((int) op.size(), !can); int t = op[k]; Fiber * f = w.fs[t];
	if (can && t != c) ++w.preempts;
	else if (!can && (size_t) k >= real && real > 0) ++w.preempts;
	if (f->st == TWAIT) { f->timedOut = true; if (w.now < f->deadline) w.now = f->deadline; f->on = nullptr; f->st = f->want->owner < 0 ? RUN : LOCK; if (f->st == LOCK) { next(); return; } f->want->owner = t; }
	else if (f->st == WAIT) { ++w.spurious; f->on = nullptr; f->st = LOCK; if (f->want->owner >= 0) { next(); return; } f->want->owner = t; f->st = RUN; }
	else if (f->st == LOCK) { f->want->owner = t; f->st = RUN; }
	go(t);
}
SCHED_RAW inline bool active() { return W && W->cur >= 0 && !W->inside; }
SCHED_RAW inline void point() { if (active()) { W->inside = true; W->inside = false; next(); } }
SCHED_RAW inline void lock(Mx & m) { if (!active()) { m.owner = 99; return; } World & w = *W; Fiber * f = w.fs[w.cur]; f->want = &m; f->st = LOCK; next(); }
SCHED_RAW inline void unlock(Mx & m) { m.owner = -1; if (active()) next(); }
SCHED_RAW inline bool tryLock(Mx & m) { if (!active()) { m.owner = 99; return true; } next(); if (m.owner >= 0) return false; m.owner = W->cur; return true; }
SCHED_RAW inline bool wait(Cv & c, Mx & m, bool timed, long ns) {
	World & w = *W; if (!active()) { fprintf(stderr, "sched: wait outside a fiber\n"); abort(); }
	Fiber * f = w.fs[w.cur]; m.owner = -1; f->want = &m; f->on = &c; f->timedOut = false; f->st = timed ? TWAIT : WAIT; f->deadline = w.now + ns;
	next();
	return !f->timedOut;
}
SCHED_RAW inline void notify(Cv & c, bool all) {
	if (!W) return; World & w = *W; std::vector<Fiber *> ws; for (Fiber * f : w.fs) if ((f->st == WAIT || f->st == TWAIT) && f->on == &c) ws.push_back(f);
	if (ws.empty()) { point(); return; }
	if (all) { for (Fiber * f : ws) { f->st = LOCK; f->on = nullptr; } }
	else { Fiber * f = ws[choose((int) ws.size(), true)]; f->st = LOCK; f->on = nullptr; }
	point();
}
SCHED_RAW inline void entry() {
	World & w = *W; Fiber * f = w.fs[w.cur];
	f->fn();
	f->st = DONE; next(); abort();
}
inline void spawn(std::function<void()> fn, const char * name = "") {
	Fiber * f = new Fiber; f->fn = std::move(fn); f->name = name;
	if (pool.empty()) f->stack = (char *) mmap(nullptr, STK, PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS | MAP_NORESERVE, -1, 0); else { f->stack = pool.back(); pool.pop_back(); }
	uintptr_t top = ((uintptr_t) f->stack + STK - 64) & ~(uintptr_t) 15;
	void ** s = (void **) top; *--s = nullptr; *--s = (void *) &entry; for (int i = 0; i < 6; i++) *--s = nullptr; f->sp = s;
	W->fs.push_back(f);
}
template <typename T> void watch(T & t) { W->watch.emplace_back((char *) &t, (char *) &t + sizeof(T)); }
// run the fibers until all are done or none can go on; true: all done
inline bool run() {
	World & w = *W; w.dead = w.livelock = false;
	bool any = false; for (Fiber * f : w.fs) any = any || f->st != DONE; if (!any) return true;
	next();          // returns when a fiber switches back to the main context
	for (Fiber * f : w.fs) if (f->st != DONE) return false;
	return true;
}
inline int unfinished() { int n = 0; for (Fiber * f : W->fs) n += f->st != DONE; return n; }
inline std::string schedule() { std::string s; for (size_t i = 0; i < W->pos && i < W->path.size(); i++) if (s.size() < 1500) s += std::to_string(W->path[i].pick); return "schedule " + s; }
inline void once(std::vector<Choice> & path, const std::function<void()> & body) {
	World w; W = &w; w.path = path; body();
	for (Fiber * f : w.fs) { if (f->stack) pool.push_back(f->stack); if (f->st == DONE) delete f; }
	path.assign(w.path.begin(), w.path.begin() + (long) std::min(w.pos, w.path.size())); W = nullptr;
}
// try the schedules of `body`; body spawns fibers, runs them and checks the outcome
inline long explore(int pb, long maxRuns, const std::function<void()> & body, int spur = 0) {
	PB = pb; SPUR = spur; RND = 0; std::vector<Choice> path; long runs = 0;
	for (;;) {
		once(path, body);
		if (++runs >= maxRuns) break;
		while (!path.empty() && path.back().pick + 1 >= path.back().n) path.pop_back();
		if (path.empty()) return runs;
		++path.back().pick;
	}
	// too many schedules for a full search: random ones, without a bound on preemptions
	PB = 1 << 30; for (long i = 0; i < maxRuns / 2; i++) { path.clear(); RND = (uint64_t) i * 0x9E3779B97F4A7C15ull + 88172645463325252ull; once(path, body); }
	RND = 0; return runs;
}
// ------------------------------------------------------------------ linearizability
// S: sequential state with  bool step(Op &)  (apply the operation, true if its recorded result is right; for a
// pending operation: any result);  bool blocked(Op const &)  (the operation cannot take place in this state)
template <typename Op> struct Hist {
	std::vector<Op> ops; long clock = 0;
	int call(Op o) { o.inv = ++clock; o.ret = 0; ops.push_back(o); return (int) ops.size() - 1; }
	void ret(int i) { ops[i].ret = ++clock; }
};
template <typename S, typename Op> bool lin(S s, std::vector<Op> & ops, unsigned done) {
	long minRet = 1L << 60; bool open = false;
	for (size_t i = 0; i < ops.size(); i++) if (!(done >> i & 1) && ops[i].ret) { open = true; minRet = std::min(minRet, ops[i].ret); }
	if (!open) { bool ok = true; for (size_t i = 0; i < ops.size(); i++) if (!(done >> i & 1) && !s.blocked(ops[i])) ok = false; if (ok) return true; }
	for (size_t i = 0; i < ops.size(); i++) if (!(done >> i & 1) && ops[i].inv < minRet) {
		if (!ops[i].ret) continue;
		S t = s; if (!t.step(ops[i])) continue;
		if (lin(t, ops, done | 1u << i)) return true;
	}
	return false;
}
} // namespace sched
namespace std {
struct sched_mutex { sched::Mx m; sched_mutex() = default; sched_mutex(const sched_mutex &) = delete; void lock() { sched::lock(m); } void unlock() { sched::unlock(m); } bool try_lock() { return sched::tryLock(m); } };
struct sched_recursive_mutex { sched::Mx m; int owner = -1, n = 0; void lock() { int c = sched::W ? sched::W->cur : -2; if (n && owner == c) { ++n; return; } sched::lock(m); owner = c; n = 1; } void unlock() { if (--n == 0) { owner = -1; sched::unlock(m); } } };
struct sched_condition_variable {
	sched::Cv c;
	void notify_one() noexcept { sched::notify(c, false); } void notify_all() noexcept { sched::notify(c, true); }
	void wait(unique_lock<sched_mutex> & l) { sched::wait(c, l.mutex()->m, false, 0); }
	template <class P> void wait(unique_lock<sched_mutex> & l, P p) { while (!p()) wait(l); }
	template <class R, class D> cv_status wait_for(unique_lock<sched_mutex> & l, const chrono::duration<R, D> & d) { return sched::wait(c, l.mutex()->m, true, chrono::duration_cast<chrono::nanoseconds>(d).count()) ? cv_status::no_timeout : cv_status::timeout; }
	template <class R, class D, class P> bool wait_for(unique_lock<sched_mutex> & l, const chrono::duration<R, D> & d, P p) { while (!p()) if (wait_for(l, d) == cv_status::timeout) return p(); return true; }
	template <class C, class D> cv_status wait_until(unique_lock<sched_mutex> & l, const chrono::time_point<C, D> & t) { return wait_for(l, t - C::now()); }
	template <class C, class D, class P> bool wait_until(unique_lock<sched_mutex> & l, const chrono::time_point<C, D> & t, P p) { while (!p()) if (wait_until(l, t) == cv_status::timeout) return p(); return true; }
};
template <typename T> struct sched_atomic {
	T v;
	sched_atomic() noexcept { memset((void *) &v, 0x5A, sizeof v); if constexpr (is_same_v<T, bool>) { unsigned char c = 1; memcpy(&v, &c, 1); } }    // an atomic that is not initialised holds anything
	constexpr sched_atomic(T x) noexcept : v(x) {}
	sched_atomic(const sched_atomic &) = delete; sched_atomic & operator=(const sched_atomic &) = delete;
	T load(memory_order = memory_order_seq_cst) const noexcept { sched::point(); return v; } operator T() const noexcept { return load(); }
	void store(T x, memory_order = memory_order_seq_cst) noexcept { sched::point(); v = x; } T operator=(T x) noexcept { store(x); return x; }
	T exchange(T x, memory_order = memory_order_seq_cst) noexcept { sched::point(); T o = v; v = x; return o; }
	bool compare_exchange_strong(T & e, T x, memory_order = memory_order_seq_cst, memory_order = memory_order_seq_cst) noexcept { sched::point(); if (v == e) { v = x; return true; } e = v; return false; }
	bool compare_exchange_weak(T & e, T x, memory_order = memory_order_seq_cst, memory_order = memory_order_seq_cst) noexcept { return compare_exchange_strong(e, x); }
	T fetch_add(T x, memory_order = memory_order_seq_cst) noexcept { sched::point(); T o = v; v = (T) (v + x); return o; } T fetch_sub(T x, memory_order = memory_order_seq_cst) noexcept { sched::point(); T o = v; v = (T) (v - x); return o; }
	T operator++() noexcept { return (T) (fetch_add(1) + 1); } T operator++(int) noexcept { return fetch_add(1); } T operator--() noexcept { return (T) (fetch_sub(1) - 1); } T operator--(int) noexcept { return fetch_sub(1); } T operator+=(T x) noexcept { return (T) (fetch_add(x) + x); } T operator-=(T x) noexcept { return (T) (fetch_sub(x) - x); }
};
using sched_atomic_bool = sched_atomic<bool>;
struct sched_once_flag { int s = 0; sched_mutex m; };
template <typename F, typename ... A> void sched_call_once(sched_once_flag & o, F && f, A && ... a) { unique_lock<sched_mutex> l(o.m); if (!o.s) { std::invoke(std::forward<F>(f), std::forward<A>(a) ...); o.s = 1; } }
namespace chrono {
struct sched_system_clock { typedef nanoseconds duration; typedef duration::rep rep; typedef duration::period period; typedef std::chrono::time_point<sched_system_clock> time_point; static constexpr bool is_steady = true; static time_point now() noexcept { return time_point(duration(sched::W ? sched::W->now : 0)); } };
typedef sched_system_clock sched_steady_clock;
}
}
extern "C" {
SCHED_RAW inline void sched_access(void * p) { if (!sched::active()) return; for (auto & r : sched::W->watch) if ((char *) p >= r.first && (char *) p < r.second) { sched::next(); return; } }
#define SCHED_COV(n) SCHED_RAW __attribute__((used)) inline void __sanitizer_cov_load##n(void * p) { sched_access(p); } SCHED_RAW __attribute__((used)) inline void __sanitizer_cov_store##n(void * p) { sched_access(p); }
SCHED_COV(1) SCHED_COV(2) SCHED_COV(4) SCHED_COV(8) SCHED_COV(16)
}
#define mutex sched_mutex
#define recursive_mutex sched_recursive_mutex
#define condition_variable sched_condition_variable
#define atomic sched_atomic
#define atomic_bool sched_atomic_bool
#define once_flag sched_once_flag
#define call_once sched_call_once
#define system_clock sched_system_clock
#define steady_clock sched_steady_clock
