// Roots: forces the real code of /repo into the IR; contains no logic of its own.
#include <Balau/Type/OnScopeExit.hpp>
#include <Balau/Type/MovableOnScopeExit.hpp>
#include <Balau/Concurrent/SingleTimeExecutor.hpp>
#include <Balau/Concurrent/LazyValue.hpp>
#include <new>
using namespace Balau; using namespace Balau::Concurrent;
typedef std::function<void ()> F; typedef LazyValue<int> L; typedef MovableOnScopeExit M;
extern "C" const size_t vh_off[] = { offsetof(OnScopeExit, function), sizeof(OnScopeExit), offsetof(SingleTimeExecutor, code), offsetof(SingleTimeExecutor, destructorCode), offsetof(SingleTimeExecutor, executed), offsetof(SingleTimeExecutor, mutex), sizeof(SingleTimeExecutor), offsetof(L, destruct), offsetof(L, constructed), offsetof(L, mutex), offsetof(L, value), sizeof(L) };
extern "C" void vh_body();          // any code: returns or throws
extern "C" void vh_mark() noexcept; // a point in time
extern "C" void vh_guard(const F & f) { OnScopeExit g(f); vh_body(); }
extern "C" void vh_guard_dtor(OnScopeExit * g) { g->~OnScopeExit(); }
extern "C" void vh_guard_clear(OnScopeExit * g) { g->clear(); vh_mark(); g->~OnScopeExit(); }
extern "C" void vh_guard_rest(OnScopeExit * g, const F & h) { g->rest(h); vh_mark(); g->~OnScopeExit(); }
extern "C" void vh_guard_now(OnScopeExit * g) { g->executeNow(); vh_mark(); g->~OnScopeExit(); }
extern "C" void vh_mguard(const F & f) { M g(f); vh_body(); }
extern "C" void vh_mguard_move(const F & f) { M a(f); { M b(std::move(a)); vh_body(); } vh_mark(); }
extern "C" void vh_mguard_out(void * s, const F & f) { M * o; { M a(f); o = new (s) M(std::move(a)); } vh_mark(); o->~M(); }
extern "C" void vh_mguard_clear(const F & f) { M a(f); M b(std::move(a)); b.clear(); }
extern "C" void vh_mguard_now(const F & f) { M a(f); a.executeNow(); vh_mark(); }
extern "C" void vh_ste(void * p, const F & f) { new (p) SingleTimeExecutor(f); }
extern "C" void vh_ste2(void * p, const F & f, const F & g) { new (p) SingleTimeExecutor(f, g); }
extern "C" void vh_ste_run(SingleTimeExecutor * s) { (*s)(); }
extern "C" bool vh_ste_has(SingleTimeExecutor * s) { return s->hasExecuted(); }
extern "C" void vh_ste_dtor(SingleTimeExecutor * s) { s->~SingleTimeExecutor(); }
extern "C" void vh_lazy(void * p, const std::function<void (int &)> & d) { new (p) L(d); }
extern "C" int & vh_lazy_get(L * l, const std::function<int ()> & f) { return (*l)(f); }
extern "C" bool vh_lazy_is(L * l) { return l->isConstructed(); }
extern "C" void vh_lazy_dtor(L * l) { l->~L(); }
