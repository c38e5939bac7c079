// Real threads under ThreadSanitizer: emission, blocking, queries, connecting, disconnecting and moving together.
// ThreadSanitizer does not know acquire fences, so here a fence is an acquire of, and every drop of a shared_ptr's
// count a release to, one common tag (more ordering than there is: races may be missed, none is invented).
#include <atomic>
#include <ext/atomicity.h>
extern "C" void __tsan_acquire(void*);
extern "C" void __tsan_release(void*);
static char vc_tag;
namespace __gnu_cxx { inline _Atomic_word vc_xadd(_Atomic_word* m, int v) { if (v < 0) __tsan_release(&vc_tag); return __exchange_and_add(m, v); } }
namespace std { inline void vc_fence(memory_order o) { if (o != memory_order_acquire) __tsan_release(&vc_tag); if (o != memory_order_release && o != memory_order_relaxed) __tsan_acquire(&vc_tag); } }
#define __exchange_and_add_dispatch vc_xadd
#include <memory>
#undef __exchange_and_add_dispatch
#define atomic_thread_fence vc_fence
#include <cstdio>
#include <cstdlib>
#include <string>
#include <thread>
#include <vector>
#include <signals.hpp>
extern "C" const char* __tsan_default_options() { return "halt_on_error=1:exitcode=1:report_signal_unsafe=0"; }
using Sig = sig::signal<int(int, int&)>;
struct Fn { int k; int operator()(int a, int& r) { return a + k; } bool operator==(const Fn& o) const { return k == o.k; } };
template<class... F> void par(F... f)
{
    std::atomic<int> go{ 0 };
    std::vector<std::thread> t;
    int dummy[] = { (t.emplace_back([&go, f] { go++; while (go.load() < (int)sizeof...(F)) std::this_thread::yield(); f(); }), 0)... };
    (void)dummy;
    for (auto& x : t) x.join();
}
static void need(bool c, const char* m, const char* scen) { if (!c) { std::printf("FAIL C09 C05 C12: %s | history: %s\n", m, scen); std::fflush(stdout); _Exit(1); } }
// the first part runs entirely before the second, but nothing of the harness orders their memory accesses
template<class F, class G> void then(F f, G g)
{
    std::atomic<int> done{ 0 };
    std::thread a([&] { f(); done.store(1, std::memory_order_relaxed); });
    std::thread b([&] { while (!done.load(std::memory_order_relaxed)) std::this_thread::yield(); g(); });
    a.join();
    b.join();
}
static long n = 0;
// ---------------------------------------------------------------- emission with blocking and queries
static void blocking(int)
{
    Sig s;
    std::vector<sig::connection> c;
    for (int i = 0; i < 4; ++i) c.push_back(s.connect(Fn{ i }));
    auto emit = [&] { for (int i = 0; i < 5; ++i) { int r = 0; auto x = s(i, r); (void)x; } };
    par(emit, emit, [&] { for (int i = 0; i < 8; ++i) { c[i % 4].block(); (void)c[(i + 1) % 4].blocked(); c[i % 4].unblock(); } }, [&] { for (int i = 0; i < 8; ++i) { (void)c[i % 4].connected(); (void)c[i % 4].valid(); auto b = c[i % 4].blocker(); } });
    ++n;
}
// ---------------------------------------------------------------- connecting and disconnecting
static void changing(int)
{
    Sig s;
    std::vector<sig::connection> c;
    for (int i = 0; i < 6; ++i) c.push_back(s.connect(Fn{ i % 3 }));
    std::atomic<int> trues{ 0 };
    auto disc = [&] { for (auto& x : c) trues += x.disconnect(); };
    std::size_t cnt = 0;
    std::vector<sig::connection> d;
    par(disc, disc, [&] { cnt = s.disconnect(Fn{ 1 }); }, [&] { for (int i = 0; i < 4; ++i) d.push_back(s.connect(Fn{ 9 })); }, [&] { for (auto& x : c) { (void)x.connected(); (void)x.blocked(); } });
    // a slot may be taken off the list by disconnect(callable) after its connection already answered true
    need(trues >= 4 && trues <= 6 && cnt <= 2 && trues + (int)cnt >= 6, "disconnects reported a wrong number of slots", "two threads disconnect all of 6 slots, one disconnects the callable, one connects 4");
    int calls = 0;
    int r = 0;
    auto x = s(1, r);
    need(x && *x == 10, "slots connected meanwhile are lost", "two threads disconnect all of 6 slots, one disconnects the callable, one connects 4");
    for (auto& y : d) calls += y.disconnect();
    need(calls == 4 && !s(1, r), "slots connected meanwhile are lost", "two threads disconnect all of 6 slots, one disconnects the callable, one connects 4");
    ++n;
}
// ---------------------------------------------------------------- emission while another signal is moved
static void moving(int)
{
    Sig s;
    std::vector<sig::connection> c;
    for (int i = 0; i < 6; ++i) c.push_back(s.connect(Fn{ i }));
    auto emit = [&] { for (int i = 0; i < 5; ++i) { int r = 0; auto x = s(i, r); (void)x; } };
    Sig t;
    par(emit, [&] { Sig u; u.connect(Fn{ 1 }); t = std::move(u); t.connect(Fn{ 2 }); }, [&] { for (auto& x : c) { (void)x.connected(); } });
    ++n;
}
// ---------------------------------------------------------------- emission with connecting and disconnecting
static void emitting(int k)
{
    for (int v = 0; v < 8; ++v)
    {
        Sig s, o;
        std::vector<sig::connection> c;
        for (int i = 0; i < 6; ++i) c.push_back(s.connect(Fn{ i % 4 }));
        sig::connection oc = o.connect(Fn{ 7 });
        auto emit = [&] { int r = 0; auto x = s(1, r); (void)x; };
        auto mod = [&, v]
        {
            switch (v)
            {
            case 0: s.connect(Fn{ 8 }); break;
            case 1: c[0].disconnect(); break;
            case 2: s.disconnect(Fn{ 1 }); break;
            case 3: c[5].disconnect(); break;
            case 4: { sig::scoped_connection e(c[4]); } break;
            case 5: s.connect(sig::slot<int(int, int&)>(Fn{ 8 })); s.disconnect(Fn{ 3 }); break;
            case 6: c[1].disconnect(); s.connect(Fn{ 5 }); c[2].disconnect(); break;
            case 7: { auto b = c[1].blocker(); c[1].disconnect(); } break;
            }
        };
        if (k % 2) { then(emit, mod); then(mod, emit); then(mod, mod); }
        else if (k % 4) par(emit, emit, mod);
        else par(emit, mod, mod);
        ++n;
    }
}
// ---------------------------------------------------------------- tracked objects released by another thread
struct Obj
{
    int alive = 1, calls = 0;
    ~Obj() { alive = 0; }
    int m(int a, int&) { ++calls; return alive ? a : -1; }
    int mc(int a, int&) const { return alive ? a : -1; }
};
static void tracking(int k)
{
    for (int v = 0; v < 4; ++v)
    {
        Sig s;
        auto p = std::make_shared<Obj>();
        std::shared_ptr<Obj> q(new Obj);
        sig::connection c = v & 1 ? s.connect(&Obj::m, p) : s.connect(&Obj::mc, p);
        s.connect(&Obj::m, q);
        sig::signal<void(int, int&)> t;
        t.connect(&Obj::m, p);
        auto emit = [&] { for (int i = 0; i < (k % 2 ? 1 : 4); ++i) { int r = 0; auto x = s(5, r); if (v < 2) t(5, r); need(!x || *x == 5, "a destroyed tracked object was called", "emission while another thread releases the tracked objects"); } };
        auto drop = [&] { p.reset(); (void)c.connected(); if (v > 1) c.disconnect(); q.reset(); };
        if (k % 2) then(emit, drop); else par(emit, drop);
        ++n;
    }
}
int main(int argc, char** argv)
{
    std::string prop = argc > 1 ? argv[1] : "C09";
    int rounds = argc > 3 ? std::atoi(argv[3]) : 200;
    for (int k = 0; k < rounds; ++k)
    {
        if (prop == "C09") blocking(k);
        if (prop == "C09" || prop == "C05") changing(k);
        if (prop == "C09") moving(k);
        if (prop == "C09" || prop == "C08") emitting(k);
        if (prop == "C09" || prop == "C12") tracking(k);
    }
    std::printf("OK %ld histories\n", n);
    return 0;
}
