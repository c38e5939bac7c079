// Instrumentation shared by the replay programs: tagged checks, lock accounting, lock-point injection,
// counted values that can throw at a chosen operation.
#pragma once
#ifndef _GNU_SOURCE
#define _GNU_SOURCE 1
#endif
#include <atomic>
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <dlfcn.h>
#include <functional>
#include <map>
#include <memory>
#include <pthread.h>
#include <set>
#include <sstream>
#include <string>
#include <unistd.h>
#include <csignal>
#include <vector>
#include <signals.hpp>

// ---------------------------------------------------------------- results
static std::string g_prop;          // property being checked ("*" = all)
static std::string g_scen;          // current history, written out
static long g_evals = 0;            // histories evaluated
static unsigned g_rng = 1;
static const char* g_ctx = "";      // properties of the operation under test: any wrong outcome breaks them too

struct Abandon {};                  // the current history broke another property: go on with the next one

inline bool wants(const char* tags)
{
    return g_prop == "*" || std::strstr(tags, g_prop.c_str()) != nullptr || std::strstr(g_ctx, g_prop.c_str()) != nullptr;
}

[[noreturn]] inline void fail(const char* tags, const std::string& msg)
{
    if (!wants(tags)) throw Abandon();
    std::printf("FAIL %s %s: %s | history: %s\n", tags, g_ctx, msg.c_str(), g_scen.c_str());
    std::fflush(stdout);
    _exit(1);
}
static bool g_abandoned_fwd();
#define REQUIRE(cond, tags, msg) do { if (g_abandoned_fwd()) throw Abandon(); if (!(cond)) { std::ostringstream _o; _o << msg; fail(tags, _o.str()); } } while (0)

static const char* g_hangtags = "C07";
inline void on_alarm(int)
{
    // a history that does not come back holds a lock it waits for
    const char* s = "FAIL deadlock or endless loop | history: ";
    if (!wants(g_hangtags)) _exit(3);
    (void)!write(1, s, std::strlen(s));
    (void)!write(1, g_scen.c_str(), g_scen.size());
    (void)!write(1, "\n", 1);
    _exit(1);
}
// sanitizers abort the process: print the history first
extern "C" void __asan_on_error() { std::printf("FAIL memory error (AddressSanitizer) | history: %s\n", g_scen.c_str()); std::fflush(stdout); }
extern "C" void __ubsan_on_report() { std::printf("FAIL undefined behaviour (UndefinedBehaviorSanitizer) | history: %s\n", g_scen.c_str()); std::fflush(stdout); }
extern "C" const char* __asan_default_options() { return "detect_leaks=0:exitcode=1:halt_on_error=1:abort_on_error=0:detect_stack_use_after_return=0"; }
extern "C" const char* __ubsan_default_options() { return "halt_on_error=1:print_stacktrace=0:exitcode=1"; }
inline void on_terminate()
{
    std::printf("FAIL the program is terminated | history: %s\n", g_scen.c_str());
    std::fflush(stdout);
    _exit(1);
}

inline void on_abort(int)
{
    const char* s = "FAIL the program is aborted (a failed assertion) | history: ";
    (void)!write(1, s, std::strlen(s));
    (void)!write(1, g_scen.c_str(), g_scen.size());
    (void)!write(1, "\n", 1);
    _exit(1);
}

inline unsigned rnd(unsigned n) { g_rng = g_rng * 1664525u + 1013904223u; return (g_rng >> 8) % n; }

// ---------------------------------------------------------------- locks
static thread_local int t_held = 0;
static thread_local bool t_inject_off = false;
static long g_lockevents = 0, g_inject_at = -1;
static std::function<void()> g_inject;       // runs as if another thread did it at the chosen lock point
static bool g_injected = false;

inline void lockpoint()
{
    if (t_held || t_inject_off || !g_inject) return;
    if (g_lockevents++ == g_inject_at)
    {
        t_inject_off = true;
        auto f = g_inject;
        g_injected = true;
        f();
        t_inject_off = false;
    }
}
typedef int (*lockfn)(pthread_mutex_t*);
inline lockfn real_lock() { static lockfn f = (lockfn)dlsym(RTLD_NEXT, "pthread_mutex_lock"); return f; }
inline lockfn real_unlock() { static lockfn f = (lockfn)dlsym(RTLD_NEXT, "pthread_mutex_unlock"); return f; }
inline lockfn real_trylock() { static lockfn f = (lockfn)dlsym(RTLD_NEXT, "pthread_mutex_trylock"); return f; }
// two threads that want a second lock wait for each other (for a while) before they go on
static std::atomic<int> g_second{ -1 };
inline void second_lock()
{
    if (!t_held || g_second.load() < 0) return;
    ++g_second;
    for (int i = 0; i < 200 && g_second.load() < 2; ++i) usleep(1000);
}
#ifndef NO_LOCK_HOOKS
static bool g_hooks = false;
extern "C" int pthread_mutex_lock(pthread_mutex_t* m)
{
    if (!g_hooks) return real_lock()(m);
    lockpoint();
    second_lock();
    int r = real_lock()(m);
    if (r == 0) ++t_held;
    return r;
}
extern "C" int pthread_mutex_trylock(pthread_mutex_t* m)
{
    if (!g_hooks) return real_trylock()(m);
    lockpoint();
    int r = real_trylock()(m);
    if (r == 0) ++t_held;
    return r;
}
extern "C" int pthread_mutex_unlock(pthread_mutex_t* m)
{
    if (!g_hooks) return real_unlock()(m);
    int r = real_unlock()(m);
    if (r == 0) --t_held;
    lockpoint();
    return r;
}
#else
static bool g_hooks = false;
#endif

// ---------------------------------------------------------------- values
struct Boom { int n; };
static long g_throw_at = -1;                 // throw at the n-th user operation from now (-1: never)
static long g_ops = 0;
static int g_boom = 0;                       // identity of the exception thrown
static std::set<const void*>& live() { static std::set<const void*> s; return s; }
static const char* g_lifetags = "C13 C15 C20 C17 C02 C04";

inline void userop()
{
    if (g_throw_at >= 0 && g_ops++ == g_throw_at) { g_throw_at = -1; throw Boom{ ++g_boom }; }
}
inline void arm(long n) { g_throw_at = n; g_ops = 0; }
static bool g_abandoned = false;
inline void softfail(const char* tags, const char* msg)
{
    if (wants(tags)) fail(tags, msg);
    g_abandoned = true;
}
inline void born(const void* p) { if (!live().insert(p).second) softfail(g_lifetags, "an object is constructed over a live one"); }
inline void dead(const void* p) { if (!live().erase(p)) softfail(g_lifetags, "an object is destroyed that is not alive"); }
inline void used(const void* p) { if (!live().count(p)) softfail(g_lifetags, "an object is used outside its lifetime"); }

static long g_copies = 0, g_moves = 0;

static bool g_abandoned_fwd() { return g_abandoned; }

struct Val          // by-value argument / contained value
{
    int v;
    Val(int x = 0) : v(x) { userop(); born(this); }
    Val(const Val& o) : v((used(&o), o.v)) { userop(); born(this); ++g_copies; }
    Val(Val&& o) : v((used(&o), o.v)) { userop(); born(this); o.v = -777; ++g_moves; }
    Val& operator=(const Val& o) { used(this); used(&o); int x = o.v; userop(); v = x; ++g_copies; return *this; }
    Val& operator=(Val&& o) { used(this); used(&o); int x = o.v; userop(); o.v = -777; v = x; ++g_moves; return *this; }
    ~Val() { dead(this); v = -999; }
#define VOP(OP) bool operator OP(const Val& o) const { used(this); used(&o); userop(); return v OP o.v; }
    VOP(==) VOP(!=) VOP(<) VOP(>) VOP(<=) VOP(>=)
};

template<class F> void each(const char* tags, const std::string& name, F f)
{
    // one history: only if it can say something about the property
    g_ctx = "";
    if (!wants(tags)) return;
    g_scen = name;
    ++g_evals;
    g_throw_at = -1;
    g_abandoned = false;
    alarm(20);
    try { f(); } catch (Abandon&) {}
    g_ctx = "";
    g_inject = nullptr; g_inject_at = -1; g_throw_at = -1; t_held = 0;
    alarm(0);
}

inline void init(int argc, char** argv)
{
    g_prop = argc > 1 ? argv[1] : "*";
    g_rng = argc > 2 ? std::atoi(argv[2]) * 2654435761u + 1 : 1;
    std::signal(SIGALRM, on_alarm);
    std::signal(SIGABRT, on_abort);
    std::set_terminate(on_terminate);
    real_lock(); real_unlock(); real_trylock();
    g_hooks = true;
}
inline int finish()
{
    std::printf("OK %ld histories\n", g_evals);
    return 0;
}
