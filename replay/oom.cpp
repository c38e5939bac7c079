// Memory exhaustion on the real code: every allocation of an operation fails once, one after the other.
#include <algorithm>
#include <new>
static bool g_fail = false;
static long g_alloc = 0, g_alloc_at = -1;
static bool refuse() { return g_fail && g_alloc++ == g_alloc_at; }
#include "common.hpp"
void* operator new(std::size_t n) { if (refuse()) throw std::bad_alloc(); if (void* p = std::malloc(n ? n : 1)) return p; throw std::bad_alloc(); }
void* operator new[](std::size_t n) { return operator new(n); }
void operator delete(void* p) noexcept { std::free(p); }
void operator delete[](void* p) noexcept { std::free(p); }
void operator delete(void* p, std::size_t) noexcept { std::free(p); }
void operator delete[](void* p, std::size_t) noexcept { std::free(p); }

static const char* T = "C20";
static std::vector<int> g_trace;
struct F
{
    Val id;
    F(int i) : id(i) {}
    bool operator==(const F& o) const { return id == o.id; }
    void operator()(int) { g_trace.push_back(id.v); }
};
using S = sig::signal<void(int)>;

// one history: n slots with callables k % m, the pattern of blocked and disconnected ones, an operation, inside an emission or not
static void one(int n, int m, int pat, int op, bool inside)
{
    static const char* N[] = { "connect a callable", "connect a slot", "disconnect a callable", "disconnect a slot", "copy a slot", "assign a slot", "make a slot" };
    std::ostringstream sc;
    sc << n << " slots with " << m << " different callables, pattern " << pat << ", " << N[op] << (inside ? " during an emission" : "") << " while memory runs out";
    each(T, sc.str(), [&]
    {
        std::size_t base = live().size();
        {
            S s;
            std::vector<sig::connection> c;
            std::vector<int> ids;
            std::vector<bool> out;
            for (int i = 0; i < n; ++i)
            {
                ids.push_back(i % m);
                c.push_back(s.connect(F(i % m)));
                out.push_back(false);
                if (pat % 3 == 1 && i == n / 2) c.back().block();
                if (pat % 3 == 2 && i == n / 2) { c.back().disconnect(); out.back() = true; }
            }
            F f(0);
            sig::slot<void(int)> a(f), b(F(1)), e;
            auto expect = [&]
            {
                std::vector<int> x;
                for (std::size_t i = 0; i < ids.size(); ++i)
                {
                    REQUIRE(c[i].connected() == !out[i], T, "connection " << i << " reports connected = " << c[i].connected());
                    if (!out[i] && !c[i].blocked()) x.push_back(ids[i]);
                }
                g_trace.clear();
                s(1);
                for (bool o : out) if (o) { std::sort(x.begin(), x.end()); std::sort(g_trace.begin(), g_trace.end()); break; }   // removing may reorder
                REQUIRE(g_trace == x, T, "after the failure " << g_trace.size() << " slots are called instead of " << x.size());
            };
            expect();
            bool done = false;
            std::size_t half = 0;        // slots that a failed operation disconnected
            for (long k = 0; !done && k < 40; ++k)
            {
                // the operation, its k-th allocation failing
                sig::connection nc;
                std::size_t count = 0, l0 = live().size(), made = 0;
                bool threw = false, other = false;
                auto run = [&]
                {
                    g_alloc = 0; g_alloc_at = k; g_fail = true;
                    try
                    {
                        switch (op)
                        {
                        case 0: nc = s.connect(f); break;
                        case 1: nc = s.connect(a); break;
                        case 2: count = s.disconnect(f); break;
                        case 3: count = s.disconnect(a); break;
                        case 4: { sig::slot<void(int)> x(a); g_fail = false; made = live().size() - l0; } break;
                        case 5: b = a; break;
                        case 6: { sig::slot<void(int)> x(f); g_fail = false; made = live().size() - l0; } break;
                        }
                        done = g_alloc <= k;
                    }
                    catch (std::bad_alloc&) { threw = true; }
                    catch (...) { other = true; }
                    g_fail = false;
                };
                if (inside)
                {
                    S* sp = &s;
                    bool once = false;
                    auto r = [&](int) { if (!once) { once = true; l0 = live().size(); run(); } };
                    sig::connection rc = sp->connect(r);
                    ids.push_back(-1); out.push_back(false); c.push_back(rc);
                    g_trace.clear();
                    s(1);
                    rc.disconnect();
                    out.back() = true;
                }
                else run();
                REQUIRE(!other, T, "something else than std::bad_alloc is thrown");
                REQUIRE(threw || done, T, "a failed allocation is swallowed");
                if (threw)
                {
                    // some of the equal slots may be gone already
                    std::size_t gone = 0;
                    if (op == 2 || op == 3) for (std::size_t i = 0; i < ids.size(); ++i) if (!out[i] && ids[i] == 0 && !c[i].connected()) { out[i] = true; ++gone; ++half; }
                    expect();
                    if (!inside) REQUIRE(live().size() <= l0 && live().size() + gone >= l0, T, "callables alive: " << live().size() << " instead of " << l0 << " after the failure");
                    if (op == 5) { g_trace.clear(); b(0); REQUIRE(g_trace == std::vector<int>{ 1 }, T, "the target of a failed assignment calls something else"); }
                    g_trace.clear(); a(0);
                    REQUIRE(g_trace == std::vector<int>{ 0 }, T, "a slot is changed by the failure");
                    continue;
                }
                if (op < 2) { ids.push_back(0); out.push_back(false); c.push_back(nc); }
                else if (op < 4)
                {
                    std::size_t want = 0;
                    for (std::size_t i = 0; i < ids.size(); ++i) if (!out[i] && ids[i] == 0) { out[i] = true; ++want; }
                    REQUIRE(count >= want && count <= want + half, T, "disconnect counts " << count << " instead of " << want);
                }
                expect();
            }
            REQUIRE(done, T, "the operation never succeeds");
        }
        REQUIRE(live().size() == base, T, "callables leaked");
    });
}
int main(int argc, char** argv)
{
    g_lifetags = "C20";
    init(argc, argv);
    g_trace.reserve(256);
    bool deep = argc > 3 && std::atoi(argv[3]) > 5000;
    for (int n = 0; n <= (deep ? 12 : 5); ++n)
        for (int m = 1; m <= (deep ? 4 : 2); ++m)
            for (int pat = 0; pat < 3; ++pat)
                for (int op = 0; op < 7; ++op)
                    for (int in = 0; in < 2; ++in)
                        one(n, m, pat, op, in);
    return finish();
}
