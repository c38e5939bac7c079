// The copy-on-write pointer on the real code: random sequences over several pointers against a model of values.
#define NO_LOCK_HOOKS
#include "common.hpp"
using P = sig::detail::cow_ptr<Val>;
static const char* T = "C17";
static void sequences(int rounds)
{
    const int K = 4;
    for (int k = 0; k < rounds; ++k)
        each(T, "", [&]
        {
            std::size_t base = live().size();
            std::ostringstream sc;
            {
                std::unique_ptr<P> p[K];
                int val[K], grp[K];          // model: value and sharing group (-1: null)
                int next = 0;
                for (int i = 0; i < K; ++i) { p[i].reset(new P()); grp[i] = -1; val[i] = 0; }
                for (int step = 0; step < 14; ++step)
                {
                    int i = rnd(K), j = rnd(K), op = rnd(15), v = rnd(100);
                    static const char* N[] = { "make", "copy construct", "copy assign", "move assign", "write", "operator*", "operator->", "data", "conversion", "read", "destroy", "const access", "move construct", "assign pointer", "write that throws" };
                    sc << "; p" << i << " " << N[op] << " p" << j << "/" << v;
                    g_scen = sc.str();
                    auto shared = [&](int q) { int n = 0; for (int x = 0; x < K; ++x) n += grp[x] == grp[q]; return n > 1; };
                    long c0 = g_copies;
                    bool wr = false;
                    Val* w = nullptr;
                    switch (op)
                    {
                    case 0: *p[i] = sig::detail::make_cow<Val>(v); grp[i] = next++; val[i] = v; break;
                    case 1: if (i != j) { p[i].reset(new P(*p[j])); grp[i] = grp[j]; val[i] = val[j]; } break;
                    case 2: *p[i] = *p[j]; grp[i] = grp[j]; val[i] = val[j]; break;
                    case 3: if (i != j) { *p[i] = std::move(*p[j]); grp[i] = grp[j]; val[i] = val[j]; grp[j] = -1; } break;
                    case 12: if (i != j) { p[i].reset(new P(std::move(*p[j]))); grp[i] = grp[j]; val[i] = val[j]; grp[j] = -1; } break;
                    case 13: *p[i] = new Val(v); grp[i] = next++; val[i] = v; break;
                    case 4: case 5: case 6: case 7: case 8:
                        if (grp[i] < 0) break;
                        wr = true;
                        w = op == 4 ? &p[i]->write() : op == 5 ? &**p[i] : op == 6 ? p[i]->operator->() : op == 7 ? p[i]->data() : p[i]->operator Val*();
                        REQUIRE(w && w->v == val[i], T, "writable access sees " << (w ? w->v : -1) << " instead of " << val[i]);
                        REQUIRE(g_copies - c0 == (shared(i) ? 1 : 0), T, "writable access made " << g_copies - c0 << " copies of a value that is " << (shared(i) ? "shared" : "unshared"));
                        if (shared(i)) grp[i] = next++;
                        w->v = v; val[i] = v;
                        break;
                    case 14:
                        if (grp[i] < 0 || !shared(i)) break;
                        {
                            bool threw = false;
                            arm(0);
                            try { p[i]->write(); } catch (Boom&) { threw = true; }
                            g_throw_at = -1;
                            REQUIRE(threw, T, "an exception while copying is lost");
                        }
                        break;
                    case 9: case 11: break;
                    case 10: p[i].reset(new P()); grp[i] = -1; break;
                    }
                    if (!wr && op != 14) REQUIRE(g_copies == c0, T, "a value is copied although nothing writes");
                    c0 = g_copies;
                    std::set<int> gs;
                    for (int q = 0; q < K; ++q)
                    {
                        const P& c = *p[q];
                        REQUIRE(bool(c) == (grp[q] >= 0), T, "p" << q << " is set: " << bool(c));
                        if (grp[q] < 0) continue;
                        gs.insert(grp[q]);
                        REQUIRE(c->v == val[q] && (*c).v == val[q] && c.read().v == val[q] && c.data() == &*c && static_cast<const Val*>(c) == &*c && p[q]->read().v == val[q], T, "p" << q << " reads " << c->v << " instead of " << val[q]);
                        for (int r = 0; r < K; ++r)
                            if (grp[r] >= 0) REQUIRE(c.operator==(*p[r]) == (grp[q] == grp[r]) && c.operator!=(*p[r]) == (grp[q] != grp[r]), T, "p" << q << " and p" << r << " compare wrongly");
                    }
                    REQUIRE(g_copies == c0, T, "reading copies the value");
                    REQUIRE(live().size() - base == gs.size(), T, "values alive: " << live().size() - base << " for " << gs.size() << " distinct ones");
                }
            }
            REQUIRE(live().size() == base, T, "values leaked");
        });
}
int main(int argc, char** argv)
{
    g_lifetags = "C17";
    g_hangtags = "C17";
    init(argc, argv);
    sequences((argc > 3 ? std::atoi(argv[3]) : 1500) * 2);
    return finish();
}
