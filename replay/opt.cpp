// opt::optional on the real code against a model: every operation in every combination of operand states, with an
// exception at every operation of the contained type, and random sequences of operations.
#define NO_LOCK_HOOKS
#include "common.hpp"
using opt::optional;
using opt::nullopt;

// the model of an optional: -1 disengaged, otherwise the value
struct Il       // a type constructible from an initializer list
{
    Val a;
    int n;
    Il(std::initializer_list<int> il, int extra = 0) : a(il.size() ? *il.begin() : 0), n((int)il.size() * 10 + extra) {}
    Il(int x, int y) : a(x), n(y) {}
};
struct Thr { int v; };

template<class T> int rd(const T& t);
template<> int rd<Val>(const Val& t) { used(&t); return t.v; }
template<> int rd<int>(const int& t) { return t; }
template<> int rd<short>(const short& t) { return t; }
template<> int rd<Il>(const Il& t) { used(&t.a); return t.a.v; }
template<> int rd<std::string>(const std::string& t) { return std::atoi(t.c_str()); }
// types that storage, conversion and comparison might treat differently
struct alignas(64) Wide { char pad[40]; int v; Wide(int x = 0) : v(x) { check(); } Wide(const Wide& o) : v(o.v) { check(); } Wide& operator=(const Wide&) = default; void check() const { if (reinterpret_cast<std::size_t>(this) % 64) softfail("C15", "a value is stored misaligned"); }
#define WOP(OP) bool operator OP(const Wide& o) const { check(); return v OP o.v; }
    WOP(==) WOP(!=) WOP(<) WOP(>) WOP(<=) WOP(>=) };
struct Big { int a[100]; explicit Big(int x) { for (int i = 0; i < 100; ++i) a[i] = x + i; }
#define BOP(OP) bool operator OP(const Big& o) const { return a[0] OP o.a[0]; }
    BOP(==) BOP(!=) BOP(<) BOP(>) BOP(<=) BOP(>=) };
struct Odd      // overloads the operators generic code must not rely on
{
    Val v;
    explicit Odd(int x) : v(x) {}
    Odd* operator&() { return nullptr; }
    const Odd* operator&() const { return nullptr; }
    static void* operator new(std::size_t) { std::abort(); }
    template<class X> void operator,(X&&) const { std::abort(); }
    bool operator!() const { std::abort(); }
};
struct Poly { virtual int get() const { return v.v; } virtual ~Poly() = default; Val v; explicit Poly(int x) : v(x) {} };
struct BigVal { char pad[300]; Val v; explicit BigVal(int x) : v(x) {} };
enum class Color : unsigned char {};
template<> int rd<Wide>(const Wide& t) { t.check(); return t.v; }
template<> int rd<Big>(const Big& t) { for (int i = 0; i < 100; ++i) if (t.a[i] != t.a[0] + i) return -44; return t.a[0]; }
template<> int rd<Odd>(const Odd& t) { used(&t.v); return t.v.v; }
template<> int rd<Poly>(const Poly& t) { used(&t.v); return t.get(); }
template<> int rd<BigVal>(const BigVal& t) { used(&t.v); return t.v.v; }
template<> int rd<Color>(const Color& t) { return (int)t; }
template<> int rd<bool>(const bool& t) { return t; }
template<> int rd<double>(const double& t) { return (int)t; }
template<> int rd<long long>(const long long& t) { return (int)t; }
static int g_arr[16];
template<> int rd<int*>(int* const& t) { return t ? int(t - g_arr) : -33; }
template<> int rd<std::shared_ptr<int>>(const std::shared_ptr<int>& t) { return t ? *t : -33; }
template<> int rd<std::vector<int>>(const std::vector<int>& t) { return (int)t.size(); }
template<class T> T mkv(int x) { return T(x); }
template<> int* mkv<int*>(int x) { return g_arr + x; }
template<> std::shared_ptr<int> mkv<std::shared_ptr<int>>(int x) { return std::make_shared<int>(x); }
template<> std::vector<int> mkv<std::vector<int>>(int x) { return std::vector<int>((std::size_t)x, 1); }
template<> std::string mkv<std::string>(int x) { return std::to_string(x) + " with a tail that is too long to be stored inline"; }

template<class T> int state(const optional<T>& o, const char* tags, const char* what)
{
    bool h = o.has_value();
    REQUIRE(h == bool(o) && h == o.is_initialized(), tags, what << ": has_value, bool and is_initialized disagree");
    REQUIRE((o.get_ptr() != nullptr) == h, "C21 C15", what << ": get_ptr disagrees with has_value");
    return h ? rd<T>(*o) : -1;
}
template<class T> struct Counted { static const bool value = false; };
template<> struct Counted<Val> { static const bool value = true; };
template<> struct Counted<Il> { static const bool value = true; };
template<> struct Counted<Odd> { static const bool value = true; };
template<> struct Counted<BigVal> { static const bool value = true; };
template<> struct Counted<Poly> { static const bool value = true; };
static const char* LT = "C15 C20";
static std::size_t engaged(int s) { return s >= 0; }

// ---------------------------------------------------------------- operations, with all exceptions
template<class T> struct Ops
{
    using O = optional<T>;
    static std::unique_ptr<O> mk(int s) { return std::unique_ptr<O>(s < 0 ? new O() : new O(mkv<T>(s))); }
    enum { N = 32 };
    static const char* name(int op)
    {
        static const char* n[] = { "copy construct", "move construct", "copy assign", "move assign", "self copy assign", "self move assign",
            "assign value", "assign rvalue", "assign nullopt", "assign {}", "emplace value", "emplace rvalue", "reset", "member swap", "std::swap", "self swap",
            "construct value", "construct rvalue", "construct in place", "construct if (true)", "construct if (false)", "construct cond true", "construct cond false",
            "make_optional", "make_optional(true)", "make_optional(false)", "construct nullopt", "construct default", "destroy", "assign own value", "make_optional(false) of an rvalue", "construct in place if (false) of an rvalue" };
        return n[op];
    }
    // target starts as a, source as b (or value b); throw at the n-th user operation. returns whether it threw
    static bool run(int op, int a, int b, long thr)
    {
        std::size_t base = live().size();
        int sa = -2, sb = -2, wa, wb = b;
        bool threw = false;
        int boom = 0;
        {
            bool ctor = op <= 1 || (op >= 16 && op <= 27) || op >= 30;
            std::unique_ptr<O> x = ctor ? nullptr : mk(a);
            std::unique_ptr<O> y = mk(b);
            T v = mkv<T>(b < 0 ? 7 : b);
            int bv = b < 0 ? 7 : b;
            int b0 = g_boom;
            bool valmoved = false;
            if (thr >= 0) arm(thr);
            try
            {
                switch (op)
                {
                case 0: x.reset(new O(*y)); wa = b; break;
                case 1: x.reset(new O(std::move(*y))); wa = b; wb = b < 0 ? -1 : -3; break;
                case 2: *x = *static_cast<const O*>(y.get()); wa = b; break;
                case 3: *x = std::move(*y); wa = b; wb = b < 0 ? -1 : -3; break;
                case 4: { const O& z = *x; *x = z; wa = a; break; }
                case 5: { O& z = *x; *x = std::move(z); wa = a < 0 ? -1 : -3; break; }
                case 6: { const T& z = v; *x = z; wa = bv; break; }
                case 7: *x = std::move(v); wa = bv; valmoved = true; break;
                case 8: *x = nullopt; wa = -1; break;
                case 9: *x = {}; wa = -1; break;
                case 10: { const T& z = v; x->emplace(z); wa = bv; break; }
                case 11: x->emplace(std::move(v)); wa = bv; valmoved = true; break;
                case 12: x->reset(); wa = -1; break;
                case 13: x->swap(*y); wa = b; wb = a; break;
                case 14: std::swap(*x, *y); wa = b; wb = a; break;
                case 15: x->swap(*x); wa = a < 0 ? -1 : -3; break;
                case 16: { const T& z = v; x.reset(new O(z)); wa = bv; break; }
                case 17: x.reset(new O(std::move(v))); wa = bv; valmoved = true; break;
                case 18: x.reset(new O(opt::in_place, static_cast<const T&>(v))); wa = bv; break;
                case 19: x.reset(new O(opt::in_place_if, true, static_cast<const T&>(v))); wa = bv; break;
                case 20: x.reset(new O(opt::in_place_if, false, static_cast<const T&>(v))); wa = -1; break;
                case 21: x.reset(new O(true, std::move(v))); wa = bv; valmoved = true; break;
                case 22: x.reset(new O(false, std::move(v))); wa = -1; break;
                case 23: x.reset(new O(opt::make_optional(static_cast<const T&>(v)))); wa = bv; break;
                case 24: x.reset(new O(opt::make_optional(true, static_cast<const T&>(v)))); wa = bv; break;
                case 25: x.reset(new O(opt::make_optional(false, static_cast<const T&>(v)))); wa = -1; break;
                case 26: x.reset(new O(nullopt)); wa = -1; break;
                case 27: x.reset(new O()); wa = -1; break;
                case 28: x.reset(); wa = -9; break;
                case 30: x.reset(new O(opt::make_optional(false, std::move(v)))); wa = -1; break;
                case 31: x.reset(new O(opt::in_place_if, false, std::move(v))); wa = -1; break;
                case 29: if (a >= 0) { const T& z = **x; *x = z; } wa = a; break;
                }
            }
            catch (Boom& e) { threw = true; boom = e.n; REQUIRE(op < 30 && op != 20 && op != 22 && op != 25 && op != 26 && op != 27, LT, "an operation on a value that is not wanted"); REQUIRE(e.n == b0 + 1, "C20", "another exception arrives"); }
            arm(-1); g_throw_at = -1;
            std::size_t n = (x && x->has_value()) + (y->has_value()) + 1;
            if (Counted<T>::value) REQUIRE(live().size() - base == n, LT, "values alive: " << live().size() - base << ", engaged: " << n << (threw ? " after an exception" : ""));
            if (!threw)
            {
                if (wa != -9)
                {
                    sa = state(*x, LT, "target");
                    if (wa == -3) REQUIRE(sa != -1, LT, "the target lost its value");
                    else REQUIRE(sa == wa, LT, "the target holds " << sa << " instead of " << wa);
                }
                sb = state(*y, LT, "source");
                if (wb == -3) REQUIRE(sb != -1, LT, "a moved-from optional lost its value");
                else REQUIRE(sb == wb, LT, "the source holds " << sb << " instead of " << wb);
                if (!valmoved) REQUIRE(rd<T>(v) == bv, LT, "the given value was changed");
            }
            else
            {
                // whatever it holds now is a live object, and it can be used again
                if (x) { state(*x, LT, "target"); *x = nullopt; REQUIRE(!*x, LT, "not reset"); *x = mkv<T>(5); REQUIRE(state(*x, LT, "target") == 5, LT, "cannot be reused after an exception"); }
                state(*y, LT, "source");
            }
        }
        REQUIRE(live().size() == base, LT, "values leaked or destroyed twice: " << (long)(live().size() - base));
        return threw;
    }
    static void all(const char* tn)
    {
        static const int S[] = { -1, 3, 4 };
        for (int op = 0; op < N; ++op) for (int a : S) for (int b : S)
        {
            bool threw = true;
            for (long t = -1; threw; ++t)
            {
                threw = false;
                std::ostringstream o;
                o << "optional<" << tn << ">: " << name(op) << ", target " << a << ", source " << b;
                if (t >= 0) o << ", exception at operation " << t;
                if (t >= 0 && !Counted<T>::value) break;
                each(LT, o.str(), [&] { threw = run(op, a, b, t); if (t < 0) threw = true; });
                if (g_abandoned) break;
            }
        }
    }
};

// ---------------------------------------------------------------- conversions, references, void, lists
template<class T, class U> void conv(const char* tn)
{
    static const int S[] = { -1, 3, 4 };
    for (int op = 0; op < 4; ++op) for (int a : S) for (int b : S)
        each(LT, std::string("optional<") + tn + "> converting " + std::to_string(op) + " target " + std::to_string(a) + " source " + std::to_string(b), [&]
        {
            std::size_t base = live().size();
            {
                std::unique_ptr<optional<T>> x(a < 0 ? new optional<T>() : new optional<T>(mkv<T>(a)));
                optional<U> y;
                if (b >= 0) y = U(b);
                switch (op)
                {
                case 0: x.reset(new optional<T>(y)); break;
                case 1: x.reset(new optional<T>(std::move(y))); break;
                case 2: *x = y; break;
                case 3: *x = std::move(y); break;
                }
                int s = state(*x, LT, "target");
                REQUIRE(s == b, LT, "a converted optional holds " << s << " instead of " << b);
                if (op == 0 || op == 2) REQUIRE(state(y, LT, "source") == b, LT, "a converted-from optional changes");
                if (Counted<T>::value && !Counted<U>::value) REQUIRE(live().size() - base == engaged(s), LT, "values leaked");
            }
            REQUIRE(live().size() == base, LT, "values leaked");
        });
}
// ---------------------------------------------------------------- lists
static void lists()
{
    static const char* T = "C15 C20";
    for (int op = 0; op < 4; ++op) for (int t = -1; t < 3; ++t)
        each(T, "initializer list " + std::to_string(op) + " exception at " + std::to_string(t), [&]
        {
            std::size_t base = live().size();
            {
                optional<Il> x(opt::in_place, 8, 9);
                REQUIRE(x && x->a.v == 8 && x->n == 9, T, "in place arguments");
                bool threw = false;
                std::unique_ptr<optional<Il>> y;
                if (t >= 0) arm(t);
                try
                {
                    switch (op)
                    {
                    case 0: x.emplace({ 1, 2, 3 }, 4); break;
                    case 1: y.reset(new optional<Il>(opt::in_place, { 1, 2, 3 }, 4)); break;
                    case 2: y.reset(new optional<Il>(opt::in_place_if, true, { 1, 2, 3 }, 4)); break;
                    case 3: y.reset(new optional<Il>(opt::in_place_if, false, { 1, 2, 3 }, 4)); break;
                    }
                }
                catch (Boom&) { threw = true; REQUIRE(op != 3, T, "an operation on a value that is not wanted"); }
                arm(-1); g_throw_at = -1;
                optional<Il>& z = y ? *y : x;
                if (!threw)
                {
                    REQUIRE(z.has_value() == (op != 3), T, "engaged: " << z.has_value());
                    if (op != 3) REQUIRE(z->a.v == 1 && z->n == 34, T, "the value is " << z->a.v << "," << z->n);
                }
                REQUIRE(live().size() - base == (std::size_t)(x.has_value() + (y && *y)), T, "values alive: " << live().size() - base);
            }
            REQUIRE(live().size() == base, T, "values leaked");
        });
}
// ---------------------------------------------------------------- references
static void refs()
{
    static const char* T = "C21 C15";
    for (int a = 0; a < 3; ++a) for (int b = 0; b < 3; ++b) for (int op = 0; op < 13; ++op)
        each(T, "optional<Val&> operation " + std::to_string(op) + " target " + std::to_string(a) + " source " + std::to_string(b), [&]
        {
            std::size_t base = live().size();
            {
                Val v1(1), v2(2);
                Val* P[] = { nullptr, &v1, &v2 };
                using O = optional<Val&>;
                O x, y;
                if (a) x.emplace(*P[a]);
                if (b) y.emplace(*P[b]);
                std::unique_ptr<O> z;
                const Val* wx = P[a]; const Val* wy = P[b]; const Val* wz = nullptr;
                const O& cy = y;
                switch (op)
                {
                case 0: z.reset(new O(y)); wz = P[b]; break;
                case 1: z.reset(new O(std::move(y))); wz = P[b]; break;
                case 2: x = y; wx = P[b]; break;
                case 3: x = cy; wx = P[b]; break;
                case 4: x = std::move(y); wx = P[b]; break;
                case 5: x = nullopt; wx = nullptr; break;
                case 6: x.emplace(v2); wx = &v2; break;
                case 7: x.reset(); wx = nullptr; break;
                case 8: x.swap(y); wx = P[b]; wy = P[a]; break;
                case 9: std::swap(x, y); wx = P[b]; wy = P[a]; break;
                case 10: z.reset(new O(v1)); wz = &v1; break;
                case 11: z.reset(new O(opt::in_place, v2)); wz = &v2; break;
                case 12: z.reset(new O(nullopt)); break;
                }
                auto is = [&](const O& o, const Val* w, const char* what)
                {
                    REQUIRE(o.has_value() == (w != nullptr) && bool(o) == (w != nullptr), T, what << " engaged: " << o.has_value());
                    if (w) REQUIRE(&*o == w && o.operator->() == w && &o.value() == w, T, what << " refers to another object");
                    else { bool t = false; try { o.value(); } catch (opt::bad_optional_access&) { t = true; } REQUIRE(t, "C21", what << " value() does not throw"); }
                    Val d(77);
                    REQUIRE(Val(o.value_or(d)).v == (w ? w->v : 77), "C21", what << " value_or");
                };
                is(x, wx, "target"); is(y, wy, "source"); if (z) is(*z, wz, "new optional");
                REQUIRE(v1.v == 1 && v2.v == 2, T, "rebinding writes through");
            }
            REQUIRE(live().size() == base, T, "values leaked");
        });
}
// ---------------------------------------------------------------- references to constants
static void crefs()
{
    static const char* T = "C21 C15";
    each(T, "optional<const Val&>", [&]
    {
        Val v1(1), v2(2);
        optional<const Val&> k(v1), e;
        REQUIRE(&*k == &v1 && k && !e, T, "const reference");
        k = optional<const Val&>(v2);
        REQUIRE(&*k == &v2 && v1.v == 1, T, "const reference rebinds");
        e = k;
        REQUIRE(&*e == &v2 && &k.value() == &v2, T, "const reference rebinds");
        e.emplace(v1);
        REQUIRE(&*e == &v1 && v2.v == 2, T, "const reference rebinds");
        e.swap(k);
        REQUIRE(&*e == &v2 && &*k == &v1, T, "const references swap");
        e.reset();
        k = nullopt;
        REQUIRE(!e && !k, T, "reset");
    });
}
// ---------------------------------------------------------------- void
static void voids()
{
    each("C21", "optional<void>", [&]
    {
        optional<void> o, p(nullopt);
        Val v(3);
        o = v; REQUIRE(!o && !o.has_value(), "C21", "optional<void> holds a value after an assignment");
        o.emplace(v); REQUIRE(!o, "C21", "optional<void> holds a value after emplace");
        o.emplace(5); o.swap(p); o = p; o = nullopt; o.reset();
        optional<void> q(o);
        REQUIRE(!o && !p && !q, "C21", "optional<void> holds a value");
        bool t = false;
        try { o.value(); } catch (opt::bad_optional_access&) { t = true; }
        REQUIRE(t, "C21", "optional<void>::value does not throw");
        REQUIRE(o.value_or(4) == 4, "C21", "optional<void>::value_or");
    });
}

// ---------------------------------------------------------------- accessors
template<class T> void access(const char* tn)
{
    using O = optional<T>;
    for (int s = -1; s < 5; s += 2)
        each("C21", std::string("accessors of optional<") + tn + "> in state " + std::to_string(s), [&]
        {
            std::size_t base = live().size();
            {
            O o;
            if (s >= 0) o = mkv<T>(s);
            const O& c = o;
            T d = mkv<T>(9);
            const T& cd = d;
            T* p = o.get_ptr();
            REQUIRE((p != nullptr) == (s >= 0), "C21", "get_ptr");
            if (p) REQUIRE((char*)p >= (char*)&o && (char*)(p + 1) <= (char*)(&o + 1), "C21", "the value is not inside the optional");
            REQUIRE(c.get_ptr() == p && opt::get(&o) == p && opt::get(&c) == p && opt::get_pointer(o) == p && opt::get_pointer(c) == p, "C21", "pointer accessors differ");
            REQUIRE(&o.get_value_or(d) == (p ? p : &d) && &c.get_value_or(cd) == (p ? p : &cd), "C21", "get_value_or");
            REQUIRE(&opt::get_optional_value_or(o, d) == (p ? p : &d) && &opt::get_optional_value_or(c, cd) == (p ? p : &cd), "C21", "get_optional_value_or");
            REQUIRE(rd<T>(c.value_or(cd)) == (p ? s : 9), "C21", "value_or");
            REQUIRE(rd<T>(c.value_or(mkv<T>(8))) == (p ? s : 8), "C21", "value_or of an rvalue");
            REQUIRE(rd<T>(d) == 9, "C21", "value_or changed the fallback");
            if (p)
            {
                REQUIRE(&*o == p && &*c == p && o.operator->() == p && c.operator->() == p && &o.get() == p && &c.get() == p && &opt::get(o) == p && &opt::get(c) == p, "C21", "accessors differ");
                REQUIRE(&o.value() == p && &c.value() == p, "C21", "value()");
                T&& r1 = *std::move(o); T&& r2 = std::move(o).value();
                REQUIRE(&r1 == p && &r2 == p, "C21", "rvalue accessors refer to another object");
                REQUIRE(rd<T>(*p) == s, "C21", "an accessor changed the value");
                REQUIRE(rd<T>(std::move(o).value_or(cd)) == s, "C21", "value_or of an rvalue optional");
                REQUIRE(o.has_value(), "C21", "value_or disengaged the optional");
            }
            else
            {
                int t = 0;
                try { o.value(); } catch (opt::bad_optional_access&) { ++t; }
                try { c.value(); } catch (opt::bad_optional_access&) { ++t; }
                try { std::move(o).value(); } catch (opt::bad_optional_access&) { ++t; }
                REQUIRE(t == 3, "C21", "value() of a disengaged optional throws " << t << " of 3 times");
                REQUIRE(rd<T>(std::move(o).value_or(cd)) == 9, "C21", "value_or of an rvalue optional");
            }
            }
            REQUIRE(live().size() == base, "C21 C15", "values leaked");
        });
}

// ---------------------------------------------------------------- comparisons
template<class O, class T> void cmp(const char* tn, const std::vector<std::unique_ptr<O>>& os, const std::vector<std::unique_ptr<T>>& vs, const std::vector<int>& st)
{
    // st[i]: state of os[i] (-1 or value); vs[i]: value i
    for (std::size_t i = 0; i < os.size(); ++i)
    {
        const O& a = *os[i];
        int x = st[i];
        for (std::size_t j = 0; j < os.size(); ++j)
            each("C16", std::string("compare optional<") + tn + "> " + std::to_string(x) + " with " + std::to_string(st[j]), [&]
            {
                const O& b = *os[j];
                int y = st[j];
                REQUIRE((a == b) == (x == y) && (a != b) == (x != y) && (a < b) == (x < y) && (a > b) == (x > y) && (a <= b) == (x <= y) && (a >= b) == (x >= y), "C16",
                    "results " << (a == b) << (a != b) << (a < b) << (a > b) << (a <= b) << (a >= b));
            });
        for (std::size_t j = 0; j < vs.size(); ++j)
            each("C16", std::string("compare optional<") + tn + "> " + std::to_string(x) + " with the value " + std::to_string(j), [&]
            {
                const T& b = *vs[j];
                int y = (int)j;
                REQUIRE((a == b) == (x == y) && (a != b) == (x != y) && (a < b) == (x < y) && (a > b) == (x > y) && (a <= b) == (x <= y) && (a >= b) == (x >= y), "C16",
                    "optional with value: " << (a == b) << (a != b) << (a < b) << (a > b) << (a <= b) << (a >= b));
                REQUIRE((b == a) == (y == x) && (b != a) == (y != x) && (b < a) == (y < x) && (b > a) == (y > x) && (b <= a) == (y <= x) && (b >= a) == (y >= x), "C16",
                    "value with optional: " << (b == a) << (b != a) << (b < a) << (b > a) << (b <= a) << (b >= a));
            });
        each("C16", std::string("compare optional<") + tn + "> " + std::to_string(x) + " with nullopt", [&]
        {
            bool n = x < 0;
            REQUIRE((a == nullopt) == n && (a != nullopt) == !n && (a < nullopt) == false && (a > nullopt) == !n && (a <= nullopt) == n && (a >= nullopt) == true, "C16", "optional with nullopt");
            REQUIRE((nullopt == a) == n && (nullopt != a) == !n && (nullopt < a) == !n && (nullopt > a) == false && (nullopt <= a) == true && (nullopt >= a) == n, "C16", "nullopt with optional");
        });
    }
}
template<class T> void compare(const char* tn)
{
    std::vector<std::unique_ptr<optional<T>>> os;
    std::vector<std::unique_ptr<T>> vs;
    std::vector<int> st{ -1, 0, 1, 2, -1, 1 };
    for (int s : st) os.emplace_back(s < 0 ? new optional<T>() : new optional<T>(mkv<T>(s)));
    for (int i = 0; i < 3; ++i) vs.emplace_back(new T(mkv<T>(i)));
    *os[4] = mkv<T>(3);
    os[4]->reset();       // disengaged, with the remains of a value
    cmp<optional<T>, T>(tn, os, vs, st);
}
static void compare_refs()
{
    std::vector<std::unique_ptr<optional<Val&>>> os;
    std::vector<std::unique_ptr<Val>> vs;
    std::vector<int> st{ -1, 0, 1, 2, -1, 1 };
    for (int i = 0; i < 3; ++i) vs.emplace_back(new Val(i));
    Val extra(1);
    for (int s : st) os.emplace_back(s < 0 ? new optional<Val&>() : new optional<Val&>(*vs[s]));
    os[5]->emplace(extra);
    cmp<optional<Val&>, Val>("Val&", os, vs, st);
}
// ---------------------------------------------------------------- comparisons with references to constants
static void compare_crefs()
{
    std::vector<std::unique_ptr<Val>> vs;
    std::vector<int> st{ -1, 0, 1, 2, -1, 1 };
    for (int i = 0; i < 3; ++i) vs.emplace_back(new Val(i));
    Val extra(1);
    std::vector<std::unique_ptr<optional<const Val&>>> cs;
    for (int s : st) cs.emplace_back(s < 0 ? new optional<const Val&>() : new optional<const Val&>(*vs[s]));
    cs[5]->emplace(extra);
    cmp<optional<const Val&>, Val>("const Val&", cs, vs, st);
}

// ---------------------------------------------------------------- restricted types
struct Pinned { Val v; Pinned(int a, int b) : v(a * 10 + b) {} Pinned(const Pinned&) = delete; Pinned& operator=(const Pinned&) = delete; };
struct MoveOnly { Val v; explicit MoveOnly(int x) : v(x) {} MoveOnly(MoveOnly&&) = default; MoveOnly& operator=(MoveOnly&&) = default; };
static void restricted()
{
    each("C15 C20", "values that can be neither copied nor moved", [&]
    {
        std::size_t base = live().size();
        for (int t = -1; t < 2; ++t)
        {
            optional<Pinned> o, p(opt::in_place, 1, 2), q(opt::in_place_if, false, 1, 2), r(opt::in_place_if, true, 3, 4);
            REQUIRE(!o && p && !q && r && p->v.v == 12 && r->v.v == 34, LT, "in place");
            if (t >= 0) arm(t);
            bool threw = false;
            try { o.emplace(5, 6); p.emplace(7, 8); } catch (Boom&) { threw = true; }
            g_throw_at = -1;
            if (!threw) REQUIRE(o && p && o->v.v == 56 && p->v.v == 78, LT, "emplace");
            REQUIRE(live().size() - base == (std::size_t)(o.has_value() + p.has_value() + r.has_value()), LT, "values alive: " << live().size() - base);
            p.reset(); p.reset(); r = nullopt;
            REQUIRE(!p && !r && live().size() - base == (std::size_t)o.has_value(), LT, "reset");
        }
        REQUIRE(live().size() == base, LT, "values leaked");
    });
    each("C15 C20 C21", "values that can only be moved", [&]
    {
        std::size_t base = live().size();
        {
            optional<MoveOnly> o, p(MoveOnly(3)), q(std::move(p));
            REQUIRE(!o && p && q && q->v.v == 3, LT, "move construction");
            o = std::move(q);
            REQUIRE(o && q && o->v.v == 3, LT, "move assignment");
            q = MoveOnly(4);
            REQUIRE(q && q->v.v == 4, LT, "value assignment");
            o.swap(q);
            REQUIRE(o->v.v == 4 && q->v.v == 3, LT, "swap");
            MoveOnly m = *std::move(o);
            REQUIRE(m.v.v == 4 && o, "C21 C15", "moving out of an optional");
            m = std::move(q).value();
            REQUIRE(m.v.v == 3, "C21 C15", "moving out of an optional");
            o = MoveOnly(6);
            MoveOnly n = std::move(o).value_or(MoveOnly(7));
            REQUIRE(n.v.v == 6, "C21", "value_or");
            o.reset();
            MoveOnly k = std::move(o).value_or(MoveOnly(7));
            REQUIRE(k.v.v == 7, "C21", "value_or");
            optional<std::unique_ptr<int>> u(std::unique_ptr<int>(new int(5))), w;
            w = std::move(u);
            REQUIRE(w && *w && **w == 5 && u && !*u, LT, "unique_ptr");
            w = nullopt;
            REQUIRE(!w, LT, "unique_ptr");
        }
        REQUIRE(live().size() == base, LT, "values leaked");
    });
    each("C15 C21", "constant values", [&]
    {
        std::size_t base = live().size();
        {
            optional<const Val> o(Val(3)), p, q(o);
            REQUIRE(o && !p && q && o->v == 3 && (*q).v == 3 && q.value().v == 3, LT, "constant values");
            p.emplace(5);
            REQUIRE(p && p->v == 5, LT, "constant values");
            p.emplace(6);
            REQUIRE(p && p->v == 6, LT, "constant values");
            p.reset();
            REQUIRE(!p && live().size() - base == 2, LT, "constant values");
        }
        REQUIRE(live().size() == base, LT, "values leaked");
    });
    each("C15 C20", "an exception of a converted value", [&]
    {
        for (int op = 0; op < 4; ++op) for (int e = 0; e < 2; ++e) for (int t = 0; t < 3; ++t)
        {
            std::size_t base = live().size();
            {
                optional<int> y(4);
                std::unique_ptr<optional<Val>> x(e ? new optional<Val>(Val(2)) : new optional<Val>());
                arm(t);
                bool threw = false;
                try
                {
                    switch (op)
                    {
                    case 0: x.reset(new optional<Val>(y)); break;
                    case 1: x.reset(new optional<Val>(std::move(y))); break;
                    case 2: *x = y; break;
                    case 3: *x = std::move(y); break;
                    }
                }
                catch (Boom&) { threw = true; }
                g_throw_at = -1;
                int s = state(*x, LT, "target");
                REQUIRE(threw ? (s == -1 || s == 2 || s == 4) : s == 4, LT, "a converted optional holds " << s);
                REQUIRE(live().size() - base == engaged(s), LT, "values alive: " << live().size() - base);
            }
            REQUIRE(live().size() == base, LT, "values leaked");
        }
    });
}

// ---------------------------------------------------------------- random sequences
static void sequences(int rounds)
{
    for (int k = 0; k < rounds; ++k)
        each("C15 C20 C21", "", [&]
        {
            std::size_t base = live().size();
            std::ostringstream sc;
            {
                optional<Val> o[3];
                int m[3] = { -1, -1, -1 };
                for (int step = 0; step < 12; ++step)
                {
                    int i = rnd(3), j = rnd(3), v = rnd(50), op = rnd(9);
                    static const char* N[] = { "assign value", "copy assign", "move assign", "reset", "emplace", "swap", "assign nullopt", "copy", "value_or" };
                    sc << "; o" << i << " " << N[op] << " o" << j << "/" << v;
                    g_scen = sc.str();
                    switch (op)
                    {
                    case 0: o[i] = Val(v); m[i] = v; break;
                    case 1: o[i] = o[j]; m[i] = m[j]; break;
                    case 2: if (i != j) { o[i] = std::move(o[j]); m[i] = m[j]; if (m[j] >= 0) { o[j] = Val(1); m[j] = 1; } } break;
                    case 3: o[i].reset(); m[i] = -1; break;
                    case 4: o[i].emplace(v); m[i] = v; break;
                    case 5: if (i != j) { o[i].swap(o[j]); std::swap(m[i], m[j]); } break;
                    case 6: o[i] = nullopt; m[i] = -1; break;
                    case 7: { optional<Val> t(o[j]); REQUIRE(state(t, LT, "copy") == m[j], LT, "a copy differs"); break; }
                    case 8: REQUIRE(o[i].value_or(Val(v)).v == (m[i] < 0 ? v : m[i]), "C21", "value_or"); break;
                    }
                    std::size_t n = 0;
                    for (int q = 0; q < 3; ++q) { int s = state(o[q], LT, "optional"); REQUIRE(s == m[q], LT, "o" << q << " holds " << s << " instead of " << m[q]); n += m[q] >= 0; }
                    REQUIRE(live().size() - base == n, LT, "values alive: " << live().size() - base);
                }
            }
            REQUIRE(live().size() == base, LT, "values leaked");
        });
}

int main(int argc, char** argv)
{
    g_lifetags = "C15 C20 C16 C21";
    g_hangtags = "C15";
    init(argc, argv);
    int rounds = argc > 3 ? std::atoi(argv[3]) : 1500;
    Ops<Val>::all("Val");
    Ops<int>::all("int");
    Ops<std::string>::all("std::string");
    Ops<Wide>::all("over-aligned");
    Ops<Big>::all("400 bytes");
    Ops<Odd>::all("overloaded &");
    Ops<Poly>::all("polymorphic");
    Ops<BigVal>::all("300 bytes");
    Ops<Color>::all("enum");
    Ops<double>::all("double");
    Ops<int*>::all("int*");
    Ops<std::shared_ptr<int>>::all("shared_ptr");
    Ops<std::vector<int>>::all("vector");
    restricted();
    conv<long long, int>("long long");
    conv<double, int>("double");
    conv<Wide, int>("over-aligned");
    conv<Val, int>("Val");
    conv<int, short>("int");
    lists();
    refs();
    crefs();
    voids();
    access<Val>("Val");
    access<int>("int");
    access<std::string>("std::string");
    access<Wide>("over-aligned");
    access<Big>("400 bytes");
    access<Color>("enum");
    access<double>("double");
    access<int*>("int*");
    access<std::shared_ptr<int>>("shared_ptr");
    compare<Wide>("over-aligned");
    compare<Big>("400 bytes");
    compare<Color>("enum");
    compare<double>("double");
    compare<int*>("int*");
    compare<Val>("Val");
    compare<int>("int");
    compare<std::string>("std::string");
    compare_refs();
    compare_crefs();
    sequences(rounds);
    return finish();
}
