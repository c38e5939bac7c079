// Opaque user types: everything about them is declared, nothing is defined, so that the verified code
// can rely on nothing but their signatures (the verifier gives them the most general contracts).
#pragma once
#include <signals.hpp>
#include <initializer_list>
#include <new>

struct Val          // an arbitrary value type
{
    int rep[2];
    Val(int);
    Val(const Val&);
    Val(Val&&);
    Val& operator=(const Val&);
    Val& operator=(Val&&);
    ~Val();
    bool operator==(const Val&) const;
    bool operator!=(const Val&) const;
    bool operator<(const Val&) const;
    bool operator>(const Val&) const;
    bool operator<=(const Val&) const;
    bool operator>=(const Val&) const;
};

struct Lst          // a value type that can be built from a list
{
    int rep[2];
    Lst(std::initializer_list<int>);
    Lst(std::initializer_list<int>, const Val&);
    Lst(const Lst&);
    Lst(Lst&&);
    Lst& operator=(const Lst&);
    Lst& operator=(Lst&&);
    ~Lst();
};

#define FUNCTOR(NAME, RET, ...)                     \
    struct NAME                                     \
    {                                               \
        int rep[2];                                 \
        NAME(const NAME&);                          \
        NAME(NAME&&);                               \
        ~NAME();                                    \
        RET operator()(__VA_ARGS__);                \
        bool operator==(const NAME&) const;         \
    }

FUNCTOR(FnA, int, Val, int&);
FUNCTOR(FnB, void, Val);
FUNCTOR(FnC, Val, int);
FUNCTOR(FnE, int, Val&&, const Val&);
FUNCTOR(FnF, void);
FUNCTOR(FnK, int, Val, int, Val, const Val&);

struct NcA          // a callable that cannot be compared
{
    int rep[2];
    NcA(const NcA&);
    NcA(NcA&&);
    ~NcA();
    int operator()(Val, int&);
};

struct Obj
{
    int rep[2];
    int m(Val, int&);
    void mb(Val);
    Val mc(int);
    int me(Val&&, const Val&);
    void mf();
    int mk(Val, int, Val, const Val&);
    int m2(Val, int&);
    void mb2(Val);
    Val mc2(int);
    int data;
};

struct VObj         // an object that is kept by value
{
    int rep[2];
    VObj(const VObj&);
    VObj(VObj&&);
    ~VObj();
    bool operator==(const VObj&) const;
    int m(Val, int&);
    void mb(Val);
    Val mc(int);
};

// the user's own kind of tracking pointer
struct StP
{
    int rep[2];
    StP() noexcept;
    StP(const StP&) noexcept;
    StP(StP&&) noexcept;
    StP& operator=(const StP&) noexcept;
    StP& operator=(StP&&) noexcept;
    ~StP();
    explicit operator bool() const;
    Obj& operator*() const;
};
struct WkP
{
    int rep[2];
    WkP(const WkP&);
    WkP(WkP&&);
    WkP& operator=(const WkP&);
    WkP& operator=(WkP&&);
    ~WkP();
    bool expired() const noexcept;
    StP lock() const noexcept;
    void reset() noexcept;
    bool operator==(const WkP&) const;
};
WkP to_weak(const StP&);

int free_a(Val, int&);
int free_b(Val, int&);

using SA = sig::signal<int(Val, int&)>;
using SB = sig::signal<void(Val)>;
using SC = sig::signal<Val(int)>;
using SE = sig::signal<int(Val&&, const Val&)>;
using SF = sig::signal<void()>;
using SK = sig::signal<int(Val, int, Val, const Val&)>;
using LA = SA::slot_type;
using LB = SB::slot_type;
using LC = SC::slot_type;
using LD = sig::slot<int()>;
using LE = SE::slot_type;
using LF = SF::slot_type;
using LK = SK::slot_type;

// a signal with the user's own combiner: the combiner may do anything with the iterators
struct CombG;
using SG = sig::signal<int(Val, int&), CombG>;
using ItA = sig::detail::slot_iterator<int, std::vector<std::shared_ptr<LA>>::const_iterator, Val, int&>;
int comb_run(ItA* first, ItA* last);
struct CombG
{
    using result_type = int;
    template<typename It> int operator()(It first, It last) const { return comb_run(&first, &last); }
};
struct CombH;
using SH = sig::signal<void(Val), CombH>;
using ItB = sig::detail::slot_iterator<void, std::vector<std::shared_ptr<LB>>::const_iterator, Val>;
int comb_run(ItB* first, ItB* last);
struct CombH
{
    using result_type = int;
    template<typename It> int operator()(It first, It last) const { return comb_run(&first, &last); }
};
