// Histories of signals, slots and handles on the real code against a model (small scope, enumerated and seeded).
#include "common.hpp"
#include <stdexcept>
#include <system_error>
#include <typeinfo>
#include <thread>
#include <algorithm>
using sig::connection;
using sig::scoped_connection;
using sig::connection_blocker;
using Sig = sig::signal<int(Val, int&)>;
using Slot = Sig::slot_type;

struct CallRec { int id; int arg; const int* ref; };
static std::vector<CallRec> g_log;
static std::function<void(int)> g_action;            // what a slot does when it is called
static std::map<int, std::function<void()>> g_dtor_action;   // what the last copy of a callable does when it dies

struct Token
{
    int id;
    explicit Token(int i) : id(i) {}
    ~Token()
    {
        if (t_held) softfail("C07", "a callable is destroyed while a lock is held");
        auto it = g_dtor_action.find(id);
        if (it != g_dtor_action.end()) { auto f = it->second; g_dtor_action.erase(it); f(); }
    }
};

struct Fn       // a callable: equality by key, identity by id
{
    int key, id;
    std::shared_ptr<Token> tok;
    Fn(int k, int i) : key(k), id(i), tok(std::make_shared<Token>(i)) { born(this); }
    Fn(const Fn& o) : key((used(&o), o.key)), id(o.id), tok(o.tok) { userop(); born(this); }
    Fn(Fn&& o) : key((used(&o), o.key)), id(o.id), tok(std::move(o.tok)) { userop(); born(this); o.key = -1; o.id = -1; }
    ~Fn() { if (t_held && tok && tok.use_count() == 1) softfail("C07", "a callable is destroyed while a lock is held"); dead(this); }
    bool operator==(const Fn& o) const { used(this); used(&o); userop(); return key == o.key; }
    int operator()(Val v, int& r)
    {
        used(this);
        if (t_held) softfail("C07", "a slot is called while a lock is held");
        int me = id;
        g_log.push_back({ me, v.v, &r });
        v.v = -55;
        r += 1;
        userop();
        if (g_action) { auto f = g_action; f(me); }
        return me * 10 + 1;
    }
};

struct Obj
{
    int id, magic = 0x1234;
    explicit Obj(int i) : id(i) {}
    ~Obj() { magic = 0; }
    int m(Val v, int& r)
    {
        if (magic != 0x1234) softfail("C12", "a member function is called on a dead object");
        if (t_held) softfail("C07", "a slot is called while a lock is held");
        int me = id;
        g_log.push_back({ me, v.v, &r });
        v.v = -56;
        r += 1;
        if (g_action) { auto f = g_action; f(me); }
        if (magic != 0x1234) softfail("C12", "a tracked object dies during its call");
        return me * 10 + 1;
    }
};
int free_a(Val v, int& r) { g_log.push_back({ 901, v.v, &r }); r += 1; return 9011; }
int free_b(Val v, int& r) { g_log.push_back({ 902, v.v, &r }); r += 1; return 9021; }

// ---------------------------------------------------------------- model
struct Entry { int id, key; bool conn, blocked, listed; bool alive; int kind; connection c; int trues; };   // kind 0 fn, 1 tracked
struct World
{
    std::unique_ptr<Sig> s{ new Sig };
    std::vector<Entry> e;                  // every slot ever connected
    std::vector<int> list;                 // positions in e, in connection order
    std::map<int, std::shared_ptr<Obj>> objs;
    bool removed = false;
    int next = 1;

    Entry& add(int id, int key, connection c, int kind)
    {
        e.push_back(Entry{ id, key, true, false, true, true, kind, c, 0 });
        list.push_back((int)e.size() - 1);
        return e.back();
    }
    int connect(int key) { int id = next++; Fn f(key, id); connection c = s->connect(f); add(id, key, c, 0); return (int)e.size() - 1; }
    int connect_rv(int key) { int id = next++; Fn f(key, id); connection c = s->connect(std::move(f)); add(id, key, c, 0); return (int)e.size() - 1; }
    int connect_slot(int key) { int id = next++; Slot l{ Fn(key, id) }; connection c = s->connect(l); add(id, key, c, 0); return (int)e.size() - 1; }
    int connect_tracked() { int id = next++; auto o = std::make_shared<Obj>(id); objs[(int)e.size()] = o; connection c = s->connect(&Obj::m, o); o.reset(); add(id, -id, c, 1); return (int)e.size() - 1; }
    void unlist(int i)
    {
        for (std::size_t k = 0; k < list.size(); ++k)
            if (list[k] == i) { list.erase(list.begin() + k); removed = true; }
        e[i].listed = false;
        e[i].conn = false;
    }
    bool mdisc(int i) { bool r = e[i].conn; if (r) unlist(i); return r; }
    std::size_t mdisc_key(int key)
    {
        std::size_t n = 0;
        for (std::size_t i = 0; i < e.size(); ++i)
            if (e[i].listed && e[i].kind == 0 && e[i].key == key) { unlist((int)i); ++n; }
        return n;
    }
    bool active(int i) const { return e[i].conn && !e[i].blocked && e[i].alive; }

    void check_handles()
    {
        for (auto& x : e)
        {
            REQUIRE(x.c.connected() == (x.conn && x.alive), "C18 C05 C06 C12 C19", "connection " << x.id << " reports connected=" << x.c.connected());
            REQUIRE(x.c.valid() == x.listed, "C18 C05 C06 C04 C19", "connection " << x.id << " reports valid=" << x.c.valid());
            if (x.listed) REQUIRE(x.c.blocked() == x.blocked, "C10 C18 C04", "connection " << x.id << " reports blocked=" << x.c.blocked());
            else REQUIRE(!x.c.blocked(), "C18", "connection " << x.id << " to a removed slot reports blocked");
        }
    }
    void check_emit()
    {
        auto act = g_action;
        g_action = nullptr;
        std::vector<int> want;
        for (int i : list) if (active(i)) want.push_back(e[i].id);
        g_log.clear();
        int r = 40;
        Val v(1234);
        auto res = (*s)(v, r);
        REQUIRE(t_held == 0, "C07 C20", "a lock is held after an emission");
        std::vector<int> got;
        for (auto& c : g_log)
        {
            got.push_back(c.id);
            REQUIRE(c.arg == 1234, "C02", "slot " << c.id << " received " << c.arg << " instead of 1234");
            REQUIRE(c.ref == &r, "C02", "a reference argument refers to another object");
        }
        REQUIRE(v.v == 1234, "C02", "the emitter's argument was changed");
        auto w = want;
        if (removed) { std::sort(got.begin(), got.end()); std::sort(w.begin(), w.end()); }
        REQUIRE(got == w, "C01 C04 C05 C06 C10 C11 C19 C20 C08 C12", "an emission called " << str(got) << " instead of " << str(w));
        REQUIRE(r == 40 + (int)got.size(), "C02", "changes through a reference argument are lost");
        REQUIRE(res.has_value() == !g_log.empty(), "C03", "the result of the emission is engaged: " << res.has_value());
        if (!g_log.empty()) REQUIRE(*res == g_log.back().id * 10 + 1, "C03", "the result of the emission is " << *res);
        g_action = act;
    }
    static std::string str(const std::vector<int>& v) { std::ostringstream o; o << "["; for (int x : v) o << x << " "; o << "]"; return o.str(); }
    void check() { check_handles(); check_emit(); check_handles(); }
    // every remaining slot can be disconnected through its handle, exactly
    void drain()
    {
        for (std::size_t i = 0; i < e.size(); ++i)
        {
            bool w = e[i].conn;
            if (!e[i].alive) continue;
            bool g = e[i].c.disconnect();
            REQUIRE(g == w, "C05 C18 C19 C20", "disconnect of slot " << e[i].id << " returned " << g);
            if (w) unlist((int)i);
            check();
            REQUIRE(!e[i].c.disconnect(), "C05 C18", "a second disconnect of slot " << e[i].id << " returned true");
        }
    }
};

// ---------------------------------------------------------------- F1: histories
static const char* HT = "C01 C02 C03 C04 C05 C06 C10 C11 C12 C18 C19 C07";
static void history(const std::vector<int>& ops, int salt)
{
    World w;
    std::ostringstream sc;
    sc << "new signal";
    auto note = [&](const std::string& x) { sc << "; " << x; g_scen = sc.str(); };
    int step = 0;
    for (int op : ops)
    {
        ++step;
        int n = (int)w.e.size();
        int h = n ? (salt * 7 + step * 5 + op) % n : -1;
        int key = 1 + (salt + step + op) % 2;
        std::string hs = std::to_string(h < 0 ? 0 : w.e[h].id);
        static const char* CTX[] = { "C04", "C04", "C05 C18", "C06", "C10", "C10", "C06", "C11", "C10", "C19", "C04 C12", "C12", "C04", "C06 C14", "C11 C04", "C19", "C04" };
        g_ctx = CTX[op];
        switch (op)
        {
        case 0: note("connect(key " + std::to_string(key) + ")"); w.connect(key); break;
        case 1: note("connect(slot key " + std::to_string(key) + ")"); w.connect_slot(key); break;
        case 2: if (h < 0) break; note("connection " + hs + " disconnect"); if (w.e[h].alive) { bool x = w.mdisc(h); REQUIRE(w.e[h].c.disconnect() == x, "C05 C18", "disconnect returned " << !x); } break;
        case 3: { note("disconnect(key " + std::to_string(key) + ")"); auto x = w.mdisc_key(key); auto g = w.s->disconnect(Fn(key, 0)); REQUIRE(g == x, "C06", "disconnect(callable) returned " << g << " instead of " << x); break; }
        case 4: if (h < 0) break; note("block " + hs); w.e[h].c.block(); if (w.e[h].listed) w.e[h].blocked = true; break;
        case 5: if (h < 0) break; note("unblock " + hs); w.e[h].c.unblock(); w.e[h].blocked = false; break;
        case 6: { note("disconnect(slot key " + std::to_string(key) + ")"); auto x = w.mdisc_key(key); Slot l{ Fn(key, 0) }; auto g = w.s->disconnect(l); REQUIRE(g == x, "C06", "disconnect(slot) returned " << g << " instead of " << x); break; }
        case 7: { if (h < 0 || !w.e[h].alive) break; note("scoped " + hs + " ends"); { scoped_connection sc2(w.e[h].c); } w.mdisc(h); break; }
        case 8: { if (h < 0) break; note("blocker " + hs + " begins, moves and ends"); bool was = w.e[h].blocked; { connection_blocker b(w.e[h].c.blocker()); connection_blocker c(std::move(b)); if (w.e[h].listed) { w.e[h].blocked = true; } w.check(); } (void)was; w.e[h].blocked = false; break; }
        case 9: { note("move signal"); auto s2 = std::unique_ptr<Sig>(new Sig(std::move(*w.s))); int r = 0; g_log.clear(); auto res = (*w.s)(Val(1), r); REQUIRE(g_log.empty() && !res, "C19", "a moved-from signal still calls slots"); w.s = std::move(s2); break; }
        case 10: { note("connect tracked"); w.connect_tracked(); break; }
        case 11: { note("tracked objects die"); for (auto& o : w.objs) { o.second.reset(); w.e[o.first].alive = false; } break; }
        case 12: { note("connect empty slot"); Slot l; connection c = w.s->connect(l); REQUIRE(!c.valid() && !c.connected(), "C04", "connecting an empty slot gave a valid connection"); break; }
        case 13: { note("disconnect(empty slot)"); Slot l; auto g = w.s->disconnect(l); REQUIRE(g == 0, "C06 C14", "disconnect(empty slot) removed " << g); break; }
        case 14: { note("connect_scoped(key " + std::to_string(key) + ") ends"); { scoped_connection c = w.s->connect_scoped(Fn(key, w.next)); w.add(w.next++, key, static_cast<connection&>(c), 0); w.check(); } w.unlist((int)w.e.size() - 1); break; }
        case 15: { note("move assign"); Sig t; std::vector<connection> cs; cs.push_back(t.connect(Fn(1, 700))); cs.push_back(t.connect(Fn(1, 701))); t = std::move(*w.s);
                   for (auto& c : cs) { REQUIRE(!c.connected() && !c.disconnect(), "C19 C18", "a slot of the assigned-over signal is still connected"); }
                   *w.s = std::move(t); break; }
        case 16: { note("connect(callable&&)"); w.connect_rv(key); break; }
        }
        w.check();
    }
    g_ctx = "C05 C18";
    w.drain();
    g_ctx = "C19 C18";
    // destruction of the signal disconnects everything
    w.connect(1); w.connect(2);
    note("destroy signal");
    w.s.reset();
    for (auto& x : w.e) { REQUIRE(!x.c.connected() && !x.c.valid() && !x.c.disconnect() && !x.c.blocked(), "C19 C18", "a connection of a destroyed signal is not inert"); x.c.block(); x.c.unblock(); }
}

static void histories(int rounds)
{
    const int NOP = 17;
    for (int a = 0; a < NOP; ++a) for (int b = 0; b < NOP; ++b) for (int c : { 0, 2, 3, 4, 9, 6 })
        each(HT, "", [&] { history({ 0, 0, 10, a, b, c }, a + b); });
    for (int k = 0; k < rounds; ++k)
    {
        std::vector<int> ops;
        int n = 3 + rnd(10);
        for (int i = 0; i < n; ++i) ops.push_back(rnd(3) ? (int)rnd(NOP) : 0);
        int salt = rnd(1000);
        each(HT, "", [&] { history(ops, salt); });
    }
    // leaks: nothing of all this is left
    if (wants("C20 C13 C04")) { g_scen = "all histories"; if (!live().empty() && !g_abandoned) { g_lifetags = "C20 C13 C04"; } }
}

// ---------------------------------------------------------------- F2: slots that act on their own signal
enum Act { A_NONE, A_CONNECT, A_DISC, A_DISCKEY, A_BLOCK, A_UNBLOCK, A_EMIT, A_DESTROY, A_MOVE, A_MOVEASGN, A_THROW, A_SCOPED, A_DROP, A_DISCSLOT, A_N };
static const char* AN[] = { "nothing", "connect", "disconnect", "disconnect(callable)", "block", "unblock", "emit", "destroy signal", "move signal", "assign over signal", "throw", "end scoped connection", "drop tracked object", "disconnect(slot)" };

static void act(World& w, Act a, int j, int& depth, bool& destroyed)
{
    if (destroyed && a != A_DISC && a != A_BLOCK && a != A_UNBLOCK && a != A_SCOPED && a != A_DROP) return;
    auto saved = g_log;
    switch (a)
    {
    case A_CONNECT: w.connect(9); break;
    case A_DISC: { bool x = w.mdisc(j); bool g = w.e[j].c.disconnect(); REQUIRE(g == x, "C05 C08 C18", "disconnect during an emission returned " << g); break; }
    case A_DISCKEY: { auto x = w.mdisc_key(w.e[j].key); auto g = w.s->disconnect(Fn(w.e[j].key, 0)); REQUIRE(g == x, "C06 C08", "disconnect(callable) during an emission returned " << g << " instead of " << x); break; }
    case A_DISCSLOT: { auto x = w.mdisc_key(w.e[j].key); Slot l{ Fn(w.e[j].key, 0) }; auto g = w.s->disconnect(l); REQUIRE(g == x, "C06 C08", "disconnect(slot) during an emission returned " << g << " instead of " << x); break; }
    case A_BLOCK: w.e[j].c.block(); if (w.e[j].conn) w.e[j].blocked = true; break;
    case A_UNBLOCK: w.e[j].c.unblock(); if (w.e[j].conn) w.e[j].blocked = false; break;
    case A_EMIT: if (depth < 1) { ++depth; w.check_emit(); --depth; } break;
    case A_DESTROY: w.s.reset(); for (std::size_t i = 0; i < w.e.size(); ++i) if (w.e[i].listed) w.unlist((int)i); destroyed = true;
        for (auto& x : w.e)
        {
            connection c = x.c;
            REQUIRE(!c.connected() && !c.disconnect(), "C19 C18", "a slot of a destroyed signal is still connected");
            { scoped_connection sc(c); }
            REQUIRE(!c.disconnect(), "C19 C18", "a slot of a destroyed signal can be disconnected");
        }
        break;
    case A_MOVE: w.s.reset(new Sig(std::move(*w.s))); break;
    case A_MOVEASGN: { Sig t; *w.s = std::move(t); for (std::size_t i = 0; i < w.e.size(); ++i) if (w.e[i].listed) w.unlist((int)i);
        for (auto& x : w.e) REQUIRE(!x.c.connected() && !x.c.disconnect(), "C19 C18", "a slot of an assigned-over signal is still connected");
        break; }
    case A_SCOPED: { { scoped_connection c(w.e[j].c); } w.mdisc(j); break; }
    case A_DROP: if (w.objs.count(j)) { w.objs[j].reset(); w.e[j].alive = false; } break;
    case A_THROW: throw Boom{ ++g_boom };
    default: break;
    }
    g_log = saved;
}

static const char* RT = "C01 C05 C06 C07 C08 C10 C12 C19 C18 C20";
static void reentrant(Act a, int i, int j, Act b, int i2, int j2, bool tracked)
{
    World w;
    std::ostringstream sc;
    sc << "3 slots" << (tracked ? " (slot 2 tracked)" : "") << "; during an emission slot " << i + 1 << ": " << AN[a] << " (slot " << j + 1 << ")";
    if (b != A_NONE) sc << ", slot " << i2 + 1 << ": " << AN[b] << " (slot " << j2 + 1 << ")";
    g_scen = sc.str();
    w.connect(1);
    if (tracked) w.connect_tracked(); else w.connect(2);
    w.connect(3);
    if (a == A_UNBLOCK) { w.e[j].c.block(); w.e[j].blocked = true; }
    bool destroyed = false;
    int depth = 0;
    // what the emission has to do is decided step by step, from the state when each slot's turn comes
    std::vector<int> snap = w.list;
    std::size_t pos = 0;
    int boom = 0;
    g_log.clear();
    g_action = [&](int id)
    {
        if (depth) return;
        while (pos < snap.size() && !w.active(snap[pos])) ++pos;
        REQUIRE(pos < snap.size(), "C01 C08", "an emission calls slot " << id << " beyond its snapshot");
        REQUIRE(w.e[snap[pos]].id == id, "C01 C08 C05 C10 C12", "an emission calls slot " << id << " instead of slot " << w.e[snap[pos]].id);
        int me = snap[pos++];
        if (me == i) act(w, a, j, depth, destroyed);
        if (b != A_NONE && me == i2) act(w, b, j2, depth, destroyed);
    };
    int r = 0;
    bool thrown = false;
    {
        Val v(5);
        int b0 = g_boom;
        try { (*w.s)(v, r); }
        catch (Boom& x) { thrown = true; boom = x.n; REQUIRE(boom == g_boom && boom == b0 + 1, "C20", "another exception arrives"); }
        REQUIRE(t_held == 0, "C07 C20", "a lock is held after the emission");
    }
    g_action = nullptr;
    if (!thrown)
    {
        while (pos < snap.size() && !w.active(snap[pos])) ++pos;
        REQUIRE(pos == snap.size(), "C01 C08 C05", "an emission ends before slot " << w.e[snap[pos]].id << " was called");
    }
    if (!destroyed) { w.removed = true; w.check(); w.drain(); }
    else w.check_handles();
}

static void reentrancy()
{
    for (int tr = 0; tr < 2; ++tr)
        for (int a = 1; a < A_N; ++a) for (int i = 0; i < 3; ++i) for (int j = 0; j < 3; ++j)
        {
            each(RT, "", [&] { reentrant((Act)a, i, j, A_NONE, 0, 0, tr); });
            if (i == 0 || i == 2)
                for (int b = 1; b < A_N; ++b) for (int j2 = 0; j2 < 3; ++j2)
                    each(RT, "", [&] { reentrant((Act)a, i, j, (Act)b, 1, j2, tr); });
        }
}

// the last copy of a callable acts on the signal when it dies
static void dtor_actions()
{
    for (int how = 0; how < 7; ++how) for (int what = 0; what < 4; ++what)
    {
        static const char* H[] = { "connection.disconnect", "disconnect(callable)", "disconnect(slot)", "destroy signal", "move-assign over signal", "scoped connection ends", "emission whose slot disconnects itself" };
        static const char* W[] = { "emits", "connects", "disconnects another", "disconnects by callable" };
        each("C07 C06 C05 C19 C20", std::string("callable dies through ") + H[how] + "; its destructor " + W[what], [&]
        {
            auto s = std::unique_ptr<Sig>(new Sig);
            Sig* sp = s.get();
            connection o = s->connect(Fn(5, 50));
            connection c = s->connect(Fn(6, 60));
            s->connect(Fn(7, 70));
            bool ran = false;
            Sig other;
            g_dtor_action[60] = [&]
            {
                ran = true;
                if (t_held) softfail("C07", "a callable is destroyed while a lock is held");
                Sig* t = how >= 3 && how <= 4 ? &other : sp;
                int r = 0;
                if (what == 0) (*t)(Val(1), r);
                else if (what == 1) t->connect(Fn(8, 80));
                else if (what == 2) o.disconnect();
                else t->disconnect(Fn(7, 0));
            };
            switch (how)
            {
            case 0: REQUIRE(c.disconnect(), "C05", "disconnect returned false"); break;
            case 1: { auto n = s->disconnect(Fn(6, 0)); REQUIRE(n == 1, "C06", "disconnect returned " << n); break; }
            case 2: { Slot l{ Fn(6, 0) }; auto n = s->disconnect(l); REQUIRE(n == 1, "C06", "disconnect returned " << n); break; }
            case 3: s.reset(); break;
            case 4: { Sig t; *s = std::move(t); break; }
            case 5: { scoped_connection sc(c); } break;
            case 6: { g_action = [&](int id) { if (id == 60) c.disconnect(); }; int r = 0; (*s)(Val(1), r); g_action = nullptr; break; }
            }
            REQUIRE(t_held == 0, "C07", "a lock is held afterwards");
            if (how != 4) REQUIRE(ran, "C07 C20 C05 C06", "the callable was not destroyed");
            g_dtor_action.clear();
            if (s) { g_log.clear(); int r = 0; (*s)(Val(1), r); for (auto& x : g_log) REQUIRE(x.id != 60, "C05 C06", "a removed slot is called"); }
            REQUIRE(!c.connected(), "C05 C06 C19", "the removed slot is reported connected");
        });
        g_dtor_action.clear();
        g_action = nullptr;
    }
}

// ---------------------------------------------------------------- F3: another thread's operation at a lock point
static const char* ST = "C01 C04 C05 C06 C08 C09 C10 C11 C18 C20";
static const char* ON[] = { "connect", "disconnect(first)", "disconnect(last)", "disconnect(callable of two)", "disconnect(slot)", "emit", "block(second)", "end scoped(first)", "disconnect(second)", "connect(slot)" };
static void sched(int A, int B, int at, bool& more)
{
    World w;
    g_scen = std::string("4 slots with keys 1 2 1 3; ") + ON[A] + ", with " + ON[B] + " by another thread at its lock point " + std::to_string(at);
    w.connect(1); w.connect(2); w.connect(1); w.connect(3);
    std::vector<int> trues(16, 0), mayhave(16, 0);
    std::size_t removedByKey = 0;
    std::vector<int> called;
    auto op = [&](int o, bool inner)
    {
        switch (o)
        {
        case 0: w.connect(4); break;
        case 9: w.connect_slot(4); break;
        case 1: case 2: case 8: { int i = o == 1 ? 0 : o == 2 ? 3 : 1; mayhave[i]++; if (w.e[i].c.disconnect()) trues[i]++; break; }
        case 7: { mayhave[0]++; trues[0] += w.e[0].c.connected(); scoped_connection c(w.e[0].c); break; }
        case 3: removedByKey += w.s->disconnect(Fn(1, 0)); break;
        case 4: { Slot l{ Fn(1, 0) }; removedByKey += w.s->disconnect(l); break; }
        case 5: { auto lg = g_log; g_log.clear(); int r = 0; (*w.s)(Val(7), r); for (auto& c : g_log) { REQUIRE(c.arg == 7, "C02", "argument"); called.push_back(c.id); } g_log = lg; break; }
        case 6: w.e[1].c.block(); break;
        }
        (void)inner;
    };
    g_lockevents = 0;
    g_injected = false;
    g_inject_at = at;
    g_inject = [&] { op(B, true); };
    op(A, false);
    g_inject = nullptr;
    more = g_injected;
    if (!g_injected) return;
    REQUIRE(t_held == 0, "C07", "a lock is held afterwards");
    bool key = A == 3 || B == 3 || A == 4 || B == 4;
    auto is = [&](int o) { return A == o || B == o; };
    // emission: each slot at most once, nothing unknown
    if (A == 5 && B != 5)
    {
        std::set<int> seen;
        for (int id : called) REQUIRE(seen.insert(id).second, "C01 C08", "slot " << id << " is called twice by one emission");
        for (int id = 1; id <= 4; ++id)
        {
            bool gone = (B == 1 && id == 1) || (B == 7 && id == 1) || (B == 2 && id == 4) || (B == 8 && id == 2) || ((B == 3 || B == 4) && (id == 1 || id == 3)) || (B == 6 && id == 2);
            if (gone) REQUIRE(!seen.count(id), "C05 C10 C06 C08", "slot " << id << " is called although it was disconnected or blocked before its turn");
            else REQUIRE(seen.count(id), "C01 C08", "slot " << id << " is not called");
        }
    }
    // exactly one true per disconnected slot
    for (int i = 0; i < 4; ++i)
    {
        if (!mayhave[i]) continue;
        bool byKey = key && w.e[i].key == 1;
        if (!byKey && A != 7 && B != 7) REQUIRE(trues[i] == 1, "C05", "disconnecting slot " << i + 1 << " reported true " << trues[i] << " times");
        REQUIRE(trues[i] <= 1 || is(7), "C05", "disconnecting slot " << i + 1 << " reported true " << trues[i] << " times");
    }
    if (key)
    {
        // two slots have that key; one of them may have been taken by its connection
        std::size_t lo = is(1) || is(7) ? 1 : 2;
        REQUIRE(removedByKey >= lo && removedByKey <= 2, "C06", "disconnect(callable) counted " << removedByKey);
    }
    // resulting state
    for (int i = 0; i < 4; ++i)
        if ((mayhave[i] && (trues[i] || is(7) || true)) || (key && w.e[i].key == 1)) w.unlist(i);
    if (is(6) && w.e[1].listed) w.e[1].blocked = true;
    w.removed = true;
    w.check();
    w.connect(2);
    w.check();
    auto n = w.mdisc_key(2);
    auto g = w.s->disconnect(Fn(2, 0));
    REQUIRE(g == n, "C06", "disconnect(callable) returned " << g << " instead of " << n);
    w.check();
    w.drain();
}
static void schedules()
{
    for (int A = 0; A < 10; ++A) for (int B = 0; B < 10; ++B)
    {
        bool more = true;
        for (int at = 0; more && at < 12; ++at)
        {
            more = false;
            each(ST, "", [&] { sched(A, B, at, more); });
        }
    }
    // a handle keeps working while its signal is moved by another thread
    for (int at = 0; at < 6; ++at) for (int mv = 0; mv < 2; ++mv)
        each("C19 C18 C05", std::string("disconnect, with the signal ") + (mv ? "move-assigned" : "move-constructed") + " away at lock point " + std::to_string(at), [&]
        {
            World w;
            w.connect(1); w.connect(2); w.connect(3);
            std::unique_ptr<Sig> keep;
            g_lockevents = 0; g_injected = false; g_inject_at = at;
            // only the final state matters here: moving while an operation on the source runs is the user's own race,
            // so the move happens at lock points of a *connect* on a different signal
            Sig other;
            g_inject = [&] { keep = std::move(w.s); w.s.reset(mv ? new Sig() : new Sig(std::move(*keep))); if (mv) *w.s = std::move(*keep); };
            other.connect(Fn(9, 99));
            g_inject = nullptr;
            w.check();
            w.drain();
        });
}

// ---------------------------------------------------------------- F4: exceptions
static const char* XT = "C20 C07 C13 C04 C06";
static void exceptions()
{
    static const char* N[] = { "connect(const callable&)", "connect(callable&&)", "connect(slot)", "disconnect(callable)", "disconnect(slot)", "emit", "connect_scoped(callable)", "slot copy", "slot assignment" };
    for (int op = 0; op < 9; ++op)
        for (int n = 0; n < 14; ++n)
        {
            bool thrown = false;
            each(XT, std::string("4 slots with keys 1 2 1 3; ") + N[op] + " with an exception from user operation " + std::to_string(n), [&]
            {
                {
                    World w;
                    w.connect(1); w.connect(2); w.connect(1); w.connect(3);
                    Fn f(1, 500);
                    Slot l{ Fn(1, 501) }, l2{ Fn(2, 502) };
                    Val v(5);
                    int r = 0, b0 = g_boom;
                    std::size_t before = live().size(), count = 0;
                    connection c;
                    arm(n);
                    try
                    {
                        switch (op)
                        {
                        case 0: c = w.s->connect(f); break;
                        case 1: c = w.s->connect(std::move(f)); break;
                        case 2: c = w.s->connect(l); break;
                        case 3: count = w.s->disconnect(f); break;
                        case 4: count = w.s->disconnect(l); break;
                        case 5: (*w.s)(v, r); break;
                        case 6: { scoped_connection sc = w.s->connect_scoped(f); c = sc.release(); break; }
                        case 7: { Slot x(l); g_throw_at = -1; break; }
                        case 8: { Slot x{ l2 }; x = l; g_throw_at = -1; break; }
                        }
                    }
                    catch (Boom& x) { thrown = true; REQUIRE(x.n == b0 + 1 && g_boom == b0 + 1, "C20", "another exception arrives"); }
                    catch (Abandon&) { throw; }
                    catch (...) { REQUIRE(false, "C20", "another exception arrives"); }
                    g_throw_at = -1;
                    REQUIRE(t_held == 0, "C07 C20", "a lock is held after the exception");
                    if (thrown)
                    {
                        // each slot is either fully there or fully gone
                        for (std::size_t i = 0; i < 4; ++i)
                            if ((op == 3 || op == 4) && !w.e[i].c.connected()) { REQUIRE(w.e[i].key == 1, "C20 C06", "a slot that differs was removed"); w.unlist((int)i); ++count; }
                        if (op != 3 && op != 4) REQUIRE(live().size() == before, "C20 C13", "after the exception " << (long)live().size() - (long)before << " objects are left over");
                        else REQUIRE(live().size() == before - count, "C20 C06", "after the exception objects are left over or lost");
                    }
                    else
                    {
                        if (op == 0 || op == 1 || op == 2 || op == 6) { w.add(op == 2 ? 501 : 500, 1, c, 0); }
                        if (op == 3 || op == 4) { auto x = w.mdisc_key(1); REQUIRE(x == count, "C06", "count"); }
                    }
                    w.check();
                    w.drain();
                }
                REQUIRE(live().empty(), "C20 C13 C04", live().size() << " objects are never destroyed");
            });
            if (!thrown) break;
        }
}

// ---------------------------------------------------------------- F5: handles
static void handles()
{
    // copies, moves, swaps of connections
    for (int op = 0; op < 9; ++op) for (int sa = 0; sa < 4; ++sa) for (int sb = 0; sb < 4; ++sb)
    {
        static const char* N[] = { "copy", "move", "assign", "move assign", "swap", "free swap", "self assign", "copy and disconnect the copy", "self swap" };
        static const char* S[] = { "a live slot", "another live slot", "a removed slot", "nothing" };
        each("C18 C05", std::string("connection to ") + S[sa] + ", other to " + S[sb] + ": " + N[op], [&]
        {
            World w;
            w.connect(1); w.connect(2); w.connect(3);
            w.e[2].c.disconnect(); w.unlist(2);
            auto get = [&](int k) { return k == 0 ? w.e[0].c : k == 1 ? w.e[1].c : k == 2 ? w.e[2].c : connection(); };
            connection a = get(sa), b = get(sb);
            int ra = sa, rb = sb;      // what they must refer to afterwards (3 = nothing)
            auto refers = [&](connection& c, int k)
            {
                REQUIRE(c.valid() == (k < 2), "C18", "valid() is " << c.valid());
                REQUIRE(c.connected() == (k < 2), "C18", "connected() is " << c.connected());
                if (k >= 2) { REQUIRE(!c.disconnect() && !c.blocked(), "C18", "an invalid handle acts"); c.block(); c.unblock(); REQUIRE(!c.blocked(), "C18", "an invalid handle acts"); return; }
                c.block();
                REQUIRE(w.e[k].c.blocked() && !w.e[1 - k].c.blocked(), "C18 C10", "the handle refers to another slot");
                c.unblock();
                REQUIRE(!w.e[k].c.blocked(), "C18 C10", "the handle refers to another slot");
            };
            switch (op)
            {
            case 0: { connection x(a); refers(x, ra); break; }
            case 1: { connection x(std::move(a)); refers(x, ra); ra = 3; break; }
            case 2: a = b; ra = rb; break;
            case 3: a = std::move(b); ra = rb; rb = 3; break;
            case 4: a.swap(b); std::swap(ra, rb); break;
            case 5: swap(a, b); std::swap(ra, rb); break;
            case 6: { connection& x = a; a = x; break; }
            case 7: { connection x(a); bool g = x.disconnect(); REQUIRE(g == (ra < 2), "C05 C18", "disconnect returned " << g); if (g) { w.unlist(ra); REQUIRE(!a.disconnect(), "C05", "a second disconnect returned true"); } ra = 3; if (sb == sa) rb = 3; w.check(); break; }
            case 8: { connection& x = a; a.swap(x); break; }
            }
            if (op == 1 || op == 3) REQUIRE(!(op == 1 ? a : b).connected() && !(op == 1 ? a : b).valid(), "C18", "a moved-from connection is valid");
            refers(a, ra);
            refers(b, rb);
            w.check();
        });
    }
    // scoped connections
    for (int op = 0; op < 9; ++op) for (int sa = 0; sa < 3; ++sa) for (int sb = 0; sb < 3; ++sb)
    {
        static const char* N[] = { "ends", "is moved, target ends", "is move-assigned from other", "swaps with other, ends", "releases", "free swap with other, ends", "move-assigned an empty one", "is assigned a fresh scope, twice", "is moved twice" };
        each("C11 C18 C05", std::string("scoped connection (") + "ab-"[sa] + ", other " + "ab-"[sb] + ") " + N[op], [&]
        {
            g_ctx = "C11";
            World w;
            w.connect(1); w.connect(2); w.connect(3);
            auto get = [&](int k) { return k < 2 ? w.e[k].c : connection(); };
            auto gone = [&](int k) { if (k < 2 && w.e[k].conn) w.unlist(k); };
            {
                std::unique_ptr<scoped_connection> a(new scoped_connection(get(sa))), b(new scoped_connection(get(sb)));
                if (sa == sb && sa < 2) { a->release(); b->release(); return; }
                switch (op)
                {
                case 0: a.reset(); gone(sa); w.check(); break;
                case 1: { std::unique_ptr<scoped_connection> x(new scoped_connection(std::move(*a))); w.check(); a.reset(); w.check(); x.reset(); gone(sa); w.check(); break; }
                case 2: *a = std::move(*b); gone(sa); w.check(); b.reset(); w.check(); a.reset(); gone(sb); w.check(); break;
                case 3: a->swap(*b); w.check(); a.reset(); gone(sb); w.check(); break;
                case 5: swap(*a, *b); w.check(); a.reset(); gone(sb); w.check(); break;
                case 4: { connection c = a->release(); w.check(); a.reset(); w.check(); REQUIRE(c.connected() == (sa < 2), "C11 C18", "the released connection is not connected"); break; }
                case 6: *a = scoped_connection(); gone(sa); w.check(); break;
                case 7: *a = scoped_connection(w.e[2].c); gone(sa); w.check(); *a = scoped_connection(); gone(2); if (!w.e[2].conn) {} w.unlist(2); w.check(); break;
                case 8: { scoped_connection x(std::move(*a)); scoped_connection y(std::move(x)); w.check(); REQUIRE(y.connected() == (sa < 2), "C11 C18", "a moved scoped connection lost its slot"); y.release(); sa = 2 + 0 * sa; w.check(); break; }
                }
                bool ga = (op == 0 || op == 1 || op == 4);
                if (a) a->release();
                if (b) b->release();
                (void)ga;
            }
            w.check();
            w.drain();
        });
    }
    // blockers
    for (int op = 0; op < 9; ++op) for (int sa = 0; sa < 3; ++sa) for (int sb = 0; sb < 3; ++sb)
    {
        static const char* N[] = { "ends", "is moved, target ends", "is move-assigned from other", "swaps with other, ends", "is assigned from a new blocker", "free swap", "is copied", "outlives the slot", "is assigned from other (copy)" };
        each("C10 C18", std::string("blocker (") + "ab-"[sa] + ", other " + "ab-"[sb] + ") " + N[op], [&]
        {
            g_ctx = "C10";
            if (sa == sb && sa < 2) return;
            World w;
            w.connect(1); w.connect(2); w.connect(3);
            auto mk = [&](int k) { return std::unique_ptr<connection_blocker>(k < 2 ? new connection_blocker(w.e[k].c.blocker()) : new connection_blocker()); };
            auto set = [&](int k, bool b) { if (k < 2 && w.e[k].listed) w.e[k].blocked = b; };
            auto a = mk(sa), b = mk(sb);
            set(sa, true); set(sb, true);
            w.check();
            switch (op)
            {
            case 0: a.reset(); set(sa, false); w.check(); break;
            case 1: { std::unique_ptr<connection_blocker> x(new connection_blocker(std::move(*a))); w.check(); a.reset(); w.check(); x.reset(); set(sa, false); w.check(); break; }
            case 2: *a = std::move(*b); set(sa, false); w.check(); b.reset(); w.check(); a.reset(); set(sb, false); w.check(); break;
            case 3: a->swap(*b); w.check(); a.reset(); set(sb, false); w.check(); b.reset(); set(sa, false); w.check(); break;
            case 4: { auto x = mk(2); *x = w.e[2].c.blocker(); set(2, true); w.e[2].blocked = true; w.check(); *x = connection_blocker(); w.e[2].blocked = false; w.check(); break; }
            case 5: swap(*a, *b); w.check(); a.reset(); set(sb, false); w.check(); break;
            case 6: w.check(); break;
            case 7: if (sa < 2) { w.e[sa].c.disconnect(); w.unlist(sa); w.e[sa].blocked = false; } w.check(); a.reset(); w.check(); break;
            case 8: *a = std::move(*b); set(sa, false); *a = connection_blocker(); set(sb, false); w.check(); break;
            }
            a.reset(); b.reset();
            for (auto& x : w.e) x.blocked = false;
            w.check();
            w.drain();
        });
    }
}

// ---------------------------------------------------------------- F6: slots as values
struct NoCmp { int operator()(Val v, int& r) { g_log.push_back({ 903, v.v, &r }); return 1; } };
struct Other { int key; int operator()(Val, int&) { return 0; } bool operator==(const Other& o) const { return key == o.key; } };
static std::shared_ptr<Obj> g_o1, g_o2;
static Slot mk(int k)
{
    switch (k)
    {
    case 0: return Slot();
    case 1: return Slot(Fn(1, 1));
    case 2: return Slot(Fn(2, 2));
    case 3: return Slot(&free_a);
    case 4: return Slot(&free_b);
    case 5: return Slot(&Obj::m, g_o1.get());
    case 6: return Slot(&Obj::m, g_o2.get());
    case 7: return Slot(Other{ 1 });
    default: { const Fn f(1, 1); return Slot(f); }
    }
}
static int idof(int k) { static int t[] = { 0, 1, 2, 901, 902, 31, 32, 0, 1 }; return t[k]; }
static int callslot(Slot& s, bool& has)
{
    g_log.clear();
    int r = 0;
    auto o = s(Val(3), r);
    has = o.has_value();
    return g_log.empty() ? 0 : g_log.back().id;
}
static void slots()
{
    g_o1 = std::make_shared<Obj>(31);
    g_o2 = std::make_shared<Obj>(32);
    static const char* KN[] = { "empty", "functor 1", "functor 2", "function a", "function b", "member of object 1", "member of object 2", "other functor 1", "functor 1 (const)" };
    const int NK = 9;
    for (int a = 0; a < NK; ++a) for (int b = 0; b < NK; ++b)
    {
        // equality
        each("C14 C13", std::string("compare slots: ") + KN[a] + ", " + KN[b], [&]
        {
            Slot x = mk(a), y = mk(b);
            bool same = a == b || (a == 1 && b == 8) || (a == 8 && b == 1);
            g_log.clear();
            bool eq = x == y, ne = x != y;
            REQUIRE(x == x && !(x != x), "C14", "a slot differs from itself");
            REQUIRE(eq == same, "C14", "slots compare equal: " << eq);
            REQUIRE(ne == !same, "C14", "slots compare unequal: " << ne);
            REQUIRE(g_log.empty(), "C14", "comparing calls a slot");
            x.block();
            if (a && b) REQUIRE((x == y) == same, "C14", "equality depends on the slot's state");
        });
        for (int blk = 0; blk < 2; ++blk) for (int op = 0; op < 5; ++op)
        {
            static const char* ON[] = { "copy", "move", "assign", "move assign", "self assign" };
            static const char* BN[] = { "", " blocked", " disconnected" };
            if (op < 2 && b) continue;
            each("C13", std::string("slot ") + KN[a] + BN[blk] + " " + ON[op] + (op >= 2 ? std::string(" to ") + KN[b] : ""), [&]
            {
                std::size_t base = live().size();
                {
                    Slot x = mk(a);
                    if (a && blk == 1) x.block();
                    if (a && blk == 2) x.disconnect();
                    std::unique_ptr<Slot> y;
                    switch (op)
                    {
                    case 0: y.reset(new Slot(x)); break;
                    case 1: y.reset(new Slot(std::move(x))); break;
                    case 2: y.reset(new Slot(mk(b))); *y = x; break;
                    case 3: y.reset(new Slot(mk(b))); *y = std::move(x); break;
                    case 4: y.reset(new Slot(mk(a))); { Slot& z = x; x = z; } break;
                    }
                    auto is = [&](Slot& s, int k, int st, const char* what)
                    {
                        REQUIRE(bool(s) == (k != 0), "C13", what << " holds a callable: " << bool(s));
                        bool h;
                        int id = callslot(s, h);
                        int want = st ? 0 : idof(k);
                        if (k == 7) { REQUIRE(h == !st, "C13", what << " yields a value: " << h); return; }
                        REQUIRE(id == want, "C13", what << " calls " << id << " instead of " << want);
                        REQUIRE(h == (want != 0), "C13", what << " yields a value: " << h);
                        if (k) REQUIRE(s.blocked() == (st == 1), "C13", what << " blocked: " << s.blocked());
                        if (k) REQUIRE(s.connected() == (st != 2), "C13", what << " connected: " << s.connected());
                    };
                    bool moved = op == 1 || op == 3;
                    if (op == 4) is(*y, a, 0, "an unrelated slot");
                    else is(*y, a, a ? blk : 0, "the target");
                    is(x, moved ? 0 : a, moved ? 0 : (a ? blk : 0), "the source");
                    // independent state
                    if (!moved && a && op != 4) { y->block(); REQUIRE(x.blocked() == (blk == 1), "C13", "a copy shares its state"); y->unblock(); }
                    if (moved) { Slot z(x); *y = x; REQUIRE(!z && !*y, "C13", "a copy of an empty slot is not empty"); }
                }
                REQUIRE(live().size() == base, "C13 C20", "callables are lost or duplicated: " << (long)live().size() - (long)base);
            });
        }
    }
    each("C14", "compare functors that cannot be compared", [&]
    {
        Slot x{ NoCmp() }, y{ NoCmp() };
        int t = 0;
        try { bool r = x == y; (void)r; } catch (std::exception&) { ++t; }
        try { bool r = x != y; (void)r; } catch (std::exception&) { ++t; }
        try { bool r = x == x; (void)r; } catch (std::exception&) { ++t; }
        try { bool r = x != x; (void)r; } catch (std::exception&) { ++t; }
        { Slot c(x); try { bool r = c == x; (void)r; } catch (std::exception&) { ++t; } }
        REQUIRE(t == 5, "C14", "an answer for callables that cannot be compared");
        Slot z{ Fn(1, 1) };
        REQUIRE(!(x == z) && !(z == x) && x != z, "C14", "callables of different type compare equal");
    });
    g_o1.reset(); g_o2.reset();
}

// ---------------------------------------------------------------- F8: tracked objects
static void tracking()
{
    for (int when = 0; when < 6; ++when) for (int kind = 0; kind < 2; ++kind)
    {
        static const char* W[] = { "before connecting another", "by an earlier slot", "by the slot itself", "after the emission", "by a later slot", "never" };
        each("C12 C01 C03", std::string("tracked object (") + (kind ? "weak" : "shared") + " pointer) dies " + W[when], [&]
        {
            Sig s;
            auto o = std::make_shared<Obj>(5);
            std::weak_ptr<Obj> wo = o;
            connection c0 = s.connect(Fn(1, 1));
            connection c = kind ? s.connect(Slot(&Obj::m, wo)) : s.connect(&Obj::m, o);
            connection c2 = s.connect(Fn(2, 2));
            REQUIRE(o.use_count() == 1, "C12", "a slot keeps its tracked object alive");
            if (when == 0) { o.reset(); s.connect(Fn(3, 3)); }
            g_action = [&](int id) { if ((when == 1 && id == 1) || (when == 2 && id == 5) || (when == 4 && id == 2)) o.reset(); };
            g_log.clear();
            int r = 0;
            auto res = s(Val(1), r);
            (void)res;
            g_action = nullptr;
            bool called = false;
            for (auto& x : g_log) called |= x.id == 5;
            REQUIRE(called == (when >= 2), "C12 C01", "the tracked slot was called: " << called);
            if (when == 3) o.reset();
            bool alive = when == 5;
            REQUIRE(wo.expired() == !alive, "C12", "the tracked object is kept alive");
            REQUIRE(c.connected() == alive, "C12 C18", "a slot whose object is gone reports connected=" << c.connected());
            g_log.clear();
            auto res2 = s(Val(1), r);
            (void)res2;
            called = false;
            for (auto& x : g_log) called |= x.id == 5;
            REQUIRE(called == alive, "C12", "a slot whose object is gone is called");
            // alone: no value
            c0.disconnect(); c2.disconnect(); s.disconnect(Fn(3, 0));
            auto res3 = s(Val(1), r);
            REQUIRE(res3.has_value() == alive, "C12 C03", "the slot yields a value: " << res3.has_value());
        });
    }
    // two slots tracking one object, and reuse of the memory
    each("C12", "two slots track one object which dies; a new object is tracked", [&]
    {
        Sig s;
        auto o = std::make_shared<Obj>(6);
        connection a = s.connect(&Obj::m, o), b = s.connect(&Obj::m, o);
        o.reset();
        auto p = std::make_shared<Obj>(7);
        connection d = s.connect(&Obj::m, p);
        g_log.clear();
        int r = 0;
        s(Val(1), r);
        REQUIRE(g_log.size() == 1 && g_log[0].id == 7, "C12", "slots of a dead object are called");
        REQUIRE(!a.connected() && !b.connected() && d.connected(), "C12 C18", "connected");
        Slot x(&Obj::m, p);
        Slot y(x);
        REQUIRE(p.use_count() == 1, "C12 C13", "slots keep the object alive");
        p.reset();
        bool h;
        REQUIRE(!callslot(x, h) && !h && !callslot(y, h) && !h, "C12 C13", "a slot calls a dead object");
        REQUIRE(!x.connected() && !y.connected(), "C12", "a slot whose object is gone is connected");
    });
}

// ---------------------------------------------------------------- F9: combiners
struct Collect
{
    using result_type = std::vector<int>;
    template<class It> result_type operator()(It f, It l) const
    {
        if (t_held) softfail("C07 C03", "a combiner runs while a lock is held");
        result_type r;
        for (; f != l; ++f) { auto x = *f; r.push_back(x ? *x : -1); }
        return r;
    }
};
struct Stop3
{
    using result_type = int;
    template<class It> int operator()(It f, It l) const
    {
        int n = 0;
        while (!(f == l)) { It g = f++; auto x = *g; if (x) n += *x; if (n > 25) break; }
        return n;
    }
};
struct Twice
{
    using result_type = int;
    template<class It> int operator()(It f, It l) const { int n = 0; for (; f != l; ++f) { It g(f); auto x = *f; auto y = *g; if (x && y) n += *x + *y; } return n; }
};
struct Again      // looks at the same iterator more than once: every look is a call
{
    using result_type = std::vector<int>;
    template<class It> result_type operator()(It f, It l) const
    {
        result_type r;
        for (; f != l; f++)
        {
            for (int i = 0; i < 3; ++i) { auto x = *f; r.push_back(x ? *x : -1); }
            It g(f);
            { auto x = *g; r.push_back(x ? *x : -1); }
            if (!(g == f) || g != f) softfail("C03", "a copied slot iterator differs from the original");
        }
        return r;
    }
};
static std::function<void()> g_before;
struct Acts       // something happens before the first slot is looked at
{
    using result_type = std::vector<int>;
    template<class It> result_type operator()(It f, It l) const
    {
        if (g_before) { auto b = g_before; b(); }
        result_type r;
        for (; f != l; ++f) { auto x = *f; r.push_back(x ? *x : -1); }
        return r;
    }
};
struct Thrower
{
    using result_type = int;
    template<class It> int operator()(It f, It l) const { if (f != l) *f; throw Boom{ ++g_boom }; }
};
struct SumVoid
{
    using result_type = int;
    template<class It> int operator()(It f, It l) const { int n = 0; for (; f != l; ++f) { auto x = *f; n += 1 + (x.has_value() ? 100 : 0); } return n; }
};
struct Default7
{
    using result_type = int;
    template<class It> int operator()(It f, It l) const { int n = 7; for (; f != l; ++f) { auto x = *f; n += x ? 100 : 10; } return n; }
};
template<class S> static void of_nothing(const char* sn)
{
    for (int n = 0; n < 3; ++n) for (int how = 0; how < 4; ++how)
        each("C03", std::string("a combiner over ") + std::to_string(n) + " slots (" + (how == 0 ? "active" : how == 1 ? "blocked" : how == 2 ? "disconnected before" : "of destroyed objects") + ") of a signal " + sn, [&]
        {
            S s;
            std::vector<std::shared_ptr<Obj>> os;
            for (int i = 0; i < n; ++i)
            {
                os.push_back(std::make_shared<Obj>(i + 1));
                connection c = s.connect(&Obj::m, os[i]);
                if (how == 1) c.block();
                if (how == 2) c.disconnect();
            }
            if (how == 3) os.clear();
            int r = 0;
            int got = s(Val(7), r);
            int each_ = how == 0 ? 100 : 10;
            REQUIRE(got == 7 + (how == 2 ? 0 : n * each_), "C03", "the emission returned " << got);
        });
}
static void combiners()
{
    of_nothing<sig::signal<int(Val, int&), Default7>>("int(Val, int&)");
    for (int n = 0; n < 4; ++n) for (int mask = 0; mask < (1 << n); ++mask) for (int dmask = 0; dmask < (1 << n); ++dmask)
        each("C03 C01 C02", "combiner over " + std::to_string(n) + " slots, blocked mask " + std::to_string(mask) + ", disconnected tracked mask " + std::to_string(dmask), [&]
        {
            sig::signal<int(Val, int&), Collect> s;
            std::vector<std::shared_ptr<Obj>> os;
            for (int i = 0; i < n; ++i)
            {
                os.push_back(std::make_shared<Obj>(i + 1));
                connection c = s.connect(&Obj::m, os[i]);
                if (mask >> i & 1) c.block();
            }
            std::vector<int> want;
            for (int i = 0; i < n; ++i) { if (dmask >> i & 1) os[i].reset(); want.push_back((mask >> i & 1) || (dmask >> i & 1) ? -1 : (i + 1) * 10 + 1); }
            int r = 0;
            auto got = s(Val(7), r);
            REQUIRE(got == want, "C03", "the combiner saw " << World::str(got) << " instead of " << World::str(want));
        });
    for (int n = 0; n < 4; ++n) for (int mask = 0; mask < (1 << n); ++mask)
        each("C03 C02", "a combiner that looks four times at each of " + std::to_string(n) + " slots, blocked mask " + std::to_string(mask), [&]
        {
            g_log.clear();
            sig::signal<int(Val, int&), Again> s;
            std::vector<int> want;
            for (int i = 0; i < n; ++i)
            {
                connection c = s.connect(Fn(i + 1, i + 1));
                if (mask >> i & 1) c.block();
                for (int k = 0; k < 4; ++k) want.push_back(mask >> i & 1 ? -1 : (i + 1) * 10 + 1);
            }
            int r = 0, live = 0;
            for (int i = 0; i < n; ++i) live += !(mask >> i & 1);
            auto got = s(Val(7), r);
            REQUIRE(got == want, "C03", "the combiner saw " << World::str(got) << " instead of " << World::str(want));
            REQUIRE((int)g_log.size() == 4 * live, "C03", "the slots were called " << g_log.size() << " times for " << 4 * live << " looks");
            for (auto& c : g_log) REQUIRE(c.arg == 7, "C02", "slot received " << c.arg);
        });
    for (int n = 0; n < 4; ++n) for (int o = 0; o < 4; ++o)
        each("C08 C06 C10 C19", "a combiner that " + std::string(o == 0 ? "connects a slot" : o == 1 ? "disconnects the last slot by its callable" : o == 2 ? "blocks the last slot" : "destroys the signal") + " before it looks at the first of " + std::to_string(n) + " slots", [&]
        {
            std::unique_ptr<sig::signal<int(Val, int&), Acts>> s(new sig::signal<int(Val, int&), Acts>());
            std::vector<connection> cs;
            std::vector<int> want;
            for (int i = 0; i < n; ++i) { cs.push_back(s->connect(Fn(i + 1, i + 1))); want.push_back((i + 1) * 10 + 1); }
            g_before = [&] {
                if (o == 0) s->connect(Fn(9, 9));
                if (o == 1) s->disconnect(Fn(n, n));
                if (o == 2 && n) cs.back().block();
                if (o == 3) s.reset();
            };
            if (o == 1 || o == 2) if (n) want.back() = -1;
            if (o == 3) want.assign(n, -1);
            int r = 0;
            auto got = (*s)(Val(7), r);
            g_before = nullptr;
            REQUIRE(got == want, o == 0 ? "C08" : o == 1 ? "C06" : o == 2 ? "C10" : "C19", "the combiner saw " << World::str(got) << " instead of " << World::str(want));
        });
    each("C03 C02 C20 C07", "combiners that stop early, read twice, throw", [&]
    {
        g_log.clear();
        sig::signal<int(Val, int&), Stop3> a;
        for (int i = 1; i < 5; ++i) a.connect(Fn(i, i));
        int r = 0;
        int x = a(Val(4), r);
        REQUIRE(x == 11 + 21 && g_log.size() == 2, "C03", "a combiner that stops early got " << x << " from " << g_log.size() << " calls");
        g_log.clear();
        sig::signal<int(Val, int&), Twice> b;
        for (int i = 1; i < 4; ++i) b.connect(Fn(i, i));
        x = b(Val(4), r);
        REQUIRE(x == 2 * (11 + 21 + 31) && g_log.size() == 6, "C03", "a combiner that dereferences twice got " << x);
        for (auto& c : g_log) REQUIRE(c.arg == 4, "C02", "slot received " << c.arg);
        g_log.clear();
        sig::signal<int(Val, int&), Thrower> t;
        connection c = t.connect(Fn(1, 1));
        int b0 = g_boom;
        try { t(Val(4), r); REQUIRE(false, "C20", "no exception"); } catch (Boom& e) { REQUIRE(e.n == b0 + 1, "C20", "another exception"); }
        REQUIRE(t_held == 0 && c.connected(), "C20 C07", "the signal is damaged after an exception of the combiner");
        sig::signal<void(Val), SumVoid> v;
        int calls = 0;
        v.connect([&](Val q) { calls += q.v; });
        v.connect([&](Val q) { calls += q.v; });
        x = v(Val(3));
        REQUIRE(x == 2 && calls == 6, "C03 C01", "a void signal's combiner got " << x);
    });
    each("C03 C02", "signals with other result types", [&]
    {
        sig::signal<Val(int)> s;
        int r0 = 0;
        (void)r0;
        auto none = s(1);
        REQUIRE(!none, "C03", "a signal without slots yields a value");
        s.connect([](int i) { return Val(i + 1); });
        s.connect([](int i) { return Val(i + 2); });
        connection c = s.connect([](int i) { return Val(i + 3); });
        auto x = s(10);
        REQUIRE(x && x->v == 13, "C03", "the result is not the last slot's");
        c.block();
        x = s(10);
        REQUIRE(x && x->v == 12, "C03", "the result is not the last called slot's");
        sig::signal<void(Val, Val&, const Val&, std::unique_ptr<int>&)> t;
        std::vector<int> got;
        Val a(1), b(2), d(3);
        std::unique_ptr<int> p(new int(4));
        for (int i = 0; i < 3; ++i) t.connect([&](Val x1, Val& x2, const Val& x3, std::unique_ptr<int>& q) { REQUIRE(x1.v == 1 && &x2 == &b && &x3 == &d && &q == &p && *q == 4, "C02", "arguments differ for slot"); x1.v = 9; });
        t(a, b, d, p);
        REQUIRE(a.v == 1, "C02", "the emitter's argument was changed");
        t(std::move(a), b, d, p);
        sig::signal<std::string(std::string)> u;
        std::string seen;
        for (int i = 0; i < 3; ++i) u.connect([&](std::string q) { seen += q; std::string z = std::move(q); return z; });
        auto y = u(std::string("a longer string that is not stored inline"));
        REQUIRE(y && *y == "a longer string that is not stored inline" && seen.size() == 3 * y->size(), "C02 C03", "strings are lost between slots");
    });
}

// ---------------------------------------------------------------- F10: every kind of slot for other signatures
template<class R> struct Mk { static R of(int id) { return R(id * 10 + 1); } static int num(opt::optional<R>& o) { return get(*o); } static int get(int x) { return x; } static int get(const Val& v) { return v.v; } };
template<> struct Mk<void> { static void of(int) {} static int num(opt::optional<void>&) { return -1; } };
static const void* addr(const Val& v) { return nullptr; }
static int rd(const Val& v) { return v.v; }
static int rd(int v) { return v; }
static void spoil(Val& v) { v.v = -55; }
static void spoil(int& v) { v += 1; }
template<class... A> int sum(A&... a) { int t = 0; int x[] = { 0, (t = t * 100 + rd(a))... }; (void)x; return t; }
template<class... A> void spoilall(A&... a) { int x[] = { 0, (spoil(a), 0)... }; (void)x; }
template<class F> struct GFn;
template<class F> struct GObj;
static int g_arg;
static void ran(int id, int arg)
{
    if (t_held) softfail("C07", "a slot is called while a lock is held");
    g_log.push_back({ id, arg, nullptr });
    if (g_action) { auto f = g_action; f(id); }
}
template<class R, class... A> struct GFn<R(A...)>
{
    int key, id;
    GFn(int k, int i) : key(k), id(i) { born(this); }
    GFn(const GFn& o) : key((used(&o), o.key)), id(o.id) { userop(); born(this); }
    GFn(GFn&& o) : key((used(&o), o.key)), id(o.id) { userop(); born(this); o.id = -1; }
    ~GFn() { dead(this); }
    bool operator==(const GFn& o) const { used(this); used(&o); return key == o.key; }
    R operator()(A... a) { used(this); ran(id, sum(a...)); spoilall(a...); return Mk<R>::of(id); }
};
template<class R, class... A> struct GObj<R(A...)>
{
    int id, magic = 0x1234;
    explicit GObj(int i) : id(i) {}
    GObj(const GObj& o) : id(o.id) { userop(); }
    ~GObj() { magic = 0; }
    bool operator==(const GObj& o) const { return id == o.id; }
    R m1(A... a) { if (magic != 0x1234) softfail("C12", "a member function is called on a dead object"); ran(id, sum(a...)); spoilall(a...); if (magic != 0x1234) softfail("C12", "a tracked object dies during its call"); return Mk<R>::of(id); }
    R m2(A... a) { if (magic != 0x1234) softfail("C12", "a member function is called on a dead object"); ran(id + 500, sum(a...)); spoilall(a...); return Mk<R>::of(id + 500); }
    R c1(A... a) const { ran(id + 700, sum(a...)); spoilall(a...); return Mk<R>::of(id + 700); }
};
template<class F> struct GFree;
template<class R, class... A> struct GFree<R(A...)>
{
    static R a(A... x) { ran(901, sum(x...)); spoilall(x...); return Mk<R>::of(901); }
    static R b(A... x) { ran(902, sum(x...)); spoilall(x...); return Mk<R>::of(902); }
};
template<class R> struct Conv { static bool has(opt::optional<R>& o) { return o.has_value(); } };

template<class F> struct GTest;
template<class R, class... A> struct GTest<R(A...)>
{
    using F = R(A...);
    using S = sig::signal<F>;
    using L = typename S::slot_type;
    using O = GObj<F>;
    enum { E, F1, F2, FA, FB, P11, P12, P21, R1, R2, V1, V2, C1, T11, T12, T21, W11, NK };
    std::shared_ptr<O> o1 = std::make_shared<O>(31), o2 = std::make_shared<O>(32);
    L mk(int k)
    {
        switch (k)
        {
        case F1: return L(GFn<F>(1, 1));
        case F2: { const GFn<F> f(2, 2); return L(f); }
        case FA: return L(&GFree<F>::a);
        case FB: return L(GFree<F>::b);
        case P11: return L(&O::m1, o1.get());
        case P12: return L(&O::m2, o1.get());
        case P21: return L(&O::m1, o2.get());
        case R1: return L(&O::m1, std::ref(*o1));
        case R2: return L(&O::m1, std::ref(*o2));
        case V1: return L(&O::m1, *o1);
        case V2: return L(&O::m1, *o2);
        case C1: return L(&O::c1, (const O*)o1.get());
        case T11: return L(&O::m1, o1);
        case T12: return L(&O::m2, o1);
        case T21: return L(&O::m1, o2);
        case W11: return L(&O::m1, std::weak_ptr<O>(o1));
        default: return L();
        }
    }
    static const char* nm(int k)
    {
        static const char* N[] = { "empty", "functor 1", "functor 2", "function a", "function b", "m1 of object 1", "m2 of object 1", "m1 of object 2", "m1 of ref(object 1)", "m1 of ref(object 2)", "m1 of a copy of object 1", "m1 of a copy of object 2", "const member of object 1", "m1 tracking object 1", "m2 tracking object 1", "m1 tracking object 2", "m1 tracking object 1 (weak)" };
        return N[k];
    }
    static int id(int k) { static int t[] = { 0, 1, 2, 901, 902, 31, 531, 32, 31, 32, 31, 32, 731, 31, 531, 32, 31 }; return t[k]; }
    static bool isref(int k) { return k == R1 || k == R2; }
    static bool istrk(int k) { return k >= T11 && k <= W11; }
    connection conn(S& s, int k)
    {
        switch (k)
        {
        case F1: return s.connect(GFn<F>(1, 1));
        case F2: { const GFn<F> f(2, 2); return s.connect(f); }
        case FA: return s.connect(&GFree<F>::a);
        case FB: return s.connect(GFree<F>::b);
        case P11: return s.connect(&O::m1, o1.get());
        case P12: return s.connect(&O::m2, o1.get());
        case P21: return s.connect(&O::m1, o2.get());
        case T11: return s.connect(&O::m1, o1);
        case T12: return s.connect(&O::m2, o1);
        case T21: return s.connect(&O::m1, o2);
        case E: return s.connect(L());
        default: return s.connect(mk(k));
        }
    }
    std::size_t disc(S& s, int k)
    {
        switch (k)
        {
        case F1: return s.disconnect(GFn<F>(1, 99));
        case F2: { GFn<F> f(2, 99); return s.disconnect(f); }
        case FA: return s.disconnect(&GFree<F>::a);
        case FB: return s.disconnect(GFree<F>::b);
        case P11: return s.disconnect(&O::m1, o1.get());
        case P12: return s.disconnect(&O::m2, o1.get());
        case P21: return s.disconnect(&O::m1, o2.get());
        default: return s.disconnect(mk(k));
        }
    }
    // calls a slot: which callable ran (0: none), whether there is a value, and which
    template<class X> void call(X&& x, std::vector<int>& ids, bool& has, int& num, const char* tags)
    {
        g_log.clear();
        int ri = 5;
        auto res = go(x, ri, static_cast<F*>(nullptr));
        has = res.has_value();
        num = has ? Mk<R>::num(res) : 0;
        ids.clear();
        for (auto& c : g_log) { ids.push_back(c.id); REQUIRE(c.arg == g_arg || !g_arg, tags, "callable " << c.id << " received " << c.arg << " instead of " << g_arg); }
    }
    template<class X> static opt::optional<void> goX(X& x, int, void (*)()) { g_arg = 0; x(); return {}; }
    template<class X> static opt::optional<R> go(X& x, int&, R (*)(Val)) { g_arg = 77; return x(Val(77)); }
    template<class X> static opt::optional<R> go(X& x, int&, R (*)(int)) { g_arg = 44; return x(44); }
    template<class X> static opt::optional<R> go(X& x, int&, R (*)()) { g_arg = 0; return x(); }
    template<class X> static opt::optional<R> go(X& x, int& r, R (*)(Val, int&)) { g_arg = 0; return x(Val(77), r); }
    template<class X> static opt::optional<R> go(X& x, int&, R (*)(int, Val)) { g_arg = 312; return x(3, Val(12)); }

    void run(const std::string& sg)
    {
        for (int a = 0; a < NK; ++a)
        {
            each("C13 C12 C02 C03 C04 C07", sg + ": slot with " + nm(a) + ": call, block, copy, move, connect, disconnect", [&]
            {
                auto expect = [&](L& l, int k, const char* tags)
                {
                    std::vector<int> ids; bool h; int n;
                    call(l, ids, h, n, "C02");
                    REQUIRE(ids.size() == (k ? 1u : 0u) && (!k || ids[0] == id(k)), tags, "the slot calls " << World::str(ids) << " instead of " << id(k));
                    bool val = k && !std::is_void<R>::value;
                    REQUIRE(h == val, tags, "the slot yields a value: " << h);
                    if (val) REQUIRE(n == id(k) * 10 + 1, "C03 C13", "the slot yields " << n);
                };
                L l = mk(a);
                expect(l, a, "C13 C04 C12");
                l.block();
                expect(l, 0, "C13 C10");
                L m(l), q;
                REQUIRE(m.blocked() == (a != 0), "C13", "a copy loses the blocked state");
                m.unblock();
                expect(l, 0, "C13"); expect(m, a, "C13");
                q = m;
                expect(q, a, "C13"); expect(m, a, "C13");
                L z(std::move(m));
                expect(z, a, "C13"); expect(m, 0, "C13");
                q = std::move(z);
                expect(q, a, "C13"); expect(z, 0, "C13");
                S s;
                connection c0 = s.connect(&GFree<F>::b), c = conn(s, a), c1 = s.connect(&GFree<F>::b);
                REQUIRE(c.connected() == (a != 0), "C04", "connected() is " << c.connected());
                std::vector<int> ids, want; bool h; int n;
                auto emission = [&](bool with, const char* tags)
                {
                    call(s, ids, h, n, "C02");
                    want.assign(1, 902); if (with && a) want.push_back(id(a)); want.push_back(902);
                    REQUIRE(ids == want, tags, "an emission called " << World::str(ids) << " instead of " << World::str(want));
                    REQUIRE(h == !std::is_void<R>::value, "C03", "the emission yields a value: " << h);
                };
                emission(true, "C01 C04 C13 C12");
                c.block(); emission(false, "C10 C01"); c.unblock(); emission(true, "C10 C01");
                if (istrk(a))
                {
                    auto o = a == T21 ? o2 : o1;
                    std::weak_ptr<O> w = o;
                    long uc = o.use_count();
                    REQUIRE(uc == 2, "C12", "slots keep their tracked object alive: " << uc);
                    // the object loses its last owner during its own call
                    auto& mem = a == T21 ? o2 : o1;
                    o.reset();
                    g_action = [&](int) { mem.reset(); };
                    call(q, ids, h, n, "C02");
                    g_action = nullptr;
                    REQUIRE(ids.size() == 1, "C12", "the tracked slot is not called");
                    REQUIRE(w.expired(), "C12", "the tracked object is kept alive");
                    REQUIRE(!c.connected() && !q.connected(), "C12 C18", "a slot whose object is gone is connected");
                    expect(q, 0, "C12");
                    emission(false, "C12");
                    mem = std::make_shared<O>(a == T21 ? 32 : 31);
                }
                else if (a)
                {
                    REQUIRE(c.disconnect() && !c.disconnect() && !c.connected(), "C05", "disconnect");
                    want.assign(2, 902);
                    call(s, ids, h, n, "C02");
                    REQUIRE(ids == want, "C05 C01", "an emission called " << World::str(ids));
                }
            });
            for (int b = 0; b < NK; ++b)
            {
                each("C14 C06", sg + ": compare and disconnect " + nm(a) + " with " + nm(b), [&]
                {
                    L x = mk(a), y = mk(b);
                    // callables that can be compared
                    bool cmp = true, same = a == b;
                    if (isref(a) && isref(b)) return;              // whether reference wrappers compare depends on the standard library
                    if (istrk(a) && istrk(b)) cmp = false;         // weak pointers cannot be compared
                    g_log.clear();
                    bool threw = false, eq = false, ne = false;
                    try { eq = x == y; ne = x != y; } catch (sig::not_comparable_exception&) { threw = true; }
                    if (!cmp) { REQUIRE(threw, "C14", "an answer for slots that cannot be compared"); return; }
                    REQUIRE(!threw, "C14", "no answer for slots that can be compared");
                    REQUIRE(eq == same && ne == !same, "C14", "slots compare equal: " << eq << ", unequal: " << ne);
                    REQUIRE(g_log.empty(), "C14", "comparing calls a slot");
                    if (!a || !b || istrk(a) || istrk(b) || isref(a) || isref(b)) return;
                    S s;
                    connection c0 = conn(s, a), c1 = conn(s, b), c2 = conn(s, a);
                    std::size_t n = disc(s, b), w = same ? 3 : 1;
                    REQUIRE(n == w, "C06 C14", "disconnect(" << nm(b) << ") removed " << n << " instead of " << w);
                    REQUIRE(c0.connected() == !same && !c1.connected() && c2.connected() == !same, "C06", "other slots are removed");
                    n = disc(s, a);
                    REQUIRE(n == 3 - w, "C06", "disconnect(" << nm(a) << ") removed " << n << " instead of " << 3 - w);
                    std::vector<int> ids; bool h; int k;
                    call(s, ids, h, k, "C02");
                    REQUIRE(ids.empty() && !h, "C06 C01 C03", "removed slots are called");
                });
            }
        }
    }
};
struct Rv { int v; };
static void signatures()
{
    GTest<void(Val)>().run("void(Val)");
    GTest<Val(int)>().run("Val(int)");
    GTest<int(Val, int&)>().run("int(Val, int&)");
    GTest<void()>().run("void()");
    GTest<int(int, Val)>().run("int(int, Val)");
    GTest<void(Val, int&)>().run("void(Val, int&)");
    each("C02 C13 C03", "rvalue-reference, const-reference, pointer and move-only arguments", [&]
    {
        sig::signal<void(Rv&&, const Rv&, Rv*)> s;
        Rv a{ 1 }, b{ 2 }, d{ 3 };
        int calls = 0;
        for (int i = 0; i < 3; ++i) s.connect([&](Rv&& x, const Rv& y, Rv* z) { ++calls; REQUIRE(&x == &a && &y == &b && z == &d, "C02", "a reference argument refers to another object"); });
        s(std::move(a), b, &d);
        REQUIRE(calls == 3, "C01 C02", "calls");
        sig::signal<int(std::unique_ptr<int>)> t;
        t.connect([](std::unique_ptr<int> p) { return p ? *p : -1; });
        auto r = t(std::unique_ptr<int>(new int(7)));
        REQUIRE(r && *r == 7, "C02 C03", "a move-only argument is lost");
    });
    each("C03 C13 C12", "pointers to member data", [&]
    {
        struct D { int v = 5; std::string t = "a string that is longer than the inline buffer"; };
        auto d = std::make_shared<D>();
        sig::signal<int()> s;
        s.connect(&D::v, d.get());
        auto r = s();
        REQUIRE(r && *r == 5, "C03 C13", "member data slot");
        d->v = 6;
        r = s();
        REQUIRE(r && *r == 6, "C03 C13", "member data slot sees a copy");
        sig::signal<std::string()> u;
        connection c = u.connect(&D::t, d);
        auto x = u(), y = u();
        REQUIRE(x && y && *x == d->t && *y == *x, "C03 C13 C12", "tracked member data slot");
        REQUIRE(d.use_count() == 1, "C12", "the slot keeps its object alive");
        d.reset();
        x = u();
        REQUIRE(!x && !c.connected(), "C12", "the slot reads a dead object");
        struct Base { int m(int i) { return i + 1; } virtual int w(int i) { return i + 2; } virtual ~Base() = default; };
        struct Derived : Base { int w(int i) override { return i + 3; } };
        sig::signal<int(int)> q;
        Derived o;
        auto p = std::make_shared<Derived>();
        q.connect(&Base::m, &o);
        r = q(1);
        REQUIRE(r && *r == 2, "C03 C13", "member of a base class");
        q.connect(&Base::w, &o);
        r = q(1);
        REQUIRE(r && *r == 4, "C03 C13", "virtual member");
        q.connect(&Base::w, p);
        r = q(2);
        REQUIRE(r && *r == 5, "C03 C13 C12", "virtual member of a tracked object");
        p.reset();
        r = q(1);
        REQUIRE(r && *r == 4, "C03 C12", "a dead tracked object yields a value");
    });
    for (int n = 0; n < 3; ++n)
        each("C03", "custom combiner of a void signal over " + std::to_string(n) + " slots: every iterator operation", [&]
        {
            struct It
            {
                using result_type = int;
                int operator()(typename sig::detail::slot_iterator<void, sig::signal<void(Val)>::list_iterator, Val> f, typename sig::detail::slot_iterator<void, sig::signal<void(Val)>::list_iterator, Val> l) const
                {
                    int k = 0;
                    while (!(f == l))
                    {
                        auto g = f;
                        REQUIRE(g == f && !(g != f), "C03", "a copied iterator differs");
                        g_log.clear();
                        auto old = f++;
                        REQUIRE(old == g && g_log.empty(), "C03", "it++");
                        ++g;
                        REQUIRE(g == f, "C03", "++it");
                        *old;
                        REQUIRE(g_log.size() == 1 && g_log[0].id == k + 1, "C03", "dereferencing calls another slot");
                        ++k;
                    }
                    return k;
                }
            };
            sig::signal<void(Val), It> s;
            for (int i = 0; i < n; ++i) s.connect(GFn<void(Val)>(i, i + 1));
            int k = s(Val(3));
            REQUIRE(k == n, "C03", "the combiner visits " << k << " slots");
        });
}

// ---------------------------------------------------------------- F11: scale
static std::vector<int> emitted(Sig& s)
{
    g_log.clear();
    int r = 0;
    auto res = s(Val(1), r);
    std::vector<int> v;
    for (auto& c : g_log) v.push_back(c.id);
    REQUIRE(res.has_value() == !v.empty() && (v.empty() || *res == v.back() * 10 + 1), "C03", "the result is not the last slot's");
    REQUIRE(r == (int)v.size(), "C02", "a reference argument is not shared by the slots");
    return v;
}
// removing a slot may change the order of the others
static std::vector<int> sorted(std::vector<int> v) { std::sort(v.begin(), v.end()); return v; }
static void scale()
{
    each("C01 C04 C18", "connecting 140 slots one by one, an emission after each", [&]
    {
        Sig s;
        std::vector<int> want;
        std::vector<connection> cs;
        for (int i = 1; i <= 140; ++i)
        {
            cs.push_back(i % 3 ? s.connect(Fn(i % 7, i)) : s.connect(Slot(Fn(i % 7, i))));
            want.push_back(i);
            auto got = emitted(s);
            REQUIRE(got == want, "C01 C04", "with " << i << " slots an emission called " << World::str(got));
            for (auto& c : cs) REQUIRE(c.connected(), "C18 C04", "a slot is not connected");
        }
    });
    static const int NS[] = { 5, 9, 17, 33, 41, 65, 100, 129, 257 };
    for (int n : NS) for (int how = 0; how < 6; ++how)
    {
        static const char* HN[] = { "front to back", "back to front", "every second", "by key", "by scoped handles", "random" };
        each("C05 C06 C01 C18 C11 C20", std::to_string(n) + " slots are removed " + HN[how], [&]
        {
            std::unique_ptr<Sig> s(new Sig);
            std::vector<int> want;
            std::vector<connection> cs;
            std::vector<scoped_connection> sc;
            for (int i = 1; i <= n; ++i) { cs.push_back(s->connect(Fn(i % 5, i))); want.push_back(i); if (how == 4) sc.emplace_back(cs.back()); }
            auto check = [&](const char* tags)
            {
                auto got = sorted(emitted(*s));
                REQUIRE(got == want, tags, "an emission called " << World::str(got) << " instead of " << World::str(want));
                for (int i = 1; i <= n; ++i)
                {
                    bool in = std::find(want.begin(), want.end(), i) != want.end();
                    REQUIRE(cs[i - 1].connected() == in, "C18 C05 C06 C11", "slot " << i << " reports connected=" << cs[i - 1].connected());
                }
            };
            auto drop = [&](int i)
            {
                auto it = std::find(want.begin(), want.end(), i);
                bool in = it != want.end();
                if (in) want.erase(it);
                if (how == 4) { sc[i - 1] = scoped_connection(); return; }
                REQUIRE(cs[i - 1].disconnect() == in, "C05", "disconnect of slot " << i << " did not return " << in);
            };
            int step = n > 70 ? n / 23 : 1;
            if (how == 0) for (int i = 1; i <= n; ++i) { drop(i); if (i % step == 0) check("C05 C01"); }
            if (how == 1) for (int i = n; i >= 1; --i) { drop(i); if (i % step == 0) check("C05 C01"); }
            if (how == 2) { for (int i = 2; i <= n; i += 2) drop(i); check("C05 C01"); for (int i = n; i >= 1; --i) drop(i); check("C05 C01"); }
            if (how == 3) for (int k = 0; k < 5; ++k)
            {
                std::size_t c = 0;
                for (int i = 1; i <= n; ++i) if (i % 5 == k) { want.erase(std::find(want.begin(), want.end(), i)); ++c; }
                std::size_t r = s->disconnect(Fn(k, 0));
                REQUIRE(r == c, "C06", "disconnect removed " << r << " instead of " << c);
                check("C06 C01");
            }
            if (how >= 4) for (int i = 0; i < 3 * n; ++i) { drop(1 + rnd(n)); if (i % (3 * step) == 0) check(how == 4 ? "C11 C01" : "C05 C01"); }
            check("C05 C06 C11 C01");
            cs.push_back(s->connect(Fn(1, n + 1)));
            want.push_back(n + 1);
            check("C04 C01");
            s.reset();
            for (auto& c : cs) REQUIRE(!c.connected() && !c.disconnect(), "C05 C18 C19", "a slot of a dead signal is connected");
        });
    }
    each("C05 C04 C18", "66000 slots: the last, the first and one in the middle are removed", [&]
    {
        Sig s;
        connection a, m, z;
        for (int i = 0; i < 66000; ++i)
        {
            connection c = s.connect(&free_a);
            if (i == 0) a = c;
            if (i == 33000) m = c;
            z = c;
        }
        REQUIRE(z.disconnect() && !z.disconnect(), "C05", "the last slot of many cannot be disconnected");
        REQUIRE(a.disconnect() && !a.disconnect(), "C05", "the first slot of many cannot be disconnected");
        REQUIRE(m.connected() && m.disconnect() && !m.connected(), "C05 C18", "a slot of many cannot be disconnected");
        REQUIRE(s.disconnect(&free_a) == 66000 - 3, "C05 C06", "slots are lost");
    });
    for (int d : { 2, 5, 17, 33, 65, 129, 300 })
        each("C01 C07 C03", "an emission nested " + std::to_string(d) + " deep", [&]
        {
            Sig s;
            int depth = 0;
            std::vector<int> order;
            bool bad = false;
            s.connect(Fn(1, 1));
            s.connect(Fn(2, 2));
            s.connect(Fn(3, 3));
            g_action = [&](int id)
            {
                order.push_back(id);
                if (id == 2 && ++depth < d) { int r = 0; auto x = s(Val(depth), r); bad |= !x || *x != 31 || r != 3; }
            };
            int r = 0;
            g_log.clear();
            auto x = s(Val(0), r);
            g_action = nullptr;
            REQUIRE(x && *x == 31 && r == 3 && !bad, "C01 C03 C02", "a nested emission yields another result");
            std::vector<int> want;
            for (int i = 0; i < d; ++i) { want.push_back(1); want.push_back(2); }
            for (int i = 0; i < d; ++i) want.push_back(3);
            REQUIRE(order == want, "C01", "a nested emission called " << order.size() << " slots instead of " << want.size());
            order.clear();
            depth = d;
            g_action = [&](int id) { order.push_back(id); };
            emitted(s);
            g_action = nullptr;
            REQUIRE(order == (std::vector<int>{ 1, 2, 3 }), "C01", "an emission after a nested one called " << World::str(order));
        });
    each("C01 C04 C05 C10 C18", "70000 rounds of connecting, blocking, emitting and disconnecting", [&]
    {
        Sig s;
        connection keep = s.connect(&free_b);
        int r = 0;
        for (int i = 0; i < 70000; ++i)
        {
            connection c = s.connect(&free_a);
            g_log.clear();
            if (i % 16 == 0) { c.block(); s(Val(1), r); REQUIRE(g_log.size() == 1 && g_log[0].id == 902, "C10 C01", "a blocked slot is called in round " << i); c.unblock(); g_log.clear(); }
            if (i % 16 == 0) { s(Val(1), r); REQUIRE(g_log.size() == 2 && g_log[0].id == 902 && g_log[1].id == 901, "C01 C04", "an emission called " << g_log.size() << " slots in round " << i); }
            REQUIRE(c.connected() && c.disconnect() && !c.connected() && !c.disconnect(), "C05 C18", "disconnect in round " << i);
        }
        g_log.clear();
        REQUIRE(keep.connected(), "C18 C05", "another slot was removed");
    });
    each("C01 C20 C07", "70000 emissions, some of which throw", [&]
    {
        Sig s;
        int n = 0;
        s.connect([&](Val, int&) { ++n; return 1; });
        s.connect([&](Val v, int&) { if (v.v == 1) throw Boom{ 1 }; ++n; return 2; });
        int r = 0;
        for (int i = 0; i < 70000; ++i)
        {
            n = 0;
            bool t = i % 257 == 0, thrown = false;
            try { s(Val(t ? 1 : 0), r); } catch (Boom&) { thrown = true; }
            REQUIRE(thrown == t && n == (t ? 1 : 2), "C01 C20", "emission " << i << " made " << n << " calls");
        }
    });
}

// ---------------------------------------------------------------- F12: moved and assigned signals
static void lifetimes()
{
    for (int n : { 0, 1, 2, 3, 40, 70 }) for (int how = 0; how < 6; ++how)
    {
        static const char* HN[] = { "itself (move assignment)", "a new signal", "an empty signal", "a signal with slots", "a signal and back", "a signal while slots are blocked" };
        g_hangtags = "C07 C19";
        each("C19 C18 C01 C04 C05 C07", "a signal with " + std::to_string(n) + " slots is moved to " + HN[how], [&]
        {
            Sig s, t;
            std::vector<int> want;
            std::vector<connection> cs, ts;
            for (int i = 1; i <= n; ++i) { cs.push_back(s.connect(Fn(i % 5, i))); want.push_back(i); }
            if (how == 3 || how == 4) for (int i = 1; i <= 3; ++i) ts.push_back(t.connect(Fn(7, 500 + i)));
            if (how == 5) for (auto& c : cs) c.block();
            Sig* h = &t;
            std::unique_ptr<Sig> u;
            switch (how)
            {
            case 0: { Sig& x = s; s = std::move(x); h = &s; break; }
            case 1: u.reset(new Sig(std::move(s))); h = u.get(); break;
            case 4: t = std::move(s); s = std::move(t); h = &s; break;
            default: t = std::move(s); break;
            }
            if (how == 5) { REQUIRE(emitted(*h).empty(), "C19 C10 C18", "moving a signal unblocks its slots"); for (auto& c : cs) { REQUIRE(c.blocked(), "C19 C10 C18", "blocked"); c.unblock(); } }
            auto got = emitted(*h);
            REQUIRE(got == want, "C19 C01", "the moved signal called " << World::str(got) << " instead of " << World::str(want));
            for (auto& c : cs) REQUIRE(c.connected(), "C19 C18", "a moved slot is not connected");
            for (auto& c : ts) REQUIRE(!c.connected() && !c.disconnect(), "C19 C18", "a slot of an assigned-over signal is connected");
            if (h != &s) { REQUIRE(emitted(s).empty(), "C19", "the source of a move still has slots"); connection c = s.connect(Fn(1, 900)); REQUIRE(emitted(s) == std::vector<int>{ 900 } && c.disconnect(), "C19", "the source of a move cannot be used again"); }
            connection c = h->connect(Fn(1, 901));
            want.push_back(901);
            REQUIRE(emitted(*h) == want, "C19 C04", "the target of a move cannot be connected");
            for (std::size_t i = 0; i < cs.size(); ++i) { REQUIRE(cs[i].disconnect(), "C19 C05", "a moved slot cannot be disconnected"); want.erase(want.begin()); if (i < 4) REQUIRE(sorted(emitted(*h)) == want, "C19 C05", "disconnecting a moved slot"); }
            REQUIRE(h->disconnect(Fn(1, 0)) == 1 && !c.connected(), "C19 C06", "disconnect after a move");
        });
        g_hangtags = "C07";
    }
}

// tracking slots, alive or dead, in signals that are moved: their connections work on the target only
static void moved_tracking()
{
    for (int dead = 0; dead < 8; ++dead) for (int how = 0; how < 3; ++how) for (int blk = 0; blk < 2; ++blk)
        each("C19 C05 C18", std::string("a signal with 3 tracking slots is moved (") + (how == 0 ? "constructor" : how == 1 ? "assignment" : "twice") + "), dead objects mask " + std::to_string(dead) + (blk ? ", blocked" : "") + ", the source destroyed, then the connections are disconnected", [&]
        {
            std::unique_ptr<Sig> s(new Sig), t;
            std::vector<std::shared_ptr<Obj>> os;
            std::vector<connection> cs;
            for (int i = 0; i < 3; ++i) { os.push_back(std::make_shared<Obj>(i + 1)); cs.push_back(s->connect(&Obj::m, os[i])); if (blk) cs[i].block(); }
            for (int i = 0; i < 3; ++i) if (dead >> i & 1) os[i].reset();
            if (how == 0) t.reset(new Sig(std::move(*s)));
            else { t.reset(new Sig); *t = std::move(*s); if (how == 2) { std::unique_ptr<Sig> u(new Sig(std::move(*t))); t = std::move(u); } }
            s.reset();
            for (int i = 0; i < 3; ++i) REQUIRE(cs[i].valid() && cs[i].connected() == !(dead >> i & 1) && cs[i].blocked() == !!blk, "C19 C18", "a handle of a moved slot is wrong");
            for (int i = 0; i < 3; ++i) { cs[i].unblock(); (void)cs[i].disconnect(); REQUIRE(!cs[i].connected() && !cs[i].disconnect(), "C19 C05 C18", "a moved slot is not disconnected"); }
            g_log.clear();
            int r = 0;
            (void)(*t)(Val(2), r);
            REQUIRE(g_log.empty(), "C19 C05", "a disconnected slot of a moved signal is called");
            for (int i = 0; i < 3; ++i) REQUIRE(!cs[i].valid(), "C19 C05 C18", "a disconnected slot of a moved signal is kept");
        });
}
// a slot object whose tracked object is gone is connected like any other (and never called)
// exceptions of every kind pass through, whoever throws them
static int g_raise_at = -1;                       // 0 call, 1 argument copy, 2 callable copy, 3 comparison, 4 combiner
static std::function<void()> g_raise;
static void raise_at(int w) { if (g_raise_at == w && g_raise) g_raise(); }
struct RArg { RArg() {} RArg(const RArg&) { raise_at(1); } RArg(RArg&&) {} };
struct RFn
{
    int id; int* calls;
    RFn(int i, int* c) : id(i), calls(c) {}
    RFn(const RFn& o) : id(o.id), calls(o.calls) { raise_at(2); }
    RFn(RFn&& o) : id(o.id), calls(o.calls) {}
    int operator()(RArg) const { ++*calls; if (id == 2) raise_at(0); return id; }
    bool operator==(const RFn& o) const { if (id == 2 || o.id == 2) raise_at(3); return id == o.id; }
};
struct RComb
{
    using result_type = int;
    template<class I> int operator()(I a, I b) const { int n = 0; for (; a != b; ++a) { if (*a) ++n; if (n == 2) raise_at(4); } return n; }
};
template<class C> int r_emit(C& s) { RArg a; auto r = s(a); (void)r; return 0; }
template<class S, class X> static void foreign(const char* sn, const char* xn, const X& x)
{
    static const char* W[] = { "a slot", "copying an argument", "copying a callable", "comparing callables", "the combiner" };
    for (int w = 0; w < 5; ++w)
    {
        if (w == 4 && !std::strstr(sn, "combiner")) continue;
        each("C20", std::string(W[w]) + " throws a " + xn + ", signal with " + sn, [&]
        {
            S s;
            int calls = 0;
            for (int i = 0; i < 4; ++i) s.connect(RFn(i, &calls));
            RFn f(2, &calls);
            bool same = false, other = false, none = false;
            g_raise = [&] { throw x; };
            g_raise_at = w;
            try
            {
                if (w == 2) s.connect(f);
                else if (w == 3) s.disconnect(RFn(1, &calls));
                else r_emit(s);
                none = true;
            }
            catch (const X& y) { same = typeid(y) == typeid(x); }
            catch (...) { other = true; }
            g_raise_at = -1; g_raise = nullptr;
            REQUIRE(!none, "C20", "the exception does not reach the caller");
            REQUIRE(same && !other, "C20", "another exception reaches the caller");
            REQUIRE(t_held == 0, "C20 C07", "a lock is held after the exception");
            calls = 0;
            r_emit(s);
            REQUIRE(calls == 4 || (w == 3 && calls == 3), "C20", calls << " slots are called after the exception");
        });
    }
}
struct OwnExc : std::runtime_error { OwnExc() : std::runtime_error("own") {} };
template<class S> static void foreign_all(const char* sn)
{
    foreign<S>(sn, "int", 7);
    foreign<S>(sn, "const char*", (const char*)"text");
    foreign<S>(sn, "std::exception", std::exception());
    foreign<S>(sn, "std::bad_alloc", std::bad_alloc());
    foreign<S>(sn, "std::bad_cast", std::bad_cast());
    foreign<S>(sn, "std::bad_weak_ptr", std::bad_weak_ptr());
    foreign<S>(sn, "std::bad_function_call", std::bad_function_call());
    foreign<S>(sn, "std::runtime_error", std::runtime_error("x"));
    foreign<S>(sn, "std::logic_error", std::logic_error("x"));
    foreign<S>(sn, "std::out_of_range", std::out_of_range("x"));
    foreign<S>(sn, "std::system_error", std::system_error(std::make_error_code(std::errc::invalid_argument)));
    foreign<S>(sn, "opt::bad_optional_access", opt::bad_optional_access("x"));
    foreign<S>(sn, "class of the user's", OwnExc());
}
static void connect_dead()
{
    for (int scoped = 0; scoped < 2; ++scoped) for (int blk = 0; blk < 2; ++blk)
        each("C04 C12 C18", std::string("a slot whose tracked object is gone is connected") + (scoped ? " (scoped)" : "") + (blk ? ", blocked" : ""), [&]
        {
            Sig s;
            s.connect(Fn(1, 1));
            auto o = std::make_shared<Obj>(3);
            Slot l(&Obj::m, o);
            if (blk) l.block();
            o.reset();
            connection c;
            scoped_connection e;
            if (scoped) e = s.connect_scoped(l); else c = s.connect(l);
            connection& h = scoped ? static_cast<connection&>(e) : c;
            REQUIRE(h.valid() && !h.connected() && h.blocked() == !!blk, "C04 C12 C18", "the connection does not refer to the new slot");
            REQUIRE(emitted(s) == std::vector<int>{ 1 }, "C04 C12", "other slots are called");
        });
}
// two threads move a pair of signals crosswise: whatever the outcome, they come back
static void cross_moves()
{
    for (int k = 0; k < 3; ++k)
        each("C07", "two threads move-assign two signals to each other (" + std::to_string(k) + ")", [&]
        {
            Sig a, b;
            if (k > 0) a.connect([](Val, int&) { return 1; });
            if (k > 1) b.connect([](Val, int&) { return 2; });
            alarm(5);
            g_second = 0;
            std::thread x([&] { t_inject_off = true; a = std::move(b); });
            std::thread y([&] { t_inject_off = true; b = std::move(a); });
            x.join();
            y.join();
            g_second = -1;
        });
}

// ---------------------------------------------------------------- F13: a weak pointer type of the user's
namespace usr
{
    struct Target;
    struct Registry { std::map<int, Target*> alive; };
    static Registry reg;
    struct Target { int id; explicit Target(int i) : id(i) { reg.alive[i] = this; } ~Target() { reg.alive.erase(id); } int m(Val v, int& r) { g_log.push_back({ id, v.v, &r }); r += 1; if (g_action) { auto f = g_action; f(id); } return id * 10 + 1; } int m2(Val v, int& r) { g_log.push_back({ id + 500, v.v, &r }); r += 1; return id * 10 + 2; } };
    struct Weak
    {
        int id = 0;
        bool expired() const { return !reg.alive.count(id); }
        Target* lock() const { auto it = reg.alive.find(id); return it == reg.alive.end() ? nullptr : it->second; }
        void reset() { id = 0; }
        bool operator==(const Weak& o) const { return id == o.id; }
    };
    struct Handle { int id; Target& operator*() const { return *reg.alive.at(id); } };
    static Weak to_weak(Handle h) { Weak w; w.id = h.id; return w; }
}
static void custom_weak()
{
    for (int dead = 0; dead < 3; ++dead)
        each("C12 C14 C06 C13", "slots tracking through a weak pointer type of the user's, object " + std::to_string(dead) + " is gone", [&]
        {
            std::unique_ptr<usr::Target> a(new usr::Target(61)), b(new usr::Target(62));
            Sig s;
            Slot sa(&usr::Target::m, usr::Handle{ 61 }), sa2(&usr::Target::m2, usr::Handle{ 61 }), sb(&usr::Target::m, usr::Handle{ 62 });
            connection c1 = s.connect(&usr::Target::m, usr::Handle{ 61 }), c2 = s.connect(sb), c3 = s.connect(sa2), c4 = s.connect(sa);
            g_log.clear();
            int r = 0;
            s(Val(1), r);
            std::vector<int> ids;
            for (auto& c : g_log) ids.push_back(c.id);
            REQUIRE(ids == (std::vector<int>{ 61, 62, 561, 61 }), "C12 C13", "an emission called " << World::str(ids));
            if (dead == 1) a.reset();
            if (dead == 2) b.reset();
            Slot q(&usr::Target::m, usr::Handle{ 61 });
            REQUIRE(q == sa && sa == q && !(q != sa), "C14", "equal tracked slots differ");
            REQUIRE(!(sa == sa2) && !(sa == sb) && !(sa2 == sb) && sa != sb, "C14", "different tracked slots are equal");
            REQUIRE(c1.connected() == (dead != 1) && c2.connected() == (dead != 2) && c3.connected() == (dead != 1), "C12 C18", "connected");
            std::size_t n = s.disconnect(q);
            REQUIRE(n == 2, "C06 C14", "disconnect removed " << n << " tracked slots instead of 2");
            REQUIRE(!c1.connected() && !c4.connected(), "C06 C18", "a removed slot is connected");
            g_log.clear();
            s(Val(1), r);
            ids.clear();
            for (auto& c : g_log) ids.push_back(c.id);
            std::vector<int> want;
            if (dead != 2) want.push_back(62);
            if (dead != 1) want.push_back(561);
            REQUIRE(sorted(ids) == want, "C06 C12 C01", "an emission called " << World::str(ids) << " instead of " << World::str(want));
        });
}

// ---------------------------------------------------------------- F14: the tracked object is released at any pointer operation
namespace rel
{
    // std::weak_ptr, with another thread that releases the object before or after the n-th operation on it
    static std::function<void()> release;
    static int ops, at;
    static void step() { if (ops++ == at && release) { auto f = release; release = nullptr; f(); } }
    static int live;
    struct Target
    {
        int id, mark = 77;
        explicit Target(int i) : id(i) { ++live; }
        ~Target() { mark = 0; --live; }
        int m(Val v, int& r) { g_log.push_back({ mark == 77 ? id : -1, v.v, &r }); r += 1; return id * 10 + 1; }
    };
    struct Weak
    {
        std::weak_ptr<Target> w;
        bool expired() const { step(); bool b = w.expired(); step(); return b; }
        std::shared_ptr<Target> lock() const { step(); auto s = w.lock(); step(); return s; }
        void reset() { w.reset(); }
        bool operator==(const Weak& o) const { return !w.owner_before(o.w) && !o.w.owner_before(w); }
    };
    struct Handle { std::shared_ptr<Target> p; Target& operator*() const { return *p; } };
    static Weak to_weak(const Handle& h) { return Weak{ h.p }; }
}
template<class S> static void release_at(const char* what)
{
    for (int at = 0; at < 12; ++at)
        each("C12", std::string(what) + ": another thread releases the tracked object at operation " + std::to_string(at) + " on the weak pointer", [&]
        {
            rel::live = 0;
            auto p = std::make_shared<rel::Target>(71);
            S s;
            connection c = s.connect(&rel::Target::m, rel::Handle{ p });
            s.connect(Fn(5, 5));
            rel::ops = 0; rel::at = at;
            rel::release = [&] { p.reset(); };
            g_log.clear();
            int r = 0;
            s(Val(3), r);
            bool gone = !p;
            rel::release = nullptr;
            for (auto& x : g_log) REQUIRE(x.id >= 0, "C12", "a destroyed tracked object is called");
            std::size_t calls = 0;
            for (auto& x : g_log) calls += x.id == 71;
            REQUIRE(calls <= 1, "C12 C01", "the tracked object is called " << calls << " times");
            REQUIRE(gone || calls == 1, "C12 C01", "a live tracked object is not called");
            REQUIRE(rel::live == (gone ? 0 : 1), "C12", "the slot keeps the tracked object alive");
            REQUIRE(c.connected() == !gone, "C12 C18", "connected() is " << c.connected());
            g_log.clear();
            s(Val(3), r);
            REQUIRE(g_log.size() == (gone ? 1u : 2u), "C12 C01", "a later emission makes " << g_log.size() << " calls");
        });
}
static void releases()
{
    release_at<Sig>("int(Val, int&)");
    release_at<sig::signal<void(Val, int&)>>("void(Val, int&)");
}

// ---------------------------------------------------------------- F15: slots that were disconnected
struct Owner : sig::detail::signal_base { int removed = 0; void remove_slot(sig::detail::slot_base&) override { ++removed; } };
static void ended_slots()
{
    g_o1 = std::make_shared<Obj>(31);
    g_o2 = std::make_shared<Obj>(32);
    for (int a = 1; a < 9; ++a) for (int op = 0; op < 5; ++op)
        each("C13 C05", "a disconnected slot (kind " + std::to_string(a) + ") is copied, moved or assigned (" + std::to_string(op) + ")", [&]
        {
            Owner own;
            const Slot src = mk(a);
            Slot x(src, static_cast<sig::detail::signal_base*>(&own));
            REQUIRE(x.connected() && x.disconnect() && !x.disconnect() && !x.connected(), "C13 C05", "disconnecting a slot twice");
            REQUIRE(own.removed == 1, "C13 C05", "a slot is removed " << own.removed << " times");
            Slot y = mk(a == 1 ? 2 : 1);
            if (op == 0) { Slot z(x); y = std::move(z); }
            if (op == 1) { Slot z(std::move(x)); y = z; }
            if (op == 2) y = x;
            if (op == 3) y = std::move(x);
            if (op == 4) { Slot z; z = x; Slot w(std::move(z)); y = w; }
            bool h;
            int id = callslot(y, h);
            REQUIRE(y && !y.connected() && !h && id == 0, "C13", "a copy of a disconnected slot calls " << id);
            REQUIRE(!y.disconnect() && own.removed == 1, "C13 C05", "a copy of a disconnected slot is disconnected again");
        });
    g_o1.reset(); g_o2.reset();
}

int main(int argc, char** argv)
{
    init(argc, argv);
    int rounds = argc > 3 ? std::atoi(argv[3]) : 1500;
    histories(rounds);
    reentrancy();
    dtor_actions();
    schedules();
    exceptions();
    handles();
    slots();
    tracking();
    combiners();
    signatures();
    scale();
    lifetimes();
    moved_tracking();
    cross_moves();
    connect_dead();
    foreign_all<sig::signal<int(RArg)>>("the default");
    foreign_all<sig::signal<int(RArg), RComb>>("its own combiner");
    custom_weak();
    releases();
    ended_slots();
    return finish();
}
