// Entry points for the signal-level proof units: one call of the public interface each.
#include "user.hpp"
using sig::connection;
using sig::scoped_connection;
using sig::connection_blocker;

#define SIG(X, S, L, ARGS_DECL, ARGS, RES)                                                                  \
    extern "C" void emit_##X(const S* s ARGS_DECL, opt::optional<RES>* out) { ::new (out) opt::optional<RES>((*s) ARGS); } \
    extern "C" void ctor_##X(S* s) { ::new (s) S(); }                                                        \
    extern "C" void dtor_##X(S* s) { s->~S(); }                                                              \
    extern "C" void movector_##X(S* s, S* o) { ::new (s) S(std::move(*o)); }                                 \
    extern "C" void moveasgn_##X(S* s, S* o) { *s = std::move(*o); }                                         \
    extern "C" void conn_slot_##X(S* s, const L* l, connection* c) { ::new (c) connection(s->connect(*l)); } \
    extern "C" void conn_fn_##X(S* s, const Fn##X* f, connection* c) { ::new (c) connection(s->connect(*f)); } \
    extern "C" void conn_fnr_##X(S* s, Fn##X* f, connection* c) { ::new (c) connection(s->connect(std::move(*f))); } \
    extern "C" void sconn_slot_##X(S* s, const L* l, scoped_connection* c) { ::new (c) scoped_connection(s->connect_scoped(*l)); } \
    extern "C" void sconn_fn_##X(S* s, const Fn##X* f, scoped_connection* c) { ::new (c) scoped_connection(s->connect_scoped(*f)); } \
    extern "C" std::size_t disc_slot_##X(S* s, const L* l) { return s->disconnect(*l); }                     \
    extern "C" std::size_t disc_fn_##X(S* s, const Fn##X* f) { return s->disconnect(*f); }

#define COMMA ,
SIG(A, SA, LA, COMMA const Val* v COMMA int* r, (*v, *r), int)
SIG(B, SB, LB, COMMA const Val* v, (*v), void)
SIG(C, SC, LC, COMMA int i, (i), Val)
SIG(E, SE, LE, COMMA Val* v COMMA const Val* w, (std::move(*v), *w), int)
SIG(F, SF, LF, , (), void)
SIG(K, SK, LK, COMMA const Val* v COMMA int i COMMA const Val* u COMMA const Val* w, (*v, i, *u, *w), int)

extern "C" {
void conn_pmf_A(SA* s, Obj* o, connection* c) { ::new (c) connection(s->connect(&Obj::m, o)); }
void conn_trk_A(SA* s, const std::shared_ptr<Obj>* o, connection* c) { ::new (c) connection(s->connect(&Obj::m, *o)); }
void sconn_pmf_A(SA* s, Obj* o, scoped_connection* c) { ::new (c) scoped_connection(s->connect_scoped(&Obj::m, o)); }
std::size_t disc_pmf_A(SA* s, Obj* o) { return s->disconnect(&Obj::m, o); }

// observers and makers (public interface only): they let contracts speak about optionals without their layout
void mk_some_A(opt::optional<int>* o, int v) { ::new (o) opt::optional<int>(v); }
void mk_none_A(opt::optional<int>* o) { ::new (o) opt::optional<int>(); }
void mk_some_C(opt::optional<Val>* o, Val* v) { ::new (o) opt::optional<Val>(std::move(*v)); }
void mk_none_C(opt::optional<Val>* o) { ::new (o) opt::optional<Val>(); }
bool has_A(const opt::optional<int>* o) { return o->has_value(); }
int get_A(const opt::optional<int>* o) { return **o; }
bool has_B(const opt::optional<void>* o) { return o->has_value(); }
bool has_C(const opt::optional<Val>* o) { return o->has_value(); }
const Val* get_C(const opt::optional<Val>* o) { return &**o; }

// connection handles
bool c_valid(const connection* c) { return c->valid(); }
bool c_connected(const connection* c) { return c->connected(); }
bool c_disconnect(connection* c) { return c->disconnect(); }
bool c_blocked(const connection* c) { return c->blocked(); }
void c_block(connection* c) { c->block(); }
void c_unblock(connection* c) { c->unblock(); }
void c_blocker(const connection* c, connection_blocker* b) { ::new (b) connection_blocker(c->blocker()); }
void c_default(connection* c) { ::new (c) connection(); }
void c_copy(connection* c, const connection* d) { ::new (c) connection(*d); }
void c_move(connection* c, connection* d) { ::new (c) connection(std::move(*d)); }
void c_asgn(connection* c, const connection* d) { *c = *d; }
void c_masgn(connection* c, connection* d) { *c = std::move(*d); }
void c_swap(connection* c, connection* d) { c->swap(*d); }
void c_fswap(connection* c, connection* d) { swap(*c, *d); }
void c_dtor(connection* c) { c->~connection(); }
// blockers
void b_default(connection_blocker* b) { ::new (b) connection_blocker(); }
void b_dtor(connection_blocker* b) { b->~connection_blocker(); }
void b_move(connection_blocker* b, connection_blocker* o) { ::new (b) connection_blocker(std::move(*o)); }
void b_masgn(connection_blocker* b, connection_blocker* o) { *b = std::move(*o); }
void b_swap(connection_blocker* b, connection_blocker* o) { b->swap(*o); }
void b_fswap(connection_blocker* b, connection_blocker* o) { swap(*b, *o); }
// scoped connections
void s_default(scoped_connection* s) { ::new (s) scoped_connection(); }
void s_from(scoped_connection* s, const connection* c) { ::new (s) scoped_connection(*c); }
void s_fromr(scoped_connection* s, connection* c) { ::new (s) scoped_connection(std::move(*c)); }
void s_move(scoped_connection* s, scoped_connection* o) { ::new (s) scoped_connection(std::move(*o)); }
void s_masgn(scoped_connection* s, scoped_connection* o) { *s = std::move(*o); }
void s_release(scoped_connection* s, connection* c) { ::new (c) connection(s->release()); }
void s_dtor(scoped_connection* s) { s->~scoped_connection(); }
void s_swap(scoped_connection* s, scoped_connection* o) { s->swap(*o); }
void s_fswap(scoped_connection* s, scoped_connection* o) { swap(*s, *o); }
bool s_disconnect(scoped_connection* s) { return s->disconnect(); }
}
#define SLOT(X, L)                                                                        \
    extern "C" void mk_slot_fn_##X(L* l, const Fn##X* f) { ::new (l) L(*f); }              \
    extern "C" void mk_slot_fnr_##X(L* l, Fn##X* f) { ::new (l) L(std::move(*f)); }        \
    SLOTM(X, L)
#define SLOTM(X, L)                                                                       \
    extern "C" void mk_slot_empty_##X(L* l) { ::new (l) L(); }                             \
    extern "C" void slot_copy_##X(L* l, const L* o) { ::new (l) L(*o); }                   \
    extern "C" void slot_move_##X(L* l, L* o) { ::new (l) L(std::move(*o)); }              \
    extern "C" void slot_asgn_##X(L* l, const L* o) { *l = *o; }                           \
    extern "C" void slot_masgn_##X(L* l, L* o) { *l = std::move(*o); }                     \
    extern "C" void slot_dtor_##X(L* l) { l->~L(); }                                       \
    extern "C" bool slot_eq_##X(const L* l, const L* o) { return *l == *o; }               \
    extern "C" bool slot_ne_##X(const L* l, const L* o) { return *l != *o; }               \
    extern "C" bool slot_bool_##X(const L* l) { return static_cast<bool>(*l); }            \
    extern "C" bool slot_connected_##X(const L* l) { return l->connected(); }              \
    extern "C" bool slot_blocked_##X(const L* l) { return l->blocked(); }                  \
    extern "C" bool slot_disc_##X(L* l) { return l->disconnect(); }                        \
    extern "C" void slot_block_##X(L* l) { l->block(); }                                   \
    extern "C" void slot_unblock_##X(L* l) { l->unblock(); }
SLOT(A, LA)
SLOT(B, LB)
SLOT(C, LC)
SLOT(E, LE)
SLOT(F, LF)
SLOT(K, LK)
SLOTM(D, LD)
#define SLOTP(X, L, M)                                                                                              \
    extern "C" void mk_slot_pmf_##X(L* l, Obj* o) { ::new (l) L(&Obj::M, o); }                                       \
    extern "C" void mk_slot_ref_##X(L* l, Obj* o) { ::new (l) L(&Obj::M, std::ref(*o)); }                            \
    extern "C" void mk_slot_trk_##X(L* l, const std::shared_ptr<Obj>* o) { ::new (l) L(&Obj::M, *o); }               \
    extern "C" void mk_slot_trkw_##X(L* l, const std::weak_ptr<Obj>* o) { ::new (l) L(&Obj::M, *o); }
SLOTP(A, LA, m)
SLOTP(B, LB, mb)
SLOTP(C, LC, mc)
SLOTP(E, LE, me)
SLOTP(F, LF, mf)
SLOTP(K, LK, mk)
#define SLOTV(X, L, M, N)                                                                                           \
    extern "C" void mk_slot_pmv_##X(L* l, const VObj* o) { ::new (l) L(&VObj::M, *o); }                              \
    extern "C" void mk_slot_cw_##X(L* l, const StP* o) { ::new (l) L(&Obj::M, *o); }                                 \
    extern "C" void mk_slot_cw2_##X(L* l, const StP* o) { ::new (l) L(&Obj::N, *o); }
SLOTV(A, LA, m, m2)
SLOTV(B, LB, mb, mb2)
SLOTV(C, LC, mc, mc2)
#define SLOTQ(X, L, M)                                                                                              \
    extern "C" void mk_slot_pmf2_##X(L* l, Obj* o) { ::new (l) L(&Obj::M, o); }                                      \
    extern "C" void mk_slot_trk2_##X(L* l, const std::shared_ptr<Obj>* o) { ::new (l) L(&Obj::M, *o); }
SLOTQ(A, LA, m2)
SLOTQ(B, LB, mb2)
SLOTQ(C, LC, mc2)
SLOTP(D, LD, data)
extern "C" void mk_slot_nc_A(LA* l, const NcA* f) { ::new (l) LA(*f); }
extern "C" void mk_slot_fpa_A(LA* l) { ::new (l) LA(&free_a); }
extern "C" void mk_slot_fpb_A(LA* l) { ::new (l) LA(free_b); }
extern "C" void slot_call_A(LA* l, Val* v, int* r, opt::optional<int>* out) { ::new (out) opt::optional<int>((*l)(std::move(*v), *r)); }
extern "C" void slot_call_B(LB* l, Val* v, opt::optional<void>* out) { ::new (out) opt::optional<void>((*l)(std::move(*v))); }
extern "C" void slot_call_C(LC* l, int i, opt::optional<Val>* out) { ::new (out) opt::optional<Val>((*l)(std::move(i))); }
extern "C" void slot_call_E(LE* l, Val* v, const Val* w, opt::optional<int>* out) { ::new (out) opt::optional<int>((*l)(std::move(*v), *w)); }
extern "C" void slot_call_F(LF* l, opt::optional<void>* out) { ::new (out) opt::optional<void>((*l)()); }
extern "C" void slot_call_K(LK* l, Val* v, int i, Val* u, const Val* w, opt::optional<int>* out) { ::new (out) opt::optional<int>((*l)(std::move(*v), std::move(i), std::move(*u), *w)); }
extern "C" void slot_call_D(LD* l, opt::optional<int>* out) { ::new (out) opt::optional<int>((*l)()); }

// custom combiners
#define ITER(X, It, R)                                                                     \
    extern "C" It* it_inc_##X(It* i) { return &++*i; }                                      \
    extern "C" void it_post_##X(It* i, It* out) { ::new (out) It((*i)++); }                 \
    extern "C" void it_copy_##X(const It* i, It* out) { ::new (out) It(*i); }               \
    extern "C" void it_move_##X(It* i, It* out) { ::new (out) It(std::move(*i)); }          \
    extern "C" bool it_eq_##X(const It* i, const It* j) { return *i == *j; }                \
    extern "C" bool it_ne_##X(const It* i, const It* j) { return *i != *j; }                \
    extern "C" void it_deref_##X(It* i, opt::optional<R>* out) { ::new (out) opt::optional<R>(**i); }
ITER(A, ItA, int)
ITER(B, ItB, void)
extern "C" {
void ctor_G(SG* s) { ::new (s) SG(); }
int emit_G(const SG* s, const Val* v, int* r) { return (*s)(*v, *r); }
void ctor_H(SH* s) { ::new (s) SH(); }
int emit_H(const SH* s, const Val* v) { return (*s)(*v); }
}
