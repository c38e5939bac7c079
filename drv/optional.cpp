// Entry points for opt::optional: one call of the public interface each, for a class type (V), a scalar (I),
// references (R, K = const) and void (D).
#include "user.hpp"
using opt::optional;
using OV = optional<Val>;
using OI = optional<int>;
using OR = optional<Val&>;
using OK = optional<const Val&>;
using OD = optional<void>;

// operations common to V (T = Val) and I (T = int)
#define COMMON(X, O, T)                                                                          \
    extern "C" {                                                                                 \
    void X##_default(O* o) { ::new (o) O(); }                                                    \
    void X##_null(O* o) { ::new (o) O(opt::nullopt); }                                           \
    void X##_val(O* o, const T* v) { ::new (o) O(*v); }                                          \
    void X##_rval(O* o, T* v) { ::new (o) O(std::move(*v)); }                                    \
    void X##_cond(O* o, bool c, T* v) { ::new (o) O(c, std::move(*v)); }                         \
    void X##_inpl(O* o, const T* v) { ::new (o) O(opt::in_place, *v); }                          \
    void X##_inplr(O* o, T* v) { ::new (o) O(opt::in_place, std::move(*v)); }                    \
    void X##_inpli(O* o, int i) { ::new (o) O(opt::in_place, i); }                               \
    void X##_inif(O* o, bool c, const T* v) { ::new (o) O(opt::in_place_if, c, *v); }            \
    void X##_inifi(O* o, bool c, int i) { ::new (o) O(opt::in_place_if, c, i); }                 \
    void X##_copy(O* o, const O* p) { ::new (o) O(*p); }                                         \
    void X##_move(O* o, O* p) { ::new (o) O(std::move(*p)); }                                    \
    void X##_asgn(O* o, const O* p) { *o = *p; }                                                 \
    void X##_masgn(O* o, O* p) { *o = std::move(*p); }                                           \
    void X##_asgnv(O* o, const T* v) { *o = *v; }                                                \
    void X##_masgnv(O* o, T* v) { *o = std::move(*v); }                                          \
    void X##_asgnn(O* o) { *o = opt::nullopt; }                                                  \
    void X##_asgnown(O* o) { *o = *static_cast<const O&>(*o); }                                  \
    void X##_asgnb(O* o) { *o = {}; }                                                            \
    void X##_empl(O* o, const T* v) { o->emplace(*v); }                                          \
    void X##_emplr(O* o, T* v) { o->emplace(std::move(*v)); }                                    \
    void X##_empli(O* o, int i) { o->emplace(i); }                                               \
    void X##_reset(O* o) { o->reset(); }                                                         \
    void X##_swap(O* o, O* p) { o->swap(*p); }                                                   \
    void X##_sswap(O* o, O* p) { std::swap(*o, *p); }                                            \
    void X##_dtor(O* o) { o->~O(); }                                                             \
    void X##_mko(O* o, const T* v) { ::new (o) O(opt::make_optional(*v)); }                      \
    void X##_mkor(O* o, T* v) { ::new (o) O(opt::make_optional(std::move(*v))); }                \
    void X##_mkoc(O* o, bool c, const T* v) { ::new (o) O(opt::make_optional(c, *v)); }          \
    bool X##_has(const O* o) { return o->has_value(); }                                          \
    bool X##_bool(const O* o) { return bool(*o); }                                               \
    bool X##_init(const O* o) { return o->is_initialized(); }                                    \
    T* X##_get(O* o) { return &o->get(); }                                                       \
    const T* X##_getc(const O* o) { return &o->get(); }                                          \
    T* X##_star(O* o) { return &**o; }                                                           \
    const T* X##_starc(const O* o) { return &**o; }                                              \
    const T* X##_starr(O* o) { T&& r = *std::move(*o); return &r; }                              \
    T* X##_arrow(O* o) { return o->operator->(); }                                               \
    const T* X##_arrowc(const O* o) { return o->operator->(); }                                  \
    T* X##_value(O* o) { return &o->value(); }                                                   \
    const T* X##_valuec(const O* o) { return &o->value(); }                                      \
    const T* X##_valuer(O* o) { T&& r = std::move(*o).value(); return &r; }                      \
    T* X##_ptr(O* o) { return o->get_ptr(); }                                                    \
    const T* X##_ptrc(const O* o) { return o->get_ptr(); }                                       \
    T* X##_fget(O* o) { return &opt::get(*o); }                                                  \
    const T* X##_fgetc(const O* o) { return &opt::get(*o); }                                     \
    T* X##_fgetp(O* o) { return opt::get(o); }                                                   \
    const T* X##_fgetpc(const O* o) { return opt::get(o); }                                      \
    T* X##_fptr(O* o) { return opt::get_pointer(*o); }                                           \
    const T* X##_fptrc(const O* o) { return opt::get_pointer(*o); }                              \
    T* X##_gvo(O* o, T* v) { return &o->get_value_or(*v); }                                      \
    const T* X##_gvoc(const O* o, const T* v) { return &o->get_value_or(*v); }                   \
    T* X##_fgvo(O* o, T* v) { return &opt::get_optional_value_or(*o, *v); }                      \
    const T* X##_fgvoc(const O* o, const T* v) { return &opt::get_optional_value_or(*o, *v); }   \
    void X##_vo(const O* o, const T* v, T* out) { ::new (out) T(o->value_or(*v)); }              \
    void X##_vor(O* o, const T* v, T* out) { ::new (out) T(std::move(*o).value_or(*v)); }        \
    void X##_vorr(const O* o, T* v, T* out) { ::new (out) T(o->value_or(std::move(*v))); }       \
    void X##_voi(const O* o, int i, T* out) { ::new (out) T(o->value_or(i)); }                   \
    }

COMMON(V, OV, Val)
COMMON(I, OI, int)
using OQ = optional<long long>;
using OZ = optional<bool>;
COMMON(Q, OQ, long long)
COMMON(Z, OZ, bool)

extern "C" {
// conversions between optionals
void V_cvt(OV* o, const OI* p) { ::new (o) OV(*p); }
void V_cvtm(OV* o, OI* p) { ::new (o) OV(std::move(*p)); }
void V_cvtr(OV* o, const OR* p) { if (p->has_value()) ::new (o) OV(**p); else ::new (o) OV(); }
void V_asgncv(OV* o, const OI* p) { *o = *p; }
void V_masgncv(OV* o, OI* p) { *o = std::move(*p); }
void I_cvt(OI* o, const optional<short>* p) { ::new (o) OI(*p); }
void I_cvtm(OI* o, optional<short>* p) { ::new (o) OI(std::move(*p)); }
void I_asgncv(OI* o, const optional<short>* p) { *o = *p; }
void I_masgncv(OI* o, optional<short>* p) { *o = std::move(*p); }
void Q_cvt(OQ* o, const OI* p) { ::new (o) OQ(*p); }
void Q_cvtm(OQ* o, OI* p) { ::new (o) OQ(std::move(*p)); }
void Q_asgncv(OQ* o, const OI* p) { *o = *p; }
void Q_masgncv(OQ* o, OI* p) { *o = std::move(*p); }
void Q_mkocr(OQ* o, bool c, long long* v) { ::new (o) OQ(opt::make_optional(c, std::move(*v))); }
void Z_mkocr(OZ* o, bool c, bool* v) { ::new (o) OZ(opt::make_optional(c, std::move(*v))); }
void S_val(optional<short>* o, const short* v) { ::new (o) optional<short>(*v); }
void S_default(optional<short>* o) { ::new (o) optional<short>(); }
void S_reset(optional<short>* o) { o->reset(); }
bool S_has(const optional<short>* o) { return o->has_value(); }
const short* S_ptrc(const optional<short>* o) { return o->get_ptr(); }
void V_mkoi(OV* o, int i) { ::new (o) OV(opt::make_optional<Val>(i)); }
void V_mkoca(OV* o, bool c, int i) { ::new (o) OV(opt::make_optional<Val>(c, i)); }
void V_mkocr(OV* o, bool c, Val* v) { ::new (o) OV(opt::make_optional(c, std::move(*v))); }
void I_mkocr(OI* o, bool c, int* v) { ::new (o) OI(opt::make_optional(c, std::move(*v))); }
// values built from a list
using OL = optional<Lst>;
void L_inpl(OL* o, int a, int b) { ::new (o) OL(opt::in_place, { a, b }); }
void L_inplv(OL* o, int a, int b, const Val* v) { ::new (o) OL(opt::in_place, { a, b }, *v); }
void L_inif(OL* o, bool c, int a, int b) { ::new (o) OL(opt::in_place_if, c, { a, b }); }
void L_inifv(OL* o, bool c, int a, int b, const Val* v) { ::new (o) OL(opt::in_place_if, c, { a, b }, *v); }
void L_empl(OL* o, int a, int b) { o->emplace({ a, b }); }
void L_emplv(OL* o, int a, int b, const Val* v) { o->emplace({ a, b }, *v); }
void L_default(OL* o) { ::new (o) OL(); }
void L_val(OL* o, const Lst* v) { ::new (o) OL(*v); }
void L_reset(OL* o) { o->reset(); }
void L_dtor(OL* o) { o->~OL(); }
bool L_has(const OL* o) { return o->has_value(); }
const Lst* L_ptrc(const OL* o) { return o->get_ptr(); }
}

#define REFS(X, O, T)                                                                            \
    extern "C" {                                                                                 \
    void X##_default(O* o) { ::new (o) O(); }                                                    \
    void X##_null(O* o) { ::new (o) O(opt::nullopt); }                                           \
    void X##_val(O* o, T* v) { ::new (o) O(*v); }                                                \
    void X##_inpl(O* o, T* v) { ::new (o) O(opt::in_place, *v); }                                \
    void X##_copy(O* o, const O* p) { ::new (o) O(*p); }                                         \
    void X##_move(O* o, O* p) { ::new (o) O(std::move(*p)); }                                    \
    void X##_asgn(O* o, const O* p) { *o = *p; }                                                 \
    void X##_asgnl(O* o, O* p) { *o = *p; }                                                      \
    void X##_masgn(O* o, O* p) { *o = std::move(*p); }                                           \
    void X##_asgnn(O* o) { *o = opt::nullopt; }                                                  \
    void X##_empl(O* o, T* v) { o->emplace(*v); }                                                \
    void X##_reset(O* o) { o->reset(); }                                                         \
    void X##_swap(O* o, O* p) { o->swap(*p); }                                                   \
    void X##_sswap(O* o, O* p) { std::swap(*o, *p); }                                            \
    void X##_dtor(O* o) { o->~O(); }                                                             \
    bool X##_has(const O* o) { return o->has_value(); }                                          \
    bool X##_bool(const O* o) { return bool(*o); }                                               \
    T* X##_starc(const O* o) { return &**o; }                                                    \
    T* X##_arrowc(const O* o) { return o->operator->(); }                                        \
    T* X##_valuec(const O* o) { return &o->value(); }                                            \
    void X##_vo(const O* o, const Val* v, Val* out) { ::new (out) Val(o->value_or(*v)); }        \
    void X##_voi(const O* o, int i, Val* out) { ::new (out) Val(o->value_or(i)); }               \
    }
REFS(R, OR, Val)
REFS(K, OK, const Val)
extern "C" void R_mko(OR* o, Val* v) { ::new (o) OR(opt::make_optional(std::ref(*v))); }

// comparisons
#define CMP1(X, O, N, OP)                                                                        \
    bool X##_oo_##N(const O* a, const O* b) { return *a OP *b; }                                 \
    CMPN(X, O, N, OP)
#define CMPN(X, O, N, OP)                                                                        \
    bool X##_on_##N(const O* a) { return *a OP opt::nullopt; }                                   \
    bool X##_no_##N(const O* a) { return opt::nullopt OP *a; }
#define CMP2(X, O, T, N, OP)                                                                     \
    bool X##_ov_##N(const O* a, const T* v) { return *a OP *v; }                                 \
    bool X##_vo_##N(const O* a, const T* v) { return *v OP *a; }
#define CMP(X, O, T)                                                                             \
    extern "C" {                                                                                 \
    CMP1(X, O, eq, ==) CMP1(X, O, ne, !=) CMP1(X, O, lt, <) CMP1(X, O, gt, >) CMP1(X, O, le, <=) CMP1(X, O, ge, >=) \
    CMP2(X, O, T, eq, ==) CMP2(X, O, T, ne, !=) CMP2(X, O, T, lt, <) CMP2(X, O, T, gt, >) CMP2(X, O, T, le, <=) CMP2(X, O, T, ge, >=) \
    }
CMP(V, OV, Val)
CMP(I, OI, int)
CMP(Q, OQ, long long)
CMP(R, OR, Val)
CMP(K, OK, Val)

// optional<void>
extern "C" {
void D_default(OD* o) { ::new (o) OD(); }
void D_null(OD* o) { ::new (o) OD(opt::nullopt); }
void D_copy(OD* o, const OD* p) { ::new (o) OD(*p); }
void D_asgn(OD* o, const OD* p) { *o = *p; }
void D_asgnn(OD* o) { *o = opt::nullopt; }
void D_asgnv(OD* o, Val* v) { *o = *v; }
void D_empl(OD* o, Val* v) { o->emplace(*v); }
void D_emplr(OD* o, Val* v) { o->emplace(std::move(*v)); }
void D_move(OD* o, OD* p) { ::new (o) OD(std::move(*p)); }
void D_masgn(OD* o, OD* p) { *o = std::move(*p); }
const Val* D_vov(const OD* o, const Val* v) { return &o->value_or(*v); }
CMPN(D, OD, eq, ==) CMPN(D, OD, ne, !=) CMPN(D, OD, lt, <) CMPN(D, OD, gt, >) CMPN(D, OD, le, <=) CMPN(D, OD, ge, >=)
void D_swap(OD* o, OD* p) { o->swap(*p); }
void D_reset(OD* o) { o->reset(); }
void D_value(const OD* o) { o->value(); }
bool D_has(const OD* o) { return o->has_value(); }
bool D_bool(const OD* o) { return bool(*o); }
int D_vo(const OD* o, int i) { return o->value_or(i); }
}
