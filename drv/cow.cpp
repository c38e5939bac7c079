// Entry points for the copy-on-write pointer: one call of its interface each.
#include "user.hpp"
using P = sig::detail::cow_ptr<Val>;
extern "C" {
void w_default(P* p) { ::new (p) P(); }
void w_ptr(P* p, const Val* v) { ::new (p) P(new Val(*v)); }
void w_make(P* p, const Val* v) { ::new (p) P(sig::detail::make_cow<Val>(*v)); }
void w_makei(P* p, int i) { ::new (p) P(sig::detail::make_cow<Val>(i)); }
void w_copy(P* p, const P* q) { ::new (p) P(*q); }
void w_move(P* p, P* q) { ::new (p) P(std::move(*q)); }
void w_asgn(P* p, const P* q) { *p = *q; }
void w_masgn(P* p, P* q) { *p = std::move(*q); }
void w_asgnp(P* p, const Val* v) { *p = new Val(*v); }
void w_dtor(P* p) { p->~P(); }
const Val* w_rstar(const P* p) { return &**p; }
const Val* w_rarrow(const P* p) { return p->operator->(); }
const Val* w_rconv(const P* p) { return p->operator const Val*(); }
const Val* w_rdata(const P* p) { return p->data(); }
const Val* w_read(const P* p) { return &p->read(); }
const Val* w_readm(P* p) { return &p->read(); }
Val* w_wstar(P* p) { return &**p; }
Val* w_warrow(P* p) { return p->operator->(); }
Val* w_wconv(P* p) { return p->operator Val*(); }
Val* w_wdata(P* p) { return p->data(); }
Val* w_write(P* p) { return &p->write(); }
bool w_bool(const P* p) { return static_cast<bool>(*p); }
bool w_eq(const P* p, const P* q) { return p->operator==(*q); }
bool w_ne(const P* p, const P* q) { return p->operator!=(*q); }
using PL = sig::detail::cow_ptr<Lst>;
void w_makel(PL* p, int a, int b) { ::new (p) PL(sig::detail::make_cow<Lst>({ a, b })); }
void w_makelv(PL* p, int a, int b, const Val* v) { ::new (p) PL(sig::detail::make_cow<Lst>({ a, b }, *v)); }
const Lst* wl_rdata(const PL* p) { return p->data(); }
}
