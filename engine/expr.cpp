#include "expr.h"
bool g_fpmode = false;

static std::unordered_map<E, std::pair<Rng, bool>>& vr() { static std::unordered_map<E, std::pair<Rng, bool>> m; return m; }
void set_var_range(E v, i128 lo, i128 hi, bool sgn) { vr()[v] = {Rng{lo, hi}, sgn}; }
bool get_var_range(E v, Rng& r, bool& sgn) { auto it = vr().find(v); if (it == vr().end()) return false; r = it->second.first; sgn = it->second.second; return true; }

static E fold(Op op, E a, E b) {
    unsigned w = a->w; u128 x = a->c, y = b->c, r = 0; i128 sx = sext128(x, w), sy = sext128(y, w);
    switch (op) {
        case Op::Add: r = x + y; break;
        case Op::Sub: r = x - y; break;
        case Op::Mul: r = x * y; break;
        case Op::UDiv: if (!y) return nullptr; r = x / y; break;
        case Op::SDiv: if (!y) return nullptr; r = (u128)(sx / sy); break;
        case Op::URem: if (!y) return nullptr; r = x % y; break;
        case Op::SRem: if (!y) return nullptr; r = (u128)(sx % sy); break;
        case Op::And: r = x & y; break;
        case Op::Or: r = x | y; break;
        case Op::Xor: r = x ^ y; break;
        case Op::Shl: r = y >= w ? 0 : x << (unsigned)y; break;
        case Op::LShr: r = y >= w ? 0 : x >> (unsigned)y; break;
        case Op::AShr: r = y >= w ? (sx < 0 ? ~(u128)0 : 0) : (u128)(sx >> (unsigned)y); break;
        default: return nullptr;
    }
    return mkc(r, w);
}

E mk_bin(Op op, E a, E b) {
    unsigned w = a->w;
    if (isc(a) && isc(b)) { E r = fold(op, a, b); if (r) return r; }
    bool comm = op == Op::Add || op == Op::Mul || op == Op::And || op == Op::Or || op == Op::Xor;
    if (comm && isc(a)) std::swap(a, b);
    if (w == 1) {
        if (op == Op::And) return mk_and(a, b);
        if (op == Op::Or) return mk_or(a, b);
        if (op == Op::Xor) { if (istrue(b)) return mk_not(a); if (isfalse(b)) return a; if (a == b) return mkfalse(); }
        if (op == Op::Add || op == Op::Sub) return mk_bin(Op::Xor, a, b);
        if (op == Op::Mul) return mk_and(a, b);
    }
    if (isc(b)) {
        u128 y = b->c;
        switch (op) {
            case Op::Add: case Op::Sub: if (!y) return a; break;
            case Op::Mul: if (!y) return b; if (y == 1) return a; break;
            case Op::UDiv: case Op::SDiv: if (y == 1) return a; break;
            case Op::And:
                if (!y) return b; if (y == maskw(w)) return a;
                // contiguous byte mask on concatenations
                {
                    // find lo zeros, ones, hi zeros
                    unsigned lz = 0; while (lz < w && !((y >> lz) & 1)) lz++;
                    unsigned n = 0; while (lz + n < w && ((y >> (lz + n)) & 1)) n++;
                    if ((y >> lz) == maskw(n)) {
                        E m = mk_extract(a, lz, n);
                        if (a->op == Op::Concat || a->op == Op::ZExt || a->op == Op::F2I || a->undef || true) {
                            E r = m;
                            if (lz) r = mk_concat(r, mkc(0, lz));
                            if (lz + n < w) r = mk_ext(false, r, w);
                            return r;
                        }
                    }
                }
                break;
            case Op::Or: if (!y) return a; if (y == maskw(w)) return b; break;
            case Op::Xor: if (!y) return a; break;
            case Op::Shl:
                if (!y) return a; if (y >= w) return mkc(0, w);
                return mk_concat(mk_extract(a, 0, w - (unsigned)y), mkc(0, (unsigned)y));
            case Op::LShr:
                if (!y) return a; if (y >= w) return mkc(0, w);
                return mk_ext(false, mk_extract(a, (unsigned)y, w - (unsigned)y), w);
            case Op::AShr:
                if (!y) return a; if (y >= w) y = w - 1;
                return mk_ext(true, mk_extract(a, (unsigned)y, w - (unsigned)y), w);
            default: break;
        }
        // (x + c1) + c2
        if (op == Op::Add && a->op == Op::Add && isc(a->k[1])) return mk_bin(Op::Add, a->k[0], mkc(a->k[1]->c + y, w));
        if (op == Op::Sub) return mk_bin(Op::Add, a, mkc(-y, w));
    }
    if (a == b) {
        if (op == Op::Sub || op == Op::Xor) { if (!a->undef) return mkc(0, w); }
        if (op == Op::And || op == Op::Or) return a;
    }
    if (op == Op::Sub) {
        if (a->op == Op::Add) { if (a->k[0] == b) return a->k[1]; if (a->k[1] == b) return a->k[0]; }
    }
    // or / add of disjoint zero-extended pieces -> concat
    if (op == Op::Or || op == Op::Add) {
        auto split = [&](E hi, E lo) -> E {
            // hi = concat(H, 0_n), lo = zext(L) with L.w <= n
            if (hi->op == Op::Concat && isc(hi->k[1]) && hi->k[1]->c == 0) {
                unsigned n = hi->k[1]->w;
                if (lo->op == Op::ZExt && lo->k[0]->w <= n) {
                    E l = lo->k[0]->w == n ? lo->k[0] : mk_ext(false, lo->k[0], n);
                    return mk_concat(hi->k[0], l);
                }
                if (isc(lo) && (lo->c >> n) == 0) return mk_concat(hi->k[0], mkc(lo->c, n));
                if (lo->op == Op::ZExt && lo->k[0]->op == Op::Concat) { }
            }
            if (hi->op == Op::ZExt && hi->k[0]->op == Op::Concat && isc(hi->k[0]->k[1]) && hi->k[0]->k[1]->c == 0) {
                unsigned n = hi->k[0]->k[1]->w;
                if (lo->op == Op::ZExt && lo->k[0]->w <= n) {
                    E l = lo->k[0]->w == n ? lo->k[0] : mk_ext(false, lo->k[0], n);
                    return mk_ext(false, mk_concat(hi->k[0]->k[0], l), w);
                }
            }
            return nullptr;
        };
        if (E r = split(a, b)) return r;
        if (E r = split(b, a)) return r;
    }
    if (comm && a->id > b->id && !isc(b)) std::swap(a, b);
    return mkraw(op, false, w, 0, {a, b});
}

E mk_extract(E a, unsigned lo, unsigned w) {
    if (lo == 0 && w == a->w) return a;
    if (isc(a)) return mkc(a->c >> lo, w);
    switch (a->op) {
        case Op::Undef: return mkundef(w, false);
        case Op::Extract: return mk_extract(a->k[0], lo + (unsigned)a->c, w);
        case Op::Concat: {
            unsigned lw = a->k[1]->w;
            if (lo + w <= lw) return mk_extract(a->k[1], lo, w);
            if (lo >= lw) return mk_extract(a->k[0], lo - lw, w);
            return mk_concat(mk_extract(a->k[0], 0, lo + w - lw), mk_extract(a->k[1], lo, lw - lo));
        }
        case Op::ZExt: {
            unsigned iw = a->k[0]->w;
            if (lo + w <= iw) return mk_extract(a->k[0], lo, w);
            if (lo >= iw) return mkc(0, w);
            return mk_ext(false, mk_extract(a->k[0], lo, iw - lo), w);
        }
        case Op::SExt: {
            unsigned iw = a->k[0]->w;
            if (lo + w <= iw) return mk_extract(a->k[0], lo, w);
            if (lo == 0) return mk_ext(true, a->k[0], w);
            break;
        }
        case Op::Add: case Op::Sub: case Op::Mul:
            if (lo == 0) return mk_bin(a->op, mk_extract(a->k[0], 0, w), mk_extract(a->k[1], 0, w));
            break;
        case Op::And: case Op::Or: case Op::Xor:
            return mk_bin(a->op, mk_extract(a->k[0], lo, w), mk_extract(a->k[1], lo, w));
        case Op::Ite:
            return mk_ite(a->k[0], mk_extract(a->k[1], lo, w), mk_extract(a->k[2], lo, w));
        default: break;
    }
    return mkraw(Op::Extract, false, w, lo, {a});
}

E mk_concat(E hi, E lo) {
    unsigned w = hi->w + lo->w;
    if (w > 128 && isc(hi) && isc(lo)) { }
    else if (isc(hi) && isc(lo)) return mkc((hi->c << lo->w) | lo->c, w);
    if (hi->op == Op::Undef && lo->op == Op::Undef) return mkundef(w, false);
    if (hi->op == Op::Extract && lo->op == Op::Extract && hi->k[0] == lo->k[0] && (unsigned)hi->c == (unsigned)lo->c + lo->w)
        return mk_extract(hi->k[0], (unsigned)lo->c, w);
    // re-associate to the right: concat(concat(a,b),c) -> concat(a, concat(b,c))
    if (hi->op == Op::Concat) return mk_concat(hi->k[0], mk_concat(hi->k[1], lo));
    if (lo->op == Op::Concat && hi->op == Op::Extract && lo->k[0]->op == Op::Extract && hi->k[0] == lo->k[0]->k[0] &&
        (unsigned)hi->c == (unsigned)lo->k[0]->c + lo->k[0]->w)
        return mk_concat(mk_extract(hi->k[0], (unsigned)lo->k[0]->c, hi->w + lo->k[0]->w), lo->k[1]);
    if (lo->op == Op::Concat && isc(hi) && isc(lo->k[0]) && hi->w + lo->k[0]->w <= 128)
        return mk_concat(mkc((hi->c << lo->k[0]->w) | lo->k[0]->c, hi->w + lo->k[0]->w), lo->k[1]);
    if (isc(hi) && hi->c == 0) return mk_ext(false, lo, w);
    if (lo->op == Op::ZExt && false) return nullptr;
    return mkraw(Op::Concat, false, w, 0, {hi, lo});
}

E mk_ext(bool sign, E a, unsigned w) {
    if (a->w == w) return a;
    if (isc(a)) return mkc(sign ? (u128)sext128(a->c, a->w) : a->c, w);
    if (a->op == Op::Undef) return mkundef(w, false);
    if (a->op == Op::ZExt) return mk_ext(false, a->k[0], w);
    if (sign && a->op == Op::SExt) return mk_ext(true, a->k[0], w);
    return mkraw(sign ? Op::SExt : Op::ZExt, false, w, 0, {a});
}

E mk_ite(E c, E a, E b) {
    if (isc(c)) return c->c ? a : b;
    if (a == b) return a;
    if (a->w == 1 && !a->f) {
        if (istrue(a) && isfalse(b)) return c;
        if (isfalse(a) && istrue(b)) return mk_not(c);
        if (istrue(a)) return mk_or(c, b);
        if (isfalse(a)) return mk_and(mk_not(c), b);
        if (istrue(b)) return mk_or(mk_not(c), a);
        if (isfalse(b)) return mk_and(c, a);
    }
    if (isnot(c)) return mk_ite(c->k[0], b, a);
    return mkraw(Op::Ite, a->f, a->w, 0, {c, a, b});
}

E mk_cmp(Op op, E a, E b) {
    unsigned w = a->w;
    if (isc(a) && isc(b)) {
        bool r = false;
        switch (op) {
            case Op::Eq: r = a->c == b->c; break;
            case Op::Ult: r = a->c < b->c; break;
            case Op::Ule: r = a->c <= b->c; break;
            case Op::Slt: r = sext128(a->c, w) < sext128(b->c, w); break;
            case Op::Sle: r = sext128(a->c, w) <= sext128(b->c, w); break;
            default: break;
        }
        return r ? mktrue() : mkfalse();
    }
    if (a == b && !a->undef) return (op == Op::Eq || op == Op::Ule || op == Op::Sle) ? mktrue() : mkfalse();
    // decide by range
    Rng ra, rb;
    if (!a->undef && !b->undef) {
        if (op == Op::Ult || op == Op::Ule || op == Op::Eq) {
            if (urange(a, ra) && urange(b, rb)) {
                if (op == Op::Ult) { if (ra.hi < rb.lo) return mktrue(); if (ra.lo >= rb.hi) return mkfalse(); }
                else if (op == Op::Ule) { if (ra.hi <= rb.lo) return mktrue(); if (ra.lo > rb.hi) return mkfalse(); }
                else if (ra.hi < rb.lo || rb.hi < ra.lo) return mkfalse();
            }
        }
        if (op == Op::Slt || op == Op::Sle || op == Op::Eq) {
            if (srange(a, ra) && srange(b, rb)) {
                if (op == Op::Slt) { if (ra.hi < rb.lo) return mktrue(); if (ra.lo >= rb.hi) return mkfalse(); }
                else if (op == Op::Sle) { if (ra.hi <= rb.lo) return mktrue(); if (ra.lo > rb.hi) return mkfalse(); }
                else if (ra.hi < rb.lo || rb.hi < ra.lo) return mkfalse();
            }
        }
    }
    if (op == Op::Eq) {
        if (isc(a)) std::swap(a, b);
        if (w == 1 && isc(b)) return b->c ? a : mk_not(a);
        if (isc(b)) {
            if (a->op == Op::ZExt) {
                if (b->c >> a->k[0]->w) return mkfalse();
                return mk_cmp(Op::Eq, a->k[0], mkc(b->c, a->k[0]->w));
            }
            if (a->op == Op::SExt) {
                E t = mkc(b->c, a->k[0]->w);
                if ((u128)sext128(t->c, t->w) % ((u128)0 - 1) == 0 && false) return nullptr;
                if ((((u128)sext128(t->c, t->w)) & maskw(w)) != b->c) return mkfalse();
                return mk_cmp(Op::Eq, a->k[0], t);
            }
            if (a->op == Op::Concat)
                return mk_and(mk_cmp(Op::Eq, a->k[0], mkc(b->c >> a->k[1]->w, a->k[0]->w)), mk_cmp(Op::Eq, a->k[1], mkc(b->c, a->k[1]->w)));
            if (a->op == Op::Ite && isc(a->k[1]) && isc(a->k[2]))
                return mk_ite(a->k[0], mk_cmp(Op::Eq, a->k[1], b), mk_cmp(Op::Eq, a->k[2], b));
        }
        if (a->op == Op::ZExt && b->op == Op::ZExt && a->k[0]->w == b->k[0]->w) return mk_cmp(Op::Eq, a->k[0], b->k[0]);
        if (a->op == Op::SExt && b->op == Op::SExt && a->k[0]->w == b->k[0]->w) return mk_cmp(Op::Eq, a->k[0], b->k[0]);
        if (!isc(b) && a->id > b->id) std::swap(a, b);
    } else if (w > 1) {
        bool sgn = op == Op::Slt || op == Op::Sle;
        auto narrow = [&](Op eo) -> E {
            if (a->op == eo && b->op == eo && a->k[0]->w == b->k[0]->w) {
                Op o2 = op;
                if (eo == Op::ZExt && op == Op::Slt) o2 = Op::Ult;
                if (eo == Op::ZExt && op == Op::Sle) o2 = Op::Ule;
                return mk_cmp(o2, a->k[0], b->k[0]);
            }
            return nullptr;
        };
        if (E r = narrow(Op::ZExt)) return r;
        if (sgn) if (E r = narrow(Op::SExt)) return r;
    }
    return mkraw(op, false, 1, 0, {a, b});
}

static std::unordered_map<E, std::pair<int, Rng>> smemo, umemo;
static const i128 BIG = (i128)1 << 100;
static bool typer(unsigned w, bool sgn, Rng& r) {
    if (w > 90) return false;
    if (sgn) { r.lo = -((i128)1 << (w - 1)); r.hi = ((i128)1 << (w - 1)) - 1; }
    else { r.lo = 0; r.hi = ((i128)1 << w) - 1; }
    return true;
}
static bool fits(const Rng& r, unsigned w, bool sgn) { Rng t; if (!typer(w, sgn, t)) return false; return r.lo >= t.lo && r.hi <= t.hi; }

static bool rng(E e, Rng& r, bool sgn, int depth);
static bool rng_(E e, Rng& r, bool sgn, int depth) {
    Rng a, b;
    if (e->f || e->w > 90) return false;
    auto& self = sgn ? smemo : umemo;
    auto it = self.find(e);
    if (it != self.end()) { r = it->second.second; return it->second.first; }
    bool ok = typer(e->w, sgn, r);
    if (depth > 200) return ok;
    switch (e->op) {
        case Op::Const: r.lo = r.hi = sgn ? sext128(e->c, e->w) : (i128)e->c; break;
        case Op::Var: {
            bool s2; Rng vrng;
            if (get_var_range(e, vrng, s2)) {
                if (s2 == sgn) r = vrng;
                else if (vrng.lo >= 0 && vrng.hi <= (((i128)1 << (e->w - 1)) - 1)) r = vrng;
            }
            break;
        }
        case Op::ZExt: if (rng(e->k[0], a, false, depth + 1)) { if (fits(a, e->w, sgn)) r = a; } break;
        case Op::SExt:
            if (rng(e->k[0], a, true, depth + 1)) { if (sgn) r = a; else if (a.lo >= 0) r = a; }
            break;
        case Op::Add: case Op::Sub: case Op::Mul: {
            // try in the requested interpretation, then in the other one
            for (int t = 0; t < 2; t++) {
                bool s = t == 0 ? sgn : !sgn;
                if (!rng(e->k[0], a, s, depth + 1) || !rng(e->k[1], b, s, depth + 1)) continue;
                Rng q;
                if (e->op == Op::Add) q = Rng{a.lo + b.lo, a.hi + b.hi};
                else if (e->op == Op::Sub) q = Rng{a.lo - b.hi, a.hi - b.lo};
                else {
                    if (a.lo < -((i128)1 << 50) || a.hi > ((i128)1 << 50) || b.lo < -((i128)1 << 50) || b.hi > ((i128)1 << 50)) continue;
                    i128 p[4] = {a.lo * b.lo, a.lo * b.hi, a.hi * b.lo, a.hi * b.hi};
                    q.lo = q.hi = p[0]; for (i128 x : p) { if (x < q.lo) q.lo = x; if (x > q.hi) q.hi = x; }
                    if (e->k[0] == e->k[1] && q.lo < 0) q.lo = 0;
                }
                if (fits(q, e->w, sgn)) { r = q; break; }
            }
            break;
        }
        case Op::Ite:
            if (rng(e->k[1], a, sgn, depth + 1) && rng(e->k[2], b, sgn, depth + 1)) { r.lo = a.lo < b.lo ? a.lo : b.lo; r.hi = a.hi > b.hi ? a.hi : b.hi; }
            break;
        case Op::And:
            if (isc(e->k[1])) { i128 m = (i128)e->k[1]->c; if (fits(Rng{0, m}, e->w, sgn)) { r.lo = 0; r.hi = m; } }
            break;
        case Op::URem:
            if (isc(e->k[1]) && e->k[1]->c) { i128 m = (i128)e->k[1]->c - 1; if (fits(Rng{0, m}, e->w, sgn)) { r.lo = 0; r.hi = m; } }
            break;
        case Op::UDiv:
            if (isc(e->k[1]) && e->k[1]->c && rng(e->k[0], a, false, depth + 1)) { Rng q{a.lo / (i128)e->k[1]->c, a.hi / (i128)e->k[1]->c}; if (fits(q, e->w, sgn)) r = q; }
            break;
        case Op::SDiv:
            if (isc(e->k[1]) && rng(e->k[0], a, true, depth + 1)) { i128 d = sext128(e->k[1]->c, e->w); if (d > 0) { Rng q{a.lo / d, a.hi / d}; if (fits(q, e->w, sgn)) r = q; } }
            break;
        default: break;
    }
    if (ok) self[e] = {1, r};
    return ok;
}
static bool rng(E e, Rng& r, bool sgn, int depth) { return rng_(e, r, sgn, depth); }
bool srange(E e, Rng& r) { return rng(e, r, true, 0); }
bool urange(E e, Rng& r) { return rng(e, r, false, 0); }

E mk_itof(E a, bool sign, unsigned w) {
    if (g_fpmode) {
        return mkraw(sign ? Op::SIToF : Op::UIToF, true, w, 0, {a});
    }
    if (isc(a)) {
        i128 v = sign ? sext128(a->c, a->w) : (i128)a->c;
        mpz_class z; bool neg = v < 0; u128 m = neg ? (u128)(-v) : (u128)v;
        z = (unsigned long)(m >> 64); z <<= 64; z += (unsigned long)(u64)m; if (neg) z = -z;
        return mkq(mpq_class(z));
    }
    if (a->op == Op::Undef) return mkundef(64, true);
    Rng r, x, y;
    switch (a->op) {
        case Op::ZExt: if (!sign || a->w > a->k[0]->w) return mk_itof(a->k[0], false, w); break;
        case Op::SExt: if (sign) return mk_itof(a->k[0], true, w); { if (srange(a->k[0], r) && r.lo >= 0) return mk_itof(a->k[0], true, w); } break;
        case Op::Ite: {
            E p = mk_itof(a->k[1], sign, w), q = mk_itof(a->k[2], sign, w);
            if (p == q) return p;
            return mkraw(Op::Ite, true, 64, 0, {a->k[0], p, q});
        }
        case Op::Add: case Op::Sub: case Op::Mul: {
            for (int t = 0; t < 2; t++) {
                bool s = t == 0 ? sign : !sign;
                bool okx = s ? srange(a->k[0], x) : urange(a->k[0], x), oky = s ? srange(a->k[1], y) : urange(a->k[1], y);
                if (!okx || !oky) continue;
                const i128 L = (i128)1 << 50;
                if (x.lo < -L || x.hi > L || y.lo < -L || y.hi > L) continue;
                Rng q;
                if (a->op == Op::Add) q = Rng{x.lo + y.lo, x.hi + y.hi};
                else if (a->op == Op::Sub) q = Rng{x.lo - y.hi, x.hi - y.lo};
                else { i128 p[4] = {x.lo * y.lo, x.lo * y.hi, x.hi * y.lo, x.hi * y.hi}; q.lo = q.hi = p[0]; for (i128 v : p) { if (v < q.lo) q.lo = v; if (v > q.hi) q.hi = v; } }
                Rng tr;
                if (!(typer(a->w, sign, tr) && q.lo >= tr.lo && q.hi <= tr.hi)) continue;
                E p = mk_itof(a->k[0], s, w), qq = mk_itof(a->k[1], s, w);
                Op fo = a->op == Op::Add ? Op::FAdd : a->op == Op::Sub ? Op::FSub : Op::FMul;
                return mkraw(fo, true, 64, 0, {p, qq});
            }
            break;
        }
        default: break;
    }
    // canonicalise signedness when the value is non-negative
    if (sign && srange(a, r) && r.lo >= 0) sign = false;
    return mkraw(sign ? Op::SIToF : Op::UIToF, true, 64, 0, {a});
}
