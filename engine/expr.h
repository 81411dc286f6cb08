// Hash-consed expression DAG used by the symbolic executor.
#pragma once
#include <gmpxx.h>
#include <cstdint>
#include <cstring>
#include <cmath>
#include <string>
#include <vector>
#include <unordered_map>
#include <unordered_set>
#include <functional>
#include <stdexcept>
#include <memory>
#include <set>
#include <map>

typedef unsigned __int128 u128;
typedef __int128 i128;
typedef uint64_t u64;
typedef int64_t i64;
typedef uint32_t u32;
typedef uint8_t u8;

// FP semantics of a harness: exact real arithmetic or bit-precise IEEE-754.
extern bool g_fpmode;

enum class Op : u8 {
    Const, RConst, FConst, Var, Undef,
    Add, Sub, Mul, UDiv, SDiv, URem, SRem, And, Or, Xor, Shl, LShr, AShr,
    ZExt, SExt, Extract, Concat, Eq, Ult, Ule, Slt, Sle, Ite,
    FAdd, FSub, FMul, FDiv, FNeg, FSqrt, FEq, FLt, FLe, FUno, FFn,
    SIToF, UIToF, FToSI, FToUI, FTrunc, FExt, F2I, I2F, FAbs, FRint
};

struct Expr;
typedef const Expr* E;

struct Expr {
    Op op;
    bool f;        // floating sort
    bool undef;    // depends on an undefined value
    uint16_t w;    // width in bits
    u32 id;
    u64 hash;
    u128 c = 0;    // Const value / aux (extract lo, function id)
    mpq_class* q = nullptr;
    std::string* name = nullptr;
    std::vector<E> k;
};

struct EKey {
    Op op; bool f; uint16_t w; u128 c; std::string s; std::vector<E> k;
    bool operator==(const EKey& o) const {
        return op == o.op && f == o.f && w == o.w && c == o.c && k == o.k && s == o.s;
    }
};
struct EKeyHash {
    size_t operator()(const EKey& a) const {
        size_t h = (size_t)a.op * 1000003u ^ a.w * 7919u ^ (size_t)a.c * 0x9E3779B97F4A7C15ull ^ (size_t)(a.c >> 64);
        for (E e : a.k) h = (h ^ e->id) * 0x100000001B3ull + 0x9E37;
        if (!a.s.empty()) h ^= std::hash<std::string>()(a.s);
        return h;
    }
};

inline std::unordered_map<EKey, E, EKeyHash>& etab() { static std::unordered_map<EKey, E, EKeyHash> t; return t; }
inline u32& ecount() { static u32 n = 0; return n; }

inline E mkraw(Op op, bool f, unsigned w, u128 c, std::vector<E> k, const std::string& s = std::string()) {
    EKey key{op, f, (uint16_t)w, c, s, k};
    auto it = etab().find(key);
    if (it != etab().end()) return it->second;
    Expr* e = new Expr;
    e->op = op; e->f = f; e->w = w; e->c = c; e->k = std::move(k); e->id = ++ecount();
    e->undef = op == Op::Undef;
    for (E x : e->k) if (x->undef) e->undef = true;
    if (!s.empty()) e->name = new std::string(s);
    etab().emplace(std::move(key), e);
    return e;
}

inline u128 maskw(unsigned w) { return w >= 128 ? ~(u128)0 : (((u128)1 << w) - 1); }
inline i128 sext128(u128 v, unsigned w) {
    if (w >= 128) return (i128)v;
    u128 m = (u128)1 << (w - 1);
    v &= maskw(w);
    return (i128)((v ^ m) - m);
}
inline E mkc(u128 v, unsigned w) { return mkraw(Op::Const, false, w, v & maskw(w), {}); }
inline bool isc(E e) { return e->op == Op::Const; }
inline E mkq(const mpq_class& q) {
    std::string s = q.get_str();
    E e = mkraw(Op::RConst, true, 64, 0, {}, s);
    if (!e->q) const_cast<Expr*>(e)->q = new mpq_class(q);
    return e;
}
inline E mkfc(u64 bits, unsigned w) { return mkraw(Op::FConst, true, w, bits, {}); }
inline E mkvar(const std::string& n, unsigned w, bool f) { return mkraw(Op::Var, f, w, 0, {}, n); }
inline E mkundef(unsigned w, bool f) { return mkraw(Op::Undef, f, f ? 64 : w, 0, {}); }
inline E mktrue() { static E t = mkc(1, 1); return t; }
inline E mkfalse() { static E t = mkc(0, 1); return t; }
inline bool istrue(E e) { return isc(e) && e->c == 1; }
inline bool isfalse(E e) { return isc(e) && e->c == 0; }

inline double bitsd(u64 b) { double d; memcpy(&d, &b, 8); return d; }
inline u64 dbits(double d) { u64 b; memcpy(&b, &d, 8); return b; }
inline float bitsf(u64 b) { u32 x = (u32)b; float d; memcpy(&d, &x, 4); return d; }
inline u64 fbits(float d) { u32 b; memcpy(&b, &d, 4); return b; }
inline double fval(u64 bits, unsigned w) { return w == 32 ? (double)bitsf(bits) : bitsd(bits); }

E mk_bin(Op op, E a, E b);
E mk_ite(E c, E a, E b);
E mk_ext(bool sign, E a, unsigned w);
E mk_extract(E a, unsigned lo, unsigned w);
E mk_concat(E hi, E lo);
E mk_cmp(Op op, E a, E b);
inline E mk_not(E a) {
    if (isc(a)) return a->c ? mkfalse() : mktrue();
    if (a->op == Op::Xor && isc(a->k[1]) && a->w == 1) return a->k[0];
    return mkraw(Op::Xor, false, 1, 0, {a, mktrue()});
}
inline bool isnot(E a) { return a->w == 1 && a->op == Op::Xor && isc(a->k[1]) && a->k[1]->c == 1; }
inline E mk_and(E a, E b) {
    if (isfalse(a) || isfalse(b)) return mkfalse();
    if (istrue(a)) return b;
    if (istrue(b)) return a;
    if (a == b) return a;
    return mkraw(Op::And, false, 1, 0, {a, b});
}
inline E mk_or(E a, E b) {
    if (istrue(a) || istrue(b)) return mktrue();
    if (isfalse(a)) return b;
    if (isfalse(b)) return a;
    if (a == b) return a;
    return mkraw(Op::Or, false, 1, 0, {a, b});
}

// Range analysis (unsigned and signed interpretations), used to move integer arithmetic into exact arithmetic.
struct Rng { i128 lo, hi; };
bool srange(E e, Rng& r);
bool urange(E e, Rng& r);
// Register the declared bounds of an integer input.
void set_var_range(E v, i128 lo, i128 hi, bool sgn);
bool get_var_range(E v, Rng& r, bool& sgn);

E mk_itof(E a, bool sign, unsigned w);
