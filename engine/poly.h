// Algebraic normal form of real-mode expressions: fractions of multivariate polynomials over atoms,
// reduced modulo "square relations" (sqrt(a)^2 = a, sin^2 = 1 - cos^2, declared unit-norm relations).
#pragma once
#include "expr.h"

typedef std::vector<std::pair<u32, u32>> Mono;  // (atom, exponent) sorted by atom
struct MonoHash { size_t operator()(const Mono& m) const { size_t h = 1469598103934665603ull; for (auto& p : m) { h = (h ^ p.first) * 1099511628211ull; h = (h ^ p.second) * 1099511628211ull; } return h; } };
struct MonoLess {  // degree-agnostic lexicographic order on atoms (higher atom = larger)
    bool operator()(const Mono& a, const Mono& b) const {
        size_t i = a.size(), j = b.size();
        while (i && j) {
            auto &x = a[i - 1], &y = b[j - 1];
            if (x.first != y.first) return x.first < y.first;
            if (x.second != y.second) return x.second < y.second;
            --i; --j;
        }
        return i == 0 && j != 0;
    }
};
struct PolyTooBig : std::runtime_error { PolyTooBig() : std::runtime_error("polynomial too big") {} };

struct Poly {
    std::map<Mono, mpq_class, MonoLess> t;
    bool zero() const { return t.empty(); }
    bool isconst() const { return t.empty() || (t.size() == 1 && t.begin()->first.empty()); }
    mpq_class cval() const { return t.empty() ? mpq_class(0) : t.begin()->second; }
    void add(const Mono& m, const mpq_class& c) {
        if (c == 0) return;
        auto r = t.emplace(m, c);
        if (!r.second) { r.first->second += c; if (r.first->second == 0) t.erase(r.first); }
    }
    static Poly constant(const mpq_class& c) { Poly p; if (c != 0) p.t[Mono()] = c; return p; }
    static Poly atom(u32 a) { Poly p; p.t[Mono{{a, 1}}] = 1; return p; }
};
static size_t g_polylimit = 60000;
inline Mono mmul(const Mono& a, const Mono& b) {
    Mono r; r.reserve(a.size() + b.size());
    size_t i = 0, j = 0;
    while (i < a.size() || j < b.size()) {
        if (j >= b.size() || (i < a.size() && a[i].first < b[j].first)) r.push_back(a[i++]);
        else if (i >= a.size() || b[j].first < a[i].first) r.push_back(b[j++]);
        else { r.push_back({a[i].first, a[i].second + b[j].second}); ++i; ++j; }
    }
    return r;
}
inline Poly padd(const Poly& a, const Poly& b, int sign = 1) {
    Poly r = a;
    for (auto& x : b.t) r.add(x.first, sign > 0 ? x.second : mpq_class(-x.second));
    return r;
}
inline Poly pmul_raw(const Poly& a, const Poly& b) {
    if (a.t.size() * b.t.size() > 40000000ull) throw PolyTooBig();
    std::unordered_map<Mono, mpq_class, MonoHash> h;
    for (auto& x : a.t) {
        for (auto& y : b.t) { auto& c = h[mmul(x.first, y.first)]; c += x.second * y.second; }
        if (h.size() > g_polylimit * 20) throw PolyTooBig();
    }
    Poly r;
    for (auto& x : h) if (x.second != 0) r.t.emplace(x.first, x.second);
    if (r.t.size() > g_polylimit) throw PolyTooBig();
    return r;
}
inline Poly pscale(const Poly& a, const mpq_class& c) { Poly r; if (c == 0) return r; for (auto& x : a.t) r.t.emplace(x.first, x.second * c); return r; }
// exact division, returns false when b does not divide a
inline bool mdiv(const Mono& a, const Mono& b, Mono& r) {
    r.clear(); size_t i = 0, j = 0;
    while (i < a.size() || j < b.size()) {
        if (j >= b.size() || (i < a.size() && a[i].first < b[j].first)) r.push_back(a[i++]);
        else if (i >= a.size() || b[j].first < a[i].first) return false;
        else { if (a[i].second < b[j].second) return false; if (a[i].second > b[j].second) r.push_back({a[i].first, a[i].second - b[j].second}); ++i; ++j; }
    }
    return true;
}
inline bool pdivexact(const Poly& a, const Poly& b, Poly& q) {
    if (b.zero()) return false;
    Poly rem = a; q.t.clear();
    auto lb = *b.t.rbegin();
    size_t steps = 0;
    while (!rem.zero()) {
        auto la = *rem.t.rbegin();
        Mono m;
        if (!mdiv(la.first, lb.first, m)) return false;
        mpq_class c = la.second / lb.second;
        q.add(m, c);
        for (auto& x : b.t) rem.add(mmul(m, x.first), -(c * x.second));
        if (++steps > 20000) return false;
    }
    return true;
}
inline std::string pstr(const Poly& p) {
    std::string s;
    for (auto& x : p.t) { s += x.second.get_str(); for (auto& m : x.first) s += "*" + std::to_string(m.first) + "^" + std::to_string(m.second); s += ";"; }
    return s;
}

struct Frac { Poly n; std::map<u32, u32> d; };  // denominator: factor table index -> exponent

struct Atom {
    E e;                 // defining expression (variable, ite, conversion) or null
    int kind;            // 0 plain, 1 sqrt, 2 function
    u32 fn = 0;          // function id for kind 2
    std::vector<Frac> args;
    bool rel = false;    // square relation present
    Frac sq;             // value of atom^2
    std::string key;
};

enum FnId : u32 { FN_SIN = 1, FN_COS, FN_TAN, FN_ASIN, FN_ACOS, FN_ATAN, FN_ATAN2, FN_EXP, FN_LOG, FN_POW, FN_FMOD };

struct Algebra {
    std::vector<Atom> atoms;
    std::unordered_map<std::string, u32> bykey;
    std::vector<Poly> factors;
    std::unordered_map<std::string, u32> fbykey;
    std::unordered_map<E, std::shared_ptr<Frac>> memo;
    std::map<u32, std::map<u32, u32>> trig;  // atom of sin(arg) <-> cos(arg)

    u32 newatom(const std::string& key, E e, int kind) {
        u32 id = atoms.size(); Atom a; a.e = e; a.kind = kind; a.key = key; atoms.push_back(a); bykey[key] = id; return id;
    }
    u32 eatom(E e) {
        std::string k = "e" + std::to_string(e->id);
        auto it = bykey.find(k); if (it != bykey.end()) return it->second;
        return newatom(k, e, 0);
    }
    // Declared relation: v^2 = rhs (v becomes a leading variable and must be created after the rhs variables).
    void declare_square(E v, E rhs) {
        Frac r = frac(rhs);
        u32 a = eatom(v);
        atoms[a].rel = true; atoms[a].sq = r;
    }
    std::string fstr(const Frac& f) { std::string s = pstr(f.n) + "/"; for (auto& d : f.d) s += std::to_string(d.first) + "^" + std::to_string(d.second) + ","; return s; }

    Poly ppow(const Poly& p, u32 k) { Poly r = Poly::constant(1); for (u32 i = 0; i < k; i++) r = pmul_raw(r, p); return r; }
    Poly den(const std::map<u32, u32>& d) { Poly r = Poly::constant(1); for (auto& x : d) r = pmul_raw(r, ppow(factors[x.first], x.second)); return r; }

    u32 factor(const Poly& p) {
        std::string k = pstr(p);
        auto it = fbykey.find(k); if (it != fbykey.end()) return it->second;
        u32 id = factors.size(); factors.push_back(p); fbykey[k] = id; return id;
    }
    // reduce modulo square relations
    Frac reduce(Frac f) {
        for (;;) {
            u32 best = 0; u32 maxe = 0; bool found = false;
            for (auto& x : f.n.t) for (auto& m : x.first) if (m.second >= 2 && atoms[m.first].rel) { if (!found || m.first > best) { best = m.first; found = true; } }
            if (!found) break;
            const Frac sq = atoms[best].sq;
            std::map<u32, Poly> by;
            for (auto& x : f.n.t) {
                u32 e = 0; Mono rest;
                for (auto& m : x.first) { if (m.first == best) e = m.second; else rest.push_back(m); }
                by[e].add(rest, x.second); if (e > maxe) maxe = e;
            }
            u32 K = maxe / 2;
            Poly D = den(sq.d), acc;
            for (auto& b : by) {
                Poly p = b.second; u32 h = b.first / 2;
                if (h) p = pmul_raw(p, ppow(sq.n, h));
                if (K > h && !sq.d.empty()) p = pmul_raw(p, ppow(D, K - h));
                if (b.first & 1) p = pmul_raw(p, Poly::atom(best));
                acc = padd(acc, p);
            }
            f.n = acc;
            for (auto& d : sq.d) f.d[d.first] += d.second * K;
        }
        if (f.n.zero()) f.d.clear();
        return f;
    }
    // cancel common factors between numerator and denominator
    void cancel(Frac& f) {
        if (f.n.zero()) { f.d.clear(); return; }
        if (f.n.t.size() > 4000) return;
        for (auto it = f.d.begin(); it != f.d.end();) {
            while (it->second) { Poly q; if (!pdivexact(f.n, factors[it->first], q)) break; f.n = q; it->second--; }
            if (!it->second) it = f.d.erase(it); else ++it;
        }
    }
    Frac mul(const Frac& a, const Frac& b) {
        Frac r; r.n = pmul_raw(a.n, b.n); r.d = a.d; for (auto& x : b.d) r.d[x.first] += x.second;
        r = reduce(r); if (!r.d.empty()) cancel(r); return r;
    }
    Frac add(const Frac& a, const Frac& b, int sign) {
        if (a.d == b.d) { Frac r; r.n = padd(a.n, b.n, sign); r.d = a.d; if (!r.d.empty()) cancel(r); if (r.n.zero()) r.d.clear(); return r; }
        Frac r; r.d = a.d; for (auto& x : b.d) if (r.d[x.first] < x.second) r.d[x.first] = x.second;
        auto lift = [&](const Frac& f) { Poly p = f.n; for (auto& x : r.d) { u32 h = 0; auto it = f.d.find(x.first); if (it != f.d.end()) h = it->second; if (x.second > h) p = pmul_raw(p, ppow(factors[x.first], x.second - h)); } return p; };
        r.n = padd(lift(a), lift(b), sign);
        r = reduce(r); if (!r.d.empty()) cancel(r); return r;
    }
    // 1 / f ; the caller guarantees f != 0
    Frac inv(const Frac& f0) {
        Frac f = f0; cancel(f);
        if (f.n.zero()) throw PolyTooBig();
        Frac r; r.n = den(f.d);
        Poly p = f.n;
        // strip monomial content
        Mono content; bool first = true;
        for (auto& x : p.t) {
            if (first) { content = x.first; first = false; continue; }
            Mono c; for (auto& m : content) for (auto& y : x.first) if (y.first == m.first) c.push_back({m.first, std::min(m.second, y.second)});
            content = c;
        }
        if (!content.empty()) { Poly q; for (auto& x : p.t) { Mono m; mdiv(x.first, content, m); q.t.emplace(m, x.second); } p = q; }
        // strip known factors
        for (u32 i = 0; i < factors.size() && !p.isconst(); i++) {
            if (factors[i].t.size() > p.t.size() * 4 + 4) continue;
            for (;;) { Poly q; if (p.isconst() || !pdivexact(p, factors[i], q)) break; p = q; r.d[i]++; }
        }
        mpq_class lead = p.t.rbegin()->second;
        r.n = pscale(r.n, mpq_class(1) / lead); p = pscale(p, mpq_class(1) / lead);
        if (!p.isconst()) r.d[factor(p)]++;
        r = reduce(r);
        for (auto& m : content) {
            if (atoms[m.first].rel) {
                // 1/s^e: replace pairs by 1/sq, single by s/sq
                u32 e = m.second;
                Frac isq = inv(atoms[m.first].sq);
                for (u32 i = 0; i < (e + 1) / 2; i++) r = mul(r, isq);
                if (e & 1) { Frac s; s.n = Poly::atom(m.first); r = mul(r, s); }
            } else r.d[factor(Poly::atom(m.first))] += m.second;
        }
        cancel(r);
        return r;
    }
    u32 fnatom(u32 fn, const std::vector<Frac>& args) {
        std::string k = "f" + std::to_string(fn); for (auto& a : args) k += "(" + fstr(a) + ")";
        auto it = bykey.find(k); if (it != bykey.end()) return it->second;
        if (fn == FN_SIN || fn == FN_COS) {
            // create the pair together: cos first, sin^2 = 1 - cos^2
            std::string kc = "f" + std::to_string(FN_COS) + "(" + fstr(args[0]) + ")", ks = "f" + std::to_string(FN_SIN) + "(" + fstr(args[0]) + ")";
            u32 c = newatom(kc, nullptr, 2), s = newatom(ks, nullptr, 2);
            atoms[c].fn = FN_COS; atoms[s].fn = FN_SIN; atoms[c].args = args; atoms[s].args = args;
            Frac sq; sq.n = padd(Poly::constant(1), pmul_raw(Poly::atom(c), Poly::atom(c)), -1);
            atoms[s].rel = true; atoms[s].sq = sq;
            return fn == FN_SIN ? s : c;
        }
        u32 a = newatom(k, nullptr, 2); atoms[a].fn = fn; atoms[a].args = args; return a;
    }
    const Frac& frac(E e) {
        auto it = memo.find(e); if (it != memo.end()) return *it->second;
        // iterative on the left spine would be overkill: depth of our DAGs is modest, recursion limit handled by big stack
        Frac r;
        switch (e->op) {
            case Op::RConst: r.n = Poly::constant(*e->q); break;
            case Op::FConst: { double v = fval((u64)e->c, e->w); if (!std::isfinite(v)) throw PolyTooBig(); r.n = Poly::constant(mpq_class(v)); break; }
            case Op::FAdd: r = add(frac(e->k[0]), frac(e->k[1]), 1); break;
            case Op::FSub: r = add(frac(e->k[0]), frac(e->k[1]), -1); break;
            case Op::FMul: r = mul(frac(e->k[0]), frac(e->k[1])); break;
            case Op::FNeg: r = frac(e->k[0]); r.n = pscale(r.n, -1); break;
            case Op::FDiv: { Frac i = inv(frac(e->k[1])); r = mul(frac(e->k[0]), i); break; }
            case Op::FSqrt: {
                Frac a = frac(e->k[0]);
                if (a.d.empty() && a.n.isconst()) {
                    mpq_class c = a.n.cval();
                    if (c >= 0 && mpz_perfect_square_p(c.get_num().get_mpz_t()) && mpz_perfect_square_p(c.get_den().get_mpz_t())) {
                        mpz_class n = sqrt(c.get_num()), d = sqrt(c.get_den()); r.n = Poly::constant(mpq_class(n, d)); break;
                    }
                }
                std::string k = "s(" + fstr(a) + ")";
                auto f = bykey.find(k); u32 id;
                if (f != bykey.end()) id = f->second;
                else { id = newatom(k, nullptr, 1); atoms[id].args = {a}; atoms[id].rel = true; atoms[id].sq = a; }
                r.n = Poly::atom(id); break;
            }
            case Op::FFn: {
                std::vector<Frac> args; for (E x : e->k) args.push_back(frac(x));
                // normalise odd/even functions so that f(-x) and f(x) share an atom
                u32 fn = (u32)e->c; bool neg = false;
                if ((fn == FN_SIN || fn == FN_COS || fn == FN_TAN || fn == FN_ATAN || fn == FN_ASIN) && !args[0].n.zero() && args[0].n.t.rbegin()->second < 0) {
                    args[0].n = pscale(args[0].n, -1); neg = fn != FN_COS;
                }
                if (args.size() == 1 && args[0].n.zero()) {
                    if (fn == FN_SIN || fn == FN_TAN || fn == FN_ATAN || fn == FN_ASIN) { r.n = Poly(); break; }
                    if (fn == FN_COS || fn == FN_EXP) { r.n = Poly::constant(1); break; }
                }
                r.n = Poly::atom(fnatom(fn, args)); if (neg) r.n = pscale(r.n, -1); break;
            }
            default: r.n = Poly::atom(eatom(e)); break;
        }
        auto p = std::make_shared<Frac>(r);
        memo[e] = p; return *p;
    }
};
