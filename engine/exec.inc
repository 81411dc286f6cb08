// Instruction interpreter, intrinsics, runtime builtins and the harness interface. Included inside struct Engine.
    struct Done { };
    typedef std::function<void(State&, DInst&, const CallBase*, std::vector<Val>&)> Builtin;
    std::unordered_map<std::string, Builtin> B;
    std::unordered_map<const Function*, const Builtin*> bmemo;
    bool noforksel = false;
    u32 freezes = 0;

    const Val& O(State& S, const Operand& o) { return o.isreg ? S.fr.back().r[o.slot] : o.v; }
    void jump(State& S, const BasicBlock* to) {
        Frame& f = S.fr.back(); const BasicBlock* from = f.f->blocks[f.bb].bb; u32 n = f.f->bidx[to]; DBlock& b = f.f->blocks[n];
        if (b.nphi) {
            std::vector<Val> vs; vs.reserve(b.nphi);
            for (unsigned i = 0; i < b.nphi; i++) { auto* p = cast<PHINode>(b.ins[i].I); int k = p->getBasicBlockIndex(from); vs.push_back(O(S, b.ins[i].ops[k])); }
            for (unsigned i = 0; i < b.nphi; i++) f.r[b.ins[i].dst] = vs[i];
        }
        f.prev = f.bb; f.bb = n; f.pc = b.nphi;
    }
    void finish(State& S, DInst& d, const Val& v) {
        Frame& f = S.fr.back();
        if (d.dst >= 0) f.r[d.dst] = v;
        if (auto* iv = dyn_cast<InvokeInst>(d.I)) jump(S, iv->getNormalDest()); else f.pc++;
    }
    void popframe(State& S) { Frame& f = S.fr.back(); for (u32 a : f.allocas) S.mem.erase(a); S.fr.pop_back(); }
    void pushframe(State& S, const Function* F, std::vector<Val> args, const CallBase* site, int dst) {
        if (S.fr.size() > 400) throw Inconclusive("call depth bound 400 exceeded in " + demangle(F->getName().str()));
        visited.insert(F);
        FInfo* I = finfo(F); Frame n; n.f = I; n.r.resize(I->nslots); n.site = site; n.dst = dst;
        for (size_t i = 0; i < F->arg_size() && i < args.size(); i++) {
            if (F->hasParamAttribute(i, Attribute::ByVal)) {
                u64 sz = DL->getTypeAllocSize(F->getParamByValType(i)); u64 a = alloc(S, sz, 1); copymem(S, a, args[i].c, sz); n.allocas.push_back(a >> 32); n.r[i] = VI(a, 64);
            } else n.r[i] = args[i];
        }

        S.fr.push_back(std::move(n));
    }
    void doret(State& S, const Val* v) {
        Frame& f = S.fr.back(); const CallBase* site = f.site; int dst = f.dst; Val r; if (v) r = *v;
        popframe(S);
        if (S.fr.empty()) throw Done();
        if (!site) return;
        Frame& c = S.fr.back(); if (dst >= 0 && v) c.r[dst] = r;
        if (auto* iv = dyn_cast<InvokeInst>(site)) jump(S, iv->getNormalDest()); else c.pc++;
    }
    // ---------- exceptions ----------
    std::string tiname(u64 ti) {
        for (auto& g : gaddr) if (g.second == ti) return g.first->getName().str();
        return "?";
    }
    bool derives(const std::string& a, const std::string& b, i64& off) {
        off = 0;
        if (a == b) return true;
        static const std::map<std::string, std::string> stdh = {
            {"_ZTISt13runtime_error", "_ZTISt9exception"}, {"_ZTISt11logic_error", "_ZTISt9exception"}, {"_ZTISt16invalid_argument", "_ZTISt11logic_error"}, {"_ZTISt12out_of_range", "_ZTISt11logic_error"},
            {"_ZTISt12length_error", "_ZTISt11logic_error"}, {"_ZTISt12domain_error", "_ZTISt11logic_error"}, {"_ZTISt11range_error", "_ZTISt13runtime_error"}, {"_ZTISt14overflow_error", "_ZTISt13runtime_error"},
            {"_ZTISt15underflow_error", "_ZTISt13runtime_error"}, {"_ZTISt9bad_alloc", "_ZTISt9exception"}, {"_ZTISt8bad_cast", "_ZTISt9exception"}, {"_ZTISt10bad_typeid", "_ZTISt9exception"}, {"_ZTISt17bad_function_call", "_ZTISt9exception"}, {"_ZTISt20bad_array_new_length", "_ZTISt9bad_alloc"}};
        auto it = stdh.find(a); if (it != stdh.end()) { return derives(it->second, b, off); }
        auto* G = M->getNamedGlobal(a); if (!G || !G->hasInitializer()) return false;
        auto* cs = dyn_cast<ConstantStruct>(G->getInitializer()); if (!cs) return false;
        if (cs->getNumOperands() == 3) { auto* p = dyn_cast<GlobalValue>(cs->getOperand(2)->stripPointerCasts()); return p && derives(p->getName().str(), b, off); }
        if (cs->getNumOperands() > 4) for (unsigned i = 4; i + 1 < cs->getNumOperands(); i += 2) {
            auto* p = dyn_cast<GlobalValue>(cs->getOperand(i)->stripPointerCasts()); auto* c = dyn_cast<ConstantInt>(cs->getOperand(i + 1)); i64 o2 = 0;
            if (p && c && derives(p->getName().str(), b, o2)) { if (c->getSExtValue() & 1) throw Inconclusive("virtual base in exception type"); off = (c->getSExtValue() >> 8) + o2; return true; }
        }
        return false;
    }
    u64 tid(const std::string& n) { auto it = typeids.find(n); if (it != typeids.end()) return it->second; u64 k = typeids.size() + 1; return typeids[n] = k; }
    // returns true if the landing pad is entered; sel is the selector
    bool lpmatch(State& S, const LandingPadInst* L, u64& sel) {
        std::string a = tiname(S.curti);
        for (unsigned i = 0; i < L->getNumClauses(); i++) {
            if (L->isCatch(i)) {
                auto* k = L->getClause(i);
                if (k->isNullValue()) { sel = tid("null"); return true; }
                std::string b = cast<GlobalValue>(k->stripPointerCasts())->getName().str(); i64 off;
                if (derives(a, b, off)) { if (off) throw Inconclusive("adjusted exception pointer"); sel = tid(b); return true; }
            } else { auto* at = dyn_cast<ArrayType>(L->getClause(i)->getType()); if (at && at->getNumElements() == 0) { sel = (u64)(i64)-1; return true; } }
        }
        sel = 0; return L->isCleanup();
    }
    void unwind(State& S) {
        const CallBase* site = nullptr; { Frame& f = S.fr.back(); site = dyn_cast<CallBase>(f.f->blocks[f.bb].ins[f.pc].I); }
        std::string a = tiname(S.curti);
        // is there a handler at all?
        for (;;) {
            Frame& f = S.fr.back();
            if (site) if (auto* iv = dyn_cast<InvokeInst>(site)) {
                const LandingPadInst* L = iv->getUnwindDest()->getLandingPadInst(); u64 sel;
                if (L && lpmatch(S, L, sel)) { jump(S, iv->getUnwindDest()); return; }
            }
            if (S.fr.size() == 1 || !f.site) { die(S, "exception", "uncaught exception of type " + demangle(a.substr(a.rfind("_ZTI", 0) == 0 ? 4 : 0)) + " (" + a + ")"); }
            site = f.site; popframe(S);
        }
    }
    void throwx(State& S, u64 obj, u64 ti) { S.thrown = loc(S); S.curexc = obj; S.curti = ti; S.exti[obj] = ti; unwind(S); }

    // ---------- pointers ----------
    u64 addr(State& S, const Val& v, u64 n, const char* what) {
        if (v.conc()) return v.c;
        if (v.e->undef) uninit(S, std::string("uninitialised pointer used for ") + what);
        auto it = S.kval.find(v.e); if (it != S.kval.end()) return it->second;
        if (!g_fpmode) { std::unordered_map<E, E> memo; E p = pin(S, v.e, memo); if (isc(p)) { S.kval[v.e] = (u64)p->c; return (u64)p->c; } }
        // find the base object of base + offset
        u64 bs = 0; std::function<void(E)> walk = [&](E e) { if (e->op == Op::Add) { walk(e->k[0]); walk(e->k[1]); } else if (isc(e) && (u64)e->c >= 0x100000000ull && (u64)e->c < 0x7fffffff00000000ull) bs = (u64)e->c; };
        walk(v.e);
        if (bs) {
            u32 id = bs >> 32; Object* ob = nullptr; auto i2 = S.mem.find(id); if (i2 != S.mem.end()) ob = i2->second.get(); else { auto g = gmem.find(id); if (g != gmem.end()) ob = g->second.get(); }
            if (ob) {
                E off = mk_bin(Op::Sub, v.e, mkc(base(id), 64)); E inb = ob->size >= n ? mk_cmp(Op::Ule, off, mkc(ob->size - n, 64)) : mkfalse();
                if (!decide(S, inb)) die(S, "memory", std::string("out-of-bounds ") + what + " with a symbolic index (object of " + std::to_string(ob->size) + " bytes)");
            }
        }
        return concretise(S, v.e, "pointer");
    }
    // ---------- element-wise helper ----------
    template <class Fn> Val lanes(Type* T, const Val& a, const Val& b, Fn fn) {
        if (auto* vt = dyn_cast<FixedVectorType>(T)) { std::vector<Val> r; for (unsigned i = 0; i < vt->getNumElements(); i++) r.push_back(fn(elem(a, i, vt->getElementType()), elem(b, i, vt->getElementType()))); return VA(r); }
        return fn(a, b);
    }
    template <class Fn> Val lanes1(Type* T, const Val& a, Fn fn) {
        if (auto* vt = dyn_cast<FixedVectorType>(T)) { std::vector<Val> r; for (unsigned i = 0; i < vt->getNumElements(); i++) r.push_back(fn(elem(a, i, vt->getElementType()))); return VA(r); }
        return fn(a);
    }
    Val sel(State& S, const Val& c, const Val& a, const Val& b, Type* T) {
        if (c.conc()) return c.c ? a : b;
        if (isundef(c)) return undefv(T);
        if (a.agg || b.agg) return decide(S, c.e) ? a : b;
        if (a.conc() && b.conc() && a.c == b.c) return a;
        if (a.e && a.e == b.e) return a;
        if (T->isPointerTy() || (a.f && !g_fpmode && !noforksel)) return decide(S, c.e) ? a : b;
        if (isundef(a) || isundef(b)) return decide(S, c.e) ? a : b;
        if (a.f) { if (!g_fpmode && ((a.conc() && !fin(a)) || (b.conc() && !fin(b)))) return decide(S, c.e) ? a : b; return VE(mkraw(Op::Ite, true, g_fpmode ? a.w : 64, 0, {c.e, EX(a), EX(b)}), a.w, true); }
        return VE(mk_ite(c.e, EX(a), EX(b)), a.w, false);
    }
    Val castv(State& S, unsigned op, const Val& a, Type* T) {
        unsigned w = tw(T);
        switch (op) {
            case Instruction::ZExt: if (a.conc()) return VI(a.c, w); if (isundef(a)) return undefv(T); return VE(mk_ext(false, EX(a), w), w, false);
            case Instruction::SExt: if (a.conc() && w <= 64) return VI((u64)(i64)sext128(a.c, a.w), w); if (isundef(a)) return undefv(T); return VE(mk_ext(true, EX(a), w), w, false);
            case Instruction::Trunc: if (a.conc()) return VI(a.c, w); return VE(mk_extract(EX(a), 0, w), w, false);
            case Instruction::PtrToInt: case Instruction::IntToPtr: { if (a.w == w) return a; return castv(S, a.w < w ? Instruction::ZExt : Instruction::Trunc, a, T); }
            case Instruction::AddrSpaceCast: return a;
            case Instruction::SIToFP: case Instruction::UIToFP: {
                bool s = op == Instruction::SIToFP; if (isundef(a)) return undefv(T);
                if (a.conc()) {
                    if (!g_fpmode) { mpq_class q; if (s) { i64 v = (i64)sext128(a.c, a.w); q = mpq_class(mpz_class((signed long)v)); } else q = mpq_class(mpz_class((unsigned long)a.c)); return fconst(q, w); }
                    if (w == 32) return VFB(fbits(s ? (float)(i64)sext128(a.c, a.w) : (float)a.c), 32);
                    return VF(s ? (double)(i64)sext128(a.c, a.w) : (double)a.c, w);
                }
                if (g_fpmode) return VE(mkraw(s ? Op::SIToF : Op::UIToF, true, w, 0, {a.e}), w, true);
                return VE(mk_itof(a.e, s, 64), w, true);
            }
            case Instruction::FPToSI: return ftoi(S, a, w, true, 2);
            case Instruction::FPToUI: return ftoi(S, a, w, false, 2);
            case Instruction::FPTrunc: case Instruction::FPExt: {
                if (isundef(a)) return undefv(T);
                if (a.conc()) { double d = fval(a.c, a.w); if (g_fpmode || !std::isfinite(d)) return VF(d, w); return fconst(mpq_class(d), w); }
                if (!g_fpmode) return VE(a.e, w, true);
                return VE(mkraw(op == Instruction::FPTrunc ? Op::FTrunc : Op::FExt, true, w, 0, {a.e}), w, true);
            }
        }
        throw Inconclusive("cast");
    }
    // flatten to bytes via a scratch object for bitcasts between aggregates
    Val bitcast(State& S, const Val& a, Type* from, Type* to) {
        if (from == to) return a;
        if (from->isPointerTy() && to->isPointerTy()) return a;
        u64 n = DL->getTypeStoreSize(from); u64 t = alloc(S, n, 0);
        store(S, t, a, from); Val r = load(S, t, to); S.mem.erase(t >> 32); return r;
    }

    void step(State& S) {
        Frame& f = S.fr.back(); DInst& d = f.f->blocks[f.bb].ins[f.pc]; const Instruction* I = d.I;
        S.insts++; insts++;
        auto A = [&](int i) -> const Val& { return O(S, d.ops[i]); };
        switch (d.op) {
            case Instruction::Ret: { if (d.ops.empty()) doret(S, nullptr); else { Val v = A(0); doret(S, &v); } return; }
            case Instruction::Br: {
                auto* b = cast<BranchInst>(I);
                if (b->isUnconditional()) { jump(S, b->getSuccessor(0)); return; }
                const Val& c = A(0); bool t = c.conc() ? (c.c & 1) : decide(S, c.e);
                jump(S, b->getSuccessor(t ? 0 : 1)); return;
            }
            case Instruction::Switch: {
                auto* s = cast<SwitchInst>(I); Val c = A(0);
                if (c.conc()) { const BasicBlock* to = s->getDefaultDest(); for (auto& k : s->cases()) if (k.getCaseValue()->getZExtValue() == c.c) { to = k.getCaseSuccessor(); break; } jump(S, to); return; }
                if (isundef(c)) uninit(S, "switch on an uninitialised value");
                for (auto& k : s->cases()) if (decide(S, mk_cmp(Op::Eq, c.e, mkc(k.getCaseValue()->getZExtValue(), c.w)))) { jump(S, k.getCaseSuccessor()); return; }
                jump(S, s->getDefaultDest()); return;
            }
            case Instruction::Unreachable: die(S, "unreachable", "unreachable code reached (undefined behaviour)");
            case Instruction::Call: case Instruction::Invoke: call(S, d, cast<CallBase>(I)); return;
            case Instruction::LandingPad: {
                auto* L = cast<LandingPadInst>(I); u64 s = 0; lpmatch(S, L, s);
                f.r[d.dst] = VA({VI(S.curexc, 64), VI(s, 32)}); f.pc++; return;
            }
            case Instruction::Resume: {
                Val v = A(0); u64 e = (*v.agg)[0].c; S.curexc = e; S.curti = S.exti[e]; 
                const CallBase* site = f.site; if (!site) die(S, "exception", "uncaught exception"); popframe(S); unwind(S); return;
            }
            case Instruction::Alloca: {
                auto* a = cast<AllocaInst>(I); u64 n = DL->getTypeAllocSize(a->getAllocatedType()); u64 k = conc(S, A(0), "alloca size");
                u64 p = alloc(S, n * k, 1); S.fr.back().allocas.push_back(p >> 32); S.fr.back().r[d.dst] = VI(p, 64); S.fr.back().pc++; return;
            }
            case Instruction::Load: { Type* T = I->getType(); u64 p = addr(S, A(0), DL->getTypeStoreSize(T), "read"); f.r[d.dst] = load(S, p, T); f.pc++; return; }
            case Instruction::Store: { Type* T = cast<StoreInst>(I)->getValueOperand()->getType(); u64 p = addr(S, A(1), DL->getTypeStoreSize(T), "write"); store(S, p, A(0), T); f.pc++; return; }
            case Instruction::GetElementPtr: {
                if (I->getType()->isVectorTy()) throw Inconclusive("vector gep");
                const Val& b = A(0); bool c = b.conc(); u64 r = b.c + d.gepoff;
                for (auto& g : d.gepidx) { const Val& x = A(g.first); if (!x.conc()) { c = false; break; } r += (u64)((i64)sext128(x.c, x.w) * g.second); }
                if (c) { f.r[d.dst] = VI(r, 64); f.pc++; return; }
                E e = mk_bin(Op::Add, EX(b), mkc((u64)d.gepoff, 64));
                for (auto& g : d.gepidx) { E x = EX(A(g.first)); if (x->w < 64) x = mk_ext(true, x, 64); e = mk_bin(Op::Add, e, mk_bin(Op::Mul, x, mkc((u64)g.second, 64))); }
                f.r[d.dst] = VE(e, 64, false); f.pc++; return;
            }
            case Instruction::ICmp: { auto p = cast<CmpInst>(I)->getPredicate(); f.r[d.dst] = lanes(I->getOperand(0)->getType(), A(0), A(1), [&](const Val& a, const Val& b) { return icmp(p, a, b); }); f.pc++; return; }
            case Instruction::FCmp: { auto p = cast<CmpInst>(I)->getPredicate(); Val r = lanes(I->getOperand(0)->getType(), A(0), A(1), [&](const Val& a, const Val& b) { return fcmp(S, p, a, b); }); S.fr.back().r[d.dst] = r; S.fr.back().pc++; return; }
            case Instruction::Add: case Instruction::Sub: case Instruction::Mul: case Instruction::UDiv: case Instruction::SDiv: case Instruction::URem: case Instruction::SRem:
            case Instruction::And: case Instruction::Or: case Instruction::Xor: case Instruction::Shl: case Instruction::LShr: case Instruction::AShr: {
                Val r = lanes(I->getType(), A(0), A(1), [&](const Val& a, const Val& b) { return ibin(S, d.op, a, b); }); S.fr.back().r[d.dst] = r; S.fr.back().pc++; return;
            }
            case Instruction::FAdd: case Instruction::FSub: case Instruction::FMul: case Instruction::FDiv: case Instruction::FRem: {
                Val r = lanes(I->getType(), A(0), A(1), [&](const Val& a, const Val& b) { return fbin(S, d.op, a, b); }); S.fr.back().r[d.dst] = r; S.fr.back().pc++; return;
            }
            case Instruction::FNeg: { Val r = lanes1(I->getType(), A(0), [&](const Val& a) { return isundef(a) ? a : fneg(a); }); f.r[d.dst] = r; f.pc++; return; }
            case Instruction::ZExt: case Instruction::SExt: case Instruction::Trunc: case Instruction::PtrToInt: case Instruction::IntToPtr: case Instruction::AddrSpaceCast:
            case Instruction::SIToFP: case Instruction::UIToFP: case Instruction::FPToSI: case Instruction::FPToUI: case Instruction::FPTrunc: case Instruction::FPExt: {
                Type* T = I->getType(); Type* et = T->isVectorTy() ? cast<VectorType>(T)->getElementType() : T;
                Val r = lanes1(T, A(0), [&](const Val& a) { return castv(S, d.op, a, et); }); S.fr.back().r[d.dst] = r; S.fr.back().pc++; return;
            }
            case Instruction::BitCast: { Val r = bitcast(S, A(0), I->getOperand(0)->getType(), I->getType()); f.r[d.dst] = r; f.pc++; return; }
            case Instruction::Select: {
                Type* T = I->getType(); Val c = A(0), a = A(1), b = A(2), r;
                if (auto* vt = dyn_cast<FixedVectorType>(I->getOperand(0)->getType())) {
                    std::vector<Val> x; Type* et = cast<VectorType>(T)->getElementType();
                    for (unsigned i = 0; i < vt->getNumElements(); i++) x.push_back(sel(S, elem(c, i, vt->getElementType()), elem(a, i, et), elem(b, i, et), et)); r = VA(x);
                } else r = sel(S, c, a, b, T);
                S.fr.back().r[d.dst] = r; S.fr.back().pc++; return;
            }
            case Instruction::Freeze: {
                Val r = freeze(S, A(0), I->getType()); f.r[d.dst] = r; f.pc++; return;
            }
            case Instruction::ExtractValue: { auto* x = cast<ExtractValueInst>(I); Val v = A(0); Type* T = x->getAggregateOperand()->getType(); for (unsigned i : x->indices()) { Type* n = T->isStructTy() ? T->getStructElementType(i) : T->getArrayElementType(); v = elem(v, i, n); T = n; } f.r[d.dst] = v; f.pc++; return; }
            case Instruction::InsertValue: {
                auto* x = cast<InsertValueInst>(I); std::function<Val(Val, Type*, unsigned)> ins = [&](Val v, Type* T, unsigned k) -> Val {
                    if (k == x->getNumIndices()) return A(1);
                    if (!v.agg) v = undefv(T);
                    std::vector<Val> c = *v.agg; unsigned i = x->getIndices()[k]; Type* n = T->isStructTy() ? T->getStructElementType(i) : T->getArrayElementType(); c[i] = ins(c[i], n, k + 1); return VA(c); };
                f.r[d.dst] = ins(A(0), I->getType(), 0); f.pc++; return;
            }
            case Instruction::ExtractElement: { u64 i = conc(S, A(1), "vector index"); auto* vt = cast<FixedVectorType>(I->getOperand(0)->getType()); f.r[d.dst] = i < vt->getNumElements() ? elem(A(0), i, vt->getElementType()) : undefv(vt->getElementType()); f.pc++; return; }
            case Instruction::InsertElement: { u64 i = conc(S, A(2), "vector index"); auto* vt = cast<FixedVectorType>(I->getType()); Val b = A(0); if (!b.agg) b = undefv(vt); std::vector<Val> c = *b.agg; if (i < c.size()) c[i] = A(1); f.r[d.dst] = VA(c); f.pc++; return; }
            case Instruction::ShuffleVector: {
                auto* sv = cast<ShuffleVectorInst>(I); auto* vt = cast<FixedVectorType>(I->getOperand(0)->getType()); int n = vt->getNumElements(); std::vector<Val> r;
                for (int m : sv->getShuffleMask()) r.push_back(m < 0 ? undefv(vt->getElementType()) : m < n ? elem(A(0), m, vt->getElementType()) : elem(A(1), m - n, vt->getElementType()));
                f.r[d.dst] = VA(r); f.pc++; return;
            }
            case Instruction::AtomicRMW: {
                auto* x = cast<AtomicRMWInst>(I); Type* T = I->getType(); u64 p = addr(S, A(0), DL->getTypeStoreSize(T), "atomic"); Val o = load(S, p, T), v = A(1), n;
                switch (x->getOperation()) { case AtomicRMWInst::Add: n = ibin(S, Instruction::Add, o, v); break; case AtomicRMWInst::Sub: n = ibin(S, Instruction::Sub, o, v); break; case AtomicRMWInst::Xchg: n = v; break; case AtomicRMWInst::And: n = ibin(S, Instruction::And, o, v); break; case AtomicRMWInst::Or: n = ibin(S, Instruction::Or, o, v); break; default: throw Inconclusive("atomicrmw"); }
                store(S, p, n, T); f.r[d.dst] = o; f.pc++; return;
            }
            case Instruction::AtomicCmpXchg: {
                Type* T = I->getOperand(1)->getType(); u64 p = addr(S, A(0), DL->getTypeStoreSize(T), "atomic"); Val o = load(S, p, T); Val c = icmp(CmpInst::ICMP_EQ, o, A(1)); bool eq = c.conc() ? c.c : decide(S, c.e);
                if (eq) store(S, p, O(S, d.ops[2]), T); S.fr.back().r[d.dst] = VA({o, VI(eq, 1)}); S.fr.back().pc++; return;
            }
            case Instruction::Fence: f.pc++; return;
        }
        std::string s; raw_string_ostream os(s); I->print(os); throw Inconclusive("unsupported instruction: " + s);
    }
    Val freeze(State& S, const Val& v, Type* T) {
        if (v.agg) { std::vector<Val> r; for (unsigned i = 0; i < v.agg->size(); i++) { Type* et = T->isStructTy() ? T->getStructElementType(i) : T->isArrayTy() ? T->getArrayElementType() : cast<VectorType>(T)->getElementType(); r.push_back(freeze(S, (*v.agg)[i], et)); } return VA(r); }
        if (!isundef(v)) return v;
        E e = mkvar("!freeze" + std::to_string(S.fresh++), v.f ? (g_fpmode ? v.w : 64) : v.w, v.f); return VE(e, v.w, v.f);
    }

    // ---------- calls ----------
    void call(State& S, DInst& d, const CallBase* cb) {
        if (cb->isInlineAsm()) { finish(S, d, I0(d)); return; }
        const Function* F = cb->getCalledFunction(); size_t na = cb->arg_size();
        if (!F) {
            if (auto* g = dyn_cast<GlobalAlias>(cb->getCalledOperand()->stripPointerCasts())) F = dyn_cast<Function>(g->getAliasee()->stripPointerCasts());
            else if (auto* ff = dyn_cast<Function>(cb->getCalledOperand()->stripPointerCasts())) F = ff;
        }
        if (!F) {
            u64 a = conc(S, O(S, d.ops.back()), "function pointer"); auto it = fat.find(a);
            if (it == fat.end()) die(S, "memory", "call through an invalid function pointer");
            F = it->second;
        }
        std::vector<Val> args; args.reserve(na); for (size_t i = 0; i < na; i++) args.push_back(O(S, d.ops[i]));
        if (F->isIntrinsic()) { intrinsic(S, d, cb, F, args); return; }
        auto bm = bmemo.find(F); const Builtin* b;
        if (bm != bmemo.end()) b = bm->second;
        else { b = findbuiltin(F->getName().str(), F->isDeclaration()); bmemo[F] = b; }
        if (b) { (*b)(S, d, cb, args); return; }
        if (F->isDeclaration()) throw Inconclusive("call of a function without a body: " + demangle(F->getName().str()) + " [" + F->getName().str() + "]");
        pushframe(S, F, std::move(args), cb, d.dst);
    }
    Val I0(DInst& d) { if (d.dst < 0) return Val(); return undefv(d.I->getType()); }
    static bool starts(const std::string& s, const char* p) { return s.rfind(p, 0) == 0; }
    const Builtin* findbuiltin(const std::string& n, bool decl) {
        auto it = B.find(n);
        if (it != B.end()) { if (!starts(n, "sv_")) stubs.insert(n); return &it->second; }
        // text formatting: the text itself is not modelled
        static const char* pre[] = {"_ZNSolsE", "_ZNSo9_M_insertI", "_ZStlsI", "_ZStlsISt", "_ZSt16__ostream_insertI", "_ZSt4endlI", "_ZSt5flushI", "_ZN5EigenlsI", "_ZStlsIcSt11char_traits"};
        for (auto p : pre) if (starts(n, p)) { stubs.insert(n); return &B["!ostream"]; }
        if (starts(n, "_ZNSt7__cxx1118basic_stringstreamI") || starts(n, "_ZNSt7__cxx1119basic_ostringstreamI")) { stubs.insert(n); return &B["!ostream"]; }
        if (starts(n, "_ZNKSt7__cxx1118basic_stringstreamI") || starts(n, "_ZNKSt7__cxx1119basic_ostringstreamI")) { stubs.insert(n); return &B["!str"]; }
        return nullptr;
    }
    void intrinsic(State& S, DInst& d, const CallBase* cb, const Function* F, std::vector<Val>& a) {
        auto id = F->getIntrinsicID(); Type* T = cb->getType();
        auto fin1 = [&](const Val& v) { finish(S, d, v); };
        auto map1 = [&](auto fn) { Val r = lanes1(T, a[0], fn); finish(S, d, r); };
        auto map2 = [&](auto fn) { Val r = lanes(T, a[0], a[1], fn); finish(S, d, r); };
        switch (id) {
            case Intrinsic::dbg_declare: case Intrinsic::dbg_value: case Intrinsic::dbg_label: case Intrinsic::lifetime_end: case Intrinsic::donothing: case Intrinsic::experimental_noalias_scope_decl:
            case Intrinsic::invariant_start: case Intrinsic::invariant_end: case Intrinsic::prefetch: case Intrinsic::stackrestore: case Intrinsic::sideeffect: case Intrinsic::assume: case Intrinsic::var_annotation:
                finish(S, d, I0(d)); return;
            case Intrinsic::stacksave: fin1(VI(0, 64)); return;
            case Intrinsic::lifetime_start: {
                u64 p = a[1].c; auto it = S.mem.find(p >> 32); if (it != S.mem.end() && p == base(p >> 32)) { if (it->second.use_count() > 1) it->second = std::make_shared<Object>(*it->second); std::fill(it->second->st.begin(), it->second->st.end(), 0); }
                finish(S, d, Val()); return;
            }
            case Intrinsic::memcpy: case Intrinsic::memmove: case Intrinsic::memcpy_inline: { u64 n = conc(S, a[2], "copy size"); u64 p = addr(S, a[0], n, "write"), q = addr(S, a[1], n, "read"); copymem(S, p, q, n); finish(S, d, Val()); return; }
            case Intrinsic::memset: { u64 n = conc(S, a[2], "set size"); u64 p = addr(S, a[0], n, "write"); setmem(S, p, a[1], n); finish(S, d, Val()); return; }
            case Intrinsic::expect: case Intrinsic::expect_with_probability: case Intrinsic::launder_invariant_group: case Intrinsic::strip_invariant_group: case Intrinsic::ssa_copy: case Intrinsic::ptr_annotation: case Intrinsic::arithmetic_fence: fin1(a[0]); return;
            case Intrinsic::objectsize: fin1(VI(~0ull, tw(T))); return;
            case Intrinsic::is_constant: fin1(VI(0, 1)); return;
            case Intrinsic::trap: case Intrinsic::ubsantrap: case Intrinsic::debugtrap: die(S, "abort", "trap executed");
            case Intrinsic::eh_typeid_for: fin1(VI(tid(cast<GlobalValue>(cb->getArgOperand(0)->stripPointerCasts())->getName().str()), 32)); return;
            case Intrinsic::fabs: map1([&](const Val& x) { return fabsv(S, x); }); return;
            case Intrinsic::sqrt: map1([&](const Val& x) { return fsqrt(S, x); }); return;
            case Intrinsic::floor: map1([&](const Val& x) { return frint(S, x, 0); }); return;
            case Intrinsic::ceil: map1([&](const Val& x) { return frint(S, x, 1); }); return;
            case Intrinsic::trunc: map1([&](const Val& x) { return frint(S, x, 2); }); return;
            case Intrinsic::rint: case Intrinsic::nearbyint: case Intrinsic::roundeven: map1([&](const Val& x) { return frint(S, x, 3); }); return;
            case Intrinsic::round: map1([&](const Val& x) { return frint(S, x, 4); }); return;
            case Intrinsic::lround: case Intrinsic::llround: fin1(ftoi(S, a[0], tw(T), true, 4)); return;
            case Intrinsic::lrint: case Intrinsic::llrint: fin1(ftoi(S, a[0], tw(T), true, 3)); return;
            case Intrinsic::sin: map1([&](const Val& x) { return ffn(S, FN_SIN, {x}); }); return;
            case Intrinsic::cos: map1([&](const Val& x) { return ffn(S, FN_COS, {x}); }); return;
            case Intrinsic::exp: map1([&](const Val& x) { return ffn(S, FN_EXP, {x}); }); return;
            case Intrinsic::log: map1([&](const Val& x) { return ffn(S, FN_LOG, {x}); }); return;
            case Intrinsic::pow: map2([&](const Val& x, const Val& y) { return ffn(S, FN_POW, {x, y}); }); return;
            case Intrinsic::powi: { u64 n = conc(S, a[1], "power"); i64 k = (i64)sext128(n, a[1].w); Val r = VF(1, a[0].w); for (i64 i = 0; i < (k < 0 ? -k : k); i++) r = fbin(S, Instruction::FMul, r, a[0]); if (k < 0) r = fbin(S, Instruction::FDiv, VF(1, a[0].w), r); fin1(r); return; }
            case Intrinsic::fma: case Intrinsic::fmuladd: {
                Type* et = T->isVectorTy() ? cast<VectorType>(T)->getElementType() : T; unsigned n = T->isVectorTy() ? cast<FixedVectorType>(T)->getNumElements() : 1; std::vector<Val> r;
                if (g_fpmode && id == Intrinsic::fma) throw Inconclusive("fma in fp mode");
                for (unsigned i = 0; i < n; i++) { Val x = T->isVectorTy() ? elem(a[0], i, et) : a[0], y = T->isVectorTy() ? elem(a[1], i, et) : a[1], z = T->isVectorTy() ? elem(a[2], i, et) : a[2]; r.push_back(fbin(S, Instruction::FAdd, fbin(S, Instruction::FMul, x, y), z)); }
                fin1(T->isVectorTy() ? VA(r) : r[0]); return;
            }
            case Intrinsic::minnum: case Intrinsic::maxnum: case Intrinsic::minimum: case Intrinsic::maximum: {
                bool mn = id == Intrinsic::minnum || id == Intrinsic::minimum; bool prop = id == Intrinsic::minimum || id == Intrinsic::maximum;
                map2([&](const Val& x, const Val& y) { return fminmax(S, mn, prop, x, y); }); return;
            }
            case Intrinsic::copysign: map2([&](const Val& x, const Val& y) {
                if (x.conc() && y.conc()) return VF(std::copysign(fval(x.c, x.w), fval(y.c, y.w)), x.w);
                if (g_fpmode) throw Inconclusive("copysign in fp mode");
                Val m = fabsv(S, x); bool neg = y.conc() ? std::signbit(fval(y.c, y.w)) : decide(S, fcmpE(Op::FLt, y.e, mkq(0))); return neg ? fneg(m) : m; }); return;
            case Intrinsic::smax: map2([&](const Val& x, const Val& y) { return imm(S, CmpInst::ICMP_SGT, x, y); }); return;
            case Intrinsic::smin: map2([&](const Val& x, const Val& y) { return imm(S, CmpInst::ICMP_SLT, x, y); }); return;
            case Intrinsic::umax: map2([&](const Val& x, const Val& y) { return imm(S, CmpInst::ICMP_UGT, x, y); }); return;
            case Intrinsic::umin: map2([&](const Val& x, const Val& y) { return imm(S, CmpInst::ICMP_ULT, x, y); }); return;
            case Intrinsic::abs: { Val r = lanes1(T, a[0], [&](const Val& x) { Val z = VI(0, x.w); Val n = ibin(S, Instruction::Sub, z, x); Val c = icmp(CmpInst::ICMP_SLT, x, z); return c.conc() ? (c.c ? n : x) : isundef(c) ? x : VE(mk_ite(c.e, EX(n), EX(x)), x.w, false); }); fin1(r); return; }
            case Intrinsic::ctpop: { u64 x = conc(S, a[0], "ctpop operand"); fin1(VI(__builtin_popcountll(x), a[0].w)); return; }
            case Intrinsic::ctlz: { if (!a[0].conc()) { E e = a[0].e; E r = mkc(a[0].w, a[0].w); for (unsigned i = 0; i < a[0].w; i++) r = mk_ite(mk_cmp(Op::Eq, mk_extract(e, i, 1), mkc(1, 1)), mkc(a[0].w - 1 - i, a[0].w), r); fin1(VE(r, a[0].w, false)); return; } u64 x = a[0].c; unsigned n = 0; for (unsigned i = a[0].w; i-- > 0 && !(x >> i & 1);) n++; fin1(VI(n, a[0].w)); return; }
            case Intrinsic::cttz: { if (!a[0].conc()) { E e = a[0].e; E r = mkc(a[0].w, a[0].w); for (unsigned i = a[0].w; i-- > 0;) r = mk_ite(mk_cmp(Op::Eq, mk_extract(e, i, 1), mkc(1, 1)), mkc(i, a[0].w), r); fin1(VE(r, a[0].w, false)); return; } u64 x = a[0].c; unsigned n = 0; for (unsigned i = 0; i < a[0].w && !(x >> i & 1); i++) n++; fin1(VI(n, a[0].w)); return; }
            case Intrinsic::bswap: { E e = EX(a[0]); unsigned n = a[0].w / 8; E r = nullptr; for (unsigned i = 0; i < n; i++) { E b = mk_extract(e, 8 * i, 8); r = r ? mk_concat(r, b) : b; } fin1(VE(r, a[0].w, false)); return; }
            case Intrinsic::fshl: case Intrinsic::fshr: {
                unsigned w = a[0].w; u64 k = conc(S, a[2], "shift") % w; if (id == Intrinsic::fshr) k = (w - k) % w; // fshr(a,b,k) = fshl(a,b,w-k) except k==0 -> b
                if (k == 0) { fin1(id == Intrinsic::fshl ? a[0] : a[1]); return; }
                fin1(VE(mk_concat(mk_extract(EX(a[0]), 0, w - k), mk_extract(EX(a[1]), w - k, k)), w, false)); return;
            }
            case Intrinsic::umul_with_overflow: case Intrinsic::smul_with_overflow: case Intrinsic::uadd_with_overflow: case Intrinsic::sadd_with_overflow: case Intrinsic::usub_with_overflow: case Intrinsic::ssub_with_overflow: {
                bool sg = id == Intrinsic::smul_with_overflow || id == Intrinsic::sadd_with_overflow || id == Intrinsic::ssub_with_overflow;
                unsigned op = (id == Intrinsic::umul_with_overflow || id == Intrinsic::smul_with_overflow) ? Instruction::Mul : (id == Intrinsic::uadd_with_overflow || id == Intrinsic::sadd_with_overflow) ? Instruction::Add : Instruction::Sub;
                unsigned w = a[0].w; Val r = ibin(S, op, a[0], a[1]); Val o;
                if (a[0].conc() && a[1].conc()) {
                    i128 x = sg ? sext128(a[0].c, w) : (i128)a[0].c, y = sg ? sext128(a[1].c, w) : (i128)a[1].c; bool ov;
                    if (op == Instruction::Mul) { if (!sg) { u128 z = (u128)a[0].c * a[1].c; ov = z > maskw(w); } else { i128 z = x * y; ov = z != sext128((u128)z, w); } }
                    else { i128 z = op == Instruction::Add ? x + y : x - y; ov = sg ? z != sext128((u128)z, w) : (z < 0 || (u128)z > maskw(w)); }
                    o = VI(ov, 1);
                } else {
                    if (isundef(a[0]) || isundef(a[1])) { fin1(undefv(T)); return; }
                    unsigned W = op == Instruction::Mul ? 2 * w : w + 1; if (W > 128) W = 128;
                    E x = mk_ext(sg, EX(a[0]), W), y = mk_ext(sg, EX(a[1]), W); E z = mk_bin(op == Instruction::Mul ? Op::Mul : op == Instruction::Add ? Op::Add : Op::Sub, x, y);
                    o = VE(mk_not(mk_cmp(Op::Eq, z, mk_ext(sg, mk_extract(z, 0, w), W))), 1, false);
                }
                fin1(VA({r, o})); return;
            }
            case Intrinsic::usub_sat: map2([&](const Val& x, const Val& y) { Val c = icmp(CmpInst::ICMP_UGT, x, y); Val s = ibin(S, Instruction::Sub, x, y); return c.conc() ? (c.c ? s : VI(0, x.w)) : isundef(c) ? c : VE(mk_ite(c.e, EX(s), mkc(0, x.w)), x.w, false); }); return;
            case Intrinsic::uadd_sat: map2([&](const Val& x, const Val& y) { Val s = ibin(S, Instruction::Add, x, y); Val c = icmp(CmpInst::ICMP_ULT, s, x); return c.conc() ? (c.c ? VI(~0ull, x.w) : s) : isundef(c) ? c : VE(mk_ite(c.e, mkc(maskw(x.w), x.w), EX(s)), x.w, false); }); return;
            case Intrinsic::is_fpclass: {
                u64 m = a[1].c; Val x = a[0];
                if (isundef(x)) { fin1(undefv(T)); return; }
                auto cls = [&](double v) -> u64 { if (std::isnan(v)) return 3; if (std::isinf(v)) return v < 0 ? 4 : 512; if (v == 0) return std::signbit(v) ? 32 : 64; if (std::fabs(v) < 2.2250738585072014e-308) return v < 0 ? 16 : 128; return v < 0 ? 8 : 256; };
                if (x.conc()) { fin1(VI((cls(fval(x.c, x.w)) & m) != 0, 1)); return; }
                if (!g_fpmode) {
                    u64 fm = m & 0x1f8; if (fm == 0x1f8) { fin1(VI(1, 1)); return; } if (fm == 0) { fin1(VI(0, 1)); return; }
                    throw Inconclusive("partial fpclass test");
                }
                { E e = x.e; E r = mkfalse(); E inf = mkfc(x.w == 32 ? 0x7f800000ull : 0x7ff0000000000000ull, x.w), ninf = mkfc(x.w == 32 ? 0xff800000ull : 0xfff0000000000000ull, x.w);
                  E nan = mkraw(Op::FUno, false, 1, 0, {e, e}), isinf = mkraw(Op::FEq, false, 1, 0, {e, inf}), isninf = mkraw(Op::FEq, false, 1, 0, {e, ninf});
                  if ((m & 3) == 3) r = mk_or(r, nan); else if (m & 3) throw Inconclusive("partial nan class");
                  if (m & 512) r = mk_or(r, isinf); if (m & 4) r = mk_or(r, isninf);
                  u64 fm = m & 0x1f8; if (fm == 0x1f8) r = mk_or(r, mk_and(mk_not(nan), mk_and(mk_not(isinf), mk_not(isninf)))); else if (fm) throw Inconclusive("partial finite class");
                  fin1(VE(r, 1, false)); return; }
            }
            case Intrinsic::vector_reduce_add: case Intrinsic::vector_reduce_mul: case Intrinsic::vector_reduce_and: case Intrinsic::vector_reduce_or: case Intrinsic::vector_reduce_xor: {
                auto* vt = cast<FixedVectorType>(cb->getArgOperand(0)->getType()); unsigned op = id == Intrinsic::vector_reduce_add ? Instruction::Add : id == Intrinsic::vector_reduce_mul ? Instruction::Mul : id == Intrinsic::vector_reduce_and ? Instruction::And : id == Intrinsic::vector_reduce_or ? Instruction::Or : Instruction::Xor;
                Val r = elem(a[0], 0, vt->getElementType()); for (unsigned i = 1; i < vt->getNumElements(); i++) r = ibin(S, op, r, elem(a[0], i, vt->getElementType())); fin1(r); return;
            }
            case Intrinsic::vector_reduce_fadd: case Intrinsic::vector_reduce_fmul: {
                auto* vt = cast<FixedVectorType>(cb->getArgOperand(1)->getType()); Val r = a[0]; for (unsigned i = 0; i < vt->getNumElements(); i++) r = fbin(S, id == Intrinsic::vector_reduce_fadd ? Instruction::FAdd : Instruction::FMul, r, elem(a[1], i, vt->getElementType())); fin1(r); return;
            }
            case Intrinsic::ldexp: { u64 n = conc(S, a[1], "ldexp exponent"); i64 k = (i64)sext128(n, a[1].w); fin1(fbin(S, Instruction::FMul, a[0], VF(std::ldexp(1.0, (int)k), a[0].w))); return; }
            case Intrinsic::x86_sse2_cvtsd2si: case Intrinsic::x86_sse_cvtss2si: { fin1(ftoi(S, elem(a[0], 0, Type::getDoubleTy(C)), 32, true, 3)); return; }
            case Intrinsic::x86_sse2_cvtsd2si64: case Intrinsic::x86_sse_cvtss2si64: { fin1(ftoi(S, elem(a[0], 0, Type::getDoubleTy(C)), 64, true, 3)); return; }
            default: break;
        }
        throw Inconclusive("unsupported intrinsic " + F->getName().str());
    }
    Val imm(State& S, CmpInst::Predicate p, const Val& x, const Val& y) {
        Val c = icmp(p, x, y); if (c.conc()) return c.c ? x : y; if (isundef(c)) { Val v; v.w = x.w; v.e = mkundef(x.w, false); return v; }
        return VE(mk_ite(c.e, EX(x), EX(y)), x.w, false);
    }
    Val fminmax(State& S, bool mn, bool prop, const Val& x, const Val& y) {
        if (isundef(x)) return x; if (isundef(y)) return y;
        if (x.conc() && std::isnan(fval(x.c, x.w))) return prop ? x : y;
        if (y.conc() && std::isnan(fval(y.c, y.w))) return prop ? y : x;
        Val c = fcmp(S, CmpInst::FCMP_OLT, x, y); bool lt;
        if (c.conc()) lt = c.c; else {
            if (noforksel && !g_fpmode) return VE(mkraw(Op::Ite, true, 64, 0, {c.e, EX(mn ? x : y), EX(mn ? y : x)}), x.w, true);
            if (g_fpmode) {
                E un = mkraw(Op::FUno, false, 1, 0, {EX(x), EX(x)}); E r = mkraw(Op::Ite, true, x.w, 0, {c.e, EX(mn ? x : y), EX(mn ? y : x)});
                E uy = mkraw(Op::FUno, false, 1, 0, {EX(y), EX(y)}); r = mkraw(Op::Ite, true, x.w, 0, {uy, EX(x), r}); return VE(mkraw(Op::Ite, true, x.w, 0, {un, EX(y), r}), x.w, true);
            }
            lt = decide(S, c.e);
        }
        return (lt == mn) ? x : y;
    }
    void setmem(State& S, u64 p, const Val& v, u64 n) {
        if (!n) return; i64 o; Object* ob = look(S, p, n, o, true, "write (memset)");
        if (v.conc()) { for (u64 i = 0; i < n; i++) { ob->st[o + i] = 1; ob->by[o + i] = (u8)v.c; } return; }
        if (isundef(v)) { for (u64 i = 0; i < n; i++) ob->st[o + i] = 0; return; }
        ob->needsym(); for (u64 i = 0; i < n; i++) { ob->st[o + i] = 2; ob->sy[o + i] = SymB{v.e, 0, 0}; }
    }

    // ---------- checks ----------
    std::vector<E> bounds(State& S) { return {}; }
    void okcheck(const std::string& m) { checks[m]++; }
    bool outoftime() { return now() - tstart > maxtime; }
    void check(State& S, const Val& c, const std::string& msg) {
        checkq++; okcheck(msg);
        if (c.conc()) { if (c.c & 1) { checktriv++; return; } failpath(S, "check", msg); throw Kill(); }
        if (isundef(c)) uninit(S, "checked value is uninitialised: " + msg);
        E n = mk_not(c.e);
        int k = lookup(S, c.e); if (k < 0) k = quick(c.e);
        if (k == 1) { checkpoly++; return; }
        if (k == 0) { failpath(S, "check", msg); throw Kill(); }
        E nc = normcond(c.e); if (istrue(nc)) { checkpoly++; return; } if (isfalse(nc)) { failpath(S, "check", msg); throw Kill(); }
        n = mk_not(nc);
        Res r = sol.check(S.pc, {n}, 3000);
        if (r == Res::Unsat) { checkraw++; assume(S, c.e); return; }
        if (r == Res::Unknown) { r = sol.check(S.pc, {n}, sol.default_timeout); if (r == Res::Unsat) { checkfull++; assume(S, c.e); return; } }
        failpath(S, "check", msg, {n}); 
        throw Kill();
    }
    double tol = 1e-7; unsigned confirm_ms = 150; double confirm_spent = 0, confirm_budget = 10; u64 confirmed = 0; std::vector<Failure> wit;
    void checkeq(State& S, Val a, Val b, const std::string& msg) {
        checkq++; okcheck(msg);
        if (isundef(a) || isundef(b)) uninit(S, "checked value is uninitialised: " + msg);
        auto nonfin = [&](const Val& v) { return v.conc() && !fin(v); };
        if (a.conc() && b.conc() && (g_fpmode || nonfin(a) || nonfin(b))) {
            double x = fval(a.c, a.w), y = fval(b.c, b.w);
            if (x == y || (std::isnan(x) && std::isnan(y)) || (std::isfinite(x) && std::isfinite(y) && std::fabs(x - y) <= tol * (1 + std::fabs(x) + std::fabs(y)))) { checktriv++; return; }
            failpath(S, "check", msg); throw Kill();
        }
        if (!g_fpmode && (nonfin(a) || nonfin(b))) { failpath(S, "check", msg + " (non-finite result)"); throw Kill(); }
        E x = EX(a), y = EX(b);
        if (x == y) { checktriv++; return; }
        if (g_fpmode) {
            E un = mk_and(mkraw(Op::FUno, false, 1, 0, {x, x}), mkraw(Op::FUno, false, 1, 0, {y, y})); E ok = mk_or(mkraw(Op::FEq, false, 1, 0, {x, y}), un);
            check(S, VE(ok, 1, false), msg); checkq--; return;
        }
        // constants that differ only by rounding of library constants or concrete transcendental values
        if (x->op == Op::RConst && y->op == Op::RConst) { mpq_class d = abs(*x->q - *y->q); double m = std::fabs(x->q->get_d()) + 1; if (d.get_d() <= tol * m) { checktriv++; return; } failpath(S, "check", msg); throw Kill(); }
        E dif = mkraw(Op::FSub, true, 64, 0, {x, y}); E ne = mk_not(fcmpE(Op::FEq, x, y));
        bool big = dagsz(dif, 1500) >= 1500; std::string why;
        // normal form
        E num = nullptr;
        if (now() - tstart < maxtime) try {
            Frac d = sol.alg.add(sol.alg.frac(x), sol.alg.frac(y), -1);
            if (d.n.zero()) {
                checkpoly++;
                if (!big && confirm_ms && confirm_spent < confirm_budget) {
                    double t0 = now(); Res r = sol.check(S.pc, {ne}, confirm_ms); confirm_spent += now() - t0;
                    if (r == Res::Unsat) confirmed++; else if (r == Res::Sat) throw Inconclusive("self-check: Z3 and the normal form disagree on: " + msg);
                }
                if (verbose) std::cerr << "eq(nf) " << msg << "\n"; return;
            }
            // coefficients that only differ by rounding of floating-point literals
            bool tiny = true; for (auto& t : d.n.t) if (std::fabs(t.second.get_d()) > 1e-9) tiny = false;
            if (tiny && d.d.empty() && d.n.t.size() < 500) { checkpoly++; return; }
            if (d.n.t.size() < 3000) num = sol.poly2e(d.n);
            if (verbose) std::cerr << "neq(nf) " << msg << ": " << d.n.t.size() << " terms\n";
        } catch (PolyTooBig&) { why = "normal form too large"; if (verbose) std::cerr << "nf too big " << msg << "\n"; }
        if (!big) { Res r = sol.check(S.pc, {ne}, 2000); if (r == Res::Unsat) { checkraw++; return; } }
        if (num) {
            Res r = sol.check(S.pc, {mk_not(fcmpE(Op::FEq, num, mkq(0)))}, 4000);
            if (r == Res::Unsat) { checkfull++; return; }
        }
        // look for a well separated counterexample first
        Model m; E mg = mkq(mpq_class(margin)); E ng = mkq(mpq_class(-margin));
        E dd = dif;
        std::vector<E> sep = {mk_or(fcmpE(Op::FLe, mg, dd), fcmpE(Op::FLe, dd, ng))};
        std::string key = "check|" + msg + "|" + topline(S);
        if (failkeys[key] >= 4) throw Kill();
        bool found = false;
        if (!big && sol.check(S.pc, sep, 3000, &m, wants(S)) == Res::Sat) { record(S, "check", msg, &m); found = true; }
        else if (sample(S, sep, m)) { record(S, "check", msg, &m); found = true; }
        if (found) { failkeys[key]++; throw Kill(); }
        Res r = sol.check(S.pc, {num ? mk_not(fcmpE(Op::FEq, num, mkq(0))) : ne}, sol.default_timeout, &m, wants(S));
        if (r == Res::Unsat) { checkfull++; return; }
        if (r == Res::Sat) { record(S, "check", msg, &m); failkeys[key]++; throw Kill(); }
        if (sample(S, {ne}, m)) { record(S, "check", msg, &m); failkeys[key]++; throw Kill(); }
        incon.push_back("undecided: " + msg + " " + why);
    }

    // ---------- builtins ----------
    std::string vname(State& S, u64 p) { std::string n = cstr(S, p); int k = ++S.names[n]; if (k > 1) n += "#" + std::to_string(k); return n; }
    double cdbl(const Val& v) { if (!v.conc()) throw Inconclusive("symbolic bound"); return fval(v.c, v.w); }
    Val mkreal(State& S, std::vector<Val>& a, unsigned w) {
        std::string n = vname(S, a[0].c); double lo = cdbl(a[1]), hi = cdbl(a[2]); E v = mkvar(n, g_fpmode ? w : 64, true); frange[v] = {lo, hi};
        auto K = [&](double d) { return g_fpmode ? mkfc(w == 32 ? fbits((float)d) : dbits(d), w) : mkq(mpq_class(d)); };
        if (g_fpmode) { S.pc.push_back(mkraw(Op::FLe, false, 1, 0, {K(lo), v})); S.pc.push_back(mkraw(Op::FLe, false, 1, 0, {v, K(hi)})); }
        else { if (std::isfinite(lo)) assume(S, fcmpE(Op::FLe, K(lo), v)); if (std::isfinite(hi)) assume(S, fcmpE(Op::FLe, v, K(hi))); }
        S.inputs.push_back({v, n, ""}); Val r; r.e = v; r.w = w; r.f = true; return r;
    }
    Val mkint(State& S, std::vector<Val>& a, unsigned w, bool sg) {
        std::string n = vname(S, a[0].c); E v = mkvar(n, w, false); u64 lo = a[1].c, hi = a[2].c;
        if (!a[1].conc() || !a[2].conc()) throw Inconclusive("symbolic bound");
        if (sg) set_var_range(v, sext128(lo, a[1].w), sext128(hi, a[2].w), true); else set_var_range(v, lo, hi, false);
        E L = mkc(lo, w), H = mkc(hi, w);
        E c1 = mkraw(sg ? Op::Sle : Op::Ule, false, 1, 0, {L, v}), c2 = mkraw(sg ? Op::Sle : Op::Ule, false, 1, 0, {v, H});
        S.pc.push_back(c1); S.pc.push_back(c2); S.inputs.push_back({v, n, ""}); Val r; r.e = v; r.w = w; return r;
    }
    u64 cmalloc(State& S, const Val& n, bool zero = false) { u64 k = conc(S, n, "allocation size"); if (k > (64u << 20)) { throw Inconclusive("allocation of more than 64 MB"); } u64 p = alloc(S, k, 0); if (zero) { auto& o = *S.mem[p >> 32]; std::fill(o.st.begin(), o.st.end(), 1); } return p; }
    void cfree(State& S, const Val& v) {
        u64 p = conc(S, v, "free'd pointer"); if (!p) return; auto it = S.mem.find(p >> 32);
        if (it == S.mem.end()) die(S, "memory", "free of an invalid or already freed pointer");
        if (p != base(p >> 32) || it->second->kind != 0) die(S, "memory", "free of a pointer that is not a heap allocation");
        S.mem.erase(it);
    }
    void initbuiltins() {
        auto reg = [&](std::initializer_list<const char*> ns, Builtin b) { for (auto n : ns) B[n] = b; };
        typedef std::vector<Val>& V;
        reg({"malloc", "_Znwm", "_Znam", "_ZnwmRKSt9nothrow_t", "_ZnamRKSt9nothrow_t"}, [this](State& S, DInst& d, const CallBase*, V a) { u64 p = cmalloc(S, a[0]); finish(S, d, VI(p, 64)); });
        reg({"_ZnwmSt11align_val_t", "_ZnamSt11align_val_t"}, [this](State& S, DInst& d, const CallBase*, V a) { u64 p = cmalloc(S, a[0]); finish(S, d, VI(p, 64)); });
        reg({"aligned_alloc", "memalign"}, [this](State& S, DInst& d, const CallBase*, V a) { u64 p = cmalloc(S, a[1]); finish(S, d, VI(p, 64)); });
        reg({"posix_memalign"}, [this](State& S, DInst& d, const CallBase*, V a) { u64 p = cmalloc(S, a[2]); store(S, a[0].c, VI(p, 64), PointerType::get(C, 0)); finish(S, d, VI(0, 32)); });
        reg({"calloc"}, [this](State& S, DInst& d, const CallBase*, V a) { u64 n = conc(S, a[0], "size"), m = conc(S, a[1], "size"); u64 p = cmalloc(S, VI(n * m, 64), true); finish(S, d, VI(p, 64)); });
        reg({"realloc"}, [this](State& S, DInst& d, const CallBase*, V a) { u64 n = conc(S, a[1], "size"); u64 q = conc(S, a[0], "pointer"); u64 p = cmalloc(S, VI(n, 64)); if (q) { u64 o = S.mem.count(q >> 32) ? S.mem[q >> 32]->size : 0; copymem(S, p, q, std::min(n, o)); cfree(S, VI(q, 64)); } finish(S, d, VI(p, 64)); });
        reg({"free", "_ZdlPv", "_ZdaPv", "_ZdlPvm", "_ZdaPvm", "_ZdlPvSt11align_val_t", "_ZdlPvmSt11align_val_t", "_ZdaPvSt11align_val_t"}, [this](State& S, DInst& d, const CallBase*, V a) { cfree(S, a[0]); finish(S, d, Val()); });
        reg({"memcpy", "memmove"}, [this](State& S, DInst& d, const CallBase*, V a) { u64 n = conc(S, a[2], "copy size"); copymem(S, conc(S, a[0], "pointer"), conc(S, a[1], "pointer"), n); finish(S, d, a[0]); });
        reg({"memset"}, [this](State& S, DInst& d, const CallBase*, V a) { u64 n = conc(S, a[2], "size"); setmem(S, conc(S, a[0], "pointer"), castv(S, Instruction::Trunc, a[1], Type::getInt8Ty(C)), n); finish(S, d, a[0]); });
        reg({"memcmp", "bcmp", "strncmp", "strcmp"}, [this](State& S, DInst& d, const CallBase* cb, V a) {
            std::string nm = cb->getCalledFunction()->getName().str(); bool str = nm[0] == 's'; u64 n = nm == "strcmp" ? ~0ull : conc(S, a[2], "size"); u64 p = conc(S, a[0], "pointer"), q = conc(S, a[1], "pointer"); int r = 0; Type* T = Type::getInt8Ty(C);
            for (u64 i = 0; i < n && !r; i++) {
                Val x = ldscalar(S, p + i, T), y = ldscalar(S, q + i, T); if (isundef(x) || isundef(y)) uninit(S, "comparison of uninitialised memory");
                if (x.conc() && y.conc()) { r = (int)x.c - (int)y.c; if (str && !x.c) break; }
                else { Val c = icmp(CmpInst::ICMP_EQ, x, y); if (!(c.conc() ? c.c : decide(S, c.e))) { Val l = icmp(CmpInst::ICMP_ULT, x, y); r = (l.conc() ? l.c : decide(S, l.e)) ? -1 : 1; } else if (str) { Val z = icmp(CmpInst::ICMP_EQ, x, VI(0, 8)); if (z.conc() ? z.c : decide(S, z.e)) break; } }
            }
            finish(S, d, VI((u64)(i64)r, 32)); });
        reg({"memchr"}, [this](State& S, DInst& d, const CallBase*, V a) { u64 n = conc(S, a[2], "size"), p = conc(S, a[0], "pointer"); u64 r = 0; for (u64 i = 0; i < n && !r; i++) { Val x = ldscalar(S, p + i, Type::getInt8Ty(C)); if (!x.conc()) throw Inconclusive("memchr on symbolic data"); if (x.c == (a[1].c & 255)) r = p + i; } finish(S, d, VI(r, 64)); });
        reg({"strlen"}, [this](State& S, DInst& d, const CallBase*, V a) { std::string s = cstr(S, conc(S, a[0], "string")); finish(S, d, VI(s.size(), 64)); });
        // libm
        struct FN { const char* n; u32 f; int ar; };
        static const FN fns[] = {{"sin", FN_SIN, 1}, {"cos", FN_COS, 1}, {"tan", FN_TAN, 1}, {"asin", FN_ASIN, 1}, {"acos", FN_ACOS, 1}, {"atan", FN_ATAN, 1}, {"atan2", FN_ATAN2, 2}, {"exp", FN_EXP, 1}, {"log", FN_LOG, 1}, {"pow", FN_POW, 2}, {"fmod", FN_FMOD, 2}};
        for (auto& x : fns) for (int t = 0; t < 2; t++) { u32 f = x.f; int ar = x.ar; B[std::string(x.n) + (t ? "f" : "")] = [this, f, ar](State& S, DInst& d, const CallBase*, V a) { Val r = ar == 1 ? ffn(S, f, {a[0]}) : ffn(S, f, {a[0], a[1]}); finish(S, d, r); }; }
        reg({"sincos"}, [this](State& S, DInst& d, const CallBase*, V a) { Val s = ffn(S, FN_SIN, {a[0]}), c = ffn(S, FN_COS, {a[0]}); store(S, a[1].c, s, Type::getDoubleTy(C)); store(S, a[2].c, c, Type::getDoubleTy(C)); finish(S, d, Val()); });
        reg({"sqrt", "sqrtf"}, [this](State& S, DInst& d, const CallBase*, V a) { Val r = fsqrt(S, a[0]); finish(S, d, r); });
        reg({"fabs", "fabsf"}, [this](State& S, DInst& d, const CallBase*, V a) { Val r = fabsv(S, a[0]); finish(S, d, r); });
        reg({"hypot", "hypotf"}, [this](State& S, DInst& d, const CallBase*, V a) { Val r = fsqrt(S, fbin(S, Instruction::FAdd, fbin(S, Instruction::FMul, a[0], a[0]), fbin(S, Instruction::FMul, a[1], a[1]))); finish(S, d, r); });
        const char* rn[] = {"floor", "ceil", "trunc", "rint", "round"};
        for (int m = 0; m < 5; m++) for (int t = 0; t < 2; t++) B[std::string(rn[m]) + (t ? "f" : "")] = [this, m](State& S, DInst& d, const CallBase*, V a) { Val r = frint(S, a[0], m); finish(S, d, r); };
        reg({"nearbyint", "nearbyintf"}, [this](State& S, DInst& d, const CallBase*, V a) { Val r = frint(S, a[0], 3); finish(S, d, r); });
        reg({"lround", "llround", "lroundf"}, [this](State& S, DInst& d, const CallBase*, V a) { Val r = ftoi(S, a[0], 64, true, 4); finish(S, d, r); });
        reg({"lrint", "llrint", "lrintf"}, [this](State& S, DInst& d, const CallBase*, V a) { Val r = ftoi(S, a[0], 64, true, 3); finish(S, d, r); });
        reg({"fmin", "fminf"}, [this](State& S, DInst& d, const CallBase*, V a) { Val r = fminmax(S, true, false, a[0], a[1]); finish(S, d, r); });
        reg({"fmax", "fmaxf"}, [this](State& S, DInst& d, const CallBase*, V a) { Val r = fminmax(S, false, false, a[0], a[1]); finish(S, d, r); });
        // runtime
        reg({"__cxa_atexit", "__cxa_guard_release", "__cxa_guard_abort", "_ZNSt8ios_base4InitC1Ev", "_ZNSt8ios_base4InitD1Ev", "_ZSt21ios_base_library_initv", "pthread_mutex_init", "pthread_mutex_destroy", "pthread_once", "pthread_mutexattr_init", "pthread_mutexattr_destroy", "pthread_mutexattr_settype", "printf", "puts", "putchar", "fflush", "fwrite", "fprintf", "_ZNSo5flushEv", "_ZNSolsEPFRSoS_E", "_ZNSo3putEc", "_ZNSaIcEC1Ev", "_ZNSaIcED1Ev", "_ZNSaIcEC1ERKS_", "_ZNSaIcEC2ERKS_", "_ZNSaIcED2Ev", "_ZNSaIcEC2Ev"}, [this](State& S, DInst& d, const CallBase* cb, V a) { Val r; if (cb->getType()->isIntegerTy()) r = VI(0, tw(cb->getType())); else if (cb->getType()->isPointerTy()) r = a.empty() ? VI(0, 64) : a[0]; finish(S, d, r); });
        // a mutex's state is kept where glibc keeps it: locked at 0, count at 4, kind at 16 (1: recursive); one thread, so locking a held mutex would never return
        auto mutex = [this](State& S, DInst& d, const V& a, int op) {
            u64 m = a[0].c; Type* I = Type::getInt32Ty(C); u64 held = ldscalar(S, m, I).c, n = ldscalar(S, m + 4, I).c; bool rec = (ldscalar(S, m + 16, I).c & 127) == 1; int r = 0;
            if (op == 0) { if (!held) { stbytes(S, m, VI(1, 32), 4); stbytes(S, m + 4, VI(1, 32), 4); } else if (rec) stbytes(S, m + 4, VI(n + 1, 32), 4); else if (op == 0) { failpath(S, "hang", "a mutex that is already held is locked again"); return; } }
            if (op == 1) { if (rec && n > 1) stbytes(S, m + 4, VI(n - 1, 32), 4); else { stbytes(S, m, VI(0, 32), 4); stbytes(S, m + 4, VI(0, 32), 4); } }
            if (op == 2) { if (!held) { stbytes(S, m, VI(1, 32), 4); stbytes(S, m + 4, VI(1, 32), 4); } else if (rec) stbytes(S, m + 4, VI(n + 1, 32), 4); else r = 16; }
            finish(S, d, VI(r, 32));
        };
        reg({"pthread_mutex_lock"}, [mutex](State& S, DInst& d, const CallBase*, V a) { mutex(S, d, a, 0); });
        reg({"pthread_mutex_unlock"}, [mutex](State& S, DInst& d, const CallBase*, V a) { mutex(S, d, a, 1); });
        reg({"pthread_mutex_trylock"}, [mutex](State& S, DInst& d, const CallBase*, V a) { mutex(S, d, a, 2); });
        reg({"__cxa_guard_acquire"}, [this](State& S, DInst& d, const CallBase*, V a) { Val v = ldscalar(S, a[0].c, Type::getInt8Ty(C)); bool first = v.c == 0; if (first) stbytes(S, a[0].c, VI(1, 8), 1); finish(S, d, VI(first, 32)); });
        reg({"__cxa_allocate_exception"}, [this](State& S, DInst& d, const CallBase*, V a) { u64 p = cmalloc(S, a[0]); finish(S, d, VI(p, 64)); });
        reg({"__cxa_free_exception"}, [this](State& S, DInst& d, const CallBase*, V a) { cfree(S, a[0]); finish(S, d, Val()); });
        reg({"__cxa_init_primary_exception"}, [this](State& S, DInst& d, const CallBase*, V a) { S.exti[a[0].c] = a[1].c; finish(S, d, a[0]); });
        reg({"__cxa_throw"}, [this](State& S, DInst& d, const CallBase*, V a) { throwx(S, a[0].c, a[1].c); });
        reg({"__cxa_begin_catch", "__cxa_get_exception_ptr"}, [this](State& S, DInst& d, const CallBase* cb, V a) { if (cb->getCalledFunction()->getName() == "__cxa_begin_catch") S.exc.push_back({a[0].c, S.exti[a[0].c]}); finish(S, d, a[0]); });
        reg({"__cxa_end_catch"}, [this](State& S, DInst& d, const CallBase*, V) { if (!S.exc.empty()) S.exc.pop_back(); finish(S, d, Val()); });
        reg({"__cxa_rethrow"}, [this](State& S, DInst& d, const CallBase*, V) { if (S.exc.empty()) die(S, "abort", "rethrow without an exception"); auto e = S.exc.back(); throwx(S, e.first, e.second); });
        reg({"__assert_fail"}, [this](State& S, DInst& d, const CallBase*, V a) { die(S, "abort", "assertion failed: " + cstr(S, a[0].c)); });
        reg({"abort", "_ZSt9terminatev", "exit", "_exit", "__cxa_pure_virtual", "_ZSt10unexpectedv", "__stack_chk_fail", "_ZSt21__glibcxx_assert_failPKciS0_S0_"}, [this](State& S, DInst& d, const CallBase* cb, V) { die(S, "abort", "program terminated by " + (cb->getCalledFunction() ? demangle(cb->getCalledFunction()->getName().str()) : std::string("a pure virtual call"))); });
        reg({"__dynamic_cast"}, [this](State& S, DInst& d, const CallBase*, V a) {
            u64 p = conc(S, a[0], "pointer"); if (!p) { finish(S, d, VI(0, 64)); return; }
            Type* P = PointerType::get(C, 0); u64 vt = ldscalar(S, p, P).c; i64 top = (i64)ldscalar(S, vt - 16, Type::getInt64Ty(C)).c; u64 ti = ldscalar(S, vt - 8, P).c; u64 full = p + top; i64 off = 0;
            bool ok = derives(tiname(ti), tiname(a[2].c), off); finish(S, d, VI(ok ? full + off : 0, 64)); });
        reg({"__cxa_bad_cast", "__cxa_bad_typeid", "__cxa_throw_bad_array_new_length"}, [this](State& S, DInst& d, const CallBase*, V) { die(S, "exception", "bad cast / typeid / array length"); });
        reg({"__errno_location"}, [this](State& S, DInst& d, const CallBase*, V) { if (!S.errnoobj) { S.errnoobj = alloc(S, 8, 2); setmem(S, S.errnoobj, VI(0, 8), 8); } finish(S, d, VI(S.errnoobj, 64)); });
        reg({"!ostream"}, [this](State& S, DInst& d, const CallBase* cb, V a) { Val r; if (cb->getType()->isIntegerTy()) r = VI(0, tw(cb->getType())); else if (cb->getType()->isPointerTy()) r = a[0]; finish(S, d, r); });
        reg({"!str"}, [this](State& S, DInst& d, const CallBase* cb, V a) { u64 p = a[0].c; Type* I64 = Type::getInt64Ty(C); store(S, p, VI(p + 16, 64), I64); store(S, p + 8, VI(0, 64), I64); stbytes(S, p + 16, VI(0, 8), 1); finish(S, d, Val()); });
        // harness interface
        reg({"sv_real"}, [this](State& S, DInst& d, const CallBase*, V a) { Val v = mkreal(S, a, 64); finish(S, d, v); });
        reg({"sv_realf"}, [this](State& S, DInst& d, const CallBase*, V a) { Val v = mkreal(S, a, 32); finish(S, d, v); });
        reg({"sv_i32"}, [this](State& S, DInst& d, const CallBase*, V a) { Val v = mkint(S, a, 32, true); finish(S, d, v); });
        reg({"sv_i64"}, [this](State& S, DInst& d, const CallBase*, V a) { Val v = mkint(S, a, 64, true); finish(S, d, v); });
        reg({"sv_u32"}, [this](State& S, DInst& d, const CallBase*, V a) { Val v = mkint(S, a, 32, false); finish(S, d, v); });
        reg({"sv_u64"}, [this](State& S, DInst& d, const CallBase*, V a) { Val v = mkint(S, a, 64, false); finish(S, d, v); });
        reg({"sv_u16"}, [this](State& S, DInst& d, const CallBase*, V a) { Val v = mkint(S, a, 16, false); finish(S, d, v); });
        reg({"sv_u8"}, [this](State& S, DInst& d, const CallBase*, V a) { Val v = mkint(S, a, 8, false); finish(S, d, v); });
        reg({"sv_bool"}, [this](State& S, DInst& d, const CallBase*, V a) { std::string n = vname(S, a[0].c); E v = mkvar(n, 1, false); S.inputs.push_back({v, n, ""}); finish(S, d, VE(v, 1, false)); });
        reg({"sv_choice"}, [this](State& S, DInst& d, const CallBase*, V a) {
            std::string n = cstr(S, a[0].c); int k = S.names[n] + 1; std::string nn = k > 1 ? n + "#" + std::to_string(k) : n; E e = mkvar("!choice_" + nn, 32, false); auto it = S.kval.find(e); u64 v;
            u64 cnt = conc(S, a[1], "choice count"); if (!cnt) throw Kill();
            if (it != S.kval.end()) v = it->second; else {
                for (u64 i = 1; i < cnt; i++) { auto N = std::make_unique<State>(S); N->kval[e] = i; forks++; addstate(std::move(N)); }
                S.kval[e] = 0; v = 0;
            }
            S.names[n] = k; S.inputs.push_back({nullptr, nn, std::to_string(v)}); finish(S, d, VI(v, 32)); });
        reg({"sv_square"}, [this](State& S, DInst& d, const CallBase*, V a) {
            if (a[0].conc() || a[0].e->op != Op::Var) throw Inconclusive("sv_square needs an input"); E v = a[0].e, r = EX(a[1]); leading.insert(v);
            for (u32 id : sol.vars(r)) unitmember.insert(sol.varbyid[id]);
            sol.alg.declare_square(v, r); S.pc.push_back(fcmpE(Op::FEq, mkraw(Op::FMul, true, 64, 0, {v, v}), r)); finish(S, d, Val()); });
        reg({"sv_assume"}, [this](State& S, DInst& d, const CallBase*, V a) {
            if (a[0].conc()) { if (!(a[0].c & 1)) throw Kill(); finish(S, d, Val()); return; }
            if (isundef(a[0])) uninit(S, "assumption over an uninitialised value");
            int k = lookup(S, a[0].e); if (k < 0) k = quick(a[0].e); if (k == 0) throw Kill();
            if (k < 0) { if (sol.check(S.pc, {a[0].e}, 2000) == Res::Unsat) throw Kill(); assume(S, a[0].e); } finish(S, d, Val()); });
        reg({"sv_check"}, [this](State& S, DInst& d, const CallBase*, V a) { check(S, a[0], cstr(S, a[1].c)); finish(S, d, Val()); });
        reg({"sv_eq"}, [this](State& S, DInst& d, const CallBase*, V a) { checkeq(S, a[0], a[1], cstr(S, a[2].c)); finish(S, d, Val()); });
        reg({"sv_tol"}, [this](State& S, DInst& d, const CallBase*, V a) { tol = cdbl(a[0]); margin = std::max(1e-4, tol * 50); finish(S, d, Val()); });
        reg({"sv_fail"}, [this](State& S, DInst& d, const CallBase*, V a) { checkq++; failpath(S, "check", cstr(S, a[0].c)); throw Kill(); });
        reg({"sv_cover"}, [this](State& S, DInst& d, const CallBase*, V a) { std::string l = cstr(S, a[0].c); u64& n = covers[l]; if (n == 0) { Model m; if (sample(S, {}, m) || sol.check(S.pc, {}, 5000, &m, wants(S)) == Res::Sat) { n++; Failure f; f.msg = l; fillinputs(S, f, m); wit.push_back(f); } } else n++; finish(S, d, Val()); });
        reg({"sv_symbolic"}, [this](State& S, DInst& d, const CallBase*, V a) { finish(S, d, VI(1, 32)); });
        reg({"sv_isconc"}, [this](State& S, DInst& d, const CallBase*, V a) { finish(S, d, VI(a[0].conc(), 1)); });
        // fork on a boolean so that the rest of the path sees a concrete value
        reg({"sv_split"}, [this](State& S, DInst& d, const CallBase*, V a) { bool r = a[0].conc() ? (a[0].c & 1) : decide(S, a[0].e); finish(S, d, VI(r, 1)); });
        reg({"sv_print"}, [this](State& S, DInst& d, const CallBase*, V a) {
            if (verbose) { std::cerr << "sv_print " << cstr(S, a[0].c) << " = "; const Val& v = a[1]; if (v.conc()) std::cerr << fval(v.c, v.w); else try { std::cerr << sol.alg.fstr(sol.alg.frac(EX(v))); } catch (std::exception& e) { std::cerr << "?"; } std::cerr << "\n"; } finish(S, d, Val()); });
    }
    void run(const Function* F) {
        initbuiltins();
        auto S0 = std::make_unique<State>();
        pushframe(*S0, F, {}, nullptr, -1);
        if (auto* gc = M->getNamedGlobal("llvm.global_ctors")) if (auto* ca = dyn_cast<ConstantArray>(gc->getInitializer())) {
            std::vector<std::pair<u64, const Function*>> cs;
            for (auto& op : ca->operands()) { auto* s = cast<ConstantStruct>(op.get()); if (auto* cf = dyn_cast<Function>(s->getOperand(1)->stripPointerCasts())) cs.push_back({cast<ConstantInt>(s->getOperand(0))->getZExtValue(), cf}); }
            std::stable_sort(cs.begin(), cs.end(), [](auto& a, auto& b) { return a.first < b.first; });
            for (size_t i = cs.size(); i-- > 0;) pushframe(*S0, cs[i].second, {}, nullptr, -1);
        }
        work.push_back(std::move(S0));
        u64 tick = 0;
        while (!work.empty()) {
            auto S = std::move(work.back()); work.pop_back();
            if (outoftime()) { incon.push_back("time budget exhausted with " + std::to_string(work.size() + 1) + " paths pending"); break; }
            if (paths + killed >= maxpaths) { incon.push_back("path bound exhausted"); break; }
            if (stop_first && fails.size() >= 6) break;
            try {
                for (;;) {
                    step(*S);
                    if ((++tick & 0xfff) == 0) { if (outoftime()) throw Inconclusive("time budget exhausted"); if (S->insts > maxinsts) throw Inconclusive("instruction bound of a path exhausted"); }
                }
            } catch (Done&) { paths++; }
            catch (Kill&) { killed++; }
            catch (Inconclusive& e) { std::string m = std::string(e.what()) + " at " + topline(*S); if (verbose) std::cerr << "INCONCLUSIVE " << m << "\n" << loc(*S); incon.push_back(m); }
            catch (z3::exception& e) { incon.push_back(std::string("z3: ") + e.msg() + " at " + topline(*S)); }
            catch (PolyTooBig&) { incon.push_back("normal form too large at " + topline(*S)); }
            catch (std::runtime_error& e) { incon.push_back(std::string(e.what()) + " at " + topline(*S)); }
        }
    }
