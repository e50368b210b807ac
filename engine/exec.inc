// ------------------------------------------------------------------------------------------
// Constants and function compilation
static Val evalConst(const Constant* c);
static u64 constAddr(const Constant* c) { Val v = evalConst(c); return v.c; }
static Val evalConst(const Constant* c) {
    Type* t = c->getType();
    if (auto* ci = dyn_cast<ConstantInt>(c)) return Val::big(ci->getValue());
    if (auto* cf = dyn_cast<ConstantFP>(c)) return Val::big(cf->getValueAPF().bitcastToAPInt());
    if (isa<ConstantPointerNull>(c)) return Val(0, 64);
    if (auto* ga = dyn_cast<GlobalAlias>(c)) return evalConst(ga->getAliasee());
    if (auto* gv = dyn_cast<GlobalValue>(c)) {
        auto it = gaddr.find(gv);
        if (it == gaddr.end()) undecided("no address for " + gv->getName().str());
        return Val(it->second, 64);
    }
    if (isAggTy(t)) {
        std::vector<Val> v;
        for (unsigned i = 0; i < aggN(t); ++i) {
            Constant* e = c->getAggregateElement(i);
            if (!e) undecided("aggregate constant");
            v.push_back(evalConst(e));
        }
        return Val::aggr(std::move(v));
    }
    if (isa<UndefValue>(c) || isa<ConstantAggregateZero>(c)) return Val::big(APInt(std::max(1u, tyBits(t)), 0));
    if (auto* ce = dyn_cast<ConstantExpr>(c)) {
        switch (ce->getOpcode()) {
        case Instruction::GetElementPtr: {
            auto* g = cast<GEPOperator>(ce);
            APInt off(64, 0);
            if (!g->accumulateConstantOffset(*DL, off)) undecided("gep const");
            return Val(evalConst(ce->getOperand(0)).c + off.getZExtValue(), 64);
        }
        case Instruction::BitCast: case Instruction::PtrToInt: case Instruction::IntToPtr: case Instruction::AddrSpaceCast: {
            Val v = evalConst(ce->getOperand(0));
            unsigned w = tyBits(t);
            return Val(v.c, w);
        }
        case Instruction::Trunc: return Val(evalConst(ce->getOperand(0)).c, tyBits(t));
        case Instruction::ZExt: return Val(evalConst(ce->getOperand(0)).c, tyBits(t));
        case Instruction::Sub: return Val(evalConst(ce->getOperand(0)).c - evalConst(ce->getOperand(1)).c, tyBits(t));
        case Instruction::Add: return Val(evalConst(ce->getOperand(0)).c + evalConst(ce->getOperand(1)).c, tyBits(t));
        case Instruction::ICmp: {
            u64 a = evalConst(ce->getOperand(0)).c, b = evalConst(ce->getOperand(1)).c;
            auto p = cast<ConstantExpr>(ce)->getPredicate();
            if (p == CmpInst::ICMP_EQ) return Val(a == b, 1);
            if (p == CmpInst::ICMP_NE) return Val(a != b, 1);
            break;
        }
        default: break;
        }
        undecided(std::string("constant expression ") + ce->getOpcodeName());
    }
    undecided("constant kind");
}
static int builtinIndex(const std::string& n);

static CFunc* compile(Function* F) {
    auto it = cfuncs.find(F);
    if (it != cfuncs.end()) return it->second;
    CFunc* cf = new CFunc; cf->F = F; cf->name = F->getName().str();
    std::unordered_map<const llvm::Value*, int> reg;
    for (auto& a : F->args()) reg[&a] = cf->nregs++;
    std::unordered_map<const BasicBlock*, int> bbI;
    int n = 0;
    for (auto& bb : *F) {
        bbI[&bb] = n;
        for (auto& I : bb) {
            if (!I.getType()->isVoidTy()) reg[&I] = cf->nregs++;
            if (!isa<PHINode>(I)) ++n;
        }
    }
    std::unordered_map<const llvm::Value*, int> cidx;
    auto operand = [&](llvm::Value* v) -> int {
        if (auto* c = dyn_cast<Constant>(v)) {
            auto f = cidx.find(c);
            if (f != cidx.end()) return f->second;
            Val cv;
            try { cv = evalConst(c); } catch (Undecided&) { cv = Val(0, 64); }
            cf->consts.push_back(cv);
            int r = -(int)cf->consts.size();
            cidx[c] = r;
            return r;
        }
        if (isa<MetadataAsValue>(v) || isa<InlineAsm>(v) || isa<BasicBlock>(v)) { cf->consts.push_back(Val(0, 64)); return -(int)cf->consts.size(); }
        return reg.at(v);
    };
    auto edge = [&](BasicBlock* from, BasicBlock* to) {
        Edge e; e.target = bbI.at(to);
        for (auto& I : *to) {
            auto* p = dyn_cast<PHINode>(&I);
            if (!p) break;
            e.moves.push_back({reg.at(p), operand(p->getIncomingValueForBlock(from))});
        }
        return e;
    };
    for (auto& bb : *F) for (auto& I : bb) {
        if (isa<PHINode>(I)) continue;
        CInst ci; ci.I = &I; ci.op = I.getOpcode();
        if (!I.getType()->isVoidTy()) ci.dst = reg.at(&I);
        ci.w = tyBits(I.getType());
        if (I.getNumOperands() && !isa<CallBase>(I)) ci.w2 = tyBits(I.getOperand(0)->getType());
        if (auto* br = dyn_cast<BranchInst>(&I)) {
            if (br->isConditional()) ci.ops.push_back(operand(br->getCondition()));
            for (unsigned i = 0; i < br->getNumSuccessors(); ++i) ci.edges.push_back(edge(&bb, br->getSuccessor(i)));
        } else if (auto* sw = dyn_cast<SwitchInst>(&I)) {
            ci.ops.push_back(operand(sw->getCondition()));
            ci.edges.push_back(edge(&bb, sw->getDefaultDest()));
            for (auto c : sw->cases()) { ci.edges.push_back(edge(&bb, c.getCaseSuccessor())); ci.ops.push_back(operand(c.getCaseValue())); }
        } else if (auto* g = dyn_cast<GetElementPtrInst>(&I)) {
            ci.ops.push_back(operand(g->getPointerOperand()));
            if (g->getType()->isVectorTy()) { ci.op = 0; }
            else for (auto gi = gep_type_begin(g), ge = gep_type_end(g); gi != ge; ++gi) {
                llvm::Value* ix = gi.getOperand();
                if (StructType* st = gi.getStructTypeOrNull()) ci.off += DL->getStructLayout(st)->getElementOffset(cast<ConstantInt>(ix)->getZExtValue());
                else {
                    u64 sz = DL->getTypeAllocSize(gi.getIndexedType());
                    if (auto* c = dyn_cast<ConstantInt>(ix)) ci.off += c->getSExtValue() * (i64)sz;
                    else ci.idx.push_back({operand(ix), sz});
                }
            }
        } else if (auto* cb = dyn_cast<CallBase>(&I)) {
            for (auto& a : cb->args()) ci.ops.push_back(operand(a.get()));
            llvm::Value* cv = cb->getCalledOperand()->stripPointerCasts();
            if (auto* al = dyn_cast<GlobalAlias>(cv)) cv = al->getAliaseeObject();
            ci.callee = dyn_cast<Function>(cv);
            if (ci.callee) ci.builtin = builtinIndex(ci.callee->getName().str());
            else if (!isa<InlineAsm>(cv)) ci.ops.push_back(operand(cb->getCalledOperand()));
            if (auto* iv = dyn_cast<InvokeInst>(&I)) { ci.edges.push_back(edge(&bb, iv->getNormalDest())); ci.edges.push_back(edge(&bb, iv->getUnwindDest())); }
        } else for (auto& o : I.operands()) ci.ops.push_back(operand(o.get()));
        cf->code.push_back(std::move(ci));
    }
    for (auto& bb : *F) cf->bbStart.push_back(bbI[&bb]);
    cfuncs[F] = cf;
    return cf;
}
static void writeConst(Obj* o, u64 off, const Constant* c) {
    Type* t = c->getType();
    if (isa<ConstantAggregateZero>(c) || isa<UndefValue>(c)) return;   // memory is zero filled
    if (auto* cds = dyn_cast<ConstantDataSequential>(c)) {
        StringRef raw = cds->getRawDataValues();
        memcpy(o->d.data() + off, raw.data(), raw.size());
        return;
    }
    if (isAggTy(t)) {
        for (unsigned i = 0; i < aggN(t); ++i) writeConst(o, off + aggOff(t, i), c->getAggregateElement(i));
        return;
    }
    try { storeVal(o, off, evalConst(c)); } catch (Undecided&) {}
}

// ------------------------------------------------------------------------------------------
// Scalar operations
static z3::expr shiftAmt(const z3::expr& e) { return e; }
// linear terms are normalised eagerly, so that differences of symbolic terms become constants where they are
static Val folded(const z3::expr& e0, unsigned w) {
    z3::expr e = e0.simplify();
    if (e.is_numeral()) return Val::big(APInt(w, Z3_get_numeral_string(Z, e), 10));
    return Val::bv(e, w);
}
static Val intBin(unsigned op, const Val& a0, const Val& b0) {
    if (a0.k == K::C && b0.k == K::C) {
        unsigned w = a0.w; u64 a = a0.c, b = b0.c;
        auto sx = [&](u64 v) { return w == 64 ? (i64)v : (i64)(v << (64 - w)) >> (64 - w); };
        switch (op) {
        case Instruction::Add: return Val(a + b, w);
        case Instruction::Sub: return Val(a - b, w);
        case Instruction::Mul: return Val(a * b, w);
        case Instruction::And: return Val(a & b, w);
        case Instruction::Or: return Val(a | b, w);
        case Instruction::Xor: return Val(a ^ b, w);
        case Instruction::Shl: return b >= w ? Val(0, w) : Val(a << b, w);
        case Instruction::LShr: return b >= w ? Val(0, w) : Val(a >> b, w);
        case Instruction::AShr: return Val((u64)(sx(a) >> (b >= w ? w - 1 : b)), w);
        case Instruction::UDiv: if (!b) fault("arithmetic: no division by zero", "division by zero"); return Val(a / b, w);
        case Instruction::URem: if (!b) fault("arithmetic: no division by zero", "division by zero"); return Val(a % b, w);
        case Instruction::SDiv: case Instruction::SRem: {
            if (!b) fault("arithmetic: no division by zero", "division by zero");
            i64 x = sx(a), y = sx(b);
            if (y == -1) return op == Instruction::SDiv ? Val(-(u64)x, w) : Val(0, w);
            return Val(op == Instruction::SDiv ? (u64)(x / y) : (u64)(x % y), w);
        }
        }
    }
    Val av = toIntKind(a0), bv = toIntKind(b0);
    unsigned w = av.w;
    if (op == Instruction::UDiv || op == Instruction::URem || op == Instruction::SDiv || op == Instruction::SRem) {
        if (bv.conc()) { if (bv.ap().isZero()) fault("arithmetic: no division by zero", "division by zero"); }
        else assertVC(Val::bv(bv.e() != bvConst(APInt(w, 0)), 1), "arithmetic: no division by zero", "division by zero");
    }
    if (av.conc() && bv.conc()) {
        APInt a = av.ap(), b = bv.ap();
        switch (op) {
        case Instruction::Add: return Val::big(a + b);
        case Instruction::Sub: return Val::big(a - b);
        case Instruction::Mul: return Val::big(a * b);
        case Instruction::And: return Val::big(a & b);
        case Instruction::Or: return Val::big(a | b);
        case Instruction::Xor: return Val::big(a ^ b);
        case Instruction::Shl: return Val::big(b.uge(w) ? APInt(w, 0) : a.shl(b));
        case Instruction::LShr: return Val::big(b.uge(w) ? APInt(w, 0) : a.lshr(b));
        case Instruction::AShr: return Val::big(a.ashr(b.uge(w) ? APInt(w, w - 1) : b));
        case Instruction::UDiv: return Val::big(a.udiv(b));
        case Instruction::URem: return Val::big(a.urem(b));
        case Instruction::SDiv: return Val::big(a.sdiv(b));
        case Instruction::SRem: return Val::big(a.srem(b));
        }
    }
    z3::expr a = toBV(av), b = toBV(bv);
    if ((op == Instruction::SDiv || op == Instruction::SRem) && w > 1) {
        z3::expr bad = a == bvConst(APInt::getSignedMinValue(w)) && b == bvConst(APInt::getAllOnes(w));
        if (!bv.conc() || bv.ap().isAllOnes()) assertVC(Val::bv(!bad, 1), "arithmetic: signed division does not overflow", "signed division overflow");
    }
    if (bv.conc() && w > 1 && bv.ap().isPowerOf2() && !bv.ap().isSignMask()) {   // division by 2^s as shifts and masks
        unsigned s = bv.ap().logBase2();
        APInt mask = bv.ap() - 1;
        z3::expr sh = bvConst(APInt(w, s)), m = bvConst(mask), zero = bvConst(APInt(w, 0));
        switch (op) {
        case Instruction::UDiv: return Val::bv(z3::lshr(a, sh), w);
        case Instruction::URem: return Val::bv(a & m, w);
        case Instruction::SDiv: return Val::bv(z3::ashr(a + z3::ite(z3::slt(a, zero), m, zero), sh), w);
        case Instruction::SRem: { z3::expr low = a & m; return Val::bv(z3::ite(z3::slt(a, zero) && low != zero, low | ~m, low), w); }
        }
    }
    if (w == 1) {
        switch (op) {
        case Instruction::And: case Instruction::Mul: return Val::bv(a && b, 1);
        case Instruction::Or: return Val::bv(a || b, 1);
        case Instruction::Xor: case Instruction::Add: case Instruction::Sub: return Val::bv(a != b, 1);
        default: undecided("i1 op");
        }
    }
    switch (op) {
    case Instruction::Add: return folded(a + b, w);
    case Instruction::Sub: return folded(a - b, w);
    case Instruction::Mul: return Val::bv(a * b, w);
    case Instruction::And: return Val::bv(a & b, w);
    case Instruction::Or: return Val::bv(a | b, w);
    case Instruction::Xor: return Val::bv(a ^ b, w);
    case Instruction::Shl: return Val::bv(z3::shl(a, b), w);
    case Instruction::LShr: return Val::bv(z3::lshr(a, b), w);
    case Instruction::AShr: return Val::bv(z3::ashr(a, b), w);
    case Instruction::UDiv: return Val::bv(z3::udiv(a, b), w);
    case Instruction::URem: return Val::bv(z3::urem(a, b), w);
    case Instruction::SDiv: return Val::bv(a / b, w);
    case Instruction::SRem: return Val::bv(z3::srem(a, b), w);
    }
    undecided("int op");
}
static Val fcmp(unsigned p, const Val& a, const Val& b);
static Val icmp(unsigned p, const Val& a0, const Val& b0) {
    if (a0.k == K::C && b0.k == K::C) {
        unsigned w = a0.w; u64 a = a0.c, b = b0.c;
        auto sx = [&](u64 v) { return w == 64 ? (i64)v : (i64)(v << (64 - w)) >> (64 - w); };
        switch (p) {
        case CmpInst::ICMP_EQ: return Val(a == b, 1);
        case CmpInst::ICMP_NE: return Val(a != b, 1);
        case CmpInst::ICMP_ULT: return Val(a < b, 1);
        case CmpInst::ICMP_ULE: return Val(a <= b, 1);
        case CmpInst::ICMP_UGT: return Val(a > b, 1);
        case CmpInst::ICMP_UGE: return Val(a >= b, 1);
        case CmpInst::ICMP_SLT: return Val(sx(a) < sx(b), 1);
        case CmpInst::ICMP_SLE: return Val(sx(a) <= sx(b), 1);
        case CmpInst::ICMP_SGT: return Val(sx(a) > sx(b), 1);
        case CmpInst::ICMP_SGE: return Val(sx(a) >= sx(b), 1);
        }
    }
    if (gReal && (p == CmpInst::ICMP_EQ || p == CmpInst::ICMP_NE) && a0.w == 64 && ((a0.k == K::R && b0.k == K::C && b0.c == 0) || (b0.k == K::R && a0.k == K::C && a0.c == 0))) {
        gAssume.insert("bit pattern of a symbolic real compared with 0 is read as a comparison with +0.0");
        return fcmp(p == CmpInst::ICMP_EQ ? CmpInst::FCMP_OEQ : CmpInst::FCMP_UNE, a0, b0);
    }
    Val av = toIntKind(a0), bv = toIntKind(b0);
    if (av.conc() && bv.conc()) return Val(ICmpInst::compare(av.ap(), bv.ap(), (CmpInst::Predicate)p), 1);
    z3::expr a = toBV(av), b = toBV(bv);
    if (av.w == 1) { a = asBit(a); b = asBit(b); }
    switch (p) {
    case CmpInst::ICMP_EQ: return Val::bv(a == b, 1);
    case CmpInst::ICMP_NE: return Val::bv(a != b, 1);
    case CmpInst::ICMP_ULT: return Val::bv(z3::ult(a, b), 1);
    case CmpInst::ICMP_ULE: return Val::bv(z3::ule(a, b), 1);
    case CmpInst::ICMP_UGT: return Val::bv(z3::ugt(a, b), 1);
    case CmpInst::ICMP_UGE: return Val::bv(z3::uge(a, b), 1);
    case CmpInst::ICMP_SLT: return Val::bv(a < b, 1);
    case CmpInst::ICMP_SLE: return Val::bv(a <= b, 1);
    case CmpInst::ICMP_SGT: return Val::bv(a > b, 1);
    case CmpInst::ICMP_SGE: return Val::bv(a >= b, 1);
    }
    undecided("icmp");
}
static double dOf(const Val& v) { return v.w == 64 ? bitsToD(v.c) : (double)bitsToF((uint32_t)v.c); }
static Val ofD(double d, unsigned w) { return w == 64 ? Val(dToBits(d), 64) : Val(fToBits((float)d), 32); }
static uint32_t newRealVar(const std::string& nm) {
    realVars.push_back(Z.constant(nm.c_str(), Z.real_sort()));
    realVarNames.push_back(nm);
    return (uint32_t)realVars.size() - 1;
}
static std::map<std::string, uint32_t> opaqueVars;
static std::string polyKey(const PolyP& p) {
    std::string s;
    for (auto& t : p->t) { s += t.c.get_str(); for (auto x : t.m.v) s += "*" + std::to_string(x); s += "+"; }
    return s;
}
static Val opaqueFn(const std::string& fn, const PolyP& a, unsigned w) {
    std::string k = fn + "(" + polyKey(a) + ")";
    auto it = opaqueVars.find(k);
    if (it == opaqueVars.end()) it = opaqueVars.insert({k, newRealVar("opaque!" + std::to_string(opaqueVars.size()))}).first;
    return Val::real(polyVar(it->second), w);
}
// doubles known to be exactly s * 2^e with |s| <= 2^b, b <= 53 (from integers, scaling by powers of two, exact sums, rounding):
// comparisons and rounding of them are integer facts
struct Scaled { z3::expr s; int e; unsigned b; };
static std::unordered_map<unsigned, std::pair<z3::expr, Scaled>> gScaledT;   // by term id (kept alive)
static bool scaledOf(const Val& v, Scaled& o) {
    if (gReal || v.w != 64) return false;
    if (v.k == K::C) {
        double d = dOf(v);
        if (!std::isfinite(d)) return false;
        if (d == 0) { o = {Z.bv_val((int64_t)0, 64), 0, 0}; return true; }
        int ex; double m = std::frexp(d, &ex);
        int64_t i = (int64_t)std::ldexp(m, 53); ex -= 53;
        while (!(i & 1)) { i /= 2; ++ex; }
        unsigned b = 0; for (uint64_t x = (uint64_t)std::llabs(i); x; x >>= 1) ++b;
        if (ex < -900 || ex > 900) return false;
        o = {Z.bv_val(i, 64), ex, b}; return true;
    }
    if (v.k != K::FP && v.k != K::BV) return false;
    z3::expr e = toFP(v);
    auto it = gScaledT.find(e.id());
    if (it == gScaledT.end()) return false;
    o = it->second.second; return true;
}
static Val scaledVal(const z3::expr& e, const Scaled& s) { gScaledT.insert({e.id(), {e, s}}); return Val::fp(e, 64); }
static bool scaledZero(const Scaled& a) { uint64_t x; return a.b == 0 && a.s.is_numeral_u64(x) && x == 0; }
static bool scaledAlign(Scaled& a, Scaled& b, unsigned most) {
    if (scaledZero(a)) a.e = b.e;
    if (scaledZero(b)) b.e = a.e;
    int e = std::min(a.e, b.e);
    for (Scaled* x : {&a, &b}) {
        int d = x->e - e;
        if (d > 62 || x->b + d > most) return false;
        if (d) { x->s = simp(z3::shl(x->s, Z.bv_val(d, 64))); x->e = e; x->b += d; }
    }
    return true;
}
static Val fpBin(unsigned op, const Val& a, const Val& b) {
    unsigned w = a.w;
    if (w != 64 && w != 32) undecided("fp width");
    if (a.k == K::C && b.k == K::C) {
        std::feclearexcept(FE_ALL_EXCEPT);
        if (w == 64) {
            volatile double x = dOf(a), y = dOf(b), r;
            switch (op) {
            case Instruction::FAdd: r = x + y; break;
            case Instruction::FSub: r = x - y; break;
            case Instruction::FMul: r = x * y; break;
            case Instruction::FDiv: r = x / y; break;
            case Instruction::FRem: r = std::fmod(x, y); break;
            default: undecided("fp op");
            }
            if (!gReal || !std::fetestexcept(FE_INEXACT) || !std::isfinite((double)r)) return Val(dToBits(r), 64);
        } else {
            volatile float x = (float)dOf(a), y = (float)dOf(b), r;
            switch (op) {
            case Instruction::FAdd: r = x + y; break;
            case Instruction::FSub: r = x - y; break;
            case Instruction::FMul: r = x * y; break;
            case Instruction::FDiv: r = x / y; break;
            default: undecided("fp op");
            }
            if (!gReal || !std::fetestexcept(FE_INEXACT)) return Val(fToBits(r), 32);
        }
    }
    if (gReal) {
        PolyP x = toPoly(a), y = toPoly(b);
        switch (op) {
        case Instruction::FAdd: return Val::real(polyAdd(x, y), w);
        case Instruction::FSub: return Val::real(polyAdd(x, y, -1), w);
        case Instruction::FMul: return Val::real(polyMul(x, y), w);
        case Instruction::FDiv:
            if (y->isZero()) undecided("real division by zero");
            if (y->t.size() == 1) { auto q = std::make_shared<Poly>(); q->t.push_back({monoInv(y->t[0].m), 1 / y->t[0].c}); return Val::real(polyMul(x, q), w); }
            gAssume.insert("division by a multi-term symbolic polynomial treated as multiplication by an opaque inverse");
            return Val::real(polyMul(x, opaqueFn("inv", y, w).p()), w);
        }
        undecided("real op");
    }
    z3::expr x = toFP(a), y = toFP(b);
    if ((op == Instruction::FAdd || op == Instruction::FMul) && x.id() > y.id()) std::swap(x, y);   // commutative: one term for both orders
    Z3_ast r;
    switch (op) {
    case Instruction::FAdd: r = Z3_mk_fpa_add(Z, rne(), x, y); break;
    case Instruction::FSub: r = Z3_mk_fpa_sub(Z, rne(), x, y); break;
    case Instruction::FMul: r = Z3_mk_fpa_mul(Z, rne(), x, y); break;
    case Instruction::FDiv: r = Z3_mk_fpa_div(Z, rne(), x, y); break;
    default: undecided("fp op");
    }
    z3::expr res = simp(z3::expr(Z, r));
    Scaled p{Z.bool_val(true), 0, 0}, q = p;
    if (w == 64 && res.num_args() && scaledOf(a, p) && scaledOf(b, q)) {
        uint64_t m;
        if ((op == Instruction::FAdd || op == Instruction::FSub) && scaledAlign(p, q, 52)) return scaledVal(res, {simp(op == Instruction::FAdd ? p.s + q.s : p.s - q.s), p.e, std::max(p.b, q.b) + 1});
        if (op == Instruction::FMul && b.k != K::C) std::swap(p, q);
        if (op == Instruction::FMul && p.b + q.b <= 53 && q.s.is_numeral_u64(m) && std::abs(p.e + q.e) <= 900) return scaledVal(res, {simp(p.s * q.s), p.e + q.e, p.b + q.b});
        if (op == Instruction::FDiv && q.s.is_numeral_u64(m) && (m == 1 || m == ~0ull) && std::abs(p.e - q.e) <= 900) return scaledVal(res, {simp(p.s * q.s), p.e - q.e, p.b});
    }
    return Val::fp(res, w);
}
static Val fneg(const Val& a) {
    if (a.k == K::C) return a.w == 64 ? Val(a.c ^ (1ull << 63), 64) : Val(a.c ^ (1ull << 31), 32);
    if (a.k == K::R) return Val::real(polyScale(a.p(), -1), a.w);
    z3::expr bits(Z), key(Z);
    if (a.k == K::FP && fpKey(a, key)) { Val v = Val::fp(z3::expr(Z, Z3_mk_fpa_to_fp_bv(Z, toBV(a) ^ Z.bv_val((uint64_t)1 << 63, 64), fpSort(64))), 64); gKeys.insert({v.e().id(), {v.e(), simp(-key)}}); return v; }
    if (a.k == K::FP && fpBits(a.e(), bits)) return Val::fp(z3::expr(Z, Z3_mk_fpa_to_fp_bv(Z, simp(bits ^ (a.w == 64 ? Z.bv_val((uint64_t)1 << 63, 64) : Z.bv_val(0x80000000u, 32))), fpSort(a.w))), a.w);
    z3::expr res = simp(z3::expr(Z, Z3_mk_fpa_neg(Z, toFP(a))));
    Scaled p{Z.bool_val(true), 0, 0};
    if (scaledOf(a, p)) { p.s = simp(-p.s); return scaledVal(res, p); }
    return Val::fp(res, a.w);
}
static Val fcmp(unsigned p, const Val& a, const Val& b) {
    if (p == CmpInst::FCMP_FALSE) return Val(0, 1);
    if (p == CmpInst::FCMP_TRUE) return Val(1, 1);
    if (a.k == K::C && b.k == K::C) {
        double x = dOf(a), y = dOf(b);
        bool un = std::isnan(x) || std::isnan(y), r = false;
        switch (p & 7) { case 1: r = x == y; break; case 2: r = x > y; break; case 3: r = x >= y; break; case 4: r = x < y; break; case 5: r = x <= y; break; case 6: r = x < y || x > y; break; case 7: r = !un; break; case 0: r = false; break; }
        if (p == CmpInst::FCMP_UNO) return Val(un, 1);
        if (p == CmpInst::FCMP_ORD) return Val(!un, 1);
        if (un) return Val((p & 8) != 0, 1);
        return Val(r, 1);
    }
    if (gReal) {
        auto inf = [](const Val& v) { return v.k == K::C && !std::isfinite(dOf(v)); };
        if (inf(a) || inf(b)) {   // comparison of a (finite) symbolic real with inf/nan
            double x = a.k == K::C ? dOf(a) : 0, y = b.k == K::C ? dOf(b) : 0;
            return fcmp(p, ofD(x, 64), ofD(y, 64));
        }
        PolyP d = polyAdd(toPoly(a), toPoly(b), -1);
        if (d->isConst()) { double v = d->constant() > 0 ? 1 : d->constant() < 0 ? -1 : 0; return fcmp(p, ofD(v, 64), ofD(0, 64)); }
        z3::expr e(Z);
        unsigned q = p & 7;
        if (p == CmpInst::FCMP_UNO) return Val(0, 1);
        if (p == CmpInst::FCMP_ORD) return Val(1, 1);
        if ((q == 1 || q == 6) && gGeneric) {
            gAssume.insert("generic position: symbolic coefficients at which a non-zero intermediate polynomial vanishes are not explored separately");
            return Val(q == 6, 1);
        }
        z3::expr l = polyToZ3(d); z3::expr zero = Z.real_val(0);
        switch (q) { case 1: e = l == zero; break; case 2: e = l > zero; break; case 3: e = l >= zero; break; case 4: e = l < zero; break; case 5: e = l <= zero; break; case 6: e = l != zero; break; default: undecided("fcmp"); }
        return Val::bv(e, 1);
    }
    if (a.w == 64 && !gReal) {
        Scaled x{Z.bool_val(true), 0, 0}, y = x;
        if (scaledOf(a, x) && scaledOf(b, y) && scaledAlign(x, y, 62)) {
            if (p == CmpInst::FCMP_UNO) return Val(0, 1);
            if (p == CmpInst::FCMP_ORD) return Val(1, 1);
            z3::expr r = Z.bool_val(false);
            switch (p & 7) { case 1: r = x.s == y.s; break; case 2: r = x.s > y.s; break; case 3: r = x.s >= y.s; break; case 4: r = x.s < y.s; break; case 5: r = x.s <= y.s; break; case 6: r = x.s != y.s; break; case 7: r = Z.bool_val(true); break; }
            return Val::bv(simp(r), 1);
        }
        auto constNonFinite = [](const Val& v) { return v.k == K::C && !std::isfinite(dOf(v)); };
        if (constNonFinite(b) && scaledOf(a, x)) return fcmp(p, ofD(0, 64), b);
        if (constNonFinite(a) && scaledOf(b, x)) return fcmp(p, a, ofD(0, 64));
    }
    {   // terms made from bits (or constants): the order of the bit patterns decides
        auto bits = [](const Val& v, z3::expr& out) { if (v.k == K::FP) return fpBits(v.e(), out); if (v.k == K::R || v.k == K::Agg) return false; out = toBV(v); return true; };
        z3::expr xb(Z), yb(Z), kx(Z), ky(Z);
        if (fpKey(a, kx) && fpKey(b, ky)) {
            z3::expr inf = Z.bv_val(KEY_INF, 64), ninf = simp(-inf);
            auto num = [&](const Val& v, const z3::expr& k) { return v.k == K::C ? Z.bool_val(!std::isnan(dOf(v))) : k >= ninf && k <= inf; };
            bool same = z3::eq(kx, ky);
            z3::expr ord = same ? num(a, kx) : num(a, kx) && num(b, ky);
            z3::expr r = Z.bool_val(false);
            switch (p & 7) { case 1: r = same ? Z.bool_val(true) : kx == ky; break; case 2: r = kx > ky; break; case 3: r = kx >= ky; break; case 4: r = kx < ky; break; case 5: r = kx <= ky; break; case 6: r = same ? Z.bool_val(false) : kx != ky; break; case 7: r = Z.bool_val(true); break; }
            r = r && ord;
            if (p & 8) r = r || !ord;
            return Val::bv(simp(r), 1);
        }
        if (gSlow > 0) { std::ostringstream os; os << (int)a.k << ' '; if (!fpKey(a, kx) && a.k != K::C) os << toBV(a); os << " | " << (int)b.k << ' '; if (!fpKey(b, ky) && b.k != K::C) os << toBV(b); fprintf(stderr, "[nokey] %s %s\n", os.str().substr(0, 900).c_str(), whereStr(*cur).substr(0,100).c_str()); }
        if (bits(a, xb) && bits(b, yb) && a.w == b.w) {
            unsigned w = a.w;
            auto mask = [&](z3::expr e) { return w == 64 ? e & Z.bv_val((uint64_t)0x7fffffffffffffffull, 64) : e & Z.bv_val(0x7fffffffu, 32); };
            z3::expr big = w == 64 ? Z.bv_val((uint64_t)0x7ff0000000000000ull, 64) : Z.bv_val(0x7f800000u, 32), nil = w == 64 ? Z.bv_val((uint64_t)0, 64) : Z.bv_val(0u, 32);
            z3::expr mx = mask(xb), my = mask(yb);
            z3::expr un = z3::ugt(mx, big) || z3::ugt(my, big);
            z3::expr kx = z3::ite(xb < nil, -mx, mx), ky = z3::ite(yb < nil, -my, my);
            z3::expr r = Z.bool_val(false);
            switch (p & 7) { case 1: r = kx == ky; break; case 2: r = kx > ky; break; case 3: r = kx >= ky; break; case 4: r = kx < ky; break; case 5: r = kx <= ky; break; case 6: r = kx != ky; break; case 7: r = Z.bool_val(true); break; }
            r = r && !un;
            if (p & 8) r = r || un;
            return Val::bv(simp(r), 1);
        }
    }
    z3::expr x = toFP(a), y = toFP(b);
    z3::expr un = z3::expr(Z, Z3_mk_fpa_is_nan(Z, x)) || z3::expr(Z, Z3_mk_fpa_is_nan(Z, y));
    z3::expr r = Z.bool_val(false);
    switch (p & 7) {
    case 0: break;
    case 1: r = z3::expr(Z, Z3_mk_fpa_eq(Z, x, y)); break;
    case 2: r = z3::expr(Z, Z3_mk_fpa_gt(Z, x, y)); break;
    case 3: r = z3::expr(Z, Z3_mk_fpa_geq(Z, x, y)); break;
    case 4: r = z3::expr(Z, Z3_mk_fpa_lt(Z, x, y)); break;
    case 5: r = z3::expr(Z, Z3_mk_fpa_leq(Z, x, y)); break;
    case 6: r = !z3::expr(Z, Z3_mk_fpa_eq(Z, x, y)) && !un; break;
    case 7: r = !un; break;
    }
    if (p & 8) r = r || un;
    return Val::bv(r, 1);
}
static Val roundFP(const Val& a, int mode) {   // 0 floor 1 ceil 2 trunc 3 round(half away) 4 rint
    if (a.k == K::C) {
        double x = dOf(a);
        double r = mode == 0 ? std::floor(x) : mode == 1 ? std::ceil(x) : mode == 2 ? std::trunc(x) : mode == 3 ? std::round(x) : std::nearbyint(x);
        return ofD(r, a.w);
    }
    if (gReal) {
        PolyP p = toPoly(a);
        if (p->isConst()) {
            mpq_class q = p->constant(); mpz_class f;
            mpz_fdiv_q(f.get_mpz_t(), q.get_num_mpz_t(), q.get_den_mpz_t());
            if (mode == 0) return Val::real(polyConst(mpq_class(f)), a.w);
            if (mode == 1) return Val::real(polyConst(f == q ? mpq_class(f) : mpq_class(f + 1)), a.w);
            if (mode == 2) return Val::real(polyConst(q >= 0 || f == q ? mpq_class(f) : mpq_class(f + 1)), a.w);
            undecided("round");
        }
        if (mode == 2) {
            z3::expr l = polyToZ3(p);
            return decide(l >= 0) ? roundFP(a, 0) : roundFP(a, 1);
        }
        if (mode > 1) undecided("symbolic round");
        std::string k = (mode ? "ceil(" : "floor(") + polyKey(p) + ")";
        auto it = opaqueVars.find(k);
        if (it == opaqueVars.end()) it = opaqueVars.insert({k, newRealVar(std::string(mode ? "ceil!" : "floor!") + std::to_string(opaqueVars.size()))}).first;
        z3::expr f = realVars[it->second], l = polyToZ3(p);
        z3::expr fact = z3::is_int(f) && (mode == 0 ? (f <= l && l < f + 1) : (f >= l && l > f - 1));
        State& st = *cur;
        if (!st.known.count(fact.id())) { st.pc.push_back(fact); st.known[fact.id()] = true; st.model.reset(); }
        return Val::real(polyVar(it->second), a.w);
    }
    z3::expr rm = mode == 0 ? rtn() : mode == 1 ? rtp() : mode == 2 ? rtz() : mode == 3 ? z3::expr(Z, Z3_mk_fpa_rna(Z)) : rne();
    Scaled q{Z.bool_val(true), 0, 0};
    if (a.w == 64 && scaledOf(a, q) && q.e >= 0) return a;
    z3::expr res = simp(z3::expr(Z, Z3_mk_fpa_round_to_integral(Z, rm, toFP(a))));
    if (a.w == 64 && mode <= 2 && scaledOf(a, q)) {
        int k = std::min(-q.e, 62);
        z3::expr f = z3::ashr(q.s, Z.bv_val(k, 64)), c = -z3::ashr(-q.s, Z.bv_val(k, 64));
        return scaledVal(res, {simp(mode == 0 ? f : mode == 1 ? c : z3::ite(q.s < Z.bv_val(0, 64), c, f)), 0, (q.b > (unsigned)k ? q.b - k : 0) + 1});
    }
    return Val::fp(res, a.w);
}
static Val scalePow2(const Val& x, const Val& n);
static Val castOp(unsigned op, const Val& a, unsigned w) {
    switch (op) {
    case Instruction::Trunc:
        if (a.k == K::C) return Val(a.c, w);
        { Val v = toIntKind(a); if (v.conc()) return Val::big(v.ap().trunc(w));
          if (w == 1) return Val::bv(v.e().extract(0, 0) == Z.bv_val(1, 1), 1);
          return Val::bv(v.e().extract(w - 1, 0), w); }
    case Instruction::ZExt:
        if (a.k == K::C && w <= 64) return Val(a.c, w);
        { Val v = toIntKind(a); if (v.conc()) return Val::big(v.ap().zext(w));
          if (v.w == 1) return Val::bv(z3::ite(v.e(), Z.bv_val(1, w), Z.bv_val(0, w)), w);
          return Val::bv(z3::zext(v.e(), w - v.w), w); }
    case Instruction::SExt: {
        Val v = toIntKind(a);
        if (v.conc()) return Val::big(v.ap().sext(w));
        if (v.w == 1) return Val::bv(z3::ite(v.e(), Z.bv_val(-1, w), Z.bv_val(0, w)), w);
        return Val::bv(z3::sext(v.e(), w - v.w), w); }
    case Instruction::PtrToInt: case Instruction::IntToPtr:
        if (a.w == w) return a;
        return castOp(a.w > w ? Instruction::Trunc : Instruction::ZExt, a, w);
    case Instruction::BitCast: return a;
    case Instruction::FPExt: case Instruction::FPTrunc:
        if (a.w == 16 || w == 16 || w == 80 || a.w == 80) undecided("half/long double");
        if (a.k == K::R) { gAssume.insert("float<->double rounding ignored (reals)"); return Val::real(a.p(), w); }
        if (a.k == K::C) {
            double x = dOf(a);
            if (gReal && w == 32 && (double)(float)x != x && std::isfinite(x)) return Val::real(polyConst(ratOfDouble(x)), w);
            return ofD(x, w);
        }
        return Val::fp(simp(z3::expr(Z, Z3_mk_fpa_to_fp_float(Z, rne(), toFP(a), fpSort(w)))), w);
    case Instruction::SIToFP: case Instruction::UIToFP: {
        if (w != 64 && w != 32) undecided("fp width");
        Val v = toIntKind(a);
        if (v.conc()) {
            APInt x = v.ap();
            double d = op == Instruction::SIToFP ? x.signedRoundToDouble() : x.roundToDouble();
            if (gReal) { SmallString<64> s; x.toString(s, 10, op == Instruction::SIToFP); mpz_class zz(s.c_str()); return Val::real(polyConst(mpq_class(zz)), w); }
            return ofD(d, w);
        }
        if (gReal) { APInt x = concretizeAP(v); return castOp(op, Val::big(x), w); }
        z3::expr e = v.w == 1 ? asBit(v.e()) : v.e();
        if (w == 64) {
            unsigned ew = e.get_sort().bv_size();
            bool sg = op == Instruction::SIToFP;
            z3::expr res = simp(z3::expr(Z, sg ? Z3_mk_fpa_to_fp_signed(Z, rne(), e, fpSort(w)) : Z3_mk_fpa_to_fp_unsigned(Z, rne(), e, fpSort(w))));
            if (ew <= 53) return scaledVal(res, {simp(sg ? z3::sext(e, 64 - ew) : z3::zext(e, 64 - ew)), 0, ew});
            if (ew == 64) {
                for (unsigned b : {24u, 34u, 53u}) {
                    z3::expr lim = Z.bv_val((int64_t)1 << b, 64), in = sg ? e <= lim && e >= -lim : z3::ule(e, lim);
                    if (check(cur->pc, !in, nullptr) == R3::unsat) return scaledVal(res, {simp(e), 0, b});
                }
            }
            return Val::fp(res, w);
        }
        return Val::fp(simp(z3::expr(Z, op == Instruction::SIToFP ? Z3_mk_fpa_to_fp_signed(Z, rne(), e, fpSort(w)) : Z3_mk_fpa_to_fp_unsigned(Z, rne(), e, fpSort(w)))), w);
    }
    case Instruction::FPToSI: case Instruction::FPToUI: {
        if (a.k == K::C) {
            double x = dOf(a);
            if (w <= 64) {
                if (op == Instruction::FPToSI) return Val((u64)(i64)x, w);
                return Val(x < 0 ? (u64)(i64)x : (u64)x, w);
            }
        }
        if (gReal) {
            Val t = roundFP(a, 2);
            mpq_class q = t.k == K::C ? ratOfDouble(dOf(t)) : concretizeReal(toPoly(t));
            mpz_class z = q.get_num();
            APInt r(w + 64, z >= 0 ? z.get_str() : mpz_class(-z).get_str(), 10);
            if (z < 0) r = -r;
            return Val::big(r.trunc(w));
        }
        Scaled q{Z.bool_val(true), 0, 0};
        if (scaledOf(a, q) && op == Instruction::FPToSI && w <= 64 && q.e <= 62 && q.e > -62) {
            z3::expr t = q.s;
            if (q.e < 0) { z3::expr k = Z.bv_val(-q.e, 64); t = z3::ite(q.s < Z.bv_val(0, 64), -z3::ashr(-q.s, k), z3::ashr(q.s, k)); }
            bool fits = (int)q.b + q.e + 1 < (int)w;
            if (q.e > 0) { if (q.b + q.e > 62) fits = false; t = z3::shl(t, Z.bv_val(q.e, 64)); }
            t = simp(t);
            if (!fits && (q.e <= 0 || q.b + q.e <= 62) && w < 64) fits = check(cur->pc, !(t >= Z.bv_val(-((int64_t)1 << (w - 1)), 64) && t < Z.bv_val((int64_t)1 << (w - 1), 64)), nullptr) == R3::unsat;
            if (fits) return w == 64 ? Val::bv(t, 64) : Val::bv(simp(t.extract(w - 1, 0)), w);
        }
        z3::expr x = toFP(a);
        return Val::bv(z3::expr(Z, op == Instruction::FPToSI ? Z3_mk_fpa_to_sbv(Z, rtz(), x, w) : Z3_mk_fpa_to_ubv(Z, rtz(), x, w)), w);
    }
    }
    undecided("cast");
}
// x * 2^n, exact when the result stays a normal number (checked as an obligation)
static Val scalePow2(const Val& x, const Val& n0) {
    Val n = n0;
    if (x.k == K::C && dOf(x) == 0.0) return x;
    if (gReal || x.k == K::R) {
        i64 k = concretizeAP(n).getSExtValue();
        mpq_class s(1);
        if (k >= 0) mpz_mul_2exp(s.get_num_mpz_t(), s.get_num_mpz_t(), k); else mpz_mul_2exp(s.get_den_mpz_t(), s.get_den_mpz_t(), -k);
        return Val::real(polyScale(toPoly(x), s), x.w);
    }
    if (x.k == K::C && n.k == K::C) return ofD(std::ldexp(dOf(x), (int)(i64)(n.w == 64 ? (i64)n.c : (i64)(n.c << (64 - n.w)) >> (64 - n.w))), x.w);
    { Scaled q{Z.bool_val(true), 0, 0};
      if (n.k == K::C && scaledOf(x, q)) {
        int k = (int)concretizeAP(n).getSExtValue();
        if (std::abs(k) <= 800 && std::abs(q.e + k) <= 900) {
            z3::expr res = simp(z3::expr(Z, Z3_mk_fpa_mul(Z, rne(), toFP(x), toFP(ofD(std::ldexp(1.0, k), 64)))));
            q.e += k; return scaledVal(res, q);
        } } }
    // symbolic: n must be small
    if (x.w != 64) undecided("ldexp on float");
    Val n32 = n.w == 32 ? n : castOp(n.w > 32 ? Instruction::Trunc : Instruction::SExt, n, 32);
    z3::expr nn = toBV(n32);
    assertVC(Val::bv(nn >= Z.bv_val(-900, 32) && nn <= Z.bv_val(900, 32), 1), "model: ldexp exponent within [-900,900]", "model");
    z3::expr bits = z3::concat(Z.bv_val(0, 1), z3::concat((nn + Z.bv_val(1023, 32)).extract(10, 0), Z.bv_val(0, 52)));
    z3::expr f(Z, Z3_mk_fpa_to_fp_bv(Z, bits, fpSort(64)));
    return Val::fp(simp(z3::expr(Z, Z3_mk_fpa_mul(Z, rne(), toFP(x), f))), 64);
}
static bool isFPTy(Type* t) { return t->isFloatingPointTy(); }
static Val selectV(const Val& c, const Val& a, const Val& b, Type* t) {
    if (c.k == K::C) return (c.c & 1) ? a : b;
    if (t->isPointerTy() || a.k == K::R || b.k == K::R || a.k == K::Agg || (gReal && isFPTy(t))) return decide(c) ? a : b;
    z3::expr ce = toBool(c);
    if (a.w == 64 && isFPTy(t)) {   // keep the bits and the order key
        z3::expr kx(Z), ky(Z), xb(Z), yb(Z);
        if (fpKey(a, kx) && fpKey(b, ky)) {
            auto bitsOf = [](const Val& v, z3::expr& out) { if (v.k == K::FP) return fpBits(v.e(), out); out = toBV(v); return true; };
            if (bitsOf(a, xb) && bitsOf(b, yb)) {
                if (ordTerm(simp(ce))) {   // the path may settle the choice
                    auto kn = cur->known.find(simp(ce).id());
                    if (kn != cur->known.end()) return kn->second ? a : b;
                    int mv = evalBool(*cur, ce);
                    if (mv != 0 && check(cur->pc, !ce, nullptr) == R3::unsat) return a;
                    if (mv != 1 && check(cur->pc, ce, nullptr) == R3::unsat) return b;
                }
                z3::expr bits = z3::ite(ce, xb, yb).simplify(), key = simp(z3::ite(ce, kx, ky));
                z3::expr e(Z, Z3_mk_fpa_to_fp_bv(Z, bits, fpSort(64)));
                gBitKeys.insert({bits.id(), {bits, key}});
                gKeys.insert({e.id(), {e, key}});
                return Val::fp(e, 64);
            }
        }
    }
    if (a.k == K::FP || b.k == K::FP) return Val::fp(simp(z3::ite(ce, toFP(a), toFP(b))), a.w);
    z3::expr x = toBV(a), y = toBV(b);
    return Val::bv(z3::ite(ce, x, y), a.w);
}

// ------------------------------------------------------------------------------------------
// Type info / RTTI
static GlobalVariable* gvAt(u64 a) { auto it = addrToGV.find(a); return it == addrToGV.end() ? nullptr : it->second; }
static const char* extBases[][2] = {
    {"_ZTISt13runtime_error", "_ZTISt9exception"}, {"_ZTISt11logic_error", "_ZTISt9exception"}, {"_ZTISt9bad_alloc", "_ZTISt9exception"},
    {"_ZTISt8bad_cast", "_ZTISt9exception"}, {"_ZTISt16invalid_argument", "_ZTISt11logic_error"}, {"_ZTISt12out_of_range", "_ZTISt11logic_error"},
    {"_ZTISt12domain_error", "_ZTISt11logic_error"}, {"_ZTISt12length_error", "_ZTISt11logic_error"}, {"_ZTISt11range_error", "_ZTISt13runtime_error"},
    {"_ZTISt14overflow_error", "_ZTISt13runtime_error"}, {"_ZTISt15underflow_error", "_ZTISt13runtime_error"}, {"_ZTISt12system_error", "_ZTISt13runtime_error"}};
// offset of base `to` in `from`, or nothing
static bool baseOffset(u64 from, u64 to, i64& off, u64 objAddr = 0) {
    if (from == to) { off = 0; return true; }
    GlobalVariable* g = gvAt(from);
    if (!g) return false;
    GlobalVariable* gt = gvAt(to);
    if (gt && gt->getName() == g->getName()) { off = 0; return true; }
    if (!g->hasInitializer()) {   // library exceptions: single inheritance, known by name
        if (!gt) return false;
        StringRef nm = g->getName();
        for (bool more = true; more;) {
            more = false;
            for (auto& b : extBases) if (nm == b[0]) { nm = b[1]; more = true; break; }
            if (nm == gt->getName()) { off = 0; return true; }
        }
        return false;
    }
    auto* cs = dyn_cast<ConstantStruct>(g->getInitializer());
    if (!cs) return false;
    unsigned n = cs->getNumOperands();
    if (n == 3) { i64 o; if (baseOffset(constAddr(cs->getOperand(2)), to, o)) { off = o; return true; } return false; }
    if (n > 4) {
        for (unsigned i = 4; i + 1 < n; i += 2) {
            i64 fl = cast<ConstantInt>(cs->getOperand(i + 1))->getSExtValue();
            i64 o;
            if (fl & 1) undecided("virtual base in rtti");
            if (baseOffset(constAddr(cs->getOperand(i)), to, o)) { off = o + (fl >> 8); return true; }
        }
    }
    return false;
}

// ------------------------------------------------------------------------------------------
// Control transfer
static Val& R(Frame& f, int i) { return i >= 0 ? f.regs[i] : f.cf->consts[-i - 1]; }
static void takeEdge(Frame& f, const Edge& e) {
    if (e.moves.size() == 1) { Val v = R(f, e.moves[0].second); f.regs[e.moves[0].first] = std::move(v); }
    else if (!e.moves.empty()) {
        std::vector<Val> tmp; tmp.reserve(e.moves.size());
        for (auto& m : e.moves) tmp.push_back(R(f, m.second));
        for (size_t i = 0; i < tmp.size(); ++i) f.regs[e.moves[i].first] = std::move(tmp[i]);
    }
    f.pc = e.target;
}
static void pushFrame(Function* F, const std::vector<Val>& args) {
    State& st = *cur;
    if (st.fr.size() > 4000) { fault("no unbounded recursion", "stack overflow"); }
    CFunc* cf = compile(F);
    ++gFuncs[cf->name];
    Frame f; f.cf = cf; f.pc = 0; f.regs.resize(cf->nregs);
    for (size_t i = 0; i < F->arg_size() && i < args.size(); ++i) f.regs[i] = args[i];
    // byval arguments
    for (size_t i = 0; i < F->arg_size() && i < args.size(); ++i) if (F->getArg(i)->hasByValAttr()) {
        u64 n = DL->getTypeAllocSize(F->getArg(i)->getParamByValType());
        f.stackMark = st.stack.v.size();
        u64 a = allocStack(st, n);
        copyBytes(st, a, concretize(args[i]), n);
        f.regs[i] = Val(a, 64);
    }
    f.stackMark = st.stack.v.size(); f.stackTop = st.sTop;
    st.fr.push_back(std::move(f));
}
static void popFrame() {
    State& st = *cur;
    Frame& f = st.fr.back();
    st.stack.v.resize(f.stackMark); st.stack.b.resize(f.stackMark);
    // addresses are not reused, so dangling stack pointers stay detectable
    st.fr.pop_back();
}
static void doUnwind(u64 exc, u64 ti) {
    State& st = *cur;
    st.lastExc = exc;
    while (!st.fr.empty()) {
        Frame& f = st.fr.back();
        CInst& ci = f.cf->code[f.pc];
        if (ci.op == Instruction::Invoke) {
            auto* iv = cast<InvokeInst>(ci.I);
            auto* lp = iv->getLandingPadInst();
            bool take = lp->isCleanup(); u64 sel = 0;
            for (unsigned i = 0; i < lp->getNumClauses(); ++i) {
                if (lp->isCatch(i)) {
                    Constant* c = lp->getClause(i);
                    u64 t = constAddr(c);
                    i64 off;
                    if (t == 0) { take = true; sel = 1; break; }
                    if (baseOffset(ti, t, off)) { take = true; sel = t; break; }
                } else { take = true; sel = 0; /* filter: noexcept -> handler calls terminate */
                    if (isa<ConstantAggregateZero>(lp->getClause(i)) || lp->getClause(i)->getType()->getArrayNumElements() == 0) { sel = (u64)-1; break; } take = lp->isCleanup(); }
            }
            if (take) {
                takeEdge(f, ci.edges[1]);
                // landingpad instruction is at f.pc
                CInst& l = f.cf->code[f.pc];
                f.regs[l.dst] = Val::aggr({Val(exc, 64), Val(sel & 0xffffffffu, 32)});
                ++f.pc;
                return;
            }
        }
        bool entry = f.isEntry;
        popFrame();
        if (entry) break;
    }
    // uncaught
    GlobalVariable* g = gvAt(ti);
    std::string nm = g ? demangle(g->getName().str()) : "?";
    Oblig& o = gOb["no exception escapes the contract"]; ++o.checked; ++o.failed;
    ensureModel(st);
    recordFailure(st, "no exception escapes the contract", "uncaught exception " + nm, st.model);
    throw PathEnd{"uncaught exception"};
}

#include "builtins.inc"

static void doReturn(const Val* rv) {
    State& st = *cur;
    bool entry = st.fr.back().isEntry;
    popFrame();
    if (entry || st.fr.empty()) throw PathEnd{"done"};
    Frame& f = st.fr.back();
    CInst& ci = f.cf->code[f.pc];
    if (ci.dst >= 0 && rv) f.regs[ci.dst] = *rv;
    if (ci.op == Instruction::Invoke) takeEdge(f, ci.edges[0]); else ++f.pc;
}
static Val vecMap2(const Val& a, const Val& b, const std::function<Val(const Val&, const Val&)>& f) {
    std::vector<Val> r;
    for (size_t i = 0; i < a.agg().size(); ++i) r.push_back(f(a.agg()[i], b.agg()[i]));
    return Val::aggr(std::move(r));
}
static void step() {
    State& st = *cur;
    Frame& f = st.fr.back();
    CInst& ci = f.cf->code[f.pc];
    ++st.steps; ++gSteps;
    switch (ci.op) {
    case Instruction::Add: case Instruction::Sub: case Instruction::Mul: case Instruction::UDiv: case Instruction::SDiv: case Instruction::URem: case Instruction::SRem:
    case Instruction::Shl: case Instruction::LShr: case Instruction::AShr: case Instruction::And: case Instruction::Or: case Instruction::Xor: {
        const Val &a = R(f, ci.ops[0]), &b = R(f, ci.ops[1]);
        Val r = a.k == K::Agg ? vecMap2(a, b, [&](const Val& x, const Val& y) { return intBin(ci.op, x, y); }) : intBin(ci.op, a, b);
        f.regs[ci.dst] = std::move(r); ++f.pc; return;
    }
    case Instruction::FAdd: case Instruction::FSub: case Instruction::FMul: case Instruction::FDiv: case Instruction::FRem: {
        const Val &a = R(f, ci.ops[0]), &b = R(f, ci.ops[1]);
        Val r = a.k == K::Agg ? vecMap2(a, b, [&](const Val& x, const Val& y) { return fpBin(ci.op, x, y); }) : fpBin(ci.op, a, b);
        f.regs[ci.dst] = std::move(r); ++f.pc; return;
    }
    case Instruction::FNeg: {
        const Val& a = R(f, ci.ops[0]);
        Val r;
        if (a.k == K::Agg) { std::vector<Val> v; for (auto& x : a.agg()) v.push_back(fneg(x)); r = Val::aggr(std::move(v)); } else r = fneg(a);
        f.regs[ci.dst] = std::move(r); ++f.pc; return;
    }
    case Instruction::ICmp: {
        const Val &a = R(f, ci.ops[0]), &b = R(f, ci.ops[1]);
        auto p = cast<ICmpInst>(ci.I)->getPredicate();
        Val r = a.k == K::Agg ? vecMap2(a, b, [&](const Val& x, const Val& y) { return icmp(p, x, y); }) : icmp(p, a, b);
        f.regs[ci.dst] = std::move(r); ++f.pc; return;
    }
    case Instruction::FCmp: {
        const Val &a = R(f, ci.ops[0]), &b = R(f, ci.ops[1]);
        auto p = cast<FCmpInst>(ci.I)->getPredicate();
        Val r = a.k == K::Agg ? vecMap2(a, b, [&](const Val& x, const Val& y) { return fcmp(p, x, y); }) : fcmp(p, a, b);
        f.regs[ci.dst] = std::move(r); ++f.pc; return;
    }
    case Instruction::Trunc: case Instruction::ZExt: case Instruction::SExt: case Instruction::PtrToInt: case Instruction::IntToPtr: case Instruction::BitCast:
    case Instruction::FPExt: case Instruction::FPTrunc: case Instruction::SIToFP: case Instruction::UIToFP: case Instruction::FPToSI: case Instruction::FPToUI: {
        const Val& a = R(f, ci.ops[0]);
        Val r;
        Type* dt = ci.I->getType();
        if (a.k == K::Agg || dt->isVectorTy()) {
            Type* sty = ci.I->getOperand(0)->getType();
            if (ci.op == Instruction::BitCast) {
                if (sty == dt) r = a;
                else {   // through memory
                    u64 n = DL->getTypeStoreSize(dt);
                    Obj tmp; tmp.size = n; tmp.d.assign(n, 0);
                    storeTy(&tmp, 0, sty, a);
                    r = loadTy(&tmp, 0, dt);
                }
            } else { std::vector<Val> v; unsigned w = tyBits(dt->getScalarType()); for (auto& x : a.agg()) v.push_back(castOp(ci.op, x, w)); r = Val::aggr(std::move(v)); }
        } else r = castOp(ci.op, a, ci.w);
        f.regs[ci.dst] = std::move(r); ++f.pc; return;
    }
    case Instruction::Freeze: { Val r = R(f, ci.ops[0]); f.regs[ci.dst] = std::move(r); ++f.pc; return; }
    case Instruction::Select: {
        const Val &c = R(f, ci.ops[0]), &a = R(f, ci.ops[1]), &b = R(f, ci.ops[2]);
        Val r;
        if (c.k == K::Agg) { std::vector<Val> v; for (size_t i = 0; i < c.agg().size(); ++i) v.push_back(selectV(c.agg()[i], a.agg()[i], b.agg()[i], ci.I->getType()->getScalarType())); r = Val::aggr(std::move(v)); }
        else {
            int v = c.k == K::C || ci.I->getType()->isFloatingPointTy() ? -1 : forced(toBool(c));
            r = v < 0 ? selectV(c, a, b, ci.I->getType()) : v ? a : b;
        }
        f.regs[ci.dst] = std::move(r); ++f.pc; return;
    }
    case Instruction::Br: {
        if (ci.ops.empty()) { takeEdge(f, ci.edges[0]); return; }
        const Val& c = R(f, ci.ops[0]);
        bool b = c.k == K::C ? (c.c & 1) : decide(c);
        takeEdge(f, ci.edges[b ? 0 : 1]);
        return;
    }
    case Instruction::Switch: {
        Val c = R(f, ci.ops[0]);
        if (c.conc()) {
            APInt a = c.ap();
            for (size_t i = 1; i < ci.edges.size(); ++i) if (R(f, ci.ops[i]).ap() == a) { takeEdge(f, ci.edges[i]); return; }
            takeEdge(f, ci.edges[0]); return;
        }
        z3::expr e = toBV(c);
        for (size_t i = 1; i < ci.edges.size(); ++i) if (decide(e == bvConst(R(f, ci.ops[i]).ap()))) { takeEdge(f, ci.edges[i]); return; }
        takeEdge(f, ci.edges[0]); return;
    }
    case Instruction::Alloca: {
        auto* al = cast<AllocaInst>(ci.I);
        u64 n = DL->getTypeAllocSize(al->getAllocatedType());
        if (al->isArrayAllocation()) n *= concretize(R(f, ci.ops[0]));
        u64 a = allocStack(st, n, std::max<u64>(16, al->getAlign().value()));
        f.regs[ci.dst] = Val(a, 64); ++f.pc; return;
    }
    case Instruction::Load: {
        u64 a = concretize(R(f, ci.ops[0]));
        Type* t = ci.I->getType();
        ObjRef* r = access(a, DL->getTypeStoreSize(t), false);
        Val v = isAggTy(t) ? loadTy(r->o, a - (*r)->base, t) : loadVal(r->o, a - (*r)->base, ci.w, t->isFloatingPointTy());
        f.regs[ci.dst] = std::move(v); ++f.pc; return;
    }
    case Instruction::Store: {
        u64 a = concretize(R(f, ci.ops[1]));
        Type* t = ci.I->getOperand(0)->getType();
        ObjRef* r = access(a, DL->getTypeStoreSize(t), true);
        Obj* o = r->w();
        if (isAggTy(t)) storeTy(o, a - o->base, t, R(f, ci.ops[0])); else {
            const Val& v = R(f, ci.ops[0]);
            storeVal(o, a - o->base, v);
        }
        ++f.pc; return;
    }
    case Instruction::GetElementPtr: {
        const Val& b = R(f, ci.ops[0]);
        bool all = b.k == K::C;
        for (auto& x : ci.idx) if (R(f, x.first).k != K::C) all = false;
        if (all) {
            u64 a = b.c + (u64)ci.off;
            for (auto& x : ci.idx) { const Val& v = R(f, x.first); i64 k = v.w == 64 ? (i64)v.c : (i64)(v.c << (64 - v.w)) >> (64 - v.w); a += (u64)(k * (i64)x.second); }
            f.regs[ci.dst] = Val(a, 64);
        } else {
            z3::expr e = toBV(b) + Z.bv_val((uint64_t)ci.off, 64);
            for (auto& x : ci.idx) {
                Val v = R(f, x.first);
                if (v.w < 64) v = castOp(Instruction::SExt, v, 64);
                e = e + toBV(v) * Z.bv_val((uint64_t)x.second, 64);
            }
            f.regs[ci.dst] = Val::bv(e, 64);
        }
        ++f.pc; return;
    }
    case Instruction::ExtractValue: {
        Val v = R(f, ci.ops[0]);
        for (unsigned i : cast<ExtractValueInst>(ci.I)->indices()) { Val t = v.agg()[i]; v = t; }
        f.regs[ci.dst] = std::move(v); ++f.pc; return;
    }
    case Instruction::InsertValue: {
        Val a = R(f, ci.ops[0]); const Val& x = R(f, ci.ops[1]);
        std::function<Val(const Val&, ArrayRef<unsigned>)> ins = [&](const Val& v, ArrayRef<unsigned> ix) -> Val {
            if (ix.empty()) return x;
            std::vector<Val> n = v.agg();
            n[ix[0]] = ins(n[ix[0]], ix.drop_front());
            return Val::aggr(std::move(n));
        };
        Val r = ins(a, cast<InsertValueInst>(ci.I)->getIndices());
        f.regs[ci.dst] = std::move(r); ++f.pc; return;
    }
    case Instruction::ExtractElement: { u64 i = concretize(R(f, ci.ops[1])); Val r = R(f, ci.ops[0]).agg().at(i); f.regs[ci.dst] = std::move(r); ++f.pc; return; }
    case Instruction::InsertElement: { u64 i = concretize(R(f, ci.ops[2])); std::vector<Val> n = R(f, ci.ops[0]).agg(); n.at(i) = R(f, ci.ops[1]); f.regs[ci.dst] = Val::aggr(std::move(n)); ++f.pc; return; }
    case Instruction::ShuffleVector: {
        auto* sv = cast<ShuffleVectorInst>(ci.I);
        const auto &a = R(f, ci.ops[0]).agg(); const auto& b = R(f, ci.ops[1]).agg();
        std::vector<Val> r;
        for (int m : sv->getShuffleMask()) r.push_back(m < 0 ? a[0] : (size_t)m < a.size() ? a[m] : b[m - a.size()]);
        f.regs[ci.dst] = Val::aggr(std::move(r)); ++f.pc; return;
    }
    case Instruction::AtomicRMW: {
        auto* rmw = cast<AtomicRMWInst>(ci.I);
        u64 a = concretize(R(f, ci.ops[0]));
        ObjRef* r = access(a, (ci.w + 7) / 8, true);
        Val old = loadVal(r->o, a - (*r)->base, ci.w, false);
        const Val& x = R(f, ci.ops[1]);
        Val nv;
        switch (rmw->getOperation()) {
        case AtomicRMWInst::Xchg: nv = x; break;
        case AtomicRMWInst::Add: nv = intBin(Instruction::Add, old, x); break;
        case AtomicRMWInst::Sub: nv = intBin(Instruction::Sub, old, x); break;
        case AtomicRMWInst::And: nv = intBin(Instruction::And, old, x); break;
        case AtomicRMWInst::Or: nv = intBin(Instruction::Or, old, x); break;
        case AtomicRMWInst::Xor: nv = intBin(Instruction::Xor, old, x); break;
        default: undecided("atomicrmw");
        }
        Obj* o = r->w(); storeVal(o, a - o->base, nv);
        f.regs[ci.dst] = old; ++f.pc; return;
    }
    case Instruction::AtomicCmpXchg: {
        u64 a = concretize(R(f, ci.ops[0]));
        const Val &cmp = R(f, ci.ops[1]), &nw = R(f, ci.ops[2]);
        ObjRef* r = access(a, (cmp.w + 7) / 8, true);
        Val old = loadVal(r->o, a - (*r)->base, cmp.w, false);
        bool eq = decide(icmp(CmpInst::ICMP_EQ, old, cmp));
        if (eq) { r = access(a, (cmp.w + 7) / 8, true); Obj* o = r->w(); storeVal(o, a - o->base, nw); }
        f.regs[ci.dst] = Val::aggr({old, Val(eq, 1)}); ++f.pc; return;
    }
    case Instruction::Fence: ++f.pc; return;
    case Instruction::Unreachable: {
        fault("no undefined behaviour (unreachable)", "unreachable reached"); return;
    }
    case Instruction::Ret: {
        if (ci.ops.empty()) doReturn(nullptr); else { Val v = R(f, ci.ops[0]); doReturn(&v); }
        return;
    }
    case Instruction::Resume: {
        Val v = R(f, ci.ops[0]);
        u64 ex = v.agg()[0].c;
        bool entry = f.isEntry;
        popFrame();
        if (entry) { // uncaught at top
            GlobalVariable* g = gvAt(st.exc[ex].first);
            std::string nm = g ? demangle(g->getName().str()) : "?";
            Oblig& o = gOb["no exception escapes the contract"]; ++o.checked; ++o.failed;
            ensureModel(st);
            recordFailure(st, "no exception escapes the contract", "uncaught exception " + nm, st.model);
            throw PathEnd{"uncaught"};
        }
        doUnwind(ex, st.exc[ex].first);
        return;
    }
    case Instruction::LandingPad: undecided("landingpad reached directly");
    case Instruction::Call: case Instruction::Invoke: {
        auto* cb = cast<CallBase>(ci.I);
        Function* callee = ci.callee;
        if (!callee) {
            if (isa<InlineAsm>(cb->getCalledOperand())) {
                auto* ia = cast<InlineAsm>(cb->getCalledOperand());
                if (ia->getAsmString().empty()) { if (ci.dst >= 0) { if (ci.ops.empty()) undecided("inline asm"); f.regs[ci.dst] = R(f, ci.ops[0]); } ++f.pc; return; }
                undecided("inline asm");
            }
            u64 a = concretize(R(f, ci.ops.back()));
            auto it = faddr.find(a);
            if (it == faddr.end()) fault("memory-safety: valid access", "call through invalid function pointer");
            callee = it->second;
        }
        std::vector<Val> args;
        size_t na = cb->arg_size();
        args.reserve(na);
        for (size_t i = 0; i < na; ++i) args.push_back(R(f, ci.ops[i]));
        int bi = ci.callee ? ci.builtin : builtinIndex(callee->getName().str());
        if (!st.contracts.empty() && st.contracts.count(callee->getName().str())) {
            Function* c = M->getFunction("__vc_contract__" + callee->getName().str());
            if (c) { pushFrame(c, args); return; }
        }
        if (bi >= 0) {
            Val ret; 
            int r = runBuiltin(bi, ci, callee, args, ret);
            if (r == 2) return;      // control already transferred
            Frame& f2 = st.fr.back();
            if (ci.dst >= 0) f2.regs[ci.dst] = std::move(ret);
            if (ci.op == Instruction::Invoke) takeEdge(f2, ci.edges[0]); else ++f2.pc;
            return;
        }
        if (callee->isDeclaration()) undecided("external function " + demangle(callee->getName().str()));
        pushFrame(callee, args);
        return;
    }
    default: break;
    }
    undecided(std::string("instruction ") + ci.I->getOpcodeName());
}

// ------------------------------------------------------------------------------------------
static std::string jstr(const std::string& s) {
    std::string o = "\"";
    for (char c : s) { if (c == '"' || c == '\\') { o += '\\'; o += c; } else if ((unsigned char)c < 32) o += ' '; else o += c; }
    return o + "\"";
}
static void runState(State& st0) {
    State st = std::move(st0);
    cur = &st;
    try {
        for (;;) {
            if ((st.steps & 1023) == 0) {
                if (now() > gBudget) { undecided("time budget exhausted"); }
                if (st.steps > gMaxStepsPath) undecided("step budget of one path exhausted (possible non-termination)");
            }
            step();
        }
    } catch (PathEnd& p) {
        if (p.why == "infeasible") ++gInfeasible; else { ++gPaths; if (p.why == "done") ++gPathsDone; }
        if (gTrace) fprintf(stderr, "path end: %s\n", p.why.c_str());
    } catch (Undecided& u) {
        ++gPaths; ++gUndecided[u.why];
        if (gTrace || gUndecided[u.why] == 1) fprintf(stderr, "[undecided] %s @ %s\n", u.why.c_str(), whereStr(st).c_str());
    } catch (z3::exception& e) {
        ++gUndecided[std::string("z3: ") + e.msg()];
        fprintf(stderr, "[z3] %s @ %s\n", e.msg(), whereStr(st).c_str());
    }
    cur = nullptr;
}

int main(int argc, char** argv) {
    std::string file;
    for (int i = 1; i < argc; ++i) {
        std::string a = argv[i];
        if (a == "--entry") gEntry = argv[++i];
        else if (a == "--real") gReal = true;
        else if (a == "--no-generic") gGeneric = false;
        else if (a == "--budget") gBudget = atof(argv[++i]);
        else if (a == "--timeout") gTimeoutMs = atoi(argv[++i]);
        else if (a == "--shard") { sscanf(argv[++i], "%u/%u", &gShard, &gShards); }
        else if (a == "--seed") gSeed = atoi(argv[++i]);
        else if (a == "--trace") gTrace = true;
        else file = a;
    }
    rng.seed(gSeed);
    z3::context zc; ZC = &zc;
    SMDiagnostic err;
    M = parseIRFile(file, err, LC);
    if (!M) { err.print("irv", errs()); return 9; }
    DL = &M->getDataLayout();
    std::map<std::string, z3::expr> dummy;
    initBuiltins();
    State init;
    // layout
    u64 fa = FBASE;
    for (auto& F : *M) { gaddr[&F] = fa; faddr[fa] = &F; fa += 16; }
    u64 ga = GBASE;
    std::vector<std::pair<GlobalVariable*, Obj*>> gvs;
    for (auto& G : M->globals()) {
        if (G.getName().starts_with("llvm.")) continue;
        u64 n = G.getValueType()->isSized() ? (u64)DL->getTypeAllocSize(G.getValueType()) : 64;
        bool ext = !G.hasInitializer();
        if (ext) n = std::max<u64>(n, 512);
        u64 al = std::max<u64>(16, G.getAlign() ? G.getAlign()->value() : 16);
        ga = (ga + al - 1) / al * al;
        Obj* o = new Obj; o->base = ga; o->size = n; o->name = G.getName().str(); o->d.assign(n, 0);
        o->opaque = false;
        gaddr[&G] = ga; addrToGV[ga] = &G;
        ga += n + 32;
        gvs.push_back({&G, o});
        init.glob.add(ObjRef(o));
    }
    for (auto& g : gvs) if (g.first->hasInitializer()) { writeConst(g.second, 0, g.first->getInitializer()); if (g.first->isConstant()) g.second->ro = true; }
    // global constructors
    double tInit = now();
    if (auto* gc = M->getNamedGlobal("llvm.global_ctors")) if (gc->hasInitializer()) {
        std::vector<std::pair<u64, Function*>> cs;
        if (auto* ca = dyn_cast<ConstantArray>(gc->getInitializer()))
            for (auto& op : ca->operands()) {
                auto* s = cast<ConstantStruct>(op);
                if (auto* F = dyn_cast<Function>(s->getOperand(1)->stripPointerCasts())) cs.push_back({cast<ConstantInt>(s->getOperand(0))->getZExtValue(), F});
            }
        std::stable_sort(cs.begin(), cs.end(), [](auto& a, auto& b) { return a.first < b.first; });
        for (auto& c : cs) {
            if (c.second->isDeclaration()) continue;
            State back = init;
            cur = &init;
            try { pushFrame(c.second, {}); init.fr.back().isEntry = true; for (;;) step(); }
            catch (PathEnd& p) { if (p.why != "done") { fprintf(stderr, "[ctor] %s ended: %s\n", c.second->getName().str().c_str(), p.why.c_str()); init = back; } }
            catch (Undecided& u) { fprintf(stderr, "[ctor skipped] %s: %s\n", c.second->getName().str().c_str(), u.why.c_str()); init = back; }
            init.fr.clear();
        }
        cur = nullptr;
    }
    gOb.clear(); gFail.clear(); gFuncs.clear(); gSteps = 0;
    tInit = now() - tInit;
    Function* E = M->getFunction(gEntry);
    if (!E || E->isDeclaration()) { fprintf(stderr, "no entry %s\n", gEntry.c_str()); return 9; }
    init.steps = 0;
    cur = &init; pushFrame(E, {}); init.fr.back().isEntry = true; cur = nullptr;
    worklist.push_back(std::move(init));
    bool exhausted = true;
    while (!worklist.empty()) {
        if (now() > gBudget || gPaths > gMaxPaths) { exhausted = false; ++gUndecided["exploration stopped (time or path budget); " + std::to_string(worklist.size()) + " path(s) left"]; break; }
        State s = std::move(worklist.back()); worklist.pop_back();
        runState(s);
    }
    // report
    std::ostringstream o;
    o << "{\"entry\":" << jstr(gEntry) << ",\"exhausted\":" << (exhausted ? "true" : "false") << ",\"paths\":" << gPaths << ",\"paths_done\":" << gPathsDone
      << ",\"infeasible\":" << gInfeasible << ",\"steps\":" << gSteps << ",\"queries\":" << gQueries << ",\"external_queries\":" << gFallback << ",\"solver_s\":" << gSolverT << ",\"wall_s\":" << now() << ",\"init_s\":" << tInit
      << ",\"mem_checks\":" << gMemChecks << ",\"obligations\":{";
    bool first = true;
    for (auto& x : gOb) { if (!first) o << ","; first = false; o << jstr(x.first) << ":{\"checked\":" << x.second.checked << ",\"trivial\":" << x.second.trivial << ",\"smt\":" << x.second.smt << ",\"poly\":" << x.second.poly << ",\"failed\":" << x.second.failed << ",\"unknown\":" << x.second.unknown << "}"; }
    o << "},\"covers\":{"; first = true;
    for (auto& x : gCover) { if (!first) o << ","; first = false; o << jstr(x.first) << ":" << x.second; }
    o << "},\"undecided\":{"; first = true;
    for (auto& x : gUndecided) { if (!first) o << ","; first = false; o << jstr(x.first) << ":" << x.second; }
    o << "},\"assumptions\":["; first = true;
    for (auto& x : gAssume) { if (!first) o << ","; first = false; o << jstr(x); }
    o << "],\"functions\":["; first = true;
    for (auto& x : gFuncs) { if (!first) o << ","; first = false; o << jstr(x.first); }
    o << "],\"failures\":["; first = true;
    for (auto& fl : gFail) {
        if (!first) o << ","; first = false;
        o << "{\"obligation\":" << jstr(fl.oblig) << ",\"kind\":" << jstr(fl.kind) << ",\"where\":" << jstr(fl.where) << ",\"has_model\":" << (fl.model ? "true" : "false") << ",\"inputs\":[";
        for (size_t i = 0; i < fl.inputs.size(); ++i) o << (i ? "," : "") << "[" << jstr(fl.inputs[i].first) << "," << jstr(fl.inputs[i].second) << "]";
        o << "]}";
    }
    o << "]}";
    std::cout << o.str() << std::endl;
    _exit(0);
}
