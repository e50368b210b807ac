// ------------------------------------------------------------------------------------------
// Built-in semantics of external functions and LLVM intrinsics (the trusted runtime model)
using BFn = std::function<int(CInst&, Function*, std::vector<Val>&, Val&)>;
static std::vector<BFn> bfns;
static std::unordered_map<std::string, int> bidx;
static std::vector<std::pair<std::string, int>> bpref;
static void defb(const std::string& n, BFn f) { bfns.push_back(f); bidx[n] = bfns.size() - 1; }
static void defp(const std::string& n, BFn f) { bfns.push_back(f); bpref.push_back({n, (int)bfns.size() - 1}); }
static int throwNamed(const char* tiName);
static int builtinIndex(const std::string& n) {
    auto it = bidx.find(n);
    if (it != bidx.end()) return it->second;
    static const std::string thr = "_ZN3rpy6errors15throw_exceptionI";
    if (n.compare(0, thr.size(), thr) == 0) {
        size_t e = n.find("EEv", thr.size());
        std::string ti = "_ZTI" + n.substr(thr.size(), e - thr.size());
        defb(n, [ti](CInst&, Function*, std::vector<Val>&, Val&) -> int { return throwNamed(strdup(ti.c_str())); });
        return bidx[n];
    }
    if (n.compare(0, 5, "llvm.") == 0)
        for (auto& p : bpref) if (n.compare(0, p.first.size(), p.first) == 0) { bidx[n] = p.second; return p.second; }
    return -1;
}
static int runBuiltin(int i, CInst& ci, Function* F, std::vector<Val>& a, Val& r) { return bfns[i](ci, F, a, r); }
#define B(name) defb(name, [](CInst& ci, Function* F, std::vector<Val>& a, Val& r) -> int { (void)ci; (void)F; (void)a; (void)r; State& st = *cur; (void)st;
#define P(name) defp(name, [](CInst& ci, Function* F, std::vector<Val>& a, Val& r) -> int { (void)ci; (void)F; (void)a; (void)r; State& st = *cur; (void)st;
#define END return 0; });

static std::string uniqueName(State& st, const std::string& n) {
    unsigned k = st.nameCount[n]++;
    return k ? n + "#" + std::to_string(k) : n;
}
static Val minmax(int which, const Val& a, const Val& b) {   // 0 umin 1 umax 2 smin 3 smax
    static const unsigned pr[] = {CmpInst::ICMP_ULT, CmpInst::ICMP_UGT, CmpInst::ICMP_SLT, CmpInst::ICMP_SGT};
    Val c = icmp(pr[which], a, b);
    if (c.k == K::C) return c.c ? a : b;
    return Val::bv(z3::ite(toBool(c), toBV(a), toBV(b)), a.w);
}
static APInt needConc(const Val& v) { return concretizeAP(v); }
static Val math1(const std::string& fn, const Val& a, double (*f)(double)) {
    if (a.k == K::C) {
        double x = dOf(a), y = f(x);
        if (!gReal) return ofD(a.w == 32 ? (double)(float)y : y, a.w);
        if (fn == "exp" && x == 0) return ofD(1, a.w);
        if (fn == "log" && x == 1) return ofD(0, a.w);
        if (fn == "log") return ofD(y, a.w);
        if (fn == "sqrt" && y * y == x) return ofD(y, a.w);
    }
    if (gReal) { gAssume.insert("transcendental function '" + fn + "' treated as uninterpreted"); return opaqueFn(fn, toPoly(a), a.w); }
    undecided("symbolic " + fn);
}
static void throwExc(u64 obj, u64 ti) { cur->exc[obj] = {ti, 0}; doUnwind(obj, ti); }
static int throwNamed(const char* tiName) {
    State& st = *cur;
    u64 o = allocHeap(st, 64);
    auto* g = M->getNamedGlobal(tiName);
    u64 t = g ? gaddr[g] : 0xdead0000;
    throwExc(o, t);
    return 2;
}
static Val overflowOp(unsigned op, bool sgn, const Val& a, const Val& b) {
    unsigned w = a.w;
    unsigned W = op == Instruction::Mul ? 2 * w : w + 2;
    Val A = castOp(sgn ? Instruction::SExt : Instruction::ZExt, a, W), Bv = castOp(sgn ? Instruction::SExt : Instruction::ZExt, b, W);
    Val full = intBin(op, A, Bv);
    Val lo = castOp(Instruction::Trunc, full, w);
    Val back = castOp(sgn ? Instruction::SExt : Instruction::ZExt, lo, W);
    return Val::aggr({lo, icmp(CmpInst::ICMP_NE, back, full)});
}
static void initBuiltins() {
    // ---- contract interface
    B("__vc_u") std::string n = uniqueName(st, readStr(concretize(a[0]))); unsigned bits = concretize(a[1]);
        z3::expr e = bits == 1 ? Z.bool_const(n.c_str()) : Z.bv_const(n.c_str(), bits);
        st.inputs.push_back({n, e, 0, bits, 0});
        Val v = Val::bv(e, bits);
        r = bits == 64 ? v : castOp(Instruction::ZExt, v, 64);
    END
    B("__vc_range") std::string n = uniqueName(st, readStr(concretize(a[0]))); unsigned bits = concretize(a[1]);
        i64 lo = (i64)concretize(a[2]), hi = (i64)concretize(a[3]);
        z3::expr e = Z.bv_const(n.c_str(), bits);
        st.inputs.push_back({n, e, 0, bits, 0});
        auto sx = [&](i64 v) { return bvConst(APInt(64, (u64)v).sextOrTrunc(bits)); };
        z3::expr c = e >= sx(lo) && e <= sx(hi);
        if (lo > hi) throw PathEnd{"infeasible"};
        st.pc.push_back(c); st.known[c.id()] = true; st.model.reset();
        r = castOp(Instruction::ZExt, Val::bv(e, bits), 64);
    END
    B("__vc_d") std::string n = uniqueName(st, readStr(concretize(a[0])));
        if (gReal) {
            std::string key = "in:" + n;
            auto it = opaqueVars.find(key);
            if (it == opaqueVars.end()) it = opaqueVars.insert({key, newRealVar(n)}).first;
            st.inputs.push_back({n, realVars[it->second], 2, 64, 0});
            r = Val::real(polyVar(it->second), 64);
        } else {
            z3::expr key = Z.bv_const((n + "!key").c_str(), 64), negz = Z.bool_const((n + "!negzero").c_str());
            r = fpFromKey(key, negz);
            { z3::expr c = key != Z.bv_val((uint64_t)1 << 63, 64); st.pc.push_back(c); st.known[c.id()] = true; st.model.reset(); }   // not the key of any double
            st.inputs.push_back({n, r.e().arg(0), 1, 64, 0});
        }
    END
    B("__vc_choose") std::string nm = readStr(concretize(a[0])); u64 n = concretize(a[1]);
        bool firstChoose = true;
        for (auto& kv : st.nameCount) if (kv.first.compare(0, 7, "choose!") == 0 && kv.second) firstChoose = false;
        std::string key = "pending!" + nm;
        // choices are forked explicitly without a solver
        std::string un = uniqueName(st, nm); st.nameCount["choose!"]++;
        std::vector<u64> vals;
        for (u64 i = 0; i < n; ++i) if (!firstChoose || gShards <= 1 || i % gShards == gShard) vals.push_back(i);
        if (vals.empty()) throw PathEnd{"infeasible"};
        State base = st;
        for (size_t i = vals.size(); i-- > 1;) {
            State s = base;
            s.inputs.push_back({un, Z.bool_val(true), 3, 64, vals[i]});
            Frame& f2 = s.fr.back();
            f2.regs[ci.dst] = Val(vals[i], ci.w);
            if (ci.op == Instruction::Invoke) takeEdge(f2, ci.edges[0]); else ++f2.pc;
            worklist.push_back(std::move(s));
        }
        st.inputs.push_back({un, Z.bool_val(true), 3, 64, vals[0]});
        r = Val(vals[0], ci.w);
    END
    B("__vc_assume")
        if (a[0].k == K::C) { if (!(a[0].c & 1)) throw PathEnd{"infeasible"}; return 0; }
        z3::expr e = toBool(a[0]);
        e = simp(e);
        auto it = st.known.find(e.id());
        if (it != st.known.end()) { if (!it->second) throw PathEnd{"infeasible"}; return 0; }
        if (!(st.model && evalBool(st, e) == 1)) {
            std::shared_ptr<z3::model> m;
            R3 q = check(st.pc, e, &m);
            if (q == R3::unsat) throw PathEnd{"infeasible"};
            st.model = m;
        }
        st.pc.push_back(e); st.known[e.id()] = true;
    END
    B("__vc_assert") std::string nm = readStr(concretize(a[1])); assertVC(a[0], nm); END
    B("__vc_cover") std::string nm = readStr(concretize(a[0])); if (!gCover.count(nm)) { if (!st.model) ensureModel(st); } ++gCover[nm]; END
    B("__vc_eq")
        if (gReal) {
            PolyP d = polyAdd(toPoly(a[0]), toPoly(a[1]), -1);
            if (d->isConst()) r = Val(d->isZero(), 1);
            else if (gGeneric) r = Val(0, 1);
            else r = Val::bv(polyToZ3(d) == Z.real_val(0), 1);
        } else if (a[0].k != K::C && a[1].k != K::C && z3::eq(toFP(a[0]), toFP(a[1]))) r = Val(1, 1);   // the same computation
        else r = fcmp(CmpInst::FCMP_OEQ, a[0], a[1]);
    END
    B("__vc_concretize") r = Val::big(concretizeAP(a[0])); END
    B("__vc_use_contract") st.contracts.insert(readStr(concretize(a[0]))); END
    B("__vc_no_contract") st.contracts.erase(readStr(concretize(a[0]))); END
    B("__vc_symbolic") r = Val(1, 32); END
    B("__vc_note") END

    // ---- allocation
    auto newf = [](CInst&, Function*, std::vector<Val>& a, Val& r) -> int { r = Val(allocHeap(*cur, concretize(a[0]), 16), 64); return 0; };
    for (auto n : {"_Znwm", "_Znam", "malloc", "_ZnwmRKSt9nothrow_t", "_ZnamRKSt9nothrow_t"}) defb(n, newf);
    auto newal = [](CInst&, Function*, std::vector<Val>& a, Val& r) -> int { r = Val(allocHeap(*cur, concretize(a[0]), std::max<u64>(16, concretize(a[1]))), 64); return 0; };
    for (auto n : {"_ZnwmSt11align_val_t", "_ZnamSt11align_val_t"}) defb(n, newal);
    B("aligned_alloc") r = Val(allocHeap(st, concretize(a[1]), std::max<u64>(16, concretize(a[0]))), 64); END
    B("posix_memalign") u64 p = allocHeap(st, concretize(a[2]), std::max<u64>(16, concretize(a[1]))); wrV(concretize(a[0]), Val(p, 64)); r = Val(0, 32); END
    B("calloc") u64 n = concretize(a[0]) * concretize(a[1]); u64 p = allocHeap(st, n); Obj* o = findObj(st, p)->w(); std::fill(o->d.begin(), o->d.end(), 0); r = Val(p, 64); END
    B("realloc") u64 p = concretize(a[0]), n = concretize(a[1]); u64 q = allocHeap(st, n); if (p) { u64 on = (*access(p, 0, false))->size; copyBytes(st, q, p, std::min(n, on)); freeHeap(st, p); } r = Val(q, 64); END
    auto del = [](CInst&, Function*, std::vector<Val>& a, Val&) -> int { freeHeap(*cur, concretize(a[0])); return 0; };
    for (auto n : {"_ZdlPv", "_ZdlPvm", "_ZdaPv", "_ZdaPvm", "free", "_ZdlPvSt11align_val_t", "_ZdlPvmSt11align_val_t", "_ZdaPvSt11align_val_t", "_ZdaPvmSt11align_val_t", "_ZdlPvRKSt9nothrow_t"}) defb(n, del);

    // ---- memory / strings
    auto mcpy = [](CInst&, Function*, std::vector<Val>& a, Val& r) -> int { u64 n = concretize(a[2]); u64 d = concretize(a[0]), s = n ? concretize(a[1]) : 0; copyBytes(*cur, d, s, n); r = a[0]; return 0; };
    for (auto n : {"memcpy", "memmove"}) defb(n, mcpy);
    defp("llvm.memcpy.", mcpy); defp("llvm.memmove.", mcpy);
    auto mset = [](CInst&, Function*, std::vector<Val>& a, Val& r) -> int {
        u64 n = concretize(a[2]); u64 d = concretize(a[0]); r = a[0];
        if (!n) return 0;
        ObjRef* o = access(d, n, true); Obj* w = o->w();
        splitCells(w, d - w->base, n);
        if (a[1].k == K::C) memset(w->d.data() + (d - w->base), (int)a[1].c, n);
        else { Val b = castOp(Instruction::Trunc, a[1], 8); for (u64 i = 0; i < n; ++i) storeVal(w, d - w->base + i, b); }
        return 0; };
    defb("memset", mset); defp("llvm.memset.", mset);
    auto mcmp = [](CInst& ci, Function*, std::vector<Val>& a, Val& r) -> int {
        u64 n = concretize(a[2]);
        if (!n) { r = Val(0, 32); return 0; }
        u64 p = concretize(a[0]), q = concretize(a[1]);
        ObjRef *x = access(p, n, false), *y = access(q, n, false);
        Val res(0, 32);
        for (u64 i = n; i-- > 0;) {
            Val bx = byteAt(x->o, p - (*x)->base + i), by = byteAt(y->o, q - (*y)->base + i);
            if (bx.k == K::C && by.k == K::C) { if (bx.c != by.c) res = Val(bx.c < by.c ? (u64)-1 : 1, 32); continue; }
            z3::expr ex = toBV(bx), ey = toBV(by);
            res = Val::bv(z3::ite(ex == ey, toBV(res), z3::ite(z3::ult(ex, ey), Z.bv_val(-1, 32), Z.bv_val(1, 32))), 32);
        }
        r = res; return 0; };
    defb("memcmp", mcmp); defb("bcmp", mcmp);
    B("strlen") r = Val(readStr(concretize(a[0])).size(), 64); END
    B("strcmp") int c = readStr(concretize(a[0])).compare(readStr(concretize(a[1]))); r = Val(c < 0 ? -1 : c > 0, 32); END
    B("memchr") u64 p = concretize(a[0]), ch = concretize(a[1]) & 255, n = concretize(a[2]); r = Val(0, 64); for (u64 i = 0; i < n; ++i) { ObjRef* o = access(p + i, 1, false); if (concretize(byteAt(o->o, p + i - (*o)->base)) == ch) { r = Val(p + i, 64); break; } } END
    for (auto n : {"isalnum", "isspace", "isdigit", "isalpha", "toupper", "tolower", "isupper", "islower", "isprint", "ispunct"}) {
        std::string nm = n;
        defb(n, [nm](CInst&, Function*, std::vector<Val>& a, Val& r) -> int {
            int c = (int)concretize(a[0]);
            int v = nm == "isalnum" ? isalnum(c) : nm == "isspace" ? isspace(c) : nm == "isdigit" ? isdigit(c) : nm == "isalpha" ? isalpha(c) : nm == "toupper" ? toupper(c) : nm == "tolower" ? tolower(c) : nm == "isupper" ? isupper(c) : nm == "islower" ? islower(c) : nm == "isprint" ? isprint(c) : ispunct(c);
            r = Val((u64)(nm[0] == 't' ? v : v != 0), 32); return 0; });
    }

    // ---- exceptions
    B("__cxa_allocate_exception") r = Val(allocHeap(st, std::max<u64>(concretize(a[0]), 64)), 64); END
    B("__cxa_free_exception") END
    B("__cxa_throw") throwExc(concretize(a[0]), concretize(a[1])); return 2; END
    B("__cxa_rethrow") if (st.caught.empty()) undecided("rethrow"); u64 e = st.caught.back(); doUnwind(e, st.exc[e].first); return 2; END
    B("__cxa_begin_catch") st.caught.push_back(concretize(a[0])); r = a[0]; END
    B("__cxa_get_exception_ptr") r = a[0]; END
    B("__cxa_end_catch") if (!st.caught.empty()) st.caught.pop_back(); END
    B("llvm.eh.typeid.for") r = Val(concretize(a[0]) & 0xffffffffu, 32); END
    defp("llvm.eh.typeid.for", [](CInst&, Function*, std::vector<Val>& a, Val& r) -> int { r = Val(concretize(a[0]) & 0xffffffffu, 32); return 0; });
    auto term = [](CInst&, Function*, std::vector<Val>&, Val&) -> int { fault("no abnormal termination", "std::terminate/abort called"); return 2; };
    for (auto n : {"_ZSt9terminatev", "abort", "__cxa_pure_virtual", "__clang_call_terminate", "__cxa_bad_cast", "__cxa_throw_bad_array_new_length", "exit", "__assert_fail"}) defb(n, term);
    defp("llvm.trap", term); defp("llvm.ubsantrap", term);
    struct TN { const char* f; const char* t; };
    static const TN tns[] = {{"_ZSt20__throw_length_errorPKc", "_ZTISt12length_error"}, {"_ZSt19__throw_logic_errorPKc", "_ZTISt11logic_error"}, {"_ZSt20__throw_out_of_rangePKc", "_ZTISt12out_of_range"},
        {"_ZSt24__throw_out_of_range_fmtPKcz", "_ZTISt12out_of_range"}, {"_ZSt17__throw_bad_allocv", "_ZTISt9bad_alloc"}, {"_ZSt28__throw_bad_array_new_lengthv", "_ZTISt9bad_alloc"}, {"_ZSt16__throw_bad_castv", "_ZTISt8bad_cast"},
        {"_ZSt24__throw_invalid_argumentPKc", "_ZTISt16invalid_argument"}, {"_ZSt25__throw_bad_function_callv", "_ZTISt9exception"}, {"_ZSt20__throw_system_errori", "_ZTISt12system_error"}, {"_ZSt19__throw_range_errorPKc", "_ZTISt11range_error"}, {"_ZSt21__throw_runtime_errorPKc", "_ZTISt13runtime_error"}, {"_ZSt22__throw_overflow_errorPKc", "_ZTISt14overflow_error"}};
    for (auto& t : tns) { const char* tn = t.t; defb(t.f, [tn](CInst&, Function*, std::vector<Val>&, Val&) -> int { return throwNamed(tn); }); }
    auto nop = [](CInst& ci, Function*, std::vector<Val>& a, Val& r) -> int { if (ci.w) r = Val(0, ci.w); return 0; };
    // std exception objects: messages are not modelled
    for (auto c : {"St11logic_error", "St13runtime_error", "St16invalid_argument", "St12domain_error", "St12length_error", "St12out_of_range", "St11range_error", "St14overflow_error", "St9exception", "St9bad_alloc", "St8bad_cast"}) {
        std::string nm(c);
        std::string in = nm.substr(2);   // <len><name>
        std::string base = "_ZNSt" + in;
        for (auto s : {"C1EPKc", "C2EPKc", "C1ERKNSt7__cxx1112basic_stringIcSt11char_traitsIcESaIcEEE", "C2ERKNSt7__cxx1112basic_stringIcSt11char_traitsIcESaIcEEE", "D0Ev", "D1Ev", "D2Ev"}) defb(base + s, nop);
        defb(base + "C1ERKS_", nop); defb(base + "C2ERKS_", nop);
        defb("_ZNKSt" + in + "4whatEv", [](CInst&, Function*, std::vector<Val>&, Val& r) -> int { u64 p = allocHeap(*cur, 1); wrV(p, Val(0, 8)); r = Val(p, 64); return 0; });
    }
    // ---- runtime
    for (auto n : {"__cxa_atexit", "pthread_mutex_lock", "pthread_mutex_unlock", "pthread_mutex_trylock", "pthread_mutex_init", "pthread_mutex_destroy", "__gthread_active_p", "_ZNSt8ios_base4InitC1Ev", "_ZNSt8ios_base4InitD1Ev", "_ZSt21ios_base_library_initv",
                   "pthread_once", "pthread_rwlock_rdlock", "pthread_rwlock_wrlock", "pthread_rwlock_unlock", "atexit", "__cxa_guard_abort", "sched_yield", "_ZNSt18condition_variable10notify_allEv", "_ZNSt18condition_variable10notify_oneEv"}) defb(n, nop);
    B("__cxa_guard_acquire") u64 g = concretize(a[0]); ObjRef* o = access(g, 1, false); Val b = byteAt(o->o, g - (*o)->base); r = Val(concretize(b) ? 0 : 1, 32); END
    B("__cxa_guard_release") wrV(concretize(a[0]), Val(1, 8)); END
    B("__errno_location") static const char* nm = "errno"; (void)nm; auto it = st.conc.find(0xffffffffu); u64 p; if (it == st.conc.end()) { p = allocHeap(st, 4); wrV(p, Val(0, 32)); st.conc[0xffffffffu] = p; } else p = it->second; r = Val(p, 64); END
    B("__dynamic_cast") u64 p = concretize(a[0]); u64 dst = concretize(a[2]);
        if (!p) { r = Val(0, 64); return 0; }
        u64 vt = rdU64(p); i64 top = (i64)rdU64(vt - 16); u64 ti = rdU64(vt - 8);
        i64 off;
        if (baseOffset(ti, dst, off)) r = Val(p + top + off, 64); else r = Val(0, 64);
    END

    // ---- maths
    auto def1 = [](const char* nm, const char* llvmn, double (*f)(double)) {
        std::string n = nm;
        BFn h = [n, f](CInst&, Function*, std::vector<Val>& a, Val& r) -> int { r = math1(n, a[0], f); return 0; };
        defb(n, h); defb(n + "f", h); if (llvmn) defp(llvmn, h);
    };
    def1("exp", "llvm.exp.", std::exp); def1("log", "llvm.log.", std::log); def1("sqrt", "llvm.sqrt.", std::sqrt); def1("sin", "llvm.sin.", std::sin); def1("cos", "llvm.cos.", std::cos); def1("log2", "llvm.log2.", std::log2); def1("log10", "llvm.log10.", std::log10);
    def1("cbrt", nullptr, std::cbrt); def1("tgamma", nullptr, std::tgamma);
    auto rnd = [](int m) -> BFn { return [m](CInst&, Function*, std::vector<Val>& a, Val& r) -> int { r = roundFP(a[0], m); return 0; }; };
    defb("floor", rnd(0)); defp("llvm.floor.", rnd(0)); defb("ceil", rnd(1)); defp("llvm.ceil.", rnd(1)); defb("trunc", rnd(2)); defp("llvm.trunc.", rnd(2)); defb("round", rnd(3)); defp("llvm.round.", rnd(3)); defp("llvm.rint.", rnd(4)); defp("llvm.nearbyint.", rnd(4));
    auto ldx = [](CInst&, Function*, std::vector<Val>& a, Val& r) -> int { r = scalePow2(a[0], a[1]); return 0; };
    defb("ldexp", ldx); defb("scalbn", ldx); defp("llvm.ldexp.", ldx); defb("ldexpf", ldx); defb("scalbln", ldx);
    auto powf = [](CInst&, Function*, std::vector<Val>& a, Val& r) -> int {
        if (a[0].k == K::C && a[1].k == K::C && a[1].w == a[0].w) {
            double x = dOf(a[0]), y = dOf(a[1]);
            if (!gReal) { r = ofD(std::pow(x, y), a[0].w); return 0; }
            if (y == std::floor(y) && std::fabs(y) < 64) { mpq_class q(1), b = ratOfDouble(x); int n = (int)std::fabs(y); for (int i = 0; i < n; ++i) q *= b; if (y < 0) { if (q == 0) undecided("pow 0"); q = 1 / q; } r = Val::real(polyConst(q), a[0].w); return 0; }
        }
        if (a[0].k == K::C && dOf(a[0]) == 2.0 && !gReal) { r = scalePow2(ofD(1.0, 64), castOp(Instruction::FPToSI, a[1], 32)); return 0; }
        if (gReal && a[1].k == K::C) { double y = dOf(a[1]); if (y == std::floor(y) && y >= 0 && y < 40) { PolyP q = polyConst(1), b = toPoly(a[0]); for (int i = 0; i < (int)y; ++i) q = polyMul(q, b); r = Val::real(q, a[0].w); return 0; } }
        undecided("symbolic pow"); };
    defb("pow", powf); defp("llvm.pow.", powf); defb("powf", powf);
    P("llvm.powi.") i64 n = concretizeAP(a[1]).getSExtValue(); if (n < 0) undecided("powi<0"); Val q = ofD(1, a[0].w); for (i64 i = 0; i < n; ++i) q = fpBin(Instruction::FMul, q, a[0]); r = q; END
    auto fab = [](CInst&, Function*, std::vector<Val>& a, Val& r) -> int {
        if (a[0].k == K::C) { r = ofD(std::fabs(dOf(a[0])), a[0].w); return 0; }
        if (a[0].k == K::R) { bool neg = decide(fcmp(CmpInst::FCMP_OLT, a[0], ofD(0, a[0].w))); r = neg ? fneg(a[0]) : a[0]; return 0; }
        z3::expr bits(Z), key(Z);
        if (a[0].k == K::FP && fpKey(a[0], key)) {
            r = Val::fp(z3::expr(Z, Z3_mk_fpa_to_fp_bv(Z, toBV(a[0]) & Z.bv_val((uint64_t)0x7fffffffffffffffull, 64), fpSort(64))), 64);
            gKeys.insert({r.e().id(), {r.e(), simp(z3::ite(key < Z.bv_val((uint64_t)0, 64), -key, key))}}); return 0;
        }
        if (a[0].k == K::FP && fpBits(a[0].e(), bits)) { r = Val::fp(z3::expr(Z, Z3_mk_fpa_to_fp_bv(Z, simp(bits & (a[0].w == 64 ? Z.bv_val((uint64_t)0x7fffffffffffffffull, 64) : Z.bv_val(0x7fffffffu, 32))), fpSort(a[0].w))), a[0].w); return 0; }
        r = Val::fp(simp(z3::expr(Z, Z3_mk_fpa_abs(Z, toFP(a[0])))), a[0].w); return 0; };
    defb("fabs", fab); defb("fabsf", fab); defp("llvm.fabs.", fab);
    auto fma_ = [](CInst&, Function*, std::vector<Val>& a, Val& r) -> int { r = fpBin(Instruction::FAdd, fpBin(Instruction::FMul, a[0], a[1]), a[2]); return 0; };
    defp("llvm.fmuladd.", fma_);
    auto fm = [](bool mx) -> BFn { return [mx](CInst&, Function*, std::vector<Val>& a, Val& r) -> int {
        bool x = decide(fcmp(mx ? CmpInst::FCMP_OGE : CmpInst::FCMP_OLE, a[0], a[1])); r = x ? a[0] : a[1]; return 0; }; };
    defp("llvm.maxnum.", fm(true)); defp("llvm.minnum.", fm(false)); defb("fmax", fm(true)); defb("fmin", fm(false));
    P("llvm.copysign.") if (a[0].k == K::C && a[1].k == K::C) { r = ofD(std::copysign(dOf(a[0]), dOf(a[1])), a[0].w); return 0; } undecided("copysign"); END
    B("frexp") if (a[0].k != K::C) undecided("symbolic frexp"); int ex; double m = std::frexp(dOf(a[0]), &ex); wrV(concretize(a[1]), Val((u64)(i64)ex, 32)); r = ofD(m, 64); END
    B("nextafter") if (a[0].k != K::C || a[1].k != K::C) undecided("symbolic nextafter"); r = ofD(std::nextafter(dOf(a[0]), dOf(a[1])), 64); END
    P("llvm.is.fpclass.") unsigned mask = concretize(a[1]);
        if (a[0].k == K::R) { r = Val(((mask & 0x108) == 0x108 || (mask & 0x1f8) == 0x1f8), 1); return 0; }
        if (a[0].k == K::C) { double x = dOf(a[0]); unsigned c = std::isnan(x) ? 2 : std::isinf(x) ? (x < 0 ? 4 : 512) : x == 0 ? (std::signbit(x) ? 32 : 64) : std::fpclassify(x) == FP_SUBNORMAL ? (x < 0 ? 16 : 128) : (x < 0 ? 8 : 256); if (c == 2) r = Val((mask & 3) != 0, 1); else r = Val((mask & c) != 0, 1); return 0; }
        z3::expr res = Z.bool_val(false);
        z3::expr bits(Z), key(Z);
        if (a[0].k == K::FP && fpKey(a[0], key) && ((mask & 0x3ff) == 0x1f8 || (mask & 0x3ff) == 3 || (mask & 0x3ff) == 0x3fc || (mask & 0x3ff) == 0x204 || (mask & 0x3ff) == 0x207)) {
            z3::expr inf = Z.bv_val(KEY_INF, 64), ninf = -inf;
            z3::expr fin = key < inf && key > ninf, isinf = key == inf || key == ninf;
            switch (mask & 0x3ff) { case 0x1f8: res = fin; break; case 3: res = !fin && !isinf; break; case 0x3fc: res = fin || isinf; break; case 0x204: res = isinf; break; default: res = !fin; break; }
            r = Val::bv(simp(res), 1); return 0;
        }
        if (a[0].k == K::FP && a[0].w == 64 && fpBits(a[0].e(), bits)) {
            auto c = [](uint64_t v) { return Z.bv_val(v, 64); };
            z3::expr m = bits & c(0x7fffffffffffffffull), neg = bits < c(0), inf = c(0x7ff0000000000000ull), sub = c(0x0010000000000000ull);
            z3::expr isinf = m == inf, isnorm = z3::uge(m, sub) && z3::ult(m, inf), issub = z3::ugt(m, c(0)) && z3::ult(m, sub), iszero = m == c(0);
            if (mask & 3) res = res || z3::ugt(m, inf);
            if (mask & 4) res = res || (isinf && neg);
            if (mask & 8) res = res || (isnorm && neg);
            if (mask & 16) res = res || (issub && neg);
            if (mask & 32) res = res || (iszero && neg);
            if (mask & 64) res = res || (iszero && !neg);
            if (mask & 128) res = res || (issub && !neg);
            if (mask & 256) res = res || (isnorm && !neg);
            if (mask & 512) res = res || (isinf && !neg);
            r = Val::bv(simp(res), 1); return 0;
        }
        z3::expr x = toFP(a[0]);
        auto E = [](Z3_ast q) { return z3::expr(Z, q); };
        z3::expr neg = E(Z3_mk_fpa_is_negative(Z, x)), pos = E(Z3_mk_fpa_is_positive(Z, x));
        if (mask & 3) res = res || E(Z3_mk_fpa_is_nan(Z, x));
        if (mask & 4) res = res || (E(Z3_mk_fpa_is_infinite(Z, x)) && neg);
        if (mask & 8) res = res || (E(Z3_mk_fpa_is_normal(Z, x)) && neg);
        if (mask & 16) res = res || (E(Z3_mk_fpa_is_subnormal(Z, x)) && neg);
        if (mask & 32) res = res || (E(Z3_mk_fpa_is_zero(Z, x)) && neg);
        if (mask & 64) res = res || (E(Z3_mk_fpa_is_zero(Z, x)) && pos);
        if (mask & 128) res = res || (E(Z3_mk_fpa_is_subnormal(Z, x)) && pos);
        if (mask & 256) res = res || (E(Z3_mk_fpa_is_normal(Z, x)) && pos);
        if (mask & 512) res = res || (E(Z3_mk_fpa_is_infinite(Z, x)) && pos);
        r = Val::bv(res, 1);
    END

    // ---- integer intrinsics
    P("llvm.umin.") r = minmax(0, a[0], a[1]); END
    P("llvm.umax.") r = minmax(1, a[0], a[1]); END
    P("llvm.smin.") r = minmax(2, a[0], a[1]); END
    P("llvm.smax.") r = minmax(3, a[0], a[1]); END
    P("llvm.abs.") Val z(0, a[0].w); if (a[0].w > 64) z = Val::big(APInt(a[0].w, 0)); Val n = intBin(Instruction::Sub, z, a[0]); Val c = icmp(CmpInst::ICMP_SLT, a[0], z); r = c.k == K::C ? (c.c ? n : a[0]) : Val::bv(z3::ite(toBool(c), toBV(n), toBV(a[0])), a[0].w); END
    P("llvm.ctpop.") if (a[0].conc()) { r = Val::big(APInt(a[0].w, a[0].ap().popcount())); return 0; } z3::expr e = toBV(a[0]); unsigned w = a[0].w; z3::expr s = Z.bv_val(0, w); for (unsigned i = 0; i < w; ++i) s = s + z3::zext(e.extract(i, i), w - 1); r = Val::bv(s, w); END
    P("llvm.ctlz.") if (a[0].conc()) { r = Val::big(APInt(a[0].w, a[0].ap().countl_zero())); return 0; } z3::expr e = toBV(a[0]); unsigned w = a[0].w; z3::expr s = Z.bv_val(w, w); for (unsigned i = 0; i < w; ++i) s = z3::ite(e.extract(i, i) == Z.bv_val(1, 1), Z.bv_val(w - 1 - i, w), s); r = Val::bv(s, w); END
    P("llvm.cttz.") if (a[0].conc()) { r = Val::big(APInt(a[0].w, a[0].ap().countr_zero())); return 0; } z3::expr e = toBV(a[0]); unsigned w = a[0].w; z3::expr s = Z.bv_val(w, w); for (unsigned i = w; i-- > 0;) s = z3::ite(e.extract(i, i) == Z.bv_val(1, 1), Z.bv_val(i, w), s); r = Val::bv(s, w); END
    P("llvm.bswap.") r = Val::big(needConc(a[0]).byteSwap()); END
    auto fsh = [](bool left) -> BFn { return [left](CInst&, Function*, std::vector<Val>& a, Val& r) -> int {
        unsigned w = a[0].w;
        u64 s = concretize(a[2]) % w;
        if (!s) { r = left ? a[0] : a[1]; return 0; }
        if (!left) s = w - s;
        Val hi = intBin(Instruction::Shl, a[0], Val(s, w)), lo = intBin(Instruction::LShr, a[1], Val(w - s, w));
        r = intBin(Instruction::Or, hi, lo); return 0; }; };
    defp("llvm.fshl.", fsh(true)); defp("llvm.fshr.", fsh(false));
    P("llvm.uadd.with.overflow.") r = overflowOp(Instruction::Add, false, a[0], a[1]); END
    P("llvm.usub.with.overflow.") Val lo = intBin(Instruction::Sub, a[0], a[1]); r = Val::aggr({lo, icmp(CmpInst::ICMP_ULT, a[0], a[1])}); END
    P("llvm.umul.with.overflow.") r = overflowOp(Instruction::Mul, false, a[0], a[1]); END
    P("llvm.sadd.with.overflow.") r = overflowOp(Instruction::Add, true, a[0], a[1]); END
    P("llvm.ssub.with.overflow.") r = overflowOp(Instruction::Sub, true, a[0], a[1]); END
    P("llvm.smul.with.overflow.") r = overflowOp(Instruction::Mul, true, a[0], a[1]); END
    P("llvm.usub.sat.") Val c = icmp(CmpInst::ICMP_ULT, a[0], a[1]); Val z = Val::big(APInt(a[0].w, 0)); Val d = intBin(Instruction::Sub, a[0], a[1]); r = c.k == K::C ? (c.c ? z : d) : Val::bv(z3::ite(toBool(c), toBV(z), toBV(d)), a[0].w); END
    P("llvm.uadd.sat.") Val s = intBin(Instruction::Add, a[0], a[1]); Val c = icmp(CmpInst::ICMP_ULT, s, a[0]); Val m = Val::big(APInt::getAllOnes(a[0].w)); r = c.k == K::C ? (c.c ? m : s) : Val::bv(z3::ite(toBool(c), toBV(m), toBV(s)), a[0].w); END
    // ---- no-ops
    for (auto n : {"llvm.lifetime.", "llvm.dbg.", "llvm.assume", "llvm.donothing", "llvm.stackrestore", "llvm.experimental.noalias.scope.decl", "llvm.invariant.", "llvm.prefetch", "llvm.sideeffect", "llvm.var.annotation"}) defp(n, nop);
    P("llvm.stacksave") r = Val(0, 64); END
    P("llvm.expect.") r = a[0]; END
    P("llvm.launder.invariant.group") r = a[0]; END
    P("llvm.strip.invariant.group") r = a[0]; END
    P("llvm.threadlocal.address") r = a[0]; END
    P("llvm.ptrmask.") r = intBin(Instruction::And, a[0], a[1]); END
    P("llvm.is.constant.") r = Val(0, 1); END
    P("llvm.objectsize.") r = Val((u64)-1, ci.w); END
    P("llvm.load.relative.") u64 b = concretize(a[0]); u64 off = concretize(a[1]); ObjRef* o = access(b + off, 4, false); i64 d = (int32_t)concretize(loadVal(o->o, b + off - (*o)->base, 32, false)); r = Val(b + d, 64); END
    auto vred = [](unsigned op, bool fp) -> BFn { return [op, fp](CInst&, Function*, std::vector<Val>& a, Val& r) -> int {
        size_t k = fp ? 1 : 0; Val acc = fp ? a[0] : a[0].agg()[0];
        for (size_t i = fp ? 0 : 1; i < a[k].agg().size(); ++i) acc = fp ? fpBin(op, acc, a[k].agg()[i]) : intBin(op, acc, a[k].agg()[i]);
        r = acc; return 0; }; };
    defp("llvm.vector.reduce.add.", vred(Instruction::Add, false)); defp("llvm.vector.reduce.or.", vred(Instruction::Or, false)); defp("llvm.vector.reduce.and.", vred(Instruction::And, false)); defp("llvm.vector.reduce.fadd.", vred(Instruction::FAdd, true));
}
