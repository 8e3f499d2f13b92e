    // builtins.inc - models of the external functions (included inside struct Engine)
    Val newSym(State& s, const std::string& base, char kind, unsigned w, z3::expr& out)
    {
        int& n = s.nameCnt[base]; std::string name = n ? base + "#" + std::to_string(n) : base; ++n;
        // the same name on the same path prefix always denotes the same constant
        z3::expr v = kind == 'n' ? Z().int_const(name.c_str()) : kind == 'l' ? Z().bool_const(name.c_str()) : Z().bv_const(name.c_str(), w);
        out = v;
        auto ns = std::make_shared<std::vector<SymVar>>(*s.syms);
        z3::expr shown = kind == 'l' ? z3::ite(v, Z().bv_val(1, 8), Z().bv_val(0, 8)) : v;
        ns->push_back(SymVar{name, shown, kind == 'l' ? 'i' : kind, kind == 'l' ? 8 : w});
        s.syms = ns;
        Val r; r.k = BV; r.w = w; r.n = std::make_shared<Node>(v); return r;
    }
    void addInput(State& s, const z3::expr& c)
    {
        addPC(s, c.simplify()); s.model.reset();
    }
    void throwBuiltin(State& s, Inst& in, const char* fn)
    {
        const Function* F = M->getFunction(fn); if (!F) inconclusive(std::string("runtime lacks ") + fn);
        pushCall(s, finfo(F), {}, &in);
    }
    bool allocFault(State& s, Inst& in)
    {
        if (s.rtDepth || s.allocsLeft == ~0ull) return false;
        if (s.allocsLeft-- == 0) { s.allocsLeft = ~0ull; throwBuiltin(s, in, "sv_rt_throw_bad_alloc_"); return true; }
        return false;
    }
    void builtin(State& s, Inst& in, const Function* callee, std::vector<Val>& args)
    {
        std::string nm = callee->getName().str();
        auto it = builtins.find(nm);
        if (it != builtins.end()) { it->second(s, s.fr.back(), in, args); return; }
        if (callee->isIntrinsic()) { intrinsic(s, in, callee, args); return; }
        if (!callee->isDeclaration()) { pushCall(s, finfo(callee), args, &in); return; }
        inconclusive("unmodelled external function " + demangle(nm) + " (" + nm + ")");
    }
    u64 cv(State& s, const Val& v) { return v.k == CONC ? v.c : concretize(s, v); }
    void intrinsic(State& s, Inst& in, const Function* callee, std::vector<Val>& a)
    {
        auto V = [&](const Val& v) { ret(s, in, v); };
        auto memsetImpl = [&](u64 d, const Val& c, u64 n) {
            if (!n) return; u64 off; u64 id = resolve(s, d, n, true, off); Obj& o = wr(s, id); clearRange(s, o, off, n);
            if (c.k == CONC) for (u64 i = 0; i < n; ++i) { o.data[off + i] = (uint8_t)c.c; o.st[off + i] = 1; }
            else for (u64 i = 0; i < n; ++i) putCell(o, off + i, c);
        };
        switch (callee->getIntrinsicID()) {
        case Intrinsic::memcpy: case Intrinsic::memmove: case Intrinsic::memcpy_inline: {
            u64 n = cv(s, a[2]), d = cv(s, a[0]), sr = cv(s, a[1]);
            if (n && callee->getIntrinsicID() == Intrinsic::memcpy && d != sr && d < sr + n && sr < d + n) violation(s, "memory", "memcpy with overlapping buffers");
            memCopy(s, d, sr, n); V(Val()); return;
        }
        case Intrinsic::memset: case Intrinsic::memset_inline: { u64 n = cv(s, a[2]), d = cv(s, a[0]); memsetImpl(d, a[1], n); V(Val()); return; }
        case Intrinsic::lifetime_start: case Intrinsic::lifetime_end: {
            if (a[1].k == CONC) { u64 id = a[1].c >> 32; if (id < s.mem.size() && s.mem[id] && s.mem[id]->alive && s.mem[id]->kind == OSTACK) { Obj& o = wr(s, id); o.sym.clear(); std::fill(o.st.begin(), o.st.end(), 0); } }
            V(Val()); return;
        }
        case Intrinsic::assume: case Intrinsic::experimental_noalias_scope_decl: case Intrinsic::invariant_start: case Intrinsic::invariant_end: case Intrinsic::prefetch: case Intrinsic::donothing:
        case Intrinsic::stackrestore: case Intrinsic::var_annotation: case Intrinsic::sideeffect:
            V(C(0, 64)); return;
        case Intrinsic::stacksave: V(C(0, 64)); return;
        case Intrinsic::expect: case Intrinsic::expect_with_probability: case Intrinsic::launder_invariant_group: case Intrinsic::strip_invariant_group: case Intrinsic::ptr_annotation: case Intrinsic::ssa_copy:
            V(a[0]); return;
        case Intrinsic::is_constant: V(C(0, 1)); return;
        case Intrinsic::objectsize: V(C(~0ull, in.w)); return;
        case Intrinsic::trap: case Intrinsic::ubsantrap: violation(s, "ub", "trap");
        case Intrinsic::eh_typeid_for: V(C((u64)tiId(a[0].c), 32)); return;
        case Intrinsic::fabs: if (a[0].k == AGG) { std::vector<Val> p; for (auto& x : a[0].parts()) p.push_back(fabsv(x)); V(mkAgg(p)); } else V(fabsv(a[0])); return;
        case Intrinsic::sqrt: V(fsqrt(s, a[0])); return;
        case Intrinsic::fma: case Intrinsic::fmuladd: {
            if (a[0].k == AGG) inconclusive("vector fma");
            bool fi = a[0].k == FI || a[1].k == FI || a[2].k == FI, allc = a[0].k == CONC && a[1].k == CONC && a[2].k == CONC;
            if (!fi && !allc && callee->getIntrinsicID() == Intrinsic::fma && !hasUndef(a[0]) && !hasUndef(a[1]) && !hasUndef(a[2])) { V(mkFP(wrapE(Z3_mk_fpa_fma(Z(), RNE(), fpOf(a[0]), fpOf(a[1]), fpOf(a[2]))), in.w)); return; }
            if (allc && callee->getIntrinsicID() == Intrinsic::fma) { V(in.w == 32 ? C(dToBits(std::fma((float)bitsToD(a[0].c, 32), (float)bitsToD(a[1].c, 32), (float)bitsToD(a[2].c, 32)), 32), 32) : C(dToBits(std::fma(bitsToD(a[0].c, 64), bitsToD(a[1].c, 64), bitsToD(a[2].c, 64)), 64), 64)); return; }
            V(fbin(Instruction::FAdd, fbin(Instruction::FMul, a[0], a[1], in.w), a[2], in.w)); return;
        }
        case Intrinsic::minnum: case Intrinsic::maxnum: {
            Val c = fcmp(callee->getIntrinsicID() == Intrinsic::minnum ? CmpInst::FCMP_OLT : CmpInst::FCMP_OGT, a[0], a[1]);
            if (c.k == CONC) { V(c.c ? a[0] : a[1]); return; } Val r; if (!merge(boolOf(c), a[0], a[1], r)) inconclusive("minnum"); V(r); return;
        }
        case Intrinsic::frexp: { Val fr; Val e = C((u64)(i64)frexpv(s, a[0], fr), 32); V(mkAgg({fr, e})); return; }
        case Intrinsic::ldexp: {
            if (hasUndef(a[0]) || hasUndef(a[1])) { V(U(in.w)); return; }
            i64 k = sext(cv(s, a[1]), a[1].w); if (a[0].k == CONC) { V(C(dToBits(std::ldexp(bitsToD(a[0].c, in.w), (int)k), in.w), in.w)); return; }
            if (a[0].k != FI || k < -200 || k > 200) inconclusive("ldexp"); V(mkFI(a[0].e(), in.w, a[0].n->lo, a[0].n->hi, a[0].n->scale + (int)k, a[0].n->opaque)); return;
        }
        case Intrinsic::floor: case Intrinsic::ceil: case Intrinsic::trunc: case Intrinsic::rint: case Intrinsic::nearbyint: case Intrinsic::round:
            if (a[0].k == FI && a[0].n->scale >= 0) { V(a[0]); return; }
            if (hasUndef(a[0])) { V(U(in.w)); return; }
            if (a[0].k == FI) inconclusive("rounding of a symbolic value");
            if (a[0].k != CONC) {
                Z3_ast rm; switch (callee->getIntrinsicID()) { case Intrinsic::floor: rm = Z3_mk_fpa_rtn(Z()); break; case Intrinsic::ceil: rm = Z3_mk_fpa_rtp(Z()); break; case Intrinsic::trunc: rm = Z3_mk_fpa_rtz(Z()); break; case Intrinsic::round: rm = Z3_mk_fpa_rna(Z()); break; default: rm = Z3_mk_fpa_rne(Z()); }
                z3::expr r(Z(), rm); V(mkFP(wrapE(Z3_mk_fpa_round_to_integral(Z(), r, fpOf(a[0]))), in.w)); return;
            }
            { double d = bitsToD(a[0].c, in.w); switch (callee->getIntrinsicID()) { case Intrinsic::floor: d = std::floor(d); break; case Intrinsic::ceil: d = std::ceil(d); break; case Intrinsic::trunc: d = std::trunc(d); break; case Intrinsic::round: d = std::round(d); break; default: d = std::nearbyint(d); } V(C(dToBits(d, in.w), in.w)); return; }
        case Intrinsic::copysign: {
            u64 sb = 1ull << (in.w - 1); if (hasUndef(a[0]) || hasUndef(a[1])) { V(U(in.w)); return; }
            if (a[0].k == FI || (a[1].k == FI && a[0].k == CONC)) { // zero of an exact-integer float is +0
                Val m = fabsv(a[0]), ng = fneg(m), c = a[1].k == CONC ? C((a[1].c & sb) != 0, 1) : a[1].k == FI ? fcmp(CmpInst::FCMP_OLT, a[1], C(0, in.w)) : Val(); if (a[1].k != CONC && a[1].k != FI) inconclusive("copysign");
                if (c.k == CONC) { V(c.c ? ng : m); return; } Val r; if (!merge(boolOf(c), ng, m, r)) inconclusive("copysign"); V(r); return;
            }
            if (a[0].k != CONC || a[1].k != CONC) {
                if (a[1].k == FI) inconclusive("copysign");
                z3::expr m = wrapE(Z3_mk_fpa_abs(Z(), fpOf(a[0]))), n = a[1].k == CONC ? Z().bool_val((a[1].c & sb) != 0) : wrapE(Z3_mk_fpa_is_negative(Z(), fpOf(a[1])));
                V(mkFP(z3::ite(n, -m, m), in.w)); return;
            } V(C((a[0].c & ~sb) | (a[1].c & sb), in.w)); return; }
        case Intrinsic::pow: case Intrinsic::log10: case Intrinsic::log: case Intrinsic::exp: case Intrinsic::powi: case Intrinsic::sin: case Intrinsic::cos:
            { if (callee->getIntrinsicID() == Intrinsic::pow && a[1].k == CONC && a[1].c == dToBits(2.0, in.w) && a[0].k != CONC && !hasUndef(a[0])) { V(fbin(Instruction::FMul, a[0], a[0], in.w)); return; } for (auto& x : a) if (x.k != CONC) inconclusive("libm function of a symbolic value"); double x = bitsToD(a[0].c, in.w), r = 0; switch (callee->getIntrinsicID()) { case Intrinsic::pow: r = std::pow(x, bitsToD(a[1].c, in.w)); break; case Intrinsic::log10: r = std::log10(x); break; case Intrinsic::log: r = std::log(x); break; case Intrinsic::exp: r = std::exp(x); break; case Intrinsic::sin: r = std::sin(x); break; case Intrinsic::cos: r = std::cos(x); break; default: r = std::pow(x, (double)(int32_t)a[1].c); } V(C(dToBits(r, in.w), in.w)); return; }
        case Intrinsic::umax: case Intrinsic::umin: case Intrinsic::smax: case Intrinsic::smin: {
            unsigned p; switch (callee->getIntrinsicID()) { case Intrinsic::umax: p = CmpInst::ICMP_UGT; break; case Intrinsic::umin: p = CmpInst::ICMP_ULT; break; case Intrinsic::smax: p = CmpInst::ICMP_SGT; break; default: p = CmpInst::ICMP_SLT; }
            Val c = icmp(s, p, a[0], a[1], in.I); if (c.k == UNDEF) { V(U(in.w)); return; } if (c.k == CONC) { V(c.c ? a[0] : a[1]); return; } Val r; if (!merge(boolOf(c), a[0], a[1], r)) inconclusive("minmax"); V(r); return;
        }
        case Intrinsic::abs: { Val c = icmp(s, CmpInst::ICMP_SLT, a[0], C(0, in.w), in.I), ng = binop(s, Instruction::Sub, C(0, in.w), a[0], in.w, in.I); if (c.k == UNDEF) { V(U(in.w)); return; } if (c.k == CONC) { V(c.c ? ng : a[0]); return; } Val r; merge(boolOf(c), ng, a[0], r); V(r); return; }
        case Intrinsic::usub_sat: { Val c = icmp(s, CmpInst::ICMP_ULT, a[0], a[1], in.I), d = binop(s, Instruction::Sub, a[0], a[1], in.w, in.I); if (c.k == CONC) { V(c.c ? C(0, in.w) : d); return; } if (c.k == UNDEF) { V(U(in.w)); return; } Val r; merge(boolOf(c), C(0, in.w), d, r); V(r); return; }
        case Intrinsic::umul_with_overflow: case Intrinsic::uadd_with_overflow: case Intrinsic::usub_with_overflow: case Intrinsic::smul_with_overflow: case Intrinsic::sadd_with_overflow: case Intrinsic::ssub_with_overflow: {
            if (hasUndef(a[0]) || hasUndef(a[1])) { V(mkAgg({U(a[0].w), U(1)})); return; }
            unsigned w = a[0].w;
            if (a[0].k == CONC && a[1].k == CONC) {
                u64 x = a[0].c, y = a[1].c; bool o = false; u64 r = 0; i64 sx = sext(x, w), sy = sext(y, w);
                switch (callee->getIntrinsicID()) {
                case Intrinsic::umul_with_overflow: { u128 p = (u128)x * y; r = (u64)p; o = (p >> w) != 0; break; }
                case Intrinsic::uadd_with_overflow: { u128 p = (u128)x + y; r = (u64)p; o = (p >> w) != 0; break; }
                case Intrinsic::usub_with_overflow: r = x - y; o = x < y; break;
                case Intrinsic::smul_with_overflow: { __int128 p = (__int128)sx * sy; r = (u64)p; o = (__int128)sext(r, w) != p; break; }
                case Intrinsic::sadd_with_overflow: { __int128 p = (__int128)sx + sy; r = (u64)p; o = (__int128)sext(r, w) != p; break; }
                default: { __int128 p = (__int128)sx - sy; r = (u64)p; o = (__int128)sext(r, w) != p; break; }
                }
                V(mkAgg({C(r, w), C(o, 1)})); return;
            }
            z3::expr x = bvOf(a[0]), y = bvOf(a[1]), o(Z()), r(Z());
            switch (callee->getIntrinsicID()) {
            case Intrinsic::umul_with_overflow: r = x * y; o = !z3::bvmul_no_overflow(x, y, false); break;
            case Intrinsic::uadd_with_overflow: r = x + y; o = z3::ult(r, x); break;
            case Intrinsic::usub_with_overflow: r = x - y; o = z3::ult(x, y); break;
            default: { // signed: compute in a width that cannot overflow
                bool mul = callee->getIntrinsicID() == Intrinsic::smul_with_overflow; unsigned ex = mul ? w : 1;
                z3::expr X = z3::sext(x, ex), Y = z3::sext(y, ex), R = mul ? X * Y : callee->getIntrinsicID() == Intrinsic::sadd_with_overflow ? X + Y : X - Y;
                r = R.extract(w - 1, 0); o = z3::sext(r, ex) != R; break;
            }
            }
            V(mkAgg({mkBV(r.simplify(), w), mkBV(o.simplify(), 1)})); return;
        }
        case Intrinsic::ctpop: case Intrinsic::ctlz: case Intrinsic::cttz: {
            u64 x = cv(s, a[0]); unsigned w = a[0].w; u64 r = 0;
            if (callee->getIntrinsicID() == Intrinsic::ctpop) r = __builtin_popcountll(x); else if (callee->getIntrinsicID() == Intrinsic::ctlz) { r = w; for (int i = w - 1; i >= 0; --i) if (x >> i & 1) { r = w - 1 - i; break; } } else { r = w; for (unsigned i = 0; i < w; ++i) if (x >> i & 1) { r = i; break; } }
            V(C(r, w)); return;
        }
        case Intrinsic::bswap: { u64 x = cv(s, a[0]), r = 0; for (unsigned i = 0; i < a[0].w; i += 8) r = r << 8 | ((x >> i) & 255); V(C(r, in.w)); return; }
        case Intrinsic::uadd_sat: { Val d = binop(s, Instruction::Add, a[0], a[1], in.w, in.I), c = icmp(s, CmpInst::ICMP_ULT, d, a[0], in.I); if (c.k == CONC) { V(c.c ? C(~0ull, in.w) : d); return; } if (c.k == UNDEF) { V(U(in.w)); return; } Val r; merge(boolOf(c), C(~0ull, in.w), d, r); V(r); return; }
        case Intrinsic::fshl: case Intrinsic::fshr: {
            u64 x = cv(s, a[0]), y = cv(s, a[1]), k = cv(s, a[2]) % in.w; unsigned w = in.w; u64 r;
            if (callee->getIntrinsicID() == Intrinsic::fshl) r = k ? (x << k) | (y >> (w - k)) : x; else r = k ? (x << (w - k)) | (y >> k) : y;
            V(C(r, w)); return;
        }
        case Intrinsic::is_fpclass: {
            unsigned t = (unsigned)a[1].c;
            if (hasUndef(a[0])) { V(U(1)); return; }
            if ((t & 3) == 1 || (t & 3) == 2) inconclusive("is_fpclass: kind of NaN");
            if (a[0].k == CONC) {
                double d = bitsToD(a[0].c, a[0].w); bool ng = std::signbit(d); unsigned c;
                int k = a[0].w == 32 ? std::fpclassify((float)d) : std::fpclassify(d);
                c = k == FP_NAN ? 3 : k == FP_INFINITE ? (ng ? 4 : 512) : k == FP_ZERO ? (ng ? 32 : 64) : k == FP_SUBNORMAL ? (ng ? 16 : 128) : (ng ? 8 : 256);
                V(C((t & c) != 0, 1)); return;
            }
            if (a[0].k == FI) { // finite, never subnormal, zero is +0
                if (a[0].n->opaque && ((t & 0x204) != 0 && (t & 0x204) != 0x204)) inconclusive("is_fpclass");
                z3::expr e = a[0].e(), r = Z().bool_val(false); if (t & 8) r = r || e < 0; if (t & 64) r = r || e == 0; if (t & 256) r = r || e > 0;
                V(mkBV(r.simplify(), 1)); return;
            }
            z3::expr f = fpOf(a[0]), ng = wrapE(Z3_mk_fpa_is_negative(Z(), f)), r = Z().bool_val(false);
            auto add = [&](unsigned n, unsigned p, Z3_ast (*is)(Z3_context, Z3_ast)) { if (!(t & (n | p))) return; z3::expr k = wrapE(is(Z(), f)); r = r || ((t & n) && (t & p) ? k : (t & n) ? (k && ng) : (k && !ng)); };
            if (t & 3) r = r || wrapE(Z3_mk_fpa_is_nan(Z(), f));
            add(4, 512, Z3_mk_fpa_is_infinite); add(8, 256, Z3_mk_fpa_is_normal); add(16, 128, Z3_mk_fpa_is_subnormal); add(32, 64, Z3_mk_fpa_is_zero);
            V(mkBV(r.simplify(), 1)); return;
        }
        default: inconclusive("intrinsic " + callee->getName().str());
        }
    }
    u64 rd64(State& s, u64 a) { Val v = loadScalar(s, a, 64); if (v.k != CONC) inconclusive("symbolic runtime word"); return v.c; }
    // walk the class hierarchy: all (typeinfo, offset) subobjects
    void subobjects(State& s, u64 obj, u64 ti, i64 off, std::vector<std::pair<u64, i64>>& out, int depth = 0)
    {
        out.push_back({ti, off}); if (depth > 20) return;
        u64 id = ti >> 32; const GlobalVariable* g = nullptr;
        if (id < gById.size() && gById[id]) g = dyn_cast<GlobalVariable>(gById[id]);
        if (!g || !g->hasInitializer()) return;
        auto* st = dyn_cast<ConstantStruct>(g->getInitializer()); if (!st) return;
        if (st->getNumOperands() == 3) subobjects(s, obj, constVal(st->getOperand(2)).c, off, out, depth + 1);
        else for (unsigned i = 4; i + 1 < st->getNumOperands(); i += 2) {
            i64 of = (i64)constVal(st->getOperand(i + 1)).c; if (of & 1) inconclusive("virtual base in dynamic_cast");
            subobjects(s, obj, constVal(st->getOperand(i)).c, off + (of >> 8), out, depth + 1);
        }
    }
    void setupBuiltins()
    {
        gById.assign(root->mem.size() + 1, nullptr); for (auto& p : gid) gById[p.second] = p.first;
        auto B = [&](const char* n, Builtin f) { builtins[n] = std::move(f); };
        auto noop = [&](const char* n, u64 r = 0) { builtins[n] = [this, r](State& s, Frame&, Inst& in, std::vector<Val>&) { ret(s, in, C(r, in.w ? in.w : 64)); }; };
        // ---- harness API
        B("sv_int", [this](State& s, Frame&, Inst& in, std::vector<Val>& a) {
            std::string n = cstr(s, a[0].c); i64 lo = (i64)cv(s, a[1]), hi = (i64)cv(s, a[2]); z3::expr e(Z()); Val v = newSym(s, n, 'i', 64, e);
            if (lo == hi) { addInput(s, e == Z().bv_val((uint64_t)lo, 64)); ret(s, in, C((u64)lo, 64)); return; }
            addInput(s, e >= Z().bv_val((int64_t)lo, 64) && e <= Z().bv_val((int64_t)hi, 64)); ret(s, in, v); });
        B("sv_u64", [this](State& s, Frame&, Inst& in, std::vector<Val>& a) { z3::expr e(Z()); ret(s, in, newSym(s, cstr(s, a[0].c), 'b', 64, e)); });
        B("sv_i32", [this](State& s, Frame&, Inst& in, std::vector<Val>& a) { z3::expr e(Z()); ret(s, in, newSym(s, cstr(s, a[0].c), 'i', 32, e)); });
        B("sv_u8", [this](State& s, Frame&, Inst& in, std::vector<Val>& a) { z3::expr e(Z()); ret(s, in, newSym(s, cstr(s, a[0].c), 'b', 8, e)); });
        B("sv_bool", [this](State& s, Frame&, Inst& in, std::vector<Val>& a) { z3::expr e(Z()); ret(s, in, newSym(s, cstr(s, a[0].c), 'l', 1, e)); });
        B("sv_rawd", [this](State& s, Frame&, Inst& in, std::vector<Val>& a) { z3::expr e(Z()); ret(s, in, newSym(s, cstr(s, a[0].c), 'b', 64, e)); });
        B("sv_rawf", [this](State& s, Frame&, Inst& in, std::vector<Val>& a) { z3::expr e(Z()); ret(s, in, newSym(s, cstr(s, a[0].c), 'b', 32, e)); });
        auto fint = [this](State& s, Inst& in, std::vector<Val>& a, unsigned w) {
            std::string n = cstr(s, a[0].c); i64 lo = (i64)cv(s, a[1]), hi = (i64)cv(s, a[2]); z3::expr e(Z()); newSym(s, n, 'n', w, e);
            addInput(s, e >= Z().int_val((int64_t)lo) && e <= Z().int_val((int64_t)hi)); ret(s, in, mkFI(e, w, (double)lo, (double)hi)); };
        B("sv_fd", [fint](State& s, Frame&, Inst& in, std::vector<Val>& a) { fint(s, in, a, 64); });
        B("sv_ff", [fint](State& s, Frame&, Inst& in, std::vector<Val>& a) { fint(s, in, a, 32); });
        B("sv_assume", [this](State& s, Frame&, Inst& in, std::vector<Val>& a) {
            if (hasUndef(a[0])) violation(s, "uninit", "assumption on an uninitialised value");
            if (a[0].k == CONC) { if (!(a[0].c & 1)) throw PathEnd{}; } else assume(s, boolOf(a[0])); ret(s, in, Val()); });
        B("sv_assert", [this](State& s, Frame&, Inst& in, std::vector<Val>& a) {
            std::string l = cstr(s, a[1].c); ++asserts; ++assertCnt[l];
            if (hasUndef(a[0])) violation(s, "uninit", "uninitialised value reaches the check: " + l);
            if (a[0].k == CONC) { ++trivial; if (!(a[0].c & 1)) { record(s, "assert", l, s.model); throw PathEnd{}; } ret(s, in, Val()); return; }
            z3::expr c = boolOf(a[0]).simplify(); 
            if (c.is_true()) ++trivial;
            else {
                ++assertQ; z3::expr nc = !c; std::shared_ptr<z3::model> m;
                if (feasibleAssert(s, nc, &m)) { record(s, "assert", l, m, &nc); assumeAfterViolation(s, c); }
            }
            ret(s, in, Val()); });
        B("sv_fail", [this](State& s, Frame&, Inst&, std::vector<Val>& a) { std::string l = cstr(s, a[0].c); ++asserts; record(s, "assert", l, s.model); throw PathEnd{}; });
        B("sv_reach", [this](State& s, Frame&, Inst& in, std::vector<Val>& a) { s.reached.push_back(cstr(s, a[0].c)); ret(s, in, Val()); });
        B("sv_concretize", [this](State& s, Frame&, Inst& in, std::vector<Val>& a) { u64 v = cv(s, a[0]); ret(s, in, C(v, 64)); });
        B("sv_obs_i", [this](State& s, Frame&, Inst& in, std::vector<Val>& a) { s.obs.push_back({cstr(s, a[0].c), a[1], 'i'}); ret(s, in, Val()); });
        B("sv_obs_d", [this](State& s, Frame&, Inst& in, std::vector<Val>& a) { s.obs.push_back({cstr(s, a[0].c), a[1], 'd'}); ret(s, in, Val()); });
        B("sv_is_native", [this](State& s, Frame&, Inst& in, std::vector<Val>&) { ret(s, in, C(0, 32)); });
        B("sv_live_heap", [this](State& s, Frame&, Inst& in, std::vector<Val>&) { u64 n = 0; for (auto& o : s.mem) if (o && o->alive && o->kind == OHEAP) ++n; ret(s, in, C(n, 64)); });
        B("sv_fail_alloc", [this](State& s, Frame&, Inst& in, std::vector<Val>& a) { s.allocsLeft = cv(s, a[0]); ret(s, in, Val()); });
        B("sv_owner", [this](State& s, Frame&, Inst& in, std::vector<Val>& a) { // 1: points into a live heap object
            u64 p = cv(s, a[0]); u64 id = p >> 32; ret(s, in, C(id && id < s.mem.size() && s.mem[id] && s.mem[id]->alive && s.mem[id]->kind == OHEAP, 32)); });
        B("sv_rt_enter", [this](State& s, Frame&, Inst& in, std::vector<Val>&) { ++s.rtDepth; ret(s, in, Val()); });
        B("sv_rt_leave", [this](State& s, Frame&, Inst& in, std::vector<Val>&) { --s.rtDepth; ret(s, in, Val()); });
        B("sv_rt_alloc", [this](State& s, Frame&, Inst& in, std::vector<Val>& a) { u64 n = cv(s, a[0]); ret(s, in, C(alloc(s, n, ORT, 9, "runtime"), 64)); });
        B("sv_rt_free", [this](State& s, Frame&, Inst& in, std::vector<Val>& a) { dealloc(s, a[0].c, 9); ret(s, in, Val()); });
        B("sv_uninit_d", [this](State& s, Frame&, Inst& in, std::vector<Val>&) { ret(s, in, U(64)); });
        B("sv_is_init", [this](State& s, Frame&, Inst& in, std::vector<Val>& a) { // (ptr, n): all bytes initialised
            u64 n = cv(s, a[1]), p = cv(s, a[0]); bool ok = true; if (n) { u64 off; u64 id = resolve(s, p, n, false, off); for (u64 i = 0; i < n; ++i) if (!s.mem[id]->st[off + i]) ok = false; } ret(s, in, C(ok, 32)); });
        // ---- allocation
        auto nw = [this](uint8_t ak) { return [this, ak](State& s, Frame&, Inst& in, std::vector<Val>& a) {
            if (hasUndef(a[0])) violation(s, "uninit", "allocation with an uninitialised size");
            if (a[0].k != CONC) { // would the size be absurd?
                u64 n = cv(s, a[0]); (void)n; }
            u64 n = cv(s, a[0]);
            if (n > (1ull << 40)) { throwBuiltin(s, in, "sv_rt_throw_bad_alloc_"); return; }
            if (allocFault(s, in)) return;
            ret(s, in, C(alloc(s, n, s.rtDepth ? ORT : OHEAP, ak, "heap"), 64)); }; };
        B("_Znwm", nw(1)); B("_Znam", nw(2)); B("_ZnwmSt11align_val_t", nw(1)); B("_ZnamSt11align_val_t", nw(2)); B("_ZnwmRKSt9nothrow_t", nw(1)); B("_ZnamRKSt9nothrow_t", nw(2)); B("malloc", nw(0));
        B("sv_blaze_alloc", nw(3));
        auto dl = [this](uint8_t ak) { return [this, ak](State& s, Frame&, Inst& in, std::vector<Val>& a) { if (hasUndef(a[0])) violation(s, "uninit", "free of an uninitialised pointer"); dealloc(s, cv(s, a[0]), ak); ret(s, in, Val()); }; };
        for (const char* n : {"_ZdlPv", "_ZdlPvm", "_ZdlPvSt11align_val_t", "_ZdlPvmSt11align_val_t"}) B(n, dl(1));
        for (const char* n : {"_ZdaPv", "_ZdaPvm", "_ZdaPvSt11align_val_t", "_ZdaPvmSt11align_val_t"}) B(n, dl(2));
        B("free", dl(0)); B("sv_blaze_free", dl(3));
        B("calloc", [this](State& s, Frame&, Inst& in, std::vector<Val>& a) { u64 n = cv(s, a[0]) * cv(s, a[1]); u64 p = alloc(s, n, OHEAP, 0, "heap"); Obj& o = wr(s, p >> 32); std::fill(o.st.begin(), o.st.end(), 1); ret(s, in, C(p, 64)); });
        // ---- string.h
        B("memcpy", [this](State& s, Frame&, Inst& in, std::vector<Val>& a) { u64 n = cv(s, a[2]); memCopy(s, cv(s, a[0]), cv(s, a[1]), n); ret(s, in, a[0]); });
        builtins["memmove"] = builtins["memcpy"];
        B("memset", [this](State& s, Frame&, Inst& in, std::vector<Val>& a) {
            u64 n = cv(s, a[2]), d = cv(s, a[0]); if (n) { u64 off; u64 id = resolve(s, d, n, true, off); Obj& o = wr(s, id); clearRange(s, o, off, n); u64 c = cv(s, a[1]); for (u64 i = 0; i < n; ++i) { o.data[off + i] = (uint8_t)c; o.st[off + i] = 1; } } ret(s, in, a[0]); });
        B("strlen", [this](State& s, Frame&, Inst& in, std::vector<Val>& a) { ret(s, in, C(cstr(s, cv(s, a[0])).size(), 64)); });
        auto cmp = [this](State& s, Frame&, Inst& in, std::vector<Val>& a) {
            u64 n = cv(s, a[2]), p = cv(s, a[0]), q2 = cv(s, a[1]); std::vector<std::pair<z3::expr, z3::expr>> d; bool stop = false; int r = 0;
            for (u64 i = 0; i < n && !stop; ++i) {
                Val x = loadScalar(s, p + i, 8), y = loadScalar(s, q2 + i, 8); if (hasUndef(x) || hasUndef(y)) violation(s, "uninit", "memcmp of uninitialised bytes");
                if (x.k == CONC && y.k == CONC) { u64 xc = x.c & 255, yc = y.c & 255; if (xc != yc) { r = xc < yc ? -1 : 1; stop = true; } continue; }
                z3::expr xe = bvOf(x).simplify(), ye = bvOf(y).simplify(); if (z3::eq(xe, ye)) continue;
                d.push_back({xe, ye});
            }
            if (d.empty()) { ret(s, in, C((u64)(i64)r, 32)); return; }
            z3::expr e = Z().bv_val((uint64_t)(uint32_t)r, 32);
            for (size_t i = d.size(); i-- > 0;) e = z3::ite(z3::ult(d[i].first, d[i].second), Z().bv_val((uint64_t)0xffffffffu, 32), z3::ite(z3::ugt(d[i].first, d[i].second), Z().bv_val(1, 32), e));
            ret(s, in, mkBV(e.simplify(), 32)); };
        B("memcmp", cmp); B("bcmp", cmp);
        B("strcmp", [this](State& s, Frame&, Inst& in, std::vector<Val>& a) { int r = cstr(s, a[0].c).compare(cstr(s, a[1].c)); ret(s, in, C((u64)(i64)(r < 0 ? -1 : r > 0), 32)); });
        B("memchr", [this](State& s, Frame&, Inst& in, std::vector<Val>& a) { u64 p = cv(s, a[0]), c = cv(s, a[1]) & 255, n = cv(s, a[2]), r = 0; for (u64 i = 0; i < n; ++i) if (cv(s, loadScalar(s, p + i, 8)) == c) { r = p + i; break; } ret(s, in, C(r, 64)); });
        // ---- math
        for (const char* n : {"sqrt", "sqrtf"}) B(n, [this](State& s, Frame&, Inst& in, std::vector<Val>& a) { ret(s, in, fsqrt(s, a[0])); });
        for (const char* n : {"fabs", "fabsf"}) B(n, [this](State& s, Frame&, Inst& in, std::vector<Val>& a) { ret(s, in, fabsv(a[0])); });
        auto m1 = [this](double (*f)(double)) { return [this, f](State& s, Frame&, Inst& in, std::vector<Val>& a) { if (hasUndef(a[0])) { ret(s, in, U(in.w)); return; } if (a[0].k != CONC) inconclusive("libm function of a symbolic value"); ret(s, in, C(dToBits(f(bitsToD(a[0].c, in.w)), in.w), in.w)); }; };
        B("log10", m1(std::log10)); B("log", m1(std::log)); B("exp", m1(std::exp)); B("log2", m1(std::log2)); B("sin", m1(std::sin)); B("cos", m1(std::cos)); B("floor", m1(std::floor)); B("ceil", m1(std::ceil)); B("round", m1(std::round)); B("trunc", m1(std::trunc));
        B("logf", m1(std::log)); B("log10f", m1(std::log10)); B("floorf", m1(std::floor)); B("ceilf", m1(std::ceil));
        B("pow", [this](State& s, Frame&, Inst& in, std::vector<Val>& a) { if (a[1].k == CONC && a[1].c == dToBits(2.0, 64) && a[0].k != CONC && !hasUndef(a[0])) { ret(s, in, fbin(Instruction::FMul, a[0], a[0], in.w)); return; } if (a[0].k != CONC || a[1].k != CONC) inconclusive("pow"); ret(s, in, C(dToBits(std::pow(bitsToD(a[0].c, 64), bitsToD(a[1].c, 64)), 64), 64)); });
        for (const char* n : {"frexp", "frexpf"}) B(n, [this](State& s, Frame&, Inst& in, std::vector<Val>& a) { Val fr; int e = frexpv(s, a[0], fr); storeScalar(s, a[1].c, C((u64)(i64)e, 32)); ret(s, in, fr); });
        auto fmm = [this](unsigned pr) { return [this, pr](State& s, Frame&, Inst& in, std::vector<Val>& a) { Val c = fcmp(pr, a[0], a[1]); if (c.k == UNDEF) { ret(s, in, U(in.w)); return; } if (c.k == CONC) { ret(s, in, c.c ? a[0] : a[1]); return; } Val r; if (!merge(boolOf(c), a[0], a[1], r)) inconclusive("fmin"); ret(s, in, r); }; };
        B("fmax", fmm(CmpInst::FCMP_OGT)); B("fmaxf", fmm(CmpInst::FCMP_OGT)); B("fmin", fmm(CmpInst::FCMP_OLT)); B("fminf", fmm(CmpInst::FCMP_OLT));
        // ---- C++ runtime
        noop("__cxa_atexit"); noop("_ZNSt8ios_base4InitC1Ev"); noop("_ZNSt8ios_base4InitD1Ev"); noop("__cxa_thread_atexit"); noop("pthread_mutex_lock"); noop("pthread_mutex_unlock"); noop("sched_yield");
        B("__cxa_guard_acquire", [this](State& s, Frame&, Inst& in, std::vector<Val>& a) { Val v = loadScalar(s, a[0].c, 8); ret(s, in, C(v.c == 0, 32)); });
        B("__cxa_guard_release", [this](State& s, Frame&, Inst& in, std::vector<Val>& a) { storeScalar(s, a[0].c, C(1, 8)); ret(s, in, Val()); });
        noop("__cxa_guard_abort");
        for (const char* n : {"abort", "_ZSt9terminatev", "__cxa_pure_virtual", "__clang_call_terminate", "exit", "_exit", "__stack_chk_fail"}) { std::string nn = n; builtins[n] = [this, nn](State& s, Frame&, Inst&, std::vector<Val>&) { violation(s, "exception", "program terminates through " + nn); }; builtinOverride.insert(n); }
        B("__assert_fail", [this](State& s, Frame&, Inst&, std::vector<Val>& a) { violation(s, "assertion", "assertion of the code fails: " + cstr(s, a[0].c)); });
        B("__cxa_allocate_exception", [this](State& s, Frame&, Inst& in, std::vector<Val>& a) { u64 p = alloc(s, a[0].c, OEXC, 0, "exception"); ret(s, in, C(p, 64)); });
        B("__cxa_free_exception", [this](State& s, Frame&, Inst& in, std::vector<Val>&) { ret(s, in, Val()); });
        B("__cxa_throw", [this](State& s, Frame&, Inst&, std::vector<Val>& a) { s.excs.push_back({a[0].c, a[1].c, a[2].c, 0}); unwind(s, a[0].c); });
        B("__cxa_rethrow", [this](State& s, Frame&, Inst&, std::vector<Val>&) { if (s.caught.empty()) violation(s, "exception", "rethrow without a caught exception"); u64 e = s.caught.back(); if (auto* r = excOf(s, e)) r->handlers = -1 - r->handlers; unwind(s, e); });
        B("__cxa_begin_catch", [this](State& s, Frame&, Inst& in, std::vector<Val>& a) { if (auto* r = excOf(s, a[0].c)) { if (r->handlers < 0) r->handlers = -r->handlers; else r->handlers++; } s.caught.push_back(a[0].c); ret(s, in, a[0]); });
        B("__cxa_get_exception_ptr", [this](State& s, Frame&, Inst& in, std::vector<Val>& a) { ret(s, in, a[0]); });
        B("__cxa_end_catch", [this](State& s, Frame&, Inst& in, std::vector<Val>&) {
            if (s.caught.empty()) { ret(s, in, Val()); return; }
            u64 e = s.caught.back(); s.caught.pop_back(); ExcRec* r = excOf(s, e);
            if (r) {
                if (r->handlers < 0) { r->handlers++; ret(s, in, Val()); return; }
                if (--r->handlers == 0) {
                    u64 d = r->dtor; for (size_t i = 0; i < s.excs.size(); ++i) if (s.excs[i].obj == e) { s.excs.erase(s.excs.begin() + i); break; }
                    if (d) { auto it = fnById.find(d >> 32); if (it != fnById.end() && !it->second->isDeclaration()) { pushCall(s, finfo(it->second), {C(e, 64)}, &in, true); return; } }
                }
            }
            ret(s, in, Val()); });
        B("_ZSt19uncaught_exceptionsv", [this](State& s, Frame&, Inst& in, std::vector<Val>&) { ret(s, in, C(0, 32)); });
        builtins["_ZSt18uncaught_exceptionv"] = builtins["_ZSt19uncaught_exceptionsv"];
        B("__dynamic_cast", [this](State& s, Frame&, Inst& in, std::vector<Val>& a) {
            u64 p = cv(s, a[0]), dst = a[2].c; u64 vp = rd64(s, p); i64 ott = (i64)rd64(s, vp - 16); u64 ti = rd64(s, vp - 8); u64 full = p + ott;
            std::vector<std::pair<u64, i64>> subs; subobjects(s, full, ti, 0, subs); u64 r = 0; for (auto& x : subs) if (x.first == dst) { r = full + x.second; break; }
            ret(s, in, C(r, 64)); });
        B("__cxa_bad_cast", [this](State& s, Frame&, Inst& in, std::vector<Val>&) { throwBuiltin(s, in, "sv_rt_throw_bad_cast_"); });
        B("__cxa_throw_bad_array_new_length", [this](State& s, Frame&, Inst& in, std::vector<Val>&) { throwBuiltin(s, in, "sv_rt_throw_bad_alloc_"); });
        B("_ZSt17__throw_bad_allocv", [this](State& s, Frame&, Inst& in, std::vector<Val>&) { throwBuiltin(s, in, "sv_rt_throw_bad_alloc_"); });
        builtins["_ZSt28__throw_bad_array_new_lengthv"] = builtins["_ZSt17__throw_bad_allocv"];
        noop("getenv"); noop("puts"); noop("putchar"); noop("fflush"); noop("printf"); noop("fprintf"); noop("fputs"); noop("fputc"); noop("fwrite");
    }
