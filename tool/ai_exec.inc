    // ---------------------------------------------------------------- execution
    Val eval(const State& s, const Frame& f, const FnInfo& x, const Value* v)
    {
        if(auto* c = dyn_cast<Constant>(v)) return fromConst(c);
        auto it = x.slot.find(v);
        if(it == x.slot.end()) return Val();
        return f.env[it->second];
    }
    Term termOf(State& s, const Val& v, unsigned w, const char* why, const Instruction* at)
    {
        if(v.k == Val::I) { if(P.w(v.t) == w) return v.t; return P.w(v.t) > w ? trunc(s, v.t, w) : zext(s, v.t, w); }
        if(v.k == Val::Ptr) return ptrToInt(v, w).t;
        return freshSym(w, "u");
    }
    // boolean term of a comparison of pointers
    Val cmpVals(State& s, int pred, const Val& a0, const Val& b0, unsigned w, const Instruction* at)
    {
        Val a = a0, b = b0;
        if(a.k == Val::I && w == 64) a = intToPtr(s, a);
        if(b.k == Val::I && w == 64) b = intToPtr(s, b);
        if(a.k == Val::U || b.k == Val::U) return Val::i(freshSym(1, "undefcmp"));
        if(a.k == Val::I && b.k == Val::I) return Val::i(icmp(s, pred, a.t, b.t));
        if(a.k == Val::Ptr && b.k == Val::Ptr && a.obj == b.obj) {
            if(pred >= 2) { // offsets inside one object: compare as remaining sizes when the object has an end
                return Val::i(icmp(s, pred <= 5 ? pred + 4 : pred, a.t, b.t)); }
            return Val::i(icmp(s, pred, a.t, b.t));
        }
        if(a.k == Val::Ptr && b.k == Val::Ptr) {
            if(pred <= 1) { bool lz = objs[a.obj].maybeNull || objs[b.obj].maybeNull; if(lz) { int x = std::min(a.obj, b.obj), y = std::max(a.obj, b.obj); Term t = P.sym(1, "$ptreq" + std::to_string(x) + "_" + std::to_string(y)); return Val::i(pred == 0 ? t : P.addC(t, 1)); } return Val::i(P.cst(1, pred == 1)); }
            return Val::i(freshSym(1, "ptrcmp"));
        }
        const Val& p = a.k == Val::Ptr ? a : b; const Val& i = a.k == Val::Ptr ? b : a;
        Term it = norm(s, i.t);
        if(P.isC(it) && P.cv(it) == 0) {
            if(pred >= 2) { // null is the smallest
                bool swapped = b.k == Val::Ptr; int pr = swapped ? swapPred(pred) : pred; if(!objs[p.obj].maybeNull) return Val::i(P.cst(1, pr == 4 || pr == 5)); return Val::i(freshSym(1, "ptrcmp")); }
            if(!objs[p.obj].maybeNull) return Val::i(P.cst(1, pred == 1));
            Term t = P.sym(1, "$isnull" + std::to_string(p.obj)); return Val::i(pred == 0 ? t : P.addC(t, 1));
        }
        return Val::i(freshSym(1, "ptrint"));
    }
    static int predOf(CmpInst::Predicate p)
    {
        switch(p) { case CmpInst::ICMP_EQ: return 0; case CmpInst::ICMP_NE: return 1; case CmpInst::ICMP_ULT: return 2; case CmpInst::ICMP_ULE: return 3; case CmpInst::ICMP_UGT: return 4; case CmpInst::ICMP_UGE: return 5; case CmpInst::ICMP_SLT: return 6; case CmpInst::ICMP_SLE: return 7; case CmpInst::ICMP_SGT: return 8; default: return 9; }
    }
    const std::string& rule(const Function* f)
    {
        auto it = ruleCache.find(f); if(it != ruleCache.end()) return it->second;
        std::string r; const std::string& d = dem(f);
        for(auto& q : rules) if(q.re->match(d)) { r = q.act; break; }
        return ruleCache[f] = r;
    }
    std::string cstr(State& s, const Val& v)
    {
        if(v.k != Val::Ptr || !objs[v.obj].g || !P.isC(v.t)) return "?";
        auto* gv = dyn_cast<GlobalVariable>(objs[v.obj].g); if(!gv || !gv->hasInitializer()) return "?";
        if(auto* cd = dyn_cast<ConstantDataSequential>(gv->getInitializer())) if(cd->isString()) { StringRef r = cd->getAsString().drop_front(P.cv(v.t)); return r.take_until([](char c) { return c == 0; }).str(); }
        return "?";
    }
    using Outs = std::vector<Outcome>;
    struct Work { const BasicBlock* b; BasicBlock::const_iterator ip; State s; Frame f; };

    Outs execFn(const Function* fn, const std::vector<Val>& args, State st, const std::string& ctx)
    {
        if(depth > maxDepth) { Outs o; o.push_back({OK::Stop, std::move(st), Val(), "depth", dem(fn)}); alarmList.push_back(json::Object{{"kind", "depth"}, {"function", dem(fn)}}); return o; }
        ++depth; fnsSeen.insert(fn);
        FnInfo& x = info(fn);
        Frame f0; f0.env.assign(x.nslots, Val()); f0.lc.assign(x.header.size(), LoopCnt());
        for(unsigned i = 0; i < fn->arg_size() && i < args.size(); ++i) f0.env[i] = args[i];
        Outs out;
        std::map<int, std::vector<Work>> pend; // by rpo
        struct Acc { State s; Frame f; std::string nm; unsigned ver; };
        std::map<int, std::vector<Acc>> accs;
        Term wm = (Term)P.n.size();
        std::vector<int> frameObjs;
        pend[0].push_back({x.order[0], x.order[0]->begin(), std::move(st), std::move(f0)});
        auto dropFrame = [&](State& s) { auto m = std::make_shared<MemMap>(*s.mem); for(int o : frameObjs) m->erase(o); s.mem = m; };
        while(!pend.empty()) {
            auto it = pend.begin(); int bi = it->first; auto ws = std::move(it->second); pend.erase(it);
            const BasicBlock* B = x.order[bi]; blocksSeen.insert(B);
            auto& live = x.liveIn[bi];
            // a loop head: iteration policy has been applied on the edge; here only dedupe / merge
            for(auto& w : ws) for(size_t i = 0; i < w.f.env.size(); ++i) if(!live[i]) { bool phi = false; for(auto& p : B->phis()) if(x.slot[&p] == (int)i) phi = true; if(!phi) w.f.env[i] = Val(); }
            if(ws.size() > 1) {
                std::vector<Work> u;
                for(auto& w : ws) { bool dup = false; for(auto& v : u) if(sameState(v.s, v.f, w.s, w.f)) { dup = true; break; } if(!dup) u.push_back(std::move(w)); }
                ws = std::move(u);
            }
            for(int fine = 1; fine >= 0 && ws.size() > (fine ? K : 8 * K); --fine) { // first join states that agree on everything decided, then the rest
                std::vector<Work> u; std::map<size_t, std::vector<size_t>> g;
                for(size_t i = 0; i < ws.size(); ++i) { size_t h = groupKey(ws[i].s, ws[i].f); if(fine) h = fineKey(h, ws[i].s, ws[i].f.env); g[h].push_back(i); }
                for(auto& [h, v] : g) {
                    Work a = std::move(ws[v[0]]);
                    for(size_t k = 1; k < v.size(); ++k) { std::string nm = "M" + std::to_string(++fresh) + ":"; Frame fa = a.f; State j = joinState(a.s, fa, ws[v[k]].s, ws[v[k]].f, nm, false, nullptr, wm); a.s = std::move(j); a.f = std::move(fa); }
                    u.push_back(std::move(a));
                }
                ws = std::move(u);
            }
            for(auto& w : ws) {
                std::vector<Work> stack; stack.push_back(std::move(w));
                while(!stack.empty()) {
                    Work k = std::move(stack.back()); stack.pop_back();
                    runBlock(fn, x, std::move(k), stack, out, ctx, frameObjs, [&](const BasicBlock* from, const BasicBlock* to, State s, Frame f) {
                        ++statesSeen;
                        // phis
                        std::vector<std::pair<int, Val>> pv; for(auto& p : to->phis()) pv.push_back({x.slot[&p], eval(s, f, x, p.getIncomingValueForBlock(from))});
                        for(auto& q : pv) f.env[q.first] = q.second;
                        int ti = x.rpo[to];
                        auto h = x.header.find(to);
                        if(h != x.header.end()) {
                            LoopCnt& lc = f.lc[h->second];
                            bool back = ti <= x.rpo[from];
                            if(!back) { lc = LoopCnt(); lc.und0 = s.und; lc.t0 = s.trace;
                                // inner loops restart
                            } else {
                                bool decided = s.und == lc.und0 && !lc.joined; lc.und0 = s.und;
                                if(++lc.n > cap) { alarmList.push_back(json::Object{{"kind", "loopcap"}, {"function", dem(fn)}, {"at", loc(to->getTerminator())}}); out.push_back({OK::Stop, std::move(s), Val(), "loopcap", dem(fn)}); return; }
                                if(!decided) {
                                    unsigned undN = ++lc.joins;
                                    if(lc.joined || undN >= peel) {
                                        auto& L = x.liveIn[ti]; std::vector<bool> lv = L; for(auto& p : to->phis()) lv[x.slot[&p]] = true;
                                        for(size_t i = 0; i < f.env.size(); ++i) if(!lv[i]) f.env[i] = Val();
                                        auto& av = accs[ti]; Acc* acc = nullptr; 
                                        for(auto& a : av) if(sameCtl(a.s, s) && traceEq(a.f.lc[h->second].t0, lc.t0)) { acc = &a; break; }
                                        // events of the iterations so far become a star
                                        auto lab = starLabels(lc.t0, s.trace);
                                        auto starTrace = [&](const std::set<std::string>& l) { if(l.empty()) return lc.t0; std::string j; for(auto& q : l) j += (j.empty() ? "" : "|") + q; Ev e; e.name = "*"; e.star = j; return traceAdd(lc.t0, e); };
                                        lc.joined = true;
                                        if(!acc) { s.trace = starTrace(lab); Acc a{s, f, "L" + ctx + "." + std::to_string(ti) + "." + std::to_string(av.size()) + "#0:", 0}; av.push_back(a); }
                                        else {
                                            auto l0 = starLabels(lc.t0, acc->s.trace); bool grow = false; for(auto& q : lab) if(l0.insert(q).second) grow = true;
                                            if(!grow && fits(acc->s, acc->f, s, f, acc->nm, &lv)) return;
                                            ++acc->ver; if(acc->ver > 60) { alarmList.push_back(json::Object{{"kind", "nofix"}, {"function", dem(fn)}, {"at", loc(to->getTerminator())}}); return; }
                                            std::string nm = acc->nm.substr(0, acc->nm.find('#')) + "#" + std::to_string(acc->ver) + ":";
                                            Frame fa = acc->f; State j = joinState(acc->s, fa, s, f, nm, acc->ver > 3, &lv, wm);
                                            j.trace = starTrace(l0); acc->s = j; acc->f = fa; acc->nm = nm; acc->f.lc[h->second].joined = true;
                                            s = j; f = fa; f.lc[h->second].joined = true; f.lc[h->second].n = 0;
                                            // only the newest state of this head matters
                                            auto pi = pend.find(ti); if(pi != pend.end()) { auto& v = pi->second; v.erase(std::remove_if(v.begin(), v.end(), [&](Work& q) { return q.f.lc[h->second].joined && traceEq(q.f.lc[h->second].t0, f.lc[h->second].t0) && sameCtl(q.s, s); }), v.end()); }
                                        }
                                    }
                                }
                            }
                        }
                        pend[ti].push_back({to, to->getFirstNonPHI()->getIterator(), std::move(s), std::move(f)});
                    });
                }
            }
        }
        for(auto& o : out) dropFrame(o.s);
        // dedupe / merge the outcomes
        if(out.size() > 1) {
            Outs u; Frame e;
            for(auto& o : out) { bool dup = false; for(auto& v : u) if(v.kind == o.kind && v.info == o.info && v.at == o.at && v.ret == o.ret && sameState(v.s, e, o.s, e)) { dup = true; break; } if(!dup) u.push_back(std::move(o)); }
            out = std::move(u);
            for(int fine = 1; fine >= 0 && out.size() > (fine ? K : 8 * K); --fine) { // merge returns within a group
                Outs v; std::map<size_t, std::vector<size_t>> g;
                for(size_t i = 0; i < out.size(); ++i) { size_t h = hmix(groupKey(out[i].s, e), (size_t)out[i].kind); h = hmix(h, std::hash<std::string>()(out[i].info + out[i].at)); if(keyRet(out[i].ret)) h = hmix(h, hval(out[i].ret)); if(fine) h = fineKey(h, out[i].s, {out[i].ret}); g[h].push_back(i); }
                for(auto& [h, ix] : g) { Outcome a = std::move(out[ix[0]]); for(size_t k = 1; k < ix.size(); ++k) { Frame fa, fb; fa.env = {a.ret}; fb.env = {out[ix[k]].ret}; State j = joinState(a.s, fa, out[ix[k]].s, fb, "R" + std::to_string(++fresh) + ":", false, nullptr, wm); a.s = std::move(j); a.ret = fa.env[0]; } v.push_back(std::move(a)); }
                out = std::move(v);
            }
        }
        --depth;
        return out;
    }
    static bool keyRet(const Val& v) { return v.k == Val::I && P.w(v.t) <= 8 && P.isC(v.t); }
    bool sameCtl(const State& a, const State& b) { return a.caught.size() == b.caught.size() && a.excType == b.excType && outsEq(a, b); }
    bool outsEq(const State& a, const State& b) { return a.outs == b.outs; }
    bool sameState(const State& a, const Frame& fa, const State& b, const Frame& fb)
    {
        if(!(fa.env == fb.env) || a.excType != b.excType || a.caught.size() != b.caught.size() || a.outs != b.outs) return false;
        for(size_t i = 0; i < fa.lc.size(); ++i) if(fa.lc[i].joined != fb.lc[i].joined || fa.lc[i].joins != fb.lc[i].joins) return false;
        if(a.cons != b.cons && *a.cons != *b.cons) return false;
        if(!traceEq(a.trace, b.trace)) return false;
        if(a.mem != b.mem) { if(a.mem->size() != b.mem->size()) return false; for(auto i = a.mem->begin(), j = b.mem->begin(); i != a.mem->end(); ++i, ++j) if(i->first != j->first || (i->second != j->second && !(*i->second == *j->second))) return false; }
        return true;
    }
    size_t groupKey(const State& s, const Frame& f)
    {
        size_t h = s.trace ? s.trace->h : 3; h = hmix(h, s.caught.size()); h = hmix(h, std::hash<std::string>()(s.excType));
        for(auto& [k, v] : s.outs) { h = hmix(h, std::hash<std::string>()(k)); h = hmix(h, hval(v)); }
        for(auto& l : f.lc) { h = hmix(h, l.joined); }
        for(auto& q : keySyms) { auto it = s.cons->find(q); if(it != s.cons->end()) for(auto& p : it->second.iv) { h = hmix(h, p.first); h = hmix(h, p.second); } }
        return h;
    }
    size_t fineKey(size_t h, const State& s, const std::vector<Val>& env)
    {
        std::function<void(const Val&)> one = [&](const Val& v) {
            if(v.k == Val::I) { if(P.isC(v.t)) h = hmix(h, P.cv(v.t)); } else if(v.k == Val::Ptr) { h = hmix(h, v.obj); if(P.isC(v.t)) h = hmix(h, P.cv(v.t)); } else if(v.k == Val::A) for(auto& x : *v.a) one(x); };
        for(auto& v : env) { h = hmix(h, v.k); one(v); }
        for(auto& [id, o] : *s.mem) { if(objs[id].kind != "alloca" && objs[id].kind != "heap") continue; for(auto& [off, c] : o->cells) { if(c.v.k == Val::U) continue; h = hmix(h, off); one(c.v); } }
        return h;
    }
    std::vector<Term> keySyms; // inputs whose partition is never merged

    // floating-point operations on known operands
    Constant* fpConst(Term t, Type* ty) {
        if(!P.isC(t)) return nullptr; unsigned w = bitsOf(ty); if(w > 64 || P.w(t) != w) return nullptr;
        if(ty->isFloatTy() || ty->isDoubleTy()) return ConstantFP::get(ty->getContext(), APFloat(ty->getFltSemantics(), APInt(w, P.cv(t))));
        if(ty->isIntegerTy()) return ConstantInt::get(ty, P.cv(t));
        return nullptr; }
    bool foldFP(const Instruction* in, State& s, Frame& f, FnInfo& x) {
        SmallVector<Constant*, 2> c; for(auto& o : in->operands()) { Val v = eval(s, f, x, o.get()); if(v.k != Val::I) return false; auto* k = fpConst(norm(s, v.t), o->getType()); if(!k) return false; c.push_back(k); }
        Constant* r = nullptr;
        if(auto* cmp = dyn_cast<FCmpInst>(in)) r = ConstantFoldCompareInstOperands(cmp->getPredicate(), c[0], c[1], DL);
        else if(isa<CastInst>(in)) r = ConstantFoldCastOperand(in->getOpcode(), c[0], in->getType(), DL);
        else if(in->isBinaryOp()) r = ConstantFoldBinaryOpOperands(in->getOpcode(), c[0], c[1], DL);
        else if(isa<UnaryOperator>(in)) r = ConstantFoldUnaryOpOperand(in->getOpcode(), c[0], DL);
        if(!r) return false; unsigned w = bitsOf(in->getType()); if(w > 64) return false;
        if(auto* fp = dyn_cast<ConstantFP>(r)) { f.env[x.slot[in]] = Val::i(P.cst(w, fp->getValueAPF().bitcastToAPInt().getZExtValue())); return true; }
        if(auto* ci = dyn_cast<ConstantInt>(r)) { f.env[x.slot[in]] = Val::i(P.cst(w, ci->getZExtValue())); return true; }
        return false; }
    template<class Edge>
    void runBlock(const Function* fn, FnInfo& x, Work w, std::vector<Work>& stack, Outs& out, const std::string& ctx, std::vector<int>& frameObjs, const Edge& edge)
    {
        State& s = w.s; Frame& f = w.f; const BasicBlock* B = w.b;
        auto set = [&](const Instruction* i, Val v) { f.env[x.slot[i]] = std::move(v); };
        for(auto ip = w.ip; ip != B->end(); ++ip) {
            const Instruction* in = &*ip;
            if(++steps > budget) { if(getenv("PAX_DEBUG")) for(auto it = cstack.rbegin(); it != cstack.rend(); ++it) errs() << dem((*it)->getFunction()).substr(0, 200) << " @ " << loc(*it) << "\n"; throw Stop(); }
            if(isa<DbgInfoIntrinsic>(in)) continue;
            switch(in->getOpcode()) {
            case Instruction::PHI: continue;
            case Instruction::Alloca: {
                auto* al = cast<AllocaInst>(in); Val n = eval(s, f, x, al->getArraySize());
                std::string nm = "a" + ctx + "/" + std::to_string(x.slot[in]);
                int id = objId(nm, [&] { ObjInfo o; o.kind = "alloca"; o.name = al->hasName() ? "%" + al->getName().str() : nm; if(n.k == Val::I && P.isC(n.t)) o.size = P.cst(64, P.cv(n.t) * DL.getTypeAllocSize(al->getAllocatedType())); return o; });
                Obj& o = wobj(s, id); o = Obj(); frameObjs.push_back(id); set(in, Val::p(id, P.cst(64, 0))); continue; }
            case Instruction::Load: {
                auto* l = cast<LoadInst>(in); bool dead = false; Val p = eval(s, f, x, l->getPointerOperand());
                if(l->getType()->isVectorTy()) { set(in, Val()); continue; }
                Val v = load(s, p, l->getType(), in, dead); if(dead) { return; } set(in, v); continue; }
            case Instruction::Store: {
                auto* st = cast<StoreInst>(in); if(st->getValueOperand()->getType()->isVectorTy()) { Val p = eval(s, f, x, st->getPointerOperand()); if(p.k == Val::Ptr) havoc(s, p.obj); continue; }
                if(!storev(s, eval(s, f, x, st->getPointerOperand()), eval(s, f, x, st->getValueOperand()), st->getValueOperand()->getType(), in)) return; continue; }
            case Instruction::GetElementPtr: {
                auto* g = cast<GetElementPtrInst>(in); if(g->getType()->isVectorTy()) { set(in, Val()); continue; }
                Val b = eval(s, f, x, g->getPointerOperand()); if(b.k == Val::I) b = intToPtr(s, b);
                unsigned bw = 64; MapVector<Value*, APInt> vo; APInt co(64, 0);
                if(!cast<GEPOperator>(g)->collectOffset(DL, bw, vo, co)) { set(in, unknown(in->getType(), "gep")); continue; }
                Term off = P.cst(64, co.getZExtValue());
                if(forkIdx && b.k == Val::Ptr && (objs[b.obj].kind == "alloca" || objs[b.obj].kind == "heap")) { // a small unknown index into an array of records
                    bool again = false;
                    for(auto& [v, sc] : vo) { Val iv = eval(s, f, x, v); if(iv.k != Val::I || sc.ult(16)) continue; Term t = norm(s, iv.t); if(P.isC(t)) continue;
                        VSet q = vs(s, t); if(q.count() < 2 || q.count() > forkIdx) continue;
                        for(auto& pr : q.iv) for(u64 k = pr.first;; ++k) { Work w2{B, ip, s, f}; ++w2.s.und; if(refine(w2.s, t, VSet::one(k))) stack.push_back(std::move(w2)); if(k == pr.second) break; }
                        again = true; break; }
                    if(again) return; }
                for(auto& [v, sc] : vo) { Val iv = eval(s, f, x, v); unsigned iw = bitsOf(v->getType()); Term t = termOf(s, iv, iw, "gep", in); if(iw < 64) t = sext(s, t, 64); off = P.addT(off, t, sc.getZExtValue()); }
                if(b.k == Val::Ptr) set(in, Val::p(b.obj, norm(s, P.addT(b.t, off)))); else if(b.k == Val::I) set(in, Val::i(P.addT(b.t, off))); else set(in, Val());
                continue; }
            case Instruction::ICmp: {
                auto* c = cast<ICmpInst>(in); if(c->getType()->isVectorTy()) { set(in, Val()); continue; }
                unsigned cw = bitsOf(c->getOperand(0)->getType()); Val a = eval(s, f, x, c->getOperand(0)), b = eval(s, f, x, c->getOperand(1));
                if(cw > 64) { set(in, Val::i(freshSym(1, "wcmp"))); continue; }
                set(in, cmpVals(s, predOf(c->getPredicate()), a, b, cw, in)); continue; }
            case Instruction::FCmp: { if(foldFP(in, s, f, x)) continue; auto* c = cast<FCmpInst>(in); Val a = eval(s, f, x, c->getOperand(0)), b = eval(s, f, x, c->getOperand(1)); if(a.k == Val::I && b.k == Val::I) set(in, Val::i(P.op(OpMisc, 1, {a.t, b.t}, 1000 + c->getPredicate()))); else set(in, Val::i(freshSym(1, "fcmp"))); continue; }
            case Instruction::Trunc: case Instruction::ZExt: case Instruction::SExt: {
                unsigned ws = bitsOf(in->getOperand(0)->getType()), wd = bitsOf(in->getType()); Val v = eval(s, f, x, in->getOperand(0));
                if(in->getType()->isVectorTy()) { set(in, Val()); continue; }
                if(wd > 64 || ws > 64) { // wide integers: keep the low part when it is exact
                    if(ws <= 64 && v.k == Val::I) { set(in, v); if(in->getOpcode() == Instruction::SExt || ws < 64) set(in, Val::i(freshSym(64, "wide"))); } else set(in, Val::i(freshSym(std::min(wd, 64u), "wide"))); continue; }
                if(v.k == Val::Ptr) v = ptrToInt(v, 64);
                if(v.k != Val::I) { set(in, Val()); continue; }
                Term t = v.t; if(P.w(t) != ws) t = termOf(s, v, ws, "cast", in);
                set(in, Val::i(in->getOpcode() == Instruction::Trunc ? trunc(s, t, wd) : in->getOpcode() == Instruction::ZExt ? zext(s, t, wd) : sext(s, t, wd))); continue; }
            case Instruction::PtrToInt: { Val v = eval(s, f, x, in->getOperand(0)); if(v.k == Val::U) set(in, Val()); else set(in, ptrToInt(v, bitsOf(in->getType()))); continue; }
            case Instruction::IntToPtr: { Val v = eval(s, f, x, in->getOperand(0)); set(in, intToPtr(s, v)); continue; }
            case Instruction::BitCast: { Val v = eval(s, f, x, in->getOperand(0)); set(in, v); continue; }
            case Instruction::Freeze: { Val v = eval(s, f, x, in->getOperand(0)); set(in, v.k == Val::U ? unknown(in->getType(), "fr") : v); continue; }
            case Instruction::Add: case Instruction::Sub: case Instruction::Mul: case Instruction::Shl: case Instruction::LShr: case Instruction::AShr: case Instruction::And: case Instruction::Or: case Instruction::Xor: case Instruction::UDiv: case Instruction::URem: case Instruction::SDiv: case Instruction::SRem: {
                unsigned bw = bitsOf(in->getType()); if(in->getType()->isVectorTy()) { set(in, Val()); continue; }
                if(bw > 64) { set(in, Val::i(freshSym(64, "wide"))); continue; }
                Val a = eval(s, f, x, in->getOperand(0)), b = eval(s, f, x, in->getOperand(1));
                if(a.k == Val::U || b.k == Val::U) { set(in, Val()); continue; }
                if(in->getOpcode() == Instruction::Sub && bw == 64) { if(a.k == Val::I) a = intToPtr(s, a); if(b.k == Val::I) b = intToPtr(s, b); if(a.k == Val::Ptr && b.k == Val::Ptr && a.obj == b.obj) { set(in, Val::i(norm(s, P.addT(a.t, b.t, ~0ull)))); continue; } }
                Term ta = termOf(s, a, bw, "bin", in), tb = termOf(s, b, bw, "bin", in);
                if((in->getOpcode() == Instruction::SDiv || in->getOpcode() == Instruction::SRem) && P.isC(tb) && !P.isC(ta)) { // by sign of the dividend
                    VSet va = vs(s, ta); u64 sb = 1ull << (bw - 1);
                    if(P.cv(tb) && P.cv(tb) < sb && !va.empty() && va.min() < sb && va.max() >= sb) {
                        ++s.und; Work w2{B, ip, s, f};
                        if(refine(w2.s, ta, VSet::range(sb, maskOf(bw)))) { f = w2.f; Work w3 = std::move(w2); State s3 = s; if(!refine(s3, ta, VSet::range(0, sb - 1))) { s = std::move(w3.s); } else { stack.push_back(std::move(w3)); s = std::move(s3); } ta = norm(s, ta); }
                        else if(!refine(s, ta, VSet::range(0, sb - 1))) return;
                    } }
                set(in, Val::i(norm(s, bin(s, in->getOpcode(), ta, tb)))); continue; }
            case Instruction::FNeg: case Instruction::FAdd: case Instruction::FSub: case Instruction::FMul: case Instruction::FDiv: case Instruction::FRem: case Instruction::FPTrunc: case Instruction::FPExt: case Instruction::FPToUI: case Instruction::FPToSI: case Instruction::UIToFP: case Instruction::SIToFP: {
                if(foldFP(in, s, f, x)) continue;
                std::vector<Term> as; bool ok = !in->getType()->isVectorTy(); for(auto& o : in->operands()) { Val v = eval(s, f, x, o.get()); if(v.k != Val::I) ok = false; else as.push_back(v.t); }
                set(in, ok ? Val::i(P.op(OpMisc, std::min(64u, bitsOf(in->getType())), as, in->getOpcode())) : unknown(in->getType(), "fp")); continue; }
            case Instruction::Select: {
                auto* sl = cast<SelectInst>(in); Val c = eval(s, f, x, sl->getCondition()), a = eval(s, f, x, sl->getTrueValue()), b = eval(s, f, x, sl->getFalseValue());
                if(in->getType()->isVectorTy()) { set(in, Val()); continue; }
                if(c.k != Val::I) c = Val::i(freshSym(1, "undefsel"));
                Term ct = norm(s, c.t);
                if(P.isC(ct)) { set(in, P.cv(ct) ? a : b); continue; }
                if(a == b) { set(in, a); continue; }
                if(a.k == Val::I && b.k == Val::I && P.w(a.t) == 1) { // boolean select
                    Term ta = norm(s, a.t), tb = norm(s, b.t); if(P.isC(ta) && P.isC(tb)) { set(in, Val::i(P.cv(ta) ? ct : P.addC(ct, 1))); continue; } }
                if(a.k == Val::I && b.k == Val::I) { // where the values agree there is nothing to decide
                    State s0 = s, s1 = s; if(refine(s0, ct, VSet::one(0)) && norm(s0, a.t) == norm(s0, b.t)) { set(in, a); continue; }
                    if(refine(s1, ct, VSet::one(1)) && norm(s1, a.t) == norm(s1, b.t)) { set(in, b); continue; } }
                ++s.und;
                Work w2{B, std::next(ip), s, f};
                if(refine(w2.s, ct, VSet::one(0))) { w2.f.env[x.slot[in]] = b; stack.push_back(std::move(w2)); }
                if(!refine(s, ct, VSet::one(1))) return;
                set(in, a); continue; }
            case Instruction::ExtractValue: { auto* e = cast<ExtractValueInst>(in); Val v = eval(s, f, x, e->getAggregateOperand()); for(unsigned k : e->indices()) v = v.k == Val::A && k < v.a->size() ? (*v.a)[k] : Val(); set(in, v); continue; }
            case Instruction::InsertValue: { auto* e = cast<InsertValueInst>(in); Val v = eval(s, f, x, e->getAggregateOperand()); Val n = eval(s, f, x, e->getInsertedValueOperand()); v = insertAt(v, e->getAggregateOperand()->getType(), e->getIndices(), n); set(in, v); continue; }
            case Instruction::LandingPad: { set(in, Val::agg({s.excObj, Val::i(P.cst(32, (u64)(unsigned)s.excSel))})); continue; }
            case Instruction::AtomicRMW: case Instruction::AtomicCmpXchg: case Instruction::VAArg: { for(auto& o : in->operands()) { Val v = eval(s, f, x, o.get()); if(v.k == Val::Ptr) havoc(s, v.obj); } set(in, unknown(in->getType(), "atomic")); continue; }
            case Instruction::Fence: continue;
            case Instruction::ExtractElement: case Instruction::InsertElement: case Instruction::ShuffleVector: set(in, unknown(in->getType()->isVectorTy() ? Type::getInt64Ty(M.getContext()) : in->getType(), "vec")); continue;
            // ------------------------------------------------ terminators
            case Instruction::Br: {
                auto* br = cast<BranchInst>(in);
                if(br->isUnconditional()) { edge(B, br->getSuccessor(0), std::move(s), std::move(f)); return; }
                Val c = eval(s, f, x, br->getCondition());
                Term ct = c.k == Val::I ? norm(s, c.t) : freshSym(1, "undefbr");
                if(c.k == Val::U) alarm("undef", in, "branch on an uninitialised value", s);
                if(P.isC(ct)) { edge(B, br->getSuccessor(P.cv(ct) ? 0 : 1), std::move(s), std::move(f)); return; }
                State s0 = s; Frame f0 = f; ++s.und; ++s0.und;
                bool t = refine(s, ct, VSet::one(1)), e = refine(s0, ct, VSet::one(0));
                if(!(t && e)) { --s.und; --s0.und; }
                if(t) edge(B, br->getSuccessor(0), std::move(s), std::move(f));
                if(e) edge(B, br->getSuccessor(1), std::move(s0), std::move(f0));
                return; }
            case Instruction::Switch: {
                auto* sw = cast<SwitchInst>(in); Val c = eval(s, f, x, sw->getCondition()); unsigned cw = bitsOf(sw->getCondition()->getType());
                Term ct = c.k == Val::I ? norm(s, c.t) : freshSym(cw, "undefsw");
                if(c.k == Val::U) alarm("undef", in, "switch on an uninitialised value", s);
                if(P.isC(ct)) { auto* cs = sw->findCaseValue(ConstantInt::get(cast<IntegerType>(sw->getCondition()->getType()), P.cv(ct)))->getCaseSuccessor(); edge(B, cs, std::move(s), std::move(f)); return; }
                VSet rest = VSet::full(cw); std::map<const BasicBlock*, VSet> bySucc; std::vector<const BasicBlock*> order;
                for(auto& cc : sw->cases()) { u64 v = cc.getCaseValue()->getZExtValue(); rest = VSet::inter(rest, VSet::one(v).compl_(cw)); auto* su = cc.getCaseSuccessor(); if(!bySucc.count(su)) order.push_back(su); auto& q = bySucc[su]; q = VSet::uni(q, VSet::one(v)); }
                if(!bySucc.count(sw->getDefaultDest())) order.push_back(sw->getDefaultDest());
                bySucc[sw->getDefaultDest()] = VSet::uni(bySucc[sw->getDefaultDest()], rest);
                std::vector<std::pair<const BasicBlock*, State>> nx;
                for(auto* su : order) { State s2 = s; if(refine(s2, ct, bySucc[su])) nx.push_back({su, std::move(s2)}); }
                for(auto& q : nx) { if(nx.size() > 1) ++q.second.und; edge(B, q.first, std::move(q.second), f); }
                return; }
            case Instruction::Ret: { auto* r = cast<ReturnInst>(in); Val v = r->getReturnValue() ? eval(s, f, x, r->getReturnValue()) : Val(); if(v.k == Val::I) v.t = norm(s, v.t); out.push_back({OK::Ret, std::move(s), v, "", ""}); return; }
            case Instruction::Unreachable: { if(StringRef(loc(in)).starts_with("/usr/")) return; alarm("unreachable", in, "", s); out.push_back({OK::Unreach, std::move(s), Val(), "unreachable", loc(in)}); return; }
            case Instruction::Resume: { out.push_back({OK::Throw, std::move(s), Val(), s.excType, ""}); out.back().info = out.back().s.excType; return; }
            case Instruction::Call: case Instruction::Invoke: {
                auto* cb = cast<CallBase>(in);
                Outs res; bool handled = doCall(cb, s, f, x, ctx, res);
                if(deadCall && res.empty()) { deadCall = false; return; } // no path returns
                if(handled && res.empty()) { // simple: value already placed
                    if(auto* iv = dyn_cast<InvokeInst>(in)) { edge(B, iv->getNormalDest(), std::move(s), std::move(f)); return; }
                    continue;
                }
                std::vector<Outcome*> rets; unsigned live = 0; for(auto& r : res) if(r.kind == OK::Ret || r.kind == OK::Throw) ++live;
                bool first = true; State cont; Frame contF; bool have = false;
                for(auto& r : res) {
                    if(r.kind == OK::Throw) {
                        auto* iv = dyn_cast<InvokeInst>(in);
                        if(!iv) { if(fn->doesNotThrow()) { out.push_back({OK::Term, std::move(r.s), Val(), "terminate:" + r.info, loc(in)}); continue; } out.push_back(std::move(r)); continue; }
                        auto* lp = iv->getLandingPadInst(); int sel = 0; bool match = lp->isCleanup() && cleanups; bool term = false;
                        for(auto& bi : *lp->getParent()) if(auto* c2 = dyn_cast<CallBase>(&bi)) if(auto* cf = c2->getCalledFunction()) if(cf->getName() == "__clang_call_terminate") term = true;
                        if(term) { out.push_back({OK::Term, std::move(r.s), Val(), "terminate:" + r.info, loc(in)}); alarm("terminate", in, r.info, out.back().s); continue; }
                        for(unsigned i = 0; i < lp->getNumClauses() && !sel; ++i) if(lp->isCatch(i)) { auto* c = lp->getClause(i)->stripPointerCasts(); if(isa<ConstantPointerNull>(c)) { sel = 0x7fffffff; match = true; } else if(auto* g = dyn_cast<GlobalVariable>(c)) if(ExcTypes::derives(M, r.info, g->getName().str())) { sel = typeId(g); match = true; } }
                        if(!match) { out.push_back(std::move(r)); continue; }
                        r.s.excType = r.info; r.s.excSel = sel; Frame f2 = f;
                        edge(B, iv->getUnwindDest(), std::move(r.s), std::move(f2)); continue;
                    }
                    if(r.kind != OK::Ret) { out.push_back(std::move(r)); continue; }
                    if(auto* iv = dyn_cast<InvokeInst>(in)) { Frame f2 = f; if(!in->getType()->isVoidTy()) f2.env[x.slot[in]] = r.ret; if(live > 1) ++r.s.und; edge(B, iv->getNormalDest(), std::move(r.s), std::move(f2)); continue; }
                    if(live > 1) ++r.s.und;
                    Work w2{B, std::next(ip), std::move(r.s), f}; if(!in->getType()->isVoidTy()) w2.f.env[x.slot[in]] = r.ret;
                    stack.push_back(std::move(w2));
                }
                return; }
            default: set(in, unknown(in->getType(), in->getOpcodeName())); continue;
            }
        }
    }
    std::map<const GlobalVariable*, int> tids;
    int typeId(const GlobalVariable* g) { auto it = tids.find(g); if(it != tids.end()) return it->second; int k = tids.size() + 1; return tids[g] = k; }
    Val insertAt(Val v, Type* t, ArrayRef<unsigned> ix, const Val& n)
    {
        if(ix.empty()) return n;
        std::vector<Val> e; if(v.k == Val::A) e = *v.a; e.resize(aggN(t)); e[ix[0]] = insertAt(e[ix[0]], aggT(t, ix[0]), ix.drop_front(), n); return Val::agg(e);
    }

    // returns true if handled; with res empty the result has been placed in the frame
    bool deadCall = false;
    bool doCall(const CallBase* cb, State& s, Frame& f, FnInfo& x, const std::string& ctx, Outs& res)
    {
        auto place = [&](Val v) { if(!cb->getType()->isVoidTy()) f.env[x.slot[cb]] = std::move(v); return true; };
        auto arg = [&](unsigned i) { return eval(s, f, x, cb->getArgOperand(i)); };
        std::vector<Val> args; for(auto& a : cb->args()) if(!isa<MetadataAsValue>(a.get())) args.push_back(eval(s, f, x, a.get())); else args.push_back(Val());
        if(isa<InlineAsm>(cb->getCalledOperand())) return place(unknown(cb->getType(), "asm"));
        const Function* fn = dyn_cast<Function>(cb->getCalledOperand()->stripPointerCasts());
        if(!fn) {
            Val c = eval(s, f, x, cb->getCalledOperand());
            if(c.k == Val::I) c = intToPtr(s, c);
            if(c.k == Val::Ptr && objs[c.obj].g) fn = dyn_cast<Function>(objs[c.obj].g);
            if(!fn && c.k == Val::I && P[c.t].k == Node::OpN) {}
            if(!fn) { // fork over the constant table it comes from
                if(auto* ld = dyn_cast<LoadInst>(cb->getCalledOperand())) {
                    Val p = eval(s, f, x, ld->getPointerOperand());
                    if(p.k == Val::Ptr && objs[p.obj].g) if(auto* gv = dyn_cast<GlobalVariable>(objs[p.obj].g)) if(gv->isConstant() && gv->hasInitializer()) {
                        VSet v = vs(s, norm(s, p.t)); u64 total = DL.getTypeAllocSize(gv->getValueType());
                        if(!v.empty() && total <= 8 * 400) {
                            bool any = false;
                            for(u64 o = 0; o + 8 <= total; o += 8) if(v.contains(o)) {
                                State s2 = s; if(!refine(s2, norm(s2, p.t), VSet::one(o))) continue;
                                Constant* k = ConstantFoldLoadFromConst(const_cast<Constant*>(gv->getInitializer()), PointerType::getUnqual(M.getContext()), APInt(64, o), DL);
                                auto* tf = k ? dyn_cast<Function>(k->stripPointerCasts()) : nullptr; if(!tf) continue;
                                any = true; ++s2.und;
                                auto r = callFn(tf, cb, args, std::move(s2), ctx); for(auto& q : r) res.push_back(std::move(q));
                            }
                            if(any) return true;
                        }
                    }
                }
                return opaque(cb, "<indirect>", args, s, f, x);
            }
        }
        StringRef nm = fn->getName();
        // ---- interface of the harness
        if(nm.starts_with("pax_")) {
            std::string n = args.empty() ? "" : cstr(s, args[0]);
            if(nm == "pax_assume") { Term t = termOf(s, args[0], bitsOf(cb->getArgOperand(0)->getType()), "assume", cb); if(!refine(s, t, P.w(t) == 1 ? VSet::one(1) : VSet::range(1, maskOf(P.w(t))))) { res.push_back({OK::Stop, s, Val(), "assume", ""}); } return true; }
            if(nm == "pax_u8" || nm == "pax_u16" || nm == "pax_u32" || nm == "pax_u64" || nm == "pax_bool") {
                unsigned w = nm == "pax_u8" ? 8 : nm == "pax_u16" ? 16 : nm == "pax_u32" ? 32 : nm == "pax_u64" ? 64 : bitsOf(cb->getType());
                Term t = P.sym(w, n); if(nm == "pax_bool" && w != 1) { refine(s, t, VSet::range(0, 1)); } inputs.insert(t); return place(Val::i(t)); }
            if(nm == "pax_key") { Term t = norm(s, args[0].t); std::vector<Term> a; P.atoms(t, a); for(auto q : a) if(std::find(keySyms.begin(), keySyms.end(), q) == keySyms.end()) keySyms.push_back(q); return true; }
            if(nm == "pax_out") { s.outs[n] = args[1].k == Val::I ? Val::i(norm(s, args[1].t)) : args[1]; return true; }
            if(nm == "pax_event") { Ev e; e.name = n; for(unsigned i = 1; i < args.size(); ++i) { Val a = args[i]; if(a.k == Val::I) a.t = norm(s, a.t); if(a.k == Val::Ptr) a = Val::i(P.sym(64, "&" + objs[a.obj].name)); e.args.push_back(a); } s.trace = traceAdd(s.trace, e); return true; }
            if(nm == "pax_buf") { // (name, elem size, number of elements)
                Term len = termOf(s, args[2], 64, "buf", cb); unsigned e = (unsigned)P.cv(norm(s, args[1].t)); Term sz = P.scale(len, e);
                int id = objId("buf:" + n, [&] { ObjInfo o; o.kind = "buf"; o.name = n; o.size = sz; o.buffer = true; o.elem = e; return o; }); return place(Val::p(id, P.cst(64, 0))); }
            if(nm == "pax_obj") { // (name, size): unknown content, writable
                Term sz = norm(s, termOf(s, args[1], 64, "obj", cb)); int id = objId("obj:" + n, [&] { ObjInfo o; o.kind = "lazy"; o.name = n; o.size = P.isC(sz) && P.cv(sz) == 0 ? 0 : sz; return o; }); return place(Val::p(id, P.cst(64, 0))); }
            if(nm == "pax_freeze") { Val p = intToPtr(s, args[1]); if(p.k == Val::Ptr) wobj(s, p.obj).frozen = true; return true; }
            if(nm == "pax_thaw") { std::vector<int> ids; for(auto& [id, o] : *s.mem) if(o->frozen) ids.push_back(id); for(int id : ids) wobj(s, id).frozen = false; return true; }
            if(nm == "pax_havoc") { Val p = intToPtr(s, args[0]); if(p.k == Val::Ptr) havoc(s, p.obj); return true; }
            if(nm == "pax_throw") { res.push_back({OK::Throw, s, Val(), "pax:" + n, loc(cb)}); return true; }
            return opaque(cb, nm.str(), args, s, f, x);
        }
        if(fn->isIntrinsic()) return intrinsic(cb, fn, args, s, f, x, res);
        const std::string& rl = rule(fn);
        if(!rl.empty()) {
            if(rl == "skip") return place(unknown(cb->getType(), "skip"));
            if(rl == "stop") { res.push_back({OK::Stop, s, Val(), "stop", loc(cb)}); return true; }
            if(rl.substr(0, 6) == "event:" || rl.substr(0, 5) == "last:") { bool last = rl[0] == 'l'; Ev e; e.name = rl.substr(last ? 5 : 6); for(auto& a : args) { Val v = a; if(v.k == Val::I) v.t = norm(s, v.t); if(v.k == Val::Ptr) v = Val::i(P.sym(64, "&" + objs[v.obj].name)); e.args.push_back(v); } s.trace = traceAdd(s.trace, e); if(last) { res.push_back({OK::Stop, s, Val(), "stop", loc(cb)}); return true; } return place(unknown(cb->getType(), "ev")); }
            if(rl == "sret" ) { if(!args.empty() && args[0].k == Val::Ptr) havoc(s, args[0].obj); return place(unknown(cb->getType(), "r")); }
            if(rl == "opaque") return opaque(cb, nm.str(), args, s, f, x);
        }
        if(library(cb, fn, nm, args, s, f, x, res)) return true;
        if(fn->isDeclaration()) return opaque(cb, nm.str(), args, s, f, x);
        res = callFn(fn, cb, args, s, ctx); deadCall = res.empty();
        return true;
    }
    std::set<Term> inputs;
    Outs callFn(const Function* fn, const CallBase* cb, std::vector<Val> args, State s, const std::string& ctx)
    {
        if(fn->isDeclaration()) { Outs o; State t = s; o.push_back({OK::Ret, std::move(s), unknown(fn->getReturnType(), "ext"), "", ""}); return o; }
        // byval copies
        cstack.push_back(cb);
        auto r = execFn(fn, args, std::move(s), ctxOf(ctx, cb));
        cstack.pop_back();
        return r;
    }
    std::map<std::pair<std::string, const CallBase*>, std::string> ctxIdx;
    std::string ctxOf(const std::string& c, const CallBase* cb) { auto k = std::make_pair(c, cb); auto it = ctxIdx.find(k); if(it != ctxIdx.end()) return it->second; return ctxIdx[k] = std::to_string(ctxIdx.size() + 1); }
    bool opaque(const CallBase* cb, const std::string& nm, std::vector<Val>& args, State& s, Frame& f, FnInfo& x)
    {
        opaqueSeen[demangle(nm)]++;
        std::set<int> seen; for(unsigned i = 0; i < args.size(); ++i) if(args[i].k == Val::Ptr && !cb->onlyReadsMemory(i)) havocReach(s, args[i].obj, seen, 0);
        if(!cb->getType()->isVoidTy()) f.env[x.slot[cb]] = unknown(cb->getType(), "ext");
        return true;
    }
    bool intrinsic(const CallBase* cb, const Function* fn, std::vector<Val>& args, State& s, Frame& f, FnInfo& x, Outs& res)
    {
        auto place = [&](Val v) { if(!cb->getType()->isVoidTy()) f.env[x.slot[cb]] = std::move(v); return true; };
        auto T = [&](unsigned i) { return termOf(s, args[i], bitsOf(cb->getArgOperand(i)->getType()), "intr", cb); };
        switch(fn->getIntrinsicID()) {
        case Intrinsic::memcpy: case Intrinsic::memmove: case Intrinsic::memcpy_inline: copyMem(s, args[0], args[1], args[2], cb); return true;
        case Intrinsic::memset: {
            Val d = intToPtr(s, args[0]); if(d.k != Val::Ptr) return true; Term n = norm(s, args[2].t), o = norm(s, d.t), v = args[1].k == Val::I ? norm(s, args[1].t) : 0;
            if(P.isC(n) && P.cv(n) == 0) return true;
            if(!P.isC(n) || !P.isC(o) || P.cv(n) > 65536 || !v) { if(objs[d.obj].size) rangeCheck(s, d.obj, o, n, cb); havoc(s, d.obj); return true; }
            if(!bounds(s, d.obj, o, (unsigned)P.cv(n), cb)) { res.push_back({OK::Stop, s, Val(), "oob", ""}); return true; }
            if(auto* fo = obj(s, d.obj)) if(fo->frozen) { alarm("frozen", cb, objs[d.obj].name, s); return true; }
            i64 off = sgn(P.cv(o), 64), N = P.cv(n); Obj& ob = wobj(s, d.obj);
            if(P.isC(v) && P.cv(v) == 0 && off == 0 && objs[d.obj].size && P.isC(objs[d.obj].size) && P.cv(objs[d.obj].size) == (u64)N) { ob.cells.clear(); ob.def = Def::Zero; return true; }
            clearRange(s, ob, off, N, d.obj);
            i64 i = 0; if(P.isC(v)) for(; i + 8 <= N; i += 8) ob.cells[off + i] = Cell{8, Val::i(P.cst(64, 0x0101010101010101ull * (P.cv(v) & 255)))};
            for(; i < N; ++i) ob.cells[off + i] = Cell{1, Val::i(v)};
            return true; }
        case Intrinsic::fabs: { unsigned w = bitsOf(cb->getType()); if(w > 64 || cb->getType()->isVectorTy() || args[0].k != Val::I || P.w(args[0].t) != w) return place(unknown(cb->getType(), "fabs")); Term t = args[0].t; return place(Val::i(bin(s, Instruction::And, t, P.cst(w, maskOf(w) >> 1)))); }
        case Intrinsic::is_fpclass: { auto* k = cast<ConstantInt>(cb->getArgOperand(1)); Type* ty = cb->getArgOperand(0)->getType();
            if(args[0].k == Val::I && P.isC(args[0].t) && (ty->isFloatTy() || ty->isDoubleTy())) { APFloat v(ty->getFltSemantics(), APInt(bitsOf(ty), P.cv(args[0].t))); return place(Val::i(P.cst(1, ((unsigned)v.classify() & k->getZExtValue()) != 0))); }
            return place(unknown(cb->getType(), "fpclass")); }
        case Intrinsic::expect: case Intrinsic::launder_invariant_group: case Intrinsic::strip_invariant_group: return place(args[0]);
        case Intrinsic::assume: { Term t = T(0); if(!refine(s, t, VSet::one(1))) res.push_back({OK::Stop, s, Val(), "assume", ""}); return true; }
        case Intrinsic::is_constant: return place(Val::i(P.cst(1, 0)));
        case Intrinsic::objectsize: return place(Val::i(P.cst(bitsOf(cb->getType()), ~0ull)));
        case Intrinsic::eh_typeid_for: { if(auto* g = dyn_cast<GlobalVariable>(cb->getArgOperand(0)->stripPointerCasts())) return place(Val::i(P.cst(32, typeId(g)))); return place(unknown(cb->getType(), "tid")); }
        case Intrinsic::trap: case Intrinsic::debugtrap: { alarm("trap", cb, "", s); res.push_back({OK::Trap, s, Val(), "trap", loc(cb)}); return true; }
        case Intrinsic::ubsantrap: { static const char* nm[] = {"add-overflow", "builtin-unreachable", "cfi", "divrem", "dyncache", "float-cast", "fntype", "implicit-conv", "invalid-builtin", "objc", "load-invalid", "missing-return", "mul-overflow", "negate", "nullability-arg", "nullability-ret", "nonnull-arg", "nonnull-ret", "out-of-bounds", "pointer-overflow", "shift", "sub-overflow", "type-mismatch", "alignment", "vla"};
            u64 k = cast<ConstantInt>(cb->getArgOperand(0))->getZExtValue(); std::string n = k < 25 ? nm[k] : "ub"; if(k == 1 && StringRef(loc(cb)).starts_with("/usr/")) return true; /* an assumption of the standard library about its own objects */ alarm("ub:" + n, cb, "", s); res.push_back({OK::Trap, s, Val(), "ub:" + n, loc(cb)}); return true; }
        case Intrinsic::umin: case Intrinsic::umax: case Intrinsic::smin: case Intrinsic::smax: {
            Term a = T(0), b = T(1); auto id = fn->getIntrinsicID(); Term c = icmp(s, id == Intrinsic::umin || id == Intrinsic::umax ? 2 : 6, a, b); bool mn = id == Intrinsic::umin || id == Intrinsic::smin;
            if(P.isC(c)) return place(Val::i((P.cv(c) != 0) == mn ? a : b)); return place(Val::i(P.op(OpSelect, P.w(a), {c, mn ? a : b, mn ? b : a}))); }
        case Intrinsic::abs: { Term a = T(0); VSet v = vs(s, a); if(!v.empty() && v.max() < (1ull << (P.w(a) - 1))) return place(Val::i(a)); Term c = icmp(s, 6, a, P.cst(P.w(a), 0)); return place(Val::i(P.op(OpSelect, P.w(a), {c, P.neg(a), a}))); }
        case Intrinsic::sadd_with_overflow: case Intrinsic::uadd_with_overflow: case Intrinsic::ssub_with_overflow: case Intrinsic::usub_with_overflow: case Intrinsic::smul_with_overflow: case Intrinsic::umul_with_overflow: {
            unsigned w = bitsOf(cb->getArgOperand(0)->getType()); Term a = norm(s, T(0)), b = norm(s, T(1)); auto id = fn->getIntrinsicID();
            bool sg = id == Intrinsic::sadd_with_overflow || id == Intrinsic::ssub_with_overflow || id == Intrinsic::smul_with_overflow;
            int op = id == Intrinsic::sadd_with_overflow || id == Intrinsic::uadd_with_overflow ? 0 : id == Intrinsic::ssub_with_overflow || id == Intrinsic::usub_with_overflow ? 1 : 2;
            Term r = bin(s, op == 0 ? Instruction::Add : op == 1 ? Instruction::Sub : Instruction::Mul, a, b);
            VSet va = vs(s, a), vb = vs(s, b); Term ovf = 0;
            if(!va.empty() && !vb.empty()) {
                i128 al = sg ? (i128)smin(va, w) : (i128)va.min(), ah = sg ? (i128)smax(va, w) : (i128)va.max(), bl = sg ? (i128)smin(vb, w) : (i128)vb.min(), bh = sg ? (i128)smax(vb, w) : (i128)vb.max(), lo, hi;
                if(op == 0) { lo = al + bl; hi = ah + bh; } else if(op == 1) { lo = al - bh; hi = ah - bl; } else { i128 c[] = {al * bl, al * bh, ah * bl, ah * bh}; lo = *std::min_element(c, c + 4); hi = *std::max_element(c, c + 4); }
                i128 mn = sg ? -((i128)1 << (w - 1)) : 0, mx = sg ? ((i128)1 << (w - 1)) - 1 : (i128)maskOf(w);
                if(!sg && op == 1 && P[r].k != Node::OpN) { i128 l2, h2; if(irange(s, r, l2, h2, 0)) { lo = std::max(lo, l2); hi = std::min(hi, h2); } VSet rv = vs(s, r); (void)rv; }
                if(lo >= mn && hi <= mx) ovf = P.cst(1, 0); else if(lo > mx || hi < mn) ovf = P.cst(1, 1);
                // exact conditions on one side
                if(!ovf && op == 0 && P.isC(b)) { i128 k = sg ? (i128)sgn(P.cv(b), w) : (i128)P.cv(b); if(k >= 0) ovf = icmp(s, sg ? 8 : 4, a, P.cst(w, (u64)(mx - k))); else ovf = icmp(s, 6, a, P.cst(w, (u64)(mn - k))); }
                if(!ovf && op == 1 && P.isC(b)) { i128 k = sg ? (i128)sgn(P.cv(b), w) : (i128)P.cv(b); if(k >= 0) ovf = icmp(s, sg ? 6 : 2, a, P.cst(w, (u64)(mn + k))); else ovf = icmp(s, 8, a, P.cst(w, (u64)(mx + k))); }
                if(!ovf && op == 2 && P.isC(b) && P.cv(b) && (!sg || sgn(P.cv(b), w) > 0) && (!sg || al >= 0)) ovf = icmp(s, 4, a, P.cst(w, (u64)(mx / (i128)P.cv(b))));
                if(!ovf && op == 1 && !sg) ovf = icmp(s, 2, a, b);
            }
            if(!ovf) ovf = freshSym(1, "ovf");
            return place(Val::agg({Val::i(r), Val::i(ovf)})); }
        case Intrinsic::uadd_sat: case Intrinsic::usub_sat: { Term a = T(0), b = T(1); if(fn->getIntrinsicID() == Intrinsic::usub_sat) { Term c = icmp(s, 2, a, b); Term d = P.addT(a, b, ~0ull); if(P.isC(c)) return place(Val::i(P.cv(c) ? P.cst(P.w(a), 0) : d)); return place(Val::i(P.op(OpSelect, P.w(a), {c, P.cst(P.w(a), 0), d}))); } return place(unknown(cb->getType(), "sat")); }
        case Intrinsic::ctpop: case Intrinsic::ctlz: case Intrinsic::cttz: { Term a = norm(s, T(0)); unsigned w = P.w(a); auto id = fn->getIntrinsicID();
            if(P.isC(a)) { u64 v = P.cv(a); u64 r = id == Intrinsic::ctpop ? __builtin_popcountll(v) : id == Intrinsic::ctlz ? (v ? __builtin_clzll(v) - (64 - w) : w) : (v ? __builtin_ctzll(v) : w); return place(Val::i(P.cst(w, r))); }
            // exact table over a small operand
            Term leaf; VSet lv; if(leafEnum(s, a, leaf, lv) && evaluable(a) && lv.count() <= 4096 && P[leaf].k == Node::Sym) { // partition
                std::map<u64, VSet> g; for(auto& p : lv.iv) for(u64 v = p.first;; ++v) { u64 e = evalAt(a, leaf, v); u64 r = id == Intrinsic::ctpop ? __builtin_popcountll(e) : id == Intrinsic::ctlz ? (e ? __builtin_clzll(e) - (64 - w) : w) : (e ? __builtin_ctzll(e) : w); g[r].iv.push_back({v, v}); if(v == p.second) break; }
                for(auto& [r, q] : g) { q.norm(); State s2 = s; if(g.size() > 1) ++s2.und; setCons(s2, leaf, q); res.push_back({OK::Ret, std::move(s2), Val::i(P.cst(w, r)), "", ""}); }
                return true; }
            Term r = P.op(OpMisc, w, {a}, 2000 + id); refine(s, r, VSet::range(0, w)); return place(Val::i(r)); }
        case Intrinsic::lifetime_start: case Intrinsic::lifetime_end: case Intrinsic::experimental_noalias_scope_decl: case Intrinsic::dbg_declare: case Intrinsic::dbg_value: case Intrinsic::dbg_label: case Intrinsic::stacksave: case Intrinsic::stackrestore: case Intrinsic::invariant_start: case Intrinsic::invariant_end: case Intrinsic::donothing: case Intrinsic::prefetch: if(!cb->getType()->isVoidTy()) place(unknown(cb->getType(), "i")); return true;
        case Intrinsic::type_test: case Intrinsic::public_type_test: return place(Val::i(P.cst(1, 1)));
        default: {
            bool ok = !cb->getType()->isVoidTy() && !cb->getType()->isAggregateType() && !cb->getType()->isVectorTy(); std::vector<Term> as; for(auto& a : args) { if(a.k == Val::I) as.push_back(a.t); else ok = false; }
            if(ok && cb->doesNotAccessMemory()) return place(Val::i(P.op(OpMisc, std::min(64u, bitsOf(cb->getType())), as, 2000 + fn->getIntrinsicID())));
            return opaque(cb, fn->getName().str(), args, s, f, x); }
        }
    }
    bool library(const CallBase* cb, const Function* fn, StringRef nm, std::vector<Val>& args, State& s, Frame& f, FnInfo& x, Outs& res)
    {
        auto place = [&](Val v) { if(!cb->getType()->isVoidTy()) f.env[x.slot[cb]] = std::move(v); return true; };
        if(nm == "_Znwm" || nm == "_Znam" || nm == "malloc" || nm == "__cxa_allocate_exception" || nm == "_ZnwmSt11align_val_t") {
            Term n = norm(s, args[0].t); std::string base = "h" + (cstack.empty() ? "" : std::to_string((uintptr_t)cstack.back())) + "/" + std::to_string((uintptr_t)cb) + "d" + std::to_string(depth); 
            int id = 0; for(int k = 0;; ++k) { std::string key = base + "#" + std::to_string(k) + "s" + std::to_string(n); id = objId(key, [&] { ObjInfo o; o.kind = "heap"; o.name = "heap@" + loc(cb); o.size = n; return o; }); auto* o = obj(s, id); if(!o || o->freed || k > 200) break; }
            Obj& o = wobj(s, id); o = Obj(); return place(Val::p(id, P.cst(64, 0))); }
        if(nm == "_ZdlPv" || nm == "_ZdlPvm" || nm == "_ZdaPv" || nm == "_ZdaPvm" || nm == "free" || nm == "__cxa_free_exception" || nm == "_ZdlPvmSt11align_val_t") { Val p = intToPtr(s, args[0]); if(p.k == Val::Ptr) { if(objs[p.obj].kind == "heap") { if(obj(s, p.obj) && obj(s, p.obj)->freed) alarm("double-free", cb, objs[p.obj].name, s); if(obj(s, p.obj) && obj(s, p.obj)->frozen) alarm("frozen", cb, objs[p.obj].name, s); Obj& o = wobj(s, p.obj); o.cells.clear(); o.freed = true; } } return true; }
        if(nm == "__cxa_throw") { std::string t = "?"; if(auto* g = dyn_cast<GlobalVariable>(cb->getArgOperand(1)->stripPointerCasts())) t = g->getName().str(); State s2 = s; s2.excObj = args[0]; res.push_back({OK::Throw, std::move(s2), Val(), t, loc(cb)}); return true; }
        if(nm == "__cxa_begin_catch") { s.caught.push_back({s.excType, s.excObj}); return place(args[0]); }
        if(nm == "__cxa_end_catch") { if(!s.caught.empty()) s.caught.pop_back(); return true; }
        if(nm == "__cxa_rethrow") { State s2 = s; std::string t = "?"; if(!s2.caught.empty()) { t = s2.caught.back().first; s2.excObj = s2.caught.back().second; } res.push_back({OK::Throw, std::move(s2), Val(), t, loc(cb)}); return true; }
        if(nm == "__cxa_guard_acquire") { Val p = args[0]; if(p.k == Val::Ptr) { const Obj* o = obj(s, p.obj); if(o && o->cells.count(0)) return place(Val::i(P.cst(32, 0))); } return place(Val::i(P.cst(32, 1))); }
        if(nm == "__cxa_guard_release") { if(args[0].k == Val::Ptr) wobj(s, args[0].obj).cells[0] = Cell{1, Val::i(P.cst(8, 1))}; return true; }
        if(nm == "__cxa_guard_abort" || nm == "__cxa_atexit") { return place(unknown(cb->getType(), "i")); }
        if(nm == "abort" || nm == "_ZSt9terminatev" || nm == "__clang_call_terminate" || nm == "exit" || nm == "_Exit" || nm == "__assert_fail" || nm == "_ZSt21__glibcxx_assert_failPKciS0_S0_" || nm == "__cxa_pure_virtual" || nm == "__cxa_bad_cast") {
            std::string k = nm.contains("assert") ? "assert" : "abort"; alarm(k, cb, nm.str(), s); res.push_back({OK::Trap, s, Val(), k, loc(cb)}); return true; }
        if(nm.starts_with("_ZSt") && nm.contains("__throw_")) { static const std::map<std::string, std::string> ty = {{"_ZSt20__throw_out_of_rangePKc", "_ZTISt12out_of_range"}, {"_ZSt24__throw_out_of_range_fmtPKcz", "_ZTISt12out_of_range"}, {"_ZSt20__throw_length_errorPKc", "_ZTISt12length_error"}, {"_ZSt19__throw_logic_errorPKc", "_ZTISt11logic_error"}, {"_ZSt24__throw_invalid_argumentPKc", "_ZTISt16invalid_argument"}, {"_ZSt16__throw_bad_castv", "_ZTISt8bad_cast"}, {"_ZSt17__throw_bad_allocv", "_ZTISt9bad_alloc"}, {"_ZSt28__throw_bad_array_new_lengthv", "_ZTISt20bad_array_new_length"}};
            auto it = ty.find(nm.str()); res.push_back({OK::Throw, s, Val(), it == ty.end() ? "std:" + nm.str() : it->second, loc(cb)}); return true; }
        if(nm == "memcpy" || nm == "memmove") { copyMem(s, args[0], args[1], args[2], cb); return place(args[0]); }
        if(nm == "strlen" || nm == "wcslen") {
            Val p = intToPtr(s, args[0]);
            if(p.k == Val::Ptr && objs[p.obj].g && P.isC(p.t)) if(auto* gv = dyn_cast<GlobalVariable>(objs[p.obj].g)) if(gv->isConstant() && gv->hasInitializer()) { if(gv->getInitializer()->isNullValue()) return place(Val::i(P.cst(64, 0))); if(auto* cd = dyn_cast<ConstantDataSequential>(gv->getInitializer())) { unsigned es = nm == "strlen" ? 1 : 4; if(cd->getElementByteSize() == es) { u64 i = P.cv(p.t) / es, n = 0; while(i + n < cd->getNumElements() && cd->getElementAsInteger(i + n)) ++n; return place(Val::i(P.cst(64, n))); } } }
            if(nm == "strlen" && p.k == Val::Ptr && P.isC(p.t)) if(auto* o = obj(s, p.obj)) if(!o->freed) { // known bytes
                i64 at = sgn(P.cv(p.t), 64); u64 n = 0; bool known = false;
                for(; n < 4096; ++n) { bool cov = o->cells.count(at + (i64)n); for(i64 k = 1; !cov && k < 8; ++k) { auto it = o->cells.find(at + (i64)n - k); if(it != o->cells.end()) { cov = (i64)it->second.size > k; break; } }
                    if(!cov) break; Val b = byteAt(s, p.obj, at + (i64)n, Type::getInt8Ty(M.getContext())); o = obj(s, p.obj); if(!o || b.k != Val::I || !P.isC(norm(s, b.t))) break; if(P.cv(norm(s, b.t)) == 0) { known = true; break; } }
                if(known) return place(Val::i(P.cst(64, n))); }
            Term t = freshSym(64, "strlen"); refine(s, t, VSet::range(0, 0x7fffffffffffull)); return place(Val::i(t)); }
        if(nm == "memchr" || nm == "memcmp" || nm == "bcmp") {
            Term n = args[2].k == Val::I ? norm(s, args[2].t) : 0;
            if(nm != "memchr" && n && P.isC(n) && P.cv(n) == 0) return place(Val::i(P.cst(32, 0)));
            Val pa = intToPtr(s, args[0]), pb = nm == "memchr" ? Val() : intToPtr(s, args[1]);
            if(n && !P.isC(n)) { if(pa.k == Val::Ptr && objs[pa.obj].size && nm != "memchr") rangeCheck(s, pa.obj, pa.t, n, cb); if(pb.k == Val::Ptr && objs[pb.obj].size) rangeCheck(s, pb.obj, pb.t, n, cb); }
            if(!n || !P.isC(n) || P.cv(n) > 64 || pa.k != Val::Ptr || (nm != "memchr" && pb.k != Val::Ptr)) return place(unknown(cb->getType(), nm.str()));
            Type* b8 = Type::getInt8Ty(M.getContext()); State cur = s; unsigned forks = 0; bool live = true;
            auto done = [&](State q, Val v) { res.push_back({OK::Ret, std::move(q), v, "", ""}); };
            for(u64 i = 0; i < P.cv(n) && live; ++i) {
                bool dead = false; Val x = load(cur, Val::p(pa.obj, norm(cur, P.addC(pa.t, i))), b8, cb, dead); if(dead) { live = false; break; }
                Val y = nm == "memchr" ? Val::i(trunc(cur, termOf(cur, args[1], 32, "mc", cb), 8)) : load(cur, Val::p(pb.obj, norm(cur, P.addC(pb.t, i))), b8, cb, dead); if(dead) { live = false; break; }
                if(x.k != Val::I || y.k != Val::I) { done(cur, nm == "memchr" ? unknown(cb->getType(), "mc") : unknown(cb->getType(), nm.str())); live = false; break; }
                Term eq = norm(cur, icmp(cur, 0, x.t, y.t));
                if(!P.isC(eq)) { ++forks; ++cur.und; }
                if(nm == "memchr") {
                    State h = cur; if(refine(h, eq, VSet::one(1))) done(h, Val::p(pa.obj, norm(h, P.addC(pa.t, i))));
                } else {
                    State l = cur, g = cur; Term lt = norm(cur, icmp(cur, 2, x.t, y.t));
                    if(refine(l, eq, VSet::one(0)) && refine(l, lt, VSet::one(1))) done(l, Val::i(P.cst(32, 0xffffffffu)));
                    if(refine(g, eq, VSet::one(0)) && refine(g, lt, VSet::one(0))) done(g, Val::i(P.cst(32, 1)));
                }
                live = refine(cur, eq, VSet::one(nm == "memchr" ? 0 : 1));
            }
            if(live) done(cur, nm == "memchr" ? Val::i(P.cst(64, 0)) : Val::i(P.cst(32, 0)));
            return true; }
        return false;
    }
    json::Object consJson(const State& s)
    {
        json::Object o; for(auto& [t, v] : *s.cons) { if(P[t].k == Node::Sym && P[t].name[0] == '$') continue; json::Array a; size_t n = 0; for(auto& p : v.iv) { if(++n > 40) { a.push_back("..."); break; } a.push_back(json::Array{(int64_t)p.first, (int64_t)p.second}); } o[P.str(t)] = std::move(a); if(o.size() > 60) break; }
        return o;
    }
