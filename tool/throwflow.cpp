// Exception containment: which exception types thrown by library or user code can reach a
// noexcept boundary (a call to __clang_call_terminate)?  Interprocedural may-throw fixpoint.
#include "papan_common.h"
namespace pap {
namespace {
struct Wit { const Instruction* at = nullptr; Function* callee = nullptr; }; // how the type gets out of a function
struct TF {
    Module& M; CallResolver R;
    std::map<Function*, std::map<std::string, Wit>> thr;
    std::map<const CallBase*, std::vector<Function*>> tcache;
    std::set<const CallBase*> unresolved;
    size_t calls = 0, indirect = 0, lpads = 0;
    TF(Module& m) : M(m), R(m) {}

    // external library functions that throw (not for lack of memory)
    static const char* extThrow(StringRef n)
    {
        static const std::map<std::string, const char*> k = {
            {"_ZSt20__throw_out_of_rangePKc", "_ZTISt12out_of_range"}, {"_ZSt24__throw_out_of_range_fmtPKcz", "_ZTISt12out_of_range"},
            {"_ZSt24__throw_invalid_argumentPKc", "_ZTISt16invalid_argument"}, {"_ZSt19__throw_logic_errorPKc", "_ZTISt11logic_error"},
            {"_ZSt21__throw_runtime_errorPKc", "_ZTISt13runtime_error"}, {"_ZSt20__throw_system_errori", "_ZTISt12system_error"},
            {"_ZSt16__throw_bad_castv", "_ZTISt8bad_cast"}, {"_ZSt25__throw_bad_function_callv", "_ZTISt17bad_function_call"},
            {"_ZSt26__throw_bad_variant_accessPKc", "_ZTISt18bad_variant_access"}, {"_ZSt26__throw_bad_variant_accessb", "_ZTISt18bad_variant_access"},
            {"_ZSt27__throw_bad_optional_accessv", "_ZTISt19bad_optional_access"},
        };
        auto it = k.find(n.str());
        return it == k.end() ? nullptr : it->second;
    }
    const std::vector<Function*>& tg(const CallBase& cb)
    {
        auto it = tcache.find(&cb);
        if(it != tcache.end()) return it->second;
        bool ok; auto v = R.targets(cb, ok);
        if(!ok) unresolved.insert(&cb);
        return tcache[&cb] = v;
    }
    // exception types that may come out of this call, with the callee responsible
    void callThrows(CallBase& cb, std::map<std::string, Function*>& out)
    {
        if(cb.doesNotThrow()) return;
        for(auto* f : tg(cb)) {
            if(f->getName() == "__cxa_throw") {
                if(auto* g = dyn_cast<GlobalVariable>(cb.getArgOperand(1)->stripPointerCasts())) out.emplace(g->getName().str(), f);
                continue;
            }
            if(f->isDeclaration()) { if(auto* t = extThrow(f->getName())) out.emplace(t, f); continue; }
            for(auto& [t, w] : thr[f]) out.emplace(t, f);
        }
    }
    static bool isTerminatePad(const LandingPadInst* lp)
    {
        // the handler of a noexcept boundary: straight-line to the terminate call
        const BasicBlock* b = lp->getParent();
        for(int n = 0; b && n < 4; ++n) {
            for(auto& i : *b) if(auto* c = dyn_cast<CallBase>(&i)) if(auto* f = c->getCalledFunction()) {
                if(f->getName() == "__clang_call_terminate" || f->getName() == "_ZSt9terminatev") return true;
            }
            b = b->getSingleSuccessor();
        }
        return false;
    }
    static bool reaches(const BasicBlock* from, const std::function<bool(const Instruction&)>& p)
    {
        std::set<const BasicBlock*> seen; std::vector<const BasicBlock*> w{from};
        while(!w.empty()) {
            auto* b = w.back(); w.pop_back();
            if(!seen.insert(b).second) continue;
            for(auto& i : *b) if(p(i)) return true;
            for(auto* s : successors(b)) w.push_back(s);
        }
        return false;
    }
    enum class Fate { Propagates, Swallowed, Terminates };
    Fate fate(InvokeInst& iv, const std::string& t)
    {
        auto* lp = iv.getLandingPadInst();
        bool term = isTerminatePad(lp);
        for(unsigned i = 0; i < lp->getNumClauses(); ++i) {
            auto* c = lp->getClause(i)->stripPointerCasts();
            if(lp->isCatch(i)) {
                bool match = isa<ConstantPointerNull>(c) || (isa<GlobalVariable>(c) && ExcTypes::derives(M, t, c->getName().str()));
                if(!match) continue;
                if(term) return Fate::Terminates;
                // caught: rethrown?
                bool re = reaches(lp->getParent(), [](const Instruction& in) {
                    auto* cb = dyn_cast<CallBase>(&in);
                    return cb && cb->getCalledFunction() && cb->getCalledFunction()->getName() == "__cxa_rethrow"; });
                return re ? Fate::Propagates : Fate::Swallowed;
            } else if(term) return Fate::Terminates;
        }
        if(term) return Fate::Terminates;
        return Fate::Propagates;
    }
    void fixpoint()
    {
        bool ch = true;
        while(ch) {
            ch = false;
            for(auto& f : M) {
                if(f.isDeclaration()) continue;
                for(auto& bb : f) for(auto& in : bb) {
                    auto* cb = dyn_cast<CallBase>(&in);
                    if(!cb) continue;
                    std::map<std::string, Function*> ts; callThrows(*cb, ts);
                    for(auto& [t, g] : ts) {
                        bool out = true;
                        if(auto* iv = dyn_cast<InvokeInst>(cb)) out = fate(*iv, t) == Fate::Propagates;
                        // a rethrow inside a handler leaves with the handler's own exception: handled at the throwing call
                        if(out && !f.doesNotThrow() && !thr[&f].count(t)) { thr[&f][t] = {cb, g}; ch = true; }
                    }
                }
            }
        }
    }
};
} // namespace

static int cmdThrow(Module& m, json::Object& out, const std::vector<std::string>&)
{
    TF tf(m);
    tf.fixpoint();
    json::Array viol, swallowed;
    size_t boundaries = 0, repoFns = 0, fns = 0;
    std::map<std::string, size_t> typesSeen;
    for(auto& f : m) {
        if(f.isDeclaration()) continue;
        ++fns; bool rep = inRepo(&f); repoFns += rep;
        for(auto& bb : f) for(auto& in : bb) {
            auto* cb = dyn_cast<CallBase>(&in);
            if(!cb) continue;
            ++tf.calls; if(cb->isIndirectCall()) ++tf.indirect;
            auto* iv = dyn_cast<InvokeInst>(cb);
            if(!iv) continue;
            if(TF::isTerminatePad(iv->getLandingPadInst())) ++boundaries;
            std::map<std::string, Function*> ts; tf.callThrows(*cb, ts);
            for(auto& [t, g] : ts) {
                auto ft = tf.fate(*iv, t);
                if(ft == TF::Fate::Swallowed && rep)
                    swallowed.push_back(json::Object{{"function", dem(&f)}, {"file", srcFile(&f)}, {"at", loc(iv)}, {"type", demangle(t)}, {"callee", dem(g)}});
                if(ft != TF::Fate::Terminates) continue;
                json::Array path;
                path.push_back(dem(&f) + " (noexcept) @ " + loc(iv));
                Function* c = g; std::set<Function*> seen;
                while(c && !c->isDeclaration() && seen.insert(c).second) {
                    auto& w = tf.thr[c][t];
                    path.push_back(dem(c) + " @ " + (w.at ? loc(w.at) : floc(c)));
                    c = w.callee;
                }
                viol.push_back(json::Object{{"function", dem(&f)}, {"linkage_name", f.getName()}, {"file", srcFile(&f)}, {"at", loc(iv)},
                    {"type", demangle(t)}, {"repo", rep}, {"path", std::move(path)}});
            }
        }
    }
    for(auto& [f, mp] : tf.thr) for(auto& [t, w] : mp) typesSeen[demangle(t)]++;
    json::Object ty; for(auto& [t, n] : typesSeen) ty[t] = (int64_t)n;
    json::Array un; for(auto* u : tf.unresolved) un.push_back(dem(u->getFunction()) + " @ " + loc(u));
    out["functions"] = (int64_t)fns; out["repo_functions"] = (int64_t)repoFns;
    out["calls"] = (int64_t)tf.calls; out["indirect_calls"] = (int64_t)tf.indirect;
    out["noexcept_call_sites"] = (int64_t)boundaries; out["throwing_functions_by_type"] = std::move(ty);
    out["unresolved_indirect"] = std::move(un); out["swallowed"] = std::move(swallowed); out["violations"] = std::move(viol);
    return 0;
}
static Reg reg("throw", cmdThrow);
} // namespace pap
