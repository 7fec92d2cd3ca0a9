// Hidden state: writes to variables with static or thread storage duration outside of their initialization,
// and calls of functions that keep state in the C or C++ library.
#include "papan_common.h"
#include <llvm/BinaryFormat/Dwarf.h>
namespace pap {
namespace {
struct SH {
    Module& M; CallResolver R;
    std::map<std::pair<const Function*, unsigned>, int> memo; // 0 no, 1 writes, 2 returns a derived pointer, 3 both
    std::map<std::pair<const Function*, unsigned>, std::string> why;
    size_t uses = 0, params = 0;
    SH(Module& m) : M(m), R(m) {}
    static bool constMember(StringRef n) { return n.starts_with("_ZNK"); }
    struct Hit { const Instruction* at; std::string what; };
    static bool initFn(const Function* f) { auto n = f->getName(); return n.starts_with("__cxx_global_var_init") || n.starts_with("_GLOBAL__sub_I_") || n.starts_with("__cxx_global_array_dtor"); }

    // follows the pointers derived from `root` in f (root: a parameter, a global or an instruction); ret: a derived pointer is returned
    void follow(const Function& f, const Value* root, std::vector<Hit>& hits, bool& ret, const std::function<bool(const Instruction*)>& exempt)
    {
        std::set<const Value*> der; std::deque<const Value*> work; std::set<const Value*> slots;
        auto add = [&](const Value* v) { if(der.insert(v).second) work.push_back(v); };
        if(isa<GlobalVariable>(root)) {
            std::function<void(const Value*)> users = [&](const Value* v) { for(auto* u : v->users()) { if(auto* i = dyn_cast<Instruction>(u)) { if(i->getFunction() == &f) add(v); } else if(isa<ConstantExpr>(u)) users(u); } };
            users(root);
        } else add(root);
        while(!work.empty()) {
            const Value* v = work.front(); work.pop_front();
            for(auto* u : v->users()) {
                auto* i = dyn_cast<Instruction>(u); if(!i || i->getFunction() != &f) continue;
                if(exempt(i)) continue;
                if(isa<GetElementPtrInst>(i) || isa<BitCastInst>(i) || isa<PHINode>(i) || isa<SelectInst>(i) || isa<AddrSpaceCastInst>(i)) { add(i); continue; }
                if(auto* s = dyn_cast<StoreInst>(i)) {
                    if(s->getPointerOperand() == v) { hits.push_back({i, "is stored to"}); continue; }
                    if(auto* a = dyn_cast<AllocaInst>(s->getPointerOperand())) if(slots.insert(a).second) for(auto* w : a->users()) if(auto* l = dyn_cast<LoadInst>(w)) add(l);
                    continue;
                }
                if(isa<AtomicRMWInst>(i) || isa<AtomicCmpXchgInst>(i)) { if(i->getOperand(0) == v) hits.push_back({i, "is modified"}); continue; }
                if(auto* r = dyn_cast<ReturnInst>(i)) { (void)r; ret = true; continue; }
                if(auto* m = dyn_cast<AnyMemIntrinsic>(i)) { if(m->getRawDest() == v) hits.push_back({i, "is overwritten"}); continue; }
                if(auto* cb = dyn_cast<CallBase>(i)) {
                    if(isa<IntrinsicInst>(i)) continue;
                    for(unsigned k = 0; k < cb->arg_size(); ++k) {
                        if(cb->getArgOperand(k) != v) continue;
                        bool ok; auto ts = R.targets(*cb, ok);
                        for(auto* t : ts) {
                            int e = effect(t, k, *cb);
                            if(e & 1) { hits.push_back({i, "is modified by " + dem(t).substr(0, 160) + (why.count({t, k}) ? " (" + why[{t, k}] + ")" : "")}); }
                            if((e & 2) && cb->getType()->isPointerTy()) add(i);
                        }
                    }
                }
            }
        }
    }
    int effect(const Function* t, unsigned k, const CallBase&)
    {
        auto key = std::make_pair(t, k);
        auto it = memo.find(key); if(it != memo.end()) return it->second;
        memo[key] = 0;
        if(t->isDeclaration()) {
            auto n = t->getName(); int r = 0;
            bool ro = k < t->arg_size() && (t->getArg(k)->onlyReadsMemory() || t->hasParamAttribute(k, Attribute::ReadNone));
            // member functions of standard classes that are instantiated in the library: `this` is written unless they are const
            if(!ro && k == 0 && (n.starts_with("_ZNSt") || n.starts_with("_ZNSs")) && !constMember(n)) { auto d = demangle(n.str()); if(d.find("::~") == std::string::npos && d.find("::begin()") == std::string::npos && d.find("::end()") == std::string::npos && d.find("::data()") == std::string::npos && d.find("::operator[]") == std::string::npos && d.find("::at(") == std::string::npos && staticMember(d) == false) r = 1; }
            static const std::set<std::string> wr = {"memcpy", "memmove", "memset", "strcpy", "strncpy", "strcat", "sprintf", "snprintf", "vsnprintf", "strftime", "gmtime_r", "localtime_r", "wmemcpy", "wmemset"};
            if(k == 0 && wr.count(n.str())) r = 1;
            if(n.starts_with("_ZSt29_Rb_tree_insert_and_rebalance") || n.starts_with("_ZSt28_Rb_tree_rebalance_for_erase")) r = k > 0;
            return memo[key] = r;
        }
        if(k == 0 && t->getName().starts_with("_ZNSt") && !constMember(t->getName())) { // standard containers: by their interface
            std::string d = dem(t); StringRef cls(d);
            static const std::set<std::string> mut = {"insert", "emplace", "try_emplace", "insert_or_assign", "erase", "clear", "swap", "merge", "extract", "push_back", "emplace_back", "pop_back", "push_front", "pop_front", "emplace_front", "resize", "assign", "append", "reset", "emplace_hint"};
            size_t p = std::string::npos; int depth = 0;
            for(size_t i = 0; i < d.size(); ++i) { if(d[i] == '<') ++depth; else if(d[i] == '>') --depth; else if(d[i] == '(' && !depth) { p = i; break; } }
            if(p != std::string::npos) {
                size_t e = p, b = p; int dp = 0; // the last name before the parameters
                if(e && d[e - 1] == '>') { while(b) { --b; if(d[b] == '>') ++dp; if(d[b] == '<' && !--dp) break; } e = b; }
                b = e; while(b && (isalnum((unsigned char)d[b - 1]) || d[b - 1] == '_')) --b;
                std::string nm = d.substr(b, e - b);
                if(mut.count(nm)) return memo[key] = 1;
            }
            if((cls.contains("std::map<") || cls.contains("std::unordered_map<")) && cls.contains("::operator[](")) return memo[key] = 1;
        }
        ++params;
        if(k >= t->arg_size()) return 0;
        std::vector<Hit> h; bool ret = false;
        follow(*t, t->getArg(k), h, ret, [](const Instruction*) { return false; });
        if(!h.empty()) why[key] = loc(h[0].at);
        return memo[key] = (h.empty() ? 0 : 1) | (ret ? 2 : 0);
    }
    static bool staticMember(const std::string& d)
    {   // functions whose first parameter is not an object of the class (a static member or a free function)
        return d.find("char_traits") < d.find("(") && d.find("basic_string") == std::string::npos;
    }
};
std::string gfile(const GlobalVariable& g, std::string& where, bool& isConst, std::string& name)
{
    SmallVector<DIGlobalVariableExpression*, 2> d; g.getDebugInfo(d);
    for(auto* e : d) { auto* v = e->getVariable(); if(!v || !v->getFile()) continue;
        std::string p = v->getFilename().str(); if(!StringRef(p).starts_with("/")) p = v->getDirectory().str() + "/" + p;
        where = p + ":" + std::to_string(v->getLine()); name = v->getName().str();
        const DIType* t = v->getType(); isConst = false;
        while(auto* dt = dyn_cast_or_null<DIDerivedType>(t)) { if(dt->getTag() == dwarf::DW_TAG_const_type) { isConst = true; break; } if(dt->getTag() == dwarf::DW_TAG_typedef || dt->getTag() == dwarf::DW_TAG_volatile_type) { t = dt->getBaseType(); continue; } break; }
        return p; }
    return "";
}
} // namespace

static int cmdShared(Module& m, json::Object& out, const std::vector<std::string>&)
{
    SH S(m);
    const char* r = getenv("PAP_REPO"); std::string root = std::string(r ? r : "/repo") + "/";
    json::Array vars, viol, calls; size_t nv = 0, nconst = 0, ninit = 0, fns = 0, ncalls = 0;
    for(auto& g : m.globals()) {
        if(g.isDeclaration()) continue;
        std::string where, name; bool cst = false; std::string f = gfile(g, where, cst, name);
        if(!StringRef(f).starts_with(root)) continue;
        ++nv; if(g.isConstant()) { ++nconst; continue; }
        // its guard
        std::string gn = "_ZGV" + g.getName().drop_front(2).str(); // _ZZ.. -> _ZGVZ..
        GlobalVariable* guard = g.getName().starts_with("_Z") ? m.getNamedGlobal(gn) : nullptr;
        std::set<const Function*> users; std::function<void(const Value*)> col = [&](const Value* v) { for(auto* u : v->users()) { if(auto* i = dyn_cast<Instruction>(u)) users.insert(i->getFunction()); else if(isa<ConstantExpr>(u)) col(u); } };
        col(&g);
        json::Array us; for(auto* fn : users) us.push_back(dem(fn).substr(0, 200));
        vars.push_back(json::Object{{"name", name}, {"at", where}, {"const", cst}, {"thread_local", g.isThreadLocal()}, {"users", std::move(us)}});
        if(g.isThreadLocal()) { // accessed through llvm.threadlocal.address
        }
        for(auto* fn : users) {
            if(SH::initFn(fn)) { ++ninit; continue; }
            DominatorTree dt(*const_cast<Function*>(fn));
            std::vector<const BasicBlock*> init; // blocks that run once, under the guard
            for(auto& bb : *fn) for(auto& in : bb) {
                auto* cb = dyn_cast<CallBase>(&in); if(!cb || !cb->getCalledFunction()) continue;
                if(cb->getCalledFunction()->getName() == "__cxa_guard_acquire" && (!guard || cb->getArgOperand(0)->stripPointerCasts() == guard)) {
                    auto* br = dyn_cast<BranchInst>(bb.getTerminator()); if(br && br->isConditional()) init.push_back(br->getSuccessor(0));
                }
            }
            if(g.isThreadLocal()) { // guarded by a plain flag
                for(auto& bb : *fn) if(auto* br = dyn_cast<BranchInst>(bb.getTerminator())) if(br->isConditional()) for(auto& in : *br->getSuccessor(0)) if(auto* s = dyn_cast<StoreInst>(&in)) if(auto* gv = dyn_cast<GlobalVariable>(s->getPointerOperand()->stripPointerCasts())) if(gv->getName().starts_with("_ZGV")) init.push_back(br->getSuccessor(0));
            }
            auto ex = [&](const Instruction* i) { for(auto* b : init) if(dt.dominates(b, i->getParent())) return true; return false; };
            std::vector<SH::Hit> h; bool ret = false; ++S.uses;
            S.follow(*fn, &g, h, ret, ex);
            // thread-local variables and references that are returned
            if(g.isThreadLocal()) for(auto& bb : *fn) for(auto& in : bb) if(auto* ii = dyn_cast<IntrinsicInst>(&in)) if(ii->getIntrinsicID() == Intrinsic::threadlocal_address && ii->getArgOperand(0) == &g) S.follow(*fn, ii, h, ret, ex);
            if(ret) for(auto* u : fn->users()) if(auto* cb = dyn_cast<CallBase>(u)) if(cb->getCalledFunction() == fn && !SH::initFn(cb->getFunction())) { bool r2 = false; S.follow(*cb->getFunction(), cb, h, r2, [](const Instruction*) { return false; }); }
            std::set<std::string> seen;
            for(auto& x : h) if(seen.insert(x.what + loc(x.at)).second) viol.push_back(json::Object{{"variable", name}, {"declared", where}, {"thread_local", g.isThreadLocal()}, {"at", loc(x.at)}, {"function", dem(x.at->getFunction()).substr(0, 300)}, {"what", x.what}});
        }
    }
    static const std::set<std::string> bad = {"localtime", "gmtime", "asctime", "ctime", "strtok", "setlocale", "rand", "srand", "strerror", "tmpnam", "setenv", "putenv", "unsetenv", "chdir", "umask", "signal", "tzset", "mblen", "mbtowc", "wctomb", "mbrlen",
        "_ZNSt6locale6globalERKS_", "_ZNSt8ios_base15sync_with_stdioEb", "setvbuf", "setbuf", "setlinebuf", "drand48", "lrand48", "getservbyname", "ttyname", "nl_langinfo", "localeconv", "_ZSt13set_terminatePFvvE", "_ZSt14set_unexpectedPFvvE"};
    for(auto& f : m) {
        if(f.isDeclaration()) continue;
        ++fns; bool rep = inRepo(&f); if(!rep) continue;
        for(auto& bb : f) for(auto& in : bb) if(auto* cb = dyn_cast<CallBase>(&in)) {
            ++ncalls; auto* t = cb->getCalledFunction(); if(!t) continue;
            if(bad.count(t->getName().str())) calls.push_back(json::Object{{"callee", demangle(t->getName().str())}, {"function", dem(&f).substr(0, 300)}, {"at", loc(cb)}});
        }
    }
    out["variables"] = (int64_t)nv; out["constant"] = (int64_t)nconst; out["not_constant"] = std::move(vars); out["initializers"] = (int64_t)ninit; out["uses"] = (int64_t)S.uses; out["parameters_followed"] = (int64_t)S.params;
    out["functions"] = (int64_t)fns; out["call_sites"] = (int64_t)ncalls; out["writes"] = std::move(viol); out["stateful_calls"] = std::move(calls);
    return 0;
}
static Reg reg("shared", cmdShared);
} // namespace pap
