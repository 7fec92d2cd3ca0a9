#include "papan_common.h"
namespace pap {
const std::string& dem(const Function* f)
{
    static std::map<const Function*, std::string> cache;
    auto it = cache.find(f);
    if(it != cache.end()) return it->second;
    return cache[f] = demangle(f->getName().str());
}
static std::string shortFile(StringRef dir, StringRef file)
{
    std::string p = file.str();
    if(!file.starts_with("/") && !dir.empty()) p = dir.str() + "/" + p;
    // normalise a/../b
    std::vector<std::string> parts; std::string cur;
    for(char c : p + "/") {
        if(c == '/') { if(cur == "..") { if(!parts.empty()) parts.pop_back(); } else if(!cur.empty() && cur != ".") parts.push_back(cur); cur.clear(); }
        else cur += c;
    }
    std::string r; for(auto& s : parts) r += "/" + s;
    return r;
}
std::string loc(const Instruction* i)
{
    if(auto dl = i->getDebugLoc())
        return shortFile(dl->getDirectory(), dl->getFilename()) + ":" + std::to_string(dl.getLine());
    return floc(i->getFunction());
}
std::string srcFile(const Function* f)
{
    if(auto* sp = f->getSubprogram()) return shortFile(sp->getDirectory(), sp->getFilename());
    return "";
}
std::string floc(const Function* f)
{
    if(auto* sp = f->getSubprogram()) return srcFile(f) + ":" + std::to_string(sp->getLine());
    return "?";
}
bool inRepo(const Function* f)
{
    const char* r = getenv("PAP_REPO");
    std::string root = r ? r : "/repo";
    return StringRef(srcFile(f)).starts_with(root + "/");
}
std::unique_ptr<Module> loadModule(LLVMContext& ctx, const std::string& path)
{
    SMDiagnostic err;
    auto m = parseIRFile(path, err, ctx);
    if(!m) { err.print("papan", errs()); exit(3); }
    return m;
}

CallResolver::CallResolver(Module& m) : M(m)
{
    for(auto& g : m.globals()) {
        SmallVector<MDNode*, 8> types;
        g.getMetadata(LLVMContext::MD_type, types);
        for(auto* n : types) {
            auto* off = mdconst::extract<ConstantInt>(n->getOperand(0));
            if(auto* s = dyn_cast<MDString>(n->getOperand(1)))
                vt[s->getString().str()].push_back({&g, off->getZExtValue()});
        }
    }
}
Function* CallResolver::vtableSlot(GlobalVariable* g, uint64_t off) const
{
    if(!g->hasInitializer()) return nullptr;
    const DataLayout& dl = M.getDataLayout();
    Constant* c = g->getInitializer();
    while(c) {
        if(auto* st = dyn_cast<ConstantStruct>(c)) {
            auto* sl = dl.getStructLayout(st->getType());
            if(off >= sl->getSizeInBytes()) return nullptr;
            unsigned i = sl->getElementContainingOffset(off);
            off -= sl->getElementOffset(i);
            c = st->getOperand(i);
        } else if(auto* ar = dyn_cast<ConstantArray>(c)) {
            uint64_t es = dl.getTypeAllocSize(ar->getType()->getElementType());
            if(off / es >= ar->getNumOperands()) return nullptr;
            c = ar->getOperand(off / es); off %= es;
        } else break;
    }
    if(!c || off) return nullptr;
    return dyn_cast<Function>(c->stripPointerCasts());
}
static void funcsIn(const Constant* c, std::set<Function*>& out, std::set<const Constant*>& seen)
{
    if(!seen.insert(c).second) return;
    if(auto* f = dyn_cast<Function>(c)) { out.insert(const_cast<Function*>(f)); return; }
    if(auto* g = dyn_cast<GlobalVariable>(c)) {
        if(g->isConstant() && g->hasInitializer()) funcsIn(g->getInitializer(), out, seen);
        return;
    }
    for(auto& op : c->operands()) if(auto* k = dyn_cast<Constant>(op)) funcsIn(k, out, seen);
}
std::vector<Function*> CallResolver::targets(const CallBase& cb, bool& resolved) const
{
    resolved = true;
    std::vector<Function*> r;
    if(auto* f = dyn_cast<Function>(cb.getCalledOperand()->stripPointerCasts())) { r.push_back(f); return r; }
    if(isa<InlineAsm>(cb.getCalledOperand())) return r;
    // virtual call:  fn = load (gep vtable, off);  llvm.type.test(vtable, !id)
    if(auto* ld = dyn_cast<LoadInst>(cb.getCalledOperand())) {
        const Value* p = ld->getPointerOperand();
        APInt off(64, 0);
        const Value* base = p->stripAndAccumulateConstantOffsets(M.getDataLayout(), off, true);
        std::set<std::string> ids;
        for(auto* u : base->users())
            if(auto* ci = dyn_cast<CallInst>(u))
                if(auto* cf = ci->getCalledFunction(); cf && cf->getName().starts_with("llvm.") && cf->getName().contains("type.test"))
                    if(auto* mv = dyn_cast<MetadataAsValue>(ci->getArgOperand(1)))
                        if(auto* s = dyn_cast<MDString>(mv->getMetadata())) ids.insert(s->getString().str());
        if(!ids.empty()) {
            for(auto& id : ids) {
                auto it = vt.find(id);
                if(it == vt.end()) continue;
                for(auto& [g, ap] : it->second)
                    if(auto* f = vtableSlot(g, ap + off.getZExtValue())) {
                        if(f->getName() != "__cxa_pure_virtual") r.push_back(f);
                    }
            }
            std::sort(r.begin(), r.end()); r.erase(std::unique(r.begin(), r.end()), r.end());
            if(!r.empty()) return r;
        }
    }
    // function pointer taken from constant tables referenced in the enclosing function (visit tables)
    std::set<Function*> fs; std::set<const Constant*> seen;
    for(auto& bb : *cb.getFunction()) for(auto& in : bb) for(auto& op : in.operands()) {
        auto* k = dyn_cast<Constant>(op);
        if(!k) continue;
        if(isa<Function>(k)) {
            if(auto* c2 = dyn_cast<CallBase>(&in)) if(c2->isCallee(&op)) continue;
        }
        if(isa<GlobalVariable>(k) || isa<ConstantExpr>(k) || isa<Function>(k)) funcsIn(k, fs, seen);
    }
    for(auto* f : fs) if(f->getFunctionType() == cb.getFunctionType()) r.push_back(f);
    if(r.empty()) resolved = false;
    return r;
}

// --- exception class hierarchy -------------------------------------------------
static const std::map<std::string, std::string>& stdBases()
{
    static const std::map<std::string, std::string> b = {
        {"_ZTISt13runtime_error", "_ZTISt9exception"}, {"_ZTISt11logic_error", "_ZTISt9exception"},
        {"_ZTISt12out_of_range", "_ZTISt11logic_error"}, {"_ZTISt12length_error", "_ZTISt11logic_error"},
        {"_ZTISt16invalid_argument", "_ZTISt11logic_error"}, {"_ZTISt12domain_error", "_ZTISt11logic_error"},
        {"_ZTISt11range_error", "_ZTISt13runtime_error"}, {"_ZTISt14overflow_error", "_ZTISt13runtime_error"},
        {"_ZTISt12system_error", "_ZTISt13runtime_error"}, {"_ZTISt9bad_alloc", "_ZTISt9exception"},
        {"_ZTISt8bad_cast", "_ZTISt9exception"}, {"_ZTISt18bad_variant_access", "_ZTISt9exception"},
        {"_ZTISt19bad_optional_access", "_ZTISt9exception"}, {"_ZTISt17bad_function_call", "_ZTISt9exception"},
    };
    return b;
}
bool ExcTypes::derives(Module& m, const std::string& t, const std::string& c)
{
    if(t == c) return true;
    auto it = stdBases().find(t);
    if(it != stdBases().end() && derives(m, it->second, c)) return true;
    if(auto* g = m.getGlobalVariable(t, true); g && g->hasInitializer())
        if(auto* st = dyn_cast<ConstantStruct>(g->getInitializer()))
            for(unsigned i = 2; i < st->getNumOperands(); ++i)
                if(auto* b = dyn_cast<GlobalVariable>(st->getOperand(i)->stripPointerCasts()))
                    if(derives(m, b->getName().str(), c)) return true;
    return false;
}
} // namespace pap
