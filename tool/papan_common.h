// Shared helpers for the IR analyses.
#pragma once
#include <llvm/IR/LLVMContext.h>
#include <llvm/IR/Module.h>
#include <llvm/IR/Function.h>
#include <llvm/IR/Instructions.h>
#include <llvm/IR/IntrinsicInst.h>
#include <llvm/IR/Constants.h>
#include <llvm/IR/Operator.h>
#include <llvm/IR/CFG.h>
#include <llvm/IR/DebugInfoMetadata.h>
#include <llvm/IR/Dominators.h>
#include <llvm/IRReader/IRReader.h>
#include <llvm/Support/SourceMgr.h>
#include <llvm/Support/raw_ostream.h>
#include <llvm/Demangle/Demangle.h>
#include <llvm/Support/JSON.h>
#include <map>
#include <set>
#include <string>
#include <vector>
#include <deque>
#include <memory>
#include <functional>
#include <algorithm>

namespace pap {
using namespace llvm;

const std::string& dem(const Function* f);            // demangled name (cached)
std::string loc(const Instruction* i);                // file:line of the innermost location
std::string floc(const Function* f);                  // file:line of the function
std::string srcFile(const Function* f);
bool inRepo(const Function* f);                       // defined in papilio sources
std::unique_ptr<Module> loadModule(LLVMContext& ctx, const std::string& path);

// Resolution of indirect calls.
struct CallResolver {
    explicit CallResolver(Module& m);
    // targets of a call; `resolved` false if some target may be missing
    std::vector<Function*> targets(const CallBase& cb, bool& resolved) const;
private:
    Module& M;
    // type id -> (vtable global, offset of address point)
    std::map<std::string, std::vector<std::pair<GlobalVariable*, uint64_t>>> vt;
    Function* vtableSlot(GlobalVariable* g, uint64_t off) const;
};

struct ExcTypes {
    // does catching `c` catch thrown type `t` (typeinfo symbol names)?
    static bool derives(Module& m, const std::string& t, const std::string& c);
};

using CmdFn = int (*)(Module&, json::Object&, const std::vector<std::string>&);
std::map<std::string, CmdFn>& commands();
struct Reg { Reg(const char* n, CmdFn f) { commands()[n] = f; } };
} // namespace pap
