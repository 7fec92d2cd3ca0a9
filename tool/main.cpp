#include "papan_common.h"
using namespace pap;
std::map<std::string, CmdFn>& pap::commands() { static std::map<std::string, CmdFn> m; return m; }
int main(int argc, char** argv)
{
    if(argc < 3) { errs() << "usage: papan CMD module.bc [args]\n"; return 3; }
    auto it = commands().find(argv[1]);
    if(it == commands().end()) { errs() << "unknown command\n"; return 3; }
    LLVMContext ctx; auto m = loadModule(ctx, argv[2]);
    json::Object out;
    int rc = it->second(*m, out, std::vector<std::string>(argv + 3, argv + argc));
    outs() << formatv("{0:2}", json::Value(std::move(out))) << "\n";
    return rc;
}
