static json::Value termJson(AI& A, Term t)
{
    const Node& n = P[t];
    switch(n.k) {
    case Node::Const: return json::Array{"c", (int64_t)n.w, std::to_string(n.c)};
    case Node::Sym: return json::Array{"s", (int64_t)n.w, n.name};
    case Node::Lin: { json::Array s; for(auto& x : n.sl) s.push_back(json::Array{std::to_string(x.coef), termJson(A, x.atom), (int64_t)x.lo, (int64_t)x.len}); return json::Array{"l", (int64_t)n.w, std::to_string(n.c), std::move(s)}; }
    case Node::OpN: { json::Array a; for(auto q : n.args) a.push_back(termJson(A, q)); json::Array r{"o", (int64_t)n.w, (int64_t)n.op, (int64_t)n.sub, std::move(a)}; if(n.op == OpTable) { auto& tb = A.tables[n.sub]; json::Array v; for(auto q : tb.v) v.push_back(std::to_string(q)); r.push_back(json::Object{{"base", std::to_string(tb.base)}, {"stride", std::to_string(tb.stride)}, {"v", std::move(v)}}); } return r; }
    }
    return nullptr;
}
static json::Value valJson(AI& A, const State& s, const Val& v)
{
    if(v.k == Val::I) { json::Array a; VSet q = A.vs(s, v.t); for(auto& p : q.iv) a.push_back(json::Array{std::to_string(p.first), std::to_string(p.second)}); return json::Object{{"t", termJson(A, v.t)}, {"vs", std::move(a)}, {"str", P.str(v.t)}}; }
    if(v.k == Val::Ptr) return json::Object{{"ptr", objs[v.obj].name}, {"off", P.str(v.t)}};
    if(v.k == Val::U) return json::Object{{"undef", true}};
    return json::Object{{"agg", true}};
}
struct Job { Module* m; json::Object* out; const std::vector<std::string>* args; int rc; };
static void runRoots(Module& m, json::Object& out, json::Object& cfg)
{
    auto num = [&](const char* k, int64_t d) { auto v = cfg.getInteger(k); return v ? *v : d; };
    json::Array results;
    std::map<std::string, std::vector<std::pair<std::string, std::string>>> _;
    auto* roots = cfg.getArray("roots");
    std::vector<const Function*> rf;
    for(auto& f : m) if(!f.isDeclaration()) for(auto& r : *roots) { Regex re(*r.getAsString()); if(re.match(f.getName())) { rf.push_back(&f); break; } }
    std::sort(rf.begin(), rf.end(), [](auto* a, auto* b) { return a->getName() < b->getName(); });
    for(auto* f : rf) {
        AI A(m); objs.resize(1); objIdx.clear(); P = Pool();
        A.peel = num("peel", A.peel); A.K = num("K", A.K); A.cap = num("cap", A.cap); A.budget = num("budget", A.budget); A.maxDepth = num("depth", A.maxDepth);
        if(auto b = cfg.getBoolean("cleanups")) A.cleanups = *b;
        if(auto* rs = cfg.getArray("rules")) for(auto& r : *rs) { auto* a = r.getAsArray(); AI::Rule q; q.re = std::make_shared<Regex>(*(*a)[0].getAsString()); q.act = (*a)[1].getAsString()->str(); A.rules.push_back(q); }
        json::Object o{{"root", f->getName()}}; json::Array ocs; bool stop = false;
        auto t0 = std::chrono::steady_clock::now();
        try {
            State s; std::vector<Val> args; for(auto& a : f->args()) args.push_back(A.unknown(a.getType(), "arg"));
            auto rs = A.execFn(f, args, s, "0");
            for(auto& r : rs) {
                static const char* kn[] = {"ret", "throw", "trap", "unreachable", "terminate", "stop"};
                json::Object q{{"kind", kn[(int)r.kind]}, {"info", r.kind == OK::Throw && StringRef(r.info).starts_with("_ZTI") ? demangle(r.info) : r.info}, {"at", r.at}};
                json::Array cons; for(auto& [t, v] : *r.s.cons) { bool keep = P[t].k == Node::Sym ? P[t].name[0] != '$' : true; if(!keep) continue; json::Array a; for(auto& p : v.iv) a.push_back(json::Array{std::to_string(p.first), std::to_string(p.second)}); cons.push_back(json::Array{termJson(A, t), std::move(a), P.str(t)}); }
                q["cons"] = std::move(cons);
                json::Object outs; for(auto& [k, v] : r.s.outs) outs[k] = valJson(A, r.s, v); q["outs"] = std::move(outs);
                json::Array tr; std::vector<const TraceNode*> tn; for(auto t = r.s.trace; t; t = t->up) tn.push_back(t.get()); std::reverse(tn.begin(), tn.end());
                for(auto* t : tn) { if(!t->e.star.empty()) { tr.push_back(json::Object{{"star", t->e.star}}); continue; } json::Array a; for(auto& v : t->e.args) a.push_back(valJson(A, r.s, v)); tr.push_back(json::Object{{"ev", t->e.name}, {"args", std::move(a)}}); }
                q["trace"] = std::move(tr); q["ret"] = valJson(A, r.s, r.ret);
                ocs.push_back(std::move(q));
            }
        } catch(Stop&) { stop = true; }
        o["outcomes"] = std::move(ocs); o["budget_exceeded"] = stop; json::Array al; for(auto& a : A.alarmList) al.push_back(std::move(a)); o["alarms"] = std::move(al);
        json::Object op; for(auto& [k, n] : A.opaqueSeen) op[k] = n; o["opaque"] = std::move(op);
        size_t lib = 0; json::Array lf; for(auto* g : A.fnsSeen) if(inRepo(g)) { ++lib; lf.push_back(floc(g)); }
        o["lib_list"] = std::move(lf); o["steps"] = (int64_t)A.steps; o["states"] = (int64_t)A.statesSeen; o["joins"] = (int64_t)A.joins; o["functions"] = (int64_t)A.fnsSeen.size(); o["lib_functions"] = (int64_t)lib; o["blocks"] = (int64_t)A.blocksSeen.size(); o["mixed"] = (int64_t)A.mixed;
        o["ms"] = (int64_t)std::chrono::duration_cast<std::chrono::milliseconds>(std::chrono::steady_clock::now() - t0).count();
        results.push_back(std::move(o));
    }
    out["results"] = std::move(results);
}
static void* thr(void* p)
{
    Job* j = (Job*)p;
    auto mb = MemoryBuffer::getFile((*j->args)[0]); if(!mb) { j->rc = 3; return nullptr; }
    auto v = json::parse((*mb)->getBuffer()); if(!v) { errs() << "bad config\n"; j->rc = 3; return nullptr; }
    runRoots(*j->m, *j->out, *v->getAsObject()); j->rc = 0; return nullptr;
}
static int cmdAi(Module& m, json::Object& out, const std::vector<std::string>& args)
{
    Job j{&m, &out, &args, 3}; pthread_t t; pthread_attr_t a; pthread_attr_init(&a); pthread_attr_setstacksize(&a, (size_t)4 << 30); pthread_create(&t, &a, thr, &j); pthread_join(t, nullptr); return j.rc;
}
static Reg reg("ai", cmdAi);
