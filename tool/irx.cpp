// irx: reads LLVM bitcode (clang -O0 -g of a driver that instantiates mdds),
// brings every function into SSA form, inlines callees bottom-up except those
// a rule set wants to see as events ("kept" calls), and writes the resulting
// control-flow graphs as JSON for the rules in /verif/rules.
//
// It never executes anything of the analysed program.
#include <llvm/ADT/SCCIterator.h>
#include <llvm/Analysis/CallGraph.h>
#include <llvm/BinaryFormat/Dwarf.h>
#include <llvm/Demangle/Demangle.h>
#include <llvm/IR/CFG.h>
#include <llvm/IR/Constants.h>
#include <llvm/IR/DebugInfo.h>
#include <llvm/IR/DebugInfoMetadata.h>
#include <llvm/IR/GetElementPtrTypeIterator.h>
#include <llvm/IR/InstIterator.h>
#include <llvm/IR/Instructions.h>
#include <llvm/IR/IntrinsicInst.h>
#include <llvm/IR/LLVMContext.h>
#include <llvm/IR/Module.h>
#include <llvm/IR/Operator.h>
#include <llvm/IR/PassManager.h>
#include <llvm/IRReader/IRReader.h>
#include <llvm/Passes/PassBuilder.h>
#include <llvm/Support/SourceMgr.h>
#include <llvm/Support/raw_ostream.h>
#include <llvm/Transforms/Scalar/SROA.h>
#include <llvm/Transforms/Scalar/InstSimplifyPass.h>
#include <llvm/Transforms/Scalar/ADCE.h>
#include <llvm/Transforms/Scalar/EarlyCSE.h>
#include <llvm/Transforms/Utils/BasicBlockUtils.h>
#include <llvm/Transforms/Utils/Cloning.h>
#include <llvm/Transforms/Utils/Local.h>

#include <cctype>
#include <fstream>
#include <map>
#include <regex>
#include <set>
#include <sstream>
#include <string>
#include <vector>

using namespace llvm;

static std::string demangled(const Function& f)
{
    std::string d = llvm::demangle(f.getName().str());
    // a trailing requires-clause is no part of the name
    size_t q = d.rfind(" requires ");
    return q == std::string::npos ? d : d.substr(0, q);
}

// Strip template argument lists, parameter lists and the return type:
// "R a::b<c>::f<d>(e) const" -> "a::b::f"
static std::string short_name(const std::string& full)
{
    std::string s;
    int ang = 0, par = 0;
    auto ends = [&](const char* t) {
        size_t n = strlen(t);
        return s.size() >= n && s.compare(s.size() - n, n, t) == 0;
    };
    for (size_t i = 0; i < full.size(); ++i)
    {
        char c = full[i];
        if (ang == 0 && par == 0 && ends("operator"))
        {
            // operator tokens that contain brackets
            static const char* ops[] = {"<<=", ">>=", "<=>", "->*", "<<", ">>", "<=", ">=", "->", "()", "[]", "<", ">"};
            bool hit = false;
            for (const char* o : ops)
            {
                size_t n = strlen(o);
                if (full.compare(i, n, o) == 0)
                {
                    s += o;
                    i += n - 1;
                    hit = true;
                    break;
                }
            }
            if (hit)
                continue;
        }
        if (c == '<' && par == 0)
        {
            ++ang;
            continue;
        }
        if (c == '>' && par == 0 && ang)
        {
            --ang;
            continue;
        }
        if (ang)
        {
            // skip template args (parens inside are skipped as well)
            continue;
        }
        if (c == '(')
        {
            // "(anonymous namespace)" stays
            if (par == 0 && full.compare(i, 21, "(anonymous namespace)") == 0)
            {
                s += "anon";
                i += 20;
                continue;
            }
            if (par == 0 && full.compare(i, 2, "()") == 0 && full.compare(i, 4, "()::") == 0)
            {
                i += 1;
                continue;
            }
            ++par;
            continue;
        }
        if (c == ')')
        {
            --par;
            continue;
        }
        if (par)
            continue;
        s += c;
    }
    for (const char* q : {" const", " &", " &&", "[abi:cxx11]"})
    {
        size_t p;
        while ((p = s.find(q)) != std::string::npos && s.find("operator") == std::string::npos)
            s.erase(p, strlen(q));
    }
    // return type: keep what follows the last blank that is not part of "operator X"
    size_t op = s.find("operator");
    size_t lim = op == std::string::npos ? s.size() : op;
    size_t sp = s.rfind(' ', lim ? lim - 1 : 0);
    if (sp != std::string::npos && sp < lim)
        s = s.substr(sp + 1);
    while (!s.empty() && s.back() == ' ')
        s.pop_back();
    if (s.size() > 6 && s.compare(s.size() - 6, 6, " const") == 0)
        s = s.substr(0, s.size() - 6);
    return s;
}

static std::string jstr(StringRef s)
{
    std::string o = "\"";
    for (unsigned char c : s)
    {
        if (c == '"' || c == '\\')
        {
            o += '\\';
            o += c;
        }
        else if (c < 0x20)
        {
            char b[8];
            snprintf(b, sizeof b, "\\u%04x", c);
            o += b;
        }
        else
            o += c;
    }
    return o + "\"";
}

struct Opts
{
    std::vector<std::regex> keep, drop, entry, inl;
    unsigned std_max = 60;
    unsigned max_size = 60000;
    bool cse = false;
};

static bool any(const std::vector<std::regex>& v, const std::string& s)
{
    for (auto& r : v)
        if (std::regex_search(s, r))
            return true;
    return false;
}

static std::map<const Function*, std::string> g_short;

static const std::string& sn(const Function* f)
{
    auto it = g_short.find(f);
    if (it == g_short.end())
        it = g_short.emplace(f, short_name(demangled(*f))).first;
    return it->second;
}

static bool is_mdds(const Function* f)
{
    return sn(f).compare(0, 6, "mdds::") == 0;
}

static bool is_driver(const Function* f)
{
    const std::string& s = sn(f);
    return s.compare(0, 4, "drv_") == 0 || s.compare(0, 5, "drv::") == 0;
}

static void cleanup(Function& F)
{
    bool ch = true;
    int rounds = 0;
    while (ch && rounds++ < 10)
    {
        ch = false;
        for (BasicBlock& b : make_early_inc_range(F))
            ch |= ConstantFoldTerminator(&b, true);
        ch |= removeUnreachableBlocks(F);
        for (BasicBlock& b : make_early_inc_range(F))
        {
            if (&b == &F.getEntryBlock())
                continue;
            ch |= MergeBlockIntoPredecessor(&b);
        }
    }
}

int main(int argc, char** argv)
{
    if (argc < 4)
    {
        errs() << "usage: irx in.bc out.json config\n";
        return 2;
    }
    Opts o;
    {
        std::ifstream f(argv[3]);
        std::string line;
        while (std::getline(f, line))
        {
            if (line.empty() || line[0] == '#')
                continue;
            size_t sp = line.find(' ');
            std::string k = line.substr(0, sp), v = sp == std::string::npos ? "" : line.substr(sp + 1);
            if (k == "keep")
                o.keep.emplace_back(v);
            else if (k == "inline")
                o.inl.emplace_back(v);
            else if (k == "entry")
                o.entry.emplace_back(v);
            else if (k == "std_max")
                o.std_max = std::stoul(v);
            else if (k == "max_size")
                o.max_size = std::stoul(v);
            else if (k == "cse")
                o.cse = true;
            else
            {
                errs() << "irx: bad config line " << line << "\n";
                return 2;
            }
        }
    }
    LLVMContext ctx;
    SMDiagnostic err;
    auto M = parseIRFile(argv[1], err, ctx);
    if (!M)
    {
        err.print("irx", errs());
        return 2;
    }

    PassBuilder PB;
    LoopAnalysisManager LAM;
    FunctionAnalysisManager FAM;
    CGSCCAnalysisManager CGAM;
    ModuleAnalysisManager MAM;
    PB.registerModuleAnalyses(MAM);
    PB.registerCGSCCAnalyses(CGAM);
    PB.registerFunctionAnalyses(FAM);
    PB.registerLoopAnalyses(LAM);
    PB.crossRegisterProxies(LAM, FAM, CGAM, MAM);

    FunctionPassManager FPM;
    FPM.addPass(SROAPass(SROAOptions::PreserveCFG));
    FPM.addPass(InstSimplifyPass());
    if (o.cse)
        FPM.addPass(EarlyCSEPass(true));
    FPM.addPass(InstSimplifyPass());
    FPM.addPass(ADCEPass());

    auto simplify = [&](Function& F) {
        FAM.invalidate(F, PreservedAnalyses::none());
        FPM.run(F, FAM);
        cleanup(F);
        FAM.invalidate(F, PreservedAnalyses::none());
        FPM.run(F, FAM);
        cleanup(F);
        FAM.invalidate(F, PreservedAnalyses::none());
    };

    for (Function& F : *M)
    {
        if (F.isDeclaration())
            continue;
        F.removeFnAttr(Attribute::NoInline);
        F.removeFnAttr(Attribute::OptimizeNone);
        simplify(F);
    }

    // bottom-up over the call graph
    std::vector<std::vector<Function*>> sccs;
    {
        CallGraph CG(*M);
        for (auto it = scc_begin(&CG); !it.isAtEnd(); ++it)
        {
            std::vector<Function*> v;
            for (CallGraphNode* n : *it)
                if (Function* f = n->getFunction())
                    v.push_back(f);
            sccs.push_back(v);
        }
    }
    std::map<Function*, int> sccid;
    for (size_t i = 0; i < sccs.size(); ++i)
        for (Function* f : sccs[i])
            sccid[f] = i;
    std::set<Function*> calls_mdds; // std functions that (transitively) reach mdds code
    std::set<Function*> recursive;
    std::map<std::string, int> not_inlined;
    for (auto& scc : sccs)
    {
        for (Function* F : scc)
        {
            if (F->isDeclaration())
                continue;
            for (Instruction& I : instructions(*F))
                if (auto* cb = dyn_cast<CallBase>(&I))
                    if (Function* c = cb->getCalledFunction())
                    {
                        if (is_mdds(c) || calls_mdds.count(c))
                            calls_mdds.insert(F);
                        if (sccid[c] == sccid[F] && !c->isDeclaration())
                            recursive.insert(F);
                    }
            bool again = true;
            int guard = 0;
            while (again && guard++ < 4)
            {
                again = false;
                std::vector<CallBase*> todo;
                for (Instruction& I : instructions(*F))
                {
                    auto* cb = dyn_cast<CallBase>(&I);
                    if (!cb)
                        continue;
                    Function* c = cb->getCalledFunction();
                    if (!c || c->isDeclaration() || c->isIntrinsic())
                        continue;
                    if (sccid[c] == sccid[F] || recursive.count(c))
                        continue;
                    const std::string& s = sn(c);
                    if (!any(o.inl, s))
                    {
                        if (any(o.keep, s))
                            continue;
                        if (!is_mdds(c) && !is_driver(c))
                        {
                            if (c->getInstructionCount() > o.std_max && !calls_mdds.count(c))
                                continue;
                        }
                    }
                    if (F->getInstructionCount() + c->getInstructionCount() > o.max_size)
                    {
                        not_inlined[sn(F) + " <- " + s]++;
                        continue;
                    }
                    todo.push_back(cb);
                }
                for (CallBase* cb : todo)
                {
                    InlineFunctionInfo ifi;
                    if (InlineFunction(*cb, ifi).isSuccess())
                        again = true;
                }
                if (again)
                {
                    simplify(*F);
                    again = true;
                }
            }
        }
    }

    // ---- output -------------------------------------------------------------
    std::ofstream out(argv[2]);
    std::map<const DIType*, int> tid;
    std::vector<const DIType*> tlist;
    auto type_id = [&](const DIType* t) -> int {
        if (!t)
            return -1;
        auto it = tid.find(t);
        if (it != tid.end())
            return it->second;
        int id = tlist.size();
        tid[t] = id;
        tlist.push_back(t);
        return id;
    };
    std::map<std::string, int> fid;
    std::vector<std::string> fjson;
    auto func_id = [&](const Function* f) -> int {
        std::string k = f->getName().str();
        auto it = fid.find(k);
        if (it != fid.end())
            return it->second;
        int id = fjson.size();
        fid[k] = id;
        std::string s = "[" + jstr(k) + "," + jstr(demangled(*f)) + "," + jstr(sn(f)) + "," +
                        (f->isDeclaration() ? "0" : "1") + "," + (f->doesNotReturn() ? "1" : "0") + "," +
                        (f->doesNotThrow() ? "1" : "0") + "]";
        fjson.push_back(s);
        return id;
    };
    std::map<std::string, int> fileid;
    std::vector<std::string> files;
    auto file_id = [&](const DIFile* f) -> int {
        std::string n = f ? (f->getFilename().str()) : "?";
        if (f && !n.empty() && n[0] != '/')
            n = f->getDirectory().str() + "/" + n;
        auto it = fileid.find(n);
        if (it != fileid.end())
            return it->second;
        int id = files.size();
        fileid[n] = id;
        files.push_back(n);
        return id;
    };
    std::map<const DISubprogram*, int> spid;
    std::vector<std::string> spnames;
    auto sp_id = [&](const DISubprogram* s) -> int {
        auto it = spid.find(s);
        if (it != spid.end())
            return it->second;
        int id = spnames.size();
        spid[s] = id;
        StringRef ln = s->getLinkageName();
        spnames.push_back(ln.empty() ? s->getName().str() : short_name(llvm::demangle(ln.str())));
        return id;
    };

    out << "{\"functions\":[\n";
    bool firstf = true;
    for (Function& F : *M)
    {
        if (F.isDeclaration())
            continue;
        const std::string& s = sn(&F);
        if (!o.entry.empty() && !any(o.entry, s))
            continue;
        if (!is_mdds(&F) && !is_driver(&F) && o.entry.empty())
            continue;
        std::ostringstream js;
        DISubprogram* sp = F.getSubprogram();
        const DISubprogram* decl = sp ? (sp->getDeclaration() ? sp->getDeclaration() : sp) : nullptr;
        const char* acc = "none";
        if (decl)
        {
            switch (decl->getFlags() & DINode::FlagAccessibility)
            {
                case DINode::FlagPrivate: acc = "private"; break;
                case DINode::FlagProtected: acc = "protected"; break;
                case DINode::FlagPublic: acc = "public"; break;
                default: acc = "default"; break;
            }
        }
        js << (firstf ? "" : ",\n") << "{\"f\":" << func_id(&F) << ",\"acc\":\"" << acc << "\"";
        firstf = false;
        if (sp)
            js << ",\"file\":" << file_id(sp->getFile()) << ",\"line\":" << sp->getLine() << ",\"cls\":"
               << type_id(dyn_cast_or_null<DIType>(decl->getScope())) << ",\"sp\":" << sp_id(sp)
               << ",\"name\":" << jstr(sp->getName()) << ",\"static\":" << ((decl->getFlags() & DINode::FlagStaticMember) ? 1 : 0);
        js << ",\"rec\":" << (recursive.count(&F) ? 1 : 0);
        // numbering
        std::map<const Value*, int> num;
        int n = 0;
        js << ",\"args\":[";
        for (Argument& a : F.args())
        {
            num[&a] = n++;
            js << (a.getArgNo() ? "," : "") << "[" << jstr(a.getName()) << "," << (a.getType()->isPointerTy() ? 1 : 0)
               << "," << (a.hasStructRetAttr() ? 1 : 0) << "," << (a.hasByValAttr() ? 1 : 0) << "]";
        }
        js << "]";
        std::map<const BasicBlock*, int> bnum;
        int bn = 0;
        for (BasicBlock& b : F)
        {
            bnum[&b] = bn++;
            for (Instruction& I : b)
                if (!isa<DbgInfoIntrinsic>(&I))
                    num[&I] = n++;
        }
        std::function<std::string(const Value*)> op = [&](const Value* v) -> std::string {
            auto it = num.find(v);
            if (it != num.end())
                return std::to_string(it->second);
            if (auto* ci = dyn_cast<ConstantInt>(v))
            {
                SmallString<32> t;
                ci->getValue().toString(t, 10, true);
                return "[\"i\"," + ("\"" + t.str().str() + "\"") + "," + std::to_string(ci->getBitWidth()) + "]";
            }
            if (auto* cf = dyn_cast<ConstantFP>(v))
            {
                SmallString<32> t;
                cf->getValueAPF().toString(t);
                return "[\"f\"," + jstr(t) + "]";
            }
            if (isa<ConstantPointerNull>(v))
                return "[\"n\"]";
            if (isa<UndefValue>(v))
                return "[\"u\"]";
            if (auto* fn = dyn_cast<Function>(v))
                return "[\"F\"," + std::to_string(func_id(fn)) + "]";
            if (auto* gv = dyn_cast<GlobalVariable>(v))
                return "[\"g\"," + jstr(llvm::demangle(gv->getName().str())) + "," + (gv->isConstant() ? "1" : "0") + "]";
            if (auto* ce = dyn_cast<ConstantExpr>(v))
            {
                std::string t = "[\"ce\"," + jstr(ce->getOpcodeName());
                for (const Use& u : ce->operands())
                    t += "," + op(u.get());
                return t + "]";
            }
            if (isa<ConstantAggregateZero>(v))
                return "[\"z\"]";
            if (auto* c = dyn_cast<Constant>(v))
            {
                std::string t;
                raw_string_ostream os(t);
                c->print(os);
                return "[\"k\"," + jstr(os.str().substr(0, 200)) + "]";
            }
            return "[\"?\"]";
        };
        auto loc = [&](const Instruction& I) -> std::string {
            const DILocation* l = I.getDebugLoc().get();
            if (!l)
                return "0";
            std::string t = "[";
            bool first = true;
            while (l)
            {
                const DISubprogram* s2 = l->getScope()->getSubprogram();
                t += (first ? "" : ",");
                t += std::to_string(file_id(l->getFile())) + "," + std::to_string(l->getLine()) + "," +
                     std::to_string(s2 ? sp_id(s2) : -1);
                first = false;
                l = l->getInlinedAt();
            }
            return t + "]";
        };
        js << ",\"vars\":[";
        {
            bool fv = true;
            std::set<std::string> seen;
            for (BasicBlock& b : F)
                for (Instruction& I : b)
                    if (auto* d = dyn_cast<DbgVariableIntrinsic>(&I))
                    {
                        Value* v = d->getNumVariableLocationOps() == 1 ? d->getVariableLocationOp(0) : nullptr;
                        if (!v || !num.count(v))
                            continue;
                        if (d->getExpression()->getNumElements() != 0)
                            continue;
                        DILocalVariable* lv = d->getVariable();
                        const DILocation* dl = d->getDebugLoc().get();
                        std::ostringstream t;
                        t << "[" << num[v] << "," << (isa<DbgDeclareInst>(d) ? 1 : 0) << "," << jstr(lv->getName()) << ","
                          << type_id(lv->getType()) << "," << lv->getArg() << "," << (dl && dl->getInlinedAt() ? 1 : 0)
                          << "]";
                        if (!seen.insert(t.str()).second)
                            continue;
                        js << (fv ? "" : ",") << t.str();
                        fv = false;
                    }
        }
        js << "],\"blocks\":[";
        bool fb = true;
        for (BasicBlock& b : F)
        {
            js << (fb ? "" : ",") << "\n {\"i\":[";
            fb = false;
            bool fi = true;
            for (Instruction& I : b)
            {
                if (isa<DbgInfoIntrinsic>(&I))
                    continue;
                js << (fi ? "" : ",") << "[" << num[&I] << ",";
                fi = false;
                const char* opn = I.getOpcodeName();
                Type* ty = I.getType();
                std::string tys;
                {
                    raw_string_ostream os(tys);
                    if (ty->isStructTy())
                        os << "struct";
                    else
                        ty->print(os);
                }
                if (auto* g = dyn_cast<GetElementPtrInst>(&I))
                {
                    unsigned bw = M->getDataLayout().getIndexTypeSizeInBits(g->getType());
                    MapVector<Value*, APInt> var;
                    APInt cst(bw, 0);
                    bool ok = cast<GEPOperator>(g)->collectOffset(M->getDataLayout(), bw, var, cst);
                    std::string st;
                    {
                        raw_string_ostream os(st);
                        if (g->getSourceElementType()->isStructTy())
                            os << cast<StructType>(g->getSourceElementType())->getName();
                        else
                            g->getSourceElementType()->print(os);
                    }
                    js << "\"gep\"," << loc(I) << "," << op(g->getPointerOperand()) << "," << (ok ? cst.getSExtValue() : -999999) << ",[";
                    bool f2 = true;
                    for (auto& kv : var)
                    {
                        js << (f2 ? "" : ",") << "[" << op(kv.first) << "," << kv.second.getSExtValue() << "]";
                        f2 = false;
                    }
                    js << "]," << jstr(st);
                }
                else if (auto* l = dyn_cast<LoadInst>(&I))
                    js << "\"load\"," << loc(I) << "," << jstr(tys) << "," << op(l->getPointerOperand());
                else if (auto* st = dyn_cast<StoreInst>(&I))
                {
                    std::string t2;
                    raw_string_ostream os(t2);
                    st->getValueOperand()->getType()->print(os);
                    js << "\"store\"," << loc(I) << "," << jstr(os.str()) << "," << op(st->getValueOperand()) << "," << op(st->getPointerOperand());
                }
                else if (auto* cb = dyn_cast<CallBase>(&I))
                {
                    Function* c = cb->getCalledFunction();
                    js << "\"" << (isa<InvokeInst>(cb) ? "invoke" : "call") << "\"," << loc(I) << "," << jstr(tys) << ",";
                    if (c)
                        js << func_id(c);
                    else
                        js << "[" << op(cb->getCalledOperand()) << "]";
                    js << ",[";
                    bool f2 = true;
                    for (const Use& u : cb->args())
                    {
                        js << (f2 ? "" : ",") << op(u.get());
                        f2 = false;
                    }
                    js << "]," << (cb->doesNotThrow() ? 1 : 0);
                    if (auto* iv = dyn_cast<InvokeInst>(cb))
                        js << "," << bnum[iv->getNormalDest()] << "," << bnum[iv->getUnwindDest()];
                }
                else if (auto* br = dyn_cast<BranchInst>(&I))
                {
                    js << "\"br\"," << loc(I);
                    if (br->isConditional())
                        js << "," << op(br->getCondition()) << "," << bnum[br->getSuccessor(0)] << "," << bnum[br->getSuccessor(1)];
                    else
                        js << ",null," << bnum[br->getSuccessor(0)];
                }
                else if (auto* sw = dyn_cast<SwitchInst>(&I))
                {
                    js << "\"switch\"," << loc(I) << "," << op(sw->getCondition()) << "," << bnum[sw->getDefaultDest()] << ",[";
                    bool f2 = true;
                    for (auto& c : sw->cases())
                    {
                        js << (f2 ? "" : ",") << "[" << op(c.getCaseValue()) << "," << bnum[c.getCaseSuccessor()] << "]";
                        f2 = false;
                    }
                    js << "]";
                }
                else if (auto* ph = dyn_cast<PHINode>(&I))
                {
                    js << "\"phi\"," << loc(I) << "," << jstr(tys) << ",[";
                    for (unsigned k = 0; k < ph->getNumIncomingValues(); ++k)
                        js << (k ? "," : "") << "[" << op(ph->getIncomingValue(k)) << "," << bnum[ph->getIncomingBlock(k)] << "]";
                    js << "]";
                }
                else if (auto* ic = dyn_cast<CmpInst>(&I))
                    js << "\"cmp\"," << loc(I) << "," << jstr(CmpInst::getPredicateName(ic->getPredicate())) << "," << op(ic->getOperand(0)) << "," << op(ic->getOperand(1));
                else if (auto* al = dyn_cast<AllocaInst>(&I))
                {
                    std::string t2;
                    raw_string_ostream os(t2);
                    if (auto* stt = dyn_cast<StructType>(al->getAllocatedType()))
                        os << (stt->hasName() ? stt->getName() : "anon");
                    else
                        al->getAllocatedType()->print(os);
                    js << "\"alloca\"," << loc(I) << "," << jstr(os.str()) << "," << (al->getAllocationSizeInBits(M->getDataLayout()).value_or(TypeSize::getFixed(0)).getFixedValue() / 8);
                }
                else if (auto* lp = dyn_cast<LandingPadInst>(&I))
                {
                    js << "\"landingpad\"," << loc(I) << "," << (lp->isCleanup() ? 1 : 0) << ",[";
                    for (unsigned k = 0; k < lp->getNumClauses(); ++k)
                        js << (k ? "," : "") << op(lp->getClause(k));
                    js << "]";
                }
                else if (auto* ev = dyn_cast<ExtractValueInst>(&I))
                {
                    js << "\"extractvalue\"," << loc(I) << "," << jstr(tys) << "," << op(ev->getAggregateOperand()) << ",[";
                    for (unsigned k = 0; k < ev->getNumIndices(); ++k)
                        js << (k ? "," : "") << ev->getIndices()[k];
                    js << "]";
                }
                else if (auto* iv = dyn_cast<InsertValueInst>(&I))
                {
                    js << "\"insertvalue\"," << loc(I) << "," << op(iv->getAggregateOperand()) << "," << op(iv->getInsertedValueOperand()) << ",[";
                    for (unsigned k = 0; k < iv->getNumIndices(); ++k)
                        js << (k ? "," : "") << iv->getIndices()[k];
                    js << "]";
                }
                else
                {
                    js << jstr(opn) << "," << loc(I) << "," << jstr(tys);
                    for (const Use& u : I.operands())
                        if (!isa<BasicBlock>(u.get()))
                            js << "," << op(u.get());
                }
                js << "]";
            }
            js << "]}";
        }
        js << "]}";
        out << js.str();
    }
    // integers and function addresses in constant globals: [offset, value]
    out << "\n],\n\"consts\":{";
    {
        bool fg = true;
        for (GlobalVariable& g : M->globals())
        {
            if (!g.hasInitializer() || !g.isConstant() || g.getName().starts_with("_ZT") || g.getName().starts_with(".str") ||
                g.getName().starts_with("__func__") || g.getName().starts_with("__PRETTY"))
                continue;
            std::ostringstream t;
            size_t n = 0;
            const DataLayout& dl = M->getDataLayout();
            std::function<void(const Constant*, uint64_t)> walk = [&](const Constant* c, uint64_t o) {
                if (n > 512)
                    return;
                Type* ty = c->getType();
                if (auto* ci = dyn_cast<ConstantInt>(c))
                {
                    SmallString<32> v;
                    ci->getValue().toString(v, 10, true);
                    t << (n++ ? "," : "") << "[" << o << ",[\"i\",\"" << v.str().str() << "\"," << ci->getBitWidth() << "]]";
                }
                else if (auto* fn = dyn_cast<Function>(c))
                    t << (n++ ? "," : "") << "[" << o << ",[\"F\"," << func_id(fn) << "]]";
                else if (auto* st = dyn_cast<StructType>(ty))
                {
                    const StructLayout* l = dl.getStructLayout(st);
                    for (unsigned i = 0; i < st->getNumElements(); ++i)
                        if (const Constant* e = c->getAggregateElement(i))
                            walk(e, o + l->getElementOffset(i));
                }
                else if (auto* at = dyn_cast<ArrayType>(ty))
                {
                    uint64_t sz = dl.getTypeAllocSize(at->getElementType());
                    for (uint64_t i = 0; i < at->getNumElements() && n <= 512; ++i)
                        if (const Constant* e = c->getAggregateElement(unsigned(i)))
                            walk(e, o + i * sz);
                }
            };
            walk(g.getInitializer(), 0);
            if (!n || n > 512)
                continue;
            out << (fg ? "" : ",\n") << jstr(llvm::demangle(g.getName().str())) << ":[" << t.str() << "]";
            fg = false;
        }
    }
    out << "},\n\"ftab\":[";
    for (size_t i = 0; i < fjson.size(); ++i)
        out << (i ? ",\n" : "") << fjson[i];
    out << "],\n\"sps\":[";
    for (size_t i = 0; i < spnames.size(); ++i)
        out << (i ? "," : "") << jstr(spnames[i]);
    out << "],\n\"files\":[";
    // types (tlist may grow while we iterate)
    std::ostringstream ts;
    for (size_t i = 0; i < tlist.size(); ++i)
    {
        const DIType* t = tlist[i];
        ts << (i ? ",\n" : "") << "{\"n\":" << jstr(t->getName()) << ",\"t\":\"" << dwarf::TagString(t->getTag()).str()
           << "\",\"s\":" << t->getSizeInBits() / 8;
        if (auto* d = dyn_cast<DIDerivedType>(t))
            ts << ",\"b\":" << type_id(d->getBaseType());
        else if (auto* c = dyn_cast<DICompositeType>(t))
        {
            ts << ",\"id\":" << jstr(c->getIdentifier().empty() ? "" : llvm::demangle(c->getIdentifier().str())) << ",\"m\":[";
            bool f2 = true;
            for (const DINode* e : c->getElements())
            {
                auto* m = dyn_cast_or_null<DIDerivedType>(e);
                if (!m || m->isStaticMember())
                    continue;
                if (m->getTag() != dwarf::DW_TAG_member && m->getTag() != dwarf::DW_TAG_inheritance)
                    continue;
                ts << (f2 ? "" : ",") << "[" << jstr(m->getTag() == dwarf::DW_TAG_inheritance ? "<base>" : m->getName()) << ","
                   << m->getOffsetInBits() / 8 << "," << m->getSizeInBits() / 8 << "," << type_id(m->getBaseType()) << "," << m->getLine() << "]";
                f2 = false;
            }
            ts << "]";
            if (auto* sc = c->getScope())
                ts << ",\"sc\":" << jstr(sc->getName());
        }
        ts << "}";
    }
    for (size_t i = 0; i < files.size(); ++i)
        out << (i ? "," : "") << jstr(files[i]);
    out << "],\n\"types\":[" << ts.str() << "],\n\"not_inlined\":[";
    {
        bool f2 = true;
        for (auto& kv : not_inlined)
        {
            out << (f2 ? "" : ",") << jstr(kv.first);
            f2 = false;
        }
    }
    out << "]}\n";
    return out.good() ? 0 : 2;
}
