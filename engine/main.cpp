// lsx: symbolic executor for LLVM bitcode.   lsx run prog.bc --entry f ...   |   lsx instrument in.bc out.bc
#include "exec.h"
#include <llvm/IR/IRBuilder.h>
#include <llvm/IR/LLVMContext.h>
#include <llvm/IRReader/IRReader.h>
#include <llvm/Bitcode/BitcodeWriter.h>
#include <llvm/Support/SourceMgr.h>
#include <llvm/Support/raw_ostream.h>
#include <llvm/IR/Verifier.h>
#include <llvm/IR/DebugInfoMetadata.h>
#include <llvm/Demangle/Demangle.h>
using namespace llvm;

static bool isLocal(Value* p) { p = p->stripInBoundsOffsets(); while (auto* g = dyn_cast<GetElementPtrInst>(p)) p = g->getPointerOperand(); if (auto* a = dyn_cast<AllocaInst>(p)) { 
    // local unless the address escapes through a store or call
    SmallVector<Value*, 8> wl{a}; SmallPtrSet<Value*, 8> seen; 
    while (!wl.empty()) { Value* v = wl.pop_back_val(); if (!seen.insert(v).second) continue; for (User* u : v->users()) { if (isa<LoadInst>(u)) continue; if (auto* st = dyn_cast<StoreInst>(u)) { if (st->getValueOperand() == v) return false; continue; } if (isa<GetElementPtrInst>(u) || isa<BitCastInst>(u) || isa<PHINode>(u) || isa<SelectInst>(u)) { wl.push_back(u); continue; } if (isa<CmpInst>(u)) continue; if (auto* ii = dyn_cast<IntrinsicInst>(u)) { if (ii->isLifetimeStartOrEnd() || isa<DbgInfoIntrinsic>(ii) || isa<MemIntrinsic>(ii)) continue; } return false; } }
    return true; }
  if (auto* g = dyn_cast<GlobalVariable>(p)) return g->isConstant();
  return false; }
static int instrument(const char* in, const char* out) {
  LLVMContext ctx; SMDiagnostic err; auto m = parseIRFile(in, err, ctx); if (!m) { err.print("lsx", errs()); return 3; }
  FunctionCallee sp = m->getOrInsertFunction("lsx_sched_point", Type::getVoidTy(ctx), PointerType::get(ctx, 0), Type::getInt32Ty(ctx));
  for (auto& f : *m) {
    if (f.isDeclaration() || f.getName().startswith("lsx_")) continue;
    auto* sub = f.getSubprogram(); std::string file = sub ? sub->getFilename().str() : "";
    std::vector<Instruction*> todo;
    for (auto& bb : f) for (auto& I : bb) {
      if (auto* l = dyn_cast<LoadInst>(&I)) { if (!isLocal(l->getPointerOperand())) todo.push_back(&I); }
      else if (auto* s = dyn_cast<StoreInst>(&I)) { if (!isLocal(s->getPointerOperand())) todo.push_back(&I); }
      else if (isa<AtomicCmpXchgInst>(I) || isa<AtomicRMWInst>(I)) todo.push_back(&I);
    }
    for (auto* I : todo) {
      IRBuilder<> b(I); Value* p = isa<LoadInst>(I) ? cast<LoadInst>(I)->getPointerOperand() : isa<StoreInst>(I) ? cast<StoreInst>(I)->getPointerOperand() : I->getOperand(0);
      bool vol = I->isAtomic() || I->isVolatile();
      b.CreateCall(sp, {p, b.getInt32(vol)});
    }
  }
  std::error_code ec; raw_fd_ostream os(out, ec); WriteBitcodeToFile(*m, os); return 0;
}
int main(int argc, char** argv) {
  if (argc >= 4 && !strcmp(argv[1], "instrument")) return instrument(argv[2], argv[3]);
  if (argc < 3) { fprintf(stderr, "usage: lsx run prog.bc --entry f [--out dir]\n"); return 3; }
  std::string bc = argv[2];
  for (int i = 3; i < argc; i++) {
    std::string a = argv[i]; auto nx = [&] { return std::string(argv[++i]); };
    if (a == "--entry") opt.entry = nx(); else if (a == "--out") opt.out = nx(); else if (a == "--workers") opt.workers = stoi(nx()); else if (a == "--time") opt.timeLimit = stod(nx());
    else if (a == "--max-steps") opt.maxSteps = stoull(nx()); else if (a == "--preempt") opt.maxPreempt = stoi(nx()); else if (a == "--spin") opt.spinLimit = stoi(nx()); else if (a == "-v") opt.verbose = true; else if (a == "--known") opt.known.push_back(nx()); else if (a == "--stop") opt.stopOnViol = true; else if (a == "--mem") opt.memLimitMB = stoull(nx()); else if (a == "--depth") opt.maxDepth = stoi(nx()); else if (a == "--rlimit") g_rlimit = stoul(nx()); else if (a == "--qtime") g_queryTimeout = stod(nx());
    else { fprintf(stderr, "unknown option %s\n", a.c_str()); return 3; }
  }
  State* init = new State;
  auto model = std::make_shared<Model>(); init->model = model;
  // wrapper running the global constructors, then the entry
  static LLVMContext dummy;
  loadModule(bc, *init);
  Function* ef = M->getFunction(opt.entry);
  if (!ef || ef->isDeclaration()) { fprintf(stderr, "lsx: no entry %s\n", opt.entry.c_str()); return 3; }
  std::vector<std::pair<uint64_t, Function*>> ctors;
  if (auto* g = M->getNamedGlobal("llvm.global_ctors")) if (g->hasInitializer()) if (auto* ca = dyn_cast<ConstantArray>(g->getInitializer())) for (auto& o : ca->operands()) { auto* cs = cast<ConstantStruct>(o); ctors.push_back({cast<ConstantInt>(cs->getOperand(0))->getZExtValue(), dyn_cast<Function>(cs->getOperand(1)->stripPointerCasts())}); }
  std::stable_sort(ctors.begin(), ctors.end(), [](auto& a, auto& b) { return a.first < b.first; });
  Function* wf = Function::Create(FunctionType::get(Type::getVoidTy(M->getContext()), false), GlobalValue::InternalLinkage, "lsx_start", M);
  { IRBuilder<> b(BasicBlock::Create(M->getContext(), "e", wf)); for (auto& c : ctors) if (c.second) b.CreateCall(c.second); b.CreateCall(ef); b.CreateRetVoid(); }
  DFunc* wd = new DFunc; wd->f = wf; wd->name = "lsx_start"; g_funcs.push_back(wd);
  uint32_t gid = 0; for (auto* d : g_funcs) { d->gidBase = gid; uint32_t n = 0; for (auto& bb : *d->f) for (auto& I : bb) if (!isa<PHINode>(I)) n++; gid += n; }
  SH = (Shared*)mmap(nullptr, sizeof(Shared) + gid + 64, PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS, -1, 0);
  solverInit();
  decode(wd);
  init->th.emplace_back(); init->th[0].fr.emplace_back(); Frame& f = init->th[0].fr[0]; f.fn = wd; f.regs.assign(wd->nregs, vc(0));
  auto t0 = time(nullptr); (void)t0; struct timespec ta, tb; clock_gettime(CLOCK_MONOTONIC, &ta);
  explore(init);
  clock_gettime(CLOCK_MONOTONIC, &tb); double wall = (tb.tv_sec - ta.tv_sec) + (tb.tv_nsec - ta.tv_nsec) * 1e-9;
  std::string js = "{"; auto kv = [&](const char* k, double v) { char b[128]; snprintf(b, sizeof b, "%s\"%s\": %.10g", js.size() > 1 ? ", " : "", k, v); js += b; };
  kv("paths", SH->paths); kv("instructions", SH->steps); kv("forks", SH->forks); kv("queries", SH->queries); kv("solver_calls", SH->z3calls); kv("cache_hits", SH->cacheHits); kv("model_hits", SH->modelHits); kv("unknown", SH->unknowns); kv("sat", SH->sat); kv("unsat", SH->unsat); kv("solver_s", SH->z3us / 1e6); kv("max_query_s", SH->maxq / 1e6);
  kv("asserts", SH->asserts); kv("asserts_symbolic", SH->assertsSymbolic); kv("violations", SH->viols); kv("assume_killed", SH->killed); kv("dropped", SH->dropped); kv("timed_out", SH->timedOut); kv("incomplete", SH->incomplete); kv("sched_choices", SH->schedPts); kv("wall_s", wall);
  static const char* IR[] = {"solver_unknown", "steps", "time", "unsupported", "alloc", "depth", "memory", "extern"};
  js += ", \"incomplete_reasons\": {"; bool first = true; for (int i = 0; i < 8; i++) if (SH->incReason[i].load()) { js += std::string(first ? "" : ", ") + "\"" + IR[i] + "\": " + std::to_string(SH->incReason[i].load()); first = false; } js += "}";
  js += ", \"reach\": {"; for (int i = 0; i < SH->nreach.load() && i < 64; i++) js += std::string(i ? ", " : "") + "\"" + SH->reachNames[i] + "\": " + std::to_string(SH->reachBits[i].load()); js += "}";
  js += ", \"functions\": ["; first = true; uint64_t insts = 0, nf = 0;
  for (auto* d : g_funcs) { if (!d->inRepo) continue; uint32_t n = 0, c = 0; for (auto& bb : *d->f) for (auto& I : bb) if (!isa<PHINode>(I)) { c += SH->cov[d->gidBase + n]; n++; } if (c) { nf++; insts += c; std::string dm = demangle(d->name); std::string esc; for (char ch : dm.substr(0, 160)) { if (ch == '"' || ch == '\\') esc += '\\'; esc += ch; } js += std::string(first ? "" : ", ") + "[\"" + esc + "\", " + std::to_string(c) + ", " + std::to_string(n) + "]"; first = false; } }
  js += "]"; kv("repo_functions", nf); kv("repo_instructions_encoded", insts);
  js += "}\n";
  FILE* o = fopen((opt.out + "/stats.json").c_str(), "w"); if (o) { fputs(js.c_str(), o); fclose(o); }
  if (opt.verbose) { std::string sh = js.substr(0, js.find("\"functions\"")); fprintf(stderr, "%s\n", sh.c_str()); }
  return 0;
}
