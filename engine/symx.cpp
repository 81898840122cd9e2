// symx: symbolic executor for LLVM IR (bounded, path-forking, Z3-decided).
//
//   symx [options] file.bc ...
// See DESIGN.md for what it does; harness API in sx.h.
#include "mem.h"
#include <llvm/IR/LLVMContext.h>
#include <llvm/IR/Module.h>
#include <llvm/IR/Function.h>
#include <llvm/IR/Instructions.h>
#include <llvm/IR/IntrinsicInst.h>
#include <llvm/IR/Constants.h>
#include <llvm/IR/InlineAsm.h>
#include <llvm/IR/DebugInfoMetadata.h>
#include <llvm/IR/DebugLoc.h>
#include <llvm/IR/GetElementPtrTypeIterator.h>
#include <llvm/IRReader/IRReader.h>
#include <llvm/Support/SourceMgr.h>
#include <llvm/IR/PassManager.h>
#include <llvm/Passes/PassBuilder.h>
#include <llvm/Transforms/Utils/Mem2Reg.h>
#include <map>
#include <set>
#include <unistd.h>
#include <sys/wait.h>
#include <sys/stat.h>
#include <fcntl.h>
#include <dirent.h>

using namespace llvm;

enum IOp : u8 { I_BIN, I_ICMP, I_LOAD, I_STORE, I_GEP, I_CAST, I_BR, I_CBR, I_SWITCH, I_RET, I_CALL, I_SELECT, I_ALLOCA, I_UNREACH, I_COPY, I_NOP, I_FBIN, I_FCMP, I_FCAST, I_MEMCPY, I_MEMSET, I_UNSUP, I_EXTRACTV, I_INSERTV, I_FNEG, I_OVF };

struct FuncI;
typedef int Opnd; // >=0 register; <0 constant ~i

struct PhiMove { int dst; Opnd src; };
struct Edge { int target; std::vector<PhiMove> moves; };
struct GepIdx { Opnd idx; u8 w; u64 scale; };
struct CallInfo { FuncI *direct; Opnd callee; std::vector<Opnd> args; std::vector<u8> widths; };
struct SwitchInfo { std::vector<std::pair<u64, int>> cases; int def; };

struct Insn {
  IOp k; u8 sub; u8 w, w2;
  int dst;
  Opnd a, b, c;
  u64 imm;
  void *x;      // Edge*/GepIdx vector/CallInfo/...
  int e1, e2;
  u32 line;
  const char *why;
};

struct FuncI {
  Function *f = nullptr;
  std::string name;
  u64 addr = 0;
  bool decoded = false, executed = false, harness = false;
  int nregs = 0, nargs = 0;
  bool vararg = false;
  std::vector<u8> argw;
  std::vector<Insn> code;
  std::vector<int> blockstart;
  std::vector<Edge> edges;
  std::vector<Val> consts;
  int builtin = 0;
  const Insn *valloca = nullptr;
  int valloca_i = -1;
  std::string file;
};

static LLVMContext *CTX;
static std::vector<std::unique_ptr<Module>> mods;
static std::map<std::string, FuncI *> funcs;
static std::map<Module *, std::map<std::string, FuncI *>> localfuncs;
static std::vector<FuncI *> func_by_id;
static std::map<std::string, u64> globals;
static std::map<GlobalVariable *, u64> gvaddr;
static std::map<std::string, std::string> overrides;
static const DataLayout *DL;

struct Frame { FuncI *f; int ip; int base; int retreg; int nalloca; u64 vaextra_n; std::vector<Val> *va; };

struct InputRec { bool sym; Expr *e; u64 c; };

struct State {
  std::vector<Val> regs;
  std::vector<Frame> frames;
  std::vector<Obj *> objs;      // heap and global objects
  std::vector<Obj *> stk;       // stack objects
  std::vector<Expr *> pc;
  Model model;
  std::vector<InputRec> inputs;
  std::vector<std::vector<Val>> vas; // per frame varargs
  u64 ninsn = 0;
  u64 depth = 0;
  std::set<std::string> covers;
  std::vector<u64> trace;
  State () {}
  State (State const &o) : regs (o.regs), frames (o.frames), objs (o.objs), stk (o.stk), pc (o.pc), model (o.model), inputs (o.inputs), vas (o.vas), ninsn (o.ninsn), depth (o.depth), covers (o.covers)
  {
    for (Obj *x : objs) if (x) x->rc++;
    for (Obj *x : stk) if (x) x->rc++;
  }
  ~State ()
  {
    for (Obj *x : objs) obj_unref (x);
    for (Obj *x : stk) obj_unref (x);
  }
};

static std::vector<State *> worklist;
static u64 g_max_insn = 400000000ULL, g_max_paths = 2000000, g_total_insn = 0;
static double g_max_wall = 600;
static int g_case_filter = -1, g_jobs = 1;
static std::string g_out = "";
static u8 g_heap_fill = F_SYMB;
static bool g_stack_symb = true;
static int g_witness_n = 3;
static int g_maxviol = 6;
static std::vector<u64> g_replay; static bool g_have_replay = false; static size_t g_replay_pos = 0;

struct Violation { std::string id, msg, kind, where; std::vector<u64> inputs; };
struct Result {
  long caseno = -1;
  u64 paths = 0, pruned = 0, forks = 0, asserts = 0, asserts_sym = 0, asserts_concrete = 0;
  std::map<std::string, u64> covers;
  std::vector<Violation> viol;
  std::map<std::string, int> violcount;
  std::map<std::string, int> incomplete;
  std::vector<std::vector<u64>> witnesses;
} R;
static std::chrono::steady_clock::time_point g_t0;
static double now () { return std::chrono::duration<double> (std::chrono::steady_clock::now () - g_t0).count (); }

static std::string jstr (std::string const &s)
{
  std::string r = "\"";
  for (unsigned char c : s)
    if (c == '"' || c == '\\') { r += '\\'; r += c; }
    else if (c < 32 || c > 126) { char b[8]; snprintf (b, sizeof b, "\\u%04x", c); r += b; }
    else r += c;
  return r + "\"";
}

static void emit_result ()
{
  std::string o = "{\"case\":" + std::to_string (R.caseno);
  auto num = [&] (const char *k, double v) { char b[96]; snprintf (b, sizeof b, ",\"%s\":%.17g", k, v); o += b; };
  num ("paths", R.paths); num ("pruned", R.pruned); num ("forks", R.forks); num ("insns", g_total_insn);
  num ("asserts", R.asserts); num ("asserts_sym", R.asserts_sym); num ("asserts_concrete", R.asserts_concrete);
  num ("queries", SS.queries); num ("sat", SS.sat); num ("unsat", SS.unsat); num ("unknown", SS.unknown); num ("cachehits", SS.cachehits); num ("tables", SS.tables);
  num ("solver_s", SS.time); num ("max_query_s", SS.maxq); num ("wall_s", now ()); num ("symbols", g_syms.size ());
  o += ",\"covers\":{"; bool first = true;
  for (auto &p : R.covers) { if (!first) o += ","; first = false; o += jstr (p.first) + ":" + std::to_string (p.second); }
  o += "},\"incomplete\":{"; first = true;
  for (auto &p : R.incomplete) { if (!first) o += ","; first = false; o += jstr (p.first) + ":" + std::to_string (p.second); }
  o += "},\"violations\":["; first = true;
  for (auto &v : R.viol)
    {
      if (!first) o += ","; first = false;
      o += "{\"id\":" + jstr (v.id) + ",\"kind\":" + jstr (v.kind) + ",\"msg\":" + jstr (v.msg) + ",\"where\":" + jstr (v.where) + ",\"inputs\":[";
      for (size_t i = 0; i < v.inputs.size (); i++) { if (i) o += ","; o += std::to_string (v.inputs[i]); }
      o += "]}";
    }
  o += "],\"witnesses\":["; first = true;
  for (auto &w : R.witnesses)
    {
      if (!first) o += ","; first = false;
      o += "[";
      for (size_t i = 0; i < w.size (); i++) { if (i) o += ","; o += std::to_string (w[i]); }
      o += "]";
    }
  o += "],\"functions\":["; first = true;
  std::set<std::string> seen;
  for (FuncI *f : func_by_id) if (f && f->executed && !f->harness && f->f && !f->f->isDeclaration () && seen.insert (f->name).second)
    { if (!first) o += ","; first = false; o += jstr (f->name); }
  o += "]}\n";
  if (g_out.empty ()) { fputs (o.c_str (), stdout); fflush (stdout); }
  else
    {
      int fd = open (g_out.c_str (), O_WRONLY | O_CREAT | O_APPEND, 0644);
      size_t off = 0;
      while (off < o.size ()) { ssize_t n = write (fd, o.data () + off, o.size () - off); if (n <= 0) break; off += n; }
      close (fd);
    }
}

// ------------------------------------------------------------ loading
static FuncI *get_func (Function *F)
{
  if (F->hasLocalLinkage ())
    {
      auto &m = localfuncs[F->getParent ()];
      FuncI *&r = m[F->getName ().str ()];
      if (!r) { r = new FuncI; r->f = F; r->name = F->getName ().str (); r->addr = 0; r->harness = F->getParent ()->getSourceFileName ().find ("/verif/") == 0; func_by_id.push_back (r); }
      return r;
    }
  std::string n = F->getName ().str ();
  if (n.rfind ("sx_orig_", 0) == 0) n = n.substr (8);
  else
    {
      auto ov = overrides.find (n);
      if (ov != overrides.end ()) n = ov->second;
    }
  auto it = funcs.find (n);
  if (it != funcs.end ()) return it->second;
  FuncI *r = new FuncI; r->name = n; r->f = F; funcs[n] = r; func_by_id.push_back (r);
  return r;
}
static std::map<u64, FuncI *> func_addrs;
static State *init_state;
static u64 new_global_obj (Obj *o)
{
  u64 id = init_state->objs.size ();
  init_state->objs.push_back (o);
  return id << 32;
}
static u64 func_addr (FuncI *f)
{
  if (!f->addr)
    {
      Obj *o = obj_new (16, F_ZERO, 3, strdup (f->name.c_str ())); o->ro = true;
      f->addr = new_global_obj (o);
      func_addrs[f->addr] = f;
    }
  return f->addr;
}
static u64 gv_addr (GlobalVariable *G)
{
  auto it = gvaddr.find (G);
  if (it != gvaddr.end ()) return it->second;
  if (!G->hasLocalLinkage ())
    {
      auto j = globals.find (G->getName ().str ());
      if (j != globals.end ()) return gvaddr[G] = j->second;
      // undefined external: symbolic object? give it a junk object
      Obj *o = obj_new (4096, F_ZERO, 0, strdup (G->getName ().str ().c_str ()));
      u64 a = new_global_obj (o);
      globals[G->getName ().str ()] = a;
      return gvaddr[G] = a;
    }
  fprintf (stderr, "symx: unknown global %s\n", G->getName ().str ().c_str ());
  exit (3);
}
static u64 const_int (Constant *C)
{
  if (auto *I = dyn_cast<ConstantInt> (C)) return I->getValue ().getLimitedValue ();
  if (isa<ConstantPointerNull> (C) || isa<UndefValue> (C)) return 0;
  if (auto *F = dyn_cast<ConstantFP> (C)) return F->getValueAPF ().bitcastToAPInt ().getLimitedValue ();
  if (auto *F = dyn_cast<Function> (C)) return func_addr (get_func (F));
  if (auto *G = dyn_cast<GlobalVariable> (C)) return gv_addr (G);
  if (auto *A = dyn_cast<GlobalAlias> (C)) return const_int (A->getAliasee ());
  if (auto *E = dyn_cast<ConstantExpr> (C))
    {
      unsigned w = DL->getTypeSizeInBits (E->getType ());
      switch (E->getOpcode ())
        {
        case Instruction::GetElementPtr:
          {
            APInt off (64, 0);
            if (!cast<GEPOperator> (E)->accumulateConstantOffset (*DL, off)) break;
            return const_int (E->getOperand (0)) + off.getSExtValue ();
          }
        case Instruction::PtrToInt: case Instruction::IntToPtr: case Instruction::BitCast: case Instruction::Trunc: case Instruction::ZExt:
          return const_int (E->getOperand (0)) & maskw (w);
        case Instruction::Add: return (const_int (E->getOperand (0)) + const_int (E->getOperand (1))) & maskw (w);
        case Instruction::Sub: return (const_int (E->getOperand (0)) - const_int (E->getOperand (1))) & maskw (w);
        default: break;
        }
    }
  std::string s; raw_string_ostream os (s); C->print (os);
  fprintf (stderr, "symx: unsupported constant %s\n", s.c_str ());
  exit (3);
}
static void init_mem (Obj *o, u64 off, Constant *C)
{
  Type *T = C->getType ();
  u64 sz = DL->getTypeStoreSize (T);
  if (isa<ConstantAggregateZero> (C) || isa<UndefValue> (C)) return; // objects start zeroed
  if (auto *A = dyn_cast<ConstantDataSequential> (C))
    {
      u64 es = DL->getTypeAllocSize (A->getElementType ());
      for (unsigned i = 0; i < A->getNumElements (); i++)
        init_mem (o, off + i * es, A->getElementAsConstant (i));
      return;
    }
  if (auto *A = dyn_cast<ConstantArray> (C))
    {
      u64 es = DL->getTypeAllocSize (A->getType ()->getElementType ());
      for (unsigned i = 0; i < A->getNumOperands (); i++) init_mem (o, off + i * es, A->getOperand (i));
      return;
    }
  if (auto *S = dyn_cast<ConstantStruct> (C))
    {
      const StructLayout *L = DL->getStructLayout (S->getType ());
      for (unsigned i = 0; i < S->getNumOperands (); i++) init_mem (o, off + L->getElementOffset (i), S->getOperand (i));
      return;
    }
  obj_write_concrete (o, off, sz, const_int (C));
}

static void decode (FuncI *fi);
static void load_module (const char *fn)
{
  SMDiagnostic err;
  auto M = parseIRFile (fn, err, *CTX);
  if (!M) { err.print ("symx", errs ()); exit (3); }
  DL = new DataLayout (M->getDataLayout ());
  mods.push_back (std::move (M));
}
static void link_modules ()
{
  init_state->objs.push_back (nullptr); // id 0 invalid
  for (auto &M : mods)
    for (Function &F : *M)
      {
        std::string n = F.getName ().str ();
        if (n.rfind ("sx_override_", 0) == 0 && !F.isDeclaration ()) overrides[n.substr (12)] = n;
      }
  for (auto &M : mods)
    for (Function &F : *M)
      if (!F.isDeclaration () && !F.hasLocalLinkage ())
        {
          std::string n = F.getName ().str ();
          if (!funcs.count (n))
            {
              FuncI *r = new FuncI; r->name = n; r->f = &F; funcs[n] = r; func_by_id.push_back (r);
              r->harness = M->getSourceFileName ().find ("/verif/") == 0;
            }
        }
  std::vector<std::pair<GlobalVariable *, Obj *>> todo;
  for (int pass = 0; pass < 2; pass++)
    for (auto &M : mods)
      for (GlobalVariable &G : M->globals ())
        {
          if (G.isDeclaration ()) continue;
          if (pass == 0 ? G.hasCommonLinkage () : !G.hasCommonLinkage ()) continue;
          std::string n = G.getName ().str ();
          if (!G.hasLocalLinkage () && globals.count (n)) { gvaddr[&G] = globals[n]; continue; }
          Obj *o = obj_new (DL->getTypeAllocSize (G.getValueType ()), F_ZERO, 0, strdup (n.c_str ()));
          u64 a = new_global_obj (o);
          gvaddr[&G] = a;
          if (!G.hasLocalLinkage ()) globals[n] = a;
          todo.push_back ({&G, o});
        }
  for (auto &p : todo)
    if (p.first->hasInitializer ())
      {
        init_mem (p.second, 0, p.first->getInitializer ());
        p.second->ro = p.first->isConstant ();
      }
}

// ------------------------------------------------------------ decoding
struct Decoder {
  FuncI *fi; Function *F;
  DenseMap<Value *, int> reg;
  std::map<Constant *, int> cidx;
  DenseMap<BasicBlock *, int> bidx;
  unsigned width (Type *T)
  {
    if (T->isVoidTy ()) return 0;
    if (T->isPointerTy ()) return 64;
    if (T->isIntegerTy ()) return T->getIntegerBitWidth ();
    if (T->isDoubleTy ()) return 64;
    if (T->isFloatTy ()) return 32;
    return 255;
  }
  Opnd op (Value *V)
  {
    if (auto *C = dyn_cast<Constant> (V))
      {
        auto it = cidx.find (C);
        if (it != cidx.end ()) return it->second;
        Val v = VC (0);
        unsigned w = width (C->getType ());
        if (w <= 64) v = VC (const_int (C) & maskw (w));
        if (isa<UndefValue> (C) && w <= 64) v = VC (0xa5a5a5a5a5a5a5a5ULL & maskw (w));
        fi->consts.push_back (v);
        return cidx[C] = ~(int) (fi->consts.size () - 1);
      }
    auto it = reg.find (V);
    if (it == reg.end ()) { fprintf (stderr, "symx: no reg in %s\n", fi->name.c_str ()); V->dump (); exit (3); }
    return it->second;
  }
  int edge (BasicBlock *from, BasicBlock *to)
  {
    Edge e; e.target = bidx[to];
    for (PHINode &P : to->phis ())
      e.moves.push_back ({reg[&P], op (P.getIncomingValueForBlock (from))});
    fi->edges.push_back (e);
    return fi->edges.size () - 1;
  }
  void run ()
  {
    F = fi->f;
    fi->nargs = F->arg_size ();
    fi->vararg = F->isVarArg ();
    int n = 0;
    for (Argument &A : F->args ()) { reg[&A] = n++; fi->argw.push_back (width (A.getType ())); }
    int bi = 0;
    Value *lastnamed = nullptr;
    if (fi->vararg && fi->nargs) lastnamed = F->getArg (fi->nargs - 1);
    for (BasicBlock &B : *F)
      {
        bidx[&B] = bi++;
        for (Instruction &I : B) if (!I.getType ()->isVoidTy ()) reg[&I] = n++;
      }
    fi->nregs = n;
    AllocaInst *va = nullptr;
    if (lastnamed)
      for (User *U : lastnamed->users ())
        if (auto *S = dyn_cast<StoreInst> (U))
          if (S->getValueOperand () == lastnamed) va = dyn_cast<AllocaInst> (S->getPointerOperand ());
    fi->blockstart.resize (bi);
    for (BasicBlock &B : *F)
      {
        fi->blockstart[bidx[&B]] = fi->code.size ();
        for (Instruction &I : B)
          {
            if (isa<PHINode> (I)) continue;
            Insn x; memset (&x, 0, sizeof x);
            x.dst = I.getType ()->isVoidTy () ? -1 : reg[&I];
            x.w = width (I.getType ());
            if (DILocation *L = I.getDebugLoc ()) x.line = L->getLine ();
            if (!one (I, x)) { x.k = I_UNSUP; x.why = strdup (I.getOpcodeName ()); }
            if (&I == va) fi->valloca_i = fi->code.size ();
            if (x.k != I_NOP) fi->code.push_back (x);
          }
      }
  }
  bool one (Instruction &I, Insn &x)
  {
    if (auto *B = dyn_cast<BinaryOperator> (&I))
      {
        x.k = I_BIN; x.a = op (B->getOperand (0)); x.b = op (B->getOperand (1));
        switch (B->getOpcode ())
          {
          case Instruction::Add: x.sub = O_ADD; break;
          case Instruction::Sub: x.sub = O_SUB; break;
          case Instruction::Mul: x.sub = O_MUL; break;
          case Instruction::UDiv: x.sub = O_UDIV; break;
          case Instruction::SDiv: x.sub = O_SDIV; break;
          case Instruction::URem: x.sub = O_UREM; break;
          case Instruction::SRem: x.sub = O_SREM; break;
          case Instruction::And: x.sub = O_AND; break;
          case Instruction::Or: x.sub = O_OR; break;
          case Instruction::Xor: x.sub = O_XOR; break;
          case Instruction::Shl: x.sub = O_SHL; break;
          case Instruction::LShr: x.sub = O_LSHR; break;
          case Instruction::AShr: x.sub = O_ASHR; break;
          case Instruction::FAdd: case Instruction::FSub: case Instruction::FMul: case Instruction::FDiv:
            x.k = I_FBIN; x.sub = B->getOpcode () == Instruction::FAdd ? 0 : B->getOpcode () == Instruction::FSub ? 1 : B->getOpcode () == Instruction::FMul ? 2 : 3;
            break;
          default: return false;
          }
        return x.w <= 64;
      }
    if (auto *C = dyn_cast<ICmpInst> (&I))
      {
        x.k = I_ICMP; x.sub = C->getPredicate (); x.w2 = width (C->getOperand (0)->getType ());
        x.a = op (C->getOperand (0)); x.b = op (C->getOperand (1));
        return x.w2 <= 64;
      }
    if (auto *C = dyn_cast<FCmpInst> (&I))
      {
        x.k = I_FCMP; x.sub = C->getPredicate (); x.w2 = width (C->getOperand (0)->getType ());
        x.a = op (C->getOperand (0)); x.b = op (C->getOperand (1));
        return x.w2 <= 64;
      }
    if (auto *L = dyn_cast<LoadInst> (&I)) { x.k = I_LOAD; x.a = op (L->getPointerOperand ()); if (x.w > 64) return false; x.imm = (x.w + 7) / 8; return true; }
    if (auto *S = dyn_cast<StoreInst> (&I))
      {
        x.k = I_STORE; x.w = width (S->getValueOperand ()->getType ()); if (x.w > 64) return false;
        x.a = op (S->getPointerOperand ()); x.b = op (S->getValueOperand ()); x.imm = (x.w + 7) / 8; return true;
      }
    if (auto *G = dyn_cast<GetElementPtrInst> (&I))
      {
        x.k = I_GEP; x.a = op (G->getPointerOperand ());
        auto *v = new std::vector<GepIdx>;
        u64 off = 0;
        for (gep_type_iterator it = gep_type_begin (G), e = gep_type_end (G); it != e; ++it)
          {
            Value *ix = it.getOperand ();
            if (StructType *ST = it.getStructTypeOrNull ())
              off += DL->getStructLayout (ST)->getElementOffset (cast<ConstantInt> (ix)->getZExtValue ());
            else
              {
                u64 sc = DL->getTypeAllocSize (it.getIndexedType ());
                if (auto *ci = dyn_cast<ConstantInt> (ix)) off += ci->getSExtValue () * sc;
                else v->push_back ({op (ix), (u8) width (ix->getType ()), sc});
              }
          }
        x.imm = off; x.x = v;
        return true;
      }
    if (auto *C = dyn_cast<CastInst> (&I))
      {
        x.k = I_CAST; x.a = op (C->getOperand (0)); x.w2 = width (C->getOperand (0)->getType ());
        if (x.w > 64 || x.w2 > 64) return false;
        switch (C->getOpcode ())
          {
          case Instruction::Trunc: x.sub = 0; return true;
          case Instruction::ZExt: x.sub = 1; return true;
          case Instruction::SExt: x.sub = 2; return true;
          case Instruction::PtrToInt: case Instruction::IntToPtr: x.sub = x.w < x.w2 ? 0 : 1; return true;
          case Instruction::BitCast: x.sub = 1; return x.w == x.w2;
          case Instruction::FPToSI: case Instruction::FPToUI: case Instruction::SIToFP: case Instruction::UIToFP: case Instruction::FPExt: case Instruction::FPTrunc:
            x.k = I_FCAST; x.imm = C->getOpcode (); return true;
          default: return false;
          }
      }
    if (auto *B = dyn_cast<BranchInst> (&I))
      {
        if (B->isUnconditional ()) { x.k = I_BR; x.e1 = edge (I.getParent (), B->getSuccessor (0)); return true; }
        x.k = I_CBR; x.a = op (B->getCondition ());
        x.e1 = edge (I.getParent (), B->getSuccessor (0)); x.e2 = edge (I.getParent (), B->getSuccessor (1));
        return true;
      }
    if (auto *S = dyn_cast<SwitchInst> (&I))
      {
        x.k = I_SWITCH; x.a = op (S->getCondition ()); x.w2 = width (S->getCondition ()->getType ());
        auto *si = new SwitchInfo;
        for (auto c : S->cases ()) si->cases.push_back ({c.getCaseValue ()->getZExtValue (), edge (I.getParent (), c.getCaseSuccessor ())});
        si->def = edge (I.getParent (), S->getDefaultDest ());
        x.x = si;
        return true;
      }
    if (auto *Rt = dyn_cast<ReturnInst> (&I))
      {
        x.k = I_RET;
        if (Rt->getReturnValue ()) { x.w2 = width (Rt->getReturnValue ()->getType ()); if (x.w2 > 64) return false; x.a = op (Rt->getReturnValue ()); x.sub = 1; }
        return true;
      }
    if (auto *S = dyn_cast<SelectInst> (&I))
      { x.k = I_SELECT; x.a = op (S->getCondition ()); x.b = op (S->getTrueValue ()); x.c = op (S->getFalseValue ()); return x.w <= 64; }
    if (auto *A = dyn_cast<AllocaInst> (&I))
      { x.k = I_ALLOCA; x.a = op (A->getArraySize ()); x.imm = DL->getTypeAllocSize (A->getAllocatedType ()); x.x = strdup ((A->getName ().str () + "@" + fi->name).c_str ()); return true; }
    if (isa<UnreachableInst> (I)) { x.k = I_UNREACH; return true; }
    if (auto *EV = dyn_cast<ExtractValueInst> (&I))
      { // of an arithmetic-with-overflow intrinsic: the operation itself, or its overflow flag
        auto *II = dyn_cast<IntrinsicInst> (EV->getAggregateOperand ());
        if (!II || EV->getNumIndices () != 1) return false;
        int k;
        switch (II->getIntrinsicID ())
          {
          case Intrinsic::sadd_with_overflow: k = 0; break;
          case Intrinsic::ssub_with_overflow: k = 1; break;
          case Intrinsic::smul_with_overflow: k = 2; break;
          default: return false;
          }
        x.k = I_OVF; x.a = op (II->getArgOperand (0)); x.b = op (II->getArgOperand (1)); x.w2 = width (II->getArgOperand (0)->getType ());
        x.sub = k; x.imm = EV->getIndices ()[0];
        return x.w2 <= 64;
      }
    if (auto *Fz = dyn_cast<FreezeInst> (&I)) { x.k = I_COPY; x.a = op (Fz->getOperand (0)); return x.w <= 64; }
    if (I.getOpcode () == Instruction::FNeg) { x.k = I_FNEG; x.a = op (I.getOperand (0)); return true; }
    if (auto *C = dyn_cast<CallInst> (&I))
      {
        if (isa<DbgInfoIntrinsic> (C)) { x.k = I_NOP; return true; }
        if (auto *II = dyn_cast<IntrinsicInst> (C))
          {
            switch (II->getIntrinsicID ())
              {
              case Intrinsic::lifetime_start: case Intrinsic::lifetime_end: case Intrinsic::assume: case Intrinsic::stacksave: case Intrinsic::stackrestore:
                if (x.dst >= 0) { x.k = I_COPY; fi->consts.push_back (VC (0)); x.a = ~(int) (fi->consts.size () - 1); return true; }
                x.k = I_NOP; return true;
              case Intrinsic::memcpy: case Intrinsic::memmove: x.k = I_MEMCPY; x.a = op (C->getArgOperand (0)); x.b = op (C->getArgOperand (1)); x.c = op (C->getArgOperand (2)); return true;
              case Intrinsic::memset: x.k = I_MEMSET; x.a = op (C->getArgOperand (0)); x.b = op (C->getArgOperand (1)); x.c = op (C->getArgOperand (2)); return true;
              case Intrinsic::trap: x.k = I_UNREACH; return true;
              case Intrinsic::ubsantrap: x.k = I_UNREACH; x.sub = 1; return true; // outside what C defines: drop the path
              case Intrinsic::sadd_with_overflow: case Intrinsic::ssub_with_overflow: case Intrinsic::smul_with_overflow: x.k = I_NOP; return true;
              case Intrinsic::expect: x.k = I_COPY; x.a = op (C->getArgOperand (0)); return true;
              default: return false;
              }
          }
        if (C->isInlineAsm ())
          {
            auto *IA = cast<InlineAsm> (C->getCalledOperand ());
            if (IA->getAsmString ().empty () && x.dst < 0) { x.k = I_NOP; return true; }
            return false;
          }
        auto *ci = new CallInfo;
        ci->direct = nullptr;
        Value *cal = C->getCalledOperand ()->stripPointerCasts ();
        if (auto *FF = dyn_cast<Function> (cal)) ci->direct = get_func (FF);
        else ci->callee = op (cal);
        for (unsigned i = 0; i < C->arg_size (); i++)
          {
            unsigned w = width (C->getArgOperand (i)->getType ());
            if (w > 64) return false;
            if (C->isByValArgument (i)) return false;
            ci->args.push_back (op (C->getArgOperand (i))); ci->widths.push_back (w);
          }
        if (x.w > 64) return false;
        x.k = I_CALL; x.x = ci;
        return true;
      }
    return false;
  }
};

static FunctionAnalysisManager *FAM;
static int builtin_id (std::string const &n);
static void decode (FuncI *fi)
{
  if (fi->decoded) return;
  fi->decoded = true;
  fi->builtin = builtin_id (fi->name);
  if (fi->builtin) return;
  if (fi->f && !fi->f->isDeclaration ())
    {
      PromotePass P;
      P.run (*fi->f, *FAM);
      Decoder d; d.fi = fi; d.run ();
      if (auto *SP = fi->f->getSubprogram ()) fi->file = SP->getFilename ().str ();
    }
}

// ------------------------------------------------------------ execution
enum StepResult { S_OK, S_DEAD, S_FORKED };
static State *cur;

static std::string where ()
{
  std::string s;
  int n = 0;
  for (int i = cur->frames.size () - 1; i >= 0 && n < 8; i--, n++)
    {
      Frame &f = cur->frames[i];
      int ip = i == (int) cur->frames.size () - 1 ? f.ip : f.ip - 1;
      u32 line = ip >= 0 && ip < (int) f.f->code.size () ? f.f->code[ip].line : 0;
      if (n) s += " < ";
      s += f.f->name + ":" + std::to_string (line);
    }
  return s;
}
static std::string innermost_repo ()
{
  for (int i = cur->frames.size () - 1; i >= 0; i--)
    if (!cur->frames[i].f->harness) return cur->frames[i].f->name;
  return "harness";
}
static std::vector<u64> concrete_inputs (State *s, Model const &m)
{
  std::vector<u64> r;
  for (auto &i : s->inputs) r.push_back (i.sym ? eval (i.e, m) : i.c);
  return r;
}
static void report (std::string const &kind, std::string const &id, std::string const &msg, Model const &m)
{
  int &n = R.violcount[id];
  n++;
  if (n > g_maxviol) return;
  if (getenv ("SX_VERBOSE")) fprintf (stderr, "violation %s: %s at %s\n", id.c_str (), msg.c_str (), where ().c_str ());
  R.viol.push_back ({id, msg, kind, where (), concrete_inputs (cur, m)});
}
static void incomplete (std::string const &why)
{
  if (getenv ("SX_VERBOSE")) fprintf (stderr, "incomplete: %s at %s\n", why.c_str (), where ().c_str ());
  R.incomplete[why]++;
}

static bool add_constraint (Expr *e)
{
  if (isc (e)) return e->cv;
  // split conjunctions for better slicing
  if (e->op == O_AND && e->w == 1) return add_constraint (e->a) && add_constraint (e->b);
  for (Expr *x : cur->pc) if (x == e) return true;
  cur->pc.push_back (e);
  return true;
}
static State *fork_state ()
{
  R.forks++;
  State *n = new State (*cur);
  n->vas = cur->vas;
  return n;
}

// Decide a boolean expression: returns 1/0 with the constraint added, forking the other side
// when both are feasible; -1 if undecidable (state must die).
static int branch (Expr *c)
{
  cur->depth++;
  u64 v = eval (c, cur->model);
  Expr *other = v ? mk_not (c) : c;
  Expr *mine = v ? c : mk_not (c);
  Model m = cur->model;
  int r = solve (cur->pc, other, &m);
  if (r < 0) { incomplete ("solver unknown on branch"); return -1; }
  if (r == 1)
    {
      State *n = fork_state ();
      State *save = cur;
      cur = n; n->model = m; add_constraint (other); cur = save;
      worklist.push_back (n);
      add_constraint (mine);
    }
  return (int) v;
}
// like branch for a condition that is checked without forking:  can it be false?
static int maybe_false (Expr *c, Model *m)
{
  if (!eval (c, cur->model)) { *m = cur->model; return 1; }
  *m = cur->model;
  return solve (cur->pc, mk_not (c), m);
}
static bool assume (Expr *c)
{
  if (isc (c)) return c->cv;
  if (eval (c, cur->model)) { add_constraint (c); return true; }
  Model m = cur->model;
  int r = solve (cur->pc, c, &m);
  if (r < 0) { incomplete ("solver unknown on assume"); return false; }
  if (r == 0) return false;
  cur->model = m;
  add_constraint (c);
  return true;
}
// concretise with forking over all feasible values. false: state dies
static bool concretize (Val &v, unsigned w)
{
  if (!v.e) return true;
  u64 x = eval (v.e, cur->model);
  Expr *eq = mk_bin (O_EQ, v.e, mk_const (x, w));
  Model m = cur->model;
  int r = isc (eq) ? 0 : solve (cur->pc, mk_not (eq), &m);
  if (r < 0) { incomplete ("solver unknown on concretisation"); return false; }
  if (r == 1)
    {
      State *n = fork_state ();
      State *save = cur;
      cur = n; n->model = m; add_constraint (mk_not (eq)); cur = save;
      worklist.push_back (n);
    }
  add_constraint (eq);
  v = VC (x);
  return true;
}

static inline Obj **find_obj (u64 addr)
{
  u64 id = addr >> 32;
  if (id & 0x40000000)
    {
      id &= 0x3fffffff;
      if (id < cur->stk.size ()) return &cur->stk[id];
      return nullptr;
    }
  if (id < cur->objs.size ()) return &cur->objs[id];
  return nullptr;
}
static const char *check_access (u64 addr, u64 n, bool write, Obj ***out)
{
  Obj **po = find_obj (addr);
  if (!po || !*po) return addr < 4096 ? "null pointer access" : "wild pointer access";
  Obj *o = *po;
  u64 off = addr & 0xffffffff;
  if (!o->alive) return o->kind == 2 ? "use of dead stack object" : "use after free";
  if (o->kind == 3) return "data access to function";
  if (off >= 0xffff0000) return "access before start of object";
  if (off + n > o->size) return "access out of bounds";
  if (write && o->ro) return "write to constant";
  *out = po;
  return nullptr;
}
static void mem_violation (const char *why, u64 addr, u64 n, bool write, Model const &m)
{
  Obj **po = find_obj (addr);
  char b[256];
  snprintf (b, sizeof b, "%s: %s of %llu byte(s) at offset %lld of object %s size %llu", why, write ? "write" : "read", (unsigned long long) n, (long long) (int32_t) (addr & 0xffffffff),
            po && *po ? ((*po)->name ? (*po)->name : "?") : "none", po && *po ? (unsigned long long) (*po)->size : 0ULL);
  report ("memory", std::string ("memory-safety:") + innermost_repo (), b, m);
}

static bool mem_read (u64 addr, unsigned n, Val *out)
{
  Obj **po;
  const char *why = check_access (addr, n, false, &po);
  if (why)
    {
      // one-past access whose offset wraps into the neighbouring id is "before start"
      mem_violation (why, addr, n, false, cur->model); return false;
    }
  Obj *o = *po;
  u64 off = addr & 0xffffffff;
  u64 v;
  if (obj_concrete_read (o, off, n, &v)) { *out = VC (v); return true; }
  Expr *r = nullptr;
  for (unsigned i = 0; i < n; i++)
    {
      u8 c;
      Expr *e = obj_byte (o, off + i, &c);
      if (e == UNINIT)
        {
          e = uninit_byte (o->name);
          if (o->rc > 1) { o->rc--; o = obj_clone (o); *po = o; }
          obj_write_byte_sym (o, off + i, e);
        }
      else if (!e) e = mk_const (c, 8);
      r = r ? mk_concat (e, r) : e;
    }
  *out = VE (r);
  return true;
}
static bool mem_write (u64 addr, unsigned n, Val v)
{
  Obj **po;
  const char *why = check_access (addr, n, true, &po);
  if (why) { mem_violation (why, addr, n, true, cur->model); return false; }
  Obj *o = *po;
  if (o->rc > 1) { o->rc--; o = obj_clone (o); *po = o; }
  u64 off = addr & 0xffffffff;
  if (!v.e) { obj_write_concrete (o, off, n, v.c); return true; }
  Expr *e = v.e;
  if (e->w < n * 8) e = mk_zext (e, n * 8);
  for (unsigned i = 0; i < n; i++)
    {
      Expr *b = mk_extract (e, i * 8, 8);
      if (isc (b)) obj_write_concrete (o, off + i, 1, b->cv);
      else obj_write_byte_sym (o, off + i, b);
    }
  return true;
}
enum { SYMREAD_LIMIT = 300 };
static bool mem_read_sym (Expr *a, unsigned n, Val *out)
{
  // enumerate the feasible addresses
  std::vector<u64> vals;
  std::vector<Expr *> pc2 = cur->pc;
  std::vector<Model> models;
  Model m = cur->model;
  u64 v = eval (a, m);
  for (;;)
    {
      vals.push_back (v);
      models.push_back (m);
      Expr *ne = mk_not (mk_bin (O_EQ, a, mk_const (v, 64)));
      if (vals.size () >= SYMREAD_LIMIT)
        {
          Val av = VE (a);
          if (!concretize (av, 64)) return false;
          return mem_read (av.c, n, out);
        }
      Model m2 = m;
      int r = solve (pc2, ne, &m2);
      if (r < 0) { incomplete ("solver unknown on address"); return false; }
      if (r == 0) break;
      pc2.push_back (ne);
      m = m2;
      v = eval (a, m);
    }
  // invalid ones are violations
  std::vector<u64> good;
  for (u64 x : vals)
    {
      Obj **po;
      const char *why = check_access (x, n, false, &po);
      if (why)
        {
          Model mm = cur->model;
          solve (cur->pc, mk_bin (O_EQ, a, mk_const (x, 64)), &mm);
          mem_violation (why, x, n, false, mm);
          if (!assume (mk_not (mk_bin (O_EQ, a, mk_const (x, 64))))) return false;
        }
      else good.push_back (x);
    }
  if (good.empty ()) return false;
  // many different pointers: one state each, an if-then-else over pointers is resolved again at every use
  if (n == 8 && good.size () == vals.size () && good.size () > 4)
    {
      unsigned ptrs = 0;
      for (u64 x : good)
        {
          Obj **po; u64 c;
          if (!check_access (x, 8, false, &po) && obj_concrete_read (*po, x & 0xffffffff, 8, &c) && c >> 32 && c >> 32 != 0xffffffff) ptrs++;
        }
      if (ptrs > 4)
        {
          for (size_t i = 1; i < vals.size (); i++)
            {
              State *f = fork_state ();
              State *save = cur;
              cur = f; f->model = models[i]; add_constraint (mk_bin (O_EQ, a, mk_const (vals[i], 64))); cur = save;
              worklist.push_back (f);
            }
          cur->model = models[0];
          add_constraint (mk_bin (O_EQ, a, mk_const (vals[0], 64)));
          return mem_read (vals[0], n, out);
        }
    }
  Expr *r = nullptr;
  for (u64 x : good)
    {
      Val t;
      if (!mem_read (x, n, &t)) return false;
      Expr *te = EX (t, n * 8);
      r = r ? mk_ite (mk_bin (O_EQ, a, mk_const (x, 64)), te, r) : te;
    }
  *out = VE (r);
  return true;
}

static u64 heap_alloc (u64 size, u8 fill, const char *name)
{
  u64 id = cur->objs.size ();
  cur->objs.push_back (obj_new (size, fill, 1, name));
  return id << 32;
}

// read a NUL-terminated concrete C string from memory
static std::string cstring (u64 a)
{
  std::string s;
  for (int i = 0; i < 4096; i++)
    {
      Val v;
      Obj **po;
      if (check_access (a + i, 1, false, &po)) break;
      if (!mem_read (a + i, 1, &v)) break;
      if (v.e) { s += '?'; continue; }
      if (!v.c) break;
      s += (char) v.c;
    }
  return s;
}

enum Builtin { B_NONE, B_BYTES, B_INT, B_ASSUME, B_ASSERT, B_COVER, B_CASE, B_CHOICE, B_CONCRETE, B_MALLOC, B_FREE, B_OBJSIZE, B_DONE, B_FAIL, B_ENGINE, B_HOSTFILE, B_PRINT, B_ISSYM, B_READABLE, B_MODE, B_SAMEOBJ, B_U64, B_RESIZE, B_KILL, B_SELECT, B_HOSTWRITE };
static std::map<std::string, int> bnames = {
  {"sx_bytes", B_BYTES}, {"sx_int", B_INT}, {"sx_assume", B_ASSUME}, {"sx_assert", B_ASSERT}, {"sx_cover", B_COVER}, {"sx_case", B_CASE},
  {"sx_choice", B_CHOICE}, {"sx_concrete", B_CONCRETE}, {"sx_malloc", B_MALLOC}, {"sx_free", B_FREE}, {"sx_obj_size", B_OBJSIZE}, {"sx_done", B_DONE},
  {"sx_fail", B_FAIL}, {"sx_engine", B_ENGINE}, {"sx_host_file", B_HOSTFILE}, {"sx_print", B_PRINT}, {"sx_is_symbolic", B_ISSYM}, {"sx_readable", B_READABLE},
  {"sx_mode", B_MODE}, {"sx_same_object", B_SAMEOBJ}, {"sx_u64", B_U64}, {"sx_resize", B_RESIZE}, {"sx_kill", B_KILL}, {"sx_select", B_SELECT}, {"sx_zmalloc", B_MALLOC + 100} };
static int builtin_id (std::string const &n) { auto it = bnames.find (n); return it == bnames.end () ? 0 : it->second; }

static bool next_replay (u64 *v)
{
  if (!g_have_replay) return false;
  *v = g_replay_pos < g_replay.size () ? g_replay[g_replay_pos++] : 0;
  return true;
}
static Expr *new_input (const char *name, unsigned w)
{
  u64 v;
  if (next_replay (&v)) { cur->inputs.push_back ({false, nullptr, v}); return mk_const (v, w); }
  Expr *e = mk_sym (name, w, true);
  cur->inputs.push_back ({true, e, 0});
  return e;
}
static void path_end (bool completed)
{
  R.paths++;
  for (auto &c : cur->covers) R.covers[c]++;
  if (completed && (int) R.witnesses.size () < g_witness_n) R.witnesses.push_back (concrete_inputs (cur, cur->model));
  else if (completed && g_witness_n && (R.paths & (R.paths - 1)) == 0) R.witnesses[(R.paths / 2) % g_witness_n] = concrete_inputs (cur, cur->model);
}

static std::map<std::string, std::string> g_hostcache;

static void do_case (long n, Val *ret);

// returns: 0 ok (advance), 1 state dead
static int builtin_call (int b, std::vector<Val> &a, unsigned rw, Val *ret)
{
  *ret = VC (0);
  switch (b)
    {
    case B_BYTES:
      {
        if (!concretize (a[0], 64) || !concretize (a[1], 64)) return 1;
        std::string nm = cstring (a[2].c);
        for (u64 i = 0; i < a[1].c; i++)
          {
            Expr *e = new_input ((nm + "[" + std::to_string (i) + "]").c_str (), 8);
            if (!mem_write (a[0].c + i, 1, VE (e))) return 1;
          }
        return 0;
      }
    case B_INT:
      {
        if (!concretize (a[0], 64) || !concretize (a[1], 64)) return 1;
        Expr *e = new_input (cstring (a[2].c).c_str (), 64);
        s64 lo = a[0].c, hi = a[1].c;
        if (!isc (e))
          {
            if (lo >= 0)
              { // make high zero bits syntactically visible
                unsigned bits = 64 - (hi ? __builtin_clzll (hi) : 63);
                if (bits < 64)
                  {
                    u32 sn = e->cv;
                    Expr *n = mk_sym (g_syms[sn].name, bits, true);
                    e = mk_zext (n, 64);
                    cur->inputs.back ().e = e;
                  }
              }
            else
              { // make the sign extension visible
                unsigned bits = 1;
                while (bits < 64 && (lo < -(1LL << (bits - 1)) || hi > (1LL << (bits - 1)) - 1)) bits++;
                if (bits < 64)
                  {
                    u32 sn = e->cv;
                    Expr *n = mk_sym (g_syms[sn].name, bits, true);
                    e = mk_sext (n, 64);
                    cur->inputs.back ().e = e;
                  }
              }
            // the initial model value is 0; make it consistent
            if (!assume (mk_bin (O_AND, mk_bin (O_SLE, mk_const (lo, 64), e), mk_bin (O_SLE, e, mk_const (hi, 64))))) return 1;
            if (lo >= 0)
              { // declared bounds become known to the simplifier
                Expr *s = e->op == O_ZEXT ? e->a : e;
                sym_bounds (s, lo, hi);
                e->rng = false;
              }
          }
        else if ((s64) e->cv < lo || (s64) e->cv > hi) { R.pruned++; return 1; }
        *ret = VE (e);
        return 0;
      }
    case B_U64: { Expr *e = new_input (cstring (a[0].c).c_str (), 64); *ret = VE (e); return 0; }
    case B_CHOICE:
      {
        if (!concretize (a[0], 64)) return 1;
        u64 rv;
        if (next_replay (&rv)) { cur->inputs.push_back ({false, nullptr, rv}); *ret = VC (rv); return 0; }
        // fork directly
        for (u64 k = a[0].c; k-- > 1;)
          {
            State *n = fork_state ();
            n->inputs.push_back ({false, nullptr, k});
            // resume after the call with value k
            Frame &f = n->frames.back ();
            Insn &I = f.f->code[f.ip];
            if (I.dst >= 0) n->regs[f.base + I.dst] = VC (k & maskw (I.w));
            f.ip++;
            worklist.push_back (n);
          }
        cur->inputs.push_back ({false, nullptr, 0});
        *ret = VC (0);
        return 0;
      }
    case B_CASE:
      if (!concretize (a[0], 64)) return 1;
      do_case (a[0].c, ret);
      return 0;
    case B_ASSUME:
      {
        Expr *c = EX (a[0], 32);
        Expr *t = mk_not (mk_bin (O_EQ, c, mk_const (0, c->w)));
        if (!assume (t)) { R.pruned++; return 1; }
        return 0;
      }
    case B_ASSERT:
      {
        R.asserts++;
        Expr *c = EX (a[0], 32);
        Expr *t = mk_not (mk_bin (O_EQ, c, mk_const (0, c->w)));
        if (isc (t, 1)) { R.asserts_concrete++; return 0; }
        std::string id = cstring (a[1].c);
        if (isc (t, 0)) { report ("assert", id, "assertion false on this path", cur->model); R.asserts_concrete++; return 1; }
        R.asserts_sym++;
        Model m;
        int r = maybe_false (t, &m);
        if (r < 0) { incomplete ("solver unknown on assertion " + id); return assume (t) ? 0 : 1; }
        if (r == 1)
          {
            report ("assert", id, "assertion can be false", m);
            if (!assume (t)) return 1;
          }
        else add_constraint (t);
        return 0;
      }
    case B_FAIL: { std::string id = cstring (a[0].c); report ("assert", id, "failure reached", cur->model); return 1; }
    case B_COVER: cur->covers.insert (cstring (a[0].c)); return 0;
    case B_CONCRETE: { if (!concretize (a[0], 64)) return 1; *ret = a[0]; return 0; }
    case B_MALLOC: if (!concretize (a[0], 64)) return 1; *ret = VC (heap_alloc (a[0].c, g_heap_fill, "malloc")); return 0;
    case B_MALLOC + 100: if (!concretize (a[0], 64)) return 1; *ret = VC (heap_alloc (a[0].c, F_ZERO, "zmalloc")); return 0;
    case B_FREE:
      {
        if (!concretize (a[0], 64)) return 1;
        if (!a[0].c) return 0;
        Obj **po = find_obj (a[0].c);
        if (!po || !*po || (*po)->kind != 1 || !(*po)->alive || (a[0].c & 0xffffffff))
          { report ("memory", "memory-safety:" + innermost_repo (), "invalid free", cur->model); return 1; }
        Obj *o = *po;
        if (o->rc > 1) { o->rc--; o = obj_clone (o); *po = o; }
        o->alive = false;
        return 0;
      }
    case B_RESIZE:
      { // change the size of a heap object (used by kernel models for brk)
        if (!concretize (a[0], 64) || !concretize (a[1], 64)) return 1;
        Obj **po = find_obj (a[0].c);
        Obj *o = *po;
        if (o->rc > 1) { o->rc--; o = obj_clone (o); *po = o; }
        o->size = a[1].c;
        while (o->pg.size () < (o->size + PS - 1) >> PSHIFT) o->pg.push_back (nullptr);
        return 0;
      }
    case B_OBJSIZE:
      {
        if (!concretize (a[0], 64)) return 1;
        Obj **po = find_obj (a[0].c);
        *ret = VC (po && *po && (*po)->alive ? (*po)->size - (a[0].c & 0xffffffff) : (u64) -1);
        return 0;
      }
    case B_SAMEOBJ:
      if (!concretize (a[0], 64) || !concretize (a[1], 64)) return 1;
      *ret = VC ((a[0].c >> 32) == (a[1].c >> 32));
      return 0;
    case B_READABLE:
      {
        if (!concretize (a[0], 64) || !concretize (a[1], 64)) return 1;
        Obj **po;
        *ret = VC (check_access (a[0].c, a[1].c, false, &po) == nullptr);
        return 0;
      }
    case B_DONE: path_end (true); return 1;
    case B_KILL: R.pruned++; return 1;
    case B_ENGINE: *ret = VC (1); return 0;
    case B_ISSYM: *ret = VC (a[0].e != nullptr); return 0;
    case B_SELECT:
      {
        Expr *c = EX (a[0], 32);
        *ret = VE (mk_ite (mk_not (mk_bin (O_EQ, c, mk_const (0, c->w))), EX (a[1], 64), EX (a[2], 64)));
        return 0;
      }
    case B_HOSTFILE:
      {
        std::string p = cstring (a[0].c);
        struct stat st;
        if (stat (p.c_str (), &st) || !S_ISREG (st.st_mode)) { *ret = VC ((u64) -1); return 0; }
        std::string &d = g_hostcache[p];
        if (d.empty ())
          {
            FILE *f = fopen (p.c_str (), "rb");
            if (!f) { *ret = VC ((u64) -1); return 0; }
            char buf[65536]; size_t n;
            while ((n = fread (buf, 1, sizeof buf, f)) > 0) d.append (buf, n);
            fclose (f);
          }
        u64 o = heap_alloc (d.size () + 1, F_ZERO, "hostfile");
        for (size_t i = 0; i < d.size (); i++) if (!mem_write (o + i, 1, VC ((u8) d[i]))) return 1;
        if (!mem_write (a[1].c, 8, VC (o))) return 1;
        *ret = VC (d.size ());
        return 0;
      }
    case B_PRINT: { if (getenv ("SX_PRINT")) { fprintf (stderr, "%s", cstring (a[0].c).c_str ()); if (a.size () > 1) { if (a[1].e) fprintf (stderr, " sym(eg %lld)", (long long) eval (a[1].e, cur->model)); else fprintf (stderr, " %lld", (long long) a[1].c); } fprintf (stderr, "\n"); } return 0; }
    case B_MODE: if (a[0].c == 1) g_heap_fill = F_ZERO; else if (a[0].c == 2) g_heap_fill = F_SYMB; else if (a[0].c == 3) g_stack_symb = false; else if (a[0].c == 4) g_stack_symb = true; return 0;
    }
  fprintf (stderr, "symx: unknown builtin\n");
  exit (3);
}

static void do_case (long n, Val *ret)
{
  u64 rv;
  if (next_replay (&rv)) { cur->inputs.push_back ({false, nullptr, rv}); R.caseno = rv; *ret = VC (rv); return; }
  if (g_case_filter >= 0)
    {
      if (g_case_filter >= n) { emit_result (); _exit (0); }
      cur->inputs.push_back ({false, nullptr, (u64) g_case_filter}); R.caseno = g_case_filter; *ret = VC (g_case_filter); return;
    }
  // OS-level fork per case, g_jobs at a time; a process that dies of a signal is tried once more
  int running = 0;
  fflush (stdout);
  std::map<pid_t, long> pids;
  std::vector<long> todo;
  std::set<long> again;
  for (long i = n - 1; i >= 0; i--) todo.push_back (i);
  while (!todo.empty () || running > 0)
    {
      if (running >= g_jobs || todo.empty ())
        {
          int st; pid_t p = wait (&st);
          if (p < 0) break;
          running--;
          if (WIFEXITED (st) && WEXITSTATUS (st) == 0) continue;
          long i = pids[p];
          if (WIFSIGNALED (st) && !again.count (i)) { fprintf (stderr, "symx: case %ld died of signal %d, tried again\n", i, WTERMSIG (st)); again.insert (i); todo.push_back (i); continue; }
          R.caseno = i; R.incomplete[WIFSIGNALED (st) ? "engine process died of signal " + std::to_string (WTERMSIG (st)) : "engine process failed"]++; emit_result (); R.incomplete.clear ();
          continue;
        }
      long i = todo.back (); todo.pop_back ();
      pid_t p = fork ();
      if (p == 0)
        {
          g_t0 = std::chrono::steady_clock::now ();
          cur->inputs.push_back ({false, nullptr, (u64) i});
          R.caseno = i;
          *ret = VC (i);
          return;
        }
      pids[p] = i;
      running++;
    }
  _exit (0);
}

static double asd (u64 v) { double d; memcpy (&d, &v, 8); return d; }
static u64 dsa (double d) { u64 v; memcpy (&v, &d, 8); return v; }
static float asf (u64 v) { float d; u32 x = v; memcpy (&d, &x, 4); return d; }
static u64 fsa (float d) { u32 v; memcpy (&v, &d, 4); return v; }

static void push_frame (FuncI *f, std::vector<Val> &args, int retreg)
{
  Frame fr; fr.f = f; fr.ip = 0; fr.base = cur->regs.size (); fr.retreg = retreg; fr.nalloca = cur->stk.size (); fr.va = nullptr; fr.vaextra_n = 0;
  cur->regs.resize (fr.base + f->nregs, VC (0));
  for (int i = 0; i < f->nargs; i++)
    {
      Val v = i < (int) args.size () ? args[i] : VC (0xa5a5a5a5a5a5a5a5ULL);
      unsigned w = f->argw[i];
      if (v.e)
        {
          if (v.e->w > w) v = VE (mk_extract (v.e, 0, w));
          else if (v.e->w < w) v = VE (mk_zext (v.e, w));
        }
      else v.c &= maskw (w);
      cur->regs[fr.base + i] = v;
    }
  cur->vas.resize (cur->frames.size () + 1);
  cur->vas.back ().clear ();
  if (f->vararg) for (size_t i = f->nargs; i < args.size (); i++) cur->vas.back ().push_back (args[i]);
  f->executed = true;
  cur->frames.push_back (fr);
}

static inline void take_edge (Frame &f, int ei)
{
  Edge &e = f.f->edges[ei];
  size_t n = e.moves.size ();
  Val *r = &cur->regs[f.base];
  if (n == 1) { Opnd s = e.moves[0].src; r[e.moves[0].dst] = s >= 0 ? r[s] : f.f->consts[~s]; }
  else if (n)
    {
      Val tmp[64];
      std::vector<Val> big;
      Val *t = tmp;
      if (n > 64) { big.resize (n); t = big.data (); }
      for (size_t i = 0; i < n; i++) { Opnd s = e.moves[i].src; t[i] = s >= 0 ? r[s] : f.f->consts[~s]; }
      for (size_t i = 0; i < n; i++) r[e.moves[i].dst] = t[i];
    }
  f.ip = f.f->blockstart[e.target];
}

static Expr *icmp_expr (unsigned pred, Expr *a, Expr *b)
{
  switch (pred)
    {
    case CmpInst::ICMP_EQ: return mk_bin (O_EQ, a, b);
    case CmpInst::ICMP_NE: return mk_not (mk_bin (O_EQ, a, b));
    case CmpInst::ICMP_ULT: return mk_bin (O_ULT, a, b);
    case CmpInst::ICMP_ULE: return mk_bin (O_ULE, a, b);
    case CmpInst::ICMP_UGT: return mk_bin (O_ULT, b, a);
    case CmpInst::ICMP_UGE: return mk_bin (O_ULE, b, a);
    case CmpInst::ICMP_SLT: return mk_bin (O_SLT, a, b);
    case CmpInst::ICMP_SLE: return mk_bin (O_SLE, a, b);
    case CmpInst::ICMP_SGT: return mk_bin (O_SLT, b, a);
    case CmpInst::ICMP_SGE: return mk_bin (O_SLE, b, a);
    }
  abort ();
}

// Runs cur until it ends.  true = ended normally/killed; the caller deletes it.
static void run_state ()
{
  u64 cnt = 0;
  for (;;)
    {
      Frame *f = &cur->frames.back ();
      Insn &I = f->f->code[f->ip];
      Val *r = &cur->regs[f->base];
      Val *K = f->f->consts.data ();
#define V(o) ((o) >= 0 ? r[o] : K[~(o)])
      cur->ninsn++; g_total_insn++;
      if ((++cnt & 0xffff) == 0)
        {
          if (cur->ninsn > g_max_insn)
            {
              R.incomplete["instruction limit on a path"]++;
              report ("hang", "hang", "path exceeds the instruction limit", cur->model);
              return;
            }
          if (now () > g_max_wall) { incomplete ("wall limit"); return; }
        }
      switch (I.k)
        {
        case I_BIN:
          {
            Val a = V (I.a), b = V (I.b);
            unsigned w = I.w;
            Op op = (Op) I.sub;
            if (op == O_UDIV || op == O_SDIV || op == O_UREM || op == O_SREM)
              {
                Expr *be = EX (b, w);
                Expr *nz = mk_not (mk_bin (O_EQ, be, mk_const (0, w)));
                Expr *bad = nz;
                if (op == O_SDIV || op == O_SREM)
                  {
                    Expr *ov = mk_bin (O_AND, mk_bin (O_EQ, EX (a, w), mk_const (1ULL << (w - 1), w)), mk_bin (O_EQ, be, mk_const (maskw (w), w)));
                    bad = mk_bin (O_AND, nz, mk_not (ov));
                  }
                if (!isc (bad, 1))
                  {
                    Model m;
                    int q = isc (bad, 0) ? (m = cur->model, 1) : maybe_false (bad, &m);
                    if (q < 0) { incomplete ("solver unknown on division check"); return; }
                    if (q == 1)
                      {
                        report ("memory", "division-trap:" + innermost_repo (), "division traps", m);
                        if (isc (bad, 0) || !assume (bad)) return;
                      }
                  }
              }
            if (!a.e && !b.e)
              {
                u64 y = b.c;
                if (op >= O_SHL && op <= O_ASHR) y &= w == 64 ? 63 : w == 32 ? 31 : 63;
                r[I.dst] = VC (foldop (op, w, a.c, y, w));
              }
            else
              {
                Expr *y = EX (b, w);
                if (op >= O_SHL && op <= O_ASHR && (w == 32 || w == 64) && !isc (y)) y = mk_bin (O_AND, y, mk_const (w - 1, w));
                r[I.dst] = VE (mk_bin (op, EX (a, w), y));
              }
            f->ip++;
            break;
          }
        case I_ICMP:
          {
            Val a = V (I.a), b = V (I.b);
            unsigned w = I.w2;
            if (!a.e && !b.e)
              {
                bool v;
                s64 x = sextw (a.c, w), y = sextw (b.c, w);
                switch (I.sub)
                  {
                  case CmpInst::ICMP_EQ: v = a.c == b.c; break;
                  case CmpInst::ICMP_NE: v = a.c != b.c; break;
                  case CmpInst::ICMP_ULT: v = a.c < b.c; break;
                  case CmpInst::ICMP_ULE: v = a.c <= b.c; break;
                  case CmpInst::ICMP_UGT: v = a.c > b.c; break;
                  case CmpInst::ICMP_UGE: v = a.c >= b.c; break;
                  case CmpInst::ICMP_SLT: v = x < y; break;
                  case CmpInst::ICMP_SLE: v = x <= y; break;
                  case CmpInst::ICMP_SGT: v = x > y; break;
                  default: v = x >= y; break;
                  }
                r[I.dst] = VC (v);
              }
            else r[I.dst] = VE (icmp_expr (I.sub, EX (a, w), EX (b, w)));
            f->ip++;
            break;
          }
        case I_LOAD:
          {
            Val a = V (I.a);
            Val v;
            if (!a.e)
              {
                if (!mem_read (a.c, I.imm, &v)) { path_end (false); return; }
              }
            else if (!mem_read_sym (a.e, I.imm, &v)) { path_end (false); return; }
            if (I.w & 7) { if (v.e) v = VE (mk_extract (v.e, 0, I.w)); else v.c &= maskw (I.w); }
            cur->regs[cur->frames.back ().base + I.dst] = v;
            cur->frames.back ().ip++;
            break;
          }
        case I_STORE:
          {
            Val a = V (I.a), v = V (I.b);
            if (a.e && !concretize (a, 64)) { path_end (false); return; }
            if (v.e && v.e->w < I.imm * 8) v.e = mk_zext (v.e, I.imm * 8);
            if (!mem_write (a.c, I.imm, v)) { path_end (false); return; }
            f->ip++;
            break;
          }
        case I_GEP:
          {
            Val a = V (I.a);
            auto &ix = *(std::vector<GepIdx> *) I.x;
            if (!a.e)
              {
                u64 s = a.c + I.imm;
                bool sym = false;
                for (auto &g : ix) { Val v = V (g.idx); if (v.e) { sym = true; break; } s += (u64) sextw (v.c, g.w) * g.scale; }
                if (!sym) { r[I.dst] = VC (s); f->ip++; break; }
              }
            Expr *e = mk_bin (O_ADD, EX (a, 64), mk_const (I.imm, 64));
            for (auto &g : ix)
              e = mk_bin (O_ADD, e, mk_bin (O_MUL, mk_sext (EX (V (g.idx), g.w), 64), mk_const (g.scale, 64)));
            r[I.dst] = VE (e);
            f->ip++;
            break;
          }
        case I_CAST:
          {
            Val a = V (I.a);
            if (!a.e) r[I.dst] = VC (I.sub == 2 ? (u64) sextw (a.c, I.w2) & maskw (I.w) : a.c & maskw (I.w));
            else r[I.dst] = VE (I.sub == 0 ? mk_extract (a.e, 0, I.w) : I.sub == 1 ? mk_zext (a.e, I.w) : mk_sext (a.e, I.w));
            f->ip++;
            break;
          }
        case I_COPY: r[I.dst] = V (I.a); f->ip++; break;
        case I_BR: take_edge (*f, I.e1); break;
        case I_CBR:
          {
            Val a = V (I.a);
            if (!a.e) { take_edge (*f, a.c ? I.e1 : I.e2); break; }
            int v = branch (a.e);
            if (v < 0) { path_end (false); return; }
            take_edge (cur->frames.back (), v ? I.e1 : I.e2);
            break;
          }
        case I_SWITCH:
          {
            Val a = V (I.a);
            auto *si = (SwitchInfo *) I.x;
            if (!a.e)
              {
                int t = si->def;
                for (auto &c : si->cases) if (c.first == a.c) { t = c.second; break; }
                take_edge (*f, t);
                break;
              }
            // decide the cases one at a time; the forked sibling re-executes the switch
            int t = -2;
            for (auto &c : si->cases)
              {
                Expr *eq = mk_bin (O_EQ, a.e, mk_const (c.first, I.w2));
                int v = isc (eq) ? (int) eq->cv : branch (eq);
                if (v < 0) { t = -1; break; }
                if (v) { t = c.second; break; }
              }
            if (t == -1) { path_end (false); return; }
            take_edge (cur->frames.back (), t == -2 ? si->def : t);
            break;
          }
        case I_SELECT:
          {
            Val a = V (I.a), b = V (I.b), c = V (I.c);
            if (!a.e) r[I.dst] = a.c ? b : c;
            else r[I.dst] = VE (mk_ite (a.e, EX (b, I.w), EX (c, I.w)));
            f->ip++;
            break;
          }
        case I_ALLOCA:
          {
            Val n = V (I.a);
            if (n.e && !concretize (n, 64)) { path_end (false); return; }
            u64 size = I.imm * n.c;
            u64 id = cur->stk.size () | 0x40000000;
            bool isva = f->f->vararg && f->ip == f->f->valloca_i;
            u64 sz2 = size;
            if (isva) sz2 += 8 * cur->vas[cur->frames.size () - 1].size ();
            Obj *o = obj_new (sz2, g_stack_symb ? F_SYMB : F_JUNK, 2, (const char *) I.x);
            cur->stk.push_back (o);
            if (isva)
              {
                auto &va = cur->vas[cur->frames.size () - 1];
                for (size_t i = 0; i < va.size (); i++) mem_write ((id << 32) + size + 8 * i, 8, va[i]);
              }
            r[I.dst] = VC (id << 32);
            f->ip++;
            break;
          }
        case I_RET:
          {
            Val v = VC (0);
            bool has = I.sub;
            if (has) v = V (I.a);
            int base = f->base, ret = f->retreg, na = f->nalloca;
            while ((int) cur->stk.size () > na) { obj_unref (cur->stk.back ()); cur->stk.pop_back (); }
            cur->frames.pop_back ();
            cur->vas.resize (cur->frames.size ());
            cur->regs.resize (base);
            if (cur->frames.empty ()) { path_end (true); return; }
            Frame &p = cur->frames.back ();
            if (ret >= 0)
              {
                Insn &ci = p.f->code[p.ip - 1];
                if (has && v.e && v.e->w != ci.w) v = v.e->w > ci.w ? VE (mk_extract (v.e, 0, ci.w)) : VE (mk_zext (v.e, ci.w));
                cur->regs[p.base + ret] = v;
              }
            break;
          }
        case I_CALL:
          {
            auto *ci = (CallInfo *) I.x;
            FuncI *fn = ci->direct;
            if (!fn)
              {
                Val c = V (ci->callee);
                if (c.e && !concretize (c, 64)) { path_end (false); return; }
                auto it = func_addrs.find (c.c);
                if (it == func_addrs.end ()) { report ("memory", "memory-safety:" + innermost_repo (), "call through invalid function pointer", cur->model); path_end (false); return; }
                fn = it->second;
              }
            std::vector<Val> args;
            args.reserve (ci->args.size ());
            bool va = fn->f && fn->f->isVarArg ();
            for (size_t i = 0; i < ci->args.size (); i++)
              {
                Val v = V (ci->args[i]);
                if (va && i >= (size_t) fn->f->arg_size () && ci->widths[i] < 64)
                  { if (v.e) v = VE (mk_sext (v.e, 64)); else v.c = sextw (v.c, ci->widths[i]); }
                args.push_back (v);
              }
            if (!fn->decoded) decode (fn);
            if (fn->builtin)
              {
                Val ret;
                int k = builtin_call (fn->builtin, args, I.w, &ret);
                if (k) return;
                Frame &g = cur->frames.back ();
                if (I.dst >= 0)
                  {
                    if (ret.e && ret.e->w > I.w) ret = VE (mk_extract (ret.e, 0, I.w));
                    else if (!ret.e) ret.c &= maskw (I.w);
                    cur->regs[g.base + I.dst] = ret;
                  }
                g.ip++;
                break;
              }
            if (fn->code.empty ())
              {
                incomplete ("call to undefined function " + fn->name);
                path_end (false);
                return;
              }
            f->ip++;
            if (cur->frames.size () > 20000) { report ("hang", "stack-overflow", "unbounded recursion", cur->model); path_end (false); return; }
            push_frame (fn, args, I.dst);
            break;
          }
        case I_MEMCPY:
          {
            Val d = V (I.a), s = V (I.b), n = V (I.c);
            if (!concretize (d, 64) || !concretize (s, 64) || !concretize (n, 64)) { path_end (false); return; }
            std::vector<Val> t (n.c);
            bool ok = true;
            for (u64 i = 0; ok && i < n.c; i++) ok = mem_read (s.c + i, 1, &t[i]);
            for (u64 i = 0; ok && i < n.c; i++) ok = mem_write (d.c + i, 1, t[i]);
            if (!ok) { path_end (false); return; }
            cur->frames.back ().ip++;
            break;
          }
        case I_MEMSET:
          {
            Val d = V (I.a), c = V (I.b), n = V (I.c);
            if (!concretize (d, 64) || !concretize (n, 64)) { path_end (false); return; }
            bool ok = true;
            for (u64 i = 0; ok && i < n.c; i++) ok = mem_write (d.c + i, 1, c);
            if (!ok) { path_end (false); return; }
            cur->frames.back ().ip++;
            break;
          }
        case I_FBIN:
          {
            Val a = V (I.a), b = V (I.b);
            if (!concretize (a, I.w) || !concretize (b, I.w)) { path_end (false); return; }
            Val o;
            if (I.w == 64) { double x = asd (a.c), y = asd (b.c); o = VC (dsa (I.sub == 0 ? x + y : I.sub == 1 ? x - y : I.sub == 2 ? x * y : x / y)); }
            else { float x = asf (a.c), y = asf (b.c); o = VC (fsa (I.sub == 0 ? x + y : I.sub == 1 ? x - y : I.sub == 2 ? x * y : x / y)); }
            cur->regs[cur->frames.back ().base + I.dst] = o;
            cur->frames.back ().ip++;
            break;
          }
        case I_FNEG:
          {
            Val a = V (I.a);
            if (!concretize (a, I.w)) { path_end (false); return; }
            cur->regs[cur->frames.back ().base + I.dst] = VC (I.w == 64 ? dsa (-asd (a.c)) : fsa (-asf (a.c)));
            cur->frames.back ().ip++;
            break;
          }
        case I_FCMP:
          {
            Val a = V (I.a), b = V (I.b);
            if (!concretize (a, I.w2) || !concretize (b, I.w2)) { path_end (false); return; }
            double x = I.w2 == 64 ? asd (a.c) : asf (a.c), y = I.w2 == 64 ? asd (b.c) : asf (b.c);
            bool un = x != x || y != y, v;
            switch (I.sub)
              {
              case CmpInst::FCMP_OEQ: v = !un && x == y; break;
              case CmpInst::FCMP_OGT: v = !un && x > y; break;
              case CmpInst::FCMP_OGE: v = !un && x >= y; break;
              case CmpInst::FCMP_OLT: v = !un && x < y; break;
              case CmpInst::FCMP_OLE: v = !un && x <= y; break;
              case CmpInst::FCMP_ONE: v = !un && x != y; break;
              case CmpInst::FCMP_UNE: v = un || x != y; break;
              case CmpInst::FCMP_UEQ: v = un || x == y; break;
              case CmpInst::FCMP_ULT: v = un || x < y; break;
              case CmpInst::FCMP_ULE: v = un || x <= y; break;
              case CmpInst::FCMP_UGT: v = un || x > y; break;
              case CmpInst::FCMP_UGE: v = un || x >= y; break;
              case CmpInst::FCMP_UNO: v = un; break;
              case CmpInst::FCMP_ORD: v = !un; break;
              default: v = I.sub == CmpInst::FCMP_TRUE;
              }
            cur->regs[cur->frames.back ().base + I.dst] = VC (v);
            cur->frames.back ().ip++;
            break;
          }
        case I_FCAST:
          {
            Val a = V (I.a);
            if (!concretize (a, I.w2)) { path_end (false); return; }
            double x = I.w2 == 64 ? asd (a.c) : asf (a.c);
            u64 o = 0;
            switch (I.imm)
              {
              case Instruction::FPToSI: o = (u64) (s64) x & maskw (I.w); break;
              case Instruction::FPToUI: o = (u64) x & maskw (I.w); break;
              case Instruction::SIToFP: { double d = (double) sextw (a.c, I.w2); o = I.w == 64 ? dsa (d) : fsa ((float) sextw (a.c, I.w2)); break; }
              case Instruction::UIToFP: { double d = (double) a.c; o = I.w == 64 ? dsa (d) : fsa ((float) a.c); break; }
              case Instruction::FPExt: o = dsa ((double) asf (a.c)); break;
              case Instruction::FPTrunc: o = fsa ((float) asd (a.c)); break;
              }
            cur->regs[cur->frames.back ().base + I.dst] = VC (o);
            cur->frames.back ().ip++;
            break;
          }
        case I_OVF:
          {
            unsigned w = I.w2;
            Expr *a = EX (V (I.a), w), *b = EX (V (I.b), w), *v;
            Expr *q = mk_bin (I.sub == 0 ? O_ADD : I.sub == 1 ? O_SUB : O_MUL, a, b);
            if (I.imm == 0) v = q;
            else if (no_overflow (I.sub, a, b)) v = mk_const (0, 1);
            else if (I.sub == 2 && w <= 32)
              {
                Expr *l = mk_bin (O_MUL, mk_sext (a, 2 * w), mk_sext (b, 2 * w));
                v = mk_not (mk_bin (O_EQ, l, mk_sext (mk_extract (l, 0, w), 2 * w)));
              }
            else if (I.sub == 2)
              {
                Expr *z = mk_const (0, w), *m1 = mk_const (~0ULL, w), *mn = mk_const (1ULL << (w - 1), w);
                Expr *bad = mk_not (mk_bin (O_EQ, mk_bin (O_SDIV, q, a), b));
                Expr *m = mk_bin (O_AND, mk_bin (O_EQ, a, m1), mk_bin (O_EQ, b, mn));
                v = mk_ite (mk_bin (O_EQ, a, z), mk_const (0, 1), mk_bin (O_OR, m, bad));
              }
            else
              {
                Expr *x1 = mk_bin (O_XOR, a, I.sub ? b : q), *x2 = I.sub ? mk_bin (O_XOR, a, q) : mk_bin (O_XOR, b, q);
                v = mk_extract (mk_bin (O_AND, x1, x2), w - 1, 1);
              }
            r[I.dst] = VE (v);
            f->ip++;
            break;
          }
        case I_UNREACH:
          if (I.sub) { R.pruned++; return; }
          incomplete ("unreachable reached"); path_end (false); return;
        default:
          incomplete (std::string ("unsupported instruction ") + (I.why ? I.why : "?") + " in " + f->f->name);
          path_end (false);
          return;
        }
    }
}

int main (int argc, char **argv)
{
  std::vector<const char *> files;
  std::string entry = "main";
  for (int i = 1; i < argc; i++)
    {
      std::string a = argv[i];
      if (a == "--entry") entry = argv[++i];
      else if (a == "--out") g_out = argv[++i];
      else if (a == "--case") g_case_filter = atoi (argv[++i]);
      else if (a == "--jobs") g_jobs = atoi (argv[++i]);
      else if (a == "--max-insn") g_max_insn = strtoull (argv[++i], 0, 0);
      else if (a == "--max-paths") g_max_paths = strtoull (argv[++i], 0, 0);
      else if (a == "--max-wall") g_max_wall = atof (argv[++i]);
      else if (a == "--timeout-ms") g_query_timeout_ms = atoi (argv[++i]);
      else if (a == "--heap-zero") g_heap_fill = F_ZERO;
      else if (a == "--stack-junk") g_stack_symb = false;
      else if (a == "--replay")
        {
          g_have_replay = true;
          FILE *f = fopen (argv[++i], "r"); unsigned long long x;
          while (f && fscanf (f, "%llu", &x) == 1) g_replay.push_back (x);
          if (f) fclose (f);
        }
      else files.push_back (argv[i]);
    }
  g_t0 = std::chrono::steady_clock::now ();
  solver_init ();
  CTX = new LLVMContext;
  init_state = new State;
  cur = init_state;
  for (auto f : files) load_module (f);
  link_modules ();
  PassBuilder PB;
  LoopAnalysisManager LAM; FunctionAnalysisManager fam; CGSCCAnalysisManager CGAM; ModuleAnalysisManager MAM;
  FAM = &fam;
  PB.registerModuleAnalyses (MAM); PB.registerCGSCCAnalyses (CGAM); PB.registerFunctionAnalyses (fam); PB.registerLoopAnalyses (LAM);
  PB.crossRegisterProxies (LAM, fam, CGAM, MAM);
  auto it = funcs.find (entry);
  if (it == funcs.end () || !it->second->f || it->second->f->isDeclaration ()) { fprintf (stderr, "symx: no entry %s\n", entry.c_str ()); return 3; }
  decode (it->second);
  // objects may be created lazily by decode (function addresses): those must exist in every state,
  // so decode everything reachable up front.
  for (size_t i = 0; i < func_by_id.size (); i++)
    {
      FuncI *f = func_by_id[i];
      if (f->f && !f->f->isDeclaration ()) decode (f); else { f->decoded = true; f->builtin = builtin_id (f->name); }
    }
  std::vector<Val> args;
  push_frame (it->second, args, -1);
  worklist.push_back (init_state);
  while (!worklist.empty ())
    {
      cur = worklist.back (); worklist.pop_back ();
      if (R.paths >= g_max_paths) { R.incomplete["path limit"]++; break; }
      if (now () > g_max_wall) { R.incomplete["wall limit"]++; break; }
      run_state ();
      delete cur;
    }
  emit_result ();
  fflush (stdout);
  _exit (0);
}
