#include "engine.h"
#include "z3h.h"
#include "exec.h"
namespace sx {
Module* M; const DataLayout* DL;
std::unordered_map<const Function*, DFunc*> dfuncs;
std::unordered_map<const GlobalValue*, uint64_t> gaddr;
std::unordered_map<uint64_t, const Function*> faddr;
std::unordered_map<uint64_t, std::string> gname;

unsigned typeBits(Type* t){ if(t->isIntegerTy()) return t->getIntegerBitWidth(); if(t->isPointerTy()) return 64; if(t->isFloatTy()) return 32; if(t->isDoubleTy()) return 64; if(t->isX86_FP80Ty()) return 80; return 0; }
static uint8_t typeKind(Type* t){ if(t->isVoidTy()) return 0; if(t->isIntegerTy()) return 1; if(t->isFloatingPointTy()) return 2; if(t->isPointerTy()) return 3; return 4; }

Val undefOf(Type* t){
  if(auto* st=dyn_cast<StructType>(t)){ std::vector<Val> v; for(auto* e: st->elements()) v.push_back(undefOf(e)); return Val::A(std::move(v)); }
  if(auto* at=dyn_cast<ArrayType>(t)){ std::vector<Val> v(at->getNumElements(), undefOf(at->getElementType())); return Val::A(std::move(v)); }
  if(auto* vt=dyn_cast<FixedVectorType>(t)){ std::vector<Val> v(vt->getNumElements(), undefOf(vt->getElementType())); return Val::A(std::move(v)); }
  return Val::U(typeBits(t)); }
Val constVal(const Constant* c){
  Type* t=c->getType();
  if(auto* ci=dyn_cast<ConstantInt>(c)){ unsigned b=ci->getBitWidth(); if(b<=64) return Val::I(ci->getZExtValue(),b);
    SmallString<64> s; ci->getValue().toStringUnsigned(s); return Val::S(K(Z3_mk_numeral(C,s.c_str(),bvS(b))),b); }
  if(auto* cf=dyn_cast<ConstantFP>(c)){ if(t->isFloatTy()) return Val::F32(cf->getValueAPF().convertToFloat()); if(t->isDoubleTy()) return Val::F(cf->getValueAPF().convertToDouble());
    if(t->isX86_FP80Ty()){ bool l; APFloat f=cf->getValueAPF(); f.convert(APFloat::IEEEdouble(),APFloat::rmNearestTiesToEven,&l); Val v=Val::F(f.convertToDouble()); return v; } }
  if(isa<ConstantPointerNull>(c)) return Val::I(0,64);
  if(isa<UndefValue>(c)) return undefOf(t);
  if(auto* gv=dyn_cast<GlobalValue>(c)){ if(auto* ga=dyn_cast<GlobalAlias>(gv)) return constVal(ga->getAliasee()); auto it=gaddr.find(gv); if(it==gaddr.end()) fatal("no address for global "+gv->getName().str()); return Val::I(it->second,64); }
  if(isa<ConstantAggregateZero>(c)){ std::vector<Val> v; unsigned n=0; if(auto*st=dyn_cast<StructType>(t)) n=st->getNumElements(); else if(auto*at=dyn_cast<ArrayType>(t)) n=at->getNumElements(); else n=cast<FixedVectorType>(t)->getNumElements();
    for(unsigned i=0;i<n;++i) v.push_back(constVal(c->getAggregateElement(i))); return Val::A(std::move(v)); }
  if(isa<ConstantAggregate>(c)||isa<ConstantDataSequential>(c)){ std::vector<Val> v; unsigned n; if(auto*ca=dyn_cast<ConstantAggregate>(c)) n=ca->getNumOperands(); else n=cast<ConstantDataSequential>(c)->getNumElements();
    for(unsigned i=0;i<n;++i) v.push_back(constVal(c->getAggregateElement(i))); return Val::A(std::move(v)); }
  if(auto* ce=dyn_cast<ConstantExpr>(c)){
    switch(ce->getOpcode()){
      case Instruction::GetElementPtr: { auto* gep=cast<GEPOperator>(ce); APInt off(64,0); if(!gep->accumulateConstantOffset(*DL,off)) fatal("gep constexpr"); Val b=constVal(cast<Constant>(gep->getPointerOperand())); return Val::I(b.u+off.getSExtValue(),64);} 
      case Instruction::BitCast: case Instruction::AddrSpaceCast: return constVal(ce->getOperand(0));
      case Instruction::PtrToInt: { Val b=constVal(ce->getOperand(0)); return Val::I(b.u,typeBits(t)); }
      case Instruction::IntToPtr: { Val b=constVal(ce->getOperand(0)); return Val::I(b.u,64); }
      case Instruction::Trunc: { Val b=constVal(ce->getOperand(0)); return Val::I(b.u,typeBits(t)); }
      case Instruction::Add: case Instruction::Sub: case Instruction::Mul: case Instruction::Xor: { Val a=constVal(ce->getOperand(0)), b=constVal(ce->getOperand(1)); uint64_t r= ce->getOpcode()==Instruction::Add? a.u+b.u : ce->getOpcode()==Instruction::Sub? a.u-b.u : ce->getOpcode()==Instruction::Mul? a.u*b.u : a.u^b.u; return Val::I(r,typeBits(t)); }
      case Instruction::ICmp: { Val a=constVal(ce->getOperand(0)), b=constVal(ce->getOperand(1)); bool r; switch(ce->getPredicate()){case CmpInst::ICMP_EQ:r=a.u==b.u;break;case CmpInst::ICMP_NE:r=a.u!=b.u;break;case CmpInst::ICMP_ULT:r=a.u<b.u;break;case CmpInst::ICMP_UGT:r=a.u>b.u;break;default:fatal("icmp constexpr");r=false;} return Val::I(r,1);} 
    }
    std::string s; raw_string_ostream os(s); ce->print(os); fatal("constexpr "+s);
  }
  std::string s; raw_string_ostream os(s); c->print(os); fatal("constant "+s);
  return Val();
}

DFunc* getFunc(const Function* F){
  auto it=dfuncs.find(F); if(it!=dfuncs.end()) return it->second;
  if(F->isDeclaration()) return nullptr;
  auto* d=new DFunc; dfuncs[F]=d; d->F=F; d->name=F->getName().str();
  std::unordered_map<const Value*,int> slot; std::unordered_map<const BasicBlock*,int> bid; int n=0;
  for(auto& a: F->args()) slot[&a]=n++;
  int nb=0; for(auto& B: *F){ bid[&B]=nb++; for(auto& I: B) if(!I.getType()->isVoidTy()) slot[&I]=n++; }
  d->nslots=n; d->bl.resize(nb);
  auto opnd=[&](const Value* v)->Opnd{ Opnd o; auto s=slot.find(v); if(s!=slot.end()){o.slot=s->second; return o;} o.slot=-1; if(auto*c=dyn_cast<Constant>(v)) o.c=constVal(c); else if(isa<MetadataAsValue>(v)) o.c=Val::U(0); else if(isa<InlineAsm>(v)) o.c=Val::U(64); else fatal("operand"); return o; };
  for(auto& B: *F){ auto& db=d->bl[bid[&B]]; db.bb=&B;
    std::vector<const BasicBlock*> preds; for(auto it2=pred_begin(&B);it2!=pred_end(&B);++it2){ if(std::find(preds.begin(),preds.end(),*it2)==preds.end()) preds.push_back(*it2); }
    for(auto*p:preds) db.preds.push_back(bid[p]);
    for(auto& I: B){
      if(isa<DbgInfoIntrinsic>(I)) continue;
      DInst di; di.op=I.getOpcode(); di.I=&I; di.ty=I.getType(); di.tk=typeKind(I.getType()); di.bits=typeBits(I.getType()); if(!I.getType()->isVoidTy()) di.dst=slot[&I];
      if(auto* phi=dyn_cast<PHINode>(&I)){ std::vector<Opnd> pv; for(auto*p:preds) pv.push_back(opnd(phi->getIncomingValueForBlock(p))); db.phiv.push_back(pv); db.nphi++; db.in.push_back(di); continue; }
      if(auto* br=dyn_cast<BranchInst>(&I)){ if(br->isConditional()){ di.o.push_back(opnd(br->getCondition())); di.b0=bid[br->getSuccessor(0)]; di.b1=bid[br->getSuccessor(1)]; } else di.b0=bid[br->getSuccessor(0)]; db.in.push_back(di); continue; }
      if(auto* sw=dyn_cast<SwitchInst>(&I)){ di.o.push_back(opnd(sw->getCondition())); di.b0=bid[sw->getDefaultDest()]; for(auto& c: sw->cases()) di.cases.push_back({c.getCaseValue()->getZExtValue(), bid[c.getCaseSuccessor()]}); db.in.push_back(di); continue; }
      if(auto* gep=dyn_cast<GetElementPtrInst>(&I)){
        if(gep->getType()->isVectorTy()) fatal("vector gep");
        di.o.push_back(opnd(gep->getPointerOperand()));
        for(auto gi=gep_type_begin(gep), ge=gep_type_end(gep); gi!=ge; ++gi){ const Value* idx=gi.getOperand();
          if(auto* st=gi.getStructTypeOrNull()){ di.goff+=DL->getStructLayout(st)->getElementOffset(cast<ConstantInt>(idx)->getZExtValue()); }
          else { int64_t sc=gi.getSequentialElementStride(*DL); if(auto* ci=dyn_cast<ConstantInt>(idx)) di.goff+=ci->getSExtValue()*sc; else di.gidx.push_back({opnd(idx),sc}); } }
        db.in.push_back(di); continue; }
      if(auto* cb=dyn_cast<CallBase>(&I)){
        for(auto& a: cb->args()) di.o.push_back(opnd(a.get()));
        di.callee=cb->getCalledFunction();
        if(!di.callee) if(auto* ga=dyn_cast<GlobalAlias>(cb->getCalledOperand())) di.callee=dyn_cast<Function>(ga->getAliasee()->stripPointerCasts());
        if(!di.callee) di.o.push_back(opnd(cb->getCalledOperand()));
        if(auto* iv=dyn_cast<InvokeInst>(&I)){ di.b0=bid[iv->getNormalDest()]; di.b1=bid[iv->getUnwindDest()]; }
        if(di.callee) di.builtin=builtinId(di.callee);
        db.in.push_back(di); continue; }
      for(auto& u: I.operands()) { if(isa<BasicBlock>(u.get())) continue; di.o.push_back(opnd(u.get())); }
      db.in.push_back(di);
    } }
  return d;
}
}
