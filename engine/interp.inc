// ---------------------------------------------------------------- predecode
static SVp UNDEF = (SVp)8; static vector<uint32_t> cpoolw;
static int lanesOf(Type *t) { if (t->isVoidTy()) return 0; if (auto *s = dyn_cast<StructType>(t)) { int n = 0; for (auto *e : s->elements()) n += lanesOf(e); return n; } if (auto *a = dyn_cast<ArrayType>(t)) return a->getNumElements() * lanesOf(a->getElementType()); if (auto *v = dyn_cast<FixedVectorType>(t)) return v->getNumElements(); return 1; }
static uint32_t widthOf(Type *t) { if (t->isPointerTy()) return 64; if (t->isIntegerTy()) return t->getIntegerBitWidth(); if (t->isDoubleTy()) return 64; if (t->isFloatTy()) return 32; if (t->isVectorTy()) return widthOf(t->getScalarType()); return 0; }
static Fn *getFn(const Function *f);
static map<const Constant *, int> constIx;
static void flat(const Constant *c, vector<pair<Val, uint32_t>> &out);
static Val constVal(const Constant *c) {
  if (auto *i = dyn_cast<ConstantInt>(c)) { if (i->getBitWidth() <= 64) return cv(i->getZExtValue()); return {0, K->cst(i->getValue())}; }
  if (isa<ConstantPointerNull>(c)) return cv(0);
  if (auto *f = dyn_cast<ConstantFP>(c)) return cv(f->getValueAPF().bitcastToAPInt().getZExtValue());
  if (isa<UndefValue>(c)) return {0, UNDEF};
  if (auto *g = dyn_cast<GlobalValue>(c)) { if (auto *al = dyn_cast<GlobalAlias>(g)) return constVal(al->getAliasee()); auto it = gaddr.find(g); if (it == gaddr.end()) throw Fatal{"no address for global " + g->getName().str()}; return cv(it->second); }
  if (auto *e = dyn_cast<ConstantExpr>(c)) {
    switch (e->getOpcode()) {
    case Instruction::GetElementPtr: { APInt off(64, 0); if (!cast<GEPOperator>(e)->accumulateConstantOffset(*DL, off)) throw Fatal{"const gep"}; return cv(constVal(e->getOperand(0)).c + off.getSExtValue()); }
    case Instruction::PtrToInt: case Instruction::IntToPtr: case Instruction::BitCast: return cv(constVal(e->getOperand(0)).c & mask(widthOf(e->getType())));
    case Instruction::Trunc: return cv(constVal(e->getOperand(0)).c & mask(widthOf(e->getType())));
    case Instruction::Add: return cv((constVal(e->getOperand(0)).c + constVal(e->getOperand(1)).c) & mask(widthOf(e->getType())));
    case Instruction::Sub: return cv((constVal(e->getOperand(0)).c - constVal(e->getOperand(1)).c) & mask(widthOf(e->getType())));
    default: break; }
  }
  string s; raw_string_ostream o(s); c->print(o); throw Fatal{"unsupported constant " + s};
}
static void flat(const Constant *c, vector<pair<Val, uint32_t>> &out) {
  Type *t = c->getType();
  if (t->isStructTy() || t->isArrayTy() || t->isVectorTy()) { unsigned n = t->isStructTy() ? t->getStructNumElements() : t->isArrayTy() ? t->getArrayNumElements() : cast<FixedVectorType>(t)->getNumElements(); for (unsigned i = 0; i < n; i++) { if (isa<UndefValue>(c)) { Type *et = t->isStructTy() ? t->getStructElementType(i) : t->isArrayTy() ? t->getArrayElementType() : t->getScalarType(); flat(UndefValue::get(et), out); } else flat(c->getAggregateElement(i), out); } return; }
  out.push_back({constVal(c), widthOf(t)});
}
struct Dec { Fn *F; DenseMap<const Value *, int> reg; };
static int opnd(Dec &D, const Value *v) {
  if (auto *c = dyn_cast<Constant>(v)) { auto it = constIx.find(c); if (it != constIx.end()) return ~it->second; vector<pair<Val, uint32_t>> fl; flat(c, fl); int ix = cpool.size(); for (auto &x : fl) { cpool.push_back(x.first); cpoolw.push_back(x.second); } constIx[c] = ix; return ~ix; }
  auto it = D.reg.find(v); if (it == D.reg.end()) return ~0x3fffffff; return it->second;
}
static inline int lane(int op, int i) { return op >= 0 ? op + i : ~((~op) + i); }
static int builtinId(const string &n);
static void decode(Fn *F) {
  F->ready = true; Function *f = F->f; Dec D; D.F = F; int nr = 0; auto addReg = [&](const Value *v) { int n = lanesOf(v->getType()); D.reg[v] = nr; vector<Type *> ts; function<void(Type *)> rec = [&](Type *t) { if (t->isStructTy()) for (auto *e : t->subtypes()) rec(e); else if (t->isArrayTy()) for (unsigned i = 0; i < t->getArrayNumElements(); i++) rec(t->getArrayElementType()); else if (auto *vt = dyn_cast<FixedVectorType>(t)) for (unsigned i = 0; i < vt->getNumElements(); i++) ts.push_back(vt->getElementType()); else ts.push_back(t); }; if (n) rec(v->getType()); for (auto *t : ts) { F->isptr.push_back(t->isPointerTy()); F->regw.push_back(widthOf(t)); } nr += n; };
  for (auto &a : f->args()) addReg(&a); F->nargs = nr;
  DenseMap<const BasicBlock *, int> bix; int bi = 0; for (auto &B : *f) { bix[&B] = bi++; for (auto &I : B) if (!I.getType()->isVoidTy()) addReg(&I); }
  F->nregs = nr; F->blks.resize(bi);
  PostDominatorTree PDT(*f);
  auto edge = [&](const BasicBlock *from, const BasicBlock *to) { Edge e; e.block = bix[to]; for (auto &ph : to->phis()) { int n = lanesOf(ph.getType()); int s = opnd(D, ph.getIncomingValueForBlock(from)), d = D.reg[&ph]; for (int i = 0; i < n; i++) e.cp.push_back({d + i, lane(s, i), 0}); } F->edges.push_back(e); return (int)F->edges.size() - 1; };
  for (auto &B : *f) {
    Blk &b = F->blks[bix[&B]]; b.start = F->code.size(); b.name = B.getName().str(); if (auto *nd = PDT.getNode(&B)) if (auto *ip = nd->getIDom()) if (ip->getBlock()) b.ipdom = bix[ip->getBlock()];
    for (auto &I : B) {
      if (isa<PHINode>(I)) continue; In x; x.op = X_UNSUP; x.src = &I; Type *T = I.getType(); if (!T->isVoidTy()) { x.dst = D.reg[&I]; x.lanes = lanesOf(T); x.w = widthOf(T); x.ptr = T->isPtrOrPtrVectorTy(); }
      if (auto *bo = dyn_cast<BinaryOperator>(&I)) { static const map<unsigned, OpC> m = {{Instruction::Add, X_ADD}, {Instruction::Sub, X_SUB}, {Instruction::Mul, X_MUL}, {Instruction::UDiv, X_UDIV}, {Instruction::SDiv, X_SDIV}, {Instruction::URem, X_UREM}, {Instruction::SRem, X_SREM}, {Instruction::Shl, X_SHL}, {Instruction::LShr, X_LSHR}, {Instruction::AShr, X_ASHR}, {Instruction::And, X_AND}, {Instruction::Or, X_OR}, {Instruction::Xor, X_XOR}, {Instruction::FAdd, X_FADD}, {Instruction::FSub, X_FSUB}, {Instruction::FMul, X_FMUL}, {Instruction::FDiv, X_FDIV}, {Instruction::FRem, X_FREM}}; x.op = m.at(bo->getOpcode()); x.a = opnd(D, bo->getOperand(0)); x.b = opnd(D, bo->getOperand(1)); }
      else if (auto *c = dyn_cast<ICmpInst>(&I)) { x.op = X_ICMP; x.sub = c->getPredicate(); x.a = opnd(D, c->getOperand(0)); x.b = opnd(D, c->getOperand(1)); x.w = widthOf(c->getOperand(0)->getType()); x.ptr = c->getOperand(0)->getType()->isPtrOrPtrVectorTy(); }
      else if (auto *c = dyn_cast<FCmpInst>(&I)) { x.op = X_FCMP; x.sub = c->getPredicate(); x.a = opnd(D, c->getOperand(0)); x.b = opnd(D, c->getOperand(1)); x.w = widthOf(c->getOperand(0)->getType()); }
      else if (auto *s = dyn_cast<SelectInst>(&I)) { x.op = X_SELECT; x.a = opnd(D, s->getCondition()); x.b = opnd(D, s->getTrueValue()); x.c = opnd(D, s->getFalseValue()); x.sub = s->getCondition()->getType()->isVectorTy(); }
      else if (auto *g = dyn_cast<GetElementPtrInst>(&I)) { x.op = X_GEP; x.a = opnd(D, g->getPointerOperand()); vector<GepT> t; int64_t imm = 0; for (auto it = gep_type_begin(g), e = gep_type_end(g); it != e; ++it) { Value *op = it.getOperand(); if (StructType *st = it.getStructTypeOrNull()) { imm += DL->getStructLayout(st)->getElementOffset(cast<ConstantInt>(op)->getZExtValue()); } else { int64_t sz = DL->getTypeAllocSize(it.getIndexedType()); if (auto *ci = dyn_cast<ConstantInt>(op)) imm += ci->getSExtValue() * sz; else t.push_back({opnd(D, op), sz, (uint16_t)widthOf(op->getType())}); } } x.imm = imm; x.x = F->geps.size(); F->geps.push_back(t); }
      else if (auto *l = dyn_cast<LoadInst>(&I)) { x.op = X_LOAD; x.a = opnd(D, l->getPointerOperand()); x.sub = l->isAtomic(); if (T->isFloatTy() || T->isStructTy()) x.op = T->isFloatTy() ? X_LOAD : X_UNSUP; }
      else if (auto *s = dyn_cast<StoreInst>(&I)) { x.op = X_STORE; x.a = opnd(D, s->getPointerOperand()); x.b = opnd(D, s->getValueOperand()); Type *vt = s->getValueOperand()->getType(); x.w = widthOf(vt); x.ptr = vt->isPtrOrPtrVectorTy(); x.lanes = lanesOf(vt); x.sub = s->isAtomic(); if (vt->isStructTy()) x.op = X_UNSUP; }
      else if (auto *a = dyn_cast<AllocaInst>(&I)) { x.op = X_ALLOCA; x.imm = DL->getTypeAllocSize(a->getAllocatedType()); x.a = opnd(D, a->getArraySize()); }
      else if (auto *c = dyn_cast<CallBase>(&I)) {
        x.op = X_CALL; vector<int> args; for (auto &u : c->args()) { if (u->getType()->isMetadataTy()) { args.push_back(~0x3fffffff); continue; } int n = lanesOf(u->getType()), o = opnd(D, u); for (int i = 0; i < n; i++) args.push_back(lane(o, i)); } x.x = F->lists.size(); F->lists.push_back(args); vector<uint64_t> ws; for (auto &u : c->args()) ws.push_back(u->getType()->isMetadataTy() ? 0 : widthOf(u->getType()) | (u->getType()->isPointerTy() ? 0x10000 : 0)); F->clists.resize(max(F->clists.size(), F->lists.size())); F->clists[x.x] = ws;
        if (auto *cf = c->getCalledFunction()) { Fn *t = getFn(cf); x.b = -2; x.imm = (int64_t)t; } else if (isa<InlineAsm>(c->getCalledOperand())) x.op = X_UNSUP; else { x.b = opnd(D, c->getCalledOperand()); x.imm = 0; }
        // byval pointers are passed by reference: copy is made by the callee frame setup
        for (unsigned i = 0; i < c->arg_size(); i++) if (c->isByValArgument(i)) x.sub = 1;
      }
      else if (auto *r = dyn_cast<ReturnInst>(&I)) { x.op = X_RET; x.a = r->getReturnValue() ? opnd(D, r->getReturnValue()) : -1; x.lanes = r->getReturnValue() ? lanesOf(r->getReturnValue()->getType()) : 0; }
      else if (auto *br = dyn_cast<BranchInst>(&I)) { if (br->isUnconditional()) { x.op = X_BR; x.a = edge(&B, br->getSuccessor(0)); } else { x.op = X_CBR; x.c = opnd(D, br->getCondition()); x.a = edge(&B, br->getSuccessor(0)); x.b = edge(&B, br->getSuccessor(1)); } }
      else if (auto *sw = dyn_cast<SwitchInst>(&I)) { x.op = X_SWITCH; x.a = opnd(D, sw->getCondition()); x.w = widthOf(sw->getCondition()->getType()); x.b = edge(&B, sw->getDefaultDest()); vector<int> tg; vector<uint64_t> vs; for (auto &cs : sw->cases()) { vs.push_back(cs.getCaseValue()->getZExtValue()); tg.push_back(edge(&B, cs.getCaseSuccessor())); } x.x = F->lists.size(); F->lists.push_back(tg); F->clists.resize(F->lists.size()); F->clists[x.x] = vs; }
      else if (isa<UnreachableInst>(I)) x.op = X_UNREACH;
      else if (auto *ca = dyn_cast<CastInst>(&I)) { x.a = opnd(D, ca->getOperand(0)); x.w2 = widthOf(ca->getSrcTy()); switch (ca->getOpcode()) { case Instruction::Trunc: x.op = X_TRUNC; break; case Instruction::ZExt: x.op = X_ZEXT; break; case Instruction::SExt: x.op = X_SEXT; break; case Instruction::PtrToInt: x.op = X_PTRTOINT; break; case Instruction::IntToPtr: x.op = X_INTTOPTR; break; case Instruction::BitCast: x.op = lanesOf(ca->getSrcTy()) == lanesOf(T) ? X_COPY : X_UNSUP; break; case Instruction::FPExt: case Instruction::FPTrunc: x.op = X_FPCAST; break; case Instruction::FPToUI: x.op = X_FPTOUI; break; case Instruction::FPToSI: x.op = X_FPTOSI; break; case Instruction::UIToFP: x.op = X_UITOFP; break; case Instruction::SIToFP: x.op = X_SITOFP; break; default: break; } }
      else if (isa<FreezeInst>(I)) { x.op = X_COPY; x.a = opnd(D, I.getOperand(0)); }
      else if (auto *u = dyn_cast<UnaryOperator>(&I)) { if (u->getOpcode() == Instruction::FNeg) { x.op = X_FNEG; x.a = opnd(D, u->getOperand(0)); } }
      else if (auto *ev = dyn_cast<ExtractValueInst>(&I)) { int off = 0; Type *t = ev->getAggregateOperand()->getType(); for (unsigned ix : ev->indices()) { if (auto *st = dyn_cast<StructType>(t)) { for (unsigned i = 0; i < ix; i++) off += lanesOf(st->getElementType(i)); t = st->getElementType(ix); } else { t = t->getArrayElementType(); off += ix * lanesOf(t); } } x.op = X_COPY; x.a = lane(opnd(D, ev->getAggregateOperand()), off); }
      else if (auto *iv = dyn_cast<InsertValueInst>(&I)) { int off = 0; Type *t = T; for (unsigned ix : iv->indices()) { if (auto *st = dyn_cast<StructType>(t)) { for (unsigned i = 0; i < ix; i++) off += lanesOf(st->getElementType(i)); t = st->getElementType(ix); } else { t = t->getArrayElementType(); off += ix * lanesOf(t); } } x.op = X_MULTICOPY; vector<int> src; int n = lanesOf(T), a = opnd(D, iv->getAggregateOperand()), v = opnd(D, iv->getInsertedValueOperand()), nv = lanesOf(iv->getInsertedValueOperand()->getType()); for (int i = 0; i < n; i++) src.push_back(i >= off && i < off + nv ? lane(v, i - off) : lane(a, i)); x.x = F->lists.size(); F->lists.push_back(src); }
      else if (auto *ee = dyn_cast<ExtractElementInst>(&I)) { if (auto *ci = dyn_cast<ConstantInt>(ee->getIndexOperand())) { x.op = X_COPY; x.a = lane(opnd(D, ee->getVectorOperand()), ci->getZExtValue()); } }
      else if (auto *ie = dyn_cast<InsertElementInst>(&I)) { if (auto *ci = dyn_cast<ConstantInt>(ie->getOperand(2))) { x.op = X_MULTICOPY; vector<int> src; int a = opnd(D, ie->getOperand(0)), v = opnd(D, ie->getOperand(1)); for (int i = 0; i < x.lanes; i++) src.push_back(i == (int)ci->getZExtValue() ? v : lane(a, i)); x.x = F->lists.size(); F->lists.push_back(src); } }
      else if (auto *sh = dyn_cast<ShuffleVectorInst>(&I)) { x.op = X_MULTICOPY; vector<int> src; int n0 = lanesOf(sh->getOperand(0)->getType()), a = opnd(D, sh->getOperand(0)), b2 = opnd(D, sh->getOperand(1)); for (int i = 0; i < x.lanes; i++) { int mk = sh->getMaskValue(i); src.push_back(mk < 0 ? a : mk < n0 ? lane(a, mk) : lane(b2, mk - n0)); } x.x = F->lists.size(); F->lists.push_back(src); }
      else if (auto *rm = dyn_cast<AtomicRMWInst>(&I)) { x.op = X_RMW; x.sub = rm->getOperation(); x.a = opnd(D, rm->getPointerOperand()); x.b = opnd(D, rm->getValOperand()); }
      else if (auto *cx = dyn_cast<AtomicCmpXchgInst>(&I)) { x.op = X_CMPXCHG; x.a = opnd(D, cx->getPointerOperand()); x.b = opnd(D, cx->getCompareOperand()); x.c = opnd(D, cx->getNewValOperand()); x.w = widthOf(cx->getCompareOperand()->getType()); }
      F->code.push_back(x);
    }
    F->blks[bix[&B]].end = F->code.size();
  }
  F->clists.resize(F->lists.size());
  // liveness (registers read in block before written; phi copies belong to the edge)
  int nb = F->blks.size(); vector<vector<bool>> use(nb, vector<bool>(nr, false)), def(nb, vector<bool>(nr, false)); vector<vector<int>> succ(nb);
  auto U = [&](int b, int op, int n) { if (op >= 0) for (int i = 0; i < n; i++) if (op + i < nr && !def[b][op + i]) use[b][op + i] = true; };
  for (int b = 0; b < nb; b++) for (int p = F->blks[b].start; p < F->blks[b].end; p++) { In &x = F->code[p];
      switch (x.op) { case X_CALL: for (int a : F->lists[x.x]) U(b, a, 1); if (x.b >= 0) U(b, x.b, 1); break; case X_MULTICOPY: for (int a : F->lists[x.x]) U(b, a, 1); break; case X_BR: succ[b].push_back(x.a); break; case X_CBR: U(b, x.c, 1); succ[b].push_back(x.a); succ[b].push_back(x.b); break; case X_SWITCH: U(b, x.a, 1); succ[b].push_back(x.b); for (int e : F->lists[x.x]) succ[b].push_back(e); break;
        case X_GEP: U(b, x.a, x.lanes); for (auto &g : F->geps[x.x]) U(b, g.op, 1); break;
        default: { int L = max(1, x.lanes); U(b, x.a, L); U(b, x.b, L); U(b, x.c, L); } }
      if (x.dst >= 0) for (int i = 0; i < max(1, x.lanes); i++) if (x.dst + i < nr) def[b][x.dst + i] = true; }
  vector<vector<bool>> in(nb, vector<bool>(nr, false)); bool ch = true;
  while (ch) { ch = false; for (int b = nb - 1; b >= 0; b--) { vector<bool> out(nr, false); for (int ei : succ[b]) { auto &e = F->edges[ei]; vector<bool> t = in[e.block]; for (auto &c : e.cp) t[c[0]] = false; for (auto &c : e.cp) if (c[1] >= 0) t[c[1]] = true; for (int i = 0; i < nr; i++) if (t[i]) out[i] = true; } // edge sources read after block defs
      for (int i = 0; i < nr; i++) { bool v = use[b][i] || (out[i] && !def[b][i]); if (v && !in[b][i]) { in[b][i] = true; ch = true; } } } }
  for (int b = 0; b < nb; b++) F->blks[b].live = in[b];
}
static Fn *getFn(const Function *f) {
  auto it = fnOf.find(f); if (it != fnOf.end()) return it->second;
  Fn *F = new Fn; F->f = const_cast<Function *>(f); F->name = f->getName().str(); fnOf[f] = F; fns.push_back(F);
  if (f->isDeclaration() || builtinId(F->name) >= 0) F->builtin = builtinId(F->name);
  return F;
}

// ---------------------------------------------------------------- execution
#define FR (S->st.back())
static inline Val get(Frame &f, int op) { if (op >= 0) return f.r[op]; Val v = cpool[~op]; if (__builtin_expect(v.s == UNDEF, 0)) { uint32_t w = cpoolw[~op]; return {0, nullptr}; } return v; }
static Val getU(Frame &f, int op) { if (op < 0 && cpool[~op].s == UNDEF && !f.f->code.empty()) { SVp v = freshUninit(cpoolw[~op]); return {0, v}; } return get(f, op); }
static Val binop(uint16_t op, uint32_t w, const Val &a, const Val &b) {
  if (!a.s && !b.s) { uint64_t x = a.c, y = b.c, m = mask(w); int64_t sx = w < 64 ? (int64_t)(x << (64 - w)) >> (64 - w) : (int64_t)x, sy = w < 64 ? (int64_t)(y << (64 - w)) >> (64 - w) : (int64_t)y;
    switch (op) { case X_ADD: return cv((x + y) & m); case X_SUB: return cv((x - y) & m); case X_MUL: return cv((x * y) & m); case X_AND: return cv(x & y); case X_OR: return cv(x | y); case X_XOR: return cv(x ^ y);
    case X_SHL: return cv(y >= w ? 0 : (x << y) & m); case X_LSHR: return cv(y >= w ? 0 : x >> y); case X_ASHR: return cv(y >= w ? (sx < 0 ? m : 0) : (uint64_t)(sx >> y) & m);
    case X_UDIV: case X_UREM: case X_SDIV: case X_SREM: if (!y) report("arithmetic", "division by zero", nullptr); if (op == X_UDIV) return cv(x / y); if (op == X_UREM) return cv(x % y); if (sy == -1) return cv(op == X_SDIV ? (uint64_t)(-sx) & m : 0); return cv((uint64_t)(op == X_SDIV ? sx / sy : sx % sy) & m); } }
  SVp x = sv(a, w), y = sv(b, w), r = nullptr;
  switch (op) {
  case X_ADD: r = K->add(x, y); break; case X_SUB: r = K->sub(x, y); break; case X_MUL: r = K->mul(x, y); break;
  case X_AND: r = K->bitop(0, x, y); break; case X_OR: r = K->bitop(1, x, y); break; case X_XOR: r = K->bitop(2, x, y); break;
  case X_SHL: r = K->shift(N_SHL, x, y); break; case X_LSHR: r = K->shift(N_LSHR, x, y); break; case X_ASHR: r = K->shift(N_ASHR, x, y); break;
  default: { APInt k; if (!K->isConst(y, &k) || k.isZero()) { Bit z = K->eq(y, K->cst(APInt(w, 0))); if (knownBit(z) != 0) { shared_ptr<Model> md; int f = feasible(z, &md); if (f == 1) report("arithmetic", "division by zero", md); if (f == -1) incomplete.push_back("solver unknown on divisor at " + userLoc()); } }
    r = K->divop(op == X_UDIV ? N_UDIV : op == X_UREM ? N_UREM : op == X_SDIV ? N_SDIV : N_SREM, x, y); } }
  return w <= 64 ? mkv(r) : Val{0, r};
}
static Val icmp(uint16_t p, uint32_t w, bool ptr, Val a, Val b) {
  if (!a.s && !b.s) { uint64_t x = a.c, y = b.c; int64_t sx = w < 64 ? (int64_t)(x << (64 - w)) >> (64 - w) : (int64_t)x, sy = w < 64 ? (int64_t)(y << (64 - w)) >> (64 - w) : (int64_t)y;
    switch (p) { case CmpInst::ICMP_EQ: return cv(x == y); case CmpInst::ICMP_NE: return cv(x != y); case CmpInst::ICMP_ULT: return cv(x < y); case CmpInst::ICMP_ULE: return cv(x <= y); case CmpInst::ICMP_UGT: return cv(x > y); case CmpInst::ICMP_UGE: return cv(x >= y); case CmpInst::ICMP_SLT: return cv(sx < sy); case CmpInst::ICMP_SLE: return cv(sx <= sy); case CmpInst::ICMP_SGT: return cv(sx > sy); default: return cv(sx >= sy); } }
  SVp x, y; if (ptr) { if ((p == CmpInst::ICMP_EQ || p == CmpInst::ICMP_NE) && (a.c >> 32) != (b.c >> 32) && (!a.c || !b.c) ) return cv(p == CmpInst::ICMP_NE); if (a.s == b.s) return icmp(p, w, false, cv(a.c), cv(b.c));
    // compare relative to the first base, so that the linear forms stay small
    uint64_t base = a.c & ~0xffffffffull; if ((b.c & ~0xffffffffull) == base) { a.c -= base; b.c -= base; } x = ptrSV(a); y = ptrSV(b); } else { x = sv(a, w); y = sv(b, w); }
  Bit r; switch (p) { case CmpInst::ICMP_EQ: r = K->eq(x, y); break; case CmpInst::ICMP_NE: r = K->eq(x, y) ^ 1; break; case CmpInst::ICMP_ULT: r = K->ult(x, y); break; case CmpInst::ICMP_UGE: r = K->ult(x, y) ^ 1; break; case CmpInst::ICMP_UGT: r = K->ult(y, x); break; case CmpInst::ICMP_ULE: r = K->ult(y, x) ^ 1; break; case CmpInst::ICMP_SLT: r = K->slt(x, y); break; case CmpInst::ICMP_SGE: r = K->slt(x, y) ^ 1; break; case CmpInst::ICMP_SGT: r = K->slt(y, x); break; default: r = K->slt(y, x) ^ 1; break; }
  int k = knownBit(r); if (k >= 0) return cv(k); return {0, K->mkSV({r})};
}
static bool mergeVal(Bit c, bool ptr, uint32_t w, const Val &a, const Val &b, Val &o) {
  if (a.c == b.c && a.s == b.s) { o = a; return true; }
  if (ptr) { if ((a.c >> 32) != (b.c >> 32) || !(a.c >> 32)) return false; SVp za = a.s ? a.s : K->cst(APInt(64, 0)), zb = b.s ? b.s : K->cst(APInt(64, 0)); zb = K->add(zb, K->cst(APInt(64, b.c - a.c))); SVp r = K->ite(c, za, zb); APInt k; if (K->isConst(r, &k)) o = {a.c + k.getZExtValue(), nullptr}; else o = {a.c, r}; return true; }
  SVp x = sv(a, w), y = sv(b, w); if (x->w() != w || y->w() != w) return false; SVp r = K->ite(c, x, y); o = w <= 64 ? mkv(r) : Val{0, r}; return true;
}
static void takeEdge(int e) { Frame &f = FR; Edge &E = f.f->edges[e]; size_t n = E.cp.size(); if (n) { Val tmp[64]; vector<Val> big; Val *t = tmp; if (n > 64) { big.resize(n); t = big.data(); } for (size_t i = 0; i < n; i++) t[i] = getU(f, E.cp[i][1]); for (size_t i = 0; i < n; i++) f.r[E.cp[i][0]] = t[i]; } f.blk = E.block; f.pc = f.f->blks[E.block].start; }
static void runLoop(size_t stopDepth, int stopBlk);
static bool mergeStates(State &a, State &b, State &o, Bit c, int J) {
  size_t d = o.st.size(); if (a.st.size() != d || b.st.size() != d || a.seq.size() != o.seq.size() || b.seq.size() != o.seq.size() || a.omp_tid != b.omp_tid || a.heaplive != b.heaplive) return false;
  size_t n = max(a.objs.size(), b.objs.size()); a.objs.resize(n); b.objs.resize(n);
  Frame &fa = a.st.back(), &fb = b.st.back(); if (fa.allocas != fb.allocas) return false; auto &live = fa.f->blks[J].live; vector<Val> nr(fa.r.size(), Val{0, nullptr});
  for (size_t i = 0; i < fa.r.size(); i++) if (live[i]) { if (!mergeVal(c, fa.f->isptr[i], fa.f->regw[i], fa.r[i], fb.r[i], nr[i])) return false; }
  State *sv_ = S; vector<pair<uint32_t, ObjP>> upd;
  for (size_t i = 0; i < n; i++) { if (a.objs[i] == b.objs[i]) continue; if (!a.objs[i] || !b.objs[i]) return false; Obj &x = *a.objs[i], &y = *b.objs[i]; if (x.size != y.size || x.alive != y.alive || x.kind != y.kind) return false; if (!x.alive) continue;
    ObjP r = make_shared<Obj>(x); bool bad = false;
    for (uint64_t k = 0; k < x.size; k++) { bool ux = !x.un.empty() && x.un[k], uy = !y.un.empty() && y.un[k]; if (ux && uy) { continue; } SVp p = x.sy.empty() ? nullptr : x.sy[k], q = y.sy.empty() ? nullptr : y.sy[k]; if (!ux && !uy && p == q && (p || x.d[k] == y.d[k])) continue;
      SVp P = ux ? freshUninit(8) : p ? p : K->cst(APInt(8, x.d[k])), Q = uy ? freshUninit(8) : q ? q : K->cst(APInt(8, y.d[k])); Val m = mkv(K->ite(c, P, Q)); if (ux || uy) { if (!r->un.empty()) r->un[k] = 0; }
      if (m.s) { if (r->sy.empty()) r->sy.assign(r->size, nullptr); r->sy[k] = m.s; } else { r->d[k] = m.c; if (!r->sy.empty()) r->sy[k] = nullptr; } }
    (void)bad; upd.push_back({(uint32_t)i, r}); }
  (void)sv_; // commit into o
  o.objs = a.objs; for (auto &u : upd) o.objs[u.first] = u.second;
  o.freeIds.clear(); for (size_t i = 1; i < o.objs.size(); i++) if (!o.objs[i]) o.freeIds.push_back(i);
  Frame &fo = o.st.back(); fo.r = nr; fo.blk = J; fo.pc = fo.f->blks[J].start; fo.allocas = fa.allocas; o.nalloc = max(a.nalloc, b.nalloc); o.heaplive = a.heaplive; for (auto &r : a.reach) o.reach.push_back(r); return true;
}
static bool tryMerge(In &in, Bit c, int te, int fe, shared_ptr<Model> mt, shared_ptr<Model> mf) {
  int J = FR.f->blks[FR.blk].ipdom; if (J < 0 || !S->merge || inMerge >= 10 || in.mfail >= 3) return false;
  State *o = S; State a(*o), b(*o); bool ok = true; size_t d = o->st.size(); if (!inMerge) mergeBudgetEnd = nInstr + 200000; inMerge++;
  try { S = &a; learn(c); S->model = mt; takeEdge(te); if (FR.blk != J) runLoop(d, J); S = &b; learn(c ^ 1); S->model = mf; takeEdge(fe); if (FR.blk != J) runLoop(d, J); }
  catch (MergeAbort &x) { ok = false; if (optTrace) cerr << "merge abort: " << x.why << " at " << locOf(in.src) << "\n"; } catch (PathEnd &) { ok = false; }
  S = o; if (ok) { ok = mergeStates(a, b, *o, c, J); if (!ok && optTrace) cerr << "merge mismatch at " << locOf(in.src) << "\n"; } inMerge--;
  if (!ok && !(mt && mf)) return false; if (!ok) { nMergeAborts++; in.mfail++; if (inMerge) throw MergeAbort{"nested"}; return false; }
  nMerges++; return true;
}
static void popAllocas(Frame &f) { for (auto id : f.allocas) { S->objs[id] = nullptr; S->freeIds.push_back(id); } }
static Val callBuiltin(Fn *t, In &in, vector<Val> &args, Frame &f);
static bool ompSwitched = false;
static bool ompSwitch() { ompSwitched = true; // pick the next runnable thread; false when the region is finished
  int n = S->omp_n; for (int pass = 0; pass < 2; pass++) { for (int q = 0; q < n; q++) if (int t = S->omp_rev ? n - 1 - q : q; S->thst[t] == 0) { S->omp_tid = t; for (auto &fr : S->park[t]) S->st.push_back(std::move(fr)); S->park[t].clear(); return true; }
    bool any = false; for (int t = 0; t < n; t++) if (S->thst[t] == 1) { S->thst[t] = 0; any = true; } if (!any) break; S->race = make_shared<Race>(); }
  S->omp_tid = -1; S->race = nullptr; S->ompBase = 0; return false;
}
static double fval(const Val &v, uint32_t w) { if (v.s) throw Fatal{"symbolic floating point at " + userLoc()}; if (w == 32) { float x; uint32_t c = v.c; memcpy(&x, &c, 4); return x; } return asD(v.c); }
static Val fret(double d, uint32_t w) { if (w == 32) { float x = d; uint32_t c; memcpy(&c, &x, 4); return cv(c); } return cv(asU(d)); }
static void runLoop(size_t stopDepth, int stopBlk) {
  for (;;) {
    Frame &f = S->st.back(); In &in = f.f->code[f.pc]; nInstr++; f.f->icount++;
    if (__builtin_expect((nInstr & 0xfffff) == 0, 0)) { if (now() - T0 > optTimeout) throw Fatal{"timeout"}; }
    switch (in.op) {
    case X_ADD: case X_SUB: case X_MUL: case X_UDIV: case X_SDIV: case X_UREM: case X_SREM: case X_SHL: case X_LSHR: case X_ASHR: case X_AND: case X_OR: case X_XOR:
      for (int i = 0; i < in.lanes; i++) f.r[in.dst + i] = binop(in.op, in.w, get(f, lane(in.a, i)), get(f, lane(in.b, i))); f.pc++; break;
    case X_FADD: case X_FSUB: case X_FMUL: case X_FDIV: case X_FREM: { double a = fval(get(f, in.a), in.w), b = fval(get(f, in.b), in.w), r = in.op == X_FADD ? a + b : in.op == X_FSUB ? a - b : in.op == X_FMUL ? a * b : in.op == X_FDIV ? a / b : fmod(a, b); f.r[in.dst] = fret(r, in.w); f.pc++; break; }
    case X_FNEG: f.r[in.dst] = fret(-fval(get(f, in.a), in.w), in.w); f.pc++; break;
    case X_ICMP: for (int i = 0; i < in.lanes; i++) f.r[in.dst + i] = icmp(in.sub, in.w, in.ptr, get(f, lane(in.a, i)), get(f, lane(in.b, i))); f.pc++; break;
    case X_FCMP: { double a = fval(get(f, in.a), in.w), b = fval(get(f, in.b), in.w); bool un = std::isnan(a) || std::isnan(b), r = false; switch (in.sub) { case CmpInst::FCMP_OEQ: r = !un && a == b; break; case CmpInst::FCMP_OGT: r = !un && a > b; break; case CmpInst::FCMP_OGE: r = !un && a >= b; break; case CmpInst::FCMP_OLT: r = !un && a < b; break; case CmpInst::FCMP_OLE: r = !un && a <= b; break; case CmpInst::FCMP_ONE: r = !un && a != b; break; case CmpInst::FCMP_ORD: r = !un; break; case CmpInst::FCMP_UNO: r = un; break; case CmpInst::FCMP_UEQ: r = un || a == b; break; case CmpInst::FCMP_UGT: r = un || a > b; break; case CmpInst::FCMP_UGE: r = un || a >= b; break; case CmpInst::FCMP_ULT: r = un || a < b; break; case CmpInst::FCMP_ULE: r = un || a <= b; break; case CmpInst::FCMP_UNE: r = un || a != b; break; case CmpInst::FCMP_TRUE: r = true; break; } f.r[in.dst] = cv(r); f.pc++; break; }
    case X_SELECT: for (int i = 0; i < in.lanes; i++) { Val c = get(f, in.sub ? lane(in.a, i) : in.a); Val a = get(f, lane(in.b, i)), b = get(f, lane(in.c, i));
        if (!c.s) f.r[in.dst + i] = c.c ? a : b; else { Bit k = c.s->b[0]; int kb = knownBit(k); if (kb >= 0) f.r[in.dst + i] = kb ? a : b; else { Val o; if (mergeVal(k, f.f->isptr[in.dst + i], f.f->regw[in.dst + i], a, b, o)) f.r[in.dst + i] = o; else { bool t = decide(k); S->st.back().r[in.dst + i] = t ? a : b; } } } }
      S->st.back().pc++; break;
    case X_COPY: for (int i = 0; i < in.lanes; i++) f.r[in.dst + i] = getU(f, lane(in.a, i)); f.pc++; break;
    case X_MULTICOPY: { auto &l = f.f->lists[in.x]; vector<Val> t; for (int a : l) t.push_back(get(f, a)); for (size_t i = 0; i < t.size(); i++) f.r[in.dst + i] = t[i]; f.pc++; break; }
    case X_GEP: { Val p = get(f, in.a); p.c += in.imm; SVp off = p.s; for (auto &g : f.f->geps[in.x]) { Val ix = get(f, g.op); if (!ix.s) { int64_t k = g.w < 64 ? (int64_t)(ix.c << (64 - g.w)) >> (64 - g.w) : (int64_t)ix.c; p.c += k * g.scale; } else { auto itc = S->conc.find(ix.s->id); if (itc != S->conc.end()) { int64_t k = g.w < 64 ? (int64_t)(itc->second << (64 - g.w)) >> (64 - g.w) : (int64_t)itc->second; p.c += k * g.scale; continue; } SVp x = K->sext(ix.s, 64); if (g.scale != 1) x = K->mul(x, K->cst(APInt(64, g.scale))); off = off ? K->add(off, x) : x; } } APInt k; if (off && K->isConst(off, &k)) { p.c += k.getZExtValue(); off = nullptr; } p.s = off; f.r[in.dst] = p; f.pc++; break; }
    case X_LOAD: { if (in.sub) S->crit++; Val p = get(f, in.a); for (int i = 0; i < in.lanes; i++) { Val q = p; q.c += (uint64_t)i * (in.w / 8); Val v = load(q, in.w); if (f.f->isptr[in.dst + i] && v.s) v = ptrFromSV(v.s); S->st.back().r[in.dst + i] = v; } if (in.sub) S->crit--; S->st.back().pc++; break; }
    case X_STORE: { if (in.sub) S->crit++; Val p = get(f, in.a); for (int i = 0; i < in.lanes; i++) { Val q = p; q.c += (uint64_t)i * (in.w / 8); int op = lane(in.b, i); if (op < 0 && cpool[~op].s == UNDEF) continue; Val v = get(f, op); if (in.ptr && v.s) v = mkv(ptrSV(v)); store(q, in.w, v); } if (in.sub) S->crit--; S->st.back().pc++; break; }
    case X_ALLOCA: { Val n = get(f, in.a); uint64_t k = concretise(n, 64); if (k > (1u << 28)) report("memory", "stack allocation of " + to_string((int64_t)k) + " elements", nullptr); uint32_t id = newObj(k * in.imm, O_STACK, in.src->hasName() ? "local" : "local", false); Frame &g = S->st.back(); g.allocas.push_back(id); g.r[in.dst] = cv((uint64_t)id << 32); g.pc++; break; }
    case X_CALL: {
      Fn *t = (Fn *)in.imm; if (!t) { Val p = get(f, in.b); uint64_t a = concPtr(p); uint32_t id = a >> 32; if (!id || id >= S->objs.size() || !S->objs[id] || S->objs[id]->kind != O_FUNC) report("memory", "call through a pointer that is not a function", nullptr); t = fns[S->objs[id]->fn]; }
      auto &al = f.f->lists[in.x]; 
      if (t->builtin >= 0) { vector<Val> args; args.reserve(al.size()); for (int a : al) args.push_back(a == ~0x3fffffff ? Val{0, nullptr} : get(f, a)); ompSwitched = false; Val r = callBuiltin(t, in, args, f); if (!ompSwitched) { Frame &g = S->st.back(); if (in.dst >= 0 && in.lanes == 1) g.r[in.dst] = r; g.pc++; } break; }
      if (t->f->isDeclaration()) throw Fatal{"call of undefined function " + t->name};
      if (!t->ready) decode(t); if (S->st.size() > 4000) report("memory", "unbounded recursion", nullptr);
      Frame nf; nf.f = t; nf.r.assign(t->nregs, Val{0, nullptr}); for (size_t i = 0; i < al.size() && (int)i < t->nargs; i++) nf.r[i] = getU(f, al[i]);
      if (in.sub) { auto *cb = cast<CallBase>(in.src); for (unsigned i = 0; i < cb->arg_size(); i++) if (cb->isByValArgument(i)) { uint64_t sz = DL->getTypeAllocSize(cb->getParamByValType(i)); uint32_t id = newObj(sz, O_STACK, "byval", false); copyBytes((uint64_t)id << 32, nf.r[i].c, sz); nf.r[i] = cv((uint64_t)id << 32); nf.allocas.push_back(id); } }
      nf.dst = in.dst; nf.dlanes = in.dst >= 0 ? in.lanes : 0; nf.pc = 0; nf.blk = 0; t->calls++; S->st.back().pc++; S->st.push_back(std::move(nf)); break; }
    case X_RET: {
      vector<Val> rv; for (int i = 0; i < in.lanes; i++) rv.push_back(in.a == -1 && in.lanes == 0 ? Val{0, nullptr} : getU(f, lane(in.a, i)));
      popAllocas(f); int dst = f.dst, dl = f.dlanes; 
      if (S->omp_tid >= 0 && S->st.size() == S->ompBase + 1) { S->thst[S->omp_tid] = 2; S->st.pop_back(); ompSwitch(); break; }
      S->st.pop_back(); if (S->st.empty()) { if (inMerge) throw MergeAbort{"exit"}; witness(); throw PathEnd(); } Frame &g = S->st.back(); for (int i = 0; i < dl && i < (int)rv.size(); i++) g.r[dst + i] = rv[i]; break; }
    case X_BR: takeEdge(in.a); if (stopBlk >= 0 && S->st.back().blk == stopBlk && S->st.size() == stopDepth) return; if (inMerge && nInstr > mergeBudgetEnd) throw MergeAbort{"budget"}; break;
    case X_CBR: {
      Val c = get(f, in.c); int e; if (!c.s) e = c.c ? in.a : in.b;
      else { Bit k = c.s->b[0]; int kb = knownBit(k);
        if (kb < 0 && K->numbers && FR.f->blks[FR.blk].ipdom >= 0 && S->merge && inMerge < 10 && in.mfail < 3) { auto mt = quickModel(k), mf = quickModel(k ^ 1); if (!(mt && mf) && tryMerge(in, k, in.a, in.b, mt, mf)) { if (stopBlk >= 0 && S->st.back().blk == stopBlk && S->st.size() == stopDepth) return; break; } } // both sides as if feasible
        if (kb < 0) { shared_ptr<Model> mt, mf; int ft = feasible(k, &mt), ff = feasible(k ^ 1, &mf); if (ft == -1 || ff == -1) { incomplete.push_back("solver unknown on branch at " + userLoc()); if (ft == -1 && ff == -1) throw PathEnd(); }
          if (ft == 1 && ff == 1) { if (tryMerge(in, k, in.a, in.b, mt, mf)) { if (stopBlk >= 0 && S->st.back().blk == stopBlk && S->st.size() == stopDepth) return; break; } if (inMerge) throw MergeAbort{"fork"};
            auto n = make_unique<State>(*S); if (n->race) n->race = make_shared<Race>(*n->race); nForks++; n->id = ++nStates; State *o = S; S = n.get(); learn(k ^ 1); S->model = mf; takeEdge(in.b); S = o; work.push_back(std::move(n)); learn(k); S->model = mt; kb = 1; }
          else if (ft == 1) { S->known[k] = true; S->known[k ^ 1] = false; S->model = mt; kb = 1; } else if (ff == 1) { S->known[k] = false; S->known[k ^ 1] = true; S->model = mf; kb = 0; } else throw PathEnd(); }
        e = kb ? in.a : in.b; }
      takeEdge(e); if (stopBlk >= 0 && S->st.back().blk == stopBlk && S->st.size() == stopDepth) return; if (inMerge && nInstr > mergeBudgetEnd) throw MergeAbort{"budget"}; break; }
    case X_SWITCH: { Val v = get(f, in.a); auto &vs = f.f->clists[in.x]; auto &tg = f.f->lists[in.x]; int e = in.b;
      if (!v.s) { for (size_t i = 0; i < vs.size(); i++) if (vs[i] == v.c) { e = tg[i]; break; } }
      else { SVp s = v.s; for (size_t i = 0; i < vs.size(); i++) { Bit k = K->eq(s, K->cst(APInt(in.w, vs[i]))); if (decide(k)) { e = tg[i]; break; } } }
      takeEdge(e); if (stopBlk >= 0 && S->st.back().blk == stopBlk && S->st.size() == stopDepth) return; break; }
    case X_UNREACH: if (inMerge) throw MergeAbort{"unreachable"}; report("unreachable", "unreachable code reached (undefined behaviour)", nullptr); break;
    case X_TRUNC: for (int i = 0; i < in.lanes; i++) { Val a = get(f, lane(in.a, i)); if (!a.s) f.r[in.dst + i] = cv(a.c & mask(in.w)); else { SVp r = K->extract(a.s, 0, in.w); f.r[in.dst + i] = in.w <= 64 ? mkv(r) : Val{0, r}; } } f.pc++; break;
    case X_ZEXT: for (int i = 0; i < in.lanes; i++) { Val a = get(f, lane(in.a, i)); if (!a.s && in.w <= 64) f.r[in.dst + i] = a; else f.r[in.dst + i] = {0, K->zext(sv(a, in.w2), in.w)}; } f.pc++; break;
    case X_SEXT: for (int i = 0; i < in.lanes; i++) { Val a = get(f, lane(in.a, i)); if (!a.s && in.w <= 64) f.r[in.dst + i] = cv((uint64_t)((int64_t)(a.c << (64 - in.w2)) >> (64 - in.w2)) & mask(in.w)); else f.r[in.dst + i] = {0, K->sext(sv(a, in.w2), in.w)}; } f.pc++; break;
    case X_PTRTOINT: { Val a = get(f, in.a); if (!a.s) f.r[in.dst] = cv(a.c & mask(in.w)); else { SVp r = ptrSV(a); if (in.w < 64) r = K->extract(r, 0, in.w); f.r[in.dst] = mkv(r); } f.pc++; break; }
    case X_INTTOPTR: { Val a = get(f, in.a); if (!a.s) f.r[in.dst] = a; else { Val v = ptrFromSV(K->zext(a.s, 64)); S->st.back().r[in.dst] = v; } S->st.back().pc++; break; }
    case X_FPCAST: f.r[in.dst] = fret(fval(get(f, in.a), in.w2), in.w); f.pc++; break;
    case X_FPTOUI: f.r[in.dst] = cv((uint64_t)fval(get(f, in.a), in.w2) & mask(in.w)); f.pc++; break;
    case X_FPTOSI: f.r[in.dst] = cv((uint64_t)(int64_t)fval(get(f, in.a), in.w2) & mask(in.w)); f.pc++; break;
    case X_UITOFP: case X_SITOFP: { Val v = get(f, in.a); uint64_t c = concretise(v, in.w2); int64_t sc = in.w2 < 64 ? (int64_t)(c << (64 - in.w2)) >> (64 - in.w2) : (int64_t)c; S->st.back().r[in.dst] = fret(in.op == X_UITOFP ? (double)c : (double)sc, in.w); S->st.back().pc++; break; }
    case X_RMW: { S->crit++; Val p = get(f, in.a), v = get(f, in.b); Val o = load(p, in.w); Val n; switch (in.sub) { case AtomicRMWInst::Xchg: n = v; break; case AtomicRMWInst::Add: n = binop(X_ADD, in.w, o, v); break; case AtomicRMWInst::Sub: n = binop(X_SUB, in.w, o, v); break; case AtomicRMWInst::And: n = binop(X_AND, in.w, o, v); break; case AtomicRMWInst::Or: n = binop(X_OR, in.w, o, v); break; case AtomicRMWInst::Xor: n = binop(X_XOR, in.w, o, v); break; default: throw Fatal{"atomicrmw"}; } store(p, in.w, n); S->crit--; Frame &g = S->st.back(); g.r[in.dst] = o; g.pc++; break; }
    case X_CMPXCHG: { S->crit++; Val p = get(f, in.a); Val o = load(p, in.w); Val e = icmp(CmpInst::ICMP_EQ, in.w, false, o, get(f, in.b)); if (e.s) throw Fatal{"symbolic cmpxchg"}; if (e.c) store(p, in.w, get(f, in.c)); S->crit--; f.r[in.dst] = o; f.r[in.dst + 1] = e; f.pc++; break; }
    default: { string s; raw_string_ostream o(s); in.src->print(o); throw Fatal{"unsupported instruction " + s}; }
    }
  }
}
#include "builtins.inc"
