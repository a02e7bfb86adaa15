// ---------------------------------------------------------------- builtins
static string apHex(const APInt &v) { llvm::SmallString<80> s; v.toStringUnsigned(s, 16); return string(s.data(), s.size()); }
// symbolic inputs: the k-th input of a name is the same variable on every path, so paths share their expressions
static SVp pathVar(const string &nm, uint64_t i, uint32_t w, uint64_t lo, uint64_t hi) { static map<tuple<string, int, uint64_t, uint32_t, uint64_t, uint64_t>, SVp> cache; SVp &v = cache[make_tuple(nm, S->varCount[nm], i, w, lo, hi)]; if (!v) v = K->newVar(nm + to_string(i), w); return v; }
static string showSV(SVp s, int d) { // debugging aid
  APInt c; if (K->isConst(s, &c)) return apHex(c); Node *n = K->asNode(s); if (!n) { string r = "[" + to_string(s->w()) + ":"; if (s->w() == 1) for (auto q : K->forms[s->b[0] >> 1]) r += "a" + to_string(q) + (K->atoms[q].k == A_WORD ? "." + to_string(K->atoms[q].b) : "") + ","; set<uint32_t> at; for (auto b : s->b) for (auto a : K->forms[b >> 1]) at.insert(a); int k = 0; set<uint32_t> seen; for (auto a : at) { auto &ai = K->atoms[a]; if (!seen.insert(ai.a * 2 + (ai.k == A_TT)).second) continue; if (++k > 6) { r += ".."; break; } if (ai.k == A_TT) { r += " tt" + to_string(ai.a); if (d > 0) { r += "<"; for (auto f : K->spaces[ai.a].basis) r += showSV(K->mkSV({f << 1}), d - 1) + ";"; r += ">"; } } else r += " " + (d > 0 ? showSV(K->nodes[ai.a]->self, d - 1) : "n" + to_string(ai.a)); } return r + "]"; }
  static const char *on[] = {"VAR", "LIN", "MUL", "UDIV", "UREM", "SDIV", "SREM", "SHL", "LSHR", "ASHR", "EQ0", "ULT", "SLT", "UF", "ITE"}; string r = "n" + to_string(n->id) + ":" + on[n->op] + to_string(n->w) + (n->op == N_VAR || n->op == N_UF ? n->name : ""); if (d <= 0 || n->args.empty()) return r; r += "("; for (size_t i = 0; i < n->args.size(); i++) { if (i) r += ", "; if (i < n->coef.size()) r += apHex(n->coef[i]) + "*"; r += showSV(n->args[i], d - 1); } if (n->op == N_LIN) r += " + " + apHex(n->cst); return r + ")"; }
typedef function<Val(vector<Val> &, In &, Frame &)> BF;
static map<string, int> bname; static vector<BF> bfun; static map<string, long> params;
static SVp bytesSV(uint64_t p, uint64_t n) { vector<Bit> b; b.reserve(8 * n); for (uint64_t i = 0; i < n; i++) { Val v = loadC(p + i, 8); SVp s = sv(v, 8); b.insert(b.end(), s->b.begin(), s->b.end()); } return K->mkSV(std::move(b)); }
static void putSV(uint64_t p, SVp s) { for (uint32_t i = 0; i * 8 < s->w(); i++) storeC(p + i, 8, mkv(K->extract(s, i * 8, 8))); }
static Bit truth(const Val &v) { if (!v.s) return v.c != 0; return K->eq(v.s, K->cst(APInt(v.s->w(), 0))) ^ 1; }
static void checkAssert(Bit c, const string &msg, const vector<Bit> *parts = nullptr) {
  nAsserts++; assertCount[msg]++;
  if (c == 1) { nAssertSyn++; return; }
  if (knownBit(c) == 1) return;
  Bit nc = c ^ 1; if (c == 0) { shared_ptr<Model> md; int f = feasible(1, &md); (void)f; report("assert", msg, md); }
  if (S->model && K->evalBit(*S->model, nc)) report("assert", msg, S->model);
  for (auto &m : simModels) if (K->evalBit(*m, nc) && satPC(*m, S->pc)) report("assert", msg, m);
  shared_ptr<Model> md; auto q = S->pc; q.push_back(nc); set<uint32_t> cn; coneNodes(q, cn); int r = cn.size() > 80 ? -1 : solve(q, &md, 6); if (r < 0) { r = sweep(q, S->pc); if (optTrace) cerr << "sweep " << r << " merged " << nMerged << " queries " << nSweepQ << "\n"; } if (r < 0) r = solve(q, &md);
  if (r == 1) report("assert", msg, md);
  if (r == 0) { nAssertSmt++; return; }
  if (parts) { bool all = true; for (auto p : *parts) { if (p == 1) continue; auto q2 = S->pc; q2.push_back(p ^ 1); shared_ptr<Model> m2; int k = solve(q2, &m2); if (k == 1) report("assert", msg, m2); if (k != 0) all = false; } if (all) { nAssertSmt++; return; } }
  incomplete.push_back("undecided assertion: " + msg + " at " + userLoc());
}
static Val symChoice(uint64_t lo, uint64_t hi, const string &name, In &in) {
  if (inMerge) throw MergeAbort{"choice"};
  for (uint64_t v = hi; v > lo; v--) { auto n = make_unique<State>(*S); if (n->race) n->race = make_shared<Race>(*n->race); n->id = ++nStates; nForks++; Frame &g = n->st.back(); g.r[in.dst] = cv(v & mask(in.w)); g.pc++; n->seq.push_back({name, nullptr, v, true}); work.push_back(std::move(n)); }
  S->seq.push_back({name, nullptr, lo, true}); return cv(lo & mask(in.w));
}
static Val fshl(uint32_t w, Val a, Val b, Val c, bool left) { if (c.s) throw Fatal{"symbolic funnel shift"}; uint64_t k = c.c % w; if (!a.s && !b.s) { uint64_t m = mask(w); if (!k) return left ? a : b; return left ? cv(((a.c << k) | (b.c >> (w - k))) & m) : cv(((a.c << (w - k)) | (b.c >> k)) & m); }
  SVp x = sv(a, w), y = sv(b, w), cc = K->concat(y, x); // y low
  uint32_t lo = left ? w - k : k; if (left && k == 0) lo = w; return mkv(K->extract(cc, lo, w)); }
static uint32_t argw(In &in, Frame &f, int i) { return f.f->clists[in.x][i] & 0xffff; }
static void B(const string &n, BF f) { bname[n] = bfun.size(); bfun.push_back(f); }
static int lookupIntrin(const string &n) { auto it = bname.find(n); if (it != bname.end()) return it->second; if (n.compare(0, 5, "llvm.") == 0) { string p = n; while (!p.empty()) { size_t k = p.rfind('.'); if (k == string::npos || k < 5) break; p = p.substr(0, k); it = bname.find(p); if (it != bname.end()) return it->second; } } return -1; }
static int builtinId(const string &n) { return lookupIntrin(n); }
static Val callBuiltin(Fn *t, In &in, vector<Val> &a, Frame &f) { t->calls++; return bfun[t->builtin](a, in, f); }
static void initBuiltins() {
#define BB(name) B(name, [](vector<Val> &a, In &in, Frame &f) -> Val { (void)a; (void)in; (void)f;
#define EB return cv(0); });
  for (auto n : {"llvm.lifetime.start", "llvm.lifetime.end", "llvm.dbg.value", "llvm.dbg.declare", "llvm.dbg.label", "llvm.assume", "llvm.experimental.noalias.scope.decl", "llvm.prefetch", "llvm.stackrestore", "llvm.donothing", "llvm.sideeffect", "llvm.va_start", "llvm.va_end", "__kmpc_for_static_fini", "__kmpc_end_master", "__kmpc_end_single", "__kmpc_flush", "__kmpc_end_masked", "sym_noop", "perror", "setbuf", "setvbuf"}) BB(n) EB
  BB("llvm.stacksave") return cv(0x7fff00000000ull); EB
  for (auto n : {"printf", "puts", "putchar", "fprintf", "vprintf"}) BB(n) EB
  BB("malloc") uint64_t n = concretise(a[0], 64); if (n > (1ull << 31)) return cv(0); return cv(heapAlloc(n, false)); EB
  BB("calloc") uint64_t n = concretise(a[0], 64) * concretise(a[1], 64); if (n > (1ull << 31)) return cv(0); return cv(heapAlloc(n, true)); EB
  BB("free") uint64_t p = concPtr(a[0]); heapFree(p); EB
  BB("realloc") uint64_t p = concPtr(a[0]), n = concretise(a[1], 64); if (n > (1ull << 31)) return cv(0); if (p) { uint32_t id = p >> 32; if (id >= S->objs.size() || !S->objs[id] || S->objs[id]->kind != O_HEAP || (p & 0xffffffff)) report("memory", "realloc of a pointer that is not a heap block", nullptr); if (!S->objs[id]->alive) report("memory", "realloc of freed memory", nullptr); } uint64_t q = heapAlloc(n, false); if (p) { uint64_t o = S->objs[p >> 32]->size; copyBytes(q, p, min(n, o)); heapFree(p); } return cv(q); EB
  auto cpy = [](vector<Val> &a, In &, Frame &) -> Val { doMemcpy(a[0], a[1], a[2]); return a[0]; };
  for (auto n : {"llvm.memcpy", "llvm.memmove", "memcpy", "memmove", "llvm.memcpy.inline", "__memcpy_chk", "__memmove_chk"}) B(n, cpy);
  for (auto n : {"llvm.memset", "memset", "__memset_chk"}) B(n, [](vector<Val> &a, In &, Frame &) -> Val { Val v = a[1]; if (v.s && v.s->w() > 8) v = mkv(K->extract(v.s, 0, 8)); doMemset(a[0], v, a[2]); return a[0]; });
  auto cmp = [](vector<Val> &a, In &, Frame &) -> Val { uint64_t p = concPtr(a[0]), q = concPtr(a[1]), n = concretise(a[2], 64); if (!n) return cv(0); vector<Bit> x, y; for (uint64_t i = n; i-- > 0;) { SVp s = sv(loadC(p + i, 8), 8), t = sv(loadC(q + i, 8), 8); x.insert(x.end(), s->b.begin(), s->b.end()); y.insert(y.end(), t->b.begin(), t->b.end()); } SVp X = K->mkSV(std::move(x)), Y = K->mkSV(std::move(y)); Bit e = K->eq(X, Y); if (e == 1) return cv(0); Bit l = K->ult(X, Y); SVp r = K->ite(e, K->cst(APInt(32, 0)), K->ite(l, K->cst(APInt(32, 0xffffffff)), K->cst(APInt(32, 1)))); return mkv(r); };
  B("memcmp", cmp); B("bcmp", [](vector<Val> &a, In &, Frame &) -> Val { uint64_t p = concPtr(a[0]), q = concPtr(a[1]), n = concretise(a[2], 64); if (!n) return cv(0); SVp X = bytesSV(p, n), Y = bytesSV(q, n); Bit e = K->eq(X, Y); vector<Bit> b(32, 0); b[0] = e ^ 1; return mkv(K->mkSV(std::move(b))); });
  BB("CRYPTO_memcmp") uint64_t p = concPtr(a[0]), q = concPtr(a[1]), n = concretise(a[2], 64); if (!n) return cv(0); Bit e = K->eq(bytesSV(p, n), bytesSV(q, n)); vector<Bit> b(32, 0); b[0] = e ^ 1; return mkv(K->mkSV(std::move(b))); EB
  BB("abort") report("abort", "abort() called", nullptr); EB
  BB("llvm.trap") report("abort", "trap", nullptr); EB
  BB("__assert_fail") report("abort", "assertion failed: " + cstr(a[0].c), nullptr); EB
  BB("exit") if (inMerge) throw MergeAbort{"exit"}; report("abort", "process exit() called by the library", nullptr); EB
  BB("sym_end") if (inMerge) throw MergeAbort{"exit"}; throw PathEnd(); EB
  // math
#define M1(n, e) B(n, [](vector<Val> &a, In &in, Frame &f) -> Val { double x = fval(a[0], 64); (void)x; return cv(asU(e)); });
  M1("ceil", ceil(x)) M1("floor", floor(x)) M1("log2", log2(x)) M1("log", log(x)) M1("log10", log10(x)) M1("sqrt", sqrt(x)) M1("fabs", fabs(x)) M1("round", round(x)) M1("exp", exp(x)) M1("trunc", trunc(x)) M1("exp2", exp2(x)) M1("rint", rint(x)) M1("llvm.log2", log2(x)) M1("llvm.exp2", exp2(x))
  M1("llvm.ceil", ceil(x)) M1("llvm.floor", floor(x)) M1("llvm.fabs", fabs(x)) M1("llvm.sqrt", sqrt(x)) M1("llvm.trunc", trunc(x)) M1("llvm.round", round(x))
  for (auto n : {"pow", "llvm.pow"}) BB(n) return cv(asU(pow(fval(a[0], 64), fval(a[1], 64)))); EB
  BB("ldexp") return cv(asU(ldexp(fval(a[0], 64), (int)a[1].c))); EB
  BB("llvm.ldexp") return cv(asU(ldexp(fval(a[0], 64), (int)a[1].c))); EB
  BB("llvm.fmuladd") return cv(asU(fval(a[0], 64) * fval(a[1], 64) + fval(a[2], 64))); EB
  // integer intrinsics
  BB("llvm.fshl") return fshl(in.w, a[0], a[1], a[2], true); EB
  BB("llvm.fshr") return fshl(in.w, a[0], a[1], a[2], false); EB
  BB("llvm.bswap") uint32_t w = in.w; if (!a[0].s) { uint64_t r = 0; for (uint32_t i = 0; i < w / 8; i++) r |= ((a[0].c >> (8 * i)) & 255) << (w - 8 - 8 * i); return cv(r); } vector<Bit> b(w); for (uint32_t i = 0; i < w; i++) b[i] = a[0].s->b[w - 8 - (i / 8) * 8 + i % 8]; return mkv(K->mkSV(std::move(b))); EB
  BB("llvm.bitreverse") uint32_t w = in.w; SVp s = sv(a[0], w); vector<Bit> b(s->b.rbegin(), s->b.rend()); return mkv(K->mkSV(std::move(b))); EB
  BB("llvm.ctpop") uint32_t w = in.w; if (!a[0].s) return cv(__builtin_popcountll(a[0].c)); SVp r = K->cst(APInt(w, 0)); for (uint32_t i = 0; i < w; i++) if (a[0].s->b[i]) r = K->add(r, K->zext(K->mkSV({a[0].s->b[i]}), w)); return mkv(r); EB
  BB("llvm.ctlz") uint32_t w = in.w; if (!a[0].s) { uint64_t v = a[0].c; uint32_t n = 0; for (int i = w - 1; i >= 0 && !(v >> i & 1); i--) n++; return cv(n); } SVp r = K->cst(APInt(w, w)); for (uint32_t i = 0; i < w; i++) r = K->ite(a[0].s->b[i], K->cst(APInt(w, w - 1 - i)), r); return mkv(r); EB
  BB("llvm.cttz") uint32_t w = in.w; if (!a[0].s) { uint64_t v = a[0].c; uint32_t n = 0; for (uint32_t i = 0; i < w && !(v >> i & 1); i++) n++; return cv(n); } SVp r = K->cst(APInt(w, w)); for (int i = w - 1; i >= 0; i--) r = K->ite(a[0].s->b[i], K->cst(APInt(w, i)), r); return mkv(r); EB
  auto mm = [](uint16_t pred) { return [pred](vector<Val> &a, In &in, Frame &) -> Val { Val c = icmp(pred, in.w, false, a[0], a[1]); if (!c.s) return c.c ? a[0] : a[1]; return mkv(K->ite(c.s->b[0], sv(a[0], in.w), sv(a[1], in.w))); }; };
  B("llvm.umin", mm(CmpInst::ICMP_ULT)); B("llvm.umax", mm(CmpInst::ICMP_UGT)); B("llvm.smin", mm(CmpInst::ICMP_SLT)); B("llvm.smax", mm(CmpInst::ICMP_SGT));
  BB("llvm.abs") SVp s = sv(a[0], in.w); return mkv(K->ite(s->b[in.w - 1], K->sub(K->cst(APInt(in.w, 0)), s), s)); EB
  BB("llvm.usub.sat") Val c = icmp(CmpInst::ICMP_ULT, in.w, false, a[0], a[1]); Val d = binop(X_SUB, in.w, a[0], a[1]); if (!c.s) return c.c ? cv(0) : d; return mkv(K->ite(c.s->b[0], K->cst(APInt(in.w, 0)), sv(d, in.w))); EB
  BB("llvm.uadd.sat") Val d = binop(X_ADD, in.w, a[0], a[1]); Val c = icmp(CmpInst::ICMP_ULT, in.w, false, d, a[0]); if (!c.s) return c.c ? cv(mask(in.w)) : d; return mkv(K->ite(c.s->b[0], K->cst(APInt::getAllOnes(in.w)), sv(d, in.w))); EB
  for (string o : {"uadd", "usub", "umul", "sadd", "ssub", "smul"}) B("llvm." + o + ".with.overflow", [o](vector<Val> &a, In &in, Frame &f) -> Val { uint32_t w = argw(in, f, 0); SVp x = sv(a[0], w), y = sv(a[1], w); uint32_t W = 2 * w; bool sg = o[0] == 's'; SVp X = sg ? K->sext(x, W) : K->zext(x, W), Y = sg ? K->sext(y, W) : K->zext(y, W); SVp r = o.substr(1) == "add" ? K->add(X, Y) : o.substr(1) == "sub" ? K->sub(X, Y) : K->mul(X, Y); SVp lo = K->extract(r, 0, w); Bit ov = K->eq(r, sg ? K->sext(lo, W) : K->zext(lo, W)) ^ 1; f.r[in.dst] = mkv(lo); f.r[in.dst + 1] = mkv(K->mkSV({ov})); return cv(0); });
  BB("llvm.objectsize") return cv(~0ull); EB
  BB("llvm.expect") return a[0]; EB
  BB("llvm.is.constant") return cv(0); EB
  BB("llvm.launder.invariant.group") return a[0]; EB
  BB("llvm.threadlocal.address") return a[0]; EB
  BB("llvm.ptrmask") return cv(a[0].c & a[1].c); EB
  // harness API
  BB("sym_bytes") if (inMerge) throw MergeAbort{"sym"}; S->varCount[cstr(a[2].c)]++; uint64_t p = concPtr(a[0]), n = concretise(a[1], 64); string nm = cstr(a[2].c); vector<Bit> all; for (uint64_t i = 0; i < n; i++) { SVp v = pathVar(nm, i, 8, 0, 0); storeC(p + i, 8, {0, v}); all.insert(all.end(), v->b.begin(), v->b.end()); } if (n) S->seq.push_back({nm, K->mkSV(std::move(all)), 0, false}); EB
  BB("sym_var") if (inMerge) throw MergeAbort{"sym"}; uint64_t lo = a[0].c, hi = a[1].c; string nm = cstr(a[2].c); uint64_t span = hi - lo; uint32_t w = 1; while (w < 64 && (span >> w)) w++; S->varCount[nm]++; SVp v = pathVar(nm, 0, w, lo, hi); Node *n = K->asNode(v); if (n) { n->dom = true; n->lo = 0; n->hi = span; n->maxv = APInt::getAllOnes(w); } SVp r = K->add(K->zext(v, 64), K->cst(APInt(64, lo))); S->seq.push_back({nm, r, 0, false}); if (span != mask(w)) learn(K->ult(K->cst(APInt(w, span)), v) ^ 1); if (n) n->maxv = APInt(w, span); return mkv(r); EB
  BB("sym_range") return symChoice(concretise(a[0], 64), concretise(a[1], 64), cstr(a[2].c), in); EB
  BB("sym_assume") if (inMerge) throw MergeAbort{"assume"}; Bit c = truth(a[0]); int k = knownBit(c); if (k == 1) return cv(0); shared_ptr<Model> md; int r = k == 0 ? 0 : feasible(c, &md); if (r == -1) { incomplete.push_back("solver unknown on assumption"); throw PathEnd(); } if (r == 0) throw PathEnd(); learn(c); S->model = md; EB
  BB("sym_assert") checkAssert(truth(a[0]), cstr(a[1].c)); EB
  BB("sym_equal") uint64_t p = concPtr(a[0]), q = concPtr(a[1]), n = concretise(a[2], 64); string msg = cstr(a[3].c); vector<Bit> x, y, parts; for (uint64_t i = 0; i < n; i++) { SVp s = sv(loadC(p + i, 8), 8), t = sv(loadC(q + i, 8), 8); if (s == t) continue; x.insert(x.end(), s->b.begin(), s->b.end()); y.insert(y.end(), t->b.begin(), t->b.end()); parts.push_back(K->eq(s, t)); } if (x.empty()) { nAsserts++; nAssertSyn++; assertCount[msg]++; return cv(0); } Bit e = K->eq(K->mkSV(std::move(x)), K->mkSV(std::move(y))); for (auto b : parts) if (b == 0) e = 0; checkAssert(e, msg, &parts); EB
  BB("sym_uf") uint64_t p = concPtr(a[1]), n = concretise(a[2], 64), q = concPtr(a[3]), m = concretise(a[4], 64); SVp i = bytesSV(p, n); putSV(q, K->uf(a[0].c & 0xfff, "uf", i, 8 * m)); EB
  BB("sym_perm") uint64_t p = concPtr(a[2]), q = concPtr(a[3]); SVp i = bytesSV(p, 16); int id = (a[0].c & 0xfff) | 0x1000 | (a[1].c ? 0x2000 : 0); { APInt x; if (!S->permDef.empty() && !a[1].c && K->isConst(i, &x)) { auto it = S->permDef.find({(int)(a[0].c & 0xfff), apHex(x)}); if (it != S->permDef.end()) { putSV(q, K->cst(it->second)); return cv(0); } } } putSV(q, K->uf(id, "perm", i, 128)); EB
  BB("sym_expand") uint64_t p = concPtr(a[0]), n = concretise(a[1], 64); SVp v = bytesSV(p, n); for (auto b : v->b) for (auto x : K->forms[b >> 1]) { if (K->marked.size() <= x) K->marked.resize(x + 1, 0); K->marked[x] = 1; } K->bandMemo.clear(); EB
  BB("sym_perm_def") uint64_t p = concPtr(a[1]), q = concPtr(a[2]); SVp i = bytesSV(p, 16), o = bytesSV(q, 16); APInt x, y; if (!K->isConst(i, &x) || !K->isConst(o, &y)) throw Fatal{"sym_perm_def needs concrete points"}; S->permDef[{(int)(a[0].c & 0xfff), apHex(x)}] = y; EB
  BB("sym_reach") string s = cstr(a[0].c); S->reach.push_back(s); reached.insert(s); EB
  BB("sym_merge") S->merge = a[0].c; EB
  BB("sym_threads") S->omp_want = a[0].c & 255; S->omp_rev = a[0].c >> 8 & 1; EB
  BB("sym_param") string s = cstr(a[0].c); auto it = params.find(s); return cv(it == params.end() ? a[1].c : (uint64_t)it->second & mask(in.w)); EB
  BB("sym_is_symbolic") return cv(a[0].s != nullptr); EB
  BB("sym_maxbits") return cv(K->umax(bytesSV(concPtr(a[0]), concretise(a[1], 64))).getActiveBits()); EB
  BB("sym_bnbytes") SVp v = bytesSV(concPtr(a[0]), concretise(a[1], 64)); uint32_t B = (K->umax(v).getActiveBits() + 7) / 8; SVp L = K->cst(APInt(32, 0)); for (uint32_t n = 1; n <= B; n++) L = K->ite(K->isZero(K->extract(v, 8 * (n - 1), v->w() - 8 * (n - 1))) ^ 1, K->cst(APInt(32, n)), L); return mkv(L); EB
  BB("sym_bn2bin") uint64_t p = concPtr(a[0]), k = concretise(a[1], 64), q = concPtr(a[2]); SVp v = bytesSV(p, k); uint32_t B = (K->umax(v).getActiveBits() + 7) / 8; if (!B) return cv(0);
    APInt cvv; if (K->isConst(v, &cvv)) { for (uint32_t i = 0; i < B; i++) storeC(q + i, 8, mkv(K->extract(v, 8 * (B - 1 - i), 8))); return cv(B); }
    vector<Bit> z; for (uint32_t j = 0; j < B; j++) z.push_back(K->isZero(K->extract(v, 8 * j, v->w() - 8 * j))); // z[j]: fewer than j+1 bytes
    auto is = [&](uint32_t n) { Bit lo = n ? z[n - 1] ^ 1 : 1, hi = n < B ? z[n] : 1; return K->band(lo, hi); };
    for (uint32_t n = 1; n <= B; n++) { uint64_t ad = q + n - 1; uint32_t id = ad >> 32; if (id >= S->objs.size() || !S->objs[id] || !S->objs[id]->alive || (ad & 0xffffffff) >= S->objs[id]->size) { Bit c = z[n - 1] ^ 1; shared_ptr<Model> md; int f = feasible(c, &md); if (f == 1) report("memory", string("number written past the end of ") + objDesc(id), md); if (f == -1) incomplete.push_back("solver unknown on number length at " + userLoc()); B = n - 1; break; } }
    for (uint32_t i = 0; i < B; i++) { SVp old = sv(loadC(q + i, 8), 8); vector<Bit> r(8); Bit none = z[i]; for (int t = 0; t < 8; t++) { Bit x = K->band(none, old->b[t]); for (uint32_t n = i + 1; n <= B; n++) x = K->bxor(x, K->band(is(n), v->b[8 * (n - 1 - i) + t])); r[t] = x; } storeC(q + i, 8, mkv(K->mkSV(std::move(r)))); }
    SVp L = K->cst(APInt(32, 0)); for (uint32_t n = 1; n <= B; n++) L = K->ite(z[n - 1] ^ 1, K->cst(APInt(32, n)), L); return mkv(L); EB
  BB("sym_concretize") return cv(concretise(a[0], in.w)); EB
  BB("sym_heap_live") return cv(S->heaplive); EB
  BB("sym_native") return cv(0); EB
  BB("sym_stat") SVp v = bytesSV(concPtr(a[0]), concretise(a[1], 64)); for (size_t i = 0; i < v->b.size(); i++) { auto &f = K->forms[v->b[i] >> 1]; map<uint32_t, int> sp; int wd = 0; for (auto x : f) if (K->atoms[x].k == A_TT) sp[K->atoms[x].a]++; else wd++; cerr << "  bit " << i << " atoms " << f.size() << " words " << wd << " spaces"; int c = 0; for (auto &q : sp) { if (c++ > 5) { cerr << " .."; break; } auto &P = K->spaces[q.first]; cerr << " #" << q.first << "(x" << q.second << ",d" << P.basis.size() << ",rows" << P.rows.size() << ",fl"; for (auto g : P.basis) cerr << " " << K->forms[g].size(); cerr << ")"; } cerr << "\n"; } EB
  BB("sym_canon") K->canon = a[0].c == 1; K->flat = a[0].c == 2; EB
  BB("sym_dump") if (optTrace) cerr << "DUMP " << showSV(bytesSV(concPtr(a[0]), concretise(a[1], 64)), (int)concretise(a[2], 32)) << "\n"; EB
  BB("sym_trace") if (optTrace) { cerr << "TRACE " << cstr(a[0].c) << " t=" << now() - T0 << " forms=" << K->forms.size() << " atoms=" << K->atoms.size() << " nodes=" << K->nodes.size() << "\n"; } EB
  BB("sym_obj_left") uint64_t p = concPtr(a[0]); uint32_t id = p >> 32; if (!id || id >= S->objs.size() || !S->objs[id] || !S->objs[id]->alive) return cv(0); return cv(S->objs[id]->size - (p & 0xffffffff)); EB
  // OpenMP
  BB("__kmpc_global_thread_num") return cv(S->omp_tid < 0 ? 0 : S->omp_tid); EB
  BB("omp_get_thread_num") return cv(S->omp_tid < 0 ? 0 : S->omp_tid); EB
  BB("omp_get_num_threads") return cv(S->omp_tid < 0 ? 1 : S->omp_n); EB
  BB("omp_get_max_threads") return cv(S->omp_want); EB
  BB("omp_get_num_procs") return cv(S->omp_want); EB
  BB("omp_set_num_threads") EB
  BB("omp_in_parallel") return cv(S->omp_tid >= 0); EB
  BB("__kmpc_push_num_threads") EB
  BB("__kmpc_master") return cv(S->omp_tid <= 0); EB
  BB("__kmpc_masked") return cv(S->omp_tid <= 0); EB
  BB("__kmpc_single") return cv(S->omp_tid <= 0); EB
  BB("__kmpc_critical") S->crit++; EB
  BB("__kmpc_critical_with_hint") S->crit++; EB
  BB("__kmpc_end_critical") S->crit--; EB
  BB("__kmpc_reduce_nowait") S->crit++; return cv(1); EB
  BB("__kmpc_reduce") S->crit++; return cv(1); EB
  BB("__kmpc_end_reduce_nowait") S->crit--; EB
  BB("__kmpc_end_reduce") S->crit--; EB
  BB("__kmpc_fork_call") if (inMerge) throw MergeAbort{"omp"}; uint64_t fp = concPtr(a[2]); Fn *t = fns[S->objs[fp >> 32]->fn]; if (!t->ready) decode(t); if (S->omp_tid >= 0) throw Fatal{"nested parallel region"};
    int n = S->omp_want; S->omp_n = n; f.pc++; S->ompBase = S->st.size(); S->race = make_shared<Race>(); S->thst.assign(n, 0); S->park.assign(n, {});
    for (int k = 0; k < n; k++) { S->omp_tid = k; Frame nf; nf.f = t; nf.r.assign(t->nregs, Val{0, nullptr}); uint32_t g = newObj(4, O_STACK, "gtid", true); storeC((uint64_t)g << 32, 32, cv(k)); nf.allocas.push_back(g); uint32_t b = newObj(4, O_STACK, "btid", true); nf.allocas.push_back(b); nf.r[0] = cv((uint64_t)g << 32); nf.r[1] = cv((uint64_t)b << 32); for (size_t i = 3; i < a.size() && (int)i - 1 < t->nargs; i++) nf.r[i - 1] = a[i]; S->park[k].push_back(std::move(nf)); }
    t->calls += n; ompSwitch(); EB
  BB("__kmpc_barrier") if (S->omp_tid < 0) return cv(0); if (inMerge) throw MergeAbort{"omp"}; f.pc++; int t = S->omp_tid; size_t bd = S->ompBase; vector<Frame> pk; for (size_t i = bd; i < S->st.size(); i++) pk.push_back(std::move(S->st[i])); S->st.resize(bd); S->park[t] = std::move(pk); S->thst[t] = 1; size_t cur = S->st.size(); (void)cur; ompSwitch(); EB
  for (string s : {"4", "4u", "8", "8u"}) { // dynamic and guided schedules: chunks dealt round robin, so that conflicting chunks meet on different threads
    B("__kmpc_dispatch_init_" + s, [s](vector<Val> &a, In &, Frame &) -> Val { uint32_t w = s[0] == '4' ? 32 : 64; auto X = [&](int i) { uint64_t c = concretise(a[i], w); return w == 32 && s.size() == 1 ? (int64_t)(int32_t)c : (int64_t)c; }; auto Y = [&](int i) { uint64_t c = concretise(a[i], w); return w == 32 ? (int64_t)(int32_t)c : (int64_t)c; }; int t = max(0, S->omp_tid); int64_t ch = Y(6); S->disp[t] = {X(3), X(4), Y(5), ch < 1 ? 1 : ch, t}; return cv(0); });
    B("__kmpc_dispatch_next_" + s, [s](vector<Val> &a, In &, Frame &) -> Val { uint32_t w = s[0] == '4' ? 32 : 64; int t = max(0, S->omp_tid), n = S->omp_tid < 0 ? 1 : S->omp_n; auto &d = S->disp[t]; int64_t lb = d[0], ub = d[1], inc = d[2], ch = d[3], k = d[4]; int64_t trip = inc > 0 ? (ub >= lb ? (ub - lb) / inc + 1 : 0) : (lb >= ub ? (lb - ub) / -inc + 1 : 0); if (k * ch >= trip) return cv(0); int64_t c = min<int64_t>(ch, trip - k * ch), nl = lb + k * ch * inc, nu = nl + (c - 1) * inc; d[4] += n; S->crit++; if (a[2].c) storeC(a[2].c, 32, cv(k * ch + c == trip)); storeC(a[3].c, w, cv((uint64_t)nl & mask(w))); storeC(a[4].c, w, cv((uint64_t)nu & mask(w))); if (a[5].c) storeC(a[5].c, w, cv((uint64_t)inc & mask(w))); S->crit--; return cv(1); });
    B("__kmpc_dispatch_fini_" + s, [](vector<Val> &, In &, Frame &) -> Val { return cv(0); }); }
  for (string s : {"4", "4u", "8", "8u"}) B("__kmpc_for_static_init_" + s, [s](vector<Val> &a, In &, Frame &) -> Val { uint32_t w = s[0] == '4' ? 32 : 64; auto L = [&](int i) { uint64_t c = concretise(load(a[i], w), w); return w == 32 && s.size() == 1 ? (int64_t)(int32_t)c : (int64_t)c; }; int64_t lb = L(4), ub = L(5), inc = w == 32 ? (int64_t)(int32_t)a[7].c : (int64_t)a[7].c, ch = w == 32 ? (int64_t)(int32_t)a[8].c : (int64_t)a[8].c; int n = S->omp_tid < 0 ? 1 : S->omp_n, t = max(0, S->omp_tid); int64_t trip = inc > 0 ? (ub >= lb ? (ub - lb) / inc + 1 : 0) : (lb >= ub ? (lb - ub) / -inc + 1 : 0); int64_t nl, nu, st; bool last;
      if ((a[2].c & 0xff) == 33) { if (ch < 1) ch = 1; nl = lb + t * ch * inc; nu = nl + (ch - 1) * inc; st = n * ch * inc; last = trip > 0 && ((trip - 1) / ch) % n == t; }
      else { int64_t q = trip / n, r = trip % n, b = t * q + min<int64_t>(t, r), c = q + (t < r); nl = lb + b * inc; nu = nl + (c - 1) * inc; st = trip * inc; last = c > 0 && b + c == trip; if (!c) { nl = ub + inc; nu = ub; } }
      S->crit++; storeC(a[3].c, 32, cv(last)); storeC(a[4].c, w, cv((uint64_t)nl & mask(w))); storeC(a[5].c, w, cv((uint64_t)nu & mask(w))); storeC(a[6].c, w, cv((uint64_t)st & mask(w))); S->crit--; return cv(0); });
}

// ---------------------------------------------------------------- module setup and main
static void initBytes(Obj *o, uint64_t off, const Constant *c) {
  Type *t = c->getType(); if (isa<UndefValue>(c) || isa<ConstantAggregateZero>(c) || isa<ConstantPointerNull>(c)) return;
  if (auto *cd = dyn_cast<ConstantDataSequential>(c)) { uint64_t es = cd->getElementByteSize(); for (unsigned i = 0; i < cd->getNumElements(); i++) { uint64_t v = cd->getElementType()->isIntegerTy() ? cd->getElementAsInteger(i) : cd->getElementAsAPFloat(i).bitcastToAPInt().getZExtValue(); memcpy(o->d.data() + off + i * es, &v, es); } return; }
  if (auto *st = dyn_cast<StructType>(t)) { auto *sl = DL->getStructLayout(st); for (unsigned i = 0; i < st->getNumElements(); i++) initBytes(o, off + sl->getElementOffset(i), c->getAggregateElement(i)); return; }
  if (auto *at = dyn_cast<ArrayType>(t)) { uint64_t es = DL->getTypeAllocSize(at->getElementType()); for (unsigned i = 0; i < at->getNumElements(); i++) initBytes(o, off + i * es, c->getAggregateElement(i)); return; }
  Val v = constVal(c); uint64_t sz = DL->getTypeStoreSize(t); memcpy(o->d.data() + off, &v.c, min<uint64_t>(8, sz));
}
static string optBc; 
static void writeOut(const string &status) {
  ofstream o(optOut); o << "{\"status\":\"" << status << "\",\"paths\":" << nPaths << ",\"instrs\":" << nInstr << ",\"forks\":" << nForks << ",\"merges\":" << nMerges << ",\"merge_aborts\":" << nMergeAborts << ",\"queries\":" << nQ << ",\"q_sat\":" << nQsat << ",\"q_unsat\":" << nQunsat << ",\"q_unknown\":" << nQunk << ",\"q_external\":" << nExt << ",\"solver_s\":" << tSolver << ",\"wall_s\":" << now() - T0 << ",\"asserts\":" << nAsserts << ",\"asserts_normal_form\":" << nAssertSyn << ",\"asserts_smt\":" << nAssertSmt << ",\"mem_checks\":" << nMemChecks << ",\"lookups\":" << K->nLookup << ",\"atoms\":" << K->atoms.size() << ",\"nodes\":" << K->nodes.size() << ",\"forms\":" << K->forms.size();
  o << ",\"reach\":["; bool f = true; for (auto &r : reached) { o << (f ? "" : ",") << "\"" << jesc(r) << "\""; f = false; }
  o << "],\"assert_kinds\":{"; f = true; for (auto &r : assertCount) { o << (f ? "" : ",") << "\"" << jesc(r.first) << "\":" << r.second; f = false; }
  o << "},\"incomplete\":["; f = true; set<string> inc(incomplete.begin(), incomplete.end()); for (auto &r : inc) { o << (f ? "" : ",") << "\"" << jesc(r) << "\""; f = false; }
  o << "],\"functions\":{"; f = true; for (auto *F : fns) if (F->builtin < 0 && F->calls) { string file; if (auto *sp = F->f->getSubprogram()) file = sp->getFilename().str(); o << (f ? "" : ",") << "\"" << F->name << "\":[" << F->calls << "," << F->icount << ",\"" << jesc(file) << "\"]"; f = false; }
  o << "},\"violations\":["; f = true; for (auto &v : viols) { o << (f ? "" : ",") << "{\"kind\":\"" << v.kind << "\",\"msg\":\"" << jesc(v.msg) << "\",\"loc\":\"" << jesc(v.loc) << "\",\"stack\":\"" << jesc(v.stack) << "\",\"vars\":" << v.vars << ",\"ufs\":" << v.ufs << "}"; f = false; }
  o << "],\"witnesses\":["; f = true; for (auto &v : witnesses) { o << (f ? "" : ",") << "{\"vars\":" << v.vars << ",\"ufs\":" << v.ufs << "}"; f = false; }
  o << "]}\n";
}
static void *mainThread(void *) {
  T0 = now(); K = new Core; string status = "ok";
  try {
    LLVMContext &ctx = *new LLVMContext; SMDiagnostic err; auto mod = parseIRFile(optBc, err, ctx); if (!mod) throw Fatal{"cannot read " + optBc}; M = mod.release(); DL = &M->getDataLayout(); initBuiltins();
    K->numbers = M->getFunction("BN_mod_exp") || M->getFunction("BN_bn2bin"); // big numbers: keep case distinctions on the length of a number small
    for (auto &F : *M) if (F.getName().starts_with("__wrap_") && !F.isDeclaration()) if (Function *T = M->getFunction(F.getName().substr(7))) T->replaceAllUsesWith(&F); // stand-ins defined by the harness, as ld --wrap
    State *init = new State; S = init; S->objs.push_back(nullptr); S->model = make_shared<Model>(); S->model->random = true; S->model->seed = optSeed * 100 + 77;
    for (auto &f : *M) { Fn *F = getFn(&f); auto o = make_shared<Obj>(); o->kind = O_FUNC; o->size = 0; o->name = "function"; for (size_t i = 0; i < fns.size(); i++) if (fns[i] == F) o->fn = i; F->obj = S->objs.size(); gaddr[&f] = (uint64_t)S->objs.size() << 32; S->objs.push_back(o); }
    for (auto &g : M->globals()) { auto o = make_shared<Obj>(); o->kind = O_GLOBAL; o->size = DL->getTypeAllocSize(g.getValueType()); o->d.assign(o->size, 0); o->ro = g.isConstant(); string *nm = new string(g.getName().str()); o->name = nm->c_str(); gaddr[&g] = (uint64_t)S->objs.size() << 32; S->objs.push_back(o); }
    for (auto &g : M->globals()) if (g.hasInitializer()) initBytes(S->objs[gaddr[&g] >> 32].get(), 0, g.getInitializer());
    Function *ef = M->getFunction(optEntry); if (!ef) throw Fatal{"no entry " + optEntry}; Fn *E = getFn(ef); decode(E); Frame fr; fr.f = E; fr.r.assign(E->nregs, Val{0, nullptr}); S->st.push_back(fr); E->calls++;
    for (int i = 0; i < 5; i++) { auto m = make_shared<Model>(); m->random = true; m->seed = optSeed * 100 + i; simModels.push_back(m); }
    for (int i = 5; i < 25; i++) { auto m = make_shared<Model>(); m->random = true; m->seed = optSeed * 100 + i; moreModels.push_back(m); }
    work.emplace_back(init);
    while (!work.empty()) { if ((int)viols.size() >= optMaxViol) { status = "stopped"; break; } auto st = std::move(work.back()); work.pop_back(); S = st.get(); try { runLoop(~0ull, -1); } catch (PathEnd &) { nPaths++; } if (now() - T0 > optTimeout) throw Fatal{"timeout"}; }
  } catch (Fatal &e) { status = "incomplete"; incomplete.push_back(e.m); }
  catch (z3::exception &e) { status = "incomplete"; incomplete.push_back(string("z3: ") + e.msg()); }
  catch (std::bad_alloc &) { status = "incomplete"; incomplete.push_back("out of memory"); }
  catch (MergeAbort &e) { status = "incomplete"; incomplete.push_back(string("merge ") + e.why); }
  if (status == "ok" && !incomplete.empty()) status = "incomplete";
  writeOut(status); _exit(0); return nullptr;
}
int main(int argc, char **argv) {
  for (int i = 1; i < argc; i++) { string a = argv[i]; auto nx = [&]() { return string(argv[++i]); }; if (a == "-o") optOut = nx(); else if (a == "-e") optEntry = nx(); else if (a == "-t") optTimeout = stod(nx()); else if (a == "-q") optQT = stod(nx()); else if (a == "-s") optSeed = stoull(nx()); else if (a == "-T") optTmp = nx(); else if (a == "-v") optTrace = true; else if (a == "-W") optWitness = stoi(nx()); else if (a == "-V") optMaxViol = stoi(nx()); else if (a == "-p") { string p = nx(); size_t e = p.find('='); params[p.substr(0, e)] = stol(p.substr(e + 1), nullptr, 0); } else optBc = a; }
  pthread_attr_t at; pthread_attr_init(&at); size_t sz = (size_t)8 << 30; void *stk = mmap(nullptr, sz, PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS | MAP_NORESERVE, -1, 0); pthread_attr_setstack(&at, stk, sz); pthread_t th; pthread_create(&th, &at, mainThread, nullptr); pthread_join(th, nullptr); return 3;
}
