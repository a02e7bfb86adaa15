#include "engine.h"
#include <llvm/IRReader/IRReader.h>
#include <llvm/Bitcode/BitcodeReader.h>
#include <llvm/Support/MemoryBuffer.h>
#include <llvm/Support/SourceMgr.h>
#include <llvm/IR/LLVMContext.h>
#include <llvm/IR/CFG.h>
#include <llvm/Analysis/PostDominators.h>
#include <llvm/IR/GetElementPtrTypeIterator.h>
#include <cmath>
#include <cstring>
#include <chrono>
#include <fstream>
#include <sstream>
#include <iostream>
#include <algorithm>
#include <pthread.h>
#include <sys/mman.h>
#include <sys/wait.h>
#include <unistd.h>
#include <signal.h>
using namespace std; using namespace llvm;

static Core *K;
static Module *M; static const DataLayout *DL;
static vector<Val> cpool;                    // constants
static vector<Fn *> fns; static map<const Function *, Fn *> fnOf; static map<const GlobalValue *, uint64_t> gaddr;
static State *S;                             // current state
static vector<unique_ptr<State>> work;
static double T0; static double now() { return chrono::duration<double>(chrono::steady_clock::now().time_since_epoch()).count(); }
// options / stats
static string optOut = "out.json", optEntry = "harness", optTmp = "/tmp"; static double optTimeout = 600, optQT = 60; static int optMaxViol = 4; static uint64_t optSeed = 1; static bool optTrace = false;
static uint64_t nPaths = 0, nInstr = 0, nQ = 0, nQsat = 0, nQunsat = 0, nQunk = 0, nAsserts = 0, nAssertSyn = 0, nAssertSmt = 0, nForks = 0, nMerges = 0, nMergeAborts = 0, nMemChecks = 0, nExt = 0, nStates = 0, nRaces = 0; static double tSolver = 0;
static set<string> reached; static map<string, uint64_t> assertCount;
static vector<string> incomplete;

struct PathEnd { }; struct MergeAbort { const char *why; }; struct Restart { }; struct Fatal { string m; };
struct Viol { string kind, msg, loc, vars, ufs; string stack; };
static vector<Viol> viols; static set<string> violKeys;
static int inMerge = 0; static uint64_t mergeBudgetEnd = ~0ull;

static inline uint64_t mask(uint32_t w) { return w >= 64 ? ~0ull : (1ull << w) - 1; }
static string locOf(const Instruction *I) { if (!I) return "?"; string s; if (auto &d = I->getDebugLoc()) { auto *sc = cast<DIScope>(d.getScope()); s = sc->getFilename().str() + ":" + to_string(d.getLine()); } else s = "?"; return s; }
static string stackStr() { string s; for (size_t i = S->st.size(); i-- > 0;) { auto &f = S->st[i]; if (!s.empty()) s += " < "; s += f.f->name; if (f.pc > 0 && f.pc <= (int)f.f->code.size()) { int p = i + 1 == S->st.size() ? f.pc : f.pc - 1; if (p < (int)f.f->code.size()) s += "@" + locOf(f.f->code[p].src); } if (s.size() > 600) break; } return s; }
static string userLoc() { for (size_t i = S->st.size(); i-- > 0;) { auto &f = S->st[i]; int p = i + 1 == S->st.size() ? f.pc : f.pc - 1; if (p >= 0 && p < (int)f.f->code.size()) { string l = locOf(f.f->code[p].src); if (l.find("models/") == string::npos && l != "?") return l; } } return "?"; }

// ---------------------------------------------------------------- value helpers
static inline SVp sv(const Val &v, uint32_t w) { return v.s ? v.s : K->cst(APInt(w, v.c)); }
static inline Val mkv(SVp s) { APInt k; if (s->w() <= 64 && K->isConst(s, &k)) return {k.getZExtValue(), nullptr}; return {0, s}; }
static inline Val cv(uint64_t c) { return {c, nullptr}; }
static SVp ptrSV(const Val &v) { return v.s ? K->add(v.s, K->cst(APInt(64, v.c))) : K->cst(APInt(64, v.c)); }
static uint64_t concretise(const Val &v, uint32_t w);
static bool multiPtr(SVp s);
static Val ptrFromSV(SVp s) { APInt k; if (K->isConst(s, &k)) return {k.getZExtValue(), nullptr}; Node *n = K->asNode(s);
  if (n && n->op == N_LIN && n->w == 64) { uint64_t base = n->cst.getZExtValue(); SVp d = K->sub(s, K->cst(APInt(64, base))); bool hz = true; for (int i = 40; i < 64; i++) if (d->b[i]) hz = false; if (hz || !multiPtr(s)) return {base, d}; return {0, s}; }
  // high part constant?
  bool hc = true; uint64_t hi = 0; for (int i = 32; i < 64; i++) { if (s->b[i] > 1) hc = false; else hi |= (uint64_t)s->b[i] << i; }
  if (hc) { uint64_t lo = 0; for (int i = 0; i < 32; i++) if (s->b[i] == 1) lo |= 1ull << i; vector<Bit> b(s->b); for (auto &x : b) if (x < 2) x = 0; return {hi | lo, K->mkSV(std::move(b))}; }
  if (multiPtr(s)) return {0, s};
  return {concretise(Val{0, s}, 64), nullptr}; }
static int uninitCtr = 0;
static SVp freshUninit(uint32_t w) { SVp v = K->newVar("uninit" + to_string(uninitCtr++), w); Node *n = K->asNode(v); if (n) n->uninit = true; return v; }

// ---------------------------------------------------------------- solver
static void cone(const vector<Bit> &roots, set<uint32_t> &uf, set<uint32_t> &vars) {
  unordered_set<uint32_t> fs, as, ns; vector<uint32_t> fq; for (auto b : roots) fq.push_back(b >> 1);
  while (!fq.empty()) { uint32_t f = fq.back(); fq.pop_back(); if (!fs.insert(f).second) continue;
    for (auto a : K->forms[f]) if (as.insert(a).second) { auto &ai = K->atoms[a]; if (ai.k == A_TT) { for (auto g : K->spaces[ai.a].basis) fq.push_back(g); } else if (ns.insert(ai.a).second) { Node *n = K->nodes[ai.a].get(); if (n->op == N_VAR) vars.insert(ai.a); if (n->op == N_UF) uf.insert(ai.a); for (auto s : n->args) for (auto b : s->b) fq.push_back(b >> 1); } } }
}
static APInt zval(z3::model &m, z3::expr e, uint32_t w) { z3::expr v = m.eval(e, true); string s = v.to_string(); // #x.. or #b..
  if (s[0] == '#' && s[1] == 'x') return APInt(max<unsigned>(w, 4 * (s.size() - 2)), StringRef(s).drop_front(2), 16).trunc(w);
  if (s[0] == '#' && s[1] == 'b') return APInt(w, StringRef(s).drop_front(2), 2); return APInt(w, 0); }
static string runCmd(const string &cmd, double to) { string out; FILE *p = popen(cmd.c_str(), "r"); if (!p) return ""; char b[65536]; size_t n; while ((n = fread(b, 1, sizeof b, p)) > 0) out.append(b, n); pclose(p); return out; }
// Gaussian elimination over the affine part of a query: 0 = inconsistent (unsat), 1 = a model satisfying every condition was found, -1 = not decided here
static uint64_t nLinSat = 0, nLinUnsat = 0;
static int linSolve(const vector<Bit> &conds, shared_ptr<Model> &out) {
  vector<pair<vector<Atom>, bool>> rows;
  for (auto b : conds) { if (b < 2) continue; auto &f = K->forms[b >> 1];
    if (f.size() == 1 && !(b & 1) && K->atoms[f[0]].k == A_WORD) { Node *n = K->nodes[K->atoms[f[0]].a].get(); if (n->op == N_EQ0) { for (uint32_t i = 0; i < n->args[0]->w(); i++) { Bit x = K->bxor(n->args[0]->b[i], n->args[1]->b[i]); if (x == 1) return 0; if (x) rows.push_back({K->forms[x >> 1], (bool)(x & 1)}); } continue; } }
    rows.push_back({K->forms[b >> 1], !(b & 1)}); }
  if (rows.empty() || rows.size() > 6000) return -1;
  set<Atom> as; for (auto &r : rows) as.insert(r.first.begin(), r.first.end()); if (as.size() > 60000) return -1;
  vector<Atom> cols; auto cls = [&](Atom a) { auto &ai = K->atoms[a]; if (ai.k != A_WORD) return 2; Node *n = K->nodes[ai.a].get(); return n->op == N_VAR && !n->dom ? 0 : n->op == N_UF ? 1 : 2; };
  for (int c = 0; c < 3; c++) for (auto a : as) if (cls(a) == c) cols.push_back(a);
  unordered_map<Atom, uint32_t> ix; for (uint32_t i = 0; i < cols.size(); i++) ix[cols[i]] = i; size_t W = cols.size() / 64 + 1, CC = cols.size();
  vector<vector<uint64_t>> M; for (auto &r : rows) { vector<uint64_t> v(W, 0); for (auto a : r.first) { uint32_t i = ix[a]; v[i >> 6] ^= 1ull << (i & 63); } if (r.second) v[CC >> 6] ^= 1ull << (CC & 63); M.push_back(std::move(v)); }
  auto bit = [&](const vector<uint64_t> &v, size_t i) { return (v[i >> 6] >> (i & 63)) & 1; }; vector<pair<uint32_t, uint32_t>> piv; size_t r0 = 0;
  for (size_t r = 0; r < M.size(); r++) { // pivot = first set column of the row, after elimination by earlier pivots
    for (auto &p : piv) if (bit(M[r], p.second)) for (size_t w = 0; w < W; w++) M[r][w] ^= M[p.first][w];
    size_t c = CC; for (size_t w = 0; w < W && c == CC; w++) if (M[r][w]) { size_t i = w * 64 + __builtin_ctzll(M[r][w]); if (i < CC) c = i; else break; }
    if (c == CC) { if (bit(M[r], CC)) return 0; continue; }
    for (auto &p : piv) if (bit(M[p.first], c)) for (size_t w = 0; w < W; w++) M[p.first][w] ^= M[r][w];
    piv.push_back({(uint32_t)r, (uint32_t)c}); }
  (void)r0;
  for (int t = 0; t < 3; t++) { Model base; base.random = true; base.seed = optSeed * 977 + 31 * nQ + t; auto md = make_shared<Model>(); md->random = true; md->seed = base.seed; vector<char> val(CC);
    for (size_t i = 0; i < CC; i++) val[i] = K->evalAtom(base, cols[i]); for (auto &p : piv) { bool v = bit(M[p.first], CC); for (size_t i = 0; i < CC; i++) if (i != p.second && bit(M[p.first], i)) v ^= val[i]; val[p.second] = v; }
    for (size_t i = 0; i < CC; i++) if (cls(cols[i]) < 2) { auto &ai = K->atoms[cols[i]]; auto it = md->fixed.find(ai.a); if (it == md->fixed.end()) it = md->fixed.emplace(ai.a, K->evalNode(base, ai.a)).first; if (val[i]) it->second.setBit(ai.b); else it->second.clearBit(ai.b); }
    bool ok = true; for (auto b : conds) if (!K->evalBit(*md, b)) { ok = false; break; } if (!ok) continue;
    for (size_t i = 0; i < md->uft.size() && ok; i++) for (size_t j = 0; j < i; j++) { auto &a = md->uft[i], &b = md->uft[j]; if ((a.uf & 0x1000) && a.uf == b.uf && a.in != b.in && a.out == b.out) ok = false; if ((a.uf & 0x1000) && a.uf == (b.uf ^ 0x2000) && (a.in == b.out) != (a.out == b.in)) ok = false; }
    if (ok) { out = md; return 1; } }
  return -1;
}
// 1 sat, 0 unsat, -1 unknown ; fills model
static int solve(const vector<Bit> &conds, shared_ptr<Model> *out, double to = -1) {
  for (auto b : conds) if (b == 0) return 0;
  double t0 = now(); nQ++; if (to < 0) to = optQT;
  { shared_ptr<Model> lm; int r = linSolve(conds, lm); if (r >= 0) { if (r) { nLinSat++; nQsat++; if (out) *out = lm; } else { nLinUnsat++; nQunsat++; } tSolver += now() - t0; if (optTrace) cerr << "query " << nQ << " linear " << r << " t " << now() - t0 << " @" << userLoc() << "\n"; return r; } }
  set<uint32_t> uf, vars; cone(conds, uf, vars);
  z3::context &z = K->z; int res = -1; shared_ptr<Model> md;
  z3::tactic tac = z3::tactic(z, "simplify") & z3::tactic(z, "propagate-values") & z3::tactic(z, "solve-eqs") & z3::tactic(z, "simplify") & z3::tactic(z, "bit-blast") & z3::tactic(z, "sat");
  z3::solver s = tac.mk_solver(); vector<z3::expr> asserts;
  auto addA = [&](z3::expr e) { s.add(e); asserts.push_back(e); };
  for (auto b : conds) if (b > 1) addA(K->bitZ(b));
  // Ackermann constraints
  vector<uint32_t> u(uf.begin(), uf.end());
  for (size_t i = 0; i < u.size(); i++) for (size_t j = i + 1; j < u.size(); j++) {
    Node *a = K->nodes[u[i]].get(), *b = K->nodes[u[j]].get(); if (a->args[0]->w() != b->args[0]->w() || a->w != b->w) continue;
    if (a->ufid == b->ufid) { z3::expr ie = K->toZ(a->args[0]) == K->toZ(b->args[0]), oe = K->nodeZ(u[i]) == K->nodeZ(u[j]); if (a->ufid & 0x1000) addA(ie == oe); else addA(z3::implies(ie, oe)); }
    else if ((a->ufid & 0x1000) && a->ufid == (b->ufid ^ 0x2000)) { z3::expr x = K->toZ(a->args[0]) == K->nodeZ(u[j]), y = K->nodeZ(u[i]) == K->toZ(b->args[0]); addA(x == y); }
  }
  z3::params p(z); double first = min(to, 20.0); p.set("timeout", (unsigned)(first * 1000)); s.set(p);
  z3::check_result r = z3::unknown; try { r = s.check(); } catch (z3::exception &e) { r = z3::unknown; }
  if (r == z3::unsat) res = 0;
  else if (r == z3::sat) { res = 1; z3::model m = s.get_model(); md = make_shared<Model>(); for (auto v : vars) md->fixed[v] = zval(m, K->nodeZ(v), K->nodes[v]->w); for (auto v : u) md->fixed[v] = zval(m, K->nodeZ(v), K->nodes[v]->w); }
  else if (to > first) { // external portfolio
    nExt++; string base = optTmp + "/q" + to_string(getpid()) + "_" + to_string(nQ); string f = base + ".smt2";
    { z3::solver s2(z); for (auto &e : asserts) s2.add(e); string smt = s2.to_smt2(); ofstream o(f); o << "(set-option :produce-models true)\n(set-logic QF_BV)\n"; string body = smt; size_t q; while ((q = body.find("(set-info")) != string::npos) { size_t e = body.find('\n', q); body.erase(q, e - q + 1); } if ((q = body.find("(set-logic")) != string::npos) { size_t e = body.find('\n', q); body.erase(q, e - q + 1); } o << body;
      o << "(get-model)\n"; }
    string sh = "cd " + optTmp + "; (timeout " + to_string((int)(to - first)) + " z3-new " + f + " > " + base + ".z 2>&1; head -1 " + base + ".z | grep -qE '^(un)?sat$' && echo z >> " + base + ".done) & A=$!; (timeout " + to_string((int)(to - first)) + " cvc5 --bitblast=eager --bv-sat-solver=cadical " + f + " > " + base + ".c 2>&1; head -1 " + base + ".c | grep -qE '^(un)?sat$' && echo c >> " + base + ".done) & B=$!; while kill -0 $A 2>/dev/null || kill -0 $B 2>/dev/null; do [ -s " + base + ".done ] && break; sleep 0.2; done; pkill -P $A; pkill -P $B; kill $A $B 2>/dev/null; head -1 " + base + ".done 2>/dev/null";
    { ofstream o(base + ".sh"); o << sh << "\n"; } string w = runCmd("bash " + base + ".sh 2>/dev/null", to);
    if (!w.empty() && (w[0] == 'z' || w[0] == 'c')) { ifstream in(base + "." + w[0]); string l; getline(in, l); if (l == "unsat") res = 0; else if (l == "sat") { // parse model: (define-fun NAME () (_ BitVec n) VALUE)
        stringstream ss; ss << in.rdbuf(); string t = ss.str(); md = make_shared<Model>(); map<string, uint32_t> nm; for (auto v : vars) nm[K->nodeZ(v).to_string()] = v; for (auto v : u) nm[K->nodeZ(v).to_string()] = v;
        size_t q = 0; while ((q = t.find("(define-fun ", q)) != string::npos) { q += 12; size_t e = t.find(' ', q); string n = t.substr(q, e - q); size_t v = t.find('#', e); size_t v2 = t.find_first_of(") \n", v); string val = t.substr(v, v2 - v); auto it = nm.find(n); if (it != nm.end()) { uint32_t wd = K->nodes[it->second]->w; md->fixed[it->second] = val[1] == 'x' ? APInt(max<unsigned>(wd, 4 * (val.size() - 2)), StringRef(val).drop_front(2), 16).trunc(wd) : APInt(wd, StringRef(val).drop_front(2), 2); } }
        res = 1; } }
    for (auto e : {".smt2", ".z", ".c", ".done", ".sh"}) unlink((base + e).c_str());
  }
  if (res == 1) { // preload UF table with model values, verify
    for (auto v : u) { APInt in; }
    for (auto v : u) { Node *n = K->nodes[v].get(); (void)n; K->evalNode(*md, v); }
    bool ok = true; for (auto b : conds) if (!K->evalBit(*md, b)) ok = false;
    if (!ok) { if (getenv("LLSYM_DEBUG")) cerr << "model does not satisfy query\n"; }
    if (out) *out = md;
  }
  if (res == 0) nQunsat++; else if (res == 1) nQsat++; else nQunk++;
  tSolver += now() - t0; if (optTrace) cerr << "query " << nQ << " res " << res << " t " << now() - t0 << " @" << userLoc() << "\n"; return res;
}
static vector<shared_ptr<Model>> simModels, moreModels; // moreModels: only tried where the solver would be asked on an unconstrained path
static bool satPC(Model &m, const vector<Bit> &pc) { for (size_t i = pc.size(); i-- > 0;) if (!K->evalBit(m, pc[i])) return false; return true; }
// is pc & b satisfiable?  returns 1/0/-1 and a model
static int feasible(Bit b, shared_ptr<Model> *out) {
  if (b == 0) return 0;
  if (S->model && K->evalBit(*S->model, b)) { if (out) *out = S->model; return 1; }
  for (auto &m : simModels) if (K->evalBit(*m, b) && satPC(*m, S->pc)) { if (out) *out = m; return 1; }
  if (S->pc.empty()) for (auto &m : moreModels) if (K->evalBit(*m, b)) { if (out) *out = m; return 1; }
  auto c = S->pc; c.push_back(b); return solve(c, out);
}
static shared_ptr<Model> quickModel(Bit b) { if (S->model && K->evalBit(*S->model, b)) return S->model; for (auto &m : simModels) if (K->evalBit(*m, b) && satPC(*m, S->pc)) return m; return nullptr; }
static void learn(Bit b) { if (b > 1) { S->known[b] = true; S->known[b ^ 1] = false; S->pc.push_back(b); } }
static inline int knownBit(Bit b) { if (b < 2) return b; auto it = S->known.find(b); return it == S->known.end() ? -1 : it->second; }

static string hexOf(const APInt &v) { SmallString<80> s; v.toString(s, 16, false, false, false); string r = s.str().str(); size_t n = (v.getBitWidth() + 7) / 8 * 2; while (r.size() < n) r = "0" + r; return r; }
static string jesc(const string &s) { string r; for (char c : s) { if (c == '"' || c == '\\') { r += '\\'; r += c; } else if (c == '\n') r += "\\n"; else if ((unsigned char)c < 32) r += ' '; else r += c; } return r; }


// ---------------------------------------------------------------- equivalence sweeping
// Word nodes that agree on random simulations are proved equal one by one, bottom up, each over a cut of
// already merged nodes; every merge is an SMT verdict (unsat).  Returns the goal's verdict over the cut: 0 = goal holds.
static uint64_t nSweepQ = 0, nMerged = 0;
static void coneNodes(const vector<Bit> &roots, set<uint32_t> &ns) {
  unordered_set<uint32_t> fs, as; vector<uint32_t> fq; for (auto b : roots) fq.push_back(b >> 1);
  while (!fq.empty()) { uint32_t f = fq.back(); fq.pop_back(); if (!fs.insert(f).second) continue;
    for (auto a : K->forms[f]) if (as.insert(a).second) { auto &ai = K->atoms[a]; if (ai.k == A_TT) { for (auto g : K->spaces[ai.a].basis) fq.push_back(g); } else if (ns.insert(ai.a).second) { Node *n = K->nodes[ai.a].get(); for (auto s : n->args) for (auto b : s->b) fq.push_back(b >> 1); } } }
}
static void childNodes(uint32_t id, set<uint32_t> &out) { Node *n = K->nodes[id].get(); vector<Bit> r; for (auto s : n->args) for (auto b : s->b) r.push_back(b);
  unordered_set<uint32_t> fs; vector<uint32_t> fq; for (auto b : r) fq.push_back(b >> 1);
  while (!fq.empty()) { uint32_t f = fq.back(); fq.pop_back(); if (!fs.insert(f).second) continue; for (auto a : K->forms[f]) { auto &ai = K->atoms[a]; if (ai.k == A_TT) { for (auto g : K->spaces[ai.a].basis) fq.push_back(g); } else out.insert(ai.a); } } }
static int zcheck(const vector<z3::expr> &es, double to) {
  z3::context &z = K->z; double t0 = now(); nSweepQ++; nQ++;
  z3::tactic tac = z3::tactic(z, "simplify") & z3::tactic(z, "propagate-values") & z3::tactic(z, "solve-eqs") & z3::tactic(z, "simplify") & z3::tactic(z, "bit-blast") & z3::tactic(z, "sat");
  z3::solver s = tac.mk_solver(); for (auto &e : es) s.add(e); z3::params p(z); p.set("timeout", (unsigned)(to * 1000)); s.set(p);
  z3::check_result r = z3::unknown; try { r = s.check(); } catch (z3::exception &) { r = z3::unknown; }
  tSolver += now() - t0; if (r == z3::unsat) nQunsat++; else if (r == z3::sat) nQsat++; else nQunk++; return r == z3::unsat ? 0 : r == z3::sat ? 1 : -1;
}
static bool isBoolNode(Node *n) { return n->op == N_EQ0 || n->op == N_ULT || n->op == N_SLT; }
static unordered_map<uint32_t, string> sweepSig; static unordered_map<string, vector<uint32_t>> sweepCls; static set<uint32_t> swept;
static vector<shared_ptr<Model>> sweepModels;
static int sweep1(const vector<Bit> &conds, const vector<Bit> &pc) {
  set<uint32_t> ns; coneNodes(conds, ns); if (ns.size() < 8) return -1; double tEnd = now() + 400;
  if (sweepModels.empty()) for (int i = 0; i < 24; i++) { auto m = make_shared<Model>(); m->random = true; m->seed = optSeed * 1000 + 500 + i; sweepModels.push_back(m); }
  z3::context &z = K->z; K->setCut(true); struct R { ~R() { K->setCut(false); } } restore;
  vector<shared_ptr<Model>> mods; for (auto &m : sweepModels) if (pc.empty() || satPC(*m, pc)) mods.push_back(m); if (!pc.empty() && S->model && mods.size() < 12 && satPC(*S->model, pc)) { set<uint32_t> uf, vs; cone(pc, uf, vs); for (int i = 0; i < 12; i++) { auto m = make_shared<Model>(); m->random = true; m->seed = optSeed * 1000 + 900 + i; for (auto v : vs) m->fixed[v] = K->evalNode(*S->model, v); for (auto v : uf) m->fixed[v] = K->evalNode(*S->model, v); if (satPC(*m, pc)) mods.push_back(m); } } if (mods.size() < 3) return -1;
  int fails = 0; vector<z3::expr> pz; if (!pc.empty()) { set<uint32_t> pn; coneNodes(pc, pn); if (pn.size() > 200) return -1; for (auto b : pc) if (b > 1) pz.push_back(K->bitZ(b)); for (auto x : pn) { Node *m = K->nodes[x].get(); if (m->op != N_VAR && m->op != N_UF) pz.push_back(K->nodeZ(x) == K->nodeDefZ(x)); } }
  for (auto id : ns) { if (!swept.insert(id).second) continue; Node *n = K->nodes[id].get(); if (n->op == N_VAR || (n->nb < 4 && !isBoolNode(n))) continue; if (now() > tEnd) return -1;
    string sig = to_string(n->w) + (n->op == N_UF ? "u" + to_string(n->ufid) : "n"); bool first = true, konst = true; APInt v0; for (auto &m : mods) { APInt v = K->evalNode(*m, id); if (first) { v0 = v; first = false; } else if (v != v0) konst = false; sig += hexOf(v); }
    if (konst) continue; auto &c = sweepCls[sig]; bool merged = false; int tries = 0;
    for (auto r : c) { if (++tries > 3) break; Node *q = K->nodes[r].get(); vector<z3::expr> es = pz;
      if (n->op == N_UF) es.push_back(K->toZ(n->args[0]) != K->toZ(q->args[0])); else es.push_back(K->nodeDefZ(id) != K->nodeDefZ(r));
      int k = zcheck(es, 5);
      for (int depth = 1; k == 1 && depth <= 3; depth++) { set<uint32_t> lvl = {id, r}, all; for (int d = 0; d < depth; d++) { set<uint32_t> nx; for (auto x : lvl) childNodes(x, nx); all.insert(nx.begin(), nx.end()); lvl = nx; } if (all.size() > 120) break; auto e2 = es; for (auto x : all) { Node *m = K->nodes[x].get(); if (m->op == N_VAR || m->op == N_UF || K->rep(x) != x) continue; e2.push_back(K->nodeZ(x) == K->nodeDefZ(x)); } k = zcheck(e2, 4); }
      if (k == 0) { K->reps[id] = r; nMerged++; merged = true; fails = 0; break; } if (++fails > 10) return -1; }
    if (!merged) c.push_back(id);
  }
  K->clearCut(); vector<z3::expr> es; for (auto b : conds) if (b > 1) es.push_back(K->bitZ(b)); int k = zcheck(es, 20); if (k == 0) return 0;
  // with definitions of the remaining nodes and congruence of uninterpreted functions
  vector<uint32_t> u; for (auto id : ns) { Node *n = K->nodes[id].get(); if (n->op == N_VAR || K->rep(id) != id) continue; if (n->op == N_UF) u.push_back(id); else es.push_back(K->nodeZ(id) == K->nodeDefZ(id)); }
  for (size_t i = 0; i < u.size(); i++) for (size_t j = i + 1; j < u.size(); j++) { Node *a = K->nodes[u[i]].get(), *b = K->nodes[u[j]].get(); if (a->args[0]->w() != b->args[0]->w() || a->w != b->w) continue;
    if (a->ufid == b->ufid) { z3::expr ie = K->toZ(a->args[0]) == K->toZ(b->args[0]), oe = K->nodeZ(u[i]) == K->nodeZ(u[j]); es.push_back((a->ufid & 0x1000) ? ie == oe : z3::implies(ie, oe)); }
    else if ((a->ufid & 0x1000) && a->ufid == (b->ufid ^ 0x2000)) es.push_back((K->toZ(a->args[0]) == K->nodeZ(u[j])) == (K->nodeZ(u[i]) == K->toZ(b->args[0]))); }
  k = zcheck(es, 60); return k == 0 ? 0 : -1;
}
static int sweep(const vector<Bit> &conds, const vector<Bit> &pc) {
  int r = sweep1(conds, {}); if (r == 0 || pc.empty()) return r;
  auto a = K->reps; auto b = sweepCls; auto c = swept; K->reps.clear(); sweepCls.clear(); swept.clear(); K->clearCut(); r = sweep1(conds, pc); K->reps = a; sweepCls = b; swept = c; K->clearCut(); return r;
}
static bool concretiseUF(shared_ptr<Model> &md);
static void dumpModel(shared_ptr<Model> md, Viol &v) {
    string vs = "["; bool first = true; auto m2 = make_shared<Model>(); m2->fixed = md->fixed; m2->random = md->random; m2->seed = md->seed; m2->uft = md->uft;
    // determinism: evaluate UFs under the model
    for (auto &q : S->seq) { if (!first) vs += ","; first = false; string val; if (q.sv) { APInt x = K->eval(*m2, q.sv); string h; for (unsigned i = 0; i < x.getBitWidth(); i += 8) { char t[3]; snprintf(t, 3, "%02x", (unsigned)x.extractBitsAsZExtValue(min(8u, x.getBitWidth() - i), i)); h += t; } val = h; } else { char t[40]; snprintf(t, 40, "%llx", (unsigned long long)q.c); val = string("#") + t; } vs += "[\"" + jesc(q.name) + "\",\"" + val + "\"]"; }
    vs += "]"; v.vars = vs; string us = "["; first = true; for (auto id : K->ufNodes) { Node *n = K->nodes[id].get(); APInt o = K->evalNode(*m2, id), in = K->eval(*m2, n->args[0]); if (uf_default(n->ufid, in, n->w) == o) continue; if (!first) us += ","; first = false; auto h = [](const APInt &x) { string h; for (unsigned i = 0; i < x.getBitWidth(); i += 8) { char t[3]; snprintf(t, 3, "%02x", (unsigned)x.extractBitsAsZExtValue(min(8u, x.getBitWidth() - i), i)); h += t; } return h; }; us += "[" + to_string(n->ufid) + ",\"" + h(in) + "\",\"" + h(o) + "\"]"; }
    us += "]"; v.ufs = us;
}
static vector<Viol> witnesses; static int optWitness = 0;
static void witness() { if ((int)witnesses.size() >= optWitness || !S->model || !satPC(*S->model, S->pc)) return; Viol v; dumpModel(S->model, v); witnesses.push_back(v); }
static void report(const string &kind, const string &msg, shared_ptr<Model> md) {
  if (inMerge) throw MergeAbort{"violation"};
  string loc = userLoc(); string key = kind + "|" + msg + "|" + loc;
  if (violKeys.insert(key).second) {
    Viol v; v.kind = kind; v.msg = msg; v.loc = loc; v.stack = stackStr();
    if (!md) { Bit t = 1; feasible(t, &md); if (!md) md = S->model; }
    dumpModel(md, v);  viols.push_back(v); if (optTrace) cerr << "VIOL " << kind << " " << msg << " @ " << loc << "\n  " << v.stack << "\n  " << v.vars << "\n";
  }
  throw PathEnd();
}

// decide a branch condition; may fork
static bool decide(Bit c) {
  int k = knownBit(c); if (k >= 0) return k;
  shared_ptr<Model> mt, mf; int ft = feasible(c, &mt), ff = feasible(c ^ 1, &mf);
  if (ft == -1 || ff == -1) { incomplete.push_back("solver unknown on branch at " + userLoc()); if (ft == -1 && ff == -1) throw PathEnd(); }
  if (ft == 0 && ff == 0) throw PathEnd();
  if (ft != 1) { S->known[c] = false; S->known[c ^ 1] = true; S->model = mf; return false; }
  if (ff != 1) { S->known[c] = true; S->known[c ^ 1] = false; S->model = mt; return true; }
  if (inMerge) throw MergeAbort{"fork"};
  auto n = make_unique<State>(*S); if (n->race) n->race = make_shared<Race>(*n->race); nForks++; n->id = ++nStates;
  { State *o = S; S = n.get(); learn(c ^ 1); S->model = mf; S = o; }
  learn(c); S->model = mt; work.push_back(std::move(n)); return true;
}
static uint64_t concretise(const Val &v, uint32_t w) { // may fork
  if (!v.s) return v.c;
  auto it = S->conc.find(v.s->id); if (it != S->conc.end()) return it->second;
  for (;;) {
    shared_ptr<Model> md; int f = feasible(1, &md); if (f != 1) throw PathEnd();
    APInt x = K->eval(*md, v.s); Bit c = K->eq(v.s, K->cst(x)); uint64_t r = x.getZExtValue();
    if (c == 1) return r;
    auto mm = S->model; S->model = md; if (decide(c)) { S->conc[v.s->id] = r; return r; } // clone re-executes the instruction
  }
}

// ---------------------------------------------------------------- memory
static uint32_t newObj(uint64_t size, uint8_t kind, const char *name, bool init0) {
  uint32_t id; if (kind == O_STACK && !S->freeIds.empty()) { id = S->freeIds.back(); S->freeIds.pop_back(); } else { id = S->objs.size(); S->objs.push_back(nullptr); }
  auto o = make_shared<Obj>(); o->size = size; o->kind = kind; o->name = name; o->d.assign(size, 0); if (!init0) o->un.assign(size, 1); o->owner = S->omp_tid; S->objs[id] = o; S->nalloc++; return id;
}
static inline Obj *wr(uint32_t id) { auto &p = S->objs[id]; if (p.use_count() > 1) p = make_shared<Obj>(*p); return p.get(); }
static void logAccess(uint32_t id, uint64_t off, uint64_t n, bool write) {
  auto &o = S->objs[id]; if (o->owner >= 0 || !S->race) return;
  for (uint64_t i = 0; i < n; i++) { auto &e = S->race->log[((uint64_t)id << 32) | (off + i)]; uint64_t me = 1ull << S->omp_tid; int ix = (S->crit ? 2 : 0) + (write ? 1 : 0);
    bool race = false; uint64_t oth = ~me; if (write) race = (e[0] | e[1]) & oth || (!S->crit && ((e[2] | e[3]) & oth)); else race = (e[1] & oth) || (!S->crit && (e[3] & oth));
    e[ix] |= me; if (race) { nRaces++; report("race", string("data race on shared memory (") + o->name + ")", nullptr); } }
}
static const char *objDesc(uint32_t id) { static string s; auto &o = S->objs[id]; s = string(o->kind == O_HEAP ? "heap" : o->kind == O_STACK ? "stack" : "global") + " object '" + o->name + "' of " + to_string(o->size) + " bytes"; return s.c_str(); }
static void chk(uint64_t addr, uint64_t n, bool write) {
  nMemChecks++; uint32_t id = addr >> 32; uint64_t off = addr & 0xffffffff;
  if (id == 0 || id >= S->objs.size() || !S->objs[id]) { char b[100]; snprintf(b, 100, "%s through %s pointer 0x%llx", write ? "write" : "read", addr < 4096 ? "NULL" : "invalid", (unsigned long long)addr); report("memory", b, nullptr); }
  auto &o = S->objs[id];
  if (!o->alive) report("memory", string(write ? "write to" : "read of") + " freed memory", nullptr);
  if (o->kind == O_FUNC || off + n > o->size || off > o->size) report("memory", string(write ? "out-of-bounds write of " : "out-of-bounds read of ") + to_string(n) + " bytes at offset " + to_string((int64_t)(int32_t)off) + " of " + objDesc(id), nullptr);
  if (write && o->ro) report("memory", "write to constant object", nullptr);
  if (S->omp_tid >= 0) logAccess(id, off, n, write);
}
static inline SVp byteAt(Obj *o, uint64_t off, uint32_t id) {
  if (!o->un.empty() && o->un[off]) { o = wr(id); SVp v = freshUninit(8); o->un[off] = 0; if (o->sy.empty()) o->sy.assign(o->size, nullptr); o->sy[off] = v; return v; }
  if (!o->sy.empty() && o->sy[off]) return o->sy[off];
  return nullptr;
}
static Val loadC(uint64_t addr, uint32_t w) { // concrete address, integer of w bits
  uint32_t n = (w + 7) / 8; chk(addr, n, false); uint32_t id = addr >> 32; uint64_t off = addr & 0xffffffff; Obj *o = S->objs[id].get();
  bool sym = false; if (!o->un.empty()) for (uint32_t i = 0; i < n; i++) if (o->un[off + i]) { sym = true; break; }
  if (!sym && !o->sy.empty()) for (uint32_t i = 0; i < n; i++) if (o->sy[off + i]) { sym = true; break; }
  if (!sym && w <= 64) { uint64_t v = 0; memcpy(&v, o->d.data() + off, n); return {v & mask(w), nullptr}; }
  vector<Bit> bits; bits.reserve(n * 8);
  for (uint32_t i = 0; i < n; i++) { SVp b = byteAt(S->objs[id].get(), off + i, id); if (b) bits.insert(bits.end(), b->b.begin(), b->b.end()); else { uint8_t v = S->objs[id]->d[off + i]; for (int j = 0; j < 8; j++) bits.push_back(v >> j & 1); } }
  bits.resize(w); SVp r = K->mkSV(std::move(bits)); if (w <= 64) return mkv(r); return {0, r};
}
static void storeC(uint64_t addr, uint32_t w, const Val &v) {
  uint32_t n = (w + 7) / 8; chk(addr, n, true); uint32_t id = addr >> 32; uint64_t off = addr & 0xffffffff; Obj *o = wr(id);
  if (!o->un.empty()) memset(o->un.data() + off, 0, n);
  if (!v.s) { memcpy(o->d.data() + off, &v.c, min(n, 8u)); if (n > 8) memset(o->d.data() + off + 8, 0, n - 8); if (!o->sy.empty()) for (uint32_t i = 0; i < n; i++) o->sy[off + i] = nullptr; return; }
  if (o->sy.empty()) o->sy.assign(o->size, nullptr);
  for (uint32_t i = 0; i < n; i++) { vector<Bit> b(8, 0); bool con = true; uint8_t c = 0; for (int j = 0; j < 8; j++) { if (i * 8 + j < w) b[j] = v.s->b[i * 8 + j]; if (b[j] > 1) con = false; else c |= b[j] << j; } if (con) { o->d[off + i] = c; o->sy[off + i] = nullptr; } else o->sy[off + i] = K->mkSV(std::move(b)); }
}
// enumerate the values of a symbolic vector through a small basis
struct EnumV { vector<uint32_t> basis; vector<uint64_t> val; };
static bool enumerate(SVp s, int cap, EnumV &e) {
  // candidate variable sets: direct forms; or LIN argument bits; or TT-space bases
  vector<vector<uint32_t>> cands; { vector<uint32_t> f; for (auto b : s->b) f.push_back(b >> 1); cands.push_back(f); }
  vector<uint32_t> cur = cands[0];
  for (int lvl = 0; lvl < 6; lvl++) { set<uint32_t> nx; bool ch = false; bool bad = false;
    for (auto f : cur) for (auto a : K->forms[f]) { auto &ai = K->atoms[a]; if (ai.k == A_TT) { ch = true; for (auto g : K->spaces[ai.a].basis) nx.insert(g); } else { Node *n = K->nodes[ai.a].get(); if (n->op == N_LIN || n->op == N_MUL || n->op == N_UDIV || n->op == N_UREM || n->op == N_ULT || n->op == N_EQ0 || n->op == N_SLT) { ch = true; for (auto x : n->args) for (auto b : x->b) if (b > 1) nx.insert(b >> 1); } else nx.insert(K->atomBit(a) >> 1); } if (nx.size() > 64) { bad = true; break; } }
    if (!ch || bad) break; cur.assign(nx.begin(), nx.end()); cands.push_back(cur); }
  int best = -1; size_t bd = 1000; vector<uint32_t> bb; vector<uint64_t> bc;
  for (size_t i = 0; i < cands.size(); i++) { vector<uint32_t> ba; vector<uint64_t> co; K->basisOf(cands[i], ba, co); if (ba.size() < bd) { bd = ba.size(); best = i; bb = ba; } }
  if (best < 0 || (int)bd > cap) return false;
  e.basis = bb; size_t N = (size_t)1 << bd; e.val.resize(N);
  if (best == 0) { vector<uint32_t> ba; vector<uint64_t> co; K->basisOf(cands[0], ba, co); for (size_t z = 0; z < N; z++) { uint64_t v = 0; for (size_t j = 0; j < s->b.size(); j++) v |= (uint64_t)(__builtin_parityll(co[j] & z) ^ (s->b[j] & 1)) << j; e.val[z] = v; } return true; }
  // evaluate through expression with basis forms forced: need basis forms to be single atoms
  for (auto f : bb) if (K->forms[f].size() != 1) { // fall back to direct if small
      vector<uint32_t> ba; vector<uint64_t> co; K->basisOf(cands[0], ba, co); if ((int)ba.size() > cap) return false; e.basis = ba; N = (size_t)1 << ba.size(); e.val.resize(N); for (size_t z = 0; z < N; z++) { uint64_t v = 0; for (size_t j = 0; j < s->b.size(); j++) v |= (uint64_t)(__builtin_parityll(co[j] & z) ^ (s->b[j] & 1)) << j; e.val[z] = v; } return true; }
  for (size_t z = 0; z < N; z++) { Model m; m.amemo.assign(K->atoms.size(), -1); for (size_t i = 0; i < bb.size(); i++) m.amemo[K->forms[bb[i]][0]] = z >> i & 1; e.val[z] = K->eval(m, s).getZExtValue(); }
  return true;
}
static Bit minterm(const vector<uint32_t> &basis, uint64_t z) { Bit r = 1; for (size_t i = 0; i < basis.size(); i++) { Bit b = (basis[i] << 1) | ((z >> i & 1) ? 0 : 1); r = K->band(r, b); } return r; }
static Bit setBitOf(const vector<uint32_t> &basis, const vector<bool> &in) { TT t(basis.size()); for (size_t z = 0; z < in.size(); z++) if (in[z]) t.set(z); bool z0 = t.zero(); if (z0) return 0; return K->fromTT(basis, {t}, false)[0]; }
// checks out-of-range combinations; returns validity mask
static void oobCheck(uint64_t base, const EnumV &e, uint64_t n, bool write, vector<bool> &ok) {
  size_t N = e.val.size(); ok.assign(N, true); vector<bool> bad(N, false); bool any = false; uint32_t id = base >> 32;
  if (id == 0 || id >= S->objs.size() || !S->objs[id]) { chk(base, n, write); }
  auto &o = S->objs[id]; if (!o->alive) chk(base, n, write);
  for (size_t z = 0; z < N; z++) { uint64_t a = base + e.val[z]; uint64_t off = a & 0xffffffff; if ((a >> 32) != id || off + n > o->size || o->kind == O_FUNC || (write && o->ro)) { ok[z] = false; bad[z] = true; any = true; } }
  if (any) { Bit c = setBitOf(e.basis, bad); shared_ptr<Model> md; int f = feasible(c, &md); nMemChecks++;
    if (f == 1) { APInt x(64, 0); uint64_t off = 0; { vector<uint64_t> zz; uint64_t z = 0; for (size_t i = 0; i < e.basis.size(); i++) if (K->evalBit(*md, e.basis[i] << 1)) z |= 1ull << i; off = base + e.val[z]; }
      bool all = true; for (size_t z = 0; z < N; z++) if (ok[z]) all = false; (void)all;
      string m = string(write ? "out-of-bounds write of " : "out-of-bounds read of ") + to_string(n) + " bytes at symbolic offset (e.g. " + to_string((int64_t)(off - ((uint64_t)id << 32))) + ") of " + objDesc(id); report("memory", m, md); }
    if (f == -1) { incomplete.push_back("solver unknown on bounds check at " + userLoc()); }
  }
}
// a pointer into one of several objects, as a table over the bits that choose it
struct MultiP { vector<Bit> basis; vector<uint64_t> val; }; static unordered_map<uint32_t, MultiP> multi;
static bool multiPtr(SVp s) {
  if (!K->canon && !K->flat) return false; if (multi.count(s->id)) return true; MultiP r; vector<uint32_t> fs; bool word = false;
  if (K->flat) { int n = -1; vector<const TT *> bt; for (auto b : s->b) if (b > 1) { int q = K->flatOf(b >> 1).node; if (q < 0 || (n >= 0 && q != n)) return false; n = q; } if (n < 0) return false; for (auto b : s->b) bt.push_back(b > 1 ? &K->flatMemo.at(b >> 1).tt : nullptr); int d = K->nodes[n]->nb; for (auto b : K->nodes[n]->self->b) if (b > 1) r.basis.push_back(b); if ((int)r.basis.size() != d) return false;
    for (uint64_t z = 0; z < (1ull << d); z++) { uint64_t v = 0; for (size_t j = 0; j < 64; j++) v |= (uint64_t)((bt[j] ? bt[j]->get(z) : 0) ^ (s->b[j] & 1)) << j; r.val.push_back(v); } }
  else { vector<uint32_t> rest(64, 0); for (size_t j = 0; j < 64; j++) if (s->b[j] > 1) { vector<Atom> ra; auto fa = K->forms[s->b[j] >> 1]; for (auto a : fa) { auto &ai = K->atoms[a]; if (ai.k == A_TT) for (auto g : K->spaces[ai.a].basis) fs.push_back(g); else { word |= K->nodes[ai.a]->op != N_VAR && K->nodes[ai.a]->op != N_UF; ra.push_back(a); } } if (!ra.empty()) fs.push_back(rest[j] = K->mkForm(std::move(ra))); }
    if (word) return false; std::sort(fs.begin(), fs.end()); fs.erase(std::unique(fs.begin(), fs.end()), fs.end()); vector<uint32_t> ba; vector<uint64_t> co; K->basisOf(fs, ba, co); if (ba.size() > 12) return false; unordered_map<uint32_t, uint64_t> crd; for (size_t i = 0; i < fs.size(); i++) crd[fs[i]] = co[i]; for (auto f : ba) r.basis.push_back(f << 1); size_t N = (size_t)1 << ba.size(); r.val.assign(N, 0);
    unordered_map<Atom, vector<bool>> av; for (size_t j = 0; j < 64; j++) { Bit b = s->b[j]; vector<bool> x(N, b & 1); if (b > 1) { for (auto a : K->forms[b >> 1]) { auto &ai = K->atoms[a]; if (ai.k != A_TT) continue; auto &v = av[a]; if (v.empty()) { v.resize(N); auto &sp = K->spaces[ai.a]; for (size_t z = 0; z < N; z++) { uint64_t k = 0; for (size_t i = 0; i < sp.basis.size(); i++) k |= (uint64_t)__builtin_parityll(crd[sp.basis[i]] & z) << i; v[z] = sp.rows[ai.b].tt.get(k); } } for (size_t z = 0; z < N; z++) x[z] = x[z] ^ v[z]; } if (rest[j]) for (size_t z = 0; z < N; z++) x[z] = x[z] ^ (bool)__builtin_parityll(crd[rest[j]] & z); } for (size_t z = 0; z < N; z++) if (x[z]) r.val[z] |= 1ull << j; } }
  set<uint64_t> ids; for (auto v : r.val) { uint32_t id = v >> 32; if (id == 0 || id >= S->objs.size() || !S->objs[id]) return false; ids.insert(id); } if (ids.size() < 2) return false;
  multi[s->id] = std::move(r); return true;
}
static bool loadMulti(const Val &p, uint32_t w, Val &out) {
  auto it = multi.find(p.s->id); if (it == multi.end() || S->omp_tid >= 0 || w > 64) return false; auto &m = it->second; uint32_t n = (w + 7) / 8; vector<uint64_t> v; nMemChecks += m.val.size();
  for (auto x : m.val) { uint64_t a = x + p.c; uint32_t id = a >> 32; uint64_t off = a & 0xffffffff; if (id != x >> 32 || id >= S->objs.size() || !S->objs[id]) return false; Obj *o = S->objs[id].get(); if (!o->alive || o->kind == O_FUNC || off + n > o->size) return false;
    for (uint32_t i = 0; i < n; i++) if ((!o->sy.empty() && o->sy[off + i]) || (!o->un.empty() && o->un[off + i])) return false; uint64_t c = 0; memcpy(&c, o->d.data() + off, n); v.push_back(c); }
  out = mkv(K->mkSV(K->tabulate(m.basis, w, [&](uint64_t z) { return v[z]; }))); return true;
}
static Val loadSym(const Val &p, uint32_t w) {
  if (p.c >> 32 == 0) { Val r; bool m = multiPtr(p.s); if (m && loadMulti(p, w, r)) return r; if (m || K->canon || K->flat) { uint64_t off = concretise(Val{0, p.s}, 64); return loadC(p.c + off, w); } }
  EnumV e; uint32_t n = (w + 7) / 8; auto itc = S->conc.find(p.s->id); if (itc != S->conc.end()) return loadC(p.c + itc->second, w);
  if (!enumerate(p.s, 16, e)) { uint64_t off = concretise(Val{0, p.s}, 64); return loadC(p.c + off, w); }
  vector<bool> ok; oobCheck(p.c, e, n, false, ok); uint32_t id = p.c >> 32; Obj *o = S->objs[id].get(); size_t N = e.val.size();
  if (S->omp_tid >= 0) for (size_t z = 0; z < N; z++) if (ok[z]) logAccess(id, (p.c + e.val[z]) & 0xffffffff, n, false);
  bool conc = w <= 64; if (!o->sy.empty() || !o->un.empty()) for (size_t z = 0; z < N && conc; z++) if (ok[z]) { uint64_t off = (p.c + e.val[z]) & 0xffffffff; for (uint32_t i = 0; i < n; i++) if ((!o->sy.empty() && o->sy[off + i]) || (!o->un.empty() && o->un[off + i])) { conc = false; break; } }
  if (conc) { vector<TT> t(w, TT(e.basis.size())); for (size_t z = 0; z < N; z++) if (ok[z]) { uint64_t v = 0; memcpy(&v, o->d.data() + ((p.c + e.val[z]) & 0xffffffff), n); for (uint32_t j = 0; j < w; j++) if (v >> j & 1) t[j].set(z); } K->nLookup++; return mkv(K->mkSV(K->fromTT(e.basis, t))); }
  // mux of symbolic cells
  vector<SVp> leaf(N, nullptr); map<uint64_t, SVp> cell; SVp any = nullptr; for (size_t z = 0; z < N; z++) if (ok[z]) { uint64_t a = p.c + e.val[z]; auto it = cell.find(a); if (it == cell.end()) { it = cell.emplace(a, sv(loadC(a, w), w)).first; } leaf[z] = it->second; any = it->second; }
  if (!any) throw PathEnd(); for (auto &l : leaf) if (!l) l = any;
  { // table affine in the raw index bits: linear combination instead of a multiplexer
    vector<uint32_t> raw; for (auto b : p.s->b) if (b >> 1) raw.push_back(b >> 1); std::sort(raw.begin(), raw.end()); raw.erase(std::unique(raw.begin(), raw.end()), raw.end());
    if (raw.size() <= 8) { size_t R = (size_t)1 << raw.size(); vector<SVp> lf(R, nullptr); bool good = true;
      for (size_t z = 0; z < R && good; z++) { uint64_t v = 0; for (size_t j = 0; j < p.s->b.size(); j++) { Bit b = p.s->b[j]; uint64_t x = b & 1; if (b >> 1) x ^= z >> (std::lower_bound(raw.begin(), raw.end(), b >> 1) - raw.begin()) & 1; v |= x << j; } uint64_t a = p.c + v; if ((a >> 32) != id || (a & 0xffffffff) + n > o->size) { good = false; break; } auto it = cell.find(a); if (it == cell.end()) it = cell.emplace(a, sv(loadC(a, w), w)).first; lf[z] = it->second; }
      if (good) { vector<Bit> out(w); for (uint32_t j = 0; j < w && good; j++) { vector<Bit> c(R); for (size_t z = 0; z < R; z++) c[z] = lf[z]->b[j]; for (size_t i = 1; i < R; i <<= 1) for (size_t z = 0; z < R; z++) if (z & i) c[z] = K->bxor(c[z], c[z ^ i]); Bit r = c[0]; for (size_t z = 1; z < R && good; z++) { if (z & (z - 1)) { if (c[z]) good = false; } else if (c[z]) r = K->bxor(r, K->band(raw[__builtin_ctzll(z)] << 1, c[z])); } out[j] = r; }
        if (good) { SVp r = K->mkSV(std::move(out)); return w <= 64 ? mkv(r) : Val{0, r}; } } } }
  function<SVp(int, size_t)> rec = [&](int d, size_t z) -> SVp { if (d < 0) return leaf[z]; SVp lo = rec(d - 1, z), hi = rec(d - 1, z | ((size_t)1 << d)); return K->ite(e.basis[d] << 1, hi, lo); };
  SVp r = rec((int)e.basis.size() - 1, 0); return w <= 64 ? mkv(r) : Val{0, r};
}
static void storeSym(const Val &p, uint32_t w, const Val &v) {
  if (p.c >> 32 == 0 && (multi.count(p.s->id) || K->canon || K->flat)) { uint64_t off = concretise(Val{0, p.s}, 64); storeC(p.c + off, w, v); return; }
  EnumV e; uint32_t n = (w + 7) / 8; auto itc = S->conc.find(p.s->id); if (itc != S->conc.end()) { storeC(p.c + itc->second, w, v); return; }
  if (!enumerate(p.s, 8, e)) { uint64_t off = concretise(Val{0, p.s}, 64); storeC(p.c + off, w, v); return; }
  vector<bool> ok; oobCheck(p.c, e, n, true, ok); map<uint64_t, vector<bool>> cells; size_t N = e.val.size(); for (size_t z = 0; z < N; z++) if (ok[z]) { auto &x = cells[p.c + e.val[z]]; x.resize(N, false); x[z] = true; }
  SVp nv = sv(v, w); for (auto &c : cells) { Bit b = setBitOf(e.basis, c.second); SVp old = sv(loadC(c.first, w), w); SVp r = K->ite(b, nv, old); storeC(c.first, w, w <= 64 ? mkv(r) : Val{0, r}); }
}
static Val load(const Val &p, uint32_t w) { return p.s ? loadSym(p, w) : loadC(p.c, w); }
static void store(const Val &p, uint32_t w, const Val &v) { if (p.s) storeSym(p, w, v); else storeC(p.c, w, v); }

static void copyBytes(uint64_t dst, uint64_t src, uint64_t n) {
  if (!n) return; chk(src, n, false); chk(dst, n, true); uint32_t si = src >> 32, di = dst >> 32; uint64_t so = src & 0xffffffff, d_ = dst & 0xffffffff; Obj *d = wr(di); Obj *s = S->objs[si].get();
  memmove(d->d.data() + d_, s->d.data() + so, n);
  if (!s->un.empty()) { if (d->un.empty()) d->un.assign(d->size, 0); memmove(d->un.data() + d_, s->un.data() + so, n); } else if (!d->un.empty()) memset(d->un.data() + d_, 0, n);
  if (!s->sy.empty()) { if (d->sy.empty()) d->sy.assign(d->size, nullptr); memmove(d->sy.data() + d_, s->sy.data() + so, n * sizeof(SVp)); } else if (!d->sy.empty()) memset(d->sy.data() + d_, 0, n * sizeof(SVp));
}
static uint64_t concPtr(const Val &p) { if (!p.s) return p.c; return p.c + concretise(Val{0, p.s}, 64); }
static bool memcpySym(const Val &dst, const Val &src, const Val &n) { // pointers and length depend on a few bits: select between the copies
  auto known = [&](const Val &v) { return !v.s || S->conc.count(v.s->id); }; if (known(dst) && known(src)) return false;
  vector<Bit> bits; auto put = [&](const Val &v) { if (v.s) bits.insert(bits.end(), v.s->b.begin(), v.s->b.end()); }; put(dst); put(src); put(n); vector<uint32_t> fs, ba; for (auto b : bits) fs.push_back(b >> 1); vector<uint64_t> co; K->basisOf(fs, ba, co); if (ba.size() > 8) return false;
  { set<Atom> as; for (auto f : fs) as.insert(K->forms[f].begin(), K->forms[f].end()); if (as.size() <= 8) { ba.clear(); co.assign(fs.size(), 0); for (auto a : as) { for (size_t i = 0; i < fs.size(); i++) if (binary_search(K->forms[fs[i]].begin(), K->forms[fs[i]].end(), a)) co[i] |= 1ull << ba.size(); ba.push_back(K->atomBit(a) >> 1); } } }
  size_t N = (size_t)1 << ba.size(); vector<array<uint64_t, 3>> v(N); for (size_t z = 0; z < N; z++) { size_t p = 0; auto ev = [&](const Val &x) { if (!x.s) return x.c; uint64_t r = 0; for (size_t i = 0; i < x.s->b.size(); i++, p++) r |= (uint64_t)(__builtin_parityll(co[p] & z) ^ (x.s->b[i] & 1)) << i; return r; }; uint64_t d = dst.s ? dst.c + ev(dst) : dst.c, s = src.s ? src.c + ev(src) : src.c, k = ev(n); v[z] = {d, s, k}; }
  vector<bool> bad(N, false); bool any = false; auto okr = [&](uint64_t p, uint64_t k) { uint32_t id = p >> 32; if (!k) return true; return id && id < S->objs.size() && S->objs[id] && S->objs[id]->alive && S->objs[id]->kind != O_FUNC && (p & 0xffffffff) + k <= S->objs[id]->size; };
  for (size_t z = 0; z < N; z++) if (!okr(v[z][0], v[z][2]) || !okr(v[z][1], v[z][2]) || (v[z][2] && S->objs[v[z][0] >> 32]->ro)) { bad[z] = true; any = true; }
  if (any) { Bit c = setBitOf(ba, bad); shared_ptr<Model> md; int f = feasible(c, &md); nMemChecks++; if (f == 1) report("memory", "copy out of bounds", md); if (f == -1) incomplete.push_back("solver unknown on bounds of a copy at " + userLoc()); }
  vector<Bit> ind(N, 1); if (K->haveZero) for (size_t z = 0; z < N; z++) { vector<bool> one(N, false); one[z] = true; ind[z] = setBitOf(ba, one); }
  auto under = [&](SVp x, size_t z) { if (!K->haveZero) return x; vector<Bit> b = x->b; for (size_t i = 0; i < ba.size(); i++) if (K->forms[ba[i]].size() == 1) { Atom a = K->forms[ba[i]][0]; for (auto &t : b) t = K->cofactor(t, a, z >> i & 1); } return K->mkSV(std::move(b)); };
  map<uint64_t, vector<SVp>> out; for (size_t z = 0; z < N; z++) if (!bad[z] && ind[z]) for (uint64_t i = 0; i < v[z][2]; i++) out[v[z][0] + i]; if (out.size() > 4096) return false;
  for (auto &o : out) { SVp old = sv(loadC(o.first, 8), 8); for (size_t z = 0; z < N; z++) { uint64_t i = o.first - v[z][0]; o.second.push_back(!ind[z] ? K->cst(APInt(8, 0)) : under(!bad[z] && o.first >= v[z][0] && i < v[z][2] ? sv(loadC(v[z][1] + i, 8), 8) : old, z)); } }
  for (auto &o : out) { vector<Bit> r(8, 0); for (int t = 0; t < 8; t++) { map<Bit, vector<bool>> g; for (size_t z = 0; z < N; z++) if (ind[z]) { auto &x = g[o.second[z]->b[t]]; x.resize(N, false); x[z] = true; } if (g.size() == 1) { r[t] = g.begin()->first; continue; } for (auto &x : g) if (x.first) r[t] = K->bxor(r[t], K->band(setBitOf(ba, x.second), x.first)); } storeC(o.first, 8, mkv(K->mkSV(std::move(r)))); }
  return true;
}
static void doMemcpy(const Val &dst, const Val &src, const Val &n) {
  if ((dst.s || src.s) && memcpySym(dst, src, n)) return;
  uint64_t d = concPtr(dst), s = concPtr(src);
  if (!n.s) { copyBytes(d, s, n.c); return; }
  auto it = S->conc.find(n.s->id); if (it != S->conc.end()) { copyBytes(d, s, it->second); return; }
  // symbolic length: bound by destination/source room
  uint32_t di = d >> 32, si = s >> 32; if (di >= S->objs.size() || !S->objs[di] || si >= S->objs.size() || !S->objs[si]) { concretise(n, 64); chk(d, 1, true); chk(s, 1, false); return; }
  uint64_t room = min(S->objs[di]->size - (d & 0xffffffff), S->objs[si]->size - (s & 0xffffffff));
  if (room > 4096) { uint64_t k = concretise(n, n.s->w()); copyBytes(d, s, k); return; }
  Bit over = K->ult(K->cst(APInt(n.s->w(), room)), n.s); shared_ptr<Model> md; int f = knownBit(over) == 0 ? 0 : feasible(over, &md);
  if (f == 1) report("memory", "copy of symbolic length exceeds the room of " + to_string(room) + " bytes", md);
  if (f == -1) incomplete.push_back("solver unknown on copy length at " + userLoc());
  APInt mx = K->umax(n.s); uint64_t lim = mx.ult(room) ? mx.getZExtValue() : room; vector<pair<Val, Val>> t;
  for (uint64_t i = 0; i < lim; i++) t.push_back({loadC(s + i, 8), loadC(d + i, 8)});
  for (uint64_t i = 0; i < lim; i++) { Bit c = K->ult(K->cst(APInt(n.s->w(), i)), n.s); storeC(d + i, 8, mkv(K->ite(c, sv(t[i].first, 8), sv(t[i].second, 8)))); }
}
static void doMemset(const Val &dst, const Val &v, const Val &n) {
  uint64_t d = concPtr(dst);
  if (n.s && !S->conc.count(n.s->id)) { uint32_t di = d >> 32; uint64_t room = di < S->objs.size() && S->objs[di] ? S->objs[di]->size - (d & 0xffffffff) : 0;
    if (room <= 4096) { Bit over = K->ult(K->cst(APInt(n.s->w(), room)), n.s); shared_ptr<Model> md; int f = feasible(over, &md); if (f == 1) report("memory", "fill of symbolic length exceeds the room of " + to_string(room) + " bytes", md); if (f == -1) incomplete.push_back("solver unknown on fill length at " + userLoc());
      APInt mx = K->umax(n.s); uint64_t lim = mx.ult(room) ? mx.getZExtValue() : room; for (uint64_t i = 0; i < lim; i++) { Bit c = K->ult(K->cst(APInt(n.s->w(), i)), n.s); storeC(d + i, 8, mkv(K->ite(c, sv(v, 8), sv(loadC(d + i, 8), 8)))); } return; } }
  uint64_t k = concretise(n, 64); if (!k) return; chk(d, k, true);
  if (!v.s) { Obj *o = wr(d >> 32); uint64_t off = d & 0xffffffff; memset(o->d.data() + off, v.c & 0xff, k); if (!o->un.empty()) memset(o->un.data() + off, 0, k); if (!o->sy.empty()) memset(o->sy.data() + off, 0, k * sizeof(SVp)); }
  else for (uint64_t i = 0; i < k; i++) storeC(d + i, 8, v);
}
static uint64_t heapAlloc(uint64_t n, bool zero) { uint32_t id = newObj(n, O_HEAP, "heap", zero); S->heaplive++; return (uint64_t)id << 32; }
static void heapFree(uint64_t p) {
  if (!p) return; uint32_t id = p >> 32; if (id == 0 || id >= S->objs.size() || !S->objs[id] || S->objs[id]->kind != O_HEAP || (p & 0xffffffff)) report("memory", "free of a pointer that is not a live heap block", nullptr);
  if (!S->objs[id]->alive) report("memory", "double free", nullptr);
  auto o = make_shared<Obj>(); o->size = S->objs[id]->size; o->alive = false; o->kind = O_HEAP; o->name = "heap"; S->objs[id] = o; S->heaplive--; S->nalloc++;
}
static string cstr(uint64_t p) { string s; for (;;) { Val v = loadC(p++, 8); if (v.s) { s += "?"; break; } if (!v.c) break; s += (char)v.c; if (s.size() > 400) break; } return s; }
static double asD(uint64_t c) { double d; memcpy(&d, &c, 8); return d; } static uint64_t asU(double d) { uint64_t c; memcpy(&c, &d, 8); return c; }
#include "interp.inc"
