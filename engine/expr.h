// Symbolic expression core: GF(2)-affine bit forms over atoms, truth-table atoms, word-level nodes.
#pragma once
#include <cstdint>
#include <vector>
#include <map>
#include <set>
#include <unordered_map>
#include <unordered_set>
#include <string>
#include <functional>
#include <memory>
#include <llvm/ADT/APInt.h>
#include <llvm/ADT/ArrayRef.h>
#include <llvm/ADT/Hashing.h>
#include <llvm/ADT/SmallString.h>
#include <llvm/ADT/StringRef.h>
#include <array>
#include <z3++.h>

using llvm::APInt;
typedef uint32_t Bit;    // (form id << 1) | constant
typedef uint32_t Atom;

struct SV {              // interned symbolic bit-vector value
  std::vector<Bit> b;
  uint32_t id;
  uint32_t w() const { return (uint32_t)b.size(); }
};
typedef const SV *SVp;

enum Op { N_VAR, N_LIN, N_MUL, N_UDIV, N_UREM, N_SDIV, N_SREM, N_SHL, N_LSHR, N_ASHR, N_EQ0, N_ULT, N_SLT, N_UF, N_ITE };

struct Node {
  Op op; uint32_t w;          // w: declared width (bits >= nb are constant zero)
  uint32_t nb;                // number of atom bits
  std::vector<SVp> args; std::vector<APInt> coef; APInt cst;
  APInt maxv;
  Atom first; uint32_t id;
  std::string name;           // VAR / UF name
  uint64_t lo = 0, hi = ~0ull; bool dom = false; // VAR domain (sampling)
  bool uninit = false;        // VAR stands for uninitialised memory
  int ufid = 0; SVp self = nullptr;
};

struct TT {                   // truth table / ANF over d variables
  int d; std::vector<uint64_t> v;
  TT(int d_ = 0) : d(d_), v(d_ <= 6 ? 1 : (size_t)1 << (d_ - 6), 0) {}
  bool get(uint64_t i) const { return (v[i >> 6] >> (i & 63)) & 1; }
  void set(uint64_t i) { v[i >> 6] |= 1ull << (i & 63); }
  void flip(uint64_t i) { v[i >> 6] ^= 1ull << (i & 63); }
  void mobius();
  bool zero() const { for (auto x : v) if (x) return false; return true; }
};

struct SpaceRow { TT anf, tt; uint64_t piv; Atom atom; };
struct Space { std::vector<uint32_t> basis; std::vector<SpaceRow> rows; };

enum AK { A_WORD, A_TT };
struct AtomInfo { AK k; uint32_t a, b; bool mono; }; // WORD: node,bit ; TT: space,row ; mono: pure AND of single atoms

struct Model {
  std::unordered_map<uint32_t, APInt> fixed;   // node id -> value (VAR, UF)
  uint64_t seed = 0; bool random = false;
  // memo
  std::vector<int8_t> amemo; std::unordered_map<uint32_t, APInt> nmemo;
  struct UFE { int uf; APInt in, out; };
  std::vector<UFE> uft;
  void clearMemo() { amemo.clear(); nmemo.clear(); uft.clear(); }
};

struct Core {
  // ---- forms
  std::vector<std::vector<Atom>> forms;
  std::unordered_multimap<uint64_t, uint32_t> formIdx;
  struct XC { uint32_t a, b, r; };
  std::vector<XC> xcache;
  std::vector<AtomInfo> atoms;
  std::vector<Space> spaces;
  std::map<std::vector<uint32_t>, int> spaceIdx;
  std::vector<std::unique_ptr<Node>> nodes;
  std::unordered_multimap<uint64_t, SVp> svIdx; uint32_t svCount = 0;
  std::unordered_multimap<uint64_t, uint32_t> nodeIdx;
  // stats
  std::unordered_map<uint64_t, Bit> bandMemo;
  uint64_t nLookup = 0, nSep = 0, nInline = 0;

  Core();
  uint32_t mkForm(std::vector<Atom> &&v);
  uint32_t xorF(uint32_t a, uint32_t b);
  Bit bxor(Bit a, Bit b) { return (xorF(a >> 1, b >> 1) << 1) | ((a ^ b) & 1); }
  Bit bnot(Bit a) { return a ^ 1; }
  Bit band(Bit a, Bit b);
  std::vector<char> marked; std::unordered_map<uint64_t, Atom> pairMemo; bool allMarked(uint32_t f), noMarked(uint32_t f); Atom pairAtom(uint32_t f, Atom g); // products are expanded over marked atoms
  Bit bor(Bit a, Bit b) { return bnot(band(bnot(a), bnot(b))); }
  Bit bite(Bit c, Bit a, Bit b) { if (a == b) return a; if (c == 1) return a; if (c == 0) return b; return bxor(b, band(c, bxor(a, b))); }
  Bit atomBit(Atom a) { return mkForm(std::vector<Atom>{a}) << 1; }
  Atom newAtom(AK k, uint32_t a, uint32_t b, bool mono = false) { atoms.push_back({k, a, b, mono}); return atoms.size() - 1; }

  // RREF basis of forms (const-free). coords[j] = mask of basis elements whose xor is form j
  void basisOf(const std::vector<uint32_t> &fs, std::vector<uint32_t> &basis, std::vector<uint64_t> &coords);
  // generic tabulation: f(index)->m output bits (<=64)
  static constexpr int MAXDIM = 16;
  int INLCAP = 11, TABCAP = 10;
  bool dims(const std::vector<Bit> &idx, int cap, std::vector<uint32_t> &basis, std::vector<uint64_t> &coords);
  std::vector<Bit> tabulate(const std::vector<Bit> &idx, int m, const std::function<uint64_t(uint64_t)> &f);
  std::vector<Bit> fromTT(std::vector<uint32_t> basis, std::vector<TT> tts, bool sep = true);
  Bit finalBit(const std::vector<uint32_t> &basis, TT tt);
  bool tryInline(std::vector<uint32_t> &basis, std::vector<TT> &tts, int cap);
  bool trySep(const std::vector<uint32_t> &basis, const std::vector<TT> &tts, std::vector<Bit> &out);
  Bit monoBit(std::vector<Atom> as);
  int getSpace(const std::vector<uint32_t> &basis);

  // ---- values
  SVp mkSV(std::vector<Bit> &&b);
  SVp cst(const APInt &v);
  bool isConst(SVp s, APInt *out = nullptr);
  Node *mkNode(Op op, uint32_t w, std::vector<SVp> args, std::vector<APInt> coef, APInt cst, APInt maxv, uint32_t nb, int ufid = 0);
  SVp nodeSV(Node *n);
  Node *asNode(SVp s); // whole node (incl. zero-extension)?
  APInt umax(SVp s); APInt possible(SVp s); // max value; mask of possibly-1 bits
  SVp newVar(const std::string &name, uint32_t w);
  SVp add(SVp a, SVp b), sub(SVp a, SVp b), mul(SVp a, SVp b);
  SVp lin(uint32_t w, std::vector<std::pair<SVp, APInt>> terms, APInt c);
  void linTerms(SVp s, const APInt &k, std::map<uint32_t, std::pair<SVp, APInt>> &m, APInt &c);
  SVp divop(Op op, SVp a, SVp b);
  SVp shift(Op op, SVp a, SVp b);
  SVp bitop(int op, SVp a, SVp b); // 0 and 1 or 2 xor
  SVp extract(SVp a, uint32_t lo, uint32_t w), concat(SVp lo, SVp hi), zext(SVp a, uint32_t w), sext(SVp a, uint32_t w);
  SVp ite(Bit c, SVp a, SVp b);
  bool haveZero = false, numbers = false, canon = false, flat = false; struct FlatF { int node; TT tt; }; std::unordered_map<uint32_t, FlatF> flatMemo; const FlatF &flatOf(uint32_t f); void flatRows(int n, std::vector<TT> &nt, std::vector<Bit> &out); bool flatTT(const std::vector<uint32_t> &basis, const std::vector<TT> &tts, std::vector<Bit> &out); void quotient(std::vector<uint32_t> &basis, std::vector<TT> &tts); Bit canonBit(const std::vector<uint32_t> &basis, TT tt); std::unordered_map<uint32_t, std::unordered_set<Bit>> zeroBits; void zeroRules(const std::vector<uint32_t> &basis, std::vector<TT> &tts); Bit isZero(SVp s); bool support(uint32_t f, std::set<Atom> &sup, int depth); bool evalForm(uint32_t f, const std::map<Atom, int> &at, uint64_t v); Bit collapse(Bit x); std::unordered_map<uint32_t, Bit> collapseMemo; SVp zeroArg(Atom a); bool zeroMono(std::vector<Atom> &as); Bit cofactor(Bit x, Atom z, bool v); bool zeroLit(Bit a, Atom &z);
  Bit eq(SVp a, SVp b), ult(SVp a, SVp b), slt(SVp a, SVp b);
  bool tabulable(std::initializer_list<SVp> as, int cap);
  SVp tab2(SVp a, SVp b, uint32_t w, const std::function<APInt(const APInt &, const APInt &)> &f);
  SVp uf(int id, const std::string &name, SVp in, uint32_t outw);

  // ---- evaluation
  bool evalBit(Model &m, Bit b);
  bool evalAtom(Model &m, Atom a);
  APInt evalNode(Model &m, uint32_t n);
  APInt eval(Model &m, SVp s);

  // ---- SMT
  z3::context z;
  std::unordered_map<uint32_t, z3::expr> zAtom, zForm, zNode, zSV;
  std::unordered_map<uint32_t, z3::expr> zAtom2, zForm2, zNode2, zSV2; bool cut = false; std::unordered_map<uint32_t, uint32_t> reps;
  uint32_t rep(uint32_t id) { auto it = reps.find(id); return it == reps.end() ? id : it->second; }
  void setCut(bool on); void clearCut(); z3::expr nodeDefZ(uint32_t n);
  z3::expr toZ(SVp s); z3::expr nodeZ(uint32_t n); z3::expr formZ(uint32_t f); z3::expr atomZ(Atom a);
  z3::expr bitZ(Bit b); // Bool
  std::vector<uint32_t> ufNodes;
};
uint64_t uf_hash64(int id, const uint8_t *in, size_t n, uint64_t ctr);
APInt uf_default(int id, const APInt &in, unsigned outw);
