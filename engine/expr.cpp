#include "expr.h"
#include <algorithm>
#include <set>
#include <cassert>
#include <cstring>
using namespace std;

static inline uint64_t mix(uint64_t x) { x ^= x >> 30; x *= 0xbf58476d1ce4e5b9ull; x ^= x >> 27; x *= 0x94d049bb133111ebull; x ^= x >> 31; return x; }

void TT::mobius() {
  static const uint64_t M[6] = {0x5555555555555555ull, 0x3333333333333333ull, 0x0f0f0f0f0f0f0f0full, 0x00ff00ff00ff00ffull, 0x0000ffff0000ffffull, 0x00000000ffffffffull};
  for (int i = 0; i < d && i < 6; i++) for (auto &x : v) x ^= (x & M[i]) << (1 << i);
  if (d < 6) v[0] &= (d == 0 ? 1ull : ((1ull << (1 << d)) - 1));
  for (int i = 6; i < d; i++) { size_t s = (size_t)1 << (i - 6); for (size_t j = 0; j < v.size(); j += 2 * s) for (size_t k = 0; k < s; k++) v[j + s + k] ^= v[j + k]; }
}

Core::Core() : xcache(1 << 20, XC{~0u, ~0u, 0}) { forms.push_back({}); }

uint32_t Core::mkForm(vector<Atom> &&v) {
  if (v.empty()) return 0;
  uint64_t h = 1469598103934665603ull; for (auto a : v) h = mix(h ^ a) + 0x9e3779b97f4a7c15ull;
  auto r = formIdx.equal_range(h);
  for (auto i = r.first; i != r.second; ++i) if (forms[i->second] == v) return i->second;
  uint32_t id = forms.size(); forms.push_back(std::move(v)); formIdx.emplace(h, id);
  return id;
}
uint32_t Core::xorF(uint32_t a, uint32_t b) {
  if (a == b) return 0; if (!a) return b; if (!b) return a;
  if (a > b) swap(a, b);
  auto &c = xcache[mix(((uint64_t)a << 32) | b) & (xcache.size() - 1)];
  if (c.a == a && c.b == b) return c.r;
  vector<Atom> o; auto &x = forms[a], &y = forms[b]; o.reserve(x.size() + y.size());
  set_symmetric_difference(x.begin(), x.end(), y.begin(), y.end(), back_inserter(o));
  uint32_t r = mkForm(std::move(o)); c = {a, b, r}; return r;
}
// x where the atom z (of the kind "word == 0") has the value v
Bit Core::cofactor(Bit x, Atom z, bool v) {
  Bit acc = x & 1; bool ch = false; uint32_t zf = atomBit(z) >> 1; vector<Atom> keep, fs = forms[x >> 1];
  for (auto a : fs) {
    if (a == z) { acc ^= v; ch = true; continue; }
    if (atoms[a].k != A_TT) { keep.push_back(a); continue; }
    auto &sp = spaces[atoms[a].a]; int at = -1; for (size_t i = 0; i < sp.basis.size(); i++) if (sp.basis[i] == zf) at = i;
    if (at < 0) { keep.push_back(a); continue; }
    vector<uint32_t> nb; for (size_t i = 0; i < sp.basis.size(); i++) if ((int)i != at) nb.push_back(sp.basis[i]);
    TT t(nb.size()); const TT &o = sp.rows[atoms[a].b].tt; for (uint64_t q = 0; q < (1ull << nb.size()); q++) { uint64_t k = (q & ((1ull << at) - 1)) | (uint64_t)v << at | (q >> at) << (at + 1); if (o.get(k)) t.set(q); }
    ch = true; acc = bxor(acc, fromTT(nb, {t}, false)[0]);
  }
  return ch ? bxor(acc, mkForm(std::move(keep)) << 1) : x;
}
bool Core::zeroLit(Bit a, Atom &z) { auto &f = forms[a >> 1]; if (f.size() != 1) return false; auto &ai = atoms[f[0]]; if (ai.k != A_WORD || nodes[ai.a]->op != N_EQ0) return false; z = f[0]; return true; }
Bit Core::band(Bit a, Bit b) {
  if (a == 0 || b == 0) return 0; if (a == 1) return b; if (b == 1) return a; if (a == b) return a; if (a == (b ^ 1)) return 0;
  if (haveZero) { Atom z; if (zeroLit(a, z)) { Bit n = cofactor(b, z, !(a & 1)); if (n != b) return band(a, n); } else if (zeroLit(b, z)) { Bit n = cofactor(a, z, !(b & 1)); if (n != a) return band(n, b); } }
  if (a > b) swap(a, b); uint64_t key = (uint64_t)a << 32 | b; auto it = bandMemo.find(key); if (it != bandMemo.end()) return it->second;
  Bit r; if (!marked.empty() && (allMarked(a >> 1) != allMarked(b >> 1)) && (noMarked(a >> 1) || noMarked(b >> 1))) { if (allMarked(a >> 1)) swap(a, b); // b is expanded over its marked atoms
    r = 0; if (a & 1) r = bxor(r, (b >> 1) << 1); if (b & 1) r = bxor(r, (a >> 1) << 1); r ^= a & b & 1; vector<Atom> gs = forms[b >> 1], out; for (auto g : gs) out.push_back(pairAtom(a >> 1, g)); sort(out.begin(), out.end()); r = bxor(r, mkForm(std::move(out)) << 1); bandMemo.emplace(key, r); return r; }
  r = tabulate({a, b}, 1, [](uint64_t i) { return i == 3; })[0]; bandMemo.emplace(key, r); return r;
}
bool Core::allMarked(uint32_t f) { for (auto a : forms[f]) if (a >= marked.size() || !marked[a]) return false; return f != 0; }
bool Core::noMarked(uint32_t f) { for (auto a : forms[f]) if (a < marked.size() && marked[a]) return false; return true; }
Atom Core::pairAtom(uint32_t f, Atom g) {
  uint64_t k = (uint64_t)f << 32 | g; auto it = pairMemo.find(k); if (it != pairMemo.end()) return it->second;
  uint32_t gf = atomBit(g) >> 1; vector<uint32_t> basis = forms[f].back() < g ? vector<uint32_t>{f, gf} : vector<uint32_t>{gf, f}; int sp = getSpace(basis); TT an(2); an.set(3);
  for (auto &row : spaces[sp].rows) if (row.piv == 3) return pairMemo[k] = row.atom;
  SpaceRow nr; nr.anf = an; nr.tt = an; nr.tt.mobius(); nr.piv = 3; nr.atom = newAtom(A_TT, sp, spaces[sp].rows.size()); spaces[sp].rows.push_back(nr); return pairMemo[k] = nr.atom;
}

void Core::basisOf(const vector<uint32_t> &fs, vector<uint32_t> &basis, vector<uint64_t> &coords) {
  struct E { uint32_t f; Atom p; }; vector<E> bs;
  auto has = [&](uint32_t f, Atom p) { return binary_search(forms[f].begin(), forms[f].end(), p); };
  for (auto f0 : fs) {
    uint32_t f = f0; if (!f) continue;
    for (auto &e : bs) if (has(f, e.p)) f = xorF(f, e.f);
    if (!f) continue;
    Atom p = forms[f].back();
    for (auto &e : bs) if (has(e.f, p)) e.f = xorF(e.f, f);
    bs.push_back({f, p});
    if (bs.size() > 60) break;
  }
  sort(bs.begin(), bs.end(), [](const E &a, const E &b) { return a.p < b.p; });
  basis.clear(); for (auto &e : bs) basis.push_back(e.f);
  coords.assign(fs.size(), 0);
  for (size_t j = 0; j < fs.size(); j++) for (size_t i = 0; i < bs.size(); i++) if (fs[j] && has(fs[j], bs[i].p)) coords[j] |= 1ull << i;
}
bool Core::dims(const vector<Bit> &idx, int cap, vector<uint32_t> &basis, vector<uint64_t> &coords) {
  vector<uint32_t> fs; for (auto b : idx) fs.push_back(b >> 1);
  basisOf(fs, basis, coords); return (int)basis.size() <= cap;
}
vector<Bit> Core::tabulate(const vector<Bit> &idx, int m, const function<uint64_t(uint64_t)> &f) {
  vector<uint32_t> basis; vector<uint64_t> co; nLookup++;
  if (flat) { int n = -1; for (auto b : idx) if (b > 1) { int q = flatOf(b >> 1).node; if (q < 0 || (n >= 0 && q != n)) { n = -2; break; } n = q; }
    if (n >= 0) { int d = nodes[n]->nb; vector<TT> t(m, TT(d)); vector<const TT *> bt; for (auto b : idx) bt.push_back(b > 1 ? &flatMemo.at(b >> 1).tt : nullptr);
      for (uint64_t z = 0; z < (1ull << d); z++) { uint64_t ix = 0; for (size_t j = 0; j < idx.size(); j++) ix |= (uint64_t)((bt[j] ? bt[j]->get(z) : 0) ^ (idx[j] & 1)) << j; uint64_t v = f(ix); for (int j = 0; j < m; j++) if ((v >> j) & 1) t[j].set(z); }
      vector<Bit> o; flatRows(n, t, o); return o; } }
  bool ok = dims(idx, MAXDIM, basis, co); assert(ok); (void)ok;
  int d = basis.size(); vector<TT> t(m, TT(d));
  for (uint64_t z = 0; z < (1ull << d); z++) {
    uint64_t ix = 0; for (size_t j = 0; j < idx.size(); j++) ix |= (uint64_t)((__builtin_parityll(co[j] & z)) ^ (idx[j] & 1)) << j;
    uint64_t v = f(ix); for (int j = 0; j < m; j++) if ((v >> j) & 1) t[j].set(z);
  }
  return fromTT(basis, t);
}
int Core::getSpace(const vector<uint32_t> &basis) {
  auto it = spaceIdx.find(basis); if (it != spaceIdx.end()) return it->second;
  Space s; s.basis = basis; spaces.push_back(s); return spaceIdx[basis] = spaces.size() - 1;
}
SVp Core::zeroArg(Atom a) { auto &ai = atoms[a]; if (ai.k != A_WORD || nodes[ai.a]->op != N_EQ0) return nullptr; Node *n = nodes[ai.a].get(); APInt z; if (isConst(n->args[1], &z) && z.isZero()) return n->args[0]; if (isConst(n->args[0], &z) && z.isZero()) return n->args[1]; return nullptr; }
bool Core::zeroMono(vector<Atom> &as) { // product of atoms some of which are "word == 0": true if it is zero; drops implied factors
  for (size_t i = 0; i < as.size(); i++) { SVp X = zeroArg(as[i]); if (!X) continue; auto &bits = zeroBits[X->id]; if (bits.empty()) bits.insert(X->b.begin(), X->b.end());
    for (size_t j = 0; j < as.size();) { if (j == i) { j++; continue; } if (bits.count(atomBit(as[j]))) return true; SVp Y = zeroArg(as[j]); bool sub = Y != nullptr; if (Y) for (auto b : Y->b) if (b && !bits.count(b)) { sub = false; break; } if (sub) { as.erase(as.begin() + j); if (j < i) i--; } else j++; } }
  return false;
}
Bit Core::monoBit(vector<Atom> as) {
  // flatten pure-AND atoms
  vector<Atom> fl;
  for (auto a : as) if (atoms[a].k == A_TT && atoms[a].mono) { for (auto f : spaces[atoms[a].a].basis) fl.push_back(forms[f][0]); } else fl.push_back(a);
  sort(fl.begin(), fl.end()); fl.erase(unique(fl.begin(), fl.end()), fl.end());
  if (haveZero && zeroMono(fl)) return 0;
  if (fl.size() > 12) { fl = as; sort(fl.begin(), fl.end()); fl.erase(unique(fl.begin(), fl.end()), fl.end()); }
  if (fl.size() == 1) return atomBit(fl[0]);
  vector<uint32_t> basis; for (auto a : fl) basis.push_back(atomBit(a) >> 1);
  int sp = getSpace(basis); int d = basis.size(); uint64_t top = (1ull << d) - 1;
  TT anf(d); anf.set(top); Bit r = 0;
  for (auto &row : spaces[sp].rows) if (anf.get(row.piv)) { for (size_t i = 0; i < anf.v.size(); i++) anf.v[i] ^= row.anf.v[i]; r = bxor(r, atomBit(row.atom)); }
  if (anf.zero()) return r;
  SpaceRow nr; nr.anf = anf; nr.tt = anf; nr.tt.mobius();
  uint64_t piv = 0, cnt = 0; for (uint64_t i = 0; i <= top; i++) if (anf.get(i)) { piv = i; cnt++; }
  nr.piv = piv; nr.atom = newAtom(A_TT, sp, spaces[sp].rows.size(), cnt == 1 && piv == top);
  spaces[sp].rows.push_back(nr);
  return bxor(r, atomBit(nr.atom));
}
// directions along which every output is unchanged are divided out (the functions then live on a canonical quotient space)
void Core::quotient(vector<uint32_t> &basis, vector<TT> &tts) {
  int d = basis.size(); if (d < 1 || d > 14 || tts.size() > 64) return; uint32_t Z = 1u << d; vector<uint64_t> val(Z, 0);
  for (size_t j = 0; j < tts.size(); j++) for (uint32_t z = 0; z < Z; z++) if (tts[j].get(z)) val[z] |= 1ull << j;
  vector<uint32_t> R; vector<char> in(Z, 0); in[0] = 1; vector<uint32_t> span{0};
  for (uint32_t v = 1; v < Z; v++) { if (in[v] || val[v] != val[0]) continue; bool ok = true; for (uint32_t z = 1; z < Z; z++) if (val[z] != val[z ^ v]) { ok = false; break; } if (!ok) continue; R.push_back(v); size_t n = span.size(); for (size_t i = 0; i < n; i++) { span.push_back(span[i] ^ v); in[span[i] ^ v] = 1; } }
  if (R.empty()) return;
  uint32_t pv = 0; vector<int> pc; for (size_t i = 0; i < R.size(); i++) { int p = __builtin_ctz(R[i]); for (size_t j = 0; j < R.size(); j++) if (j != i && (R[j] >> p & 1)) R[j] ^= R[i]; }
  for (auto x : R) { int p = __builtin_ctz(x); pv |= 1u << p; pc.push_back(p); }
  vector<uint32_t> fs; vector<int> fr; for (int i = 0; i < d; i++) if (!(pv >> i & 1)) { uint32_t g = basis[i]; for (size_t k = 0; k < R.size(); k++) if (R[k] >> i & 1) g = xorF(g, basis[pc[k]]); fs.push_back(g); fr.push_back(i); }
  vector<uint32_t> cb; vector<uint64_t> co; basisOf(fs, cb, co); int e = fs.size(); if ((int)cb.size() != e) return;
  vector<TT> nt(tts.size(), TT(e)); for (uint64_t y = 0; y < (1ull << e); y++) { uint32_t z = 0; for (int k = 0; k < e; k++) if (__builtin_parityll(co[k] & y)) z |= 1u << fr[k]; for (size_t j = 0; j < tts.size(); j++) if (val[z] >> j & 1) nt[j].set(y); }
  basis = cb; tts = nt;
}
Bit Core::canonBit(const vector<uint32_t> &basis, TT tt) { // one output: quotient, affine part, row of the space
  vector<uint32_t> b = basis; vector<TT> t{tt}; quotient(b, t); tt = t[0]; int d = b.size(); tt.mobius(); Bit r = tt.get(0); if (r) tt.flip(0);
  for (int i = 0; i < d; i++) if (tt.get(1ull << i)) { r = bxor(r, b[i] << 1); tt.flip(1ull << i); }
  if (tt.zero()) return r;
  { vector<uint32_t> c = b; TT f = tt; f.mobius(); vector<TT> u{f}; quotient(c, u); if (c.size() < b.size()) return bxor(r, canonBit(c, u[0])); }
  int sp = getSpace(b); TT an = tt;
  for (auto &row : spaces[sp].rows) if (an.get(row.piv)) { for (size_t i = 0; i < an.v.size(); i++) an.v[i] ^= row.anf.v[i]; r = bxor(r, atomBit(row.atom)); }
  if (an.zero()) return r;
  SpaceRow nr; nr.anf = an; nr.tt = an; nr.tt.mobius(); uint64_t piv = 0; for (size_t w = an.v.size(); w-- > 0;) if (an.v[w]) { piv = (w << 6) | (63 - __builtin_clzll(an.v[w])); break; }
  nr.piv = piv; nr.atom = newAtom(A_TT, sp, spaces[sp].rows.size()); spaces[sp].rows.push_back(nr); return bxor(r, atomBit(nr.atom));
}
Bit Core::finalBit(const vector<uint32_t> &basis, TT tt) {
  if (canon) return canonBit(basis, tt);
  int d = basis.size(); tt.mobius(); Bit r = tt.get(0); if (r) tt.flip(0);
  for (int i = 0; i < d; i++) if (tt.get(1ull << i)) { r = bxor(r, basis[i] << 1); tt.flip(1ull << i); }
  if (tt.zero()) return r;
  uint64_t used = 0, cnt = 0; vector<uint64_t> mons;
  for (size_t w = 0; w < tt.v.size(); w++) { uint64_t x = tt.v[w]; while (x) { int b = __builtin_ctzll(x); x &= x - 1; uint64_t i = (w << 6) | b; used |= i; cnt++; if (mons.size() < 5) mons.push_back(i); } }
  if (cnt <= 40) { // low degree and small: full expansion into AND monomials over atoms (canonical)
    mons.clear(); bool ok = true; size_t total = 0;
    for (size_t w = 0; w < tt.v.size() && ok; w++) { uint64_t x = tt.v[w]; while (x) { int b = __builtin_ctzll(x); x &= x - 1; uint64_t i = (w << 6) | b; if (__builtin_popcountll(i) > 2) { ok = false; break; } size_t sz = 1; for (int j = 0; j < d; j++) if (i >> j & 1) sz *= forms[basis[j]].size(); total += sz; mons.push_back(i); } }
    if (ok && total <= 80) {
      map<Atom, int> acc; Bit extra = 0;
      for (auto mo : mons) { int i = __builtin_ctzll(mo), j = 63 - __builtin_clzll(mo); auto fa = forms[basis[i]], fb = forms[basis[j]];
        for (auto a : fa) for (auto b : fb) { Bit q = monoBit({a, b}); if (forms[q >> 1].size() == 1 && !(q & 1)) acc[forms[q >> 1][0]] ^= 1; else extra = bxor(extra, q); } }
      vector<Atom> v; for (auto &kv : acc) if (kv.second) v.push_back(kv.first);
      return bxor(r, bxor(extra, mkForm(std::move(v)) << 1));
    }
  }
  mons.clear(); if (cnt <= 4) { for (size_t w = 0; w < tt.v.size(); w++) { uint64_t x = tt.v[w]; while (x) { int b = __builtin_ctzll(x); x &= x - 1; mons.push_back((w << 6) | b); } }
    bool ok = true;
    for (auto mo : mons) { int multi = 0; size_t sz = 1; for (int i = 0; i < d; i++) if (mo >> i & 1) { size_t n = forms[basis[i]].size(); if (n > 1) { multi++; sz *= n; } } if (multi > 1 || sz > 20000) ok = false; }
    if (ok) {
      for (auto mo : mons) {
        vector<Atom> sg; uint32_t mf = 0;
        for (int i = 0; i < d; i++) if (mo >> i & 1) { if (forms[basis[i]].size() == 1) sg.push_back(forms[basis[i]][0]); else mf = basis[i]; }
        if (!mf) r = bxor(r, monoBit(sg));
        else { vector<Atom> at = forms[mf]; // distribute
          // accumulate atoms with multiplicity mod 2 (each monoBit is usually a single atom)
          map<Atom, int> acc; Bit extra = 0;
          for (auto a : at) { auto s2 = sg; s2.push_back(a); Bit b = monoBit(s2); if (forms[b >> 1].size() == 1 && !(b & 1)) acc[forms[b >> 1][0]] ^= 1; else extra = bxor(extra, b); }
          vector<Atom> v; for (auto &kv : acc) if (kv.second) v.push_back(kv.first);
          r = bxor(r, bxor(extra, mkForm(std::move(v)) << 1)); }
      }
      return r;
    }
  }
  vector<uint32_t> nb; vector<int> pos; for (int i = 0; i < d; i++) if (used >> i & 1) { nb.push_back(basis[i]); pos.push_back(i); }
  int e = nb.size(); TT an(e);
  if (e == d) an = tt; else for (uint64_t i = 0; i < (1ull << d); i++) if (tt.get(i)) { uint64_t k = 0; for (int j = 0; j < e; j++) if (i >> pos[j] & 1) k |= 1ull << j; an.set(k); }
  int sp = getSpace(nb);
  for (auto &row : spaces[sp].rows) if (an.get(row.piv)) { for (size_t i = 0; i < an.v.size(); i++) an.v[i] ^= row.anf.v[i]; r = bxor(r, atomBit(row.atom)); }
  if (an.zero()) return r;
  SpaceRow nr; nr.anf = an; nr.tt = an; nr.tt.mobius(); uint64_t piv = 0;
  for (size_t w = an.v.size(); w-- > 0;) if (an.v[w]) { piv = (w << 6) | (63 - __builtin_clzll(an.v[w])); break; }
  nr.piv = piv; nr.atom = newAtom(A_TT, sp, spaces[sp].rows.size()); spaces[sp].rows.push_back(nr);
  return bxor(r, atomBit(nr.atom));
}
static bool isAffine(const TT &t) {
  TT a = t; a.mobius(); for (size_t w = 0; w < a.v.size(); w++) { uint64_t x = a.v[w]; if (w == 0) x &= ~((1ull << 0) | (1ull << 1) | (1ull << 2) | (1ull << 4) | (1ull << 8) | (1ull << 16) | (1ull << 32)); else if ((w & (w - 1)) == 0) x &= ~1ull; if (x) return false; }
  return true;
}
static void dropUnused(vector<uint32_t> &basis, vector<TT> &tts) {
  int d = basis.size(); uint64_t used = 0;
  for (int i = 0; i < d; i++) { // depends on variable i?
    bool dep = false;
    for (auto &t : tts) { for (uint64_t z = 0; z < (1ull << d) && !dep; z++) if (!(z >> i & 1) && t.get(z) != t.get(z | (1ull << i))) dep = true; if (dep) break; }
    if (dep) used |= 1ull << i;
  }
  if (used == (d == 64 ? ~0ull : (1ull << d) - 1)) return;
  vector<uint32_t> nb; vector<int> pos; for (int i = 0; i < d; i++) if (used >> i & 1) { nb.push_back(basis[i]); pos.push_back(i); }
  vector<TT> nt; for (auto &t : tts) { TT x(nb.size()); for (uint64_t z = 0; z < (1ull << nb.size()); z++) { uint64_t k = 0; for (size_t j = 0; j < pos.size(); j++) if (z >> j & 1) k |= 1ull << pos[j]; if (t.get(k)) x.set(z); } nt.push_back(x); }
  basis = nb; tts = nt;
}
bool Core::tryInline(vector<uint32_t> &basis, vector<TT> &tts, int cap) {
  set<uint32_t> sps; size_t tot = 0;
  for (auto f : basis) { tot += forms[f].size(); }
  if (tot > (canon ? 1000000 : 20000)) return false;
  for (auto f : basis) for (auto a : forms[f]) if (atoms[a].k == A_TT) sps.insert(atoms[a].a);
  if (canon) { while (sps.size() > 16) sps.erase(sps.begin()); } else if (sps.size() > 64) return false; // the most recent spaces
  int best = 1000; uint32_t bw = 0; vector<uint32_t> bnb; vector<uint64_t> bco; vector<vector<Atom>> bwp; size_t nwb = 0;
  for (auto it = sps.rbegin(); it != sps.rend(); ++it) {
    uint32_t w = *it; if ((int)spaces[w].basis.size() > cap) continue;
    vector<uint32_t> fs = spaces[w].basis; vector<vector<Atom>> wp;
    for (auto f : basis) { vector<Atom> in, out; for (auto a : forms[f]) if (atoms[a].k == A_TT && atoms[a].a == w) in.push_back(a); else out.push_back(a); wp.push_back(in); fs.push_back(mkForm(std::move(out))); }
    vector<uint32_t> nb; vector<uint64_t> co; basisOf(fs, nb, co);
    if ((int)nb.size() <= cap && (int)nb.size() < best) { best = nb.size(); bw = w; bnb = nb; bco = co; bwp = wp; nwb = spaces[w].basis.size(); }
  }
  if (best == 1000) return false;
  nInline++;
  int nd = bnb.size(); vector<TT> nt(tts.size(), TT(nd));
  for (uint64_t z = 0; z < (1ull << nd); z++) {
    uint64_t wb = 0; for (size_t j = 0; j < nwb; j++) wb |= (uint64_t)__builtin_parityll(bco[j] & z) << j;
    uint64_t o = 0;
    for (size_t i = 0; i < basis.size(); i++) { int v = __builtin_parityll(bco[nwb + i] & z); for (auto a : bwp[i]) v ^= spaces[bw].rows[atoms[a].b].tt.get(wb); o |= (uint64_t)v << i; }
    for (size_t j = 0; j < tts.size(); j++) if (tts[j].get(o)) nt[j].set(z);
  }
  basis = bnb; tts = nt; dropUnused(basis, tts); return true;
}
bool Core::trySep(const vector<uint32_t> &basis, const vector<TT> &tts, vector<Bit> &out) {
  int d = basis.size(), m = tts.size(); if (d < 4 || m < 2 || m > 64) return false;
  size_t Z = (size_t)1 << d; vector<uint64_t> val(Z, 0);
  for (int j = 0; j < m; j++) for (size_t z = 0; z < Z; z++) if (tts[j].get(z)) val[z] |= 1ull << j;
  vector<uint64_t> dv(val); sort(dv.begin(), dv.end()); dv.erase(unique(dv.begin(), dv.end()), dv.end());
  size_t N = dv.size(); if (N < 3 || N > 256 || N >= Z) return false;
  vector<uint16_t> cls(Z); for (size_t z = 0; z < Z; z++) cls[z] = lower_bound(dv.begin(), dv.end(), val[z]) - dv.begin();
  typedef array<uint64_t, 4> Row;
  auto attempt = [&](const vector<uint64_t> &groups) -> bool {
    if (groups.size() < 2) return false;
    vector<Row> piv(N); vector<char> has(N, 0); size_t rank = 0;
    for (size_t z = 0; z < Z && rank < N - 1; z++) {
      Row r = {0, 0, 0, 0}; auto fl = [&](uint16_t c) { r[c >> 6] ^= 1ull << (c & 63); };
      fl(cls[z]); for (auto g : groups) fl(cls[z & g]); if ((groups.size() - 1) & 1) fl(cls[0]);
      for (;;) { int p = -1; for (int w = 0; w < 4; w++) if (r[w]) { p = w * 64 + __builtin_ctzll(r[w]); break; } if (p < 0) break;
        if (!has[p]) { has[p] = 1; piv[p] = r; rank++; break; } for (int w = 0; w < 4; w++) r[w] ^= piv[p][w]; }
    }
    if (rank >= N - 1) return false;
    // nullspace: free vars = !has; back substitution (rows pivot = lowest set bit, others higher)
    vector<vector<char>> hs;
    for (size_t fv = 0; fv < N; fv++) if (!has[fv]) {
      vector<char> h(N, 0); h[fv] = 1;
      for (int p = (int)N - 1; p >= 0; p--) if (has[p]) { int s = 0; for (size_t q = p + 1; q < N; q++) if (piv[p][q >> 6] >> (q & 63) & 1) s ^= h[q]; h[p] = s; }
      hs.push_back(h);
    }
    // normalise h[f(0)] = 0, drop constants, independent set
    vector<vector<char>> in; vector<vector<char>> ech;
    for (auto &h : hs) { if (h[cls[0]]) for (auto &x : h) x ^= 1; auto g = h; for (auto &e : ech) { size_t p = find(e.begin(), e.end(), 1) - e.begin(); if (g[p]) for (size_t q = 0; q < N; q++) g[q] ^= e[q]; } if (find(g.begin(), g.end(), 1) == g.end()) continue; ech.push_back(g); in.push_back(h); }
    size_t r = in.size(); if (r < 1 || r > 10 || r >= (size_t)d) return false;
    map<uint64_t, size_t> code; for (size_t v = 0; v < N; v++) { uint64_t k = 0; for (size_t t = 0; t < r; t++) k |= (uint64_t)in[t][v] << t; if (!code.emplace(k, v).second) return false; }
    vector<Bit> s;
    for (size_t t = 0; t < r; t++) {
      Bit acc = 0;
      for (auto g : groups) {
        vector<uint32_t> sb; vector<int> pos; for (int i = 0; i < d; i++) if (g >> i & 1) { sb.push_back(basis[i]); pos.push_back(i); }
        TT x(sb.size()); for (uint64_t q = 0; q < (1ull << sb.size()); q++) { uint64_t k = 0; for (size_t j = 0; j < pos.size(); j++) if (q >> j & 1) k |= 1ull << pos[j]; if (in[t][cls[k]]) x.set(q); }
        acc = bxor(acc, fromTT(sb, {x}, false)[0]);
      }
      s.push_back(acc);
    }
    vector<uint32_t> nb; vector<uint64_t> co; if (!dims(s, MAXDIM, nb, co)) return false;
    vector<TT> nt(m, TT(nb.size()));
    for (uint64_t z = 0; z < (1ull << nb.size()); z++) { uint64_t k = 0; for (size_t j = 0; j < s.size(); j++) k |= (uint64_t)(__builtin_parityll(co[j] & z) ^ (s[j] & 1)) << j; auto it = code.find(k); if (it == code.end()) continue; for (int j = 0; j < m; j++) if (dv[it->second] >> j & 1) nt[j].set(z); }
    nSep++; out = fromTT(nb, nt, false); return true;
  };
  vector<uint64_t> g1; for (int i = 0; i < d; i++) g1.push_back(1ull << i);
  if (attempt(g1)) return true;
  // groups by shared spaces / nodes
  vector<int> par(d); for (int i = 0; i < d; i++) par[i] = i; function<int(int)> fd = [&](int x) { return par[x] == x ? x : par[x] = fd(par[x]); };
  map<pair<int, uint32_t>, int> own; for (int i = 0; i < d; i++) for (auto a : forms[basis[i]]) { auto k = make_pair((int)atoms[a].k, atoms[a].a); auto it = own.find(k); if (it == own.end()) own[k] = i; else par[fd(i)] = fd(it->second); }
  map<int, uint64_t> gm; for (int i = 0; i < d; i++) gm[fd(i)] |= 1ull << i; vector<uint64_t> g2; for (auto &x : gm) g2.push_back(x.second);
  return attempt(g2);
}
// atoms "word == 0" among the variables: (X==0)*x = 0 for a bit x of X, (X==0)*(Y==0) = (X==0) when Y's bits are among X's
void Core::zeroRules(const vector<uint32_t> &basis, vector<TT> &tts) {
  int d = basis.size(); if (d < 2) return; vector<array<int, 3>> rules; // i, j, kind: 0 drop the monomial, 1 remove j
  for (int i = 0; i < d; i++) { if (forms[basis[i]].size() != 1) continue; auto &ai = atoms[forms[basis[i]][0]]; if (ai.k != A_WORD || nodes[ai.a]->op != N_EQ0) continue; Node *n = nodes[ai.a].get(); APInt z; SVp X = nullptr; if (isConst(n->args[1], &z) && z.isZero()) X = n->args[0]; else if (isConst(n->args[0], &z) && z.isZero()) X = n->args[1]; if (!X) continue;
    auto &bits = zeroBits[X->id]; if (bits.empty()) bits.insert(X->b.begin(), X->b.end());
    for (int j = 0; j < d; j++) if (j != i) { bool allz = true; for (auto q : forms[basis[j]]) if (!bits.count(atomBit(q))) { allz = false; break; } if (allz) rules.push_back({i, j, 0}); else if (bits.count(basis[j] << 1 | 1)) rules.push_back({i, j, 1}); else if (forms[basis[j]].size() == 1) { auto &aj = atoms[forms[basis[j]][0]]; if (aj.k != A_WORD || nodes[aj.a]->op != N_EQ0) continue; Node *q = nodes[aj.a].get(); SVp Y = nullptr; if (isConst(q->args[1], &z) && z.isZero()) Y = q->args[0]; else if (isConst(q->args[0], &z) && z.isZero()) Y = q->args[1]; if (!Y) continue; bool sub = true; for (auto b : Y->b) if (b && !bits.count(b)) { sub = false; break; } if (sub) rules.push_back({i, j, 1}); } } }
  if (rules.empty()) return;
  for (auto &t : tts) { TT a = t; a.mobius(); bool ch = false;
    for (bool go = true; go;) { go = false; for (auto &r : rules) for (uint64_t m = 0; m < (1ull << d); m++) if ((m >> r[0] & 1) && (m >> r[1] & 1) && a.get(m)) { a.flip(m); if (r[2] == 1) a.flip(m & ~(1ull << r[1])); ch = go = true; } }
    if (ch) { a.mobius(); t = a; } }
}
// everything that depends on one small input word only is kept as a function of exactly the bits of that word (canonical)
const Core::FlatF &Core::flatOf(uint32_t f) {
  auto it = flatMemo.find(f); if (it != flatMemo.end()) return it->second; FlatF r; r.node = -1; vector<Atom> fs = forms[f];
  auto join = [&](int n) { if (r.node == -1) { r.node = n; if (n >= 0) r.tt = TT(nodes[n]->nb); } else if (r.node != n) r.node = -2; return r.node >= 0; };
  for (auto a : fs) {
    if (atoms[a].k == A_WORD) { Node *n = nodes[atoms[a].a].get(); if (n->op != N_VAR || n->nb > 12 || !join(n->id)) { r.node = -2; break; } for (uint64_t z = 0; z < (1ull << n->nb); z++) if (z >> atoms[a].b & 1) r.tt.flip(z); continue; }
    vector<uint32_t> b = spaces[atoms[a].a].basis; bool ok = true; for (auto g : b) { const FlatF &x = flatOf(g); if (x.node < 0 || !join(x.node)) { ok = false; break; } } if (!ok) { r.node = -2; break; }
    vector<const TT *> bt; for (auto g : b) bt.push_back(&flatMemo.at(g).tt); const TT &t = spaces[atoms[a].a].rows[atoms[a].b].tt;
    for (uint64_t z = 0; z < (1ull << r.tt.d); z++) { uint64_t k = 0; for (size_t i = 0; i < bt.size(); i++) k |= (uint64_t)bt[i]->get(z) << i; if (t.get(k)) r.tt.flip(z); }
  }
  return flatMemo[f] = r;
}
void Core::flatRows(int n, vector<TT> &nt, vector<Bit> &out) {
  int d = nodes[n]->nb; vector<uint32_t> vb; for (int i = 0; i < d; i++) vb.push_back(atomBit(nodes[n]->first + i) >> 1);
  int sp = getSpace(vb); out.clear();
  for (auto &t : nt) { TT full = t; t.mobius(); bool c = t.get(0); if (c) t.flip(0); vector<Atom> v; for (int i = 0; i < d; i++) if (t.get(1ull << i)) { v.push_back(nodes[n]->first + i); t.flip(1ull << i); }
    for (auto &row : spaces[sp].rows) if (t.get(row.piv)) { for (size_t i = 0; i < t.v.size(); i++) t.v[i] ^= row.anf.v[i]; v.push_back(row.atom); }
    if (!t.zero()) { SpaceRow nr; nr.anf = t; nr.tt = t; nr.tt.mobius(); uint64_t piv = 0; for (size_t w = t.v.size(); w-- > 0;) if (t.v[w]) { piv = (w << 6) | (63 - __builtin_clzll(t.v[w])); break; } nr.piv = piv; nr.atom = newAtom(A_TT, sp, spaces[sp].rows.size()); spaces[sp].rows.push_back(nr); v.push_back(nr.atom); }
    sort(v.begin(), v.end()); uint32_t f = mkForm(std::move(v)); if (f && !flatMemo.count(f)) { if (c) for (uint64_t z = 0; z < (1ull << d); z++) full.flip(z); flatMemo[f] = FlatF{n, full}; } out.push_back(f << 1 | c); }
}
bool Core::flatTT(const vector<uint32_t> &basis, const vector<TT> &tts, vector<Bit> &out) {
  int n = -1; for (auto f : basis) { int m = flatOf(f).node; if (m < 0 || (n >= 0 && m != n)) return false; n = m; } if (n < 0) return false;
  int d = nodes[n]->nb; vector<uint32_t> vb; for (int i = 0; i < d; i++) vb.push_back(atomBit(nodes[n]->first + i) >> 1); vector<TT> nt(tts.size(), TT(d));
  for (uint64_t z = 0; z < (1ull << d); z++) { uint64_t k = 0; for (size_t i = 0; i < basis.size(); i++) k |= (uint64_t)flatMemo.at(basis[i]).tt.get(z) << i; for (size_t j = 0; j < tts.size(); j++) if (tts[j].get(k)) nt[j].set(z); }
  flatRows(n, nt, out);
  return true;
}
vector<Bit> Core::fromTT(vector<uint32_t> basis, vector<TT> tts, bool sep) {
  if (flat) { vector<Bit> o; if (flatTT(basis, tts, o)) return o; }
  bool aff = true; for (auto &t : tts) if (!isAffine(t)) { aff = false; break; }
  if (!aff) {
    dropUnused(basis, tts);
    if (canon) quotient(basis, tts);
    while (tryInline(basis, tts, basis.size())) if (canon) quotient(basis, tts);
    if (canon && basis.size() <= 8) for (bool go = true; go;) { go = false; auto b = basis; auto t = tts; size_t cap = min<size_t>(12, basis.size() + 4); for (int k = 0; k < 8 && tryInline(b, t, cap); k++) { quotient(b, t); if (b.size() <= basis.size()) { basis = b; tts = t; go = true; break; } } }
    vector<Bit> out; if (sep && trySep(basis, tts, out)) return out;
    while (tryInline(basis, tts, max<int>(INLCAP, 0))) {}
  }
  if (haveZero) { zeroRules(basis, tts); dropUnused(basis, tts); }
  vector<Bit> r; for (auto &t : tts) r.push_back(finalBit(basis, t)); return r;
}

// ------------------------------------------------------------------ values
SVp Core::mkSV(vector<Bit> &&b) {
  uint64_t h = b.size(); for (auto x : b) h = mix(h ^ x) + 0x9e3779b97f4a7c15ull;
  auto r = svIdx.equal_range(h); for (auto i = r.first; i != r.second; ++i) if (i->second->b == b) return i->second;
  SV *s = new SV; s->b = std::move(b); s->id = svCount++; svIdx.emplace(h, s); return s;
}
SVp Core::cst(const APInt &v) { vector<Bit> b(v.getBitWidth()); for (unsigned i = 0; i < b.size(); i++) b[i] = v[i]; return mkSV(std::move(b)); }
bool Core::isConst(SVp s, APInt *o) { for (auto x : s->b) if (x > 1) return false; if (o) { *o = APInt(s->w(), 0); for (unsigned i = 0; i < s->w(); i++) if (s->b[i]) o->setBit(i); } return true; }
APInt Core::possible(SVp s) { APInt r(s->w(), 0); for (unsigned i = 0; i < s->w(); i++) if (s->b[i] != 0) r.setBit(i); return r; }
Node *Core::asNode(SVp s) {
  Bit b0 = s->b[0]; if (b0 < 2 || (b0 & 1)) return nullptr; auto &f = forms[b0 >> 1]; if (f.size() != 1) return nullptr; auto &ai = atoms[f[0]];
  if (ai.k != A_WORD || ai.b != 0) return nullptr; Node *n = nodes[ai.a].get(); if (n->nb > s->w()) return nullptr;
  for (unsigned i = 0; i < s->w(); i++) { if (i < n->nb) { Bit x = s->b[i]; if (x < 2 || (x & 1)) return nullptr; auto &g = forms[x >> 1]; if (g.size() != 1 || g[0] != n->first + i) return nullptr; } else if (s->b[i] != 0) return nullptr; }
  return n;
}
APInt Core::umax(SVp s) { Node *n = asNode(s); if (n) return n->maxv.zextOrTrunc(s->w()); return possible(s); }
Node *Core::mkNode(Op op, uint32_t w, vector<SVp> args, vector<APInt> coef, APInt c, APInt maxv, uint32_t nb, int ufid) {
  uint64_t h = mix(op * 1000003ull + w) ^ ufid; for (auto a : args) h = mix(h ^ a->id); for (auto &x : coef) h = mix(h ^ (uint64_t)(size_t)llvm::hash_value(x)); if (op == N_LIN) h = mix(h ^ (uint64_t)(size_t)llvm::hash_value(c));
  if (op != N_VAR) { auto r = nodeIdx.equal_range(h); for (auto i = r.first; i != r.second; ++i) { Node *n = nodes[i->second].get(); if (n->op == op && n->w == w && n->args == args && n->ufid == ufid && n->coef.size() == coef.size() && equal(coef.begin(), coef.end(), n->coef.begin(), [](const APInt &a, const APInt &b) { return a.getBitWidth() == b.getBitWidth() && a == b; }) && (op != N_LIN || n->cst == c)) return n; } }
  auto n = make_unique<Node>(); n->op = op; n->w = w; n->args = args; n->coef = coef; n->cst = c; n->maxv = maxv; n->nb = nb; n->ufid = ufid; n->id = nodes.size();
  n->first = atoms.size(); for (uint32_t i = 0; i < nb; i++) newAtom(A_WORD, n->id, i);
  Node *r = n.get(); nodes.push_back(std::move(n)); nodeIdx.emplace(h, r->id);
  vector<Bit> b(w, 0); for (uint32_t i = 0; i < nb; i++) b[i] = atomBit(r->first + i); r->self = mkSV(std::move(b));
  return r;
}
SVp Core::nodeSV(Node *n) { return n->self; }
SVp Core::newVar(const string &name, uint32_t w) { Node *n = mkNode(N_VAR, w, {}, {}, APInt(w, 0), APInt::getAllOnes(w), w); n->name = name; return n->self; }

bool Core::tabulable(initializer_list<SVp> as, int cap) {
  vector<Bit> v; for (auto s : as) for (auto b : s->b) if (b > 1) v.push_back(b); if (v.size() > 300) return false;
  size_t sz = 0; for (auto b : v) sz += forms[b >> 1].size(); if (sz > 4000) return false;
  vector<uint32_t> ba; vector<uint64_t> co; return dims(v, cap, ba, co);
}
SVp Core::tab2(SVp a, SVp b, uint32_t w, const function<APInt(const APInt &, const APInt &)> &f) {
  // tabulate over the basis of all bits
  vector<Bit> v(a->b); if (b) v.insert(v.end(), b->b.begin(), b->b.end());
  vector<uint32_t> fs; for (auto x : v) fs.push_back(x >> 1); vector<uint32_t> ba; vector<uint64_t> co; basisOf(fs, ba, co);
  int d = ba.size(); vector<TT> t(w, TT(d)); nLookup++;
  for (uint64_t z = 0; z < (1ull << d); z++) {
    APInt x(a->w(), 0), y(b ? b->w() : 1, 0);
    for (size_t i = 0; i < v.size(); i++) if (__builtin_parityll(co[i] & z) ^ (v[i] & 1)) { if (i < a->w()) x.setBit(i); else y.setBit(i - a->w()); }
    APInt r = f(x, y); for (uint32_t i = 0; i < w; i++) if (r[i]) t[i].set(z);
  }
  vector<Bit> out; // chunks of 64 for fromTT
  for (uint32_t i = 0; i < w; i += 64) { vector<TT> c(t.begin() + i, t.begin() + min<uint32_t>(w, i + 64)); auto o = fromTT(ba, c); out.insert(out.end(), o.begin(), o.end()); }
  return mkSV(std::move(out));
}
void Core::linTerms(SVp s, const APInt &k0, map<uint32_t, pair<SVp, APInt>> &m, APInt &c) {
  uint32_t w = s->w(); APInt k = k0; APInt cv;
  if (isConst(s, &cv)) { c += cv * k; return; }
  // strip low zero bits
  uint32_t tz = 0; while (tz < w && s->b[tz] == 0) tz++;
  if (tz) { vector<Bit> b(s->b.begin() + tz, s->b.end()); b.resize(w, 0); s = mkSV(std::move(b)); k = k.shl(tz); }
  // strip constant-one bits into the constant (x = y + const when bits are disjoint)
  bool ones = false; for (auto x : s->b) if (x == 1) ones = true;
  if (ones) { vector<Bit> b(s->b); APInt o(w, 0); for (uint32_t i = 0; i < w; i++) if (b[i] == 1) { b[i] = 0; o.setBit(i); } s = mkSV(std::move(b)); c += o * k; linTerms(s, k, m, c); return; }
  Node *n = asNode(s);
  if (n && n->op == N_LIN && n->args.size() <= (w > 64 ? 80u : 12u) && (n->w == w || n->lo == 1 /*nowrap*/)) {
    for (size_t i = 0; i < n->args.size(); i++) linTerms(zext(n->args[i], w), k * n->coef[i].zextOrTrunc(w), m, c);
    c += n->cst.zextOrTrunc(w) * k; return;
  }
  auto it = m.find(s->id); if (it == m.end()) m.emplace(s->id, make_pair(s, k)); else it->second.second += k;
}
SVp Core::lin(uint32_t w, vector<pair<SVp, APInt>> terms, APInt c) {
  map<uint32_t, pair<SVp, APInt>> m; for (auto &t : terms) linTerms(t.first, t.second, m, c);
  vector<SVp> a; vector<APInt> k; for (auto &x : m) if (!x.second.second.isZero()) { a.push_back(x.second.first); k.push_back(x.second.second); }
  if (w > 64 && a.size() > 1) for (size_t j = 0; j < a.size(); j++) { // k*X - k*r*(X div r) = k*(X mod r)
      Node *n = asNode(a[j]); APInt y; if (!n || n->op != N_UDIV || !k[j].isNegative() || !isConst(n->args[1], &y)) continue; APInt nk = -k[j]; y = y.zextOrTrunc(w); SVp X = zext(n->args[0], w);
      if (nk.urem(y).isZero()) { APInt kk = nk.udiv(y); map<uint32_t, pair<SVp, APInt>> mx; APInt cx(w, 0); linTerms(X, kk, mx, cx); bool all = true; for (auto &x : mx) { auto it = m.find(x.first); if (it == m.end() || it->second.second != x.second.second) { all = false; break; } }
        if (all) { vector<pair<SVp, APInt>> t; for (size_t q = 0; q < a.size(); q++) if (q != j && !mx.count(a[q]->id)) t.push_back({a[q], k[q]}); t.push_back({divop(N_UREM, X, cst(y)), kk}); return lin(w, t, c - cx); } }
      for (size_t i = 0; i < a.size(); i++) { Node *q = asNode(a[i]); APInt p0; if (i == j || !q || q->op != N_UDIV || zext(q->args[0], w) != X || !isConst(q->args[1], &p0)) continue; p0 = p0.zextOrTrunc(w); if (!y.urem(p0).isZero()) continue; APInt r = y.udiv(p0); if (!nk.urem(r).isZero() || nk.udiv(r) != k[i]) continue;
        vector<pair<SVp, APInt>> t; for (size_t z = 0; z < a.size(); z++) if (z != j && z != i) t.push_back({a[z], k[z]}); t.push_back({divop(N_UREM, a[i], cst(r)), k[i]}); return lin(w, t, c); } }
  if (w > 64 && a.size() > 1) for (bool ch = true; ch;) { // digits of one number: k*(X mod r) + k*r*(X div r mod s) = k*(X mod r*s)
      ch = false;
      for (size_t i = 0; i < a.size() && !ch; i++) { Node *n = asNode(a[i]); APInt r; if (!n || n->op != N_UREM || !isConst(n->args[1], &r)) continue; APInt kr = k[i] * r.zextOrTrunc(w); SVp X = n->args[0], D = divop(N_UDIV, X, n->args[1]), Dw = zext(D, w);
        for (size_t j = 0; j < a.size() && !ch; j++) if (j != i && k[j] == kr) { SVp y = nullptr; if (a[j] == Dw) y = zext(X, w); else { Node *q = asNode(a[j]); APInt t; if (q && q->op == N_UREM && isConst(q->args[1], &t) && zext(q->args[0], w) == Dw) { APInt big = r.zextOrTrunc(2 * w) * t.zextOrTrunc(2 * w); if (big.getActiveBits() <= w) y = divop(N_UREM, zext(X, w), cst(big.trunc(w))); } }
            if (y) { vector<pair<SVp, APInt>> t2; for (size_t q = 0; q < a.size(); q++) if (q != i && q != j) t2.push_back({a[q], k[q]}); t2.push_back({y, k[i]}); return lin(w, t2, c); } } } }
  if (a.empty()) return cst(c);
  if (a.size() == 1 && k[0].isOne() && c.isZero()) return a[0];
  // no-carry: power-of-two coefficients with disjoint bit ranges
  { APInt occ = c; bool ok = true; vector<Bit> b(w, 0); for (uint32_t i = 0; i < w; i++) b[i] = c[i];
    for (size_t i = 0; i < a.size() && ok; i++) { if (!k[i].isPowerOf2()) { ok = false; break; } uint32_t sh = k[i].logBase2(); APInt p = possible(a[i]).shl(sh); if (p.intersects(occ)) { ok = false; break; } occ |= p; for (uint32_t j = 0; j + sh < w; j++) if (a[i]->b[j] != 0) b[j + sh] = a[i]->b[j]; }
    if (ok) return mkSV(std::move(b)); }
  vector<Bit> all; for (auto s : a) for (auto x : s->b) if (x > 1) all.push_back(x);
  { vector<uint32_t> ba; vector<uint64_t> co; int cap = w <= 8 ? TABCAP : 1; if (numbers && w > 8 && w <= 64 && all.size() <= 80) for (auto x : all) for (auto q : forms[x >> 1]) if (atoms[q].k == A_TT || nodes[atoms[q].a]->op == N_EQ0) cap = 9; if (all.size() <= 80 && dims(all, cap, ba, co)) {
      int d = ba.size(); vector<TT> t(w, TT(d));
      for (uint64_t z = 0; z < (1ull << d); z++) { APInt r = c; size_t p = 0; for (size_t i = 0; i < a.size(); i++) { APInt x(w, 0); for (uint32_t j = 0; j < w; j++) { Bit q = a[i]->b[j]; if (q > 1) { if (__builtin_parityll(co[p] & z) ^ (q & 1)) x.setBit(j); p++; } else if (q) x.setBit(j); } r += x * k[i]; } for (uint32_t i = 0; i < w; i++) if (r[i]) t[i].set(z); }
      vector<Bit> out; for (uint32_t i = 0; i < w; i += 64) { vector<TT> cc(t.begin() + i, t.begin() + min<uint32_t>(w, i + 64)); auto o = fromTT(ba, cc); out.insert(out.end(), o.begin(), o.end()); } return mkSV(std::move(out)); } }
  // bounds
  APInt mx = c.zext(w + 16); bool small = true; for (size_t i = 0; i < a.size(); i++) { APInt kk = k[i].zext(w + 16), u = umax(a[i]).zext(w + 16); if (k[i].getActiveBits() + u.getActiveBits() > w + 8) { small = false; break; } mx += kk * u; }
  bool nowrap = small && mx.getActiveBits() <= w; APInt maxv = nowrap ? mx.trunc(w) : APInt::getAllOnes(w);
  uint32_t nb = nowrap ? maxv.getActiveBits() : w; if (nb == 0) nb = 1;
  if (nowrap && w > 64) { uint32_t w2 = (nb + 63) / 64 * 64; if (w2 < w) { vector<pair<SVp, APInt>> t; for (size_t i = 0; i < a.size(); i++) t.push_back({zext(a[i], w2), k[i].trunc(w2)}); return zext(lin(w2, t, c.trunc(w2)), w); } }
  Node *n = mkNode(N_LIN, w, a, k, c, maxv, nb); n->lo = nowrap ? 1 : 0; return n->self;
}
SVp Core::add(SVp a, SVp b) { uint32_t w = a->w(); return lin(w, {{a, APInt(w, 1)}, {b, APInt(w, 1)}}, APInt(w, 0)); }
SVp Core::sub(SVp a, SVp b) { uint32_t w = a->w(); return lin(w, {{a, APInt(w, 1)}, {b, APInt::getAllOnes(w)}}, APInt(w, 0)); }
SVp Core::mul(SVp a, SVp b) {
  uint32_t w = a->w(); APInt c; if (isConst(b)) swap(a, b);
  if (isConst(a, &c)) return lin(w, {{b, c}}, APInt(w, 0));
  if (possible(a).isOne()) return ite(a->b[0], b, cst(APInt(w, 0)));
  if (possible(b).isOne()) return ite(b->b[0], a, cst(APInt(w, 0)));
  if (w <= 8 && tabulable({a, b}, TABCAP)) return tab2(a, b, w, [](const APInt &x, const APInt &y) { return x * y; });
  if (a->id > b->id) swap(a, b);
  APInt u = umax(a).zext(2 * w) * umax(b).zext(2 * w); bool nw = u.getActiveBits() <= w; APInt mx = nw ? u.trunc(w) : APInt::getAllOnes(w);
  return mkNode(N_MUL, w, {a, b}, {}, APInt(w, 0), mx, nw ? max(1u, mx.getActiveBits()) : w)->self;
}
SVp Core::divop(Op op, SVp a, SVp b) {
  uint32_t w = a->w(); APInt x, y; bool ca = isConst(a, &x), cb = isConst(b, &y);
  auto f = [op](const APInt &x, const APInt &y) -> APInt { if (y.isZero()) return APInt(x.getBitWidth(), 0); switch (op) { case N_UDIV: return x.udiv(y); case N_UREM: return x.urem(y); case N_SDIV: return x.sdiv(y); default: return x.srem(y); } };
  if (ca && cb) return cst(f(x, y));
  if ((op == N_SDIV || op == N_SREM) && a->b[w - 1] == 0 && b->b[w - 1] == 0) op = op == N_SDIV ? N_UDIV : N_UREM;
  if (cb && (op == N_UDIV || op == N_UREM) && !y.isZero()) {
    if (umax(a).ult(y)) return op == N_UDIV ? cst(APInt(w, 0)) : a;
    if (y.isPowerOf2() && !(w > 64 && asNode(a))) { uint32_t s = y.logBase2(); vector<Bit> r(w, 0); if (op == N_UDIV) for (uint32_t i = s; i < w; i++) r[i - s] = a->b[i]; else for (uint32_t i = 0; i < s; i++) r[i] = a->b[i]; return mkSV(std::move(r)); }
  }
  bool num = w > 64; // numbers wider than a machine word stay words
  if (num && cb && !y.isZero() && (op == N_UDIV || op == N_UREM)) { uint32_t w2 = (max(umax(a).getActiveBits(), y.getActiveBits()) + 63) / 64 * 64; if (w2 == 64) w2 = 128; if (w2 < w) return zext(divop(op, zext(a, w2), cst(y.trunc(w2))), w); }
  if (num && cb && !y.isZero() && (op == N_UDIV || op == N_UREM)) {
    Node *n = asNode(a); APInt z;
    if (n && op == N_UDIV && n->op == N_UDIV && isConst(n->args[1], &z)) { APInt t = z.zextOrTrunc(2 * w) * y.zext(2 * w); if (t.getActiveBits() > w) return cst(APInt(w, 0)); return divop(op, zext(n->args[0], w), cst(t.trunc(w))); }
    if (n && n->op == N_LIN && n->lo == 1) { // a sum that does not wrap around
      map<uint32_t, pair<SVp, APInt>> m; APInt c(w, 0); linTerms(a, APInt(w, 1), m, c);
      auto bound = [&](const vector<pair<SVp, APInt>> &t, const APInt &c0) { APInt r = c0.zext(2 * w + 16); for (auto &x : t) r += x.second.zext(2 * w + 16) * umax(x.first).zext(2 * w + 16); return r; };
      if (op == N_UREM) { bool ch = false; map<uint32_t, pair<SVp, APInt>> m2; APInt c2(w, 0), z2; vector<pair<SVp, APInt>> t;
        for (auto &x : m) { APInt kk = x.second.second.urem(y); if (kk != x.second.second) ch = true; if (kk.isZero()) continue; Node *q = asNode(x.second.first); if (q && q->op == N_UREM && isConst(q->args[1], &z2) && z2.zextOrTrunc(w).urem(y).isZero() && q->args[0]->w() <= w) { ch = true; linTerms(zext(q->args[0], w), kk, m2, c2); } else linTerms(x.second.first, kk, m2, c2); }
        if (!(c.ult(y))) ch = true; c2 += c.urem(y); for (auto &x : m2) if (!x.second.second.isZero()) t.push_back({x.second.first, x.second.second.urem(y)}); t.erase(remove_if(t.begin(), t.end(), [](const pair<SVp, APInt> &x) { return x.second.isZero(); }), t.end()); c2 = c2.urem(y);
        if (ch) { uint32_t nw = max<uint32_t>(w, (bound(t, c2).getActiveBits() + 63) / 64 * 64); if (nw <= 1024) { for (auto &x : t) { x.first = zext(x.first, nw); x.second = x.second.zext(nw); } return extract(divop(op, lin(nw, t, c2.zext(nw)), cst(y.zext(nw))), 0, w); } } }
      else { vector<pair<SVp, APInt>> t, rest; APInt rc = c.urem(y); for (auto &x : m) if (x.second.second.urem(y).isZero()) t.push_back({x.second.first, x.second.second.udiv(y)}); else rest.push_back(x.second); if ((!t.empty() || rest.empty()) && bound(rest, rc).ult(y.zext(2 * w + 16))) return lin(w, t, c.udiv(y)); }
    }
  }
  if (!num && tabulable({a, b}, TABCAP)) return tab2(a, b, w, f);
  APInt mx = APInt::getAllOnes(w);
  if (op == N_UDIV) mx = cb && !y.isZero() ? umax(a).udiv(y) : umax(a); else if (op == N_UREM) { mx = umax(a); APInt t = cb && !y.isZero() ? y - 1 : umax(b); if (t.ult(mx)) mx = t; }
  return mkNode(op, w, {a, b}, {}, APInt(w, 0), mx, max(1u, mx.getActiveBits()))->self;
}
SVp Core::shift(Op op, SVp a, SVp b) {
  uint32_t w = a->w(); APInt k;
  auto sh = [&](SVp s, uint64_t n) -> SVp { vector<Bit> r(w, op == N_ASHR ? s->b[w - 1] : 0); if (n < w) { if (op == N_SHL) for (uint32_t i = n; i < w; i++) r[i] = s->b[i - n]; else for (uint32_t i = 0; i + n < w; i++) r[i] = s->b[i + n]; } return mkSV(std::move(r)); };
  if (isConst(b, &k)) return sh(a, k.getActiveBits() > 32 ? w : k.getZExtValue());
  SVp cur = a; for (uint32_t j = 0; j < b->w() && j < 30; j++) if (b->b[j] != 0) { if ((1ull << j) >= w) { cur = ite(b->b[j], sh(cur, w), cur); } else cur = ite(b->b[j], sh(cur, 1ull << j), cur); }
  return cur;
}
SVp Core::bitop(int op, SVp a, SVp b) {
  uint32_t w = a->w(); vector<Bit> r(w);
  for (uint32_t i = 0; i < w; i++) r[i] = op == 2 ? bxor(a->b[i], b->b[i]) : op == 0 ? band(a->b[i], b->b[i]) : bor(a->b[i], b->b[i]);
  return mkSV(std::move(r));
}
SVp Core::extract(SVp a, uint32_t lo, uint32_t w) {
  if (lo == 0 && w == a->w()) return a;
  if (lo == 0) { Node *n = asNode(a); if (n && n->op == N_LIN && n->nb > w && n->w == a->w() && n->lo != 1) { vector<pair<SVp, APInt>> t; for (size_t i = 0; i < n->args.size(); i++) t.push_back({extract(n->args[i], 0, w), n->coef[i].trunc(w)}); return lin(w, t, n->cst.trunc(w)); } }
  return mkSV(vector<Bit>(a->b.begin() + lo, a->b.begin() + lo + w));
}
SVp Core::concat(SVp lo, SVp hi) { vector<Bit> r(lo->b); r.insert(r.end(), hi->b.begin(), hi->b.end()); return mkSV(std::move(r)); }
SVp Core::zext(SVp a, uint32_t w) { if (w == a->w()) return a; vector<Bit> r(a->b); r.resize(w, 0); return mkSV(std::move(r)); }
SVp Core::sext(SVp a, uint32_t w) { if (w == a->w()) return a; vector<Bit> r(a->b); r.resize(w, a->b.back()); return mkSV(std::move(r)); }
// a bit that depends on at most 8 word bits, as one function of them (memoised); otherwise unchanged
bool Core::support(uint32_t f, set<Atom> &sup, int depth) { for (auto a : forms[f]) { if (atoms[a].k == A_WORD) { sup.insert(a); if (sup.size() > 8) return false; } else { if (depth > 12) return false; auto &sp = spaces[atoms[a].a]; for (auto g : sp.basis) if (!support(g, sup, depth + 1)) return false; } } return true; }
bool Core::evalForm(uint32_t f, const map<Atom, int> &at, uint64_t v) { bool r = false; for (auto a : forms[f]) { if (atoms[a].k == A_WORD) r ^= v >> at.at(a) & 1; else { auto &sp = spaces[atoms[a].a]; uint64_t k = 0; for (size_t i = 0; i < sp.basis.size(); i++) if (evalForm(sp.basis[i], at, v)) k |= 1ull << i; r ^= sp.rows[atoms[a].b].tt.get(k); } } return r; }
Bit Core::collapse(Bit x) { if (!numbers) return x;
  uint32_t f = x >> 1; int nt = 0; for (auto a : forms[f]) nt += atoms[a].k == A_TT; if (!nt || forms[f].size() < 2 || forms[f].size() > 64) return x;
  auto it = collapseMemo.find(f); if (it != collapseMemo.end()) return it->second ^ (x & 1);
  Bit r = f << 1; set<Atom> sup; if (support(f, sup, 0)) { map<Atom, int> at; vector<uint32_t> ba; for (auto a : sup) { at[a] = ba.size(); ba.push_back(atomBit(a) >> 1); } TT t(ba.size()); for (uint64_t v = 0; v < (1ull << ba.size()); v++) if (evalForm(f, at, v)) t.set(v); r = fromTT(ba, {t}, false)[0]; }
  collapseMemo[f] = r; return r ^ (x & 1);
}
SVp Core::ite(Bit c, SVp a, SVp b) { if (c == 1 || a == b) return a; if (c == 0) return b; vector<Bit> r(a->w()); for (uint32_t i = 0; i < a->w(); i++) r[i] = collapse(bite(c, a->b[i], b->b[i])); return mkSV(std::move(r)); }
Bit Core::eq(SVp a, SVp b) {
  vector<Bit> df, pa, pb; uint32_t w = a->w();
  for (uint32_t i = 0; i < w; i++) { Bit x = bxor(a->b[i], b->b[i]); if (x == 1) return 0; if (x) { df.push_back(x); pa.push_back(a->b[i]); pb.push_back(b->b[i]); } }
  if (df.empty()) return 1;
  if (df.size() == 1) return bnot(df[0]);
  vector<uint32_t> ba; vector<uint64_t> co; size_t sz = 0; for (auto x : df) sz += forms[x >> 1].size();
  if (sz < 20000) { bool small = dims(df, 8, ba, co);
    // inconsistent linear system?
    { vector<uint32_t> fs; for (auto x : df) fs.push_back(x >> 1); // check 1 in affine span via augmented elimination
      struct E { uint32_t f; Atom p; int c; }; vector<E> bs; bool bad = false;
      for (auto x : df) { uint32_t f = x >> 1; int c = x & 1; for (auto &e : bs) if (binary_search(forms[f].begin(), forms[f].end(), e.p)) { f = xorF(f, e.f); c ^= e.c; } if (!f) { if (c) { bad = true; break; } continue; } Atom p = forms[f].back(); for (auto &e : bs) if (binary_search(forms[e.f].begin(), forms[e.f].end(), p)) { e.f = xorF(e.f, f); e.c ^= c; } bs.push_back({f, p, c}); }
      if (bad) return 0; if (bs.size() <= 10 && df.size() > 60) { vector<Bit> r; for (auto &e : bs) r.push_back((e.f << 1) | e.c); return tabulate(r, 1, [](uint64_t i) { return i == 0; })[0]; } }
    if (small) { uint64_t n = df.size(); if (n <= 60) return tabulate(df, 1, [](uint64_t i) { return i == 0; })[0]; } }
  if (asNode(a) || asNode(b)) { SVp d = sub(a, b); APInt k; if (isConst(d, &k)) return k.isZero(); if (!umax(a).uge(0)) {} }
  { APInt k; if (isConst(b, &k) && umax(a).ult(k)) return 0; if (isConst(a, &k) && umax(b).ult(k)) return 0; }
  SVp x = a, y = b; if (pa.size() != w) { x = mkSV(std::move(pa)); y = mkSV(std::move(pb)); }
  if (x->id > y->id) swap(x, y);
  return mkNode(N_EQ0, 1, {x, y}, {}, APInt(1, 0), APInt(1, 1), 1)->self->b[0];
}
Bit Core::isZero(SVp s) { // the atom "s == 0", kept as an atom so that zeroRules apply
  vector<Bit> b; for (auto x : s->b) { if (x == 1) return 0; if (x) b.push_back(x); } if (b.empty()) return 1; if (b.size() == 1) return b[0] ^ 1; haveZero = true; SVp v = mkSV(std::move(b)), z = cst(APInt(v->w(), 0)); return mkNode(N_EQ0, 1, {v, z}, {}, APInt(1, 0), APInt(1, 1), 1)->self->b[0];
}
Bit Core::ult(SVp a, SVp b) {
  if (a == b) return 0; APInt x, y; bool ca = isConst(a, &x), cb = isConst(b, &y); if (ca && cb) return x.ult(y);
  if (cb && umax(a).ult(y)) return 1; if (cb && y.isZero()) return 0;
  if (ca && x.uge(umax(b))) return 0;
  if (cb && y.isOne()) return eq(a, cst(APInt(a->w(), 0)));
  if (ca && x.isZero()) return bnot(eq(b, a));
  if (Node *n = asNode(a)) if (n->op == N_LIN && n->lo == 1 && n->args.size() <= 12) { // a is a sum without overflow of which b is a part: a >= b
      uint32_t w = a->w(); map<uint32_t, pair<SVp, APInt>> ma, mb; APInt c1(w, 0), c2(w, 0); linTerms(a, APInt(w, 1), ma, c1); linTerms(b, APInt(w, 1), mb, c2); Node *q = asNode(b); bool ge = c1.uge(c2) && (mb.size() <= 1 || (q && q->op == N_LIN && q->lo == 1)); for (auto &x : mb) { auto it = ma.find(x.first); if (it == ma.end() || it->second.second.ult(x.second.second)) { ge = false; break; } } if (ge) return 0; }
  if (tabulable({a, b}, 8)) return tab2(a, b, 1, [](const APInt &x, const APInt &y) { return APInt(1, x.ult(y)); })->b[0];
  // narrow
  uint32_t w = a->w(); while (w > 1 && a->b[w - 1] == b->b[w - 1] ) w--; if (w < a->w()) { a = extract(a, 0, w); b = extract(b, 0, w); }
  return mkNode(N_ULT, 1, {a, b}, {}, APInt(1, 0), APInt(1, 1), 1)->self->b[0];
}
Bit Core::slt(SVp a, SVp b) {
  uint32_t w = a->w(); if (a == b) return 0; APInt x, y; if (isConst(a, &x) && isConst(b, &y)) return x.slt(y);
  if (a->b[w - 1] == b->b[w - 1]) return ult(a, b);
  if (a->b[w - 1] < 2 && b->b[w - 1] < 2) return a->b[w - 1];
  if (isConst(b, &y) && y.isZero()) return a->b[w - 1];
  if (isConst(a, &x) && x.isAllOnes()) return bnot(b->b[w - 1]);
  if (tabulable({a, b}, 8)) return tab2(a, b, 1, [](const APInt &x, const APInt &y) { return APInt(1, x.slt(y)); })->b[0];
  return mkNode(N_SLT, 1, {a, b}, {}, APInt(1, 0), APInt(1, 1), 1)->self->b[0];
}
SVp Core::uf(int id, const string &name, SVp in, uint32_t outw) {
  if (id & 0x1000) { // permutation pair: id and id^0x2000 are inverse
    Node *n = asNode(in); if (n && n->op == N_UF && n->ufid == (id ^ 0x2000) && n->w == in->w()) return n->args[0];
  }
  size_t before = nodes.size();
  Node *n = mkNode(N_UF, outw, {in}, {}, APInt(outw, 0), APInt::getAllOnes(outw), outw, id); if (nodes.size() != before) { n->name = name; ufNodes.push_back(n->id); }
  return n->self;
}

// ------------------------------------------------------------------ evaluation
uint64_t uf_hash64(int id, const uint8_t *in, size_t n, uint64_t ctr) {
  uint64_t h = 0x243f6a8885a308d3ull ^ ((uint64_t)id * 0x9e3779b97f4a7c15ull) ^ mix(ctr + 0x1234567);
  for (size_t i = 0; i < n; i++) h = mix(h ^ in[i]) + 0x9e3779b97f4a7c15ull * (i + 1);
  return mix(h);
}
APInt uf_default(int id, const APInt &in, unsigned outw) {
  size_t n = (in.getBitWidth() + 7) / 8; vector<uint8_t> b(n); for (size_t i = 0; i < n; i++) b[i] = in.extractBitsAsZExtValue(min<unsigned>(8, in.getBitWidth() - 8 * i), 8 * i);
  if (id & 0x1000) { // 128-bit permutation: 4-round Feistel, inverse when 0x2000 set
    int key = id & ~0x2000; uint64_t L, R; memcpy(&L, b.data(), 8); memcpy(&R, b.data() + 8, 8);
    if (!(id & 0x2000)) for (int r = 0; r < 4; r++) { uint64_t t = L ^ uf_hash64(key, (uint8_t *)&R, 8, r); L = R; R = t; }
    else for (int r = 3; r >= 0; r--) { uint64_t t = R ^ uf_hash64(key, (uint8_t *)&L, 8, r); R = L; L = t; }
    uint64_t o[2] = {L, R}; return APInt(128, llvm::ArrayRef<uint64_t>(o, 2));
  }
  vector<uint64_t> o((outw + 63) / 64); for (size_t i = 0; i < o.size(); i++) o[i] = uf_hash64(id, b.data(), n, i);
  return APInt(outw, llvm::ArrayRef<uint64_t>(o));
}
bool Core::evalBit(Model &m, Bit b) { bool r = b & 1; for (auto a : forms[b >> 1]) r ^= evalAtom(m, a); return r; }
bool Core::evalAtom(Model &m, Atom a) {
  if (m.amemo.size() < atoms.size()) m.amemo.resize(atoms.size(), -1);
  if (m.amemo[a] >= 0) return m.amemo[a];
  AtomInfo ai = atoms[a]; bool r;
  if (ai.k == A_WORD) { r = evalNode(m, ai.a)[ai.b]; }
  else { uint64_t ix = 0; auto &sp = spaces[ai.a]; for (size_t i = 0; i < sp.basis.size(); i++) ix |= (uint64_t)evalBit(m, sp.basis[i] << 1) << i; r = spaces[ai.a].rows[ai.b].tt.get(ix); }
  m.amemo[a] = r; return r;
}
APInt Core::eval(Model &m, SVp s) { APInt r(s->w(), 0); for (uint32_t i = 0; i < s->w(); i++) if (evalBit(m, s->b[i])) r.setBit(i); return r; }
APInt Core::evalNode(Model &m, uint32_t id) {
  auto it = m.nmemo.find(id); if (it != m.nmemo.end()) return it->second;
  Node *n = nodes[id].get(); APInt r(n->w, 0);
  auto A = [&](int i) { return eval(m, n->args[i]); };
  switch (n->op) {
  case N_VAR: { auto f = m.fixed.find(id); if (f != m.fixed.end()) { r = f->second; break; }
      if (m.random) { if (n->dom) { r = APInt(n->w, n->lo + mix(m.seed * 1000003 + id) % (n->hi - n->lo + 1)); } else { vector<uint64_t> o((n->w + 63) / 64); for (size_t i = 0; i < o.size(); i++) o[i] = mix(m.seed * 7919 + id * 131 + i); r = APInt(n->w, llvm::ArrayRef<uint64_t>(o)); } }
      else if (n->dom) r = APInt(n->w, n->lo); break; }
  case N_LIN: r = n->cst; for (size_t i = 0; i < n->args.size(); i++) r += A(i) * n->coef[i]; break;
  case N_MUL: r = A(0) * A(1); break;
  case N_UDIV: { APInt y = A(1); r = y.isZero() ? APInt(n->w, 0) : A(0).udiv(y); break; }
  case N_UREM: { APInt y = A(1); r = y.isZero() ? APInt(n->w, 0) : A(0).urem(y); break; }
  case N_SDIV: { APInt y = A(1); r = y.isZero() ? APInt(n->w, 0) : A(0).sdiv(y); break; }
  case N_SREM: { APInt y = A(1); r = y.isZero() ? APInt(n->w, 0) : A(0).srem(y); break; }
  case N_EQ0: r = APInt(1, A(0) == A(1)); break;
  case N_ULT: r = APInt(1, A(0).ult(A(1))); break;
  case N_SLT: r = APInt(1, A(0).slt(A(1))); break;
  case N_UF: { APInt in = A(0); bool found = false; for (auto &u : m.uft) if (u.uf == n->ufid && u.in.getBitWidth() == in.getBitWidth() && u.in == in) { r = u.out; found = true; break; }
      if (!found && (n->ufid & 0x1000)) for (auto &u : m.uft) if (u.uf == (n->ufid ^ 0x2000) && u.out == in) { r = u.in; found = true; break; }
      if (!found) { auto f = m.fixed.find(id); r = f != m.fixed.end() ? f->second : uf_default(n->ufid, in, n->w); m.uft.push_back({n->ufid, in, r}); } break; }
  default: assert(0);
  }
  m.nmemo.emplace(id, r); return r;
}

// ------------------------------------------------------------------ SMT translation
void Core::setCut(bool on) { if (on == cut) return; cut = on; swap(zAtom, zAtom2); swap(zForm, zForm2); swap(zNode, zNode2); swap(zSV, zSV2); }
void Core::clearCut() { bool o = cut; setCut(true); zAtom.clear(); zForm.clear(); zNode.clear(); zSV.clear(); setCut(o); }
z3::expr Core::bitZ(Bit b) { z3::expr e = formZ(b >> 1); return (b & 1) ? !e : e; }
z3::expr Core::formZ(uint32_t f) {
  auto it = zForm.find(f); if (it != zForm.end()) return it->second;
  z3::expr e = z.bool_val(false); bool first = true;
  for (auto a : forms[f]) { z3::expr x = atomZ(a); e = first ? x : z3::expr(z, Z3_mk_xor(z, e, x)); first = false; }
  zForm.emplace(f, e); return e;
}
z3::expr Core::atomZ(Atom a) {
  auto it = zAtom.find(a); if (it != zAtom.end()) return it->second;
  AtomInfo ai = atoms[a]; z3::expr e(z);
  if (ai.k == A_WORD) { Node *n = nodes[ai.a].get(); z3::expr w = nodeZ(ai.a); if (n->op == N_EQ0 || n->op == N_ULT || n->op == N_SLT) e = w; else e = w.extract(ai.b, ai.b) == z.bv_val(1, 1); }
  else {
    auto &sp = spaces[ai.a]; vector<z3::expr> bs; auto basis = sp.basis; for (auto f : basis) bs.push_back(formZ(f));
    const TT tt = spaces[ai.a].rows[ai.b].tt; map<vector<bool>, z3::expr> memo;
    function<z3::expr(const vector<bool> &, int)> rec = [&](const vector<bool> &t, int d) -> z3::expr {
      bool all0 = true, all1 = true; for (bool x : t) { if (x) all0 = false; else all1 = false; } if (all0) return z.bool_val(false); if (all1) return z.bool_val(true);
      auto im = memo.find(t); if (im != memo.end()) return im->second;
      vector<bool> lo(t.begin(), t.begin() + t.size() / 2), hi(t.begin() + t.size() / 2, t.end());
      z3::expr r(z); if (lo == hi) r = rec(lo, d - 1); else r = z3::ite(bs[d - 1], rec(hi, d - 1), rec(lo, d - 1));
      memo.emplace(t, r); return r; };
    vector<bool> t(1ull << tt.d); for (size_t i = 0; i < t.size(); i++) t[i] = tt.get(i); e = rec(t, tt.d);
  }
  zAtom.emplace(a, e); return e;
}
z3::expr Core::toZ(SVp s) {
  auto it = zSV.find(s->id); if (it != zSV.end()) return it->second;
  uint32_t w = s->w(); z3::expr_vector parts(z); uint32_t i = 0; vector<z3::expr> ps;
  while (i < w) {
    Bit b = s->b[i];
    if (b < 2) { uint32_t j = i; string str; while (j < w && s->b[j] < 2) j++; string v; for (uint32_t q = j; q-- > i;) v += s->b[q] ? '1' : '0';
      z3::expr c = z.bv_val(0, j - i); { APInt x(j - i, llvm::StringRef(v), 2); llvm::SmallString<80> ss; x.toStringUnsigned(ss); c = z.bv_val(ss.c_str(), j - i); } ps.push_back(c); i = j; continue; }
    auto &f = forms[b >> 1];
    if (!(b & 1) && f.size() == 1 && atoms[f[0]].k == A_WORD && nodes[atoms[f[0]].a]->op != N_EQ0 && nodes[atoms[f[0]].a]->op != N_ULT && nodes[atoms[f[0]].a]->op != N_SLT) {
      uint32_t nid = atoms[f[0]].a, lo = atoms[f[0]].b, j = i; while (j < w) { Bit x = s->b[j]; if (x < 2 || (x & 1)) break; auto &g = forms[x >> 1]; if (g.size() != 1 || atoms[g[0]].k != A_WORD || atoms[g[0]].a != nid || atoms[g[0]].b != lo + (j - i)) break; j++; }
      z3::expr n = nodeZ(nid); ps.push_back(lo == 0 && j - i == n.get_sort().bv_size() ? n : n.extract(lo + (j - i) - 1, lo)); i = j; continue; }
    ps.push_back(z3::ite(bitZ(b), z.bv_val(1, 1), z.bv_val(0, 1))); i++;
  }
  z3::expr e = ps[0]; for (size_t k = 1; k < ps.size(); k++) e = z3::concat(ps[k], e);
  zSV.emplace(s->id, e); return e;
}
z3::expr Core::nodeZ(uint32_t id) {
  auto it = zNode.find(id); if (it != zNode.end()) return it->second;
  Node *n = nodes[id].get(); z3::expr e(z);
  if (n->op == N_VAR) e = z.bv_const(("v" + to_string(id) + "_" + n->name).c_str(), n->w);
  else if (cut) { uint32_t r = rep(id); string nm = "c" + to_string(r); Node *q = nodes[r].get(); if (q->op == N_VAR) e = nodeZ(r); else if (q->op == N_EQ0 || q->op == N_ULT || q->op == N_SLT) e = z.bool_const(nm.c_str()); else e = z.bv_const(nm.c_str(), n->w); }
  else e = nodeDefZ(id);
  zNode.emplace(id, e); return e;
}
z3::expr Core::nodeDefZ(uint32_t id) {
  Node *n = nodes[id].get(); z3::expr e(z); auto cv = [&](const APInt &x) { llvm::SmallString<80> ss; x.toStringUnsigned(ss); return z.bv_val(ss.c_str(), x.getBitWidth()); };
  switch (n->op) {
  case N_LIN: { bool first = n->cst.isZero(); e = cv(n->cst); for (size_t i = 0; i < n->args.size(); i++) { z3::expr x = toZ(n->args[i]); z3::expr t = n->coef[i].isOne() ? x : n->coef[i].isAllOnes() ? -x : x * cv(n->coef[i]); e = first ? t : e + t; first = false; } break; }
  case N_MUL: e = toZ(n->args[0]) * toZ(n->args[1]); break;
  case N_UDIV: e = z3::udiv(toZ(n->args[0]), toZ(n->args[1])); break;
  case N_UREM: e = z3::urem(toZ(n->args[0]), toZ(n->args[1])); break;
  case N_SDIV: e = toZ(n->args[0]) / toZ(n->args[1]); break;
  case N_SREM: e = z3::srem(toZ(n->args[0]), toZ(n->args[1])); break;
  case N_EQ0: e = toZ(n->args[0]) == toZ(n->args[1]); break;
  case N_ULT: e = z3::ult(toZ(n->args[0]), toZ(n->args[1])); break;
  case N_SLT: e = z3::slt(toZ(n->args[0]), toZ(n->args[1])); break;
  case N_UF: e = z.bv_const(("u" + to_string(id)).c_str(), n->w); break; // congruence constraints are added by the caller
  default: assert(0);
  }
  return e;
}
