// Generators and printers of the library, by name.
#include "targets.hpp"
#include "lib.hpp"
using std::string;
extern "C" __attribute__((weak)) void prgn_random_bytes(uint8_t*, size_t);

const std::vector<const char*> RAND_KINDS = {"e25519.pure", "e25519.ctx", "e25519.ph", "e448.ctx", "e448.ph", "x25519", "x25519_x64", "x448",
  "fp25519.1f", "fp25519.1r", "fp25519.2r", "fp25519.4r", "fp448.1f", "fp448.1r", "fp448.2r", "fp448.4r", "prng"};
RandTarget rand_target(const string& k, int lib, size_t n) {
  const Lib* L = g_libs[lib & 3];
  RandTarget t;
  auto key = [&](void (*fn)(uint8_t*), size_t s) { t.fn = (void*)fn; t.obj = t.bytes = s; };
  auto fp = [&](auto& m, size_t obj, size_t lane, int lanes, bool m4) { t.fn = (void*)m.rand; t.ser = (void*)m.ser; t.obj = obj; t.bytes = lane * lanes; t.lane = lane; t.align = 32; t.mod448 = m4; };
  if (k == "e25519.pure") key(L->e255->Pure.randKey, 32);
  else if (k == "e25519.ctx") key(L->e255->Context.randKey, 32);
  else if (k == "e25519.ph") key(L->e255->PreHash.randKey, 32);
  else if (k == "e448.ctx") key(L->e448->PureContext.randKey, 57);
  else if (k == "e448.ph") key(L->e448->PreHash.randKey, 57);
  else if (k == "x25519") key(L->x[0]->randKey, 32);
  else if (k == "x25519_x64") key(L->x[1]->randKey, 32);
  else if (k == "x448") key(L->x[2]->randKey, 56);
  else if (k == "prng") { t.fn = (void*)prgn_random_bytes; t.obj = t.bytes = n; }
  else {
    int f = k.compare(0, 5, "fp448") == 0;
    const auto* F = L->fp[f];
    string e = k.substr(k.find('.') + 1);
    if (e == "1f") fp(F->_1w_full.arith.misc, f ? 56 : 32, f ? 56 : 32, 1, f);
    else if (e == "1r") fp(F->_1w_red.arith.misc, f ? 128 : 96, f ? 56 : 32, 1, f);
    else if (e == "2r") fp(F->_2w_red.arith.misc, f ? 256 : 160, f ? 56 : 32, 2, f);
    else fp(F->_4w_red.arith.misc, f ? 512 : 320, f ? 56 : 32, 4, f);
  }
  return t;
}
const std::vector<const char*> PRINT_KINDS = {"e25519.pure", "e25519.ctx", "e25519.ph", "e448.ctx", "e448.ph",
  "s25519.pure", "s25519.ctx", "s25519.ph", "s448.ctx", "s448.ph", "x25519", "x25519_x64", "x448",
  "fp25519.1f", "fp25519.1r", "fp25519.2r", "fp25519.4r", "fp448.1f", "fp448.1r", "fp448.2r", "fp448.4r", "point"};
Prt printer(const string& k, int lib) {
  const Lib* L = g_libs[lib & 3];
  Prt t;
  auto key = [&](auto& s, bool sig, size_t n) { t.fn = (void*)(sig ? s.printSignature : s.printKey); t.obj = t.lane = n; };
  auto fp = [&](auto& a, size_t obj, int lanes, bool m4, bool raw) {
    t.fn = (void*)a.misc.print; t.unser = (void*)a.misc.unser; t.add = (void*)a.add; t.obj = obj; t.lane = m4 ? 56 : 32; t.lanes = lanes; t.m4 = m4; t.raw = raw;
  };
  string a = k.substr(0, k.find('.')), b = k.find('.') == string::npos ? "" : k.substr(k.find('.') + 1);
  bool sig = k[0] == 's';
  if (a == "e25519" || a == "s25519") { size_t n = sig ? 64 : 32; if (b == "pure") key(L->e255->Pure, sig, n); else if (b == "ctx") key(L->e255->Context, sig, n); else key(L->e255->PreHash, sig, n); }
  else if (a == "e448" || a == "s448") { size_t n = sig ? 114 : 57; if (b == "ctx") key(L->e448->PureContext, sig, n); else key(L->e448->PreHash, sig, n); }
  else if (k[0] == 'x') { int i = k == "x25519" ? 0 : k == "x448" ? 2 : 1; t.fn = (void*)L->x[i]->printKey; t.obj = t.lane = i == 2 ? 56 : 32; }
  else if (k == "point") { t.fn = (void*)L->printpt; t.obj = 64; t.lane = 32; t.lanes = 2; t.point = true; }
  else {
    int f = a == "fp448";
    const auto* F = L->fp[f];
    if (b == "1f") fp(F->_1w_full.arith, f ? 56 : 32, 1, f, true);
    else if (b == "1r") fp(F->_1w_red.arith, f ? 128 : 96, 1, f, false);
    else if (b == "2r") fp(F->_2w_red.arith, f ? 256 : 160, 2, f, false);
    else fp(F->_4w_red.arith, f ? 512 : 320, 4, f, false);
  }
  return t;
}
