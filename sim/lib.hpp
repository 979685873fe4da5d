// The builds of the library linked into the simulator.
#pragma once
#include <faz_eddsa_avx2.h>
#include <faz_ecdh_avx2.h>
#include <faz_fp_avx2.h>
extern "C" {
#include <sha3.h>
#include <sha512.h>
}
struct PointBytes { uint8_t b[64]; };
struct Lib {
  const char* name;
  const faz::eddsa::_struct_Ed255* e255;
  const faz::eddsa::_struct_Ed448* e448;
  const faz::ecdh::X_ECDH* x[3];           // avx2, x64, 448
  const faz::fp::PrimeField* fp[2];        // 25519, 448
  void (*h2c[2])(void*, uint8_t*, size_t); // x64, avx2
  void (*h2f)(uint64_t*, uint8_t, uint8_t*, size_t);
  void (*h2f2)(uint64_t*, uint64_t*, uint8_t*, size_t);
  int (*oncurve)(void*);
  int (*areeq)(void*, void*);
  void (*printpt)(FILE*, void*);
  void (*s384_init)(void*);
  void (*s384)(void*, const void*, size_t);
  void (*s384_close)(void*, void*);
  void (*s384_bits)(void*, unsigned, unsigned, void*);
  void (*s512_init)(void*);
  void (*s512_close)(void*, void*);
  void (*s512_bits)(void*, unsigned, unsigned, void*);
  HashReturn (*k_init)(hashState*, int);
  HashReturn (*k_update)(hashState*, const BitSequence*, DataLength);
  HashReturn (*k_final)(hashState*, BitSequence*);
  HashReturn (*k_final2)(hashState*, BitSequence*, unsigned);
  HashReturn (*k_hash)(int, const BitSequence*, DataLength, BitSequence*);
  HashReturn (*k_shake128)(const BitSequence*, DataLength, BitSequence*, unsigned);
  HashReturn (*k_shake256)(const BitSequence*, DataLength, BitSequence*, unsigned);
  void (*sha2w)(uint8_t**, size_t, uint8_t**);
  void (*sha2w_256)(uint8_t**, uint8_t**);  // of 32 bytes; in no header, may be null
  void (*s384_comp)(const sph_u64*, sph_u64*);
  void (*m2c)(void*, uint64_t*);       // one point of the extended kind
  void (*m2c2)(void*, void*);          // two, in lanes
  void (*fadd)(void*, void*, void*);
};
extern const Lib* g_libs[4];
extern int g_nlibs;
