// Inputs whose hashes, as scalars, look as random ones almost never do: long
// runs of zeros or ones, zero or extreme signed digits in a row, groups of
// digits that are all zero, high or low bytes of zero, few or many ones.
// Found by an offline search over about 10^9 seeds (tools/aim.cpp).
//   k: private keys           r:<seed>:32 / r:<seed>:57
//   n: messages (the nonce)   r:<seed>:16 signed with key r:1, variant 0 / 1,
//                             context empty
//   h: messages (the hash of the commitment, the key and the message)
//                             r:<seed>:16 verified under the same key, with the
//                             commitment of the empty message
#pragma once
#include "core.hpp"
static const u64 aimed_k5[] = {
  0x21b1fe6de, 0x210c09c88, 0x201221153, 0x20b5fe186, 0x203cbc7b6, 0x200a160f8, 0x20dfabf28, 0x20748faac,
  0x20fe31c73, 0x20fb5ee9e, 0x20a70dc85, 0x207813eb3, 0x2136a0bef, 0x21193840f, 0x217b86c68, 0x2031f7495,
  0x20fead4e8, 0x2073a5057, 0x200000014, 0x20000000e, 0x200000007, 0x200000005, 0x200000002, 0x200000001,
  0x20c8c2bb3, 0x20b052b20, 0x20a784920, 0x206fa4f04, 0x202373221, 0x20048e2a9, 0x21222aed1, 0x2075a647f,
  0x201e4784c, 0x20619a935, 0x20502acc9, 0x204392f0a, 0x2140dce11, 0x20e18de8b, 0x217e7576f, 0x205dd9f32,
  0x21c97c5c6, 0x20f7784de, 0x21b67d828, 0x20fbb042e, 0x212dea78a, 0x2106b0937, 0x205fc447c, 0x20f5d21ff,
  0x217e7b868, 0x211008852, 0x206cb6417, 0x2037a0959, 0x201d2ddf4, 0x20f2f34e4, 0x21a9ba86e, 0x219a6c363,
  0x21514350b, 0x214d545f6, 0x2027a52c8, 0x207fa7ef3, 0x21aaff532, 0x211e035b7, 0x211763ea5, 0x20a9400fe,
  0x2002ffff5, 0x2002d6587, 0x20782bccd, 0x20cb54062, 0x20c90e661, 0x209d43c15, 0x2089d03b1, 0x200f00678,
  0x218afd195, 0x20a7d3e7d, 0x207d22ff6, 0x204f5a476, 0x200e4e6bf};
static const u64 aimed_n5[] = {
  0x216d2480b, 0x210a2f3db, 0x216c6d7c4, 0x21516c032, 0x213f2e744, 0x21029fe6d, 0x20dcad801, 0x2005ddb46,
  0x200119cea, 0x206ab4b71, 0x2066ce601, 0x2024e4d58, 0x217e4d55f, 0x202255d6c, 0x214ed847a, 0x211c8b126,
  0x20f6013f2, 0x20b2010cf, 0x20bdf973f, 0x2118b1b20, 0x2153582cb, 0x20cedd5f6, 0x209ad0a14, 0x207e546b6,
  0x202280636, 0x21c4bdc64, 0x21dff1914, 0x210d8bec9, 0x2108e2d8a, 0x20ee16a43, 0x201acef2c, 0x205618017,
  0x2056abfb7, 0x204a13dc6, 0x203a5c7ce, 0x201cf5e12, 0x2007d11c8, 0x201e62473, 0x2123b2069, 0x216095ac3,
  0x20a2934db, 0x2079bf1c1, 0x2024db635, 0x208564fd2, 0x21068fc9e, 0x2167b8eb6, 0x20fd96b79, 0x210ae6141,
  0x20f02404a, 0x2100ce177, 0x21d4d1770, 0x21bf4c9e2, 0x201138ebb, 0x21231648b, 0x20d9b3c9d, 0x2169c18df,
  0x219987876, 0x20af805b9, 0x20ee7c5c2, 0x20aecba9e, 0x205eb8b5c, 0x21bfe3f33, 0x2064caf6d, 0x202dfcbb4,
  0x200351fba, 0x200238f3a, 0x20017a586, 0x21b778518, 0x21d8219ac, 0x21627ac2b, 0x20f1e0270, 0x21b28665f,
  0x217bb5bfd, 0x2034fddcc, 0x2127c2ef6, 0x20d8de56b, 0x20b0245fa, 0x208fec3c0};
static const u64 aimed_h5[] = {
  0x205c13904, 0x215ee17b7, 0x2054b1655, 0x2167027cd, 0x20f48af0d, 0x20dd61b37, 0x20815f4b7, 0x2188f3be3,
  0x202c3f322, 0x21eb56f09, 0x21950eea1, 0x218f325a7, 0x20c59026b, 0x2133f7258, 0x2103fd63e, 0x20e9671a6,
  0x20cdbb31f, 0x200b2f15c, 0x20505df73, 0x214c99c67, 0x20e4351e9, 0x20f550a55, 0x20d4642fa, 0x20b54d43d,
  0x206897dde, 0x2048e4033, 0x21039fca6, 0x2054ad6d2, 0x2053fae2a, 0x2049dac38, 0x202ece826, 0x215b25377,
  0x21497109c, 0x21277ad15, 0x20e8834a3, 0x209eebb24, 0x205eda0da, 0x20f7c1164, 0x20995ba5b, 0x200bd085d,
  0x21a2b5742, 0x210af6808, 0x2097341cf, 0x2159cbfb3, 0x218bbd5fe, 0x2027fa73d, 0x2089435d2, 0x203232c68,
  0x200d913ae, 0x21d8eb937, 0x2139d0d08, 0x2090549cf, 0x207a90131, 0x201140890, 0x20d47fee6, 0x21701b5c8,
  0x20e7d9f2e, 0x20d676d3f, 0x2087283c9, 0x204f6b301, 0x200fd9cc4, 0x214701bdc, 0x200c190b9, 0x200337e9a,
  0x2002af224, 0x200293892, 0x20028c7c5, 0x21dda9ac9, 0x219776705, 0x21038c5d2, 0x208d0c58f, 0x207cb6ea1,
  0x20b310d83, 0x21496d4bb, 0x208389da8, 0x206898f6e};
static const u64 aimed_k4[] = {
  0x20f58062f, 0x20a78eb1b, 0x201a16e5c, 0x2008c820e, 0x20f44c14a, 0x2095ded9d, 0x20968481f, 0x20879fbe3,
  0x201fcc210, 0x2012797ad, 0x20f89db94, 0x20e95d38b, 0x200000006, 0x200000005, 0x200000004, 0x200000003,
  0x200000002, 0x200000001, 0x20e1bcfe3, 0x20e0126f3, 0x20c323d1d, 0x202e4dcf7, 0x205251f88, 0x208620ae7,
  0x2054903c8, 0x205c06e13, 0x20ddc1203, 0x20b8c83ab, 0x20a52ea48, 0x2084f29a4, 0x2077f2ef3, 0x2022e85d8,
  0x201bd55c2, 0x201b74ecf, 0x200e3e0e1, 0x200703f55, 0x2100bcf17, 0x20cd83510, 0x2130223f3, 0x2113958f2,
  0x205bef2c5, 0x20c4600a6, 0x210356b21, 0x204df4436, 0x20bc45b2e, 0x205b40330, 0x20060bb19, 0x209a279f7,
  0x212bda441, 0x20afdaaf5, 0x207865553, 0x2064a86c1, 0x20f32c8aa, 0x207e864f1, 0x2123e5241, 0x20f1204d9,
  0x21261ef79, 0x21115b0c4, 0x20200689d, 0x20147e4a7, 0x2110b3591, 0x20dc75682, 0x2000eafb7, 0x2000e929c,
  0x2000e334c, 0x20009ecbc, 0x211c58869, 0x20b4048d8, 0x2139a3155, 0x209c45952, 0x2071c97cb, 0x2059e4c3c,
  0x2013d0141};
static const u64 aimed_n4[] = {
  0x2019765b2, 0x20f577472, 0x20a4eb322, 0x201c1f2e6, 0x2085af3e4, 0x2065847e4, 0x20b561eeb, 0x20f680546,
  0x20b0d32dd, 0x21029e40e, 0x205d0dbd9, 0x2015adb3e, 0x20e4ce42c, 0x209b58549, 0x200250b9c, 0x20d29cf98,
  0x20b527da8, 0x20b12acb7, 0x2064817f6, 0x208b68034, 0x206722c31, 0x2046e401f, 0x207c1a7d3, 0x20afd7ae5,
  0x2106d6907, 0x20834ed49, 0x206f4aace, 0x206d9fd25, 0x203fa731a, 0x203d54367, 0x20236820c, 0x20218724c,
  0x2014ab7b4, 0x201333ffd, 0x200e4ff8a, 0x20e550402, 0x20facf29e, 0x2072313ce, 0x20001301f, 0x20bd63054,
  0x201eca8be, 0x201ae3b5d, 0x206c4bd1e, 0x20abd840d, 0x2075c07b4, 0x206560b2f, 0x2050d11c2, 0x20d408762,
  0x20e57405e, 0x20eb55024, 0x2086b578b, 0x205d70f41, 0x2043e7682, 0x20f8274ef, 0x20bdb0b09, 0x209156012,
  0x20f5ea959, 0x20f59c698, 0x200d1a262, 0x200146309, 0x2000ffd40, 0x20009a11e, 0x2000780be, 0x20002c844,
  0x20002c82c, 0x20193352b, 0x207f69687, 0x20686cce9, 0x201a88ee1, 0x21023a04a, 0x20d54df77, 0x2067df866,
  0x205abf6ae};
static const u64 aimed_h4[] = {
  0x20bb31bb1, 0x20b9119b8, 0x20b653014, 0x2080985c7, 0x207e0db5f, 0x205834b0e, 0x208083f6e, 0x20a55e9b7,
  0x20dc0f1b9, 0x209f5fcf3, 0x206d08fe0, 0x20a26bfbc, 0x200029cc7, 0x20220f210, 0x20aa73c29, 0x205018cd6,
  0x20367a673, 0x20219a75b, 0x20c0e7443, 0x200b759af, 0x20aea2ccf, 0x20a78e9d5, 0x2082d6125, 0x2038bbeaa,
  0x2094c6eae, 0x207f2a962, 0x2070ae2df, 0x204f7234c, 0x204f6001e, 0x2009784d0, 0x202fa7b69, 0x202d20a78,
  0x20238ab85, 0x201bdd2da, 0x201800165, 0x200ad08b6, 0x20cd163d7, 0x20532ec20, 0x201809777, 0x206e2cdd8,
  0x20b3556e6, 0x209c72d73, 0x202aa9f3e, 0x200e1bd39, 0x20745a466, 0x2029e89c2, 0x208e06e8e, 0x20291cf1e,
  0x209686d2c, 0x209c917cf, 0x2066b7875, 0x202c15674, 0x20b98778c, 0x2029f45f3, 0x20cbf7ee8, 0x205d3ff86,
  0x203dede7e, 0x2006d8622, 0x209865338, 0x20bb3ae30, 0x20a0a30d0, 0x2001a9330, 0x2000cc0eb, 0x200076d5f,
  0x20006bbfa, 0x200065e58, 0x20aec6424, 0x208e7aecd, 0x2094bca77, 0x2080d91fc, 0x207da7abe, 0x20ca672bb,
  0x201196094, 0x20954c99e, 0x208497a65};
template <size_t N> static inline std::string aimed(Rng& r, const u64 (&t)[N], size_t n) { return fmt("r:%llx:%zu", (unsigned long long)t[r.below(N)], n); }
