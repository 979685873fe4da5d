// Messages of many gigabytes that take four megabytes of memory.
#pragma once
#include <sys/mman.h>
#include <unistd.h>
#include <algorithm>
#include "ops.hpp"
// the same page over and over; the last page can be changed
struct Huge {
  static const size_t PGS = 4 << 20;
  uint8_t* base;
  u64 span;
  Huge(u64 n, u64 seed) {
    int fd = memfd_create("m", 0);
    if (fd < 0 || ftruncate(fd, PGS)) _exit(95);
    Bytes pat = rnd_bytes(seed, PGS);
    if (write(fd, pat.data(), PGS) != (ssize_t)PGS) _exit(95);
    span = (n / PGS + 2) * PGS;
    base = (uint8_t*)mmap((void*)0x200000000000ull, span, PROT_NONE, MAP_PRIVATE | MAP_ANONYMOUS | MAP_NORESERVE | MAP_FIXED, -1, 0);
    for (u64 o = 0; o < span; o += PGS)
      if (mmap(base + o, PGS, PROT_READ | PROT_WRITE, (o + PGS * 2 >= span ? MAP_PRIVATE : MAP_SHARED) | MAP_FIXED, fd, 0) == MAP_FAILED) _exit(95);
    close(fd);
  }
  ~Huge() { munmap(base, span); }
};
