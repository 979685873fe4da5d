#include "host.hpp"
#include <errno.h>
#include <link.h>
#include <fcntl.h>
#include <pthread.h>
#include <signal.h>
#include <sys/mman.h>
#include <sys/time.h>
#include <ucontext.h>
#include <unistd.h>
#include <algorithm>

Run* R = nullptr;
thread_local sigjmp_buf* g_guard = nullptr;
thread_local GuardResult g_guard_res;
thread_local PoisonCfg g_poison;
void (*g_seam_yield)(const char*) = nullptr;
bool (*g_trap)(int, siginfo_t*, void*) = nullptr;
void (*g_trap_off)() = nullptr;
thread_local Rng* g_edel_rng = nullptr;

static const size_t PG = 4096;
static uint8_t* map_fixed(u64 addr, size_t len, int prot) {
  void* p = mmap((void*)addr, len, prot, MAP_PRIVATE | MAP_ANONYMOUS | MAP_NORESERVE | MAP_FIXED_NOREPLACE, -1, 0);
  if (p != (void*)addr) { fprintf(stderr, "sim: cannot map %llx\n", (unsigned long long)addr); _exit(90); }
  return (uint8_t*)p;
}

// ------------------------------------------------------------------ arena
struct SC { size_t count, pages; u64 base; };
static const SC SCS[3] = {{224, 2, 0x100000000000ull}, {32, 34, 0x110000000000ull}, {6, 300, 0x120000000000ull}};
struct SlotState { bool used = false, ro = false, dirty = false; Buf b; };
static std::vector<SlotState> g_slot;
static SlotClass slot_class(size_t s) { return s < SCS[0].count ? SMALL : s < SCS[0].count + SCS[1].count ? MEDIUM : LARGE; }
static uint8_t* slot_base(size_t s) {
  SlotClass c = slot_class(s);
  size_t i = s - (c > 0 ? SCS[0].count : 0) - (c > 1 ? SCS[1].count : 0);
  return (uint8_t*)(SCS[c].base + i * (SCS[c].pages + 1) * PG + PG);
}
void arena_init() {
  for (auto& c : SCS) {
    uint8_t* b = map_fixed(c.base, (c.count * (c.pages + 1) + 1) * PG, PROT_NONE);
    for (size_t i = 0; i < c.count; i++) mprotect(b + i * (c.pages + 1) * PG + PG, c.pages * PG, PROT_READ | PROT_WRITE);
  }
  g_slot.resize(SCS[0].count + SCS[1].count + SCS[2].count);
}
void arena_reset() {
  for (size_t i = 0; i < g_slot.size(); i++) {
    if (g_slot[i].ro) mprotect(slot_base(i), SCS[slot_class(i)].pages * PG, PROT_READ | PROT_WRITE);
    // every run starts from the same memory
    if (g_slot[i].dirty) madvise(slot_base(i), SCS[slot_class(i)].pages * PG, MADV_DONTNEED);
    g_slot[i] = SlotState();
  }
}
size_t slot_count(SlotClass c) { return SCS[c].count; }
size_t slot_bytes(SlotClass c) { return SCS[c].pages * PG; }
SlotClass class_for(size_t len) { return len <= slot_bytes(SMALL) - 128 ? SMALL : len <= slot_bytes(MEDIUM) - 128 ? MEDIUM : LARGE; }
static size_t first_slot(SlotClass c) { return c == SMALL ? 0 : c == MEDIUM ? SCS[0].count : SCS[0].count + SCS[1].count; }
Buf place(size_t want, size_t len, bool end, size_t align, size_t off, uint8_t fill) {
  SlotClass c = class_for(len);
  size_t n = SCS[c].count, s = first_slot(c) + want % n;
  for (size_t k = 0; k < n && g_slot[s].used; k++) s = first_slot(c) + (s + 1 - first_slot(c)) % n;
  if (g_slot[s].used) { fprintf(stderr, "sim: out of slots\n"); _exit(91); }
  SlotState& st = g_slot[s];
  if (st.ro) { mprotect(slot_base(s), SCS[c].pages * PG, PROT_READ | PROT_WRITE); st.ro = false; }
  size_t tot = SCS[c].pages * PG;
  uint8_t* base = slot_base(s);
  Buf b;
  b.slot = (int)s;
  b.len = len;
  b.fill = fill;
  if (!align) align = 1;
  size_t at = end ? (tot - len) / align * align : std::min((off + align - 1) / align * align, (tot - len) / align * align);
  b.p = base + at;
  // canary within 512 bytes on either side
  size_t lo = at > 512 ? at - 512 : 0, hi = std::min(tot, at + len + 512);
  memset(base + lo, fill, hi - lo);
  st.used = st.dirty = true;
  st.b = b;
  return b;
}
void buf_protect(const Buf& b, bool ro) {
  SlotState& st = g_slot[b.slot];
  if (st.ro == ro) return;
  mprotect(slot_base(b.slot), SCS[slot_class(b.slot)].pages * PG, ro ? PROT_READ : PROT_READ | PROT_WRITE);
  st.ro = ro;
}
void arena_protect_at(const void* p, bool ro) {
  for (int c = 0; c < 3; c++) {
    u64 sz = (SCS[c].pages + 1) * PG, x = (u64)p;
    if (x < SCS[c].base + PG || x >= SCS[c].base + SCS[c].count * sz + PG) continue;
    Buf b;
    b.slot = (int)(first_slot((SlotClass)c) + (x - SCS[c].base - 1) / sz);
    if (g_slot[b.slot].used) buf_protect(b, ro);
  }
}
void buf_free(const Buf& b) {
  if (b.slot < 0) return;
  buf_protect(b, false);
  g_slot[b.slot].used = false;
}
std::string buf_check_surroundings(const Buf& b) {
  uint8_t* base = slot_base(b.slot);
  size_t tot = SCS[slot_class(b.slot)].pages * PG, at = b.p - base;
  size_t lo = at > 512 ? at - 512 : 0, hi = std::min(tot, at + b.len + 512);
  for (size_t i = lo; i < at; i++) if (base[i] != b.fill) return fmt("byte %ld before the buffer", (long)(at - i));
  for (size_t i = at + b.len; i < hi; i++) if (base[i] != b.fill) return fmt("byte %ld behind the buffer of %zu", (long)(i - at - b.len), b.len);
  return "";
}

// ------------------------------------------------------------------ heap
static const u64 HS_BASE = 0x130000000000ull, HL_BASE = 0x140000000000ull;
static const size_t HS_N = 512, HS_P = 2, HL_N = 24, HL_P = 520;
struct HBlock { bool live = false, dirty = false; size_t size = 0; uint8_t* p = nullptr; };
static std::vector<HBlock> g_h[2];
static std::vector<int> g_hfree[2];
static HeapCfg g_hc;
static u64 g_hallocs, g_hfailed;
struct HHuge { uint8_t* p; u64 span; };
static std::vector<HHuge> g_hhuge;
static std::string g_herr;
static uint8_t* hbase(int c, int i) { return (uint8_t*)((c ? HL_BASE : HS_BASE) + (u64)i * ((c ? HL_P : HS_P) + 1) * PG + PG); }
static size_t hbytes(int c) { return (c ? HL_P : HS_P) * PG; }
static void heap_init() {
  map_fixed(HS_BASE, (HS_N * (HS_P + 1) + 1) * PG, PROT_NONE);
  map_fixed(HL_BASE, (HL_N * (HL_P + 1) + 1) * PG, PROT_NONE);
  g_h[0].resize(HS_N);
  g_h[1].resize(HL_N);
}
void heap_reset(const HeapCfg& c) {
  if (g_h[0].empty()) heap_init();
  for (int k = 0; k < 2; k++) {
    g_hfree[k].clear();
    for (size_t i = 0; i < g_h[k].size(); i++) {
      if (g_h[k][i].live) mprotect(hbase(k, i), hbytes(k), PROT_NONE);
      if (g_h[k][i].dirty) madvise(hbase(k, i), hbytes(k), MADV_DONTNEED);
      g_h[k][i] = HBlock();
    }
    for (int i = (int)g_h[k].size() - 1; i >= 0; i--) g_hfree[k].push_back(i);
  }
  for (auto& h : g_hhuge) munmap(h.p, h.span);
  g_hhuge.clear();
  g_hc = c;
  g_hallocs = g_hfailed = 0;
  g_herr.clear();
}
HeapCfg& heap_cfg() { return g_hc; }
u64 heap_live() { u64 n = g_hhuge.size(); for (auto& v : g_h) for (auto& b : v) n += b.live; return n; }
u64 heap_allocs() { return g_hallocs; }
u64 heap_failed() { return g_hfailed; }
std::string heap_error() { return g_herr; }
static HBlock* hfind(const void* p, int* ck = nullptr, int* ci = nullptr) {
  for (int k = 0; k < 2; k++) {
    u64 b = k ? HL_BASE : HS_BASE, sz = ((k ? HL_P : HS_P) + 1) * PG, n = k ? HL_N : HS_N;
    if ((u64)p >= b && (u64)p < b + n * sz + PG) {
      u64 i = ((u64)p - b - 1) / sz;
      if (i < n) { if (ck) { *ck = k; *ci = (int)i; } return &g_h[k][i]; }
    }
  }
  return nullptr;
}
size_t heap_block_size(const void* p) { HBlock* b = hfind(p); return b && b->live && b->p == p ? b->size : 0; }
size_t heap_room(const void* p) { HBlock* b = hfind(p); return b && b->live && (const uint8_t*)p >= b->p && (const uint8_t*)p < b->p + b->size ? b->p + b->size - (const uint8_t*)p : 0; }
static const uint8_t HCAN = 0xC5;
static std::string hcheck(int k, int i) {
  HBlock& b = g_h[k][i];
  uint8_t* base = hbase(k, i);
  size_t at = b.p - base, lo = at > 256 ? at - 256 : 0;
  for (size_t j = lo; j < at; j++) if (base[j] != HCAN) return fmt("heap block of %zu bytes: byte %ld before it was overwritten", b.size, (long)(at - j));
  for (size_t j = at + b.size; j < hbytes(k); j++) if (base[j] != HCAN) return fmt("heap block of %zu bytes: byte %ld behind it was overwritten", b.size, (long)(j - at - b.size));
  return "";
}
std::string heap_check() {
  if (!g_herr.empty()) return g_herr;
  for (int k = 0; k < 2; k++) for (size_t i = 0; i < g_h[k].size(); i++) if (g_h[k][i].live) { std::string e = hcheck(k, i); if (!e.empty()) return e; }
  return "";
}
DumpCfg g_dump;
u64 mem_available() {
  FILE* f = fopen("/proc/meminfo", "r");
  char b[200];
  u64 kb = 0;
  while (f && fgets(b, sizeof b, f)) if (!strncmp(b, "MemAvailable:", 13)) kb = strtoull(b + 13, nullptr, 10);
  if (f) fclose(f);
  return kb >> 10;
}
static void* huge_alloc(size_t n) {
  u64 span = (n / PG + 2) * PG, at = 0x180000000000ull;
  for (auto& h : g_hhuge) at = std::max(at, (u64)h.p + h.span + (1 << 20));
  void* b = mmap((void*)at, span, PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS | MAP_NORESERVE | MAP_FIXED_NOREPLACE, -1, 0);
  if (b != (void*)at) _exit(95);
  g_hhuge.push_back({(uint8_t*)b, span});
  return b;
}
static bool huge_free(void* p) {
  for (size_t i = 0; i < g_hhuge.size(); i++)
    if (g_hhuge[i].p == p) { munmap(p, g_hhuge[i].span); g_hhuge.erase(g_hhuge.begin() + i); return true; }
  return false;
}
static void* heap_alloc(size_t n, size_t align) {
  u64 ord = g_hallocs++;
  if (g_hc.fail_all || std::find(g_hc.fail.begin(), g_hc.fail.end(), ord) != g_hc.fail.end()) {
    g_hfailed++;
    if (R) { R->fault("alloc_fail"); R->ev(fmt("heap: allocation %llu of %zu bytes fails", (unsigned long long)ord, n)); }
    return nullptr;
  }
  if (align < 16) align = 16;
  int k = n + align + 64 <= hbytes(0) ? 0 : 1;
  if (g_hc.huge && n + align + 64 > hbytes(1) && align <= 4096) return huge_alloc(n);
  if (n + align + 64 > hbytes(1) || g_hfree[k].empty()) { g_hfailed++; return nullptr; }
  int i;
  if (g_hc.fifo) { i = g_hfree[k].front(); g_hfree[k].erase(g_hfree[k].begin()); }
  else { i = g_hfree[k].back(); g_hfree[k].pop_back(); }
  uint8_t* base = hbase(k, i);
  mprotect(base, hbytes(k), PROT_READ | PROT_WRITE);
  HBlock& b = g_h[k][i];
  b.live = b.dirty = true;
  b.size = n;
  b.p = base + (hbytes(k) - n) / align * align;
  if ((u64)b.p % (2 * align) == 0) b.p -= align;  // aligned as asked, and no more
  size_t at = b.p - base, lo = at > 256 ? at - 256 : 0;
  memset(base + lo, HCAN, hbytes(k) - lo);
  memset(b.p, g_hc.fill, n);
  return b.p;
}
static void heap_free(void* p) {
  if (!p) return;
  if (!g_hhuge.empty() && huge_free(p)) return;
  int k = 0, i = 0;
  HBlock* b = hfind(p, &k, &i);
  if (!b || b->p != p) { if (g_herr.empty()) g_herr = "release of a pointer that was never allocated"; return; }
  if (!b->live) { if (g_herr.empty()) g_herr = "second release of the same block"; return; }
  std::string e = hcheck(k, i);
  if (!e.empty() && g_herr.empty()) g_herr = e;
  b->live = false;
  if (g_dump.on && g_dump.freed.size() < (1 << 20)) g_dump.freed.insert(g_dump.freed.end(), b->p, b->p + b->size);
  memset(b->p, 0xDD, b->size);
  mprotect(hbase(k, i), hbytes(k), PROT_NONE);
  g_hfree[k].push_back(i);
}

// ------------------------------------------------------------------ entropy device
static EntropyCfg g_ec;
static size_t g_eo, g_er, g_ecl;
static Bytes g_edel;
static std::set<int> g_fds;
static u64 g_ecalls, g_stray;
static std::string g_eerr;
static Rng g_erng(0);
void entropy_reset(const EntropyCfg& c) {
  g_ec = c;
  g_eo = g_er = g_ecl = 0;
  g_edel.clear();
  g_fds.clear();
  g_ecalls = 0;
  g_stray = 0;
  g_eerr.clear();
  g_erng = Rng(c.seed ^ 0xE17);
}
const Bytes& entropy_delivered() { return g_edel; }
size_t entropy_open_fds() { return g_fds.size(); }
u64 entropy_calls() { return g_ecalls; }
size_t entropy_script_left() { return (g_ec.read_script.size() - std::min(g_er, g_ec.read_script.size())) + (g_ec.open_script.size() - std::min(g_eo, g_ec.open_script.size())); }
std::string entropy_error() { return g_eerr; }
u64 stray_output() { return g_stray; }
static void seam(const char* w) { if (g_seam_yield) g_seam_yield(w); }
static void ecount() {
  if (++g_ecalls > g_ec.max_calls) { if (g_guard) guard_exit(OC_STUCK, 0, nullptr); _exit(92); }
}
static int errno_of(const std::string& s) {
  if (s == "EINTR") return EINTR;
  if (s == "EIO") return EIO;
  if (s == "EAGAIN") return EAGAIN;
  if (s == "EMFILE") return EMFILE;
  if (s == "ENFILE") return ENFILE;
  if (s == "ENOENT") return ENOENT;
  if (s == "EACCES") return EACCES;
  if (s == "ENOSYS") return ENOSYS;
  return EIO;
}
static bool is_entropy_path(const char* p) { return !strcmp(p, "/dev/urandom") || !strcmp(p, "/dev/random"); }
static int sim_open(const char* path) {
  seam("open");
  ecount();
  if (!is_entropy_path(path)) { if (R) R->ev(std::string("open other ") + path); errno = ENOENT; return -1; }
  std::string s = g_eo < g_ec.open_script.size() ? g_ec.open_script[g_eo] : "ok";
  g_eo++;
  if (s != "ok") {
    if (R) { R->fault("open_" + s); R->ev("entropy: open -> " + s); }
    errno = errno_of(s);
    return -1;
  }
  int fd = g_ec.first_fd;
  while (g_fds.count(fd)) fd++;
  g_fds.insert(fd);
  if (R) R->ev(fmt("entropy: open -> %d", fd));
  return fd;
}
// one delivery of up to n bytes, following the read script
static long deliver(uint8_t* buf, size_t n) {
  std::string s = g_er < g_ec.read_script.size() ? g_ec.read_script[g_er] : "full";
  g_er++;
  size_t k = n;
  if (s.compare(0, 2, "s:") == 0) {
    k = std::min<size_t>(n, strtoull(s.c_str() + 2, 0, 10));
    if (k < n && R) R->fault(k ? "read_short" : "read_zero");
  } else if (s != "full") {
    if (R) { R->fault("read_" + s); R->ev("entropy: read -> " + s); }
    errno = errno_of(s);
    return -1;
  }
  if (k > 1 << 20) k = 1 << 20;
  for (size_t i = 0; i < k; i++) { uint8_t c = (uint8_t)((g_edel_rng ? *g_edel_rng : g_erng).next() >> 24); buf[i] = c; g_edel.push_back(c); }
  if (R) R->ev(fmt("entropy: read(%zu) -> %zu", n, k));
  return (long)k;
}
static long sim_read(int fd, void* buf, size_t n) {
  seam("read");
  ecount();
  if (!g_fds.count(fd)) { if (R) R->ev(fmt("entropy: read of descriptor %d which is not open", fd)); errno = EBADF; return -1; }
  return deliver((uint8_t*)buf, n);
}
static int sim_close(int fd) {
  seam("close");
  ecount();
  if (!g_fds.count(fd)) { if (g_eerr.empty()) g_eerr = fmt("close of descriptor %d which is not open", fd); errno = EBADF; return -1; }
  g_fds.erase(fd);
  std::string s = g_ecl < g_ec.close_script.size() ? g_ec.close_script[g_ecl] : "ok";
  g_ecl++;
  if (R) R->ev("entropy: close -> " + s);
  if (s != "ok") { if (R) R->fault("close_" + s); errno = errno_of(s); return -1; }
  return 0;
}
struct FCookie { int fd; };
static ssize_t fc_read(void* c, char* b, size_t n) { return sim_read(((FCookie*)c)->fd, b, n); }
static int fc_close(void* c) { int r = sim_close(((FCookie*)c)->fd); delete (FCookie*)c; return r; }

// cooperative locks for code that uses them
static std::map<void*, int> g_locks;

extern "C" {
int vs_open(const char* p, int, ...) { return sim_open(p); }
int vs_open64(const char* p, int, ...) { return sim_open(p); }
int vs___open_2(const char* p, int) { return sim_open(p); }
int vs___open64_2(const char* p, int) { return sim_open(p); }
int vs_openat(int, const char* p, int, ...) { return sim_open(p); }
ssize_t vs_read(int fd, void* b, size_t n) { return sim_read(fd, b, n); }
ssize_t vs___read_chk(int fd, void* b, size_t n, size_t bl) { if (n > bl) guard_exit(OC_CRASH, SIGABRT, b); return sim_read(fd, b, n); }
int vs_close(int fd) { return sim_close(fd); }
ssize_t vs_getrandom(void* b, size_t n, unsigned) { seam("getrandom"); ecount(); return deliver((uint8_t*)b, n > 256 ? 256 : n); }
int vs_getentropy(void* b, size_t n) {
  seam("getentropy");
  ecount();
  size_t l = 0;
  while (l < n) { long k = deliver((uint8_t*)b + l, n - l); if (k < 0) { if (errno == EINTR) continue; return -1; } l += k; ecount(); }
  return 0;
}
FILE* vs_fopen(const char* p, const char*) {
  int fd = sim_open(p);
  if (fd < 0) return nullptr;
  cookie_io_functions_t io = {fc_read, nullptr, nullptr, fc_close};
  return fopencookie(new FCookie{fd}, "r", io);
}
FILE* vs_fopen64(const char* p, const char* m) { return vs_fopen(p, m); }
void* vs_malloc(size_t n) { seam("malloc"); return heap_alloc(n, 16); }
void* vs_calloc(size_t a, size_t b) { seam("malloc"); void* p = heap_alloc(a * b, 16); if (p) memset(p, 0, a * b); return p; }
void* vs_realloc(void* p, size_t n) {
  seam("malloc");
  void* q = heap_alloc(n, 16);
  if (q && p) { size_t o = heap_block_size(p); memcpy(q, p, o < n ? o : n); heap_free(p); }
  return q;
}
int vs_posix_memalign(void** r, size_t a, size_t n) { seam("malloc"); void* p = heap_alloc(n, a); if (!p) return ENOMEM; *r = p; return 0; }
void* vs_aligned_alloc(size_t a, size_t n) { seam("malloc"); void* p = heap_alloc(n, a); if (!p) errno = ENOMEM; return p; }
void* vs_memalign(size_t a, size_t n) { return vs_aligned_alloc(a, n); }
void vs_free(void* p) { seam("free"); heap_free(p); }
void vs_abort(void) { guard_exit(OC_ABORT, SIGABRT, nullptr); }
void vs_exit(int) { guard_exit(OC_EXIT, 0, nullptr); }
void vs__exit(int) { guard_exit(OC_EXIT, 0, nullptr); }
void vs___assert_fail(const char*, const char*, unsigned, const char*) { guard_exit(OC_ABORT, SIGABRT, nullptr); }
int vs_raise(int s) { guard_exit(OC_ABORT, s, nullptr); }
int vs_printf(const char*, ...) { g_stray++; return 0; }
int vs___printf_chk(int, const char*, ...) { g_stray++; return 0; }
int vs_puts(const char*) { g_stray++; return 0; }
int vs_putchar(int c) { g_stray++; return c; }
void vs_perror(const char*) { g_stray++; }
int vs_fprintf(FILE* f, const char* s, ...) {
  if (f == stdout || f == stderr) { g_stray++; return 0; }
  va_list ap; va_start(ap, s); int r = vfprintf(f, s, ap); va_end(ap); return r;
}
int vs___fprintf_chk(FILE* f, int, const char* s, ...) {
  if (f == stdout || f == stderr) { g_stray++; return 0; }
  va_list ap; va_start(ap, s); int r = vfprintf(f, s, ap); va_end(ap); return r;
}
// ambient nondeterminism
static u64 g_amb = 1;
int vs_rand(void) { return (int)(mix64(g_amb++) >> 33); }
void vs_srand(unsigned s) { g_amb = s; }
long vs_random(void) { return (long)(mix64(g_amb++) >> 33); }
void vs_srandom(unsigned s) { g_amb = s; }
time_t vs_time(time_t* t) { time_t v = 1700000000; if (t) *t = v; return v; }
clock_t vs_clock(void) { return (clock_t)g_amb++; }
int vs_gettimeofday(struct timeval* tv, void*) { tv->tv_sec = 1700000000; tv->tv_usec = (long)(g_amb++ % 1000000); return 0; }
int vs_clock_gettime(clockid_t, struct timespec* ts) { ts->tv_sec = 1700000000; ts->tv_nsec = (long)(g_amb++ % 1000000000); return 0; }
int vs_usleep(unsigned) { seam("sleep"); ecount(); return 0; }
unsigned vs_sleep(unsigned) { seam("sleep"); ecount(); return 0; }
int vs_nanosleep(const struct timespec*, struct timespec*) { seam("sleep"); ecount(); return 0; }
int vs_sched_yield(void) { seam("yield"); return 0; }
int vs_poll(void*, unsigned long, int) { seam("poll"); ecount(); return 1; }
// locks
int vs_pthread_mutex_lock(void* m) {
  for (u64 k = 0; g_locks[m]; k++) { seam("lock"); if (!g_seam_yield || k > 2000000) guard_exit(OC_STUCK, 0, nullptr); }
  g_locks[m] = 1;
  return 0;
}
int vs_pthread_mutex_trylock(void* m) { if (g_locks[m]) return EBUSY; g_locks[m] = 1; return 0; }
int vs_pthread_mutex_unlock(void* m) { g_locks[m] = 0; seam("unlock"); return 0; }
int vs_pthread_once(void* o, void (*f)(void)) {
  int& s = g_locks[o];
  if (s == 2) return 0;
  for (u64 k = 0; s == 1; k++) { seam("once"); if (!g_seam_yield || k > 2000000) guard_exit(OC_STUCK, 0, nullptr); if (g_locks[o] == 2) return 0; }
  g_locks[o] = 1;
  f();
  g_locks[o] = 2;
  return 0;
}
}

// ------------------------------------------------------------------ library statics
extern "C" {
#ifdef CONC
// whole pages in front of and behind the statics of the library
__attribute__((section("libdata"), used, aligned(4096))) char vs_anchor_data[4096] = {1};
__attribute__((section("libbss"), used, aligned(4096))) char vs_anchor_bss[4096] = {1};
#else
__attribute__((section("libdata"), used)) long vs_anchor_data = 1;
__attribute__((section("libbss"), used)) long vs_anchor_bss = 0;
#endif
extern char __start_libdata[], __stop_libdata[], __start_libbss[], __stop_libbss[];
}
static std::vector<char> g_img[2];
void libstate_snapshot() {
  g_img[0].assign(__start_libdata, __stop_libdata);
  g_img[1].assign(__start_libbss, __stop_libbss);
}
void libstate_restore() {
  if (g_trap_off) g_trap_off();
  memcpy(__start_libdata, g_img[0].data(), g_img[0].size());
  memcpy(__start_libbss, g_img[1].data(), g_img[1].size());
  g_locks.clear();
  g_amb = 1;
}
std::vector<std::pair<const uint8_t*, size_t>> lib_memory() {
  std::vector<std::pair<const uint8_t*, size_t>> r = {{(const uint8_t*)__start_libdata, (size_t)(__stop_libdata - __start_libdata)}, {(const uint8_t*)__start_libbss, (size_t)(__stop_libbss - __start_libbss)}};
  static size_t tls = [] {
    size_t n = 0;
    dl_iterate_phdr([](struct dl_phdr_info* i, size_t, void* a) {
      if (!i->dlpi_name[0]) for (int k = 0; k < i->dlpi_phnum; k++) if (i->dlpi_phdr[k].p_type == PT_TLS) *(size_t*)a = (i->dlpi_phdr[k].p_memsz + 63) & ~63ul;
      return 0;
    }, &n);
    return n;
  }();
  const uint8_t* fs;
  __asm__("mov %%fs:0,%0" : "=r"(fs));
  if (tls) r.push_back({fs - tls, tls});
  return r;
}
size_t libstate_size() { return g_img[0].size() + g_img[1].size() - 2 * sizeof(long); }
bool libstate_contains(const void* a) {
  return ((const char*)a >= __start_libdata && (const char*)a < __stop_libdata) || ((const char*)a >= __start_libbss && (const char*)a < __stop_libbss);
}
u64 libstate_hash() {
  u64 h = hash_bytes(__start_libdata, __stop_libdata - __start_libdata);
  return hash_bytes(__start_libbss, __stop_libbss - __start_libbss, h);
}

// ------------------------------------------------------------------ guarded execution
std::string describe_addr(const void* a) {
  u64 x = (u64)a;
  for (int c = 0; c < 3; c++) {
    u64 sz = (SCS[c].pages + 1) * PG, end = SCS[c].base + SCS[c].count * sz + PG;
    if (x >= SCS[c].base && x < end) {
      u64 o = (x - SCS[c].base) % sz;
      u64 i = (x - SCS[c].base) / sz;
      size_t fs = first_slot((SlotClass)c);
      if (o < PG) {
        std::string r = "guard page";
        if (i < SCS[c].count && g_slot[fs + i].used) r += fmt(" (%ld before a buffer)", (long)((u64)g_slot[fs + i].b.p - x));
        if (i > 0 && g_slot[fs + i - 1].used) r += fmt(" (%ld behind the end of a buffer of %zu)", (long)(x - (u64)g_slot[fs + i - 1].b.p - g_slot[fs + i - 1].b.len), g_slot[fs + i - 1].b.len);
        return r;
      }
      return g_slot[fs + i].ro ? "read-only input buffer" : "buffer";
    }
  }
  if (x >= HS_BASE && x < HL_BASE + HL_N * (HL_P + 1) * PG + PG) return "heap (released block or guard)";
  if (x < 65536) return "null page";
  return "other address";
}
std::string GuardResult::text() const {
  switch (oc) {
    case OC_OK: return "ok";
    case OC_CRASH: return fmt("signal %d at %s", sig, describe_addr(addr).c_str());
    case OC_ABORT: return "abort";
    case OC_EXIT: return "exit";
    case OC_STUCK: return "no progress";
    case OC_ABANDON: return "abandoned";
    case OC_ABI: {
      std::string t = "changed registers that belong to the caller:";
      static const char* N[] = {"rbx", "r12", "r13", "r14", "r15", "rbp", "direction flag", "mxcsr", "x87"};
      for (int i = 0; i < 9; i++) if (sig >> i & 1) t += std::string(" ") + N[i];
      return t;
    }
  }
  return "?";
}
void guard_exit(Outcome oc, int sig, void* addr) {
  if (!g_guard) { fprintf(stderr, "sim: guard_exit(%d) outside a guarded call\n", oc); _exit(93); }
  g_guard_res = GuardResult{oc, sig, addr};
  siglongjmp(*g_guard, 1);
}
static volatile sig_atomic_t g_alarm_stage = 0;
static void on_signal(int sig, siginfo_t* si, void* uc) {
  if (g_trap && g_trap(sig, si, uc)) return;
  if (g_guard) {
    g_guard_res = GuardResult{sig == SIGALRM ? OC_STUCK : OC_CRASH, sig == SIGALRM ? 0 : sig, sig == SIGALRM ? nullptr : si->si_addr};
    siglongjmp(*g_guard, 1);
  }
  char m[120];
  int n = snprintf(m, sizeof m, "sim: signal %d (%d) at %p outside a guarded call, pc %llx\n", sig, si->si_code, si->si_addr, (unsigned long long)((ucontext_t*)uc)->uc_mcontext.gregs[REG_RIP]);
  if (write(2, m, n)) {}
  _exit(94);
}
#ifdef CONC
// calls may be nested in the handlers: room for several of them, at fixed places
void host_thread_signals(int idx) {
  static std::map<int, void*> m;
  const size_t SZ = 4 << 20;
  if (!m.count(idx)) m[idx] = map_fixed(0x15c000000000ull + (u64)idx * 2 * SZ, SZ, PROT_READ | PROT_WRITE);
  stack_t ss;
  memset(&ss, 0, sizeof ss);
  ss.ss_sp = m[idx];
  ss.ss_size = SZ;
  sigaltstack(&ss, nullptr);
}
#else
void host_thread_signals(int) {
  static thread_local char* alt = nullptr;
  if (!alt) {
    alt = (char*)malloc(64 * 1024);
    stack_t ss;
    memset(&ss, 0, sizeof ss);
    ss.ss_sp = alt;
    ss.ss_size = 64 * 1024;
    sigaltstack(&ss, nullptr);
    struct Free { char* p; ~Free() { stack_t d; memset(&d, 0, sizeof d); d.ss_flags = SS_DISABLE; sigaltstack(&d, nullptr); free(p); alt = nullptr; } };
    static thread_local Free fr{alt};
    (void)fr;
  }
}
#endif
void host_signals_init() {
  struct sigaction sa;
  memset(&sa, 0, sizeof sa);
  sa.sa_sigaction = on_signal;
  sa.sa_flags = SA_SIGINFO | SA_ONSTACK | SA_NODEFER;
  for (int s : {SIGSEGV, SIGBUS, SIGILL, SIGFPE, SIGABRT, SIGTRAP, SIGALRM}) sigaction(s, &sa, nullptr);
  sigset_t m;
  sigemptyset(&m);
  sigaddset(&m, SIGALRM);
  pthread_sigmask(SIG_BLOCK, &m, nullptr);
}

// ------------------------------------------------------------------ raw calls
extern "C" { unsigned vs_flags = 0x202; }
extern "C" u64 vs_tramp(void* fn, long n, const u64* a, const void* ymm, unsigned* abi);
__asm__(
    ".text\n.globl vs_tramp\n.type vs_tramp,@function\nvs_tramp:\n"
    "push %rbp\n mov %rsp,%rbp\n push %rbx\n push %r12\n push %r13\n push %r14\n push %r15\n sub $40,%rsp\n"
    "mov %rdi,%rax\n mov %rdx,%r10\n mov %rcx,%r11\n"
    // stack arguments 6..7
    "sub $16,%rsp\n"
    "cmp $7,%rsi\n jl 1f\n mov 48(%r10),%rbx\n mov %rbx,0(%rsp)\n"
    "1: cmp $8,%rsi\n jl 2f\n mov 56(%r10),%rbx\n mov %rbx,8(%rsp)\n"
    "2:\n"
    "mov %r11,16(%rsp)\n mov %r8,32(%rsp)\n stmxcsr 24(%rsp)\n"
    "vmovdqu 0(%r11),%ymm0\n vmovdqu 32(%r11),%ymm1\n vmovdqu 64(%r11),%ymm2\n vmovdqu 96(%r11),%ymm3\n"
    "vmovdqu 0(%r11),%ymm4\n vmovdqu 32(%r11),%ymm5\n vmovdqu 64(%r11),%ymm6\n vmovdqu 96(%r11),%ymm7\n"
    "vmovdqu 0(%r11),%ymm8\n vmovdqu 32(%r11),%ymm9\n vmovdqu 64(%r11),%ymm10\n vmovdqu 96(%r11),%ymm11\n"
    "vmovdqu 0(%r11),%ymm12\n vmovdqu 32(%r11),%ymm13\n vmovdqu 64(%r11),%ymm14\n vmovdqu 96(%r11),%ymm15\n"
    "mov 0(%r11),%rbx\n mov 8(%r11),%r12\n mov 16(%r11),%r13\n mov 24(%r11),%r14\n mov 32(%r11),%r15\n"
    "mov 0(%r10),%rdi\n mov 8(%r10),%rsi\n mov 16(%r10),%rdx\n mov 24(%r10),%rcx\n mov 32(%r10),%r8\n mov 40(%r10),%r9\n"
    "mov 56(%r11),%r10\n"
    // CF, OF, SF, ZF from the pattern
    "push %r10\n andl $0x8D5,(%rsp)\n push %r9\n mov vs_flags(%rip),%r9d\n or %r9d,8(%rsp)\n pop %r9\n movl $0,4(%rsp)\n popfq\n"
    "mov 40(%r11),%r11\n"
    "call *%rax\n.globl vs_tramp_ret\nvs_tramp_ret:\n"
    "vzeroupper\n"
    // registers the caller keeps, direction flag, vector control word
    "pushfq\n pop %r10\n cld\n xor %r9d,%r9d\n mov 16(%rsp),%r11\n"
    "cmp %rbx,0(%r11)\n je 3f\n or $1,%r9d\n"
    "3: cmp %r12,8(%r11)\n je 3f\n or $2,%r9d\n"
    "3: cmp %r13,16(%r11)\n je 3f\n or $4,%r9d\n"
    "3: cmp %r14,24(%r11)\n je 3f\n or $8,%r9d\n"
    "3: cmp %r15,32(%r11)\n je 3f\n or $16,%r9d\n"
    "3: lea 96(%rsp),%r11\n cmp %rbp,%r11\n je 3f\n or $32,%r9d\n mov %r11,%rbp\n"
    "3: test $0x400,%r10d\n jz 3f\n or $64,%r9d\n"
    "3: stmxcsr 28(%rsp)\n mov 28(%rsp),%r10d\n xor 24(%rsp),%r10d\n and $0xffc0,%r10d\n jz 3f\n or $128,%r9d\n ldmxcsr 24(%rsp)\n"
    // x87: control word as it was, no register in use (MMX included)
    "3: fnstenv -64(%rsp)\n fldenv -64(%rsp)\n cmpw $0xffff,-56(%rsp)\n jne 4f\n cmpw $0x37f,-64(%rsp)\n je 3f\n4: or $256,%r9d\n fninit\n"
    "3: mov 32(%rsp),%r11\n or %r9d,(%r11)\n"
    "lea -40(%rbp),%rsp\n pop %r15\n pop %r14\n pop %r13\n pop %r12\n pop %rbx\n pop %rbp\n ret\n"
    ".size vs_tramp,.-vs_tramp\n");
static __attribute__((noinline)) void fill_stack(u64 seed, size_t n) {
  volatile uint8_t* p = (volatile uint8_t*)__builtin_alloca(n);
  u64 mode = seed & 3;
  if (mode == 0) memset((void*)p, 0, n);
  else if (mode == 1) memset((void*)p, 0xff, n);
  else { u64 s = seed; for (size_t i = 0; i + 8 <= n; i += 8) { s = s * 6364136223846793005ull + 1442695040888963407ull; *(volatile u64*)(p + i) = s; } }
  __asm__ volatile("" : : "r"(p) : "memory");  // (or the fill is dropped: nothing reads it here)
}
thread_local unsigned g_abi;
u64 lib_callv(void* fn, int n, const u64* a) {
  u64 av[8] = {0};
  for (int i = 0; i < n && i < 8; i++) av[i] = a[i];
  u64 y[16];
  u64 s = g_poison.on ? g_poison.seed : 0;
  if (g_poison.on) {
    for (int i = 0; i < 16; i++) y[i] = (s & 3) == 0 ? 0 : (s & 3) == 1 ? ~0ull : mix64(s + i);
    fill_stack(s, g_poison.stack);
    g_poison.seed = mix64(s + 77);
  } else memset(y, 0, sizeof y);
  unsigned bad = 0;
  u64 ret = vs_tramp(fn, n, av, y, &bad);
  if (g_dump.on) {
    // (no call here: it would write to what is copied)
    uint8_t* d = g_dump.buf;
    size_t k = g_dump.n;
    __asm__ volatile("lea -128(%%rsp),%%rsi\n sub %2,%%rsi\n mov %2,%%rcx\n mov %0,%%rdi\n rep movsb" : : "r"(d), "r"(0ul), "r"(k) : "rsi", "rcx", "rdi", "memory");
  }
  if (bad) g_abi |= bad;
  return ret;
}

// ------------------------------------------------------------------ threads
static const u64 STK_BASE = 0x150000000000ull;
static const size_t STK_SZ = 1 << 20;
void* stack_for(int idx, size_t* size) {
  static std::map<int, void*> m;
  if (!m.count(idx)) {
    uint8_t* b = map_fixed(STK_BASE + (u64)idx * (STK_SZ + 64 * PG), STK_SZ + 64 * PG, PROT_NONE);
    mprotect(b + 64 * PG, STK_SZ, PROT_READ | PROT_WRITE);
    m[idx] = b + 64 * PG;
  }
  *size = STK_SZ;
  return m[idx];
}
struct FT { const std::function<void()>* f; int idx; bool bad; Viol v; };
static void* ft_main(void* a) {
  FT* t = (FT*)a;
  host_thread_signals(t->idx);
  sigset_t m;
  sigemptyset(&m);
  sigaddset(&m, SIGALRM);
  pthread_sigmask(SIG_UNBLOCK, &m, nullptr);
  try { (*t->f)(); } catch (Viol& v) { t->bad = true; t->v = v; }
  return nullptr;
}
void on_fresh_thread(const std::function<void()>& f, int idx) {
  FT t{&f, idx, false, {}};
  pthread_attr_t at;
  pthread_attr_init(&at);
  size_t sz;
  void* st = stack_for(idx, &sz);
  madvise(st, sz, MADV_DONTNEED);
  pthread_attr_setstack(&at, st, sz);
  pthread_t th;
  if (pthread_create(&th, &at, ft_main, &t)) { fprintf(stderr, "sim: pthread_create\n"); _exit(95); }
  pthread_join(th, nullptr);
  pthread_attr_destroy(&at);
  if (t.bad) throw t.v;
}
