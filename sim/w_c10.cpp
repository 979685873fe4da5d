// C10: printing to streams that are slow, buffered in any way, or fail.
#include <errno.h>
#include <algorithm>
#include "targets.hpp"
#include "lib.hpp"
using std::string;

static Plan gen(Rng& r) {
  Plan p;
  int n = (int)r.range(4, 24);
  int ns = (int)r.range(1, 3);
  auto stream = [&](u64 id) {
    Line l("stream");
    l.set("id", id).set("buf", r.pick({"full", "line", "none"})).set("size", r.chance(50) ? r.pickn({1, 2, 3, 7, 16, 64, 65, 128, 4096}) : r.range(1, 300));
    if (r.chance(60)) { string c; for (u64 k = r.range(1, 6); k; k--) c += (c.empty() ? "" : ",") + std::to_string(r.chance(50) ? 1 : r.range(1, 40)); l.set("chunk", c); }
    if (r.chance(45)) {
      l.set("cap", r.below(r.chance(50) ? 80 : 900)).set("err", r.pick({"ENOSPC", "EIO", "EPIPE", "EAGAIN", "EINTR"}));
      if (r.chance(35)) l.set("back", r.range(1, 5));
    }
    // a file that has bytes already, with the caller somewhere in the middle of it
    if (r.chance(40)) l.set("file", r.range(0, 2000)).set("at", r.below(1500));
    return l;
  };
  for (int i = 0; i < ns; i++) p.push_back(stream(i));
  for (int i = 0; i < n; i++) {
    u64 c = r.below(100);
    if (c < 8) p.push_back(stream(r.below(ns)));
    else if (c < 16) p.push_back(Line("flush").set("id", r.below(ns)));
    else if (c < 20) p.push_back(Line("clear").set("id", r.below(ns)));
    else if (c < 24) p.push_back(Line("own").set("id", r.below(ns)).set("n", r.range(1, 70)));
    else {
      Line l("print");
      string k = PRINT_KINDS[r.below(PRINT_KINDS.size())];
      Prt t = printer(k, 0);
      size_t b = t.lane * t.lanes;
      l.set("id", r.below(ns)).set("kind", k);
      u64 m = r.below(10);
      string v;
      if (m < 5) v = fmt("r:%llx:%zu", (unsigned long long)r.below(1 << 30), b);
      else if (m == 5) v = fmt("z:%zu", b);
      else if (m == 6) v = fmt("f:%zu", b);
      else if (m == 7) v = fmt("i:%zu", b);
      else { v = fmt("z:%zu~%llu.%llx", b, (unsigned long long)r.below(b), (unsigned long long)r.range(1, 255)); }
      l.set("v", v);
      if (t.add && !t.raw && r.chance(40)) l.set("plus", fmt("r:%llx:%zu", (unsigned long long)r.below(1 << 30), b));
      l.set("pl", r.below(40));
      if (r.chance(10)) l.set("held", 1);
      if (r.chance(60)) l.set("poison", r.next() >> 8);
      if (g_nlibs > 1 && r.chance(12)) l.set("lib", r.range(1, g_nlibs - 1));
      p.push_back(l);
    }
  }
  return p;
}
struct Strm {
  FILE* f = nullptr;
  std::vector<size_t> chunk;
  size_t ci = 0, cap = ~(size_t)0, back = 0, fails = 0;
  bool failed = false;
  string err, got, want;
  size_t gmark = 0, wmark = 0;  // from here on the stream works again
  bool again() const { return failed && back && fails >= back; }
  char* buf = nullptr;
  // the file under a stream that can be positioned
  bool seekable = false;
  string file, was;  // as it is and as it should be
  size_t pos = 0, at = 0;
  void take(const char* b, size_t n) {
    got.append(b, n);
    if (!seekable) return;
    put(file, pos, b, n);
    put(was, at, b, n);
  }
  static void put(string& f, size_t& at, const char* b, size_t n) {
    if (f.size() < at + n) f.resize(at + n);
    f.replace(at, n, b, n);
    at += n;
  }
};
static int s_seek(void* c, off64_t* o, int wh) {
  Strm& s = *(Strm*)c;
  off64_t n = *o + (wh == SEEK_SET ? 0 : wh == SEEK_CUR ? (off64_t)s.pos : (off64_t)s.file.size());
  if (n < 0) { errno = EINVAL; return -1; }
  s.pos = (size_t)n;
  *o = n;
  return 0;
}
// how often the stream's lock is held
static long locked(FILE* f) {
  struct L { int lock, cnt; void* owner; };
  L* l = (L*)f->_lock;
  return l ? (l->owner ? 1 : 0) + (long)l->cnt * 2 + (l->lock ? 1l << 40 : 0) : 0;
}
static ssize_t s_write(void* c, const char* b, size_t n) {
  Strm& s = *(Strm*)c;
  size_t done = 0;
  while (done < n) {
    size_t k = n - done;
    if (!s.chunk.empty()) { k = std::min(k, s.chunk[s.ci++ % s.chunk.size()]); if (k < n - done) R->fault("write_short"); }
    if (s.got.size() >= s.cap && (s.back == 0 || s.fails < s.back)) {
      s.fails++;
      s.failed = true;
      R->fault("write_" + s.err);
      errno = s.err == "ENOSPC" ? ENOSPC : s.err == "EPIPE" ? EPIPE : s.err == "EAGAIN" ? EAGAIN : s.err == "EINTR" ? EINTR : EIO;
      return (ssize_t)done;
    }
    if (!(s.back && s.fails >= s.back)) k = std::min(k, s.cap - std::min(s.cap, s.got.size()));
    if (!k) continue;
    s.take(b + done, k);
    done += k;
  }
  return (ssize_t)n;
}
static u64 g_other;
static ssize_t o_write(void*, const char*, size_t n) { g_other += n; return (ssize_t)n; }
struct Std {
  FILE *o, *e, *co, *ce;
  Std() {
    cookie_io_functions_t io = {nullptr, o_write, nullptr, nullptr};
    co = fopencookie(nullptr, "w", io);
    ce = fopencookie(nullptr, "w", io);
    setvbuf(co, nullptr, _IONBF, 0);
    setvbuf(ce, nullptr, _IONBF, 0);
    o = stdout; e = stderr;
    stdout = co; stderr = ce;
  }
  ~Std() { stdout = o; stderr = e; fclose(co); fclose(ce); }
};
static void judge(u64 id, Strm& s, bool flushed) {
  string n = fmt("stream %llu", (unsigned long long)id);
  bool whole = s.got == s.want;
  bool prefix = s.want.compare(0, s.got.size(), s.got) == 0;
  auto where = [&] {
    size_t i = 0;
    while (i < s.got.size() && i < s.want.size() && s.got[i] == s.want[i]) i++;
    return fmt(": at byte %zu it has \"%s\" instead of \"%s\"", i, s.got.substr(i, 24).c_str(), s.want.substr(i, 24).c_str());
  };
  if (s.seekable && s.file != s.was) R->fail("misplaced", n + " was given text for the caller's position in the file, and it went elsewhere");
  if (!s.failed) {
    if (!prefix) R->fail("wrong-text", n + " did not get the text of the values" + where());
    if (flushed && !whole) R->fail("wrong-text", n + fmt(" got %zu of %zu bytes without a failure", s.got.size(), s.want.size()) + where());
    if (ferror(s.f)) R->fail("error-flag", n + " has its error indicator set without a failure");
  } else {
    if (s.wmark) {
      string g = s.got.substr(s.gmark), w = s.want.substr(s.wmark);
      if (flushed ? g != w : w.compare(0, g.size(), g) != 0) R->fail("not-again", n + fmt(" works again, but of %zu bytes printed since then it got %zu: ", w.size(), g.size()) + g.substr(0, 40));
    }
    if (s.back == 0 && !prefix) R->fail("wrong-text", n + ": what was accepted before the failure is no prefix of the text" + where());
    if (flushed && !whole && !ferror(s.f)) R->fail("silent-loss", n + " lost output and its error indicator is not set");
  }
}
static void shut(u64 id, Strm& s) {
  if (!s.f) return;
  fflush(s.f);
  judge(id, s, true);
  fclose(s.f);
  s.f = nullptr;
  free(s.buf);
  s.buf = nullptr;
}
struct Streams : std::map<u64, Strm> { ~Streams() { for (auto& s : *this) if (s.second.f) { fclose(s.second.f); free(s.second.buf); } } };
static void exec(const Plan& p) {
  Std std_;
  Streams st;
  g_other = 0;
  for (auto& l : p) {
    u64 id = l.num("id");
    if (l.verb == "stream") {
      Strm& s = st[id];
      shut(id, s);
      s = Strm();
      cookie_io_functions_t io = {nullptr, s_write, nullptr, nullptr};
      if (l.has("at")) {
        s.seekable = true;
        io.seek = s_seek;
        s.file.assign(std::min<u64>(l.num("file"), 65536), '.');
        s.was = s.file;
        s.at = s.pos = std::min<u64>(l.num("at"), s.file.size());
        R->probe("inside_a_file");
      }
      s.f = fopencookie(&s, "w", io);
      size_t n = std::min<u64>(std::max<u64>(1, l.num("size", 64)), 65536);
      s.buf = (char*)malloc(n);
      string b = l.get("buf", "full");
      setvbuf(s.f, b == "none" ? nullptr : s.buf, b == "none" ? _IONBF : b == "line" ? _IOLBF : _IOFBF, b == "none" ? 0 : n);
      if (l.has("chunk")) for (auto& w : split(l.get("chunk"), ',')) s.chunk.push_back(std::max<u64>(1, strtoull(w.c_str(), 0, 10)));
      if (l.has("cap")) s.cap = l.num("cap");
      s.back = l.num("back");
      s.err = l.get("err", "EIO");
      R->order("stream " + b);
      R->ev(l.text());
      continue;
    }
    auto it = st.find(id);
    if (it == st.end() || !it->second.f) continue;
    Strm& s = it->second;
    if (l.verb == "flush") {
      int e = fflush(s.f);
      judge(id, s, true);
      if (!e && s.again() && !s.wmark) { s.wmark = s.want.size(); s.gmark = s.got.size(); R->probe("used_again_uncleared"); }
      R->order("flush");
    }
    else if (l.verb == "clear") {
      fflush(s.f);
      judge(id, s, true);
      if (s.failed && (s.back == 0 || s.fails < s.back)) continue;  // still dead
      if (s.failed) R->probe("stream_recovered");
      clearerr(s.f);
      s.failed = false;
      if (s.back) { s.cap = ~(size_t)0; s.back = 0; }
      s.got.clear();
      s.want.clear();
      s.gmark = s.wmark = 0;
    } else if (l.verb == "own") {
      // the caller's own output around the prints
      string t(std::min<u64>(l.num("n", 1), 400), '#');
      t += "\n";
      fwrite(t.data(), 1, t.size(), s.f);
      s.want += t;
      judge(id, s, false);
    } else if (l.verb == "print") {
      string k = l.get("kind", "x25519");
      Prt t = printer(k, (int)l.num("lib"));
      Bytes v = spec_bytes(l.get("v", "z:0"));
      v.resize(t.lane * t.lanes);
      u64 h = mix64(l.num("pl") + 5);
      Buf b = place(h >> 20, t.obj, h & 1, t.unser || t.point ? 32 : 1, (h >> 2) % 90, (uint8_t)h);
      std::vector<string> alt(1), alt2;
      std::vector<Bytes> lanes;
      for (int i = 0; i < t.lanes; i++) lanes.push_back(Bytes(v.begin() + i * t.lane, v.begin() + (i + 1) * t.lane));
      if (t.unser && !t.raw) {
        Buf in = place(1, v.size(), true, 32, 0, 0x11), e2 = place(2, t.obj, true, 32, 0, 0x12);
        memcpy(in.p, v.data(), v.size());
        Bytes w(v.size());
        bool plus = l.has("plus");
        GuardResult g = guarded([&] {
          lib_call((void (*)(void*, void*))t.unser, (void*)b.p, (void*)in.p);
          if (plus) {
            w = spec_bytes(l.get("plus"));
            w.resize(v.size());
            memcpy(in.p, w.data(), w.size());
            lib_call((void (*)(void*, void*))t.unser, (void*)e2.p, (void*)in.p);
            lib_call((void (*)(void*, void*, void*))t.add, (void*)b.p, (void*)b.p, (void*)e2.p);
          }
        });
        if (g.oc != OC_OK) R->fail("crash", "preparing a " + k + " ended with " + g.text());
        buf_free(in);
        buf_free(e2);
        for (int i = 0; i < t.lanes; i++) {
          if (t.m4) { ref::F4 x = ref::F4::from(&v[i * t.lane]); if (plus) x = x + ref::F4::from(&w[i * t.lane]); lanes[i] = x.bytes(); }
          else { ref::F1 x = ref::F1::from(&v[i * t.lane]); if (plus) x = x + ref::F1::from(&w[i * t.lane]); lanes[i] = x.bytes(); }
        }
      } else memcpy(b.p, v.data(), v.size());
      Bytes obj(b.p, b.p + t.obj);
      buf_protect(b, true);
      string text;
      for (int i = 0; i < t.lanes; i++) {
        if (t.point) text += i ? "Y: " : "X: ";
        Bytes x = lanes[i];
        std::reverse(x.begin(), x.end());
        text += "0x" + hex(x) + "\n";
      }
      s.want += text;
      g_poison.on = l.has("poison");
      g_poison.seed = l.num("poison");
      FILE* f = s.f;
      bool held = l.has("held");
      if (held) { flockfile(f); R->probe("stream_held"); }
      long lk = locked(f);
      GuardResult g = guarded([&] { lib_call((void (*)(FILE*, void*))t.fn, f, (void*)b.p); });
      g_poison.on = false;
      R->st->steps++;
      R->st->ops["print " + k]++;
      R->order(k);
      if (g.oc != OC_OK) { s.f = nullptr; R->fail("crash", "printing a " + k + " ended with " + g.text()); }
      if (locked(f) != lk) R->fail("lock", "printing a " + k + " left the stream locked, or unlocked, for the threads that use it");
      if (held) funlockfile(f);
      if (memcmp(obj.data(), b.p, t.obj)) R->fail("changed", "printing a " + k + " changed it");
      string e = buf_check_surroundings(b);
      if (!e.empty()) R->fail("stray-write", "printing a " + k + " wrote near it: " + e);
      if (stray_output() || g_other) R->fail("elsewhere", "printing a " + k + " wrote to another stream");
      buf_free(b);
      judge(id, s, false);
      for (auto& o : st) if (o.second.f) judge(o.first, o.second, false);
      if (heap_live()) R->fail("leak", "printing a " + k + " left heap blocks");
    } else continue;
    R->ev(l.verb + fmt(" %llu: %zu of %zu, hash %016llx, error %d", (unsigned long long)id, s.got.size(), s.want.size(), (unsigned long long)hash_str(s.got), s.f ? ferror(s.f) != 0 : 0));
  }
  for (auto& s : st) shut(s.first, s.second);
}
World w_c10() { return {"c10", gen, exec}; }
