#include "gen.h"
#include "blob.h"
#include <bzlib.h>
#include <zlib.h>

static std::string b_path(long n, long kind) { char p[64]; B_NAME(p, n, kind == B_FD || kind == B_FIFO ? 0 : kind); return p; }
static long gen_n(Rng &g) {
  double u = g.unit();
  if (u < 0.001) return g.pick(std::vector<long>{65535, 65536, 65537, 131072, 131073, 200000});
  if (u < 0.35) return (long) g.range(0, 6);
  if (u < 0.7) return (long) g.range(0, 300);
  if (u < 0.9) return (long) g.range(300, 5000);
  return g.pick(std::vector<long>{4095, 4096, 4097, 8191, 8192, 8193, 16384, 16385, 20000});
}
static long shared_len(const Scenario &s, long k) {
  static const long l[] = {0, 1, 2, 3, 4095, 4096, 8191, 8192, 8193, 12288, 16384, 20001};
  uint64_t h = mix2(s.seed, 77 + (uint64_t) k);
  if (h % 127 == 0) return 60000 + (long) (h / 127 % 160000);
  return h % 3 == 0 ? l[h / 3 % 12] : (long) (h / 3 % (h % 3 == 1 ? 40 : 9000));
}
/* the data of an operation, as the actor makes it */
static std::string op_data(const Scenario &s, const SimOp &o) {
  std::string d = data_for(s.seed, 8000 + (unsigned long) o.id, o.a[0]);
  if (o.kind == K8_WS) for (char &c : d) c = (char) (1 + (unsigned char) c % 255);
  if (s.cfg[14] == 1) for (char &c : d) c = (char) ('a' + (unsigned char) c % 3);
  return d;
}
static std::string shared(const Scenario &s, long k) {
  std::string d = data_for(s.seed, 8800 + (unsigned long) k, shared_len(s, k));
  if (k % 3 == 1) for (char &c : d) c = (char) ('a' + (unsigned char) c % 20);
  if (k % 3 == 2 && d.size() > 3) d.replace(0, 3, "BZx");                /* almost a compressed file */
  return d;
}
enum { NSHARED = 6 };
static void gen_stream(Scenario &s, Rng &g, int p, int n, int t, int nops, bool faults) {
  std::vector<std::pair<long, long>> mine;                             /* files written by this thread: number, kind */
  const long base = 10 * (n * 4 + t) + 1;
  for (int k = 0; k < nops; k++) {
    double u = g.unit();
    if (u < 0.4 || mine.empty()) {
      const double v = g.unit();
      long kind = v < 0.45 ? B_PLAIN : v < 0.7 ? B_GZ : v < 0.85 ? B_BZ : B_FD, f = base + (long) g.below(3);
      if (g.chance(0.06)) kind = B_PLAIN, f = f;
      s.add(p, n, t, K8_OPENW, {f, kind, kind == B_GZ || kind == B_BZ ? 1 : (long) g.below(2), (long) g.below(2)});
      for (long m = (long) g.range(0, 7); m > 0; m--) {
        double w = g.unit();
        if (w < 0.75) s.add(p, n, t, (int) (w < 0.25 ? K8_W : w < 0.5 ? K8_WC : w < 0.65 ? K8_WB : K8_WS), {w >= 0.5 && w < 0.65 ? 1 : gen_n(g)});
        else s.add(p, n, t, w < 0.85 ? K8_SYNC : kind == B_FD ? K8_SYNC : K8_TELL, {});
      }
      s.add(p, n, t, K8_CLOSE, {0});
      std::pair<long, long> f2{f, kind == B_FD ? B_PLAIN : kind};
      mine.erase(std::remove(mine.begin(), mine.end(), f2), mine.end());
      mine.push_back(f2);
      continue;
    }
    long f, kind;
    if (g.chance(0.6)) { auto &x = g.pick(mine); f = x.first; kind = x.second; }
    else { f = B_SHARED + (long) g.below(NSHARED); kind = B_PLAIN; }
    if (g.chance(0.3)) {
      long f0 = f, lim = g.chance(0.5) ? -1 : gen_n(g);
      if (g.chance(0.2)) f0 = B_SHARED + NSHARED + (long) g.below(3), kind = B_FIFO;
      s.add(p, n, t, K8_WHOLE, {f0, (long) g.below(kind == B_FIFO ? 3 : 4), lim, kind});
      continue;
    }
    long open = kind;
    if (g.chance(0.1)) f = B_SHARED + NSHARED + (long) g.below(3), kind = open = B_FIFO;
    if (kind == B_PLAIN && g.chance(0.15)) open = B_FD;
    const bool expand = (kind != B_GZ && kind != B_BZ) || g.chance(0.9);
    if (faults && (kind == B_GZ || kind == B_BZ) && g.chance(0.25)) {
      s.add(p, n, t, K8_CUT, {f, kind, g.chance(0.3) ? (long) g.below(20) : (long) g.below(1 << 20)});
      mine.erase(std::remove(mine.begin(), mine.end(), std::make_pair(f, kind)), mine.end());
    }
    s.add(p, n, t, K8_OPENR, {f, open, expand, (long) g.below(2)});
    for (long m = (long) g.range(0, 9); m > 0; m--) {
      double w = g.unit();
      if (w < 0.8) s.add(p, n, t, (int) (w < 0.3 ? K8_R : w < 0.6 ? K8_RC : K8_RB), {w >= 0.6 ? 1 : gen_n(g)});
      else if (open != B_FD && open != B_FIFO) s.add(p, n, t, w < 0.9 ? K8_TELL : open == B_PLAIN ? K8_EOF : K8_SIZE, {});
    }
    if (g.chance(0.5)) s.add(p, n, t, open == B_PLAIN && g.chance(0.5) ? K8_R : K8_RC, {300000});                 /* the rest */
    s.add(p, n, t, K8_CLOSE, {faults ? 0 : (long) g.chance(0.1)});
  }
}
static void gen8(Scenario &s, Rng &g) {
  s.cfg.assign(16, 0);
  s.cfg[14] = g.chance(0.3);
  int nodes = g.chance(0.8) ? 1 : 2, thr = g.chance(0.6) ? 1 : (int) g.range(2, 3);
  if (nodes == 1 && thr == 1) s.cfg[13] = 1;
  gen_strategy(s, g, 0.35);
  FaultGen fg(s, g);
  if (g.chance(0.7)) { fg.splits(); s.fc.budget = (long) g.logrange(3, 300); }
  if (g.chance(0.2)) fg.add(S_MMAP, F_ENOMEM, 10), s.fc.budget += 3;
  for (int n = 0; n < nodes; n++) for (int t = 0; t < thr; t++) gen_stream(s, g, 0, n, t, (int) g.range(2, 6), false);
}
static void gen9(Scenario &s, Rng &g) {
  s.cfg.assign(16, 0);
  s.cfg[13] = 1;
  s.cfg[14] = g.chance(0.3);
  gen_strategy(s, g, 0.35);
  FaultGen fg(s, g);
  fg.errors();
  if (g.chance(0.4)) fg.splits();
  if (g.chance(0.4)) { fg.add(S_READ, F_EINTR, 10); s.fc.eintr_path = "/w/"; }
  if (g.chance(0.25)) { fg.memory(); s.cfg[12] = 1; }
  s.fc.only_path = g.chance(0.8) ? "/w/" : "";
  s.fc.budget = g.chance(0.5) ? (long) g.range(1, 2) : (long) g.logrange(1, 30);
  int nodes = g.chance(0.9) ? 1 : 2;
  for (int n = 0; n < nodes; n++) gen_stream(s, g, 0, n, 0, (int) g.range(2, 7), true);
  s.phases[0].kills = false;
}
static void init(const Scenario &s) {
  for (long k = 0; k < NSHARED; k++) fs_put(b_path(B_SHARED + k, 0), shared(s, k));
  for (long k = NSHARED; k < NSHARED + 3; k++) fs_put(b_path(B_SHARED + k, 0), shared(s, k), 2);
}
/* a compressed file that is whole up to its check sum, unpacked */
static bool unpack(long kind, const std::string &x, std::string &d) {
  char b[65536];
  int r = 0;
  d.clear();
  if (kind == B_GZ) {
    z_stream z = z_stream();
    if (inflateInit2(&z, 31) != Z_OK) return false;
    z.next_in = (Bytef *) x.data(); z.avail_in = (uInt) x.size();
    do { z.next_out = (Bytef *) b; z.avail_out = sizeof b; r = inflate(&z, Z_NO_FLUSH); d.append(b, sizeof b - z.avail_out); } while (r == Z_OK && (z.avail_in || !z.avail_out));
    inflateEnd(&z);
    return r == Z_STREAM_END && !z.avail_in;
  }
  bz_stream z = bz_stream();
  if (BZ2_bzDecompressInit(&z, 0, 0) != BZ_OK) return false;
  z.next_in = (char *) x.data(); z.avail_in = (unsigned) x.size();
  do { z.next_out = b; z.avail_out = sizeof b; r = BZ2_bzDecompress(&z); d.append(b, sizeof b - z.avail_out); } while (r == BZ_OK && (z.avail_in || !z.avail_out));
  BZ2_bzDecompressEnd(&z);
  return r == BZ_STREAM_END && !z.avail_in;
}
struct Stream { const SimOp *open = nullptr; bool writing = false, known = true, up = false, failed = false, ended = false; std::string d; size_t pos = 0; };
/* strict: every result is exactly the model's; otherwise failures may be reported, but not hidden */
static void check(const Scenario &s, bool strict) {
  auto ops = collect_ops(-1, -1);
  std::map<std::pair<int, int>, Stream> st;
  struct Content { std::string d; bool known = false; };
  std::set<std::pair<long, long>> torn;
  std::map<std::pair<long, long>, Content> files;                      /* number and kind -> content */
  for (auto &o : s.ops) {
    const LinOp *l = nullptr;
    for (auto &x : ops) if (x.inv->op == o.id) l = &x;
    if (!l || !l->ret) { if (strict) { violation("no-result", "a call did not return"); return; } return; }
    Stream &t = st[{o.node, o.thr}];
    const long r = l->ret->status;
    const std::string &d = l->ret->data;
    if (r == -9) continue;
    auto what = [&]() { static const char *const k[] = {"plain", "gzip", "bzip2", "descriptor", "fifo"}; return strf("%s %s stream of %lu bytes at %lu", k[t.open->a[1]], t.writing ? "output" : "input", (unsigned long) t.d.size(), (unsigned long) t.pos); };
    auto content = [&](long f, long kind, Content &c) {
      if (kind == B_FD || kind == B_FIFO) kind = 0;
      if (f >= B_SHARED) { c.d = shared(s, f - B_SHARED); c.known = true; } else c = files[{f, kind}];
    };
    switch (o.kind) {
      case K8_OPENW:
      case K8_OPENR:
        t = Stream();
        if (o.kind == K8_OPENW) files[{o.a[0], o.a[1] == B_FD ? 0 : o.a[1]}] = Content();
        if (!r) { if (strict) { violation("refused", "a stream could not be opened although nothing failed"); return; } break; }
        t.open = &o; t.up = true; t.writing = o.kind == K8_OPENW;
        if (!t.writing) {
          Content c;
          content(o.a[0], o.a[1], c);
          t.known = c.known && !((o.a[1] == B_GZ || o.a[1] == B_BZ) && !o.a[2]);
          t.d = c.d;
          if (o.a[1] == B_PLAIN && t.d.size() > 8192) probe("large plain file");
        }
        break;
      case K8_W: case K8_WC: case K8_WB: case K8_WS:
        if (r != o.a[0]) { if (strict) { violation("short-write", strf("%ld of %ld bytes accepted by the %s", r, o.a[0], what().c_str())); return; } t.failed = true; }
        t.d += op_data(s, o); t.pos = t.d.size();
        break;
      case K8_R: case K8_RC: case K8_RB: {
        if (!t.known) break;
        const std::string want = t.d.substr(t.pos, o.a[0]);
        if (d != want) {
          if (strict) { violation("wrong-read", strf("%ld bytes (%ld) instead of %lu from the %s", r, (long) d.size(), (unsigned long) want.size(), what().c_str())); return; }
          if (!t.failed && want.compare(0, d.size(), d) != 0) { violation("wrong-read", strf("%ld bytes that are not in the file from the %s", r, what().c_str())); return; }
          t.failed = true;
        }
        if (o.a[0] > (long) want.size()) t.ended = true;
        t.pos += want.size();
        break;
      }
      case K8_EOF:
        if (strict && t.known && t.open->a[1] == B_PLAIN && (r != 0) != t.ended) { violation("end", strf("end of the file is %sreported by the %s", r ? "" : "not ", what().c_str())); return; }
        break;
      case K8_TELL:
        if (strict && t.known && t.open->a[1] != B_BZ && r != (long) t.pos) { violation("position", strf("position %ld reported by the %s", r, what().c_str())); return; }
        break;
      case K8_SIZE:
        break;
      case K8_SYNC:
        if (r != 0 && t.writing) { if (strict) { violation("sync", strf("flushing failed: %s", what().c_str())); return; } t.failed = true; }
        break;
      case K8_CLOSE: {
        if (!t.up) break;
        t.up = false;
        if (!r && t.failed && torn.count({t.open->a[0], t.open->a[1]})) probe("torn compressed file noticed");
        if (!r) { if (strict && t.known) { violation("close", strf("closing failed: %s", what().c_str())); return; } break; }
        if (!strict && t.failed && t.known) { violation("hidden-failure", strf("closing reported success after a failed transfer of the %s", what().c_str())); return; }
        if (t.writing) {
          const long kind = t.open->a[1] == B_FD ? 0 : t.open->a[1];
          Content &c = files[{t.open->a[0], kind}];
          c.d = t.d; c.known = true;
          probe("output complete");
        } else probe("input complete");
        break;
      }
      case K8_CUT: torn.insert({o.a[0], o.a[1]}); break;
      case K8_WHOLE: {
        Content c;
        content(o.a[0], o.a[3], c);
        if (!r) {
          if (strict && (c.known || o.a[0] >= B_SHARED)) { violation("refused", "a file could not be read although nothing failed"); return; }
          if (!l->ret->value) { violation("silent", "reading a file failed without an error"); return; }
          break;
        }
        if (!c.known || o.a[3] == B_GZ || o.a[3] == B_BZ) break;
        std::string want = o.a[1] == 3 ? c.d : c.d.substr(0, (size_t) o.a[2]);
        if (o.a[1] == 1) want = want.substr(0, strlen(want.c_str()));
        if (d != want) { violation("wrong-read", strf("%lu of %lu bytes in one piece (variant %ld, limit %ld)", (unsigned long) d.size(), (unsigned long) want.size(), o.a[1], o.a[2])); return; }
        probe("whole file");
        break;
      }
    }
  }
  for (auto &f : files) if (f.second.known && f.first.second == B_PLAIN) {
    Inode *i = fs_find(b_path(f.first.first, 0));
    if (!i || i->data != f.second.d) { violation("wrong-file", strf("%ld of %lu bytes are in the file after the stream was closed", i ? (long) i->data.size() : -1L, (unsigned long) f.second.d.size())); return; }
  } else if (f.second.known && !torn.count(f.first)) {
    Inode *i = fs_find(b_path(f.first.first, f.first.second));
    std::string d;
    probe("compressed file checked");
    if (!i || !unpack(f.first.second, i->data, d)) { violation("wrong-file", strf("a compressed file is not whole after the stream of %lu bytes was closed", (unsigned long) f.second.d.size())); return; }
    if (d != f.second.d) { violation("wrong-file", strf("a compressed file holds %lu bytes after the stream of %lu was closed", (unsigned long) d.size(), (unsigned long) f.second.d.size())); return; }
  }
}
static void oracle8(const Scenario &s) { check_exits(false); if (!world_failed()) check(s, true); }
static void oracle9(const Scenario &s) { check_exits(s.cfg[12]); if (!world_failed()) check(s, false); }
static PropDef p8 = {8, "C08", "c08", gen8, init, nullptr, nullptr, oracle8,
  "a run is counted as distinct by the hash of its schedule deviations and faults; non-trivial runs have at least one preemption, short transfer or failed mapping"};
static RegProp r8(&p8);
static PropDef p9 = {9, "C09", "c09", gen9, init, nullptr, nullptr, oracle9,
  "a run is counted as distinct by the hash of its schedule deviations and faults; non-trivial runs have at least one preemption or fault"};
static RegProp r9(&p9);
