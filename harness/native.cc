/* Executes the real code: replays counterexamples of the verifier and stands in, bounded, where the verifier gives no answer.
 *   native MODE [cfg=mode,ratio,prec,sse,filter] [blocks=a,b,c]* [coef=prec:c0,c1,..]* [seed=N] [secs=S]
 * A violated property prints one line starting with FAIL and exits with status 1.  Lengths are in frames: one frame is one
 * sample at the low rate. */
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
#include <math.h>
#include <stdint.h>
#include <unistd.h>
#include <pthread.h>
#include <errno.h>
#include <signal.h>
#include <sys/mman.h>
#include <sys/prctl.h>
#include <sys/syscall.h>
#include <sys/wait.h>
#include <linux/seccomp.h>
#include <linux/filter.h>
#include <string>
#include <vector>
#include <map>
#include <set>
#include <memory>
#include <complex>
#include <algorithm>
#include <functional>
#include <type_traits>
#include <chrono>
#ifndef PV_LIBRARY
#define PANDA_RESAMPLER_HEADER_ONLY
#endif
#include "pandaresampler.hh"
using namespace PandaResampler;
using std::vector;
using std::string;

#if defined(__has_feature)
#if __has_feature(memory_sanitizer)
#include <sanitizer/msan_interface.h>
#define MSAN 1
#endif
#if __has_feature(address_sanitizer)
#define ASAN 1
#endif
#if __has_feature(thread_sanitizer)
#define TSAN 1
#endif
#endif

/* ------------------------------------------------------------------ allocation counters */
static volatile long g_allocs, g_frees;
static volatile int g_count;
static volatile int g_fill = -1;
#if !defined(ASAN) && !defined(MSAN) && !defined(TSAN)
extern "C" {
void *__libc_malloc (size_t); void __libc_free (void *); void *__libc_calloc (size_t, size_t); void *__libc_realloc (void *, size_t); void *__libc_memalign (size_t, size_t);
void *malloc (size_t n) { if (g_count) g_allocs++; void *p = __libc_malloc (n); if (p && g_fill >= 0) memset (p, g_fill, n); return p; }
void free (void *p) { if (g_count && p) g_frees++; __libc_free (p); }
void *calloc (size_t a, size_t b) { if (g_count) g_allocs++; return __libc_calloc (a, b); }
void *realloc (void *p, size_t n) { if (g_count) g_allocs++; return __libc_realloc (p, n); }
void *aligned_alloc (size_t a, size_t n) { if (g_count) g_allocs++; return __libc_memalign (a, n); }
void *memalign (size_t a, size_t n) { if (g_count) g_allocs++; return __libc_memalign (a, n); }
int posix_memalign (void **p, size_t a, size_t n) { if (g_count) g_allocs++; *p = __libc_memalign (a, n); return *p ? 0 : ENOMEM; }
}
#define COUNTING 1
#endif

/* ------------------------------------------------------------------ configurations */
struct Cfg { int mode, ratio, prec, sse, filt; };
enum { UP, DOWN };
static const int FIRP[] = { 1, 8, 12, 16, 20, 24 };
static string cstr (const Cfg& c) { char b[100]; snprintf (b, 100, "%d,%d,%d,%d,%d", c.mode, c.ratio, c.prec, c.sse, c.filt); return b; }
static bool valid (const Cfg& c) { return c.filt || c.ratio == 1 || c.prec != 1; }
static vector<Cfg> g_cfgs;
static vector<vector<int>> g_hints;
static std::map<int, vector<double>> g_coef;
static unsigned long g_seed = 1;
static double g_end;
static double now() { struct timespec t; clock_gettime (CLOCK_MONOTONIC, &t); return t.tv_sec + 1e-9 * t.tv_nsec; }
static bool more() { return now() < g_end; }

struct Rng_ { uint64_t s; uint64_t next() { s ^= s << 13; s ^= s >> 7; s ^= s << 17; return s; }
  unsigned below (unsigned n) { return n ? (next() >> 11) % n : 0; }
  double uni() { return (next() >> 11) * (1.0 / 9007199254740992.0); } };
static Rng_ g_rng { 88172645463325252ULL };

static const char *g_mode;
static int g_class = -1;
static string g_ctx;
static void fail (const Cfg& c, const char *what, const vector<int>& blocks = vector<int>())
{
  string b;
  for (size_t i = 0; i < blocks.size() && i < 400; i++) b += (i ? "," : "") + std::to_string (blocks[i]);
  printf ("FAIL mode=%s cfg=%s%s%s%s%s: %s\n", g_mode, cstr (c).c_str(), b.empty() ? "" : " blocks=", b.c_str(), g_class >= 0 ? " signal=" : "", g_class >= 0 ? std::to_string (g_class).c_str() : "", what);
  fflush (stdout);
  _exit (1);
}
#define FAILF(c, bl, ...) do { char _b[400]; snprintf (_b, 400, __VA_ARGS__); fail (c, _b, bl); } while (0)

static Resampler2 *make (const Cfg& c)
{ return new Resampler2 ((Resampler2::Mode) c.mode, c.ratio, (Resampler2::Precision) c.prec, c.sse != 0, (Resampler2::Filter) c.filt); }
typedef std::unique_ptr<Resampler2> Res;
static size_t nin (const Cfg& c, size_t frames) { return c.mode == UP ? frames : frames * c.ratio; }
static size_t nout (const Cfg& c, size_t frames) { return c.mode == UP ? frames * c.ratio : frames; }
static bool exact (const Cfg& c) { return !(c.filt == 1 && c.sse && c.ratio > 1); }

/* signals: the class decides about the kind of material */
enum { NCLASS = 9 };
static vector<float> signal_ (int cls, size_t n, Rng_& r)
{
  vector<float> v (n);
  double ph = 0;
  for (size_t i = 0; i < n; i++)
    {
      double u = 2 * r.uni() - 1;
      switch (cls)
        {
        case 0: v[i] = u; break;
        case 1: v[i] = r.below (40) ? 0 : u; break;                                     /* sparse */
        case 2: v[i] = (i / 97) % 3 == 1 ? u : 0; break;                                /* bursts and silence */
        case 3: v[i] = 0.75; break;                                                     /* constant */
        case 4: v[i] = u * pow (10, 8 * r.uni() - 4); break;                            /* large dynamic range */
        case 5: ph += 0.05 + 3.0 * i / (n + 1); v[i] = sin (ph); break;                 /* sweep */
        case 6: v[i] = r.below (3) ? u * 1e-30 : (r.below (2) ? -0.0 : 0.0); break;     /* tiny */
        case 7: v[i] = (i & 1) ? -1 : 1; break;                                         /* highest frequency */
        default: v[i] = i < n / 2 ? u * 1000 : u * 1e-3; break;
        }
    }
  return v;
}
static double peak (const vector<float>& v) { double m = 0; for (float f : v) m = std::max (m, (double) fabsf (f)); return m; }

/* one process_block call on buffers that end exactly where they should; off: distance from a 16 byte boundary in floats */
static void block (Resampler2& r, const Cfg& c, const float *in, size_t frames, float *out, int offi, int offo, const vector<int>& blocks)
{
  size_t ni = nin (c, frames), no = nout (c, frames);
  float *bi, *bo;
  char *mi, *mo;
  /* the end of the allocation is the end of the buffer; the start is padded to get the wanted alignment */
  size_t pi = offi & 3, po = offo & 3;
  mi = (char *) malloc ((ni + pi) * sizeof (float) + !(ni + pi)); mo = (char *) malloc ((no + po) * sizeof (float) + !(no + po));
  bi = (float *) mi + pi; bo = (float *) mo + po;
#ifdef ASAN
  if (pi) { extern void poison_ (void *, size_t); poison_ (mi, pi * 4); }
  if (po) { extern void poison_ (void *, size_t); poison_ (mo, po * 4); }
#else
  const unsigned guard = 0x7fc12345;
  for (size_t i = 0; i < po; i++) memcpy ((float *) mo + i, &guard, 4);
#endif
  if (ni) memcpy (bi, in, ni * sizeof (float));
#ifndef MSAN
  for (size_t i = 0; i < no; i++) { unsigned q = 0x7fc00000 + (i & 0xffff); memcpy (bo + i, &q, 4); }
#endif
  r.process_block (bi, ni, bo);
#ifdef MSAN
  if (no) { intptr_t p = __msan_test_shadow (bo, no * sizeof (float)); if (p >= 0) FAILF (c, blocks, "output sample %ld of a block of %zu frames is not initialised", (long) (p / 4), frames); }
#else
  for (size_t i = 0; i < no; i++) { unsigned q; memcpy (&q, bo + i, 4); if (q == 0x7fc00000 + (i & 0xffff)) FAILF (c, blocks, "output sample %zu of a block of %zu frames was not written", i, frames); }
#endif
  if (ni && memcmp (bi, in, ni * sizeof (float))) FAILF (c, blocks, "the input block was modified");
#ifdef ASAN
  if (pi) { extern void unpoison_ (void *, size_t); unpoison_ (mi, pi * 4); }
  if (po) { extern void unpoison_ (void *, size_t); unpoison_ (mo, po * 4); }
#else
  for (size_t i = 0; i < po; i++) if (memcmp ((float *) mo + i, &guard, 4)) FAILF (c, blocks, "memory before the output buffer was written");
#endif
  if (no) memcpy (out, bo, no * sizeof (float));
  free (mi); free (mo);
}
#ifdef ASAN
#include <sanitizer/asan_interface.h>
void poison_ (void *p, size_t n) { (void) p; (void) n; }
void unpoison_ (void *p, size_t n) { (void) p; (void) n; }
#endif

static vector<float> run (Resampler2& r, const Cfg& c, const vector<float>& in, const vector<int>& blocks, unsigned off = 0)
{
  size_t total = 0;
  for (int b : blocks) total += b;
  vector<float> out (nout (c, total));
  size_t pos = 0; unsigned k = 0;
  for (int b : blocks)
    {
      block (r, c, in.data() + nin (c, pos), b, out.data() + nout (c, pos), off + k * (off & 4 ? 3 : 0), off / 2 + k * (off & 8 ? 1 : 0), blocks);
      pos += b; k++;
    }
  return out;
}
static vector<float> run1 (const Cfg& c, const vector<float>& in, const vector<int>& blocks, unsigned off = 0)
{ Res r (make (c)); return run (*r, c, in, blocks, off); }
static size_t sum (const vector<int>& b) { size_t s = 0; for (int x : b) s += x; return s; }

/* block sequences: first the hints, then a systematic family, then random ones */
struct Blocks
{
  size_t i = 0;
  vector<vector<int>> hints;
  int maxlen;
  Blocks (int maxlen = 6000) : maxlen (maxlen) { hints = g_hints; }
  bool systematic() const { return i < hints.size() + 700; }
  vector<int> next (Rng_& r)
  {
    size_t k = i++;
    if (k < hints.size()) return hints[k];
    k -= hints.size();
    static const int pre[] = { 0, 1, 5, 61, 260 };
    if (k < 700)
      {
        int n = k / 5 + 1, p = pre[(k + k / 5) % 5];
        vector<int> b;
        if (p) b.push_back (p);
        b.push_back (n);
        if (k % 3 == 0) b.push_back (0);
        b.push_back (1 + k % 90); b.push_back (7);
        return b;
      }
    vector<int> b;
    int total = 0, lim = 200 + r.below (maxlen);
    while (total < lim)
      {
        int n;
        switch (r.below (8))
          {
          case 0: n = 0; break;
          case 1: case 2: n = 1 + r.below (8); break;
          case 3: case 4: n = 1 + r.below (80); break;
          case 5: n = (1 << r.below (12)) + (int) r.below (5) - 2; break;
          case 6: n = 1 + r.below (300); break;
          default: n = 1 + r.below (maxlen > 3000 ? 3000 : maxlen); break;
          }
        if (n < 0) n = 0;
        b.push_back (n); total += n;
      }
    return b;
  }
};
static const vector<vector<int>>& bigblocks()
{
  static vector<vector<int>> v = { { 1023, 1 }, { 1024, 5 }, { 1025, 64 }, { 127, 1026, 300 }, { 128, 129 }, { 511, 512, 513 }, { 255, 256, 257 }, { 2047, 2048, 2049 }, { 1, 4095, 4096 }, { 4097, 60 }, { 3, 8191, 8193 }, { 16385, 7 }, { 1000, 5000, 13 }, { 65537, 60 }, { 10, 100000, 130 } };
  return v;
}

static double tol_fir (const Cfg& c) { double l = c.ratio == 8 ? 3 : c.ratio == 4 ? 2 : 1; return l * 2.5e-6; }

static size_t differ (const Cfg& c, const vector<float>& a, const vector<float>& b, bool bitwise, double scale)
{
  if (a.size() != b.size()) return 0;
  if (bitwise) { for (size_t i = 0; i < a.size(); i++) { if (a[i] != b[i] || (a[i] == 0 && 0)) { if (a[i] != a[i] && b[i] != b[i]) continue; return i; } } return SIZE_MAX; }
  double t = tol_fir (c) * scale + 1e-37;
  for (size_t i = 0; i < a.size(); i++) if (!(fabs ((double) a[i] - b[i]) <= t)) { if (a[i] == b[i]) continue; return i; }
  return SIZE_MAX;
}

static vector<int> ones (size_t n, int k = 1) { vector<int> v (n / k, k); if (n % k) v.push_back (n % k); return v; }

/* visits (configuration, block sequence): all configurations share the time */
static void sweep (const std::function<bool (const Cfg&)>& want, const std::function<void (const Cfg&, const vector<int>&, int)>& body, bool big = true, int maxlen = 6000)
{
  vector<Cfg> cs;
  for (auto& c : g_cfgs) if (want (c)) cs.push_back (c);
  if (cs.empty()) return;
  vector<Blocks> bl (cs.size(), Blocks (maxlen));
  size_t round = 0;
  while (round < 3 || more())
    {
      for (size_t k = 0; k < cs.size(); k++)
        {
          if (round >= 3 && !more()) return;
          int reps = round < 3 ? 8 + g_hints.size() : 30;
          for (int q = 0; q < reps; q++)
            {
              if (round < 3 && round > 0 && now() > g_end + 20) return;
              body (cs[k], bl[k].next (g_rng), g_class = (round + q) % NCLASS);
            }
          if (big && round < bigblocks().size()) body (cs[k], bigblocks()[round], g_class = round % NCLASS);
        }
      round++;
      if (round > 4000) return;
    }
}

/* ------------------------------------------------------------------ C01 partition */
static void c01 (const Cfg& c, const vector<int>& b, int cls)
{
  size_t total = sum (b);
  vector<float> in = signal_ (cls, nin (c, total), g_rng);
  unsigned off = g_rng.below (16);
  vector<float> x = run1 (c, in, b, off);
  vector<float> y = run1 (c, in, ones (total, total > 20000 ? 61 : 1), 0);
  double p = peak (in);
  size_t d = differ (c, x, y, exact (c), p);
  if (d != SIZE_MAX) FAILF (c, b, "output sample %zu is %.9g, but %.9g when the stream is processed frame by frame", d, x[d], y[d]);
  vector<float> z = run1 (c, in, vector<int> (1, total), off / 3);
  d = differ (c, z, y, exact (c), p);
  if (d != SIZE_MAX) FAILF (c, vector<int> (1, total), "output sample %zu of a single block is %.9g, but %.9g when processed frame by frame", d, z[d], y[d]);
}

/* ------------------------------------------------------------------ impulse responses */
/* response to a unit impulse at input index p, with frames frames processed in steps of size step */
static vector<float> impulse (const Cfg& c, size_t p, size_t frames, int step = 64, float amp = 1)
{
  vector<float> in (nin (c, frames));
  in[p] = amp;
  return run1 (c, in, ones (frames, step));
}

/* ------------------------------------------------------------------ C02 / C03 */
static std::map<string, vector<double>> g_ker;
static const vector<double>& kernel_up (const Cfg& c)
{
  Cfg k = c; k.sse = 0;
  auto& h = g_ker[cstr (k)];
  if (h.empty()) { for (float f : impulse (k, 0, 200)) h.push_back (f); }
  return h;
}
static void c02 (const Cfg& c, const vector<int>& b, int cls)
{
  const vector<double>& h = kernel_up (c);
  Res r (make (c));
  int N = r->order(), cen = N / 2 - 1;
  vector<double> tap (N);
  for (size_t i = 0; i < h.size(); i++)
    {
      if (i % 2 == 0) { if ((int) (i / 2) < N) tap[i / 2] = h[i]; else if (h[i] != 0) FAILF (c, b, "tap %zu lies beyond order() = %d taps", i / 2, N); }
      else if (h[i] != ((int) (i / 2) == cen ? 1.0 : 0.0)) FAILF (c, b, "odd output %zu of the impulse response is %.9g", i, h[i]);
    }
  double s = 0, l1 = 0;
  for (int i = 0; i < N; i++) { s += tap[i]; l1 += fabs (tap[i]); if (tap[i] != tap[N - 1 - i]) FAILF (c, b, "kernel is not symmetric: tap %d is %.9g, tap %d is %.9g", i, tap[i], N - 1 - i, tap[N - 1 - i]); }
  double q = c.prec == 1 ? 1e-6 : pow (10, -(c.prec * 6.0 - 1) / 20);
  if (fabs (s - 1) > 2 * q + 1e-7) FAILF (c, b, "DC gain is %.9g", s);
  if (tap[N - 1] == 0 || tap[0] == 0) FAILF (c, b, "the kernel has fewer than order() = %d taps", N);
  size_t total = sum (b);
  vector<float> in = signal_ (cls, nin (c, total), g_rng);
  vector<float> x = run1 (c, in, b, g_rng.below (16));
  for (size_t i = 0; i < total; i++)
    {
      float want1 = (int) i >= cen ? in[i - cen] : 0;
      if (x[2 * i + 1] != want1) FAILF (c, b, "odd output sample %zu is %.9g instead of the input sample %.9g", 2 * i + 1, x[2 * i + 1], want1);
      double want0 = 0, m = 0;
      for (int k = 0; k < N && k <= (int) i; k++) { want0 += tap[k] * in[i - k]; m += fabs (tap[k] * in[i - k]); }
      if (!(fabs (x[2 * i] - want0) <= (N + 4) * 6.1e-8 * m + 1e-42 * N)) FAILF (c, b, "even output sample %zu is %.9g instead of %.9g", 2 * i, x[2 * i], want0);
    }
}
static void c03 (const Cfg& c, const vector<int>& b, int cls)
{
  Cfg k0 = c; k0.sse = 0;
  auto& h = g_ker[cstr (k0)];
  Res r (make (c));
  int N = r->order(), cen = N - 1;
  if (h.empty())
    {
      vector<float> e = impulse (k0, 0, 200), o = impulse (k0, 1, 200);
      for (int i = 0; i < 200; i++) { h.push_back (e[i]); h.push_back (o[i]); }
    }
  vector<double> tap (N);
  for (int i = 0; i < 200; i++)
    {
      if (i < N) tap[i] = h[2 * i]; else if (h[2 * i] != 0) FAILF (c, b, "tap %d lies beyond order() = %d taps", i, N);
      /* odd input sample 1 is 2i - cen for i = (1 + cen) / 2 */
      if (h[2 * i + 1] != (2 * i == 1 + cen ? 0.5 : 0)) FAILF (c, b, "output %d for an impulse at input sample 1 is %.9g", i, h[2 * i + 1]);
    }
  double s = 0.5;
  for (int i = 0; i < N; i++) { s += tap[i]; if (tap[i] != tap[N - 1 - i]) FAILF (c, b, "kernel is not symmetric: tap %d is %.9g, tap %d is %.9g", i, tap[i], N - 1 - i, tap[N - 1 - i]); }
  double q = c.prec == 1 ? 1e-6 : pow (10, -(c.prec * 6.0 - 1) / 20);
  if (fabs (s - 1) > 2 * q + 1e-7) FAILF (c, b, "DC gain is %.9g", s);
  if (tap[N - 1] == 0 || tap[0] == 0) FAILF (c, b, "the kernel has fewer than order() = %d taps", N);
  size_t total = sum (b);
  vector<float> in = signal_ (cls, nin (c, total), g_rng);
  vector<float> x = run1 (c, in, b, g_rng.below (16));
  for (long i = 0; i < (long) total; i++)
    {
      double want = 0, m = 0;
      long p = 2 * i - cen;
      if (p >= 0) { want += 0.5 * in[p]; m += fabs (0.5 * in[p]); }
      for (int k = 0; k < N && k <= i; k++) { double v = tap[k] * in[2 * (i - k)]; want += v; m += fabs (v); }
      if (!(fabs (x[i] - want) <= (N + 6) * 6.1e-8 * m + 1e-42 * N)) FAILF (c, b, "output sample %ld is %.9g instead of %.9g", i, x[i], want);
    }
}

/* ------------------------------------------------------------------ C04 */
static void c04 (const Cfg& c, const vector<int>& b, int cls)
{
  auto it = g_coef.find (c.prec);
  if (it == g_coef.end()) return;
  const vector<double>& a = it->second;
  size_t total = sum (b);
  vector<float> in = signal_ (cls, nin (c, total), g_rng);
  vector<float> x = run1 (c, in, b, g_rng.below (16));
  vector<double> px (a.size()), py (a.size());
  double pk = peak (in), worst = pk * 6e-5 * (1 + a.size()) + 1e-36;
  for (size_t i = 0; i < total; i++)
    {
      double o[2];
      for (int ch = 0; ch < 2; ch++)
        {
          double v = c.mode == UP ? in[i] : in[2 * i + 1 - ch];
          for (size_t k = ch; k < a.size(); k += 2)
            {
              double w = a[k] * (v - py[k]) + px[k];
              px[k] = v; py[k] = w; v = w;
            }
          o[ch] = v;
        }
      if (c.mode == UP)
        {
          for (int ch = 0; ch < 2; ch++) if (!(fabs (x[2 * i + ch] - o[ch]) <= worst)) FAILF (c, b, "output sample %zu is %.9g instead of %.9g", 2 * i + ch, x[2 * i + ch], o[ch]);
        }
      else if (!(fabs (x[i] - 0.5 * (o[0] + o[1])) <= worst)) FAILF (c, b, "output sample %zu is %.9g instead of %.9g", i, x[i], 0.5 * (o[0] + o[1]));
    }
}

/* ------------------------------------------------------------------ C05 */
static void c05 (const Cfg& c, const vector<int>& b, int cls)
{
  if (!c.sse) return;
  Cfg d = c; d.sse = 0;
  size_t total = sum (b);
  vector<float> in = signal_ (cls, nin (c, total), g_rng);
  Res p (make (c)), q (make (d));
  if (p->order() != q->order()) FAILF (c, b, "order() is %u with SSE and %u without", p->order(), q->order());
  if (p->delay() != q->delay()) FAILF (c, b, "delay() is %g with SSE and %g without", p->delay(), q->delay());
  vector<float> x = run (*p, c, in, b, g_rng.below (16)), y = run (*q, d, in, b, g_rng.below (16));
  size_t k = differ (c, x, y, exact (c), peak (in));
  if (k != SIZE_MAX) FAILF (c, b, "output sample %zu is %.9g with SSE and %.9g without", k, x[k], y[k]);
}

/* ------------------------------------------------------------------ C06 (memory: the sanitizers decide) and C17 initialised state */
static void c06 (const Cfg& c, const vector<int>& b, int cls)
{
  size_t total = sum (b);
  vector<float> in = signal_ (cls, nin (c, total), g_rng);
  Res r (make (c));
  r->order(); r->delay(); r->sse_enabled();
  vector<float> x = run (*r, c, in, b, g_rng.below (16));
  if (g_rng.below (3) == 0) { r->reset(); run (*r, c, in, b, g_rng.below (16)); r->order(); r->delay(); }
}

/* ------------------------------------------------------------------ C07 */
static void c07 (const Cfg& c, const vector<int>& b, int cls)
{
  size_t total = sum (b);
  vector<float> in = signal_ (cls, nin (c, total), g_rng);
  vector<float> want = run1 (c, in, b);
  /* the same with other objects of the same and of other kinds at work in between */
  Cfg o = g_cfgs[g_rng.below (g_cfgs.size())];
  Res r (make (c)), r2 (make (c)), r3 (make (o));
  vector<float> x (want.size()), junk = signal_ (0, 8192, g_rng), sink (65536);
  size_t pos = 0;
  for (int n : b)
    {
      unsigned m = g_rng.below (60);
      r2->process_block (junk.data(), nin (c, m), sink.data());
      r3->process_block (junk.data(), nin (o, m), sink.data());
      r->order(); r->delay(); r->sse_enabled(); Resampler2::sse_available(); Resampler2::find_precision_for_bits (g_rng.below (30)); Resampler2::precision_name (Resampler2::PREC_96DB);
      if (g_rng.below (4) == 0) { r2->reset(); Res t (make (c)); }
      block (*r, c, in.data() + nin (c, pos), n, x.data() + nout (c, pos), 0, 0, b);
      pos += n;
    }
  for (size_t i = 0; i < x.size(); i++) if (x[i] != want[i] && !(x[i] != x[i] && want[i] != want[i])) FAILF (c, b, "output sample %zu is %.9g while other resamplers are at work (%s), %.9g alone", i, x[i], cstr (o).c_str(), want[i]);
}
struct Job { Cfg c; const vector<float> *in; const vector<int> *b; vector<float> out; };
static void *job (void *p)
{
  Job *j = (Job *) p;
  for (int k = 0; k < 4; k++) { Res r (make (j->c)); r->order(); r->delay(); j->out = run (*r, j->c, *j->in, *j->b); r->reset(); }
  return 0;
}
static void c07_threads()
{
  for (auto& c : g_cfgs)
    {
      vector<int> b = { 1, 5, 100, 3, 0, 64, 250, 1, 1, 700 };
      vector<float> in = signal_ (0, nin (c, sum (b)), g_rng);
      vector<float> want = run1 (c, in, b);
      Job j[3]; pthread_t t[3];
      for (int i = 0; i < 3; i++) { j[i].c = i < 2 ? c : g_cfgs[g_rng.below (g_cfgs.size())]; j[i].b = &b; j[i].in = &in; }
      vector<float> in2 = signal_ (0, 8 * sum (b), g_rng); j[2].in = &in2;
      for (int i = 0; i < 3; i++) pthread_create (&t[i], 0, job, &j[i]);
      for (int i = 0; i < 3; i++) pthread_join (t[i], 0);
      for (int i = 0; i < 2; i++)
        for (size_t k = 0; k < want.size(); k++)
          if (j[i].out[k] != want[k]) FAILF (c, b, "output sample %zu is %.9g in a thread next to others, %.9g alone", k, j[i].out[k], want[k]);
    }
}

/* ------------------------------------------------------------------ C08 */
static void c08 (const Cfg& c, const vector<int>& b, int cls)
{
  Res r (make (c));
  unsigned o = r->order(); double dl = r->delay(); bool se = r->sse_enabled();
  int k = g_hints.size() ? 1 + g_rng.below (2) : 1;
  size_t total = sum (b);
  vector<float> in = signal_ (cls, nin (c, total), g_rng);
  run (*r, c, in, b, g_rng.below (16));
  if (g_rng.below (3) == 0) r->reset();
  r->reset();
  if (r->order() != o || r->delay() != dl || r->sse_enabled() != se) FAILF (c, b, "reset() changes order(), delay() or sse_enabled()");
  vector<int> b2;
  size_t t2 = 0, want = 90 + g_rng.below (200);
  while (t2 < want) { int n = g_rng.below (3) ? 1 + g_rng.below (90) : g_rng.below (4); b2.push_back (n); t2 += n; }
  (void) k;
  for (int zero = 0; zero < 2; zero++)
    {
      vector<float> in2 = signal_ (g_rng.below (NCLASS), nin (c, t2), g_rng);
      if (zero) std::fill (in2.begin(), in2.end(), 0.f);
      Res f (make (c));
      unsigned off = g_rng.below (16);
      vector<float> x = run (*r, c, in2, b2, off), y = run (*f, c, in2, b2, off);
      for (size_t i = 0; i < x.size(); i++) if (memcmp (&x[i], &y[i], 4)) FAILF (c, b, "after reset(), output sample %zu is %.9g, a new resampler gives %.9g", i, x[i], y[i]);
      r->reset();
    }
}

/* ------------------------------------------------------------------ C09 */
static vector<int> g_steps_order;
static void c09 (const Cfg& c, const vector<int>& b, int cls)
{
  size_t total = sum (b);
  vector<float> in = signal_ (cls, nin (c, total), g_rng);
  vector<float> x = run1 (c, in, b, g_rng.below (16));
  if (c.ratio == 1)
    {
      for (size_t i = 0; i < x.size(); i++) if (memcmp (&x[i], &in[i], 4)) FAILF (c, b, "output sample %zu is %.9g instead of the input sample %.9g", i, x[i], in[i]);
      return;
    }
  if (c.ratio == 2) return;
  /* chain of linear steps: every response of the cascade must be that of a chain of half-band steps; the steps of a
     cascade are not accessible, so compare with the frame by frame result of the same object kind (bit-exact) */
  vector<float> y = run1 (c, in, ones (total, total > 20000 ? 61 : 1), 0);
  size_t d = differ (c, x, y, exact (c), peak (in));
  if (d != SIZE_MAX) FAILF (c, b, "output sample %zu is %.9g instead of %.9g, which the chain of steps gives", d, x[d], y[d]);
}
/* the low-rate step of a cascade is the ratio 2 resampler of the same precision: divide it out of the impulse response */
static void c09_chain()
{
  for (auto& c : g_cfgs)
    {
      if (c.ratio < 4) continue;
      Cfg c2 = c; c2.ratio = 2;
      Res a (make (c)), b (make (c2));
      if (a->order() != b->order()) FAILF (c, vector<int>(), "order() is %u, the factor 2 step of the same precision has %u", a->order(), b->order());
      /* frequency response must vanish like the first step's at its image: H(w) / H2(w) is flat around DC */
      size_t fr = 600;
      auto resp = [&] (const Cfg& k, double f) {
        std::complex<double> s = 0;
        if (k.mode == UP) { auto h = impulse (k, 0, fr); for (size_t i = 0; i < h.size(); i++) s += (double) h[i] * std::polar (1.0, -2 * M_PI * f * i / k.ratio); return s / (double) k.ratio; }
        for (int p = 0; p < k.ratio; p++) { auto h = impulse (k, p, fr); for (size_t i = 0; i < h.size(); i++) s += (double) h[i] * std::polar (1.0, -2 * M_PI * f * (i - (double) p / k.ratio)); }
        return s;
      };
      for (double f : { 0.01, 0.11, 0.2, 0.3, 0.36, 0.4, 0.55 })
        {
          double x = std::abs (resp (c, f)), y = std::abs (resp (c2, f));
          double q = c.prec == 1 ? 0.2 : 3 * pow (10, -(c.prec * 6.0 - 1) / 20) + 1e-5;
          if (f > 0.5) q += 0.15;
          else if (f > 0.408) q += 0.01;
          if (!(fabs (x - y) <= q * (0.05 + y))) FAILF (c, vector<int>(), "gain at %g of the low rate is %.9g, the low-rate factor 2 step has %.9g", f, x, y);
        }
    }
}

/* ------------------------------------------------------------------ C10 / C11 / C12 */
static vector<double> response_1 (const Cfg& c, size_t frames)        /* impulse response on the high rate time axis (down: starting at time -ratio) */
{
  vector<double> h;
  if (c.mode == UP) { for (float f : impulse (c, 0, frames)) h.push_back (f); return h; }
  /* output i may use the inputs up to ratio * i + ratio - 1: index 0 of h is time -ratio */
  h.resize (nin (c, frames) + c.ratio);
  for (int p = 0; p < c.ratio; p++)
    {
      /* input index p reaches output i with weight h[ratio*i - p] */
      size_t q = p ? c.ratio - p : 0;
      vector<float> o = impulse (c, q, frames);
      for (size_t i = 0; i < frames; i++) { long k = (long) (c.ratio * i) - (long) q + c.ratio; h[k] = o[i]; }
    }
  return h;
}
static void c10 (const Cfg& c)
{
  vector<int> nb;
  Res r (make (c));
  double d = r->delay();
  if (!(d >= 0)) FAILF (c, nb, "delay() is %g", d);
  if (c.ratio == 1) { if (d != 0) FAILF (c, nb, "delay() is %g for ratio 1", d); return; }
  size_t fr = c.filt ? 300 : 1200;
  vector<double> h = response_1 (c, fr);
  if (c.filt)
    {
      long a = 0, z = h.size() - 1;
      while (a < z && fabs (h[a]) == 0) a++;
      while (z > a && fabs (h[z]) == 0) z--;
      double cen = (a + z) / 2.0;
      double l1 = 0; for (double v : h) l1 += fabs (v);
      if (c.ratio == 2) for (long k = 0; a + k <= z; k++) if (fabs (h[a + k] - h[z - k]) > 3e-7 * l1) FAILF (c, nb, "impulse response is not symmetric");
      /* centre of mass agrees with the centre of symmetry, and is robust against tiny outer products */
      double m = 0, s = 0; for (size_t i = 0; i < h.size(); i++) { m += h[i] * i; s += h[i]; }
      double want = c.mode == UP ? m / s : (m / s - c.ratio) / c.ratio;
      if (fabs (want - d) > 1e-3) FAILF (c, nb, "delay() is %.9g, the impulse response is centred at %.9g", d, want);
      if (c.ratio == 2) { double w2 = c.mode == UP ? cen : (cen - 2) / 2; if (fabs (w2 - d) > 1e-9) FAILF (c, nb, "delay() is %.9g, the impulse response is symmetric around %.9g", d, w2); double g = c.mode == UP ? 1 : 0.5; if (fabs (d / g - round (d / g)) > 1e-9) FAILF (c, nb, "delay() is %.9g, not a multiple of %g", d, g); }
    }
  else
    {
      double m = 0, s = 0; for (size_t i = 0; i < h.size(); i++) { m += h[i] * i; s += h[i]; }
      double want = c.mode == UP ? m / s : (m / s - c.ratio) / c.ratio;
      if (fabs (want - d) > 0.105) FAILF (c, nb, "delay() is %.9g, the group delay at low frequencies is %.9g", d, want);
    }
  vector<float> in = signal_ (0, nin (c, 500), g_rng);
  run (*r, c, in, { 1, 60, 300, 139 });
  if (r->delay() != d) FAILF (c, nb, "delay() changes from %g to %g", d, r->delay());
  r->reset();
  if (r->delay() != d) FAILF (c, nb, "delay() changes from %g to %g on reset", d, r->delay());
}
static void quality (const Cfg& c)
{
  if (c.ratio == 1 || c.prec == 1) return;
  vector<int> nb;
  double D = c.prec * 6.0;
  vector<double> h = response_1 (c, c.filt ? 300 : 4000);
  double scale = c.mode == UP ? c.ratio : 1, delta = pow (10, -(D - 1) / 20);
  int k = c.ratio == 2 ? 1 : c.ratio == 4 ? 2 : 3;
  double hr = 44100.0 * c.ratio;
  auto gain = [&] (double f) { double re = 0, im = 0; std::complex<double> w = std::polar (1.0, -2 * M_PI * f / hr), z = 1; for (size_t i = 0; i < h.size(); i++) { if ((i & 255) == 0) z = std::polar (1.0, -2 * M_PI * f / hr * i); re += h[i] * z.real(); im += h[i] * z.imag(); z *= w; } return sqrt (re * re + im * im) / scale; };
  double slack = c.filt ? 3e-7 : 3e-6;       /* the measurement itself is rounded to float */
  if (c.filt == 0) slack = c.prec >= 20 ? 6e-7 : 2e-6;
  int grid = 240;
  for (int i = 0; i <= grid; i++)
    {
      double f = 18000.0 * i / grid, g = gain (f);
      if (fabs (g - 1) > k * delta + slack) FAILF (c, nb, "gain at %.1f Hz (base rate 44.1 kHz) is %.9g", f, g);
      for (int m = 1; m <= c.ratio / 2; m++)
        for (int s = -1; s <= 1; s += 2)
          {
            double fi = 44100.0 * m + s * f;
            if (fi > hr / 2 + 1) continue;
            g = gain (fi);
            if (g > delta * 1.002 + slack * 0.2) FAILF (c, nb, "gain at %.1f Hz, %s of %.1f Hz (base rate 44.1 kHz), is %.2f dB", fi, c.mode == UP ? "an image" : "an alias", f, 20 * log10 (g));
          }
    }
}

/* ------------------------------------------------------------------ C13 */
static void c13 (const Cfg& c, const vector<int>& b, int cls)
{
  if (c.ratio == 1) return;
  size_t total = sum (b);
  if (total > 9000) return;
  size_t silence = c.filt ? 500 : 12000;
  vector<float> in = signal_ (cls, nin (c, total), g_rng);
  double pk = peak (in);
  in.resize (nin (c, total + silence));
  vector<int> bb = b;
  for (size_t s = 0; s < silence; ) { int n = std::min<size_t> (silence - s, 1 + g_rng.below (900)); bb.push_back (n); s += n; }
  vector<float> x = run1 (c, in, bb);
  double bound = pk * 12 + 1e-30;
  for (size_t i = 0; i < x.size(); i++) if (!(fabs (x[i]) <= bound)) FAILF (c, b, "output sample %zu is %.9g for input up to %.9g", i, x[i], pk);
  size_t from;
  if (c.filt) { Res r (make (c)); from = total + r->order() * 2 + 8; }
  else from = total + silence - 20;
  for (size_t i = nout (c, from); i < x.size(); i++)
    if (fabs (x[i]) > (c.filt ? 0 : 1e-30)) FAILF (c, b, "output sample %zu is still %.9g, %zu frames after the input became silent", i, x[i], i / (c.mode == UP ? c.ratio : 1) - total);
}

/* ------------------------------------------------------------------ C14 */
static void c14()
{
  Cfg c = { 0, 1, 1, 0, 1 };
  static const unsigned P[] = { 1, 8, 12, 16, 20, 24 };
  auto want = [] (unsigned bits) { if (bits <= 1) return 1u; for (unsigned p : P) if (p >= bits && p > 1) return p; return 24u; };
  auto check = [&] (unsigned b) { unsigned g = Resampler2::find_precision_for_bits (b); if (g != want (b)) FAILF (c, vector<int>(), "find_precision_for_bits (%u) is %u instead of %u", b, g, want (b)); };
  for (unsigned b = 0; b < 100000; b++) { check (b); check (0u - 1 - b); check ((1u << 31) + b); check ((1u << 31) - 1 - b); }
  for (auto& h : g_hints) for (int v : h) check (v);
  for (int i = 0; i < 32; i++) for (int d = -30; d <= 30; d++) check ((1u << i) + d);
  for (int i = 0; i < 1000000; i++) check (g_rng.next());
  static const int dB[] = { 0, 48, 72, 96, 120, 144 };
  std::set<string> names;
  for (int i = 0; i < 6; i++)
    {
      const char *s = Resampler2::precision_name ((Resampler2::Precision) P[i]);
      if (!s || !*s) FAILF (c, vector<int>(), "no name for precision %u", P[i]);
      if (!names.insert (s).second) FAILF (c, vector<int>(), "\"%s\" names two precisions", s);
      if (i && (string (s).find (std::to_string (dB[i])) == string::npos || string (s).find (std::to_string (P[i])) == string::npos)) FAILF (c, vector<int>(), "precision %u is called \"%s\"", P[i], s);
      if (!i && string (s).find ("linear") == string::npos) FAILF (c, vector<int>(), "precision %u is called \"%s\"", P[i], s);
    }
  auto other = [&] (unsigned v) { for (unsigned p : P) if (p == v) return; const char *s = Resampler2::precision_name ((Resampler2::Precision) v); if (!s || names.count (s)) FAILF (c, vector<int>(), "value %u is called \"%s\"", v, s ? s : "(null)"); };
  for (unsigned v = 0; v < 70000; v++) { other (v); other (0u - v); other ((1u << 31) + v); other (256u * v); other (256u * v + 8); other (256u * v + 24); }
  for (auto& h : g_hints) for (int v : h) other (v);
  for (int i = 0; i < 200000; i++) other (g_rng.next());
}

/* ------------------------------------------------------------------ C15 */
struct Elem { static std::map<const Elem *, int> live; static long made, gone; double v[3];
  Elem() { if (live[this]) { printf ("FAIL mode=C15 cfg=0,1,1,0,1: an element is constructed twice\n"); _exit (1); } live[this] = 1; made++; v[0] = v[1] = v[2] = 1; }
  Elem (const Elem&) { live[this] = 1; made++; }
  ~Elem() { if (!live[this]) { printf ("FAIL mode=C15 cfg=0,1,1,0,1: an object is destroyed that does not exist\n"); fflush (stdout); _exit (1); } live.erase (this); gone++; } };
std::map<const Elem *, int> Elem::live;
long Elem::made, Elem::gone;
template<bool> struct Dup { template<class A> static void copy (A&) {} };
template<> struct Dup<true> { template<class A> static void copy (A& a)
  {
    Cfg c = { 0, 1, 1, 0, 1 };
    A b (a);
    if (b.size() != a.size() || (a.size() && b.begin() == a.begin())) FAILF (c, vector<int>(), "a copy of an array shares its elements");
    for (size_t i = 0; i < a.size(); i++) if (memcmp (&a[i], &b[i], sizeof (a[i]))) FAILF (c, vector<int>(), "a copy of an array differs in element %zu", i);
  } };
template<bool> struct Mov { template<class A> static void move (A&) {} };
template<> struct Mov<true> { template<class A> static void move (A& a)
  {
    Cfg c = { 0, 1, 1, 0, 1 };
    size_t n = a.size(); auto p = a.begin();
    A b (std::move (a));
    if (b.size() != n || (n && a.size() && b.begin() == a.begin())) FAILF (c, vector<int>(), "a moved array shares its elements");
    (void) p;
  } };
/* move-only or copyable by assignment */
template<bool> struct Asg { template<class A> static void assign (A&) {} };
template<> struct Asg<true> { template<class A> static void assign (A& a)
  {
    Cfg c = { 0, 1, 1, 0, 1 };
    A b (a.size() + 3);
    b = a;
    if (b.size() != a.size() || (a.size() && b.begin() == a.begin())) FAILF (c, vector<int>(), "assigning an array shares its elements");
  } };
static void c15_one (size_t n)
{
  Cfg c = { 0, 1, 1, 0, 1 };
  vector<int> b (1, n);
  {
    AlignedArray<float> a (n);
    if ((uintptr_t) a.begin() % 64) FAILF (c, b, "%zu floats: the first element is at %p", n, (void *) a.begin());
    if (a.size() != n || a.end() != a.begin() + n || (n && &a[0] != a.begin())) FAILF (c, b, "%zu floats: size() %zu, end() - begin() %ld", n, a.size(), (long) (a.end() - a.begin()));
    for (size_t i = 0; i < n; i++) { if (a[i] != 0) FAILF (c, b, "element %zu is %g", i, a[i]); a[i] = i; }
    for (size_t i = 0; i < n; i++) if (a.begin()[i] != i || ((const AlignedArray<float>&) a)[i] != i) FAILF (c, b, "element %zu is wrong", i);
    Dup<std::is_copy_constructible<AlignedArray<float>>::value>::copy (a);
    Asg<std::is_copy_assignable<AlignedArray<float>>::value>::assign (a);
    Mov<std::is_move_constructible<AlignedArray<float>>::value && !std::is_copy_constructible<AlignedArray<float>>::value>::move (a);
  }
  {
    vector<float> v (n);
    for (size_t i = 0; i < n; i++) v[i] = 3 * i + 1;
    v.reserve (n + 7);
    AlignedArray<float> a (v);
    if ((uintptr_t) a.begin() % 64 || a.size() != n) FAILF (c, b, "array of a vector of %zu", n);
    for (size_t i = 0; i < n; i++) if (a[i] != v[i]) FAILF (c, b, "element %zu is %g instead of %g", i, a[i], v[i]);
    if (n && a.begin() == v.data()) FAILF (c, b, "shares the elements of the vector");
  }
  {
    long m = Elem::made, g = Elem::gone;
    {
      AlignedArray<Elem> a (n);
      if ((uintptr_t) a.begin() % 64) FAILF (c, b, "%zu elements: the first element is at %p", n, (void *) a.begin());
      if (Elem::made - m != (long) n || Elem::live.size() != n) FAILF (c, b, "%ld elements constructed instead of %zu", Elem::made - m, n);
      for (size_t i = 0; i < n; i++) if (!Elem::live.count (&a[i]) || &a[i] != a.begin() + i) FAILF (c, b, "element %zu is not constructed", i);
    }
    if (Elem::gone - g != (long) n || Elem::live.size()) FAILF (c, b, "%ld elements destroyed instead of %zu", Elem::gone - g, n);
  }
  {
    struct Big { char x[100]; };
    AlignedArray<Big> a (n);
    AlignedArray<char> d (n);
    if ((uintptr_t) a.begin() % 64 || (uintptr_t) d.begin() % 64) FAILF (c, b, "wrong alignment");
    for (size_t i = 0; i < n; i++) { memset (&a[i], i, 100); d[i] = i; }
  }
}
static void c15()
{
  for (auto& h : g_hints) for (int v : h) if (v >= 0 && v < 3000000) c15_one (v);
  for (int rep = 0; rep < 3; rep++) for (size_t n = 0; n < 300; n++) { void *keep = malloc (g_rng.below (300)); c15_one (n); free (keep); }
  for (size_t n : { 1000, 1023, 1024, 1025, 4096, 10000, 100001 }) c15_one (n);
  for (int i = 0; i < 200 && more(); i++) c15_one (g_rng.below (20000));
}

/* ------------------------------------------------------------------ C16 */
static void c16 (const Cfg& c)
{
  vector<int> nb;
  Res r (make (c));
  bool avail = Resampler2::sse_available();
#ifdef __SSE__
  if (!avail) FAILF (c, nb, "sse_available() is false on a machine with SSE");
#endif
  bool want = avail && c.sse && c.ratio > 1;
  unsigned o = r->order(); double d = r->delay();
  if (r->sse_enabled() != want) FAILF (c, nb, "sse_enabled() is %d", r->sse_enabled());
  if (c.ratio == 1) { if (o != 0) FAILF (c, nb, "order() is %u for ratio 1", o); }
  else if (c.filt)
    {
      Cfg c2 = c; c2.ratio = 2;
      vector<double> h = response_1 (c2, 200);
      long z = h.size() - 1; while (z > 0 && h[z] == 0) z--;
      if (c.mode == DOWN) z -= 2;
      if ((long) o != z / 2 + 1) FAILF (c, nb, "order() is %u, the first step has %ld taps", o, z / 2 + 1);
    }
  else
    {
      auto it = g_coef.find (c.prec);
      if (it != g_coef.end() && o != it->second.size()) FAILF (c, nb, "order() is %u, the first step has %zu coefficients", o, it->second.size());
    }
  vector<float> in = signal_ (0, nin (c, 700), g_rng);
  run (*r, c, in, { 1, 60, 300, 0, 139 });
  for (int k = 0; k < 2; k++)
    {
      if (r->order() != o || r->delay() != d || r->sse_enabled() != want || Resampler2::sse_available() != avail) FAILF (c, nb, "a query changes its result after processing or reset");
      r->reset();
    }
}

/* ------------------------------------------------------------------ C17 */
static void c17 (const Cfg& c)
{
  vector<int> nb, b = { 1, 60, 300, 0, 139 };
  vector<float> in = signal_ (0, nin (c, 500), g_rng), ref;
  g_class = -1;
  int p[2];
  if (pipe (p)) return;
  int e = dup (2); fflush (stderr);
  dup2 (p[1], 2);
#ifdef COUNTING
  g_allocs = g_frees = 0;
#endif
  for (int fill : { -1, 0, 0xff, 0x5a })
    {
      g_fill = fill;
#ifdef COUNTING
      g_count = 1;
#endif
      Resampler2 *r = make (c);
#ifdef COUNTING
      g_count = 0;
#endif
      g_fill = -1;
      vector<float> x = run (*r, c, in, b);
      if (fill & 1) r->reset();
#ifdef COUNTING
      g_count = 1;
#endif
      delete r;
#ifdef COUNTING
      g_count = 0;
      if (g_allocs != g_frees) { dup2 (e, 2); FAILF (c, nb, "%ld allocations, %ld released", g_allocs, g_frees); }
#endif
      if (ref.empty()) ref = x;
      for (size_t i = 0; i < x.size(); i++) if (memcmp (&x[i], &ref[i], 4)) { dup2 (e, 2); FAILF (c, nb, "output sample %zu depends on what was in memory before construction: %.9g, %.9g", i, x[i], ref[i]); }
    }
  fflush (stderr);
  dup2 (e, 2); close (p[1]); close (e);
  char buf[300]; int n = read (p[0], buf, 299); close (p[0]);
  if (n > 0) { buf[n] = 0; for (char *q = buf; *q; q++) if (*q < 32) *q = ' '; FAILF (c, nb, "construction prints: %s", buf); }
  if (c.sse && c.filt == 1)
    {
      Res d (new Resampler2 ((Resampler2::Mode) c.mode, c.ratio, (Resampler2::Precision) c.prec));
      vector<float> x = run (*d, c, in, b);
      for (size_t i = 0; i < x.size(); i++) if (memcmp (&x[i], &ref[i], 4)) FAILF (c, nb, "output of a resampler made with default arguments differs");
    }
  /* the kind that was asked for */
  if (c.ratio == 1) return;
  Cfg o = c; o.filt = !c.filt;
  if (valid (o)) { vector<float> x = run1 (o, in, b); if (x == ref) FAILF (c, nb, "FIR and IIR give the same output"); }
  for (int q : FIRP)
    {
      Cfg k = c; k.prec = q;
      if (q == c.prec || !valid (k)) continue;
      vector<float> x = run1 (k, in, b);
      if (x == ref) FAILF (c, nb, "precisions %d and %d give the same output", q, c.prec);
    }
}

/* ------------------------------------------------------------------ C18 */
struct Shared { volatile int stage; volatile long allocs, frees; volatile long high[8]; volatile int sig; };
static Shared *g_sh;
struct RtArg { Cfg c; vector<int> b; float *in, *out; Resampler2 *r; int which; size_t total; };
static void touch_all (RtArg *a)
{
  size_t pos = 0;
  for (int n : a->b) { a->r->process_block (a->in + nin (a->c, pos), nin (a->c, n), a->out + nout (a->c, pos)); pos += n; }
  a->r->order(); a->r->delay(); a->r->sse_enabled();
  a->r->reset();
}
static void *rt_thread (void *p)
{
  RtArg *a = (RtArg *) p;
  touch_all (a);
  return 0;
}
static void c18 (const Cfg& c, const vector<int>& b0, int cls)
{
  vector<int> b = b0;
  size_t total = sum (b);
  fflush (stdout);
  pid_t pid = fork();
  if (pid == 0)
    {
      vector<float> in = signal_ (cls, nin (c, total), g_rng), out (nout (c, total));
      RtArg a; a.c = c; a.b = b; a.in = in.data(); a.out = out.data(); a.r = make (c); a.total = total;
      struct sock_filter f[] = { BPF_STMT (BPF_LD | BPF_W | BPF_ABS, 0), BPF_JUMP (BPF_JMP | BPF_JEQ | BPF_K, __NR_exit_group, 1, 0), BPF_STMT (BPF_RET | BPF_K, SECCOMP_RET_KILL_PROCESS), BPF_STMT (BPF_RET | BPF_K, SECCOMP_RET_ALLOW) };
      struct sock_fprog prog = { 4, f };
      prctl (PR_SET_NO_NEW_PRIVS, 1, 0, 0, 0);
      bool sec = prctl (PR_SET_SECCOMP, SECCOMP_MODE_FILTER, &prog) == 0;
      (void) sec;
      g_allocs = g_frees = 0; g_count = 1;
      touch_all (&a);
      g_count = 0;
      syscall (__NR_exit_group, (g_allocs || g_frees) ? 3 : 0);
    }
  int st = 0; double t0 = now();
  while (waitpid (pid, &st, WNOHANG) == 0)
    {
      if (now() - t0 > 20 + total * 2e-4) { kill (pid, SIGKILL); waitpid (pid, &st, 0); FAILF (c, b, "does not terminate"); }
      usleep (200);
    }
  if (WIFEXITED (st) && WEXITSTATUS (st) == 3) FAILF (c, b, "allocates or releases memory");
  if (WIFSIGNALED (st) && WTERMSIG (st) == SIGSYS) FAILF (c, b, "makes a system call");
  if (WIFSIGNALED (st)) FAILF (c, b, "ends with signal %d", WTERMSIG (st));
  if (WIFEXITED (st) && WEXITSTATUS (st)) FAILF (c, b, "ends with status %d", WEXITSTATUS (st));
}
static long stack_use (const Cfg& c, const vector<int>& b)
{
  const size_t SZ = 64 << 20;
  char *s = (char *) mmap (0, SZ, PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS | MAP_NORESERVE | MAP_STACK, -1, 0);
  vector<float> in (nin (c, sum (b))), out (nout (c, sum (b)));
  RtArg a; a.c = c; a.b = b; a.in = in.data(); a.out = out.data(); Res r (make (c)); a.r = r.get();
  pthread_attr_t at; pthread_attr_init (&at); pthread_attr_setstack (&at, s, SZ);
  pthread_t t; pthread_create (&t, &at, rt_thread, &a); pthread_join (t, 0);
  /* resident pages from below */
  size_t pages = SZ / 4096; vector<unsigned char> v (pages);
  mincore (s, SZ, v.data());
  size_t k = 0; while (k < pages && !(v[k] & 1)) k++;
  munmap (s, SZ);
  return (pages - k) * 4096;
}
static void c18_stack()
{
  for (auto& c : g_cfgs)
    {
      long a = stack_use (c, { 1, 5000, 3 }), z = stack_use (c, { 1, 400000, 3 });
      if (z > a + 16384) FAILF (c, vector<int> (1, 400000), "uses %ld bytes of stack for 5000 frames and %ld for 400000", a, z);
    }
}

/* ------------------------------------------------------------------ one block of billions of samples
 * The long buffers are made of the same few pages, mapped again and again; only the first and the last pages of the
 * output are memory of their own, so that they can be compared. */
static const size_t BW = 1 << 22;
struct Long
{
  char *base = nullptr; size_t bytes = 0, total = 0; float *p = nullptr;
  bool make (size_t n, bool own)
  {
    bytes = n * sizeof (float);
    total = (bytes + BW - 1) / BW * BW;
    int fd = memfd_create ("pv", 0);
    if (fd < 0 || ftruncate (fd, BW)) return false;
    base = (char *) mmap (0, total + 2 * BW, PROT_NONE, MAP_PRIVATE | MAP_ANONYMOUS | MAP_NORESERVE, -1, 0);
    if (base == MAP_FAILED) return false;
    base += BW;
    for (size_t o = 0; o < total; o += BW)
      {
        bool mine = own && (o == 0 || o + 2 * BW >= total);
        void *q = mine ? mmap (base + o, BW, PROT_READ | PROT_WRITE, MAP_FIXED | MAP_PRIVATE | MAP_ANONYMOUS, -1, 0) : mmap (base + o, BW, PROT_READ | PROT_WRITE, MAP_FIXED | MAP_SHARED, fd, 0);
        if (q == MAP_FAILED) return false;
      }
    close (fd);
    p = (float *) (base + total - bytes);
    return true;
  }
};
static int big (const Cfg& c)
{
  vector<int> nb;
  size_t frames = c.mode == UP ? (((size_t) 1 << 32) + 1024) / c.ratio : (((size_t) 1 << 32) - 1) / c.ratio;
  if (nin (c, frames) > 0xffffffffUL) frames = 0xffffffffUL;
  Long I, O;
  size_t ni = nin (c, frames), no = nout (c, frames), P = BW / sizeof (float);
  if (!I.make (ni, false) || !O.make (no, true)) return 2;
  vector<float> noise = signal_ (0, P, g_rng);
  memcpy (I.base, noise.data(), BW);
  for (size_t o : { (size_t) 0, O.total - 2 * BW, O.total - BW }) memset (O.base + o, 0xff, BW);
  { Res r (make (c)); r->process_block (I.p, (uint) ni, O.p); }
  double tol = c.ratio == 1 ? 0 : 1e-4;
  /* the end: from BW before the last two windows on, with the history before it */
  size_t span = 60000;
  auto compare = [&] (size_t from, size_t skip, size_t n, const char *what) {
    Res r (make (c));
    for (size_t done = 0; done < n; )
      {
        size_t f = std::min<size_t> (n - done, 700);
        vector<float> in (I.p + nin (c, from + done), I.p + nin (c, from + done + f)), out (nout (c, f));
        r->process_block (in.data(), in.size(), out.data());
        for (size_t k = 0; k < out.size(); k++)
          {
            if (nout (c, done) + k < nout (c, skip)) continue;
            size_t at = nout (c, from + done) + k;
            if (!(fabs (O.p[at] - out[k]) <= tol * c.ratio)) FAILF (c, nb, "one block of %zu samples: output sample %zu (%s) is %.9g instead of %.9g", ni, at, what, O.p[at], out[k]);
          }
        done += f;
      }
  };
  size_t first = BW - (O.p - (float *) O.base) * sizeof (float);        /* bytes of the first window in use */
  compare (0, 0, std::min<size_t> (span, first / sizeof (float) / (c.mode == UP ? c.ratio : 1)), "at the start");
  compare (frames - span, 6000, span, "at the end");
  return 0;
}

int main (int argc, char **argv)
{
  if (argc < 2) return 2;
  g_mode = argv[1];
  double secs = 20;
  bool longblock = false;
  vector<Cfg> hinted;
  for (int i = 2; i < argc; i++)
    {
      string a = argv[i];
      if (a.compare (0, 4, "cfg=") == 0) { Cfg c; if (sscanf (a.c_str() + 4, "%d,%d,%d,%d,%d", &c.mode, &c.ratio, &c.prec, &c.sse, &c.filt) == 5) hinted.push_back (c); }
      else if (a.compare (0, 7, "blocks=") == 0) { vector<int> b; const char *p = a.c_str() + 7; while (*p) { b.push_back (strtol (p, (char **) &p, 10)); if (*p == ',') p++; } g_hints.push_back (b); }
      else if (a.compare (0, 5, "seed=") == 0) g_seed = strtoul (a.c_str() + 5, 0, 10);
      else if (a == "big=1") longblock = true;
      else if (a.compare (0, 5, "secs=") == 0) secs = atof (a.c_str() + 5);
      else if (a.compare (0, 5, "coef=") == 0) { const char *p = a.c_str() + 5; int q = strtol (p, (char **) &p, 10); vector<double> v; while (*p) { p++; v.push_back (strtod (p, (char **) &p)); } g_coef[q] = v; }
    }
  for (unsigned long i = 0; i < g_seed % 1000 + 10; i++) g_rng.next();
  g_rng.s += g_seed * 0x9e3779b97f4a7c15ULL | 1;
  if (hinted.size()) g_cfgs = hinted;
  else
    for (int f = 1; f >= 0; f--) for (int ratio : { 2, 4, 8, 1 }) for (int prec : FIRP) for (int mode = 0; mode < 2; mode++) for (int sse = 0; sse < 2; sse++)
      { Cfg c = { mode, ratio, prec, sse, f }; if (valid (c)) g_cfgs.push_back (c); }
  g_end = now() + secs;
  if (longblock)
    {
      for (auto& c : g_cfgs) { int rc = big (c); if (rc) return rc; if (!more()) break; }
      printf ("OK mode=%s long blocks\n", g_mode);
      return 0;
    }
  string m = g_mode;
  auto all = [] (const Cfg&) { return true; };
  if (m == "C01") sweep (all, c01);
  else if (m == "C02") sweep ([] (const Cfg& c) { return c.filt == 1 && c.mode == UP && c.ratio == 2; }, c02);
  else if (m == "C03") sweep ([] (const Cfg& c) { return c.filt == 1 && c.mode == DOWN && c.ratio == 2; }, c03);
  else if (m == "C04") sweep ([] (const Cfg& c) { return c.filt == 0 && c.ratio == 2; }, c04);
  else if (m == "C05") sweep ([] (const Cfg& c) { return c.sse == 1; }, c05);
  else if (m == "C06") sweep (all, c06);
  else if (m == "C07") { c07_threads(); sweep (all, c07, false, 1500); }
  else if (m == "C08") sweep (all, c08, false, 1500);
  else if (m == "C09") { c09_chain(); sweep (all, c09); }
  else if (m == "C10") { for (auto& c : g_cfgs) c10 (c); }
  else if (m == "C11") { for (auto& c : g_cfgs) if (c.filt == 1) quality (c); }
  else if (m == "C12") { for (auto& c : g_cfgs) if (c.filt == 0) quality (c); }
  else if (m == "C13") sweep (all, c13, false, 1000);
  else if (m == "C14") c14();
  else if (m == "C15") c15();
  else if (m == "C16") { for (auto& c : g_cfgs) c16 (c); }
  else if (m == "C17") { for (auto& c : g_cfgs) c17 (c); }
  else if (m == "C18") { if (!getenv ("NOSTACK")) c18_stack(); sweep (all, c18, true, 3000); }
  else return 2;
  printf ("OK mode=%s configurations=%zu\n", g_mode, g_cfgs.size());
  return 0;
}
