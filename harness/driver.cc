#include <string>
#include <vector>
#include <type_traits>
#ifdef PV_LIBRARY
#include "pandaresampler/pandaresampler.cc"
#else
#define PANDA_RESAMPLER_HEADER_ONLY
#include "pandaresampler.hh"
#endif
using namespace PandaResampler;
extern "C" {
Resampler2 *pv_new (int mode, unsigned ratio, int prec, int sse, int filter)
{ return new Resampler2 ((Resampler2::Mode) mode, ratio, (Resampler2::Precision) prec, sse != 0, (Resampler2::Filter) filter); }
Resampler2 *pv_new_default (int mode, unsigned ratio, int prec)
{ return new Resampler2 ((Resampler2::Mode) mode, ratio, (Resampler2::Precision) prec); }
void pv_delete (Resampler2 *r) { delete r; }
void pv_process (Resampler2 *r, const float *in, unsigned n, float *out) { r->process_block (in, n, out); }
unsigned pv_order (const Resampler2 *r) { return r->order(); }
double pv_delay (const Resampler2 *r) { return r->delay(); }
void pv_reset (Resampler2 *r) { r->reset(); }
int pv_sse_enabled (const Resampler2 *r) { return r->sse_enabled(); }
int pv_have_sse ()
#ifdef __SSE__
{ return 1; }
#else
{ return 0; }
#endif
int pv_sse_available () { return Resampler2::sse_available(); }
unsigned pv_find (unsigned bits) { return Resampler2::find_precision_for_bits (bits); }
const char *pv_name (int p) { return Resampler2::precision_name ((Resampler2::Precision) p); }

/* AlignedArray with a trivial and with a tracked element type */
void pv_elem_ctor (void *);
void pv_elem_dtor (void *);
struct PvElem { double a, b, c; PvElem() { pv_elem_ctor (this); } ~PvElem() { pv_elem_dtor (this); } };
typedef AlignedArray<float> FArr;
typedef AlignedArray<PvElem> EArr;
FArr  *pv_fa_new (size_t n) { return new FArr (n); }
FArr  *pv_fa_vec (const std::vector<float> *v) { return new FArr (*v); }
void   pv_fa_delete (FArr *a) { delete a; }
float *pv_fa_at (FArr *a, size_t i) { return &(*a)[i]; }
const float *pv_fa_cat (const FArr *a, size_t i) { return &(*a)[i]; }
float *pv_fa_begin (FArr *a) { return a->begin(); }
float *pv_fa_end (FArr *a) { return a->end(); }
size_t pv_fa_size (const FArr *a) { return a->size(); }
EArr  *pv_ea_new (size_t n) { return new EArr (n); }
void   pv_ea_delete (EArr *a) { delete a; }
PvElem *pv_ea_at (EArr *a, size_t i) { return &(*a)[i]; }
PvElem *pv_ea_begin (EArr *a) { return a->begin(); }
PvElem *pv_ea_end (EArr *a) { return a->end(); }
size_t pv_ea_size (const EArr *a) { return a->size(); }
int pv_copyable() { return std::is_copy_constructible<FArr>::value || std::is_copy_assignable<FArr>::value || std::is_copy_constructible<EArr>::value || std::is_copy_assignable<EArr>::value; }
int pv_movable() { return std::is_move_constructible<FArr>::value || std::is_move_assignable<FArr>::value; }
}
