// Compiled once per build variant, together with (or, in header-only mode, including) pandaresampler.cc
#include "pandaresampler.hh"
#include <new>
#include <utility>
#include <type_traits>
#include "api.h"
#ifndef VARIANT
#define VARIANT "?"
#endif
#ifndef API_EXPORT
#define API_EXPORT
#endif
typedef PandaResampler::Resampler2 R;
static R *cast (void *p) { return static_cast<R *> (p); }
static const R *cast (const void *p) { return static_cast<const R *> (p); }
static void *
a_create (int mode, unsigned ratio, int prec, int use_sse, int filter, int n_args)
{
  if (n_args == 3)
    return new R (R::Mode (mode), ratio, R::Precision (prec));
  if (n_args == 4)
    return new R (R::Mode (mode), ratio, R::Precision (prec), use_sse != 0);
  return new R (R::Mode (mode), ratio, R::Precision (prec), use_sse != 0, R::Filter (filter));
}
static void *
a_create_at (void *mem, int mode, unsigned ratio, int prec, int use_sse, int filter)
{
  return new (mem) R (R::Mode (mode), ratio, R::Precision (prec), use_sse != 0, R::Filter (filter));
}
static void a_destroy_at (void *p) { cast (p)->~R(); }
static void a_destroy (void *p) { delete cast (p); }
static void a_process (void *p, const float *in, unsigned n, float *out) { cast (p)->process_block (in, n, out); }
static void a_reset (void *p) { cast (p)->reset(); }
static double a_delay (const void *p) { return cast (p)->delay(); }
static unsigned a_order (const void *p) { return cast (p)->order(); }
static int a_sse_enabled (const void *p) { return cast (p)->sse_enabled(); }
static void *a_move_new (void *p) { return new R (std::move (*cast (p))); }
static void a_move_assign (void *to, void *from) { *cast (to) = std::move (*cast (from)); }
static void a_swap (void *a, void *b) { std::swap (*cast (a), *cast (b)); }
template<class T> static typename std::enable_if<std::is_copy_constructible<T>::value, void *>::type copy_new (const T *p) { return new T (*p); }
template<class T> static typename std::enable_if<!std::is_copy_constructible<T>::value, void *>::type copy_new (const T *) { return nullptr; }
template<class T> static typename std::enable_if<std::is_copy_assignable<T>::value, bool>::type copy_assign (T *to, const T *from) { *to = *from; return true; }
template<class T> static typename std::enable_if<!std::is_copy_assignable<T>::value, bool>::type copy_assign (T *, const T *) { return false; }
static void *a_copy_new (const void *p) { return copy_new (cast (p)); }
static bool a_copy_assign (void *to, const void *from) { return copy_assign (cast (to), cast (from)); }
static int a_sse_available() { return R::sse_available(); }
static int a_find (unsigned bits) { return R::find_precision_for_bits (bits); }
static const char *a_name (int prec) { return R::precision_name (R::Precision (prec)); }
static int a_test (int verbose) { return R::test_filter_impl (verbose != 0); }
// enumerators as the public API names them
static_assert (R::UP == 0 && R::DOWN == 1, "modes");
static_assert (R::PREC_LINEAR == 1 && R::PREC_48DB == 8 && R::PREC_72DB == 12 && R::PREC_96DB == 16 && R::PREC_120DB == 20 && R::PREC_144DB == 24, "precisions");
static_assert (R::FILTER_IIR == 0 && R::FILTER_FIR == 1, "filters");
static const RsApi the_api = {
  VARIANT, sizeof (R), alignof (R), a_create, a_create_at, a_destroy_at, a_destroy, a_process, a_reset, a_delay, a_order, a_sse_enabled, a_move_new, a_move_assign, a_swap, a_copy_new, a_copy_assign, a_sse_available, a_find, a_name, a_test
};
#ifndef API_FN
#define API_FN rs_get_api
#endif
extern "C" API_EXPORT const RsApi *API_FN() { return &the_api; }
