// C interface to one build of the library, so that builds with different compilers and flags can be linked into
// (or dynamically loaded by) the same harness.
#pragma once
#include <stddef.h>
struct RsApi
{
  const char *variant;
  size_t   object_size, object_align;
  // n_args: how many constructor arguments to pass explicitly (3..5)
  void    *(*create)(int mode, unsigned ratio, int prec, int use_sse, int filter, int n_args);
  void    *(*create_at)(void *mem, int mode, unsigned ratio, int prec, int use_sse, int filter);
  void     (*destroy_at)(void *);
  void     (*destroy)(void *);
  void     (*process)(void *, const float *in, unsigned n, float *out);
  void     (*reset)(void *);
  double   (*delay)(const void *);
  unsigned (*order)(const void *);
  int      (*sse_enabled)(const void *);
  void    *(*move_new)(void *from);              // new object, move constructed
  void     (*move_assign)(void *to, void *from);
  void     (*swap)(void *a, void *b);
  // null if resamplers cannot be copied (they cannot, so far); if they can, copies have to be independent
  void    *(*copy_new)(const void *from);
  bool     (*copy_assign)(void *to, const void *from);
  int      (*sse_available)();
  int      (*find_precision)(unsigned bits);
  const char *(*precision_name)(int prec);
  int      (*test_filter_impl)(int verbose);
};
extern "C" const RsApi *rs_get_api();
