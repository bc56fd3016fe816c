#include "alloc_hook.hh"
#include <string.h>
#include <errno.h>
#include <stdint.h>
#include <malloc.h>
extern "C" {
void *__libc_malloc (size_t);
void  __libc_free (void *);
void *__libc_calloc (size_t, size_t);
void *__libc_realloc (void *, size_t);
void *__libc_memalign (size_t, size_t);
}
#define TLS static thread_local __attribute__ ((tls_model ("initial-exec")))
struct Rec { const char *p; size_t n; };
TLS AllocStats stats;
TLS int fill = -1;
TLS long fail_at;
TLS bool has_failed;
TLS Rec ring[64];
TLS unsigned ring_pos;
bool alloc_hook_active() { return true; }
AllocStats alloc_stats() { return stats; }
void alloc_fill (int byte) { fill = byte; }
void alloc_fail_at (long n) { fail_at = n; has_failed = false; }
bool alloc_failed() { return has_failed; }
static bool
refuse()
{
  if (__builtin_expect (fail_at > 0, 0) && --fail_at == 0)
    {
      has_failed = true;
      errno = ENOMEM;
      return true;
    }
  return false;
}
bool
alloc_find (const void *p, const char *&start, size_t& size)
{
  const char *q = (const char *) p;
  for (unsigned i = 1; i <= 64; i++)
    {
      Rec& r = ring[(ring_pos - i) % 64];
      if (r.p && q >= r.p && q <= r.p + r.n)
        {
          start = r.p;
          size = r.n;
          return true;
        }
    }
  return false;
}
static void *
note (void *p, size_t n)
{
  if (p)
    {
      stats.allocs++;
      stats.bytes += malloc_usable_size (p);
      ring[ring_pos++ % 64] = { (const char *) p, n };
    }
  return p;
}
static void
note_free (void *p)
{
  stats.frees++;
  stats.bytes -= malloc_usable_size (p);
  for (auto& r : ring)
    if (r.p == p)
      r.p = nullptr;
}
extern "C" {
void *
malloc (size_t n)
{
  if (refuse())
    return nullptr;
  void *p = note (__libc_malloc (n), n);
  if (p && fill >= 0)
    memset (p, fill, n);
  return p;
}
void
free (void *p)
{
  if (!p)
    return;
  note_free (p);
  if (fill >= 0)
    memset (p, fill, malloc_usable_size (p));
  __libc_free (p);
}
void *calloc (size_t n, size_t m) { return refuse() ? nullptr : note (__libc_calloc (n, m), n * m); }
void *
realloc (void *q, size_t n)
{
  if (n && refuse())
    return nullptr;
  if (q)
    note_free (q);
  return note (__libc_realloc (q, n), n);
}
static void *
aligned (size_t a, size_t n)
{
  if (refuse())
    return nullptr;
  void *p = note (__libc_memalign (a, n), n);
  if (p && fill >= 0)
    memset (p, fill, n);
  return p;
}
void *memalign (size_t a, size_t n) { return aligned (a, n); }
void *aligned_alloc (size_t a, size_t n) { return aligned (a, n); }
int
posix_memalign (void **p, size_t a, size_t n)
{
  int e = errno;
  *p = aligned (a, n);
  errno = e;
  return *p ? 0 : ENOMEM;
}
}
