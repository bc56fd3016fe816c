// malloc() replacement which counts and fills; only linked into plain builds (the sanitizers bring their own)
#pragma once
#include <stddef.h>
struct AllocStats { long allocs, frees, bytes; };
bool        alloc_hook_active();
AllocStats  alloc_stats();               // of this thread, since it started
void        alloc_fill (int byte);       // fill new (and freed) memory of this thread with byte, -1: off
bool        alloc_find (const void *p, const char *&start, size_t& size); // recent block of this thread that contains p
void        alloc_fail_at (long n);      // the n-th allocation of this thread from now on fails (1: the next one), 0: none
bool        alloc_failed();              // has it failed?
