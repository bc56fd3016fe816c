#include "alloc_hook.hh"
bool alloc_hook_active() { return false; }
AllocStats alloc_stats() { return AllocStats {}; }
void alloc_fill (int) {}
bool alloc_find (const void *, const char *&, size_t&) { return false; }
void alloc_fail_at (long) {}
bool alloc_failed() { return false; }
