// entry point of an instrumented executable, and the variables through which calls pass their shadows
void* __sym_args[256];
void* __sym_rets[64];
void* __sym_callee;
void* __sym_retfn;
int vp_main (int, char**);
int main (int argc, char** argv) { return vp_main(argc, argv); }

/* what the program under test allocates lives in an arena of its own (see vp_arena_alloc), so that its addresses
   do not depend on what the runtime and the solver allocate */
#include <stddef.h>
#include <stdint.h>
#include <string.h>
#include "arena.h"
void __libc_free (void*);
void* __libc_malloc (size_t);
void* __libc_realloc (void*, size_t);
void vp_arena_free (void*);
size_t vp_arena_size (void*);
void free (void* p)
{
	if ((uintptr_t) p - VP_ARENA < VP_ARENA_SIZE) vp_arena_free(p);
	else __libc_free(p);
}
void* realloc (void* p, size_t n)
{
	if ((uintptr_t) p - VP_ARENA >= VP_ARENA_SIZE) return __libc_realloc(p, n);
	void* q = __libc_malloc(n);
	size_t old = vp_arena_size(p);
	if (q) { memcpy(q, p, old < n ? old : n); vp_arena_free(p); }
	return q;
}
