// what the models need from the uninstrumented runtime
#ifndef VP_MODELS_H
#define VP_MODELS_H
#include <cstddef>
#include <cstdint>
#include <cstdio>
extern "C" {
int vp_n_memcmp (const void*, const void*, size_t);
void* vp_n_memchr (const void*, int, size_t);
void* vp_n_malloc (size_t);
void* vp_n_calloc (size_t);
void* vp_n_new (size_t);
void vp_n_free (void*);
size_t vp_n_usable (void*);
void* vp_n_exception (size_t);
void* vp_n_runtime_error (void* self, const char* p, size_t n);
double vp_n_strtod (const char*);
float vp_n_strtof (const char*);
double vp_n_fmod (double, double);
int vp_n_fmt_double (char* b, size_t n, const char* flags, int width, int prec, char conv, uint64_t v);
void vp_n_unsupported (const char*);
int vp_n_stdstream (FILE*);
void vp_rt_alloc (void*, size_t);
void vpm_vfs_put (const char* path, const void* data, size_t n);
long vpm_vfs_size (const char* path);
const unsigned char* vpm_vfs_data (const char* path);
void vpm_set_locale (const char*, const char*);
}
#endif
