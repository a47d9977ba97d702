// API used by the harnesses; implemented by the symbolic runtime (rt.cpp) and by the native replay runtime (native.cpp)
#ifndef VP_H
#define VP_H
#include <cstddef>
#include <cstdint>
#include <string>
#include <cmath>
extern "C" {
// symbolic inputs
uint8_t vp_byte (const char* name);                                  // any byte
int64_t vp_range (const char* name, int64_t lo, int64_t hi);         // any integer in [lo, hi]
uint8_t vp_char (const char* name, const char* set, unsigned n);     // any of the n bytes of set
int vp_choice (const char* name, int n);                             // 0..n-1, each explored as its own path
// obligations
void vp_assume (int cond);
void vp_assert (int cond, const char* msg);
void vp_cover (const char* label);
void vp_observe (uint64_t v);
void vp_observe_bytes (const void* p, size_t n);
void vp_fail (const char* msg);
void vp_note (const char* label, const char* text);
// helpers
int vp_case (void);                                                  // which case of the harness this process runs
int vp_tier (void);                                                  // 0 quick, 1 thorough
int vp_mem_eq (const void* a, const void* b, size_t n);              // equality as one formula (no forking)
int vp_mem_cmp (const void* a, const void* b, size_t n);             // sign of memcmp as one formula
int vp_has_sym (const void* p, size_t n);
int vp_is_sym (uint64_t v);
int64_t vp_concretize (int64_t v);                                   // fork on the value
int64_t vp_ite (int c, int64_t a, int64_t b);                        // no forking
void vp_hint (const char* name, int64_t value);                      // preferred starting value
void vp_stop (void);                                                 // end this path quietly
// virtual files
#ifdef VP_SYMBOLIC
#define vp_vfs_put vpm_vfs_put
#define vp_vfs_size vpm_vfs_size
#define vp_vfs_data vpm_vfs_data
#define vp_set_locale vpm_set_locale
#endif
void vp_vfs_put (const char* path, const void* data, size_t n);
long vp_vfs_size (const char* path);                                 // -1: no such file
const unsigned char* vp_vfs_data (const char* path);
int vp_symbolic (void);                                              // 1 in the symbolic build, 0 natively
// fake locale: decimal point and thousands separator
void vp_set_locale (const char* decimal_point, const char* thousands_sep);
void vp_harness (void);                                              // provided by the harness
}
static inline int vp_str_eq (std::string const& a, std::string const& b)
{
	return a.size() == b.size() && vp_mem_eq(a.data(), b.data(), a.size());
}
static inline void vp_observe_str (std::string const& s)
{
	vp_observe(s.size());
	vp_observe_bytes(s.data(), s.size());
}
#endif
