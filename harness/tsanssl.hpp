// libcrypto is not instrumented: tell ThreadSanitizer which memory the digest
// calls read and write, so that shared contexts and buffers are seen whatever
// the schedule of the run was.
#pragma once
#include <dlfcn.h>
#include <openssl/evp.h>
extern "C" void __tsan_read1(void*); extern "C" void __tsan_write1(void*);
namespace tsanssl {
template<class F> inline F real(const char* n) { return reinterpret_cast<F>(dlsym(RTLD_NEXT, n)); }
inline auto f_init() { static const auto f = real<int (*)(EVP_MD_CTX*, const EVP_MD*, ENGINE*)>("EVP_DigestInit_ex"); return f; } inline const auto f_init_ready = f_init();
inline auto f_update() { static const auto f = real<int (*)(EVP_MD_CTX*, const void*, size_t)>("EVP_DigestUpdate"); return f; } inline const auto f_update_ready = f_update();
inline auto f_final() { static const auto f = real<int (*)(EVP_MD_CTX*, unsigned char*, unsigned*)>("EVP_DigestFinal_ex"); return f; } inline const auto f_final_ready = f_final();
inline auto f_reset() { static const auto f = real<int (*)(EVP_MD_CTX*)>("EVP_MD_CTX_reset"); return f; } inline const auto f_reset_ready = f_reset();
inline void wr(const void* p, size_t n) { for (size_t i = 0; p && i < n; ++i) __tsan_write1(const_cast<char*>(static_cast<const char*>(p)) + i); }
inline void rd(const void* p, size_t n) { for (size_t i = 0; p && i < n; ++i) __tsan_read1(const_cast<char*>(static_cast<const char*>(p)) + i); }
}
extern "C" {
int EVP_DigestInit_ex(EVP_MD_CTX* x, const EVP_MD* t, ENGINE* e) { tsanssl::wr(x, 1); return tsanssl::f_init()(x, t, e); }
int EVP_DigestUpdate(EVP_MD_CTX* x, const void* d, size_t n) { tsanssl::wr(x, 1); tsanssl::rd(d, n); return tsanssl::f_update()(x, d, n); }
int EVP_DigestFinal_ex(EVP_MD_CTX* x, unsigned char* m, unsigned* s) { tsanssl::wr(x, 1); unsigned n = 0; int r = tsanssl::f_final()(x, m, &n); tsanssl::wr(m, n); if (s) *s = n; return r; }
int EVP_MD_CTX_reset(EVP_MD_CTX* x) { tsanssl::wr(x, 1); return tsanssl::f_reset()(x); }
}
