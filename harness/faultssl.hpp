// Stand-ins in front of libcrypto's digest calls that fail the chosen one.
#pragma once
#include <dlfcn.h>
#include <openssl/evp.h>
#include <openssl/err.h>
namespace fault {
inline int at = -1, calls = 0, hits = 0; inline long live = 0; inline bool silent = false;   // silent: libcrypto's error queue says nothing
inline void arm(int n, bool quiet) { at = n; calls = 0; hits = 0; silent = quiet; }
inline void disarm() { at = -1; ERR_clear_error(); }
inline bool fail() { if (at < 0 || calls++ != at) return false; ++hits; if (!silent) ERR_raise(ERR_LIB_EVP, ERR_R_INTERNAL_ERROR); return true; }
template<class F> inline F real(const char* n) { return reinterpret_cast<F>(dlsym(RTLD_NEXT, n)); }
}
extern "C" {
EVP_MD_CTX* EVP_MD_CTX_new(void) { if (fault::fail()) return nullptr; static auto f = fault::real<EVP_MD_CTX* (*)(void)>("EVP_MD_CTX_new"); auto* p = f(); fault::live += p != nullptr; return p; }
void EVP_MD_CTX_free(EVP_MD_CTX* x) { static auto f = fault::real<void (*)(EVP_MD_CTX*)>("EVP_MD_CTX_free"); fault::live -= x != nullptr; f(x); }
int EVP_DigestInit_ex(EVP_MD_CTX* x, const EVP_MD* t, ENGINE* e) { if (fault::fail()) return 0; static auto f = fault::real<int (*)(EVP_MD_CTX*, const EVP_MD*, ENGINE*)>("EVP_DigestInit_ex"); return f(x, t, e); }
int EVP_DigestUpdate(EVP_MD_CTX* x, const void* d, size_t n) { if (fault::fail()) return 0; static auto f = fault::real<int (*)(EVP_MD_CTX*, const void*, size_t)>("EVP_DigestUpdate"); return f(x, d, n); }
int EVP_DigestFinal_ex(EVP_MD_CTX* x, unsigned char* m, unsigned* s) { if (fault::fail()) return 0; static auto f = fault::real<int (*)(EVP_MD_CTX*, unsigned char*, unsigned*)>("EVP_DigestFinal_ex"); return f(x, m, s); }
}
