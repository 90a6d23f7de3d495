/* instantiation unit: nothing but calls of the real functions (access control is dropped) */
#include <string>
#include <algorithm>
#include <new>
#include <memory.h>
#include <assert.h>
#include <stddef.h>
#include <cybozu/inttype.hpp>
#include <cybozu/endian.hpp>
#ifndef USE_SSL
#define CYBOZU_DONT_USE_OPENSSL
#else
#include <stdio.h>
#include <openssl/evp.h>
#endif
#define private public
#include <cybozu/sha1.hpp>
#include <cybozu/sha2.hpp>
typedef cybozu::T_ H;
extern "C" {
#ifdef HMAC
void w_hmac(void *hmac, const void *key, size_t keySize, const void *msg, size_t msgSize) { cybozu::hmac256(hmac, key, keySize, msg, msgSize); }
#elif defined(SHA1)
extern const size_t vf_layout[];
const size_t vf_layout[] = { sizeof(H), offsetof(H, totalSize_), offsetof(H, roundBufSize_), offsetof(H, roundBuf_), offsetof(H, H_), offsetof(H, K_), offsetof(H, digest_), offsetof(H, done_) };
void w_ctor(H *h) { new(h) H(); }
void w_round(H& h, const char *buf) { h.round(buf); }
void w_update(H& h, const char *buf, size_t n) { h.update(buf, n); }
void w_update_s(H& h, const std::string& s) { h.update(s); }
void w_digest(std::string *out, H& h, const char *buf, size_t n) { new(out) std::string(h.digest(buf, n)); }
void w_digest_s(std::string *out, H& h, const std::string& s) { new(out) std::string(h.digest(s)); }
void w_get(char *out, H& h) { h.get(out); }
#else
#ifdef USE_SSL
void w_dtor(H *h) { h->~H(); }
#else
extern const size_t vf_layout[];
const size_t vf_layout[] = { sizeof(H), offsetof(H, totalSize_), offsetof(H, roundBufSize_), offsetof(H, roundBuf_), offsetof(H, h_), offsetof(H, k_) };
void w_round(H& h, const uint8_t *buf) { h.round(buf); }
#endif
void w_ctor(H *h) { new(h) H(); }
void w_clear(H& h) { h.clear(); }
void w_update(H& h, const void *buf, size_t n) { h.update(buf, n); }
void w_update_s(H& h, const std::string& s) { h.update(s); }
size_t w_digest(void *md, size_t mdSize, H& h, const void *buf, size_t n) { return h.digest(md, mdSize, buf, n); }
void w_digest_r(std::string *out, H& h, const void *buf, size_t n) { new(out) std::string(h.digest(buf, n)); }
void w_digest_s(std::string *out, H& h, const std::string& s) { new(out) std::string(h.digest(s)); }
#endif
}
