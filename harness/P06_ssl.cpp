#include <string>
#include <stdio.h>
#include <openssl/evp.h>
#define cybozu cybozu_ssl
#include <cybozu/sha2.hpp>
#define VF_NOMAIN
#include "h.hpp"
#include "P06_ops.hpp"
std::string ssl_chunks(uint64_t seed, const std::string& m, size_t L, size_t room, int which) { return chunks(seed, m, L, room, which); }
std::string ssl_hm(const std::string& key, const std::string& msg) { return hm(key, msg); }
