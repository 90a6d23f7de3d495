/* instantiation unit: nothing but calls of the real functions */
#include "streams.hpp"
#include <cybozu/base64.hpp>
extern "C" {
void w_enc(Out& os, In& is, size_t maxLineSize, int mode) { cybozu::EncodeToBase64(os, is, maxLineSize, mode); }
void w_enc_def(Out& os, In& is) { cybozu::EncodeToBase64(os, is); }
void w_dec(Out& os, In& is) { cybozu::DecodeFromBase64(os, is); }
}
