/* instantiation unit: nothing but calls of the real functions */
#include <cybozu/string.hpp>
using namespace cybozu;
extern "C" {
int w_size(Char c) { return cybozu::string::GetCharSize(c); }
bool w_valid(Char c) { return cybozu::string::IsValidChar(c); }
size_t w_get8(bool *ok, Char *c, const char *b, const char *e) { const char *p = b; *ok = cybozu::string::GetCharFromUtf8(c, p, e); return p - b; }
size_t w_get16(bool *ok, Char *c, const Char16 *b, const Char16 *e) { const Char16 *p = b; *ok = cybozu::string::GetCharFromUtf16(*c, p, e); return p - b; }
int w_to8(char *out, Char c) { return cybozu::string::toUtf8(out, c); }
int w_to16(Char16 *out, Char c) { return cybozu::string::toUtf16(out, c); }
bool w_app8(std::string *out, Char c) { return cybozu::string::AppendUtf8(*out, c); }
bool w_app16(String16 *out, Char c) { return cybozu::string::AppendUtf16(*out, c); }
bool w_conv_16_8(std::string *out, const Char16 *b, const Char16 *e) { return ConvertUtf16ToUtf8(out, b, e); }
bool w_conv_16_8s(std::string *out, const String16& in) { return ConvertUtf16ToUtf8(out, in); }
bool w_conv_8_16(String16 *out, const char *b, const char *e) { return ConvertUtf8ToUtf16(out, b, e); }
bool w_conv_8_16s(String16 *out, const std::string& in) { return ConvertUtf8ToUtf16(out, in); }
bool w_conv_8_16i(String16 *out, const std::string& in) { return ConvertUtf8ToUtf16(out, in.begin(), in.end()); }
void w_ToUtf8(std::string *out, const String16& in) { new(out) std::string(ToUtf8(in)); }
void w_ToUtf16(String16 *out, const std::string& in) { new(out) String16(ToUtf16(in)); }
bool w_next(Utf8ref *r, Char *c) { return r->next(c); }
void w_mkref(Utf8ref *r, const char *b, const char *e) { new(r) Utf8ref(b, e); }
void w_app_p(String *s, const char *b, size_t n) { s->append(b, n); }
void w_app_s(String *s, const std::string& in) { s->append(in); }
void w_app_16(String *s, const Char16 *b, const Char16 *e) { s->append(b, e); }
void w_ctor_p(String *s, const char *b, size_t n) { new(s) String(b, n); }
void w_ctor_s(String *s, const std::string& in) { new(s) String(in); }
void w_assign_s(String *s, const std::string& in) { s->assign(in); }
void w_eq_s(String *s, const std::string& in) { *s = in; }
void w_str8(const String *s, std::string *out) { s->toUtf8(*out); }
void w_str8r(const String *s, std::string *out) { new(out) std::string(s->toUtf8()); }
void w_str16(const String *s, String16 *out) { s->toUtf16(*out); }
void w_str16r(const String *s, String16 *out) { new(out) String16(s->toUtf16()); }
}
