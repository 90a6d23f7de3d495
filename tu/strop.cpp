/* instantiation unit: nothing but calls of the real functions */
#include <cybozu/string_operation.hpp>
#include <new>
using namespace cybozu;
struct Out { void clear(); void push_back(const std::string& s); };
struct OutW { void clear(); void push_back(const String& s); };
typedef std::string S8;
typedef String S32;
#define P(N, C, S) \
bool so##N##_isspace(C c) { return IsSpace<C>(c); } \
C so##N##_lower(C c) { return cybozu::tolower(c); } \
C so##N##_upper(C c) { return cybozu::toupper(c); } \
const C *so##N##_skip(const C *b, const C *e) { return SkipSpace(b, e); } \
const C *so##N##_pos(const C *b, const C **e) { return string_local::GetTrimPosition(b, *e); } \
int so##N##_cmp(const C *a, size_t n, const C *b, size_t m) { return CaseCompare(a, n, b, m); } \
bool so##N##_eq(const C *a, size_t n, const C *b, size_t m) { return CaseEqual(a, n, b, m); }
#define I(N, C, S, O) \
void so##N##_trim(S *s) { Trim(*s); } \
void so##N##_trimcopy(S *o, const S *s) { new(o) S(TrimCopy(*s)); } \
void so##N##_tolower(S *o, const S *s, bool app) { ToLower(*o, *s, app); } \
void so##N##_toupper(S *o, const S *s, bool app) { ToUpper(*o, *s, app); } \
void so##N##_tolower1(S *s) { ToLower(*s); } \
void so##N##_toupper1(S *s) { ToUpper(*s); } \
void so##N##_strip(S *s) { Strip(*s); } \
int so##N##_cmps(const S *a, const S *b) { return CaseCompare(*a, *b); } \
bool so##N##_eqs(const S *a, const S *b) { return CaseEqual(*a, *b); } \
bool so##N##_eqp(const S *a, const char *b) { return CaseEqual(*a, b); } \
bool so##N##_start(const S *a) { return CaseEqualStartWith(*a, "aB@"); } \
size_t so##N##_split(O *o, const S *s, C c, size_t m) { return Split(*o, *s, c, m); } \
size_t so##N##_splitk(O *o, const S *s, C c, size_t m) { return Split(*o, *s, c, m, false); } \
const C *so##N##_find(const C *b, const C *e, const char *t, const char *te) { return CaseFind(b, e, t, te); } \
size_t so##N##_finds(const S *a, const char *t, const char *te) { return CaseFind<C>(*a, t, te); }
extern "C" {
P(8, char, S8)
P(32, Char, S32)
I(8, char, S8, Out)
bool so328_eq(const Char *a, size_t n, const char *b, size_t m) { return CaseEqual(a, n, b, m); }
}
