/* instantiation unit: nothing but calls of the real functions */
#include <new>
#include <cybozu/xorshift.hpp>
#include <cybozu/pcg.hpp>
typedef cybozu::G_ G;
extern "C" void w_def(G *g) { new(g) G(); }
extern "C" uint32_t w_get32(G& g) { return g.get32(); }
extern "C" uint64_t w_get64(G& g) { return g.get64(); }
extern "C" uint64_t w_call(G& g) { return g(); }
extern "C" void w_read8(G& g, uint8_t *p, size_t n) { g.read(p, n); }
extern "C" void w_read32(G& g, uint32_t *p, size_t n) { g.read(p, n); }
extern "C" void w_read64(G& g, uint64_t *p, size_t n) { g.read(p, n); }
#if K_ == 4
extern "C" void w_ctor(G *g, uint32_t a, uint32_t b, uint32_t c, uint32_t d) { new(g) G(a, b, c, d); }
extern "C" void w_init(G& g, uint32_t a, uint32_t b, uint32_t c, uint32_t d) { g.init(a, b, c, d); }
extern "C" void w_initd(G& g) { g.init(); }
#elif K_ == 2
extern "C" void w_ctor(G *g, uint64_t a, uint64_t b) { new(g) G(a, b); }
extern "C" void w_init(G& g, uint64_t a, uint64_t b) { g.init(a, b); }
extern "C" void w_initd(G& g) { g.init(); }
#else
extern "C" void w_ctor(G *g, uint64_t a) { new(g) G(a); }
#endif
#if K_ != 1
extern "C" void w_readb(G& g, bool *pb, uint8_t *p, size_t n) { g.read(pb, p, n); }
#endif
