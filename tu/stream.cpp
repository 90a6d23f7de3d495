/* instantiation unit: nothing but calls of the real functions */
#include "streams.hpp"
#include <stdint.h>
#include <cybozu/stream.hpp>
extern "C" {
void w_read_b(bool *pb, void *buf, size_t n, In& is) { cybozu::read(pb, buf, n, is); }
void w_read(void *buf, size_t n, In& is) { cybozu::read(buf, n, is); }
size_t w_readSome(void *buf, size_t n, In& is) { return cybozu::readSome(buf, n, is); }
bool w_readChar(char *c, In& is) { return cybozu::readChar(c, is); }
size_t w_tag_readSome(void *buf, size_t n, In& is) { return cybozu::InputStreamTag<In>::readSome(buf, n, is); }
bool w_tag_readChar(char *c, In& is) { return cybozu::InputStreamTag<In>::readChar(c, is); }
void w_tag_write(Out& os, const void *buf, size_t n) { cybozu::OutputStreamTag<Out>::write(os, buf, n); }
void w_write(Out& os, const void *buf, size_t n) { cybozu::write(os, buf, n); }
void w_write_b(bool *pb, Out& os, const void *buf, size_t n) { cybozu::write(pb, os, buf, n); }
void w_writeChar(Out& os, char c) { cybozu::writeChar(os, c); }
void w_writeChar_b(bool *pb, Out& os, char c) { cybozu::writeChar(pb, os, c); }
void w_mis(const void *p, size_t n, void *b1, size_t n1, void *b2, size_t n2, uint64_t *r)
{
	cybozu::MemoryInputStream s(p, n);
	r[0] = s.readSome(b1, n1); r[1] = s.getPos(); r[2] = s.readSome(b2, n2); r[3] = s.getPos();
}
void w_sis(const std::string& p, void *b1, size_t n1, void *b2, size_t n2, uint64_t *r)
{
	cybozu::StringInputStream s(p);
	r[0] = s.readSome(b1, n1); r[1] = s.getPos(); r[2] = s.readSome(b2, n2); r[3] = s.getPos();
}
void w_mos_b(void *p, size_t n, const void *b1, size_t n1, const void *b2, size_t n2, uint64_t *r)
{
	cybozu::MemoryOutputStream s(p, n);
	bool b;
	s.write(&b, b1, n1); r[0] = b; r[1] = s.getPos();
	s.write(&b, b2, n2); r[2] = b; r[3] = s.getPos();
}
void w_mos(void *p, size_t n, const void *b1, size_t n1, const void *b2, size_t n2, uint64_t *r)
{
	cybozu::MemoryOutputStream s(p, n);
	bool b;
	s.write(&b, b1, n1); r[0] = b; r[1] = s.getPos();
	s.write(b2, n2); r[2] = 1; r[3] = s.getPos();
}
void w_sos_b(std::string& p, const void *b1, size_t n1, const void *b2, size_t n2, uint64_t *r)
{
	cybozu::StringOutputStream s(p);
	bool b;
	s.write(&b, b1, n1); r[0] = b; r[1] = s.getPos();
	s.write(b2, n2); r[2] = 1; r[3] = s.getPos();
}
}
