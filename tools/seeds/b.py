SEEDS = [
dict(id='p04-sip-len', prop='P04', edits=[('siphash.hpp', "	uint64_t b = (uint64_t)srcSize << 56;\n", "	uint64_t b = (uint64_t)(srcSize > 0x7fff ? srcSize - 1 : srcSize) << 56;\n")],
  needs='a message of 32768 bytes or more', breaks='the length byte of the last block is wrong for long messages',
  demo=r'''#include <cybozu/siphash.hpp>
#include <vector>
#include <stdint.h>
#include <string.h>
static uint64_t rl(uint64_t x, int n) { return x << n | x >> (64 - n); }
static void rd(uint64_t *v) { v[0] += v[1]; v[1] = rl(v[1], 13) ^ v[0]; v[0] = rl(v[0], 32); v[2] += v[3]; v[3] = rl(v[3], 16) ^ v[2]; v[0] += v[3]; v[3] = rl(v[3], 21) ^ v[0]; v[2] += v[1]; v[1] = rl(v[1], 17) ^ v[2]; v[2] = rl(v[2], 32); }
int main()
{
	std::vector<uint8_t> m(40003);
	for (size_t i = 0; i < m.size(); i++) m[i] = (uint8_t)(i * 7 + i / 256);
	uint64_t v[4] = { 1 ^ 0x736f6d6570736575ull, 2 ^ 0x646f72616e646f6dull, 1 ^ 0x6c7967656e657261ull, 2 ^ 0x7465646279746573ull };
	for (size_t i = 0; i <= m.size() / 8; i++) {
		uint64_t w = 0;
		if (i < m.size() / 8) memcpy(&w, &m[i * 8], 8); else { memcpy(&w, &m[i * 8], m.size() % 8); w |= (uint64_t)m.size() << 56; }
		v[3] ^= w; rd(v); rd(v); v[0] ^= w;
	}
	v[2] ^= 0xff; for (int i = 0; i < 4; i++) rd(v);
	return cybozu::siphash24(m.data(), m.size(), 1, 2) == (v[0] ^ v[1] ^ v[2] ^ v[3]) ? 0 : 1;
}
'''),
dict(id='p05-tail', prop='P05', edits=[('xorshift.hpp', "		for (size_t i = 0; i < n; i++) {\n			dst[i] = ua.a[i];", "		const size_t rest = n;\n		for (size_t i = 0; i < rest; i++) {\n			dst[i] = ua.a[uSize == 8 && n > 4 ? (i + 4) % uSize : i];")],
  needs='a block of a 64-bit generator whose length is 5..7 bytes over a multiple of 8', breaks='the last bytes come from the wrong half of the output',
  demo=r'''#include <cybozu/xorshift.hpp>
#include <string.h>
int main()
{
	cybozu::XorShift128Plus a(3, 4), b(3, 4);
	unsigned char x[13], y[16];
	a.read(x, 13);
	uint64_t u = b.get64(), v = b.get64();
	memcpy(y, &u, 8); memcpy(y + 8, &v, 8);
	return memcmp(x, y, 13) ? 1 : 0;
}
'''),
dict(id='p06-pad-512', prop='P06', edits=[('sha2.hpp', "	static const size_t msgLenByte_ = 16;\n", "	static const size_t msgLenByte_ = 8;\n")],
  needs='the built-in SHA-512 and a message whose length is 112..119 modulo 128', breaks='the padding is one block short',
  demo=r'''#define CYBOZU_DONT_USE_OPENSSL
#include <cybozu/sha2.hpp>
#include <string.h>
#include <stdio.h>
int main()
{
	std::string m(115, 'a');
	std::string d = cybozu::Sha512().digest(m);
	FILE *f = fopen("/tmp/vf_demo_sha512.bin", "wb");
	if (!f) return 2;
	fwrite(m.data(), 1, m.size(), f);
	fclose(f);
	FILE *p = popen("sha512sum /tmp/vf_demo_sha512.bin; rm -f /tmp/vf_demo_sha512.bin", "r");
	char buf[256] = {};
	if (!fgets(buf, sizeof(buf), p)) return 2;
	pclose(p);
	for (int i = 0; i < 64; i++) {
		char h[3];
		sprintf(h, "%02x", (unsigned char)d[i]);
		if (memcmp(h, buf + i * 2, 2)) return 1;
	}
	return 0;
}
'''),
]
