SEEDS = [
dict(id='p01-min-terminator', prop='P01', edits=[('atoi.hpp', "(i + 1 == size || p[i + 1] == '\\0')", "(i + 1 >= size || p[i + 1] <= '\\0')")],
  needs='text of the minimum value followed by a byte >= 0x80', breaks='"-128\\x80" is accepted as -128',
  demo=r'''#include <cybozu/atoi.hpp>
#include <string>
int main()
{
	std::string s = "-128\xff";
	bool b = true;
	signed char c = cybozu::atoi(&b, s);
	if (b) return 1;
	b = true;
	long long v = cybozu::atoi(&b, std::string("-9223372036854775808\xe3"));
	return b || v || c ? 1 : 0;
}
'''),
dict(id='p01-hex-fold', prop='P01', edits=[('atoi.hpp', "			if (c - 'A' <= 'F' - 'A') {\n				c = (c - 'A') + 10;\n			} else if (c - 'a'", "			c |= 0x20;\n			if (c - 'a'")],
  needs='a control character 0x10..0x19 in the text', breaks='control characters are taken as digits',
  demo=r'''#include <cybozu/atoi.hpp>
int main()
{
	bool b = true;
	int v = cybozu::hextoi(&b, "1\x12");
	return b || v ? 1 : 0;
}
'''),
dict(id='p02-pad-wide', prop='P02', edits=[('itoa.hpp', "		std::string zero(len - ret.size(), c);", "		const unsigned char padSize = static_cast<unsigned char>(len - ret.size());\n		std::string zero(padSize, c);")],
  needs='256 or more padding characters', breaks='the padded text is shorter than requested',
  demo=r'''#include <cybozu/itoa.hpp>
int main()
{
	return cybozu::itoaWithZero(-12, 300).size() == 300 ? 0 : 1;
}
'''),
dict(id='p02-hex-fill', prop='P02', edits=[('itoa.hpp', "		out[len - i - 1] = tbl[x % 16];\n		x /= 16;", "		out[len - i - 1] = tbl[x % 16];\n		x /= 16;\n		if (sizeof(T) > 4 && i >= sizeof(T) * 2) break;")],
  needs='itohex into a buffer longer than the widest numeral by two or more, 64-bit value', breaks='leading part of the buffer is left unwritten',
  demo=r'''#include <cybozu/itoa.hpp>
#include <string.h>
int main()
{
	char buf[20];
	memset(buf, 'x', sizeof(buf));
	cybozu::itohex(buf, sizeof(buf), 0x123456789abcdef0ull, false);
	return memcmp(buf, "0000123456789abcdef0", 20) ? 1 : 0;
}
'''),
]
