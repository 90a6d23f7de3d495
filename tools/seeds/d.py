SEEDS = [
dict(id='p11-equal-len', prop='P11', edits=[('bitvector.hpp', "		v_.resize(n);\n		if (r) {\n			v_[n - 1] &= GetMaskBit<T>(r);\n		}\n", "		v_.resize(n);\n		if (r > 1) {\n			v_[n - 1] &= GetMaskBit<T>(r);\n		}\n")],
  needs='shrinking to one bit more than a multiple of the block size, then growing', breaks='bits that were cut off come back',
  demo=r"""#include <cybozu/bitvector.hpp>
int main()
{
	cybozu::BitVectorT<uint64_t> a;
	a.resize(128);
	for (int i = 0; i < 128; i++) a.set(i);
	a.resize(65);
	a.resize(128);
	return a.get(64) && !a.get(65) && !a.get(127) ? 0 : 1;
}
"""),
]
