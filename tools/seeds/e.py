SEEDS = [
dict(id='p12-find-end', prop='P12', edits=[('string_operation.hpp', "	while (begin + n <= end) {", "	while (begin + n <= end - (n > 7)) {")],
  needs='a target of eight characters or more that occurs only at the very end of the text', breaks='the occurrence is not found',
  demo=r"""#include <cybozu/string_operation.hpp>
int main()
{
	std::string s = "xx-CONTENT-LENGTH";
	for (size_t i = 0; i < s.size(); i++) {
		std::string t = s.substr(i);
		if (cybozu::CaseFind<char>(s, t.c_str()) != i) return 1;
	}
	return 0;
}
"""),
dict(id='p12-split-last', prop='P12', edits=[('string_operation.hpp', "		cur = pos + 1;\n		splitNum++;\n", "		cur = pos + 1;\n		splitNum++;\n		if (splitNum == maxNum - 1 && cur == inStr.size()) break;\n")],
  needs='a separator at the very end of the text just when one piece is left', breaks='the empty last piece is dropped',
  demo=r"""#include <cybozu/string_operation.hpp>
int main()
{
	std::vector<std::string> v;
	size_t n = cybozu::Split(v, std::string("a,b,"), ',', 3);
	return n == 3 && v.size() == 3 && v[2].empty() ? 0 : 1;
}
"""),
]
