"""the properties; files are relative to /repo"""
def P(id, title, statement, over, text, why, files, mech, note='', **k):
    return dict(id=id, title=title, statement=statement, quantifier=dict(over=over, text=text), why_tests_cant=why,
                anchors=dict(files=['include/cybozu/' + f for f in files], mechanism=[dict(name=n, where=w) for n, w in mech], **k), note=note)
IN = ['inputs']
PROPS = [
P('P01', 'Text to integer conversion accepts exactly the in-range numbers',
  'Converting decimal or hexadecimal text to any built-in integer type yields exactly the number the text denotes when the whole text is one well-formed numeral in the range of the type, and otherwise fails (flag cleared and zero returned, or exception raised). The result does not depend on whether the text is given with its length or NUL terminated, and nothing outside the text is read.',
  IN, 'every byte string of every length, every integer type from 8 to 64 bits, signed and unsigned, flag and exception forms',
  'the tests sample a few dozen strings around the type limits; the accepted language and the overflow guard are claims about all strings',
  ['atoi.hpp', 'exception.hpp'], [('digit loops with overflow guard', 'include/cybozu/atoi.hpp: convertToInt, convertToUint, hextoi local'), ('call forms', 'include/cybozu/atoi.hpp: atoi/hextoi objects')]),
P('P02', 'Integer to text conversion is exact for every value, width and padding',
  'Converting a built-in integer to decimal, hexadecimal or binary text yields exactly the canonical numeral of that value: the digits of the value with no superfluous leading zero, a minus sign exactly for negative numbers, the requested letter case, or exactly the full width when zero filling is requested. Padding to a minimum length inserts the padding character between sign and digits up to exactly that length and never truncates. The forms that write into a caller buffer fill exactly that buffer (or report 0 when the numeral does not fit) and touch nothing else.',
  IN, 'every value of every integer type, every buffer length, every padding length and character, both letter cases',
  'the tests compare a few dozen values; the claim is about all 2^64 values and all buffer and padding lengths',
  ['itoa.hpp', 'bit_operation.hpp'], [('digit loops', 'include/cybozu/itoa.hpp: uintToDec, uintToHex, uintToBin, intToDec, itohex, itobin'), ('padding', 'include/cybozu/itoa.hpp: itoaWithZero')]),
P('P03', 'Bit utilities and byte-order accessors are exact for every value',
  'The bit utilities return the index of the lowest or highest set bit of any non-zero value of any integer width, the exact number of set bits, and a mask with exactly the lowest x bits set. The byte-order accessors read and write 16, 32 and 64-bit integers as exactly the documented little or big endian byte sequence at any (unaligned) address, touching only those bytes, on little-endian hosts and in the portable fallback alike.',
  IN, 'every value of every width, every byte pattern', 'the tests use a handful of constants; every stored format in the library builds on these for all values',
  ['endian.hpp', 'bit_operation.hpp', 'inttype.hpp'], [('byte order', 'include/cybozu/endian.hpp: Get*/Set*/byteSwap'), ('bits', 'include/cybozu/bit_operation.hpp: bsf, bsr, popcnt, makeBitMask64')]),
P('P04', 'FNV and SipHash values are the published functions of the whole sequence',
  'hash32 and hash64 return the FNV-1a fold of every element of the sequence in order, started from the given value or from the standard basis when it is zero (hash64 folds its upper half into the result at the end), for pointer ranges and pointer-and-length calls alike. siphash24 returns SipHash-2-4 of the bytes under the given 128-bit key for every length. Both read exactly the given range.',
  IN, 'every sequence of every length, every starting value or key, char, unsigned char, 16 and 32-bit elements',
  'known-answer tests cover a few lengths; the loop and tail handling must be right for every length',
  ['hash.hpp', 'siphash.hpp', 'endian.hpp'], [('fold loops', 'include/cybozu/hash.hpp: hash32, hash64'), ('block loop and tail', 'include/cybozu/siphash.hpp: siphash24')]),
P('P05', 'Generators follow their recurrence and block reads deliver the same stream',
  'XorShift, XorShift128Plus, Xoroshiro128Plus and Pcg32 advance their state by exactly the published recurrence from the seed given (or the documented default seed, substituted per zero word for XorShift), and get32, get64 and operator() return its outputs (get64 of the 32-bit generators is two outputs, first one high). A block read of n elements fills exactly n elements with consecutive outputs (for the XorShift family the little-endian bytes of consecutive outputs whatever the element type, the last output cut short; for Pcg32 one output per byte or 32-bit element, two per 64-bit element), consumes exactly the outputs it uses and writes nothing else.',
  IN, 'every state, every seed, every block length, 8, 32 and 64-bit elements', 'tests compare the first few outputs from the default seed; reproducibility is needed from every state and for every block length',
  ['xorshift.hpp', 'pcg.hpp'], [('recurrences', 'include/cybozu/xorshift.hpp, include/cybozu/pcg.hpp: get32, get64'), ('block reads', 'include/cybozu/xorshift.hpp: read_local; include/cybozu/pcg.hpp: read')]),
P('P06', 'SHA-1, SHA-2 and HMAC digests are right for any length and any chunking',
  'Whatever sequence of update calls a message is cut into, digest returns exactly the FIPS 180-4 SHA-1, SHA-256 or SHA-512 digest of the concatenation of everything fed since construction or the last clear (the last reset, for Sha1, whose digest also resets it), in the buffer and the string forms; a buffer that is too small is refused and left alone. hmac256 is HMAC-SHA-256 of the message under the key, for every key and message length. The built-in and the OpenSSL-backed classes obey the same contract, and all input is read within its bounds.',
  IN + ['histories'], 'every message length, every split into update calls, every key length, every state reachable by feeding',
  'known-answer tests feed whole short strings; buffer-boundary and padding cases depend on the length of each piece, and the built-in implementation is not even compiled by the default test build',
  ['sha1.hpp', 'sha2.hpp', 'endian.hpp'], [('compression functions', 'include/cybozu/sha1.hpp: round; include/cybozu/sha2.hpp: Sha256::round, Sha512::round'), ('buffering', 'include/cybozu/sha1.hpp: update; include/cybozu/sha2.hpp: inner_update'), ('padding', 'include/cybozu/sha1.hpp: term; include/cybozu/sha2.hpp: term'), ('HMAC', 'include/cybozu/sha2.hpp: hmac256')]),
P('P07', 'Base64 text is exact for any input and piecewise reads, and decodes back',
  'EncodeToBase64 writes exactly the RFC 4648 text of everything the input stream delivers, in whatever pieces the stream delivers it: padded with = to a multiple of four characters, a line end of the chosen kind after every maxLineSize characters and after the last partial line (none when maxLineSize is 0), and refuses line sizes over 128 or not a multiple of 4 before writing anything. DecodeFromBase64 writes exactly the bytes the alphabet characters of its input denote, skipping every other character and dropping left-over bits, so decoding an encoded text gives back the input.',
  IN + ['histories'], 'every input of every length, every cutting of the input into pieces, every legal line size, all three line-end modes',
  'the tests encode a few strings read in one piece; the state carried from buffer to buffer and the line breaks must be right for every length and every cutting',
  ['base64.hpp', 'stream.hpp', 'line_stream.hpp'], [('encoder state machine', 'include/cybozu/base64.hpp: EncodeToBase64'), ('decoder state machine', 'include/cybozu/base64.hpp: Base64Decoder::write, flush, DecodeFromBase64')]),
P('P08', 'UTF-8, UTF-16 and String conversion accepts exactly well-formed Unicode',
  'Converting between UTF-8, UTF-16 and cybozu::String (one element per code point) succeeds exactly when the whole source is well formed (no overlong form, no surrogate code point, nothing above U+10FFFF, no truncated or unpaired sequence) and then yields exactly the code points of the source in the target encoding, appended or assigned as documented; otherwise it reports failure. So converting back gives the original text. Character-wise decoding never reads past the end, delivers exactly the next character and advances by exactly its length; encoding one character writes its unique shortest form. (Unpaired trail surrogates are outside the contract of GetCharFromUtf16 and of appending UTF-16 to String, surrogate code points outside that of toUtf16.)',
  IN, 'every byte, 16-bit and 32-bit sequence of every length', 'the tests convert a few sample texts; which of all sequences are accepted and the absence of over-reads are claims about every sequence',
  ['string.hpp'], [('decoders', 'include/cybozu/string.hpp: GetCharFromUtf8, GetCharFromUtf16'), ('encoders', 'include/cybozu/string.hpp: toUtf8, toUtf16, AppendUtf8, AppendUtf16, GetCharSize'), ('whole-text loops', 'include/cybozu/string.hpp: ConvertUtf16ToUtf8, ConvertUtf8ToUtf16, StringT::append, StringT::toUtf8, StringT::toUtf16, Utf8refT::next')]),
P('P09', 'Streams move exactly the bytes asked for, whatever pieces they come in',
  'read delivers exactly the next size bytes of any input stream, however the stream cuts them into pieces, and fails (flag or exception) exactly when fewer remain; readSome and readChar pass on what the stream delivers and advance by exactly that; write and writeChar hand over exactly the given bytes and report failure. MemoryInputStream and StringInputStream deliver the bytes of their source in order, as many as asked for or as remain, and never read past it; MemoryOutputStream and StringOutputStream store what is written in order, MemoryOutputStream refusing a write that does not fit without changing the memory or its position; getPos counts the bytes moved.',
  IN + ['histories'], 'every content, every request size, every position, every cutting into pieces', 'the tests read short strings in one or two calls; boundary positions and short deliveries are what every format in the library relies on',
  ['stream.hpp'], [('exact read', 'include/cybozu/stream.hpp: read'), ('memory and string streams', 'include/cybozu/stream.hpp: MemoryInputStream, MemoryOutputStream, StringInputStream, StringOutputStream')]),
P('P10', 'Serialized integers, strings and vectors load back exactly as saved',
  'save writes exactly the documented form: fixed-size little-endian bytes for bool, 8 and 16-bit integers and wchar_t; for int, long, long long and their unsigned forms the documented variable-length header and data (or the fixed size when CYBOZU_SERIALIZER_FIXED_SIZE_INTEGER is defined); a length followed by the elements for strings, pod vectors and vectors of integers. load of such bytes from any input stream gives back exactly the value, consumes exactly the bytes of that value and nothing more, replaces what the container held, and raises an exception exactly when the input is truncated or holds a header that is too wide for the type.',
  IN + ['histories'], 'every value of every integer type, strings and vectors of every length, every byte sequence as input, every cutting into pieces',
  'the tests save and load a few sample values; files written by one build must be readable by every other for all values, and truncated input must never be taken for data',
  ['serializer.hpp', 'stream.hpp', 'string.hpp'], [('variable-length integers', 'include/cybozu/serializer.hpp: saveVariableInt, loadVariableInt'), ('pods and ranges', 'include/cybozu/serializer.hpp: savePod, loadPod, saveRange, loadRange, savePodVec, loadPodVec'), ('containers', 'include/cybozu/serializer.hpp: load/save of Container<T, Alloc>')]),
P('P11', 'BitVector keeps exactly the bits put into it under every operation',
  'A BitVectorT is a sequence of bits: init and resize keep the first bits and fill with zeros, set, reset and get act on exactly one bit, append (words, arrays, vectors) adds exactly the given bits after the last one, extract returns exactly the requested bits of any aligned or unaligned range, and every call outside the current length is refused without change. Two vectors are equal exactly when they have the same length and the same bits; bits of a source beyond the given length never show. CopyBit and ShiftLeftBit move exactly the given bits and return the carry.',
  IN + ['histories'], 'every content, every length, every alignment of source and destination, every reachable vector, 8 and 64-bit blocks',
  'the tests append and extract sample patterns; the shift and mask at block borders depend on every combination of lengths modulo the block size',
  ['bitvector.hpp'], [('shifted copies', 'include/cybozu/bitvector.hpp: shiftLeftBit, shiftRightBit, CopyBit, ShiftLeftBit'), ('container', 'include/cybozu/bitvector.hpp: BitVectorT')]),
P('P12', 'Trimming, case folding, caseless comparison and splitting are exact',
  'Trimming and stripping remove exactly the leading and trailing white space (line ends) as documented and keep everything between; lower and upper casing change exactly the ASCII letters, in place, into an empty target or appended. Caseless comparison orders and equates texts exactly as their lower-cased forms, for every length including empty texts, caseless search returns the first occurrence or reports none, and splitting at a character yields exactly the pieces between the separators, at most the requested number with the rest in the last one. None of them reads outside the given texts.',
  IN, 'every text of every length, every separator and piece limit, every search target, char and 32-bit characters (pointer forms), std::string (string forms)',
  'the tests use short sample words; boundaries (empty text, all white space, separator at the end, target longer than the text) combine with every length',
  ['string_operation.hpp', 'string.hpp'], [('white space', 'include/cybozu/string_operation.hpp: IsSpace, SkipSpace, GetTrimPosition, Trim, TrimCopy, Strip'), ('case', 'include/cybozu/string_operation.hpp: ToLower, ToUpper, CaseCompare, CaseEqual, CaseEqualStartWith, CaseFind'), ('splitting', 'include/cybozu/string_operation.hpp: Split')]),
P('P21', 'Events, condition variables and parallel loops lose no wake-up and no index',
  'A wake-up given to an event or condition variable reaches a waiter whatever the interleaving, an atomic exchange or addition is never lost, and a parallel loop runs its body exactly once per index before it returns.',
  ['schedules'], 'every interleaving of every number of threads', 'the tests run a few threads under whatever schedule the machine gives',
  ['event.hpp', 'condition_variable.hpp', 'mutex.hpp', 'atomic.hpp', 'thread.hpp', 'parallel.hpp'], [('signalling', 'include/cybozu/event.hpp'), ('partition and join', 'include/cybozu/parallel.hpp')]),
P('P22', 'Sockets, TLS, files, mappings and processes pass data and errors faithfully',
  'Everything written to a socket, TLS session, file or child process arrives in order and completely or an error is raised, a mapped file shows exactly the contents of the file, and every descriptor is released exactly once.',
  IN + ['fault_sequences', 'histories'], 'every answer of the operating system, short reads and writes, errors and interruptions', 'the tests use a working loopback and small files',
  ['socket.hpp', 'ssl.hpp', 'tls.hpp', 'file.hpp', 'mmap.hpp', 'process.hpp'], [('system calls', 'include/cybozu/socket.hpp, include/cybozu/file.hpp, include/cybozu/process.hpp')]),
P('P23', 'Compressed streams decompress to exactly what was compressed',
  'Whatever is fed to the compressor in whatever pieces, the decompressor gives back exactly those bytes for every buffer size, and corrupt or truncated input raises an exception.',
  IN + ['histories'], 'every content, every cutting, every buffer size', 'the tests round-trip a few strings', ['zlib.hpp'], [('drivers around zlib', 'include/cybozu/zlib.hpp')]),
P('P24', 'Rank, select and full-text search over succinct vectors are exact',
  'rank and select over succinct bit vectors and wavelet matrices return exactly the counts and positions defined by the stored sequence, select inverts rank, and the index finds exactly the occurrences of a pattern.',
  IN, 'every sequence of every length, every query', 'the tests compare random sequences of moderate length', ['sucvector.hpp', 'csucvector.hpp', 'select8.hpp', 'wavelet_matrix.hpp', 'fmindex.hpp', 'frequency.hpp'], [('rank tables', 'include/cybozu/sucvector.hpp, include/cybozu/csucvector.hpp')]),
P('P25', 'Text formats (CSV, XML, options, configuration, dates) parse to what they say',
  'Every well-formed CSV row, XML element, command line, configuration file and date text is parsed to exactly the values it denotes, writing and reading back gives the same values, and malformed text is refused without reading outside it.',
  IN, 'every text', 'the tests parse sample texts', ['csv.hpp', 'minixml.hpp', 'option.hpp', 'config.hpp', 'time.hpp', 'json.hpp', 'line_stream.hpp'], [('parsers', 'include/cybozu/csv.hpp, include/cybozu/minixml.hpp, include/cybozu/option.hpp, include/cybozu/time.hpp')]),
]
NA = {
 'P21': 'schedules: the verifier used here (and every deductive verifier for C/C++ within reach in the sandbox) proves sequential code only; no contract logic for threads and C++ atomics (VerCors, VeriFast, Iris for C++) is installed, and the guarantees rest on pthread primitives whose code is not in the repository',
 'P22': 'the behaviour is that of the operating system, OpenSSL and the peer; contracts on those calls would be assumptions that already state the property, and the bodies are thin wrappers around them',
 'P23': 'compression and decompression happen in libz, which is outside the repository; its contract would have to be assumed as the round trip itself',
 'P24': 'not reached: the table layout needs counting lemmas (sums of population counts over symbolic ranges on three levels, floating-point construction parameters in frequency.hpp) that were not brought under contract; the bit operations (P03) and bit vectors (P11) below it are proved',
 'P25': 'not reached: the parsers build std::map/list/iostream objects whose library contracts are not modelled by the verifier; the number conversions (P01, P02), character decoding (P08) and stream primitives (P09) they are made of are proved',
}
