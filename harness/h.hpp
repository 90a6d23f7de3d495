#pragma once
/* executable-contract harness: replays a counterexample of the verifier against the real code, and searches for one */
#include <stdint.h>
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
#include <string>
#include <vector>
#include <map>
#include <fstream>
#include <sstream>
#include <stdexcept>
#include <fcntl.h>
#include <unistd.h>
#include <sys/mman.h>
#include <time.h>
#include <signal.h>

struct Rng {
	uint64_t s;
	explicit Rng(uint64_t seed) : s(seed * 0x9e3779b97f4a7c15ull + 0x1234567) {}
	uint64_t u64() { s ^= s << 13; s ^= s >> 7; s ^= s << 17; return s * 0x2545F4914F6CDD1Dull; }
	uint64_t below(uint64_t n) { return n ? (u64() >> 11) % n : 0; }
	bool coin(int n = 2) { return below(n) == 0; }
	/* value with interesting bit patterns */
	uint64_t val()
	{
		switch (below(8)) {
		case 0: return below(20);
		case 1: return u64() >> below(64);
		case 2: return (uint64_t(1) << below(64)) - below(3);
		case 3: return ~(u64() >> below(64));
		case 4: { static const uint64_t t[] = { 0, 1, 0x7f, 0x80, 0xff, 0x100, 0x7fff, 0x8000, 0xffff, 0x10000, 0x7fffffff, 0x80000000, 0xffffffff, 0x100000000ull, 0x7fffffffffffffffull, 0x8000000000000000ull, ~0ull }; return t[below(sizeof(t) / sizeof(t[0]))]; }
		case 5: { uint64_t p = 1; for (int i = (int)below(20); i > 0; i--) p *= 10; return p * (1 + below(9)) - below(2); }
		default: return u64();
		}
	}
	std::string bytes(size_t n) { std::string r(n, 0); for (size_t i = 0; i < n; i++) r[i] = (char)u64(); return r; }
	std::string from(const std::string& alpha, size_t n) { std::string r(n, 0); for (size_t i = 0; i < n; i++) r[i] = alpha[below(alpha.size())]; return r; }
	/* now and then a long one, near a power of two */
	size_t biglen(size_t mx) { if (below(60)) return len(mx); size_t b = size_t(1) << (8 + below(10)); return b - 3 + below(40); }
	size_t len(size_t mx) { switch (below(4)) { case 0: return below(5); case 1: return below(20); case 2: return below(100); default: return below(mx + 1); } }
};

struct Case {
	std::map<std::string, uint64_t> n;
	std::map<std::string, std::string> s;
	std::string fn;
	uint64_t i(const char *k, uint64_t d = 0) const { auto it = n.find(k); return it == n.end() ? d : it->second; }
	const std::string& b(const char *k) const { static const std::string e; auto it = s.find(k); return it == s.end() ? e : it->second; }
	std::string str() const
	{
		std::string r = "fn=" + fn + "\n";
		for (auto& x : n) { r += x.first + "=" + std::to_string(x.second) + "\n"; }
		static const char *h = "0123456789abcdef";
		for (auto& x : s) { r += x.first + "=x:"; for (unsigned char c : x.second) { r += h[c >> 4]; r += h[c & 15]; } r += "\n"; }
		return r;
	}
	void parse(const std::string& t)
	{
		std::istringstream is(t);
		std::string l;
		while (std::getline(is, l)) {
			size_t p = l.find('=');
			if (p == std::string::npos || l[0] == '#') continue;
			std::string k = l.substr(0, p), v = l.substr(p + 1);
			if (k == "fn") fn = v;
			else if (v.compare(0, 2, "x:") == 0) {
				std::string o;
				for (size_t q = 2; q + 1 < v.size(); q += 2) o += (char)strtoul(v.substr(q, 2).c_str(), 0, 16);
				s[k] = o;
			} else n[k] = strtoull(v.c_str(), 0, 10);
		}
	}
};

/* supplied by each harness */
std::string check(const Case& c);             /* "" if the contract holds on this input, otherwise what fails; "skip" if not applicable */
void gen(Rng& r, const std::string& fn, Case& c); /* random input for target fn */

/* exact-size heap copy so that the address sanitizer sees out-of-range accesses */
struct HeapBuf {
	char *p; size_t n;
	explicit HeapBuf(const std::string& s) : p((char*)malloc(s.size() ? s.size() : 1)), n(s.size()) { if (n) memcpy(p, s.data(), n); else p[0] = 0; }
	explicit HeapBuf(size_t m, int fill = 0xAA) : p((char*)malloc(m ? m : 1)), n(m) { memset(p, fill, m); }
	~HeapBuf() { free(p); }
	std::string str() const { return std::string(p, n); }
private:
	HeapBuf(const HeapBuf&); void operator=(const HeapBuf&);
};

inline std::string hexs(const std::string& s) { static const char *h = "0123456789abcdef"; std::string r; for (unsigned char c : s) { r += h[c >> 4]; r += h[c & 15]; } return r; }

#ifndef VF_NOMAIN
static char *g_shm;
static const size_t SHM = 1 << 22;
static void report(const char *msg) { printf("FAIL %s\n", msg); fflush(stdout); }

int main(int argc, char **argv)
{
	/* h replay FILE | h search SEED SECONDS CASEFILE fn... */
	if (argc < 3) return 2;
	signal(SIGPIPE, SIG_IGN);
	if (!strcmp(argv[1], "replay")) {
		std::ifstream f(argv[2]);
		std::stringstream ss; ss << f.rdbuf();
		Case c; c.parse(ss.str());
		alarm(60);
		std::string m = check(c);
		if (m == "skip") { printf("SKIP\n"); return 0; }
		if (!m.empty()) { report(m.c_str()); return 1; }
		printf("OK\n");
		return 0;
	}
	uint64_t seed = strtoull(argv[2], 0, 10);
	double secs = atof(argv[3]);
	int fd = open(argv[4], O_RDWR | O_CREAT | O_TRUNC, 0644);
	if (ftruncate(fd, SHM)) return 2;
	g_shm = (char*)mmap(0, SHM, PROT_READ | PROT_WRITE, MAP_SHARED, fd, 0);
	Rng r(seed);
	struct timespec t0, t1;
	clock_gettime(CLOCK_MONOTONIC, &t0);
	unsigned long cnt = 0;
	for (;;) {
		for (int a = 5; a < argc; a++) {
			for (int rep = 0; rep < 50; rep++) {
				Case c; c.fn = argv[a];
				gen(r, c.fn, c);
				std::string t = c.str();
				if (t.size() < SHM - 1) { memcpy(g_shm, t.data(), t.size()); g_shm[t.size()] = 0; }
				if (rep == 0) alarm(60);
				std::string m = check(c);
				cnt++;
				if (!m.empty() && m != "skip") { report(m.c_str()); printf("cases=%lu\n", cnt); return 1; }
			}
		}
		clock_gettime(CLOCK_MONOTONIC, &t1);
		if ((t1.tv_sec - t0.tv_sec) + (t1.tv_nsec - t0.tv_nsec) * 1e-9 > secs) break;
	}
	printf("cases=%lu\n", cnt);
	return 0;
}
#endif
