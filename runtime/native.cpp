// Native side of the contract primitives: replay of given inputs and seeded sampling.
#include "verif.h"
#include <cmath>
#include <csetjmp>
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <ctime>
#include <map>
#include <random>
#include <string>
#include <vector>
#include <fstream>
#include <sstream>
#include <exception>
#include <sys/mman.h>
#include <sys/wait.h>
#include <unistd.h>
#include <fcntl.h>
#include <signal.h>

static std::map<std::string, void (*)()>& reg() { static std::map<std::string, void (*)()> r; return r; }
VfReg::VfReg(const char* n, void (*f)()) { reg()[n] = f; }

static std::mt19937_64 rng;
static std::map<std::string, int> counts;
static std::map<std::string, double> given;                       // scalars of a replay
static std::map<std::string, std::map<long, double>> givenArr;    // arrays of a replay
static bool replay = false;
static jmp_buf discard;
static char* shm;
static const size_t SHM = 1 << 20;
static size_t off;

struct Hdr { long runs, done, ensures; int failed; char label[400]; };
static Hdr* hdr() { return (Hdr*)shm; }
static void log(const std::string& s)
{
	if (off + s.size() + 2 < SHM) { memcpy(shm + off, s.data(), s.size()); off += s.size(); shm[off] = 0; }
}
static std::string num(double v) { char b[64]; snprintf(b, sizeof b, "%.17g", v); return b; }
static std::string key(const char* n) { int k = counts[n]++; return k ? std::string(n) + "~" + std::to_string(k) : std::string(n); }
static double unif(double a, double b) { return a + (b - a) * std::uniform_real_distribution<double>(0, 1)(rng); }

static double drawReal(double lo, double hi)
{
	int m = rng() % 12;
	if (m == 0) return lo;
	if (m == 1) return hi;
	if (m == 2 && lo <= 0 && hi >= 0) return 0.0;
	if (m == 3 && std::floor(hi) >= std::ceil(lo)) return std::floor(unif(std::ceil(lo), std::floor(hi) + 0.999));
	return unif(lo, hi);
}
extern "C" {
double vf_real(const char* name, double lo, double hi)
{
	auto k = key(name);
	double v = replay && given.count(k) ? given[k] : drawReal(lo, hi);
	log(k + "=" + num(v) + "\n");
	return v;
}
static int drawInt(const char* name, int lo, int hi)
{
	auto k = key(name);
	int v = replay && given.count(k) ? (int)given[k] : lo + (int)(rng() % (unsigned long)(hi - lo + 1));
	log(k + "=" + std::to_string(v) + "\n");
	return v;
}
int vf_int(const char* name, int lo, int hi) { return drawInt(name, lo, hi); }
int vf_size(const char* name, int lo, int hi) { int v = drawInt(name, lo, hi); if (v < lo) longjmp(discard, 1); if (v > 100000) longjmp(discard, 1); return v; }
bool vf_bool(const char* name) { return drawInt(name, 0, 1) != 0; }
int vf_choose(const char* name, int n) { int v = drawInt(name, 0, n - 1); if (v < 0 || v >= n) longjmp(discard, 1); return v; }
double* vf_real_array(const char* name, int n, double lo, double hi)
{
	auto k = key(name);
	double* r = new double[n > 0 ? n : 1];
	auto it = givenArr.find(k);
	for (int i = 0; i < n; i++) {
		r[i] = drawReal(lo, hi);
		if (replay && it != givenArr.end() && it->second.count(i)) r[i] = it->second[i];
		if (i < 200) log(k + "[" + std::to_string(i) + "]=" + num(r[i]) + "\n");
	}
	return r;
}
int* vf_int_array(const char* name, int n, int lo, int hi)
{
	auto k = key(name);
	int* r = new int[n > 0 ? n : 1];
	auto it = givenArr.find(k);
	for (int i = 0; i < n; i++) {
		r[i] = lo + (int)(rng() % (unsigned long)(hi - lo + 1));
		if (replay && it != givenArr.end() && it->second.count(i)) r[i] = (int)it->second[i];
		if (i < 200) log(k + "[" + std::to_string(i) + "]=" + std::to_string(r[i]) + "\n");
	}
	return r;
}
int* vf_index_array(const char* name, int n, int lo, int hi)
{
	if (hi <= lo) longjmp(discard, 1);
	int* r = vf_int_array(name, n, lo, hi - 1);
	for (int i = 0; i < n; i++) if (r[i] < lo || r[i] >= hi) longjmp(discard, 1);
	return r;
}
int* vf_injection(const char* name, int n, int lo, int hi)
{
	if (hi - lo < n) longjmp(discard, 1);
	int* r = vf_index_array(name, n, lo, hi);
	for (int i = 0; i < n; i++)
		for (bool again = true; again;) {
			again = false;
			for (int j = 0; j < i; j++) if (r[j] == r[i]) { r[i] = lo + (r[i] - lo + 1) % (hi - lo); again = true; break; }
		}
	return r;
}
void vf_requires(bool c) { if (!c) longjmp(discard, 1); }
void vf_assume(bool c, const char*) { if (!c) longjmp(discard, 1); }
void vf_ensures(bool c, const char* label)
{
	hdr()->ensures++;
	if (!c && !hdr()->failed) { hdr()->failed = 1; snprintf(hdr()->label, sizeof hdr()->label, "%s", label); longjmp(discard, 2); }
}
void vf_ensures_near(double a, double b, double tol, const char* label)
{
	bool ok = a == b || (std::isnan(a) && std::isnan(b)) || std::abs(a - b) <= tol * std::fmax(1.0, std::fmax(std::abs(a), std::abs(b)));
	if (!ok) log(std::string("# ") + label + ": got " + num(a) + " required " + num(b) + "\n");
	vf_ensures(ok, label);
}
void vf_ensures_eq(double a, double b, const char* label) { vf_ensures_near(a, b, 1e-9, label); }
void vf_cover(const char*) {}
static double mix(const char* f, std::initializer_list<double> xs)
{
	unsigned h = 17;
	for (const char* p = f; *p; p++) h = h * 31 + (unsigned char)*p;
	double s = 0.3 + (h % 97) / 97.0, w = 1.0;
	for (double x : xs) { w += 0.37; s += std::sin(w * x + (h % 13)) + 0.25 * w * std::cos(0.5 * w * x); h = h * 7 + 3; }
	return s;
}
double vf_ufn1(const char* f, double a) { return mix(f, {a}); }
double vf_ufn2(const char* f, double a, double b) { return mix(f, {a, b}); }
double vf_ufn3(const char* f, double a, double b, double c) { return mix(f, {a, b, c}); }
double vf_ufn4(const char* f, double a, double b, double c, double d) { return mix(f, {a, b, c, d}); }
double vf_ufi1(const char* f, int a) { return mix(f, {(double)a}); }
double vf_ufi2(const char* f, int a, int b) { return mix(f, {(double)a, (double)b}); }
double vf_ufi3(const char* f, int a, int b, int c) { return mix(f, {(double)a, (double)b, (double)c}); }
int vf_ufii1(const char* f, int a) { return (int)std::floor(5 * mix(f, {(double)a})); }
int vf_ufii2(const char* f, int a, int b) { return (int)std::floor(5 * mix(f, {(double)a, (double)b})); }
double vf_diff(double, double) { abort(); }
void* vf_unbounded(int elem) { static std::vector<char> pool; pool.assign(size_t(elem) << 16, 0); return pool.data(); }
void vf_invariant(bool (*)(void*), void*, const char*) {}
bool vf_is_concrete(long) { return true; }
}

static int once(void (*f)(), unsigned long seed)
{
	rng.seed(seed);
	counts.clear();
	off = sizeof(Hdr);
	shm[off] = 0;
	int r = setjmp(discard);
	if (r == 0) {
		try { f(); }
		catch (std::exception& e) {
			hdr()->failed = 1;
			snprintf(hdr()->label, sizeof hdr()->label, "uncaught exception: %s", e.what());
			return 2;
		}
		catch (...) {
			hdr()->failed = 1;
			snprintf(hdr()->label, sizeof hdr()->label, "uncaught exception");
			return 2;
		}
		hdr()->done++;
	}
	return r;
}

static void report(const char* how, const std::string& h)
{
	printf("FAIL %s\nhow: %s\nlabel: %s\n%s", h.c_str(), how, hdr()->label, shm + sizeof(Hdr));
}

static int guarded(const std::string& h, void (*f)(), unsigned long seed, long n, double secs)
{
	// samples run in a child, so that a crash is a result and not an error
	memset(shm, 0, sizeof(Hdr));
	fflush(stdout);
	pid_t p = fork();
	if (p == 0) {
		int dn = open("/dev/null", 1);
		(void)dn;
		struct timespec a, b;
		clock_gettime(CLOCK_MONOTONIC, &a);
		for (long i = 0; i < n; i++) {
			hdr()->runs++;
			int r = once(f, seed * 1000003ul + i);
			if (hdr()->failed || r == 2) _exit(3);
			clock_gettime(CLOCK_MONOTONIC, &b);
			if ((b.tv_sec - a.tv_sec) + 1e-9 * (b.tv_nsec - a.tv_nsec) > secs) break;
		}
		_exit(0);
	}
	int st = 0;
	double waited = 0;
	while (waitpid(p, &st, WNOHANG) == 0) {
		usleep(2000);
		waited += 0.002;
		if (waited > secs + 20) { kill(p, 9); waitpid(p, &st, 0); printf("TIMEOUT %s runs=%ld done=%ld\n", h.c_str(), hdr()->runs, hdr()->done); return 0; }
	}
	if (WIFSIGNALED(st)) {
		snprintf(hdr()->label, sizeof hdr()->label, "crash (signal %d)", WTERMSIG(st));
		report("the code under contract crashed", h);
		return 1;
	}
	if (WEXITSTATUS(st) == 3) { report("contract violated by the running code", h); return 1; }
	if (WEXITSTATUS(st) != 0) { snprintf(hdr()->label, sizeof hdr()->label, "terminated with exit code %d", WEXITSTATUS(st)); report("the code under contract ended the process", h); return 1; }
	printf("OK %s runs=%ld done=%ld ensures=%ld\n", h.c_str(), hdr()->runs, hdr()->done, hdr()->ensures);
	return 0;
}
#include <fcntl.h>
#include <signal.h>

int main(int argc, char** argv)
{
	shm = (char*)mmap(nullptr, SHM, PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS, -1, 0);
	if (argc < 2 || !strcmp(argv[1], "list")) { for (auto& x : reg()) printf("%s\n", x.first.c_str()); return 0; }
	std::string mode = argv[1], h = argv[2];
	if (!reg().count(h)) { fprintf(stderr, "no harness %s\n", h.c_str()); return 9; }
	if (mode == "replay") {
		replay = true;
		std::ifstream in(argv[3]);
		std::string l;
		while (std::getline(in, l)) {
			auto e = l.find('=');
			if (l.empty() || l[0] == '#' || e == std::string::npos) continue;
			std::string k = l.substr(0, e);
			double v = strtod(l.c_str() + e + 1, nullptr);
			auto b = k.find('[');
			if (b != std::string::npos && k.back() == ']') givenArr[k.substr(0, b)][atol(k.c_str() + b + 1)] = v;
			else given[k] = v;
		}
		return guarded(h, reg()[h], argc > 4 ? strtoul(argv[4], nullptr, 10) : 1, 1, 30);
	}
	unsigned long seed = strtoul(argv[3], nullptr, 10);
	return guarded(h, reg()[h], seed, atol(argv[4]), atof(argv[5]));
}
