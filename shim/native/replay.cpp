// Native side of the harness interface: values come from a recorded assignment (text file of
// "name bits value" lines), notes are printed so that they can be compared with the engine's.
#include "../sx.h"
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <fstream>
#include <map>
#include <string>
#include <unistd.h>
#include <vector>
#include <exception>
#include <future>
static std::map<std::string, uint64_t> VALS;
static std::string ARG;
static bool quiet = false;
static void out(const std::string& s) { fwrite(s.data(), 1, s.size(), stdout); fflush(stdout); }
static std::string hex(const char* p, size_t n)
{
	std::string r;
	char b[4];
	for (size_t i = 0; i < n; i++) { snprintf(b, sizeof b, "%02x", (unsigned char)p[i]); r += b; }
	return r;
}
extern "C" {
uint64_t __sx_sym(const char* name, unsigned) { auto it = VALS.find(name); return it == VALS.end() ? 0 : it->second; }
void __sx_assume(bool c) { if (!c) { out("ASSUME-FAILED\n"); _exit(98); } }
void __sx_check(bool c, const char* msg) { if (!c) { out(std::string("CHECK-FAILED ") + msg + "\n"); _exit(99); } }
void __sx_fail(const char* msg) { out(std::string("CHECK-FAILED ") + msg + "\n"); _exit(99); }
void __sx_cover(const char*) {}
void __sx_note(const char* key, const char* d, uint64_t n) { if (!quiet) out(std::string("NOTE ") + key + " " + hex(d, n) + "\n"); }
uint64_t __sx_concretize(uint64_t v) { return v; }
bool __sx_branch(bool c) { return c; }
bool __sx_issym(uint64_t) { return false; }
const char* __sx_arg() { return ARG.c_str(); }
void __sx_debug(const char* m) { fprintf(stderr, "[debug] %s\n", m); }
void __sx_debugv(const char* m, uint64_t v) { fprintf(stderr, "[debugv] %s = %llu\n", m, (unsigned long long)v); }
}
namespace sxf { [[noreturn]] void deadlock() { __sx_fail("deadlock: waiting for a result nothing will deliver"); abort(); } }
static std::map<std::string, std::string>& files() { static auto* m = new std::map<std::string, std::string>; return *m; }
void sx_write_file(const std::string& name, const std::string& text)
{
	std::ofstream o(name, std::ios::binary | std::ios::trunc);
	o.write(text.data(), (std::streamsize)text.size());
}
int main(int argc, char** argv)
{
	if (argc > 1) {
		std::ifstream f(argv[1]);
		std::string n;
		unsigned bits;
		unsigned long long v;
		while (f >> n >> bits >> v) VALS[n] = v;
	}
	if (argc > 2) ARG = argv[2];
	alarm(60);
	std::set_terminate([] { out("TERMINATE\n"); _exit(97); });
	harness_main();
	out("DONE\n");
	_exit(0);
}
