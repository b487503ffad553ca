// Harness interface. Under the symbolic engine these are engine primitives; in a native replay
// they read the recorded counterexample.
#pragma once
#include <cstddef>
#include <cstdint>
#include <string>
#include <string_view>
extern "C" {
uint64_t __sx_sym(const char* name, unsigned bits);
void __sx_assume(bool c);
void __sx_check(bool c, const char* msg);
void __sx_cover(const char* id);
void __sx_note(const char* key, const char* data, uint64_t len);
uint64_t __sx_concretize(uint64_t v);
bool __sx_branch(bool c);
bool __sx_issym(uint64_t v);
const char* __sx_arg();
void __sx_fail(const char* msg);
void __sx_debug(const char* msg);
void __sx_debugv(const char* msg, uint64_t v);
}
namespace sx {
inline std::string num(unsigned n)
{
	std::string s;
	do { s.insert(s.begin(), char('0' + n % 10)); n /= 10; } while (n);
	return s;
}
inline uint64_t sym(const std::string& name, unsigned bits) { return __sx_sym(name.c_str(), bits); }
inline bool boolean(const std::string& name) { return __sx_sym(name.c_str(), 1) != 0; }
inline unsigned char byte(const std::string& name) { return (unsigned char)__sx_sym(name.c_str(), 8); }
inline int32_t i32(const std::string& name) { return (int32_t)__sx_sym(name.c_str(), 32); }
inline void assume(bool c) { __sx_assume(c); }
inline void check(bool c, const char* msg) { __sx_check(c, msg); }
inline void check(bool c, const std::string& msg) { __sx_check(c, msg.c_str()); }
[[noreturn]] inline void fail(const std::string& msg) { __sx_fail(msg.c_str()); __builtin_unreachable(); }
inline void cover(const char* id) { __sx_cover(id); }
inline void note(const char* key, std::string_view v) { __sx_note(key, v.data(), v.size()); }
inline uint64_t concrete(uint64_t v) { return __sx_concretize(v); }
inline bool branch(bool c) { return __sx_branch(c); }
// a concrete choice in [0, n): every alternative is explored
inline unsigned choose(const std::string& name, unsigned n)
{
	if (n <= 1) return 0;
	unsigned bits = 1;
	while ((1u << bits) < n) bits++;
	uint64_t v = __sx_sym(name.c_str(), bits);
	__sx_assume(v < n);
	return (unsigned)__sx_concretize(v);
}
// n unconstrained bytes
inline std::string bytes(const std::string& name, size_t n)
{
	std::string s(n, 'x');
	for (size_t i = 0; i < n; i++) s[i] = (char)byte(name + "[" + num((unsigned)i) + "]");
	return s;
}
// one byte out of a set, kept symbolic
inline char oneOf(const std::string& name, std::string_view set)
{
	unsigned char c = byte(name);
	bool ok = false;
	for (char s : set) ok |= (c == (unsigned char)s);
	__sx_assume(ok);
	return (char)c;
}
// boolean connectives that do not fork
inline bool both(bool a, bool b) { return a & b; }
inline bool eqBytes(std::string_view a, std::string_view b)
{
	if (a.size() != b.size()) return false;
	bool ok = true;
	for (size_t i = 0; i < a.size(); i++) ok &= (a[i] == b[i]);
	return ok;
}
inline std::string arg() { return __sx_arg(); }
} // namespace sx
extern "C" void harness_main();
