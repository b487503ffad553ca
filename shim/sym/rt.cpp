// The parts of the C++ and C run-time libraries that have no source in headers.
#include "../sx.h"
#include <cerrno>
#include <climits>
#include <cstring>
#include <exception>
#include <functional>
#include <list>
#include <map>
#include <memory>
#include <new>
#include <optional>
#include <stdexcept>
#include <string>
#include <system_error>
#include <typeinfo>
#include <unordered_map>
#include <variant>
#include <future>
#include <iostream>
#include <fstream>

namespace std {
exception::~exception() noexcept {}
const char* exception::what() const noexcept { return "std::exception"; }
bad_exception::~bad_exception() noexcept {}
const char* bad_exception::what() const noexcept { return "std::bad_exception"; }
bad_alloc::~bad_alloc() noexcept {}
const char* bad_alloc::what() const noexcept { return "std::bad_alloc"; }
bad_array_new_length::~bad_array_new_length() noexcept {}
const char* bad_array_new_length::what() const noexcept { return "std::bad_array_new_length"; }
bad_cast::~bad_cast() noexcept {}
const char* bad_cast::what() const noexcept { return "std::bad_cast"; }
bad_typeid::~bad_typeid() noexcept {}
const char* bad_typeid::what() const noexcept { return "std::bad_typeid"; }
bad_function_call::~bad_function_call() noexcept {}
const char* bad_function_call::what() const noexcept { return "bad_function_call"; }
bad_weak_ptr::~bad_weak_ptr() noexcept {}
const char* bad_weak_ptr::what() const noexcept { return "bad_weak_ptr"; }
nested_exception::~nested_exception() noexcept {}

static const char* dup(const char* p, size_t n)
{
	char* q = (char*)malloc(n + 1);
	memcpy(q, p, n);
	q[n] = 0;
	return q;
}
__cow_string::__cow_string() : _M_p(dup("", 0)) {}
__cow_string::__cow_string(const string& s) : _M_p(dup(s.data(), s.size())) {}
__cow_string::__cow_string(const char* s, size_t n) : _M_p(dup(s, n)) {}
__cow_string::__cow_string(const __cow_string& o) noexcept : _M_p(o._M_p) {}
__cow_string& __cow_string::operator=(const __cow_string& o) noexcept { _M_p = o._M_p; return *this; }
__cow_string::~__cow_string() {}
__cow_string::__cow_string(__cow_string&& o) noexcept : _M_p(o._M_p) {}
__cow_string& __cow_string::operator=(__cow_string&& o) noexcept { _M_p = o._M_p; return *this; }
#define EXC(T, B) \
	T::T(const string& s) : B(s) {} \
	T::T(const char* s) : B(s) {} \
	T::~T() noexcept {}
logic_error::logic_error(const string& s) : _M_msg(s) {}
logic_error::logic_error(const char* s) : _M_msg(string(s)) {}
logic_error::logic_error(const logic_error& o) noexcept : exception(o), _M_msg(o._M_msg) {}
logic_error::logic_error(logic_error&& o) noexcept : exception(o), _M_msg(o._M_msg) {}
logic_error& logic_error::operator=(const logic_error& o) noexcept { _M_msg = o._M_msg; return *this; }
logic_error& logic_error::operator=(logic_error&& o) noexcept { _M_msg = o._M_msg; return *this; }
logic_error::~logic_error() noexcept {}
const char* logic_error::what() const noexcept { return _M_msg._M_p; }
runtime_error::runtime_error(const string& s) : _M_msg(s) {}
runtime_error::runtime_error(const char* s) : _M_msg(string(s)) {}
runtime_error::runtime_error(const runtime_error& o) noexcept : exception(o), _M_msg(o._M_msg) {}
runtime_error::runtime_error(runtime_error&& o) noexcept : exception(o), _M_msg(o._M_msg) {}
runtime_error& runtime_error::operator=(const runtime_error& o) noexcept { _M_msg = o._M_msg; return *this; }
runtime_error& runtime_error::operator=(runtime_error&& o) noexcept { _M_msg = o._M_msg; return *this; }
runtime_error::~runtime_error() noexcept {}
const char* runtime_error::what() const noexcept { return _M_msg._M_p; }
EXC(domain_error, logic_error)
EXC(invalid_argument, logic_error)
EXC(length_error, logic_error)
EXC(out_of_range, logic_error)
EXC(range_error, runtime_error)
EXC(overflow_error, runtime_error)
EXC(underflow_error, runtime_error)
system_error::~system_error() noexcept {}

void __throw_bad_exception() { throw bad_exception(); }
void __throw_bad_alloc() { throw bad_alloc(); }
void __throw_bad_array_new_length() { throw bad_array_new_length(); }
void __throw_bad_cast() { throw bad_cast(); }
void __throw_bad_typeid() { throw bad_typeid(); }
void __throw_logic_error(const char* s) { throw logic_error(s); }
void __throw_domain_error(const char* s) { throw domain_error(s); }
void __throw_invalid_argument(const char* s) { throw invalid_argument(s); }
void __throw_length_error(const char* s) { throw length_error(s); }
void __throw_out_of_range(const char* s) { throw out_of_range(s); }
void __throw_out_of_range_fmt(const char* s, ...) { throw out_of_range(s); }
void __throw_runtime_error(const char* s) { throw runtime_error(s); }
void __throw_range_error(const char* s) { throw range_error(s); }
void __throw_overflow_error(const char* s) { throw overflow_error(s); }
void __throw_underflow_error(const char* s) { throw underflow_error(s); }
void __throw_bad_function_call() { throw bad_function_call(); }
void __throw_system_error(int) { throw runtime_error("system_error"); }

// red-black tree
_Rb_tree_node_base* _Rb_tree_increment(_Rb_tree_node_base* x) throw()
{
	if (x->_M_right) {
		x = x->_M_right;
		while (x->_M_left) x = x->_M_left;
	} else {
		auto y = x->_M_parent;
		while (x == y->_M_right) { x = y; y = y->_M_parent; }
		if (x->_M_right != y) x = y;
	}
	return x;
}
const _Rb_tree_node_base* _Rb_tree_increment(const _Rb_tree_node_base* x) throw() { return _Rb_tree_increment(const_cast<_Rb_tree_node_base*>(x)); }
_Rb_tree_node_base* _Rb_tree_decrement(_Rb_tree_node_base* x) throw()
{
	if (x->_M_color == _S_red && x->_M_parent->_M_parent == x) x = x->_M_right;
	else if (x->_M_left) {
		auto y = x->_M_left;
		while (y->_M_right) y = y->_M_right;
		x = y;
	} else {
		auto y = x->_M_parent;
		while (x == y->_M_left) { x = y; y = y->_M_parent; }
		x = y;
	}
	return x;
}
const _Rb_tree_node_base* _Rb_tree_decrement(const _Rb_tree_node_base* x) throw() { return _Rb_tree_decrement(const_cast<_Rb_tree_node_base*>(x)); }
static void rotl(_Rb_tree_node_base* x, _Rb_tree_node_base*& root)
{
	auto y = x->_M_right;
	x->_M_right = y->_M_left;
	if (y->_M_left) y->_M_left->_M_parent = x;
	y->_M_parent = x->_M_parent;
	if (x == root) root = y;
	else if (x == x->_M_parent->_M_left) x->_M_parent->_M_left = y;
	else x->_M_parent->_M_right = y;
	y->_M_left = x;
	x->_M_parent = y;
}
static void rotr(_Rb_tree_node_base* x, _Rb_tree_node_base*& root)
{
	auto y = x->_M_left;
	x->_M_left = y->_M_right;
	if (y->_M_right) y->_M_right->_M_parent = x;
	y->_M_parent = x->_M_parent;
	if (x == root) root = y;
	else if (x == x->_M_parent->_M_right) x->_M_parent->_M_right = y;
	else x->_M_parent->_M_left = y;
	y->_M_right = x;
	x->_M_parent = y;
}
void _Rb_tree_insert_and_rebalance(const bool left, _Rb_tree_node_base* x, _Rb_tree_node_base* p, _Rb_tree_node_base& header) throw()
{
	auto& root = header._M_parent;
	x->_M_parent = p;
	x->_M_left = x->_M_right = nullptr;
	x->_M_color = _S_red;
	if (left) {
		p->_M_left = x;
		if (p == &header) { header._M_parent = x; header._M_right = x; }
		else if (p == header._M_left) header._M_left = x;
	} else {
		p->_M_right = x;
		if (p == header._M_right) header._M_right = x;
	}
	while (x != root && x->_M_parent->_M_color == _S_red) {
		auto const g = x->_M_parent->_M_parent;
		if (x->_M_parent == g->_M_left) {
			auto const y = g->_M_right;
			if (y && y->_M_color == _S_red) {
				x->_M_parent->_M_color = _S_black;
				y->_M_color = _S_black;
				g->_M_color = _S_red;
				x = g;
			} else {
				if (x == x->_M_parent->_M_right) { x = x->_M_parent; rotl(x, root); }
				x->_M_parent->_M_color = _S_black;
				g->_M_color = _S_red;
				rotr(g, root);
			}
		} else {
			auto const y = g->_M_left;
			if (y && y->_M_color == _S_red) {
				x->_M_parent->_M_color = _S_black;
				y->_M_color = _S_black;
				g->_M_color = _S_red;
				x = g;
			} else {
				if (x == x->_M_parent->_M_left) { x = x->_M_parent; rotr(x, root); }
				x->_M_parent->_M_color = _S_black;
				g->_M_color = _S_red;
				rotl(g, root);
			}
		}
	}
	root->_M_color = _S_black;
}
_Rb_tree_node_base* _Rb_tree_rebalance_for_erase(_Rb_tree_node_base* const z, _Rb_tree_node_base& header) throw()
{
	// unbalanced removal keeps the search-tree order, which is all that is observable
	auto& root = header._M_parent;
	auto& leftmost = header._M_left;
	auto& rightmost = header._M_right;
	auto repl = [&](_Rb_tree_node_base* u, _Rb_tree_node_base* v) {
		if (u == root) root = v;
		else if (u == u->_M_parent->_M_left) u->_M_parent->_M_left = v;
		else u->_M_parent->_M_right = v;
		if (v) v->_M_parent = u->_M_parent;
	};
	if (z == leftmost) leftmost = z->_M_right ? [&] { auto y = z->_M_right; while (y->_M_left) y = y->_M_left; return y; }() : z->_M_parent;
	if (z == rightmost) rightmost = z->_M_left ? [&] { auto y = z->_M_left; while (y->_M_right) y = y->_M_right; return y; }() : z->_M_parent;
	if (!z->_M_left) repl(z, z->_M_right);
	else if (!z->_M_right) repl(z, z->_M_left);
	else {
		auto y = z->_M_right;
		while (y->_M_left) y = y->_M_left;
		if (y->_M_parent != z) {
			repl(y, y->_M_right);
			y->_M_right = z->_M_right;
			y->_M_right->_M_parent = y;
		}
		repl(z, y);
		y->_M_left = z->_M_left;
		y->_M_left->_M_parent = y;
		y->_M_color = z->_M_color;
	}
	// colours: everything black keeps later insertions valid (no red-red fixups needed)
	struct R { static void black(_Rb_tree_node_base* n) { if (!n) return; n->_M_color = _S_black; black(n->_M_left); black(n->_M_right); } };
	R::black(root);
	return z;
}
namespace __detail {
void _List_node_base::_M_hook(_List_node_base* const p) noexcept
{
	_M_next = p;
	_M_prev = p->_M_prev;
	p->_M_prev->_M_next = this;
	p->_M_prev = this;
}
void _List_node_base::_M_unhook() noexcept
{
	_M_next->_M_prev = _M_prev;
	_M_prev->_M_next = _M_next;
}
void _List_node_base::_M_transfer(_List_node_base* const first, _List_node_base* const last) noexcept
{
	if (this != last) {
		last->_M_prev->_M_next = this;
		first->_M_prev->_M_next = last;
		_M_prev->_M_next = first;
		auto t = _M_prev;
		_M_prev = last->_M_prev;
		last->_M_prev = first->_M_prev;
		first->_M_prev = t;
	}
}
size_t _Prime_rehash_policy::_M_next_bkt(size_t n) const
{
	static const size_t primes[] = { 2, 5, 11, 23, 47, 97, 199, 409, 823, 1741, 3469, 6949, 14033, 28411, 57557 };
	for (size_t p : primes) if (p >= n) { _M_next_resize = p; return p; }
	_M_next_resize = n;
	return n;
}
pair<bool, size_t> _Prime_rehash_policy::_M_need_rehash(size_t nb, size_t ne, size_t ni) const
{
	if (ne + ni > _M_next_resize) {
		size_t want = ne + ni > 11 ? ne + ni : 11;
		if (_M_next_resize) want = want > 2 * nb ? want : 2 * nb;
		if (want > nb) return { true, _M_next_bkt(want) };
		_M_next_resize = nb;
	}
	return { false, 0 };
}
} // namespace __detail
// any function of the content is a valid hash; the length keeps symbolic text from being split up
size_t _Hash_bytes(const void*, size_t n, size_t) { return n * 0x9E3779B97F4A7C15ull >> 8; }
size_t _Fnv_hash_bytes(const void*, size_t n, size_t) { return n * 0x9E3779B97F4A7C15ull >> 8; }

namespace { struct Cat : error_category {
	const char* name() const noexcept override { return "sx"; }
	string message(int) const override { return "error"; }
}; }
error_category::~error_category() {}
inline namespace _V2 {
error_condition error_category::default_error_condition(int) const noexcept { return error_condition(); }
bool error_category::equivalent(int, const error_condition&) const noexcept { return false; }
bool error_category::equivalent(const error_code&, int) const noexcept { return false; }
__cow_string error_category::_M_message(int) const { return {}; }
const error_category& system_category() noexcept { static Cat* c = new Cat; return *c; }
const error_category& generic_category() noexcept { static Cat* c = new Cat; return *c; }
}
bool uncaught_exception() noexcept;
} // namespace std

extern "C" {
int isspace(int c) { return (unsigned)c - 9u < 5u || c == ' '; }
int isdigit(int c) { return (unsigned)c - '0' < 10u; }
int isupper(int c) { return (unsigned)c - 'A' < 26u; }
int islower(int c) { return (unsigned)c - 'a' < 26u; }
int isalpha(int c) { return ((unsigned)c | 32) - 'a' < 26u; }
int isalnum(int c) { return isalpha(c) | isdigit(c); }
int isxdigit(int c) { return isdigit(c) | (((unsigned)c | 32) - 'a' < 6u); }
int iscntrl(int c) { return (unsigned)c < 32u || c == 127; }
int isprint(int c) { return (unsigned)c - 32u < 95u; }
int ispunct(int c) { return isprint(c) && c != ' ' && !isalnum(c); }
int toupper(int c) { return islower(c) ? c - 32 : c; }
int tolower(int c) { return isupper(c) ? c + 32 : c; }
static unsigned long long conv(const char* p, char** end, int base, bool isSigned, bool& neg)
{
	const char* s = p;
	while (isspace((unsigned char)*s)) s++;
	neg = false;
	if (*s == '-') { neg = true; s++; }
	else if (*s == '+') s++;
	if (base == 0) {
		base = 10;
		if (*s == '0') {
			base = 8;
			if ((s[1] | 32) == 'x') { base = 16; s += 2; }
		}
	} else if (base == 16 && *s == '0' && (s[1] | 32) == 'x') s += 2;
	unsigned long long v = 0;
	const char* b = s;
	bool ov = false;
	for (;; s++) {
		int c = (unsigned char)*s, d;
		if (isdigit(c)) d = c - '0';
		else if (isalpha(c)) d = (c | 32) - 'a' + 10;
		else break;
		if (d >= base) break;
		if (s - b >= 15 && v > (ULLONG_MAX - d) / base) ov = true;
		v = v * base + d;
	}
	if (end) *end = const_cast<char*>(s == b ? p : s);
	if (isSigned && s - b >= 15 && !ov && v > (unsigned long long)LLONG_MAX + neg) ov = true;
	if (ov) {
		errno = ERANGE;
		if (!isSigned) { neg = false; return ULLONG_MAX; }
		return neg ? (unsigned long long)LLONG_MAX + 1 : (unsigned long long)LLONG_MAX;
	}
	return v;
}
long strtol(const char* p, char** e, int b) { bool n; auto v = conv(p, e, b, true, n); return (long)(n ? 0 - v : v); }
long long strtoll(const char* p, char** e, int b) { return strtol(p, e, b); }
unsigned long strtoul(const char* p, char** e, int b) { bool n; auto v = conv(p, e, b, false, n); return n ? 0 - v : v; }
unsigned long long strtoull(const char* p, char** e, int b) { return strtoul(p, e, b); }

// locks: exclusive ownership by task, so that a task waiting for itself is reported
struct Lk { int kind = 0; size_t depth = 0; int readers = 0; };
}
namespace sxf {
[[noreturn]] void deadlock() { __sx_fail("deadlock: waiting for a result nothing will deliver"); __builtin_unreachable(); }
static std::map<void*, Lk>& locks() { static auto* m = new std::map<void*, Lk>; return *m; }
static void blocked(Lk& l)
{
	// every task above the owner runs because the owner waits for it: the owner waits for itself
	auto& st = sched().stack;
	for (size_t i = l.depth; i < st.size(); i++)
		if (!st[i]->needed) { __sx_assume(false); }
	__sx_fail("deadlock: lock acquired again while it is held");
}
static int lock(void* m, bool shared)
{
	Lk& l = locks()[m];
	if (l.kind == 1 || (l.kind == 2 && !shared)) blocked(l);
	if (shared) { l.kind = 2; l.readers++; }
	else l.kind = 1;
	l.depth = sched().stack.size();
	return 0;
}
static int unlock(void* m)
{
	Lk& l = locks()[m];
	if (l.kind == 2 && --l.readers > 0) return 0;
	l.kind = 0;
	return 0;
}
}
extern "C" {
int pthread_mutex_lock(pthread_mutex_t* m) noexcept { return sxf::lock(m, false); }
int pthread_mutex_unlock(pthread_mutex_t* m) noexcept { return sxf::unlock(m); }
int pthread_rwlock_rdlock(pthread_rwlock_t* m) noexcept { return sxf::lock(m, true); }
int pthread_rwlock_wrlock(pthread_rwlock_t* m) noexcept { return sxf::lock(m, false); }
int pthread_rwlock_unlock(pthread_rwlock_t* m) noexcept { return sxf::unlock(m); }
}
// virtual files
namespace sxf { std::map<std::string, std::string>& files() { static auto* m = new std::map<std::string, std::string>; return *m; } }
bool sx_read_file(const char* name, std::string& out)
{
	auto it = sxf::files().find(name);
	if (it == sxf::files().end()) return false;
	out = it->second;
	return true;
}
void sx_write_file(const std::string& name, const std::string& text) { sxf::files()[name] = text; }
template class std::basic_string<char>;
