// Library code the engine executes symbolically in place of the compiled libstdc++ / libc:
// definitions with the standard's semantics, compiled to IR with everything else.
#include <string>
#include <stdexcept>
#include <new>
#include <typeinfo>
#include <exception>
#include <functional>
#include <complex>
#include <cstring>
#include <cstdarg>
#include <list>
#include <map>
#include <unordered_map>
#include <ctime>
#include <cstdio>
#include <locale>
#include "sym.h"

extern "C" {
size_t strlen(const char* s) { size_t n = 0; while (s[n]) n++; return n; }
int strcmp(const char* a, const char* b) { while (*a && *a == *b) { a++; b++; } return (int)(unsigned char)*a - (int)(unsigned char)*b; }
int strncmp(const char* a, const char* b, size_t n) { for (; n; n--, a++, b++) { if (*a != *b) return (int)(unsigned char)*a - (int)(unsigned char)*b; if (!*a) return 0; } return 0; }
int memcmp(const void* a, const void* b, size_t n) { const unsigned char *x = (const unsigned char*)a, *y = (const unsigned char*)b; for (size_t i = 0; i < n; i++) if (x[i] != y[i]) return (int)x[i] - (int)y[i]; return 0; }
int bcmp(const void* a, const void* b, size_t n) { return memcmp(a, b, n); }
void* rt_memchr(const void* p, int c, size_t n) asm("memchr");
void* rt_memchr(const void* p, int c, size_t n) { const unsigned char* x = (const unsigned char*)p; for (size_t i = 0; i < n; i++) if (x[i] == (unsigned char)c) return (void*)(x + i); return 0; }
char* rt_strchr(const char* s, int c) asm("strchr");
char* rt_strchr(const char* s, int c) { for (;; s++) { if (*s == (char)c) return (char*)s; if (!*s) return 0; } }
char* strcpy(char* d, const char* s) { char* r = d; while ((*d++ = *s++)); return r; }
int isspace(int c) { return c == ' ' || (c >= 9 && c <= 13); }
int isdigit(int c) { return c >= '0' && c <= '9'; }
int tolower(int c) { return c >= 'A' && c <= 'Z' ? c + 32 : c; }
int toupper(int c) { return c >= 'a' && c <= 'z' ? c - 32 : c; }
int isalpha(int c) { return (c >= 'a' && c <= 'z') || (c >= 'A' && c <= 'Z'); }
int isalnum(int c) { return isalpha(c) || isdigit(c); }
int snprintf(char* b, size_t n, const char*, ...) { if (n) b[0] = 0; return 0; }
int vsnprintf(char* b, size_t n, const char*, va_list) { if (n) b[0] = 0; return 0; }
int sprintf(char* b, const char*, ...) { b[0] = 0; return 0; }
char* strerror_r(int, char* b, size_t n) { if (n) b[0] = 0; return b; }
__attribute__((weak)) int usleep(unsigned) { return 0; }
double _Complex __muldc3(double a, double b, double c, double d) { double _Complex r; __real__ r = a * c - b * d; __imag__ r = a * d + b * c; return r; }
double cabs(double _Complex z) { return __builtin_hypot(__real__ z, __imag__ z); }
double _Complex __divdc3(double a, double b, double c, double d) { double q = c * c + d * d; double _Complex r; __real__ r = (a * c + b * d) / q; __imag__ r = (b * c - a * d) / q; return r; }
double _Complex cexp(double _Complex z) { double m = __builtin_exp(__real__ z); double _Complex r; __real__ r = m * __builtin_cos(__imag__ z); __imag__ r = m * __builtin_sin(__imag__ z); return r; }
}

template class std::basic_string<char>;

namespace std {
exception::~exception() noexcept {}
const char* exception::what() const noexcept { return "std::exception"; }
bad_exception::~bad_exception() noexcept {}
const char* bad_exception::what() const noexcept { return "std::bad_exception"; }
bad_alloc::~bad_alloc() noexcept {}
const char* bad_alloc::what() const noexcept { return "std::bad_alloc"; }
bad_array_new_length::~bad_array_new_length() noexcept {}
const char* bad_array_new_length::what() const noexcept { return "std::bad_array_new_length"; }
bad_cast::~bad_cast() noexcept {}
const char* bad_cast::what() const noexcept { return "std::bad_cast"; }
bad_typeid::~bad_typeid() noexcept {}
const char* bad_typeid::what() const noexcept { return "std::bad_typeid"; }
bad_function_call::~bad_function_call() noexcept {}
const char* bad_function_call::what() const noexcept { return "bad_function_call"; }
type_info::~type_info() {}

static const char* dupMsg(const char* s, size_t n) { char* p = new char[n + 1]; for (size_t i = 0; i < n; i++) p[i] = s[i]; p[n] = 0; return p; }
__cow_string::__cow_string() : _M_p(dupMsg("", 0)) {}
__cow_string::__cow_string(const std::string& s) : _M_p(dupMsg(s.data(), s.size())) {}
__cow_string::__cow_string(const char* s, size_t n) : _M_p(dupMsg(s, n)) {}
__cow_string::__cow_string(const __cow_string& o) noexcept : _M_p(dupMsg(o._M_p, strlen(o._M_p))) {}
__cow_string& __cow_string::operator=(const __cow_string& o) noexcept { if (this != &o) { delete[] _M_p; _M_p = dupMsg(o._M_p, strlen(o._M_p)); } return *this; }
__cow_string::~__cow_string() { delete[] _M_p; }
__cow_string::__cow_string(__cow_string&& o) noexcept : _M_p(dupMsg(o._M_p, strlen(o._M_p))) {}
__cow_string& __cow_string::operator=(__cow_string&& o) noexcept { if (this != &o) { delete[] _M_p; _M_p = dupMsg(o._M_p, strlen(o._M_p)); } return *this; }

logic_error::logic_error(const string& s) : _M_msg(s) {}
logic_error::logic_error(const char* s) : _M_msg(s, strlen(s)) {}
logic_error::logic_error(const logic_error& o) noexcept : exception(o), _M_msg(o._M_msg) {}
logic_error& logic_error::operator=(const logic_error& o) noexcept { _M_msg = o._M_msg; return *this; }
logic_error::logic_error(logic_error&& o) noexcept : exception(o), _M_msg(o._M_msg) {}
logic_error& logic_error::operator=(logic_error&& o) noexcept { _M_msg = o._M_msg; return *this; }
logic_error::~logic_error() noexcept {}
const char* logic_error::what() const noexcept { return _M_msg._M_p; }
runtime_error::runtime_error(const string& s) : _M_msg(s) {}
runtime_error::runtime_error(const char* s) : _M_msg(s, strlen(s)) {}
runtime_error::runtime_error(const runtime_error& o) noexcept : exception(o), _M_msg(o._M_msg) {}
runtime_error& runtime_error::operator=(const runtime_error& o) noexcept { _M_msg = o._M_msg; return *this; }
runtime_error::runtime_error(runtime_error&& o) noexcept : exception(o), _M_msg(o._M_msg) {}
runtime_error& runtime_error::operator=(runtime_error&& o) noexcept { _M_msg = o._M_msg; return *this; }
runtime_error::~runtime_error() noexcept {}
const char* runtime_error::what() const noexcept { return _M_msg._M_p; }
#define LE(T) T::T(const string& s) : logic_error(s) {} T::T(const char* s) : logic_error(s) {} T::~T() noexcept {}
#define RE(T) T::T(const string& s) : runtime_error(s) {} T::T(const char* s) : runtime_error(s) {} T::~T() noexcept {}
LE(domain_error) LE(invalid_argument) LE(length_error) LE(out_of_range)
RE(range_error) RE(overflow_error) RE(underflow_error)

void __throw_bad_alloc() { throw bad_alloc(); }
void __throw_bad_array_new_length() { throw bad_array_new_length(); }
void __throw_bad_cast() { throw bad_cast(); }
void __throw_bad_typeid() { throw bad_typeid(); }
void __throw_bad_function_call() { throw bad_function_call(); }
void __throw_bad_exception() { throw bad_exception(); }
void __throw_logic_error(const char* s) { throw logic_error(s); }
void __throw_domain_error(const char* s) { throw domain_error(s); }
void __throw_invalid_argument(const char* s) { throw invalid_argument(s); }
void __throw_length_error(const char* s) { throw length_error(s); }
void __throw_out_of_range(const char* s) { throw out_of_range(s); }
void __throw_out_of_range_fmt(const char* s, ...) { throw out_of_range(s); }
void __throw_runtime_error(const char* s) { throw runtime_error(s); }
void __throw_range_error(const char* s) { throw range_error(s); }
void __throw_overflow_error(const char* s) { throw overflow_error(s); }
void __throw_underflow_error(const char* s) { throw underflow_error(s); }

// std::list
namespace __detail {
void _List_node_base::swap(_List_node_base& x, _List_node_base& y) noexcept {
  if (x._M_next != &x) {
    if (y._M_next != &y) { std::swap(x._M_next, y._M_next); std::swap(x._M_prev, y._M_prev); x._M_next->_M_prev = x._M_prev->_M_next = &x; y._M_next->_M_prev = y._M_prev->_M_next = &y; }
    else { y._M_next = x._M_next; y._M_prev = x._M_prev; y._M_next->_M_prev = y._M_prev->_M_next = &y; x._M_next = x._M_prev = &x; }
  } else if (y._M_next != &y) { x._M_next = y._M_next; x._M_prev = y._M_prev; x._M_next->_M_prev = x._M_prev->_M_next = &x; y._M_next = y._M_prev = &y; }
}
void _List_node_base::_M_transfer(_List_node_base* const first, _List_node_base* const last) noexcept {
  if (this != last) { last->_M_prev->_M_next = this; first->_M_prev->_M_next = last; this->_M_prev->_M_next = first; _List_node_base* const t = this->_M_prev; this->_M_prev = last->_M_prev; last->_M_prev = first->_M_prev; first->_M_prev = t; }
}
void _List_node_base::_M_reverse() noexcept { _List_node_base* t = this; do { std::swap(t->_M_next, t->_M_prev); t = t->_M_prev; } while (t != this); }
void _List_node_base::_M_hook(_List_node_base* const p) noexcept { this->_M_next = p; this->_M_prev = p->_M_prev; p->_M_prev->_M_next = this; p->_M_prev = this; }
void _List_node_base::_M_unhook() noexcept { _List_node_base *const n = this->_M_next, *const p = this->_M_prev; p->_M_next = n; n->_M_prev = p; }
// std::unordered_*: growth policy only affects performance
size_t _Prime_rehash_policy::_M_next_bkt(size_t n) const { size_t r = 13; while (r < n) r = r * 2 + 1; _M_next_resize = r; return r; }
pair<bool, size_t> _Prime_rehash_policy::_M_need_rehash(size_t nb, size_t ne, size_t ni) const { if (ne + ni > nb) { size_t r = 13; while (r < ne + ni) r = r * 2 + 1; return {true, r}; } return {false, 0}; }
}
size_t _Hash_bytes(const void* p, size_t n, size_t seed) { size_t h = seed; const unsigned char* b = (const unsigned char*)p; for (size_t i = 0; i < n; i++) h = h * 31 + b[i]; return h; }

// std::map / std::set: an unbalanced search tree has the same observable behaviour
_Rb_tree_node_base* _Rb_tree_increment(_Rb_tree_node_base* x) throw() {
  if (x->_M_right) { x = x->_M_right; while (x->_M_left) x = x->_M_left; return x; }
  _Rb_tree_node_base* y = x->_M_parent; while (x == y->_M_right) { x = y; y = y->_M_parent; } if (x->_M_right != y) x = y; return x;
}
const _Rb_tree_node_base* _Rb_tree_increment(const _Rb_tree_node_base* x) throw() { return _Rb_tree_increment(const_cast<_Rb_tree_node_base*>(x)); }
_Rb_tree_node_base* _Rb_tree_decrement(_Rb_tree_node_base* x) throw() {
  if (x->_M_color == _S_red && x->_M_parent->_M_parent == x) return x->_M_right;
  if (x->_M_left) { _Rb_tree_node_base* y = x->_M_left; while (y->_M_right) y = y->_M_right; return y; }
  _Rb_tree_node_base* y = x->_M_parent; while (x == y->_M_left) { x = y; y = y->_M_parent; } return y;
}
const _Rb_tree_node_base* _Rb_tree_decrement(const _Rb_tree_node_base* x) throw() { return _Rb_tree_decrement(const_cast<_Rb_tree_node_base*>(x)); }
void _Rb_tree_insert_and_rebalance(const bool left, _Rb_tree_node_base* x, _Rb_tree_node_base* p, _Rb_tree_node_base& h) throw() {
  x->_M_parent = p; x->_M_left = 0; x->_M_right = 0; x->_M_color = _S_black; // black: the header is the only red node
  if (left) { p->_M_left = x; if (p == &h) { h._M_parent = x; h._M_right = x; } else if (p == h._M_left) h._M_left = x; }
  else { p->_M_right = x; if (p == h._M_right) h._M_right = x; }
}
_Rb_tree_node_base* _Rb_tree_rebalance_for_erase(_Rb_tree_node_base* const z, _Rb_tree_node_base& h) throw() {
  auto replace = [&](_Rb_tree_node_base* u, _Rb_tree_node_base* v) { if (h._M_parent == u) h._M_parent = v; else if (u->_M_parent->_M_left == u) u->_M_parent->_M_left = v; else u->_M_parent->_M_right = v; if (v) v->_M_parent = u->_M_parent; };
  _Rb_tree_node_base *lm = h._M_left == z ? _Rb_tree_increment(z) : h._M_left, *rm = h._M_right == z ? _Rb_tree_decrement(z) : h._M_right;
  if (!z->_M_left) replace(z, z->_M_right);
  else if (!z->_M_right) replace(z, z->_M_left);
  else {
    _Rb_tree_node_base* y = z->_M_right; while (y->_M_left) y = y->_M_left;
    if (y->_M_parent != z) { replace(y, y->_M_right); y->_M_right = z->_M_right; y->_M_right->_M_parent = y; }
    replace(z, y); y->_M_left = z->_M_left; y->_M_left->_M_parent = y;
  }
  h._M_left = h._M_parent ? lm : &h; h._M_right = h._M_parent ? rm : &h;
  return z;
}
}
extern "C" void __cxa_bad_cast() { throw std::bad_cast(); }
extern "C" void __cxa_bad_typeid() { throw std::bad_typeid(); }
extern "C" void __cxa_throw_bad_array_new_length() { throw std::bad_array_new_length(); }
// streams write nowhere; the text of a string stream is not modelled
std::string rt_ss_str(const void*) asm("_ZNKSt7__cxx1118basic_stringstreamIcSt11char_traitsIcESaIcEE3strEv");
std::string rt_ss_str(const void*) { return "<text>"; }
std::string rt_oss_str(const void*) asm("_ZNKSt7__cxx1119basic_ostringstreamIcSt11char_traitsIcESaIcEE3strEv");
std::string rt_oss_str(const void*) { return "<text>"; }
