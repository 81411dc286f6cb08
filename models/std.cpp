// Bodies for the out-of-line parts of libstdc++ that harnesses reach (symbolic execution needs IR for them).
// They follow the documented behaviour of the standard library; none of them is part of the code under test.
#include <bits/c++config.h>
#undef _GLIBCXX_USE_C99_STDIO
#define _GLIBCXX_USE_C99_STDIO 0
#include <string>
#include <stdexcept>
#include <new>
#include <typeinfo>
#include <functional>
#include <list>
#include <map>
#include <unordered_map>
#include <cstring>
#include <cstdlib>
template class std::basic_string<char>;
namespace std {
exception::~exception() noexcept {}
const char* exception::what() const noexcept { return "std::exception"; }
bad_alloc::~bad_alloc() noexcept {}
const char* bad_alloc::what() const noexcept { return "std::bad_alloc"; }
bad_array_new_length::~bad_array_new_length() noexcept {}
const char* bad_array_new_length::what() const noexcept { return "std::bad_array_new_length"; }
bad_cast::~bad_cast() noexcept {}
const char* bad_cast::what() const noexcept { return "std::bad_cast"; }
bad_function_call::~bad_function_call() noexcept {}
const char* bad_function_call::what() const noexcept { return "bad_function_call"; }
static char* dup(const char* s) { size_t n = strlen(s); char* p = (char*)::operator new(n + 1); memcpy(p, s, n + 1); return p; }
__cow_string::__cow_string() : _M_p(dup("")) {}
static char* dupn(const char* s, size_t n) { char* p = (char*)::operator new(n + 1); memcpy(p, s, n); p[n] = 0; return p; }
__cow_string::__cow_string(const std::string& s) : _M_p(dupn(s.data(), s.size())) {}
__cow_string::__cow_string(const char* s, size_t) : _M_p(dup(s)) {}
__cow_string::__cow_string(const __cow_string& o) noexcept : _M_p(dup(o._M_p)) {}
__cow_string& __cow_string::operator=(const __cow_string& o) noexcept { _M_p = dup(o._M_p); return *this; }
__cow_string::~__cow_string() {}
__cow_string::__cow_string(__cow_string&& o) noexcept : _M_p(dup(o._M_p)) {}
__cow_string& __cow_string::operator=(__cow_string&& o) noexcept { _M_p = dup(o._M_p); return *this; }
#define BASE(T) \
    T::T(const std::string& s) : _M_msg(s) {} \
    T::T(const char* s) : _M_msg(s, strlen(s)) {} \
    T::T(T&& o) noexcept : _M_msg(o._M_msg) {} \
    T::T(const T& o) noexcept : exception(), _M_msg(o._M_msg) {} \
    T::~T() noexcept {} \
    const char* T::what() const noexcept { return _M_msg._M_p; }
BASE(logic_error)
BASE(runtime_error)
#define DER(T, B) T::T(const std::string& s) : B(s) {} T::T(const char* s) : B(s) {} T::~T() noexcept {}
DER(invalid_argument, logic_error)
DER(out_of_range, logic_error)
DER(length_error, logic_error)
DER(domain_error, logic_error)
DER(range_error, runtime_error)
DER(overflow_error, runtime_error)
DER(underflow_error, runtime_error)
void __throw_bad_alloc() { throw bad_alloc(); }
void __throw_bad_array_new_length() { throw bad_array_new_length(); }
void __throw_bad_cast() { throw bad_cast(); }
void __throw_bad_function_call() { throw bad_function_call(); }
void __throw_logic_error(const char* s) { throw logic_error(s); }
void __throw_domain_error(const char* s) { throw domain_error(s); }
void __throw_invalid_argument(const char* s) { throw invalid_argument(s); }
void __throw_length_error(const char* s) { throw length_error(s); }
void __throw_out_of_range(const char* s) { throw out_of_range(s); }
void __throw_out_of_range_fmt(const char* s, ...) { throw out_of_range(s); }
void __throw_runtime_error(const char* s) { throw runtime_error(s); }
void __throw_range_error(const char* s) { throw range_error(s); }
void __throw_overflow_error(const char* s) { throw overflow_error(s); }
void __throw_underflow_error(const char* s) { throw underflow_error(s); }
// Ordered trees: same in-order structure, without rebalancing (not observable).
_Rb_tree_node_base* _Rb_tree_increment(_Rb_tree_node_base* x) throw() {
    if (x->_M_right != 0) { x = x->_M_right; while (x->_M_left != 0) x = x->_M_left; }
    else { _Rb_tree_node_base* y = x->_M_parent; while (x == y->_M_right) { x = y; y = y->_M_parent; } if (x->_M_right != y) x = y; }
    return x;
}
const _Rb_tree_node_base* _Rb_tree_increment(const _Rb_tree_node_base* x) throw() { return _Rb_tree_increment(const_cast<_Rb_tree_node_base*>(x)); }
_Rb_tree_node_base* _Rb_tree_decrement(_Rb_tree_node_base* x) throw() {
    if (x->_M_color == _S_red && x->_M_parent->_M_parent == x) x = x->_M_right;
    else if (x->_M_left != 0) { _Rb_tree_node_base* y = x->_M_left; while (y->_M_right != 0) y = y->_M_right; x = y; }
    else { _Rb_tree_node_base* y = x->_M_parent; while (x == y->_M_left) { x = y; y = y->_M_parent; } x = y; }
    return x;
}
const _Rb_tree_node_base* _Rb_tree_decrement(const _Rb_tree_node_base* x) throw() { return _Rb_tree_decrement(const_cast<_Rb_tree_node_base*>(x)); }
void _Rb_tree_insert_and_rebalance(const bool left, _Rb_tree_node_base* x, _Rb_tree_node_base* p, _Rb_tree_node_base& h) throw() {
    x->_M_parent = p; x->_M_left = 0; x->_M_right = 0; x->_M_color = _S_black;
    if (left) { p->_M_left = x; if (p == &h) { h._M_parent = x; h._M_right = x; } else if (p == h._M_left) h._M_left = x; }
    else { p->_M_right = x; if (p == h._M_right) h._M_right = x; }
}
_Rb_tree_node_base* _Rb_tree_rebalance_for_erase(_Rb_tree_node_base* const z, _Rb_tree_node_base& h) throw() {
    if (h._M_left == z && h._M_right == z) { h._M_parent = 0; h._M_left = &h; h._M_right = &h; return z; }
    if (h._M_left == z) h._M_left = _Rb_tree_increment(z);
    if (h._M_right == z) h._M_right = _Rb_tree_decrement(z);
    auto replace = [&](_Rb_tree_node_base* o, _Rb_tree_node_base* n) {
        if (h._M_parent == o) h._M_parent = n; else if (o->_M_parent->_M_left == o) o->_M_parent->_M_left = n; else o->_M_parent->_M_right = n;
        if (n) n->_M_parent = o->_M_parent;
    };
    if (z->_M_left == 0) replace(z, z->_M_right);
    else if (z->_M_right == 0) replace(z, z->_M_left);
    else {
        _Rb_tree_node_base* y = z->_M_right; while (y->_M_left) y = y->_M_left;
        if (y->_M_parent != z) { replace(y, y->_M_right); y->_M_right = z->_M_right; y->_M_right->_M_parent = y; }
        replace(z, y); y->_M_left = z->_M_left; y->_M_left->_M_parent = y;
    }
    return z;
}
namespace __detail {
void _List_node_base::swap(_List_node_base& x, _List_node_base& y) noexcept {
    if (x._M_next != &x) {
        if (y._M_next != &y) { std::swap(x._M_next, y._M_next); std::swap(x._M_prev, y._M_prev); x._M_next->_M_prev = x._M_prev->_M_next = &x; y._M_next->_M_prev = y._M_prev->_M_next = &y; }
        else { y._M_next = x._M_next; y._M_prev = x._M_prev; y._M_next->_M_prev = y._M_prev->_M_next = &y; x._M_next = x._M_prev = &x; }
    } else if (y._M_next != &y) { x._M_next = y._M_next; x._M_prev = y._M_prev; x._M_next->_M_prev = x._M_prev->_M_next = &x; y._M_next = y._M_prev = &y; }
}
void _List_node_base::_M_transfer(_List_node_base* const first, _List_node_base* const last) noexcept {
    if (this != last) { last->_M_prev->_M_next = this; first->_M_prev->_M_next = last; this->_M_prev->_M_next = first; _List_node_base* const t = this->_M_prev; this->_M_prev = last->_M_prev; last->_M_prev = first->_M_prev; first->_M_prev = t; }
}
void _List_node_base::_M_hook(_List_node_base* const p) noexcept { _M_next = p; _M_prev = p->_M_prev; p->_M_prev->_M_next = this; p->_M_prev = this; }
void _List_node_base::_M_unhook() noexcept { _List_node_base* n = _M_next; _List_node_base* p = _M_prev; p->_M_next = n; n->_M_prev = p; }
size_t _Prime_rehash_policy::_M_next_bkt(size_t n) const { size_t c = n < 13 ? 13 : n | 1; _M_next_resize = (size_t)c; return c; }
pair<bool, size_t> _Prime_rehash_policy::_M_need_rehash(size_t bkt, size_t elt, size_t ins) const {
    if (elt + ins > _M_next_resize) { size_t want = elt + ins > 13 ? elt + ins : 13; if (want >= bkt) { size_t g = bkt * 2 > want + 1 ? bkt * 2 : want + 1; return {true, _M_next_bkt(g)}; } _M_next_resize = bkt; }
    return {false, 0};
}
}
size_t _Hash_bytes(const void* p, size_t n, size_t seed) { const unsigned char* c = (const unsigned char*)p; size_t h = seed; for (size_t i = 0; i < n; i++) h = h * 31 + c[i]; return h; }
}

// std::to_string of floating point values (only ever used in messages): a fixed text.
#include <cstdarg>
std::string sv_xstring(int (*)(char*, size_t, const char*, va_list), size_t, const char*, ...) asm("_ZN9__gnu_cxx12__to_xstringINSt7__cxx1112basic_stringIcSt11char_traitsIcESaIcEEEcEET_PFiPT0_mPKS8_P13__va_list_tagEmSB_z");
std::string sv_xstring(int (*)(char*, size_t, const char*, va_list), size_t, const char*, ...) { return "0"; }
