// Stand-ins for out-of-line parts of libstdc++ (trusted): red-black tree node linking (as an ordered, unbalanced tree)
// and list hooks.  Only their sequential, order-preserving behaviour matters for the contracts.
#include <map>
#include <list>
#include <string>
template class std::basic_string<char>;
template class std::allocator<char>;
namespace std {
void _Rb_tree_insert_and_rebalance(const bool left, _Rb_tree_node_base *x, _Rb_tree_node_base *p, _Rb_tree_node_base &header) noexcept {
  x->_M_parent = p; x->_M_left = nullptr; x->_M_right = nullptr; x->_M_color = _S_black;
  if (left) { p->_M_left = x; if (p == &header) { header._M_parent = x; header._M_right = x; } else if (p == header._M_left) header._M_left = x; }
  else { p->_M_right = x; if (p == header._M_right) header._M_right = x; }
}
static _Rb_tree_node_base *inc(_Rb_tree_node_base *x) {
  if (x->_M_right) { x = x->_M_right; while (x->_M_left) x = x->_M_left; }
  else { _Rb_tree_node_base *y = x->_M_parent; while (x == y->_M_right) { x = y; y = y->_M_parent; } if (x->_M_right != y) x = y; }
  return x;
}
// the header is recognised by being its parent's parent
static bool is_header(const _Rb_tree_node_base *x) { return x->_M_parent && x->_M_parent->_M_parent == x && (x->_M_color == _S_red); }
static _Rb_tree_node_base *dec(_Rb_tree_node_base *x) {
  if (is_header(x)) return x->_M_right;
  if (x->_M_left) { _Rb_tree_node_base *y = x->_M_left; while (y->_M_right) y = y->_M_right; return y; }
  _Rb_tree_node_base *y = x->_M_parent; while (x == y->_M_left) { x = y; y = y->_M_parent; } return y;
}
_Rb_tree_node_base *_Rb_tree_increment(_Rb_tree_node_base *x) noexcept { return inc(x); }
const _Rb_tree_node_base *_Rb_tree_increment(const _Rb_tree_node_base *x) noexcept { return inc(const_cast<_Rb_tree_node_base *>(x)); }
_Rb_tree_node_base *_Rb_tree_decrement(_Rb_tree_node_base *x) noexcept { return dec(x); }
const _Rb_tree_node_base *_Rb_tree_decrement(const _Rb_tree_node_base *x) noexcept { return dec(const_cast<_Rb_tree_node_base *>(x)); }
_Rb_tree_node_base *_Rb_tree_rebalance_for_erase(_Rb_tree_node_base *const z, _Rb_tree_node_base &header) noexcept {
  _Rb_tree_node_base *nxt = inc(z); _Rb_tree_node_base *prv = (z == header._M_left) ? &header : dec(z);
  auto replace = [&](_Rb_tree_node_base *a, _Rb_tree_node_base *b) {
    if (header._M_parent == a) header._M_parent = b;
    else if (a->_M_parent->_M_left == a) a->_M_parent->_M_left = b;
    else a->_M_parent->_M_right = b;
    if (b) b->_M_parent = a->_M_parent;
  };
  bool wasLeft = header._M_left == z, wasRight = header._M_right == z;
  if (!z->_M_left) replace(z, z->_M_right);
  else if (!z->_M_right) replace(z, z->_M_left);
  else {
    _Rb_tree_node_base *y = z->_M_right; while (y->_M_left) y = y->_M_left;
    if (y->_M_parent != z) { replace(y, y->_M_right); y->_M_right = z->_M_right; y->_M_right->_M_parent = y; }
    replace(z, y); y->_M_left = z->_M_left; y->_M_left->_M_parent = y;
  }
  if (wasLeft) header._M_left = nxt;
  if (wasRight) header._M_right = header._M_parent ? prv : &header;
  return z;
}
namespace __detail {
void _List_node_base::_M_hook(_List_node_base *const p) noexcept { this->_M_next = p; this->_M_prev = p->_M_prev; p->_M_prev->_M_next = this; p->_M_prev = this; }
void _List_node_base::_M_unhook() noexcept { auto *n = this->_M_next; auto *p = this->_M_prev; p->_M_next = n; n->_M_prev = p; }
void _List_node_base::_M_transfer(_List_node_base *const first, _List_node_base *const last) noexcept {
  if (this != last) {
    last->_M_prev->_M_next = this; first->_M_prev->_M_next = last; this->_M_prev->_M_next = first;
    auto *const tmp = this->_M_prev; this->_M_prev = last->_M_prev; last->_M_prev = first->_M_prev; first->_M_prev = tmp;
  }
}
void _List_node_base::swap(_List_node_base &x, _List_node_base &y) noexcept {
  if (x._M_next != &x) {
    if (y._M_next != &y) { std::swap(x._M_next, y._M_next); std::swap(x._M_prev, y._M_prev); x._M_next->_M_prev = x._M_prev->_M_next = &x; y._M_next->_M_prev = y._M_prev->_M_next = &y; }
    else { y._M_next = x._M_next; y._M_prev = x._M_prev; y._M_next->_M_prev = y._M_prev->_M_next = &y; x._M_next = x._M_prev = &x; }
  } else if (y._M_next != &y) { x._M_next = y._M_next; x._M_prev = y._M_prev; x._M_next->_M_prev = x._M_prev->_M_next = &x; y._M_next = y._M_prev = &y; }
}
}
}
extern "C" { char __libc_single_threaded = 1; }
// exception classes (the message is not kept: no contract mentions it)
#include <stdexcept>
#include <new>
#include <functional>
#include <typeinfo>
namespace std {
exception::~exception() noexcept {}
const char *exception::what() const noexcept { return ""; }
__cow_string::__cow_string() : _M_p("") {}
__cow_string::__cow_string(const std::string &) : _M_p("") {}
__cow_string::__cow_string(const char *, size_t) : _M_p("") {}
__cow_string::__cow_string(const __cow_string &) noexcept : _M_p("") {}
__cow_string &__cow_string::operator=(const __cow_string &) noexcept { return *this; }
__cow_string::~__cow_string() {}
__cow_string::__cow_string(__cow_string &&) noexcept : _M_p("") {}
__cow_string &__cow_string::operator=(__cow_string &&) noexcept { return *this; }
#define SUP_EXC(C) C::C(const std::string &) {} C::C(const char *) {} C::C(const C &) noexcept = default; C &C::operator=(const C &) noexcept = default; C::C(C &&) noexcept = default; C &C::operator=(C &&) noexcept = default; C::~C() noexcept {} const char *C::what() const noexcept { return ""; }
SUP_EXC(runtime_error) SUP_EXC(logic_error)
#define SUP_EXD(C, B) C::C(const std::string &s) : B(s) {} C::C(const char *s) : B(s) {} C::~C() noexcept {}
SUP_EXD(invalid_argument, logic_error) SUP_EXD(out_of_range, logic_error) SUP_EXD(length_error, logic_error) SUP_EXD(domain_error, logic_error) SUP_EXD(range_error, runtime_error) SUP_EXD(overflow_error, runtime_error) SUP_EXD(underflow_error, runtime_error)
bad_alloc::~bad_alloc() noexcept {} const char *bad_alloc::what() const noexcept { return ""; }
bad_function_call::~bad_function_call() noexcept {} const char *bad_function_call::what() const noexcept { return ""; }
bad_cast::~bad_cast() noexcept {} const char *bad_cast::what() const noexcept { return ""; }
void __throw_length_error(const char *s) { throw length_error(s); } void __throw_out_of_range(const char *s) { throw out_of_range(s); } void __throw_out_of_range_fmt(const char *s, ...) { throw out_of_range(s); }
void __throw_bad_alloc() { throw bad_alloc(); } void __throw_logic_error(const char *s) { throw logic_error(s); } void __throw_bad_function_call() { throw bad_function_call(); }
void __throw_invalid_argument(const char *s) { throw invalid_argument(s); } void __throw_runtime_error(const char *s) { throw runtime_error(s); } void __throw_bad_cast() { throw bad_cast(); }
}
// character classes of the C locale
extern "C" {
int isspace(int c) { return (c == ' ') | ((c >= 9) & (c <= 13)); }
int isdigit(int c) { return (c >= '0') & (c <= '9'); }
int isupper(int c) { return (c >= 'A') & (c <= 'Z'); }
int islower(int c) { return (c >= 'a') & (c <= 'z'); }
int isalpha(int c) { return ((c >= 'A') & (c <= 'Z')) | ((c >= 'a') & (c <= 'z')); }
int isalnum(int c) { return ((c >= 'A') & (c <= 'Z')) | ((c >= 'a') & (c <= 'z')) | ((c >= '0') & (c <= '9')); }
int isxdigit(int c) { return ((c >= 'A') & (c <= 'F')) | ((c >= 'a') & (c <= 'f')) | ((c >= '0') & (c <= '9')); }
int tolower(int c) { return (c >= 'A') & (c <= 'Z') ? c + 32 : c; }
int toupper(int c) { return (c >= 'a') & (c <= 'z') ? c - 32 : c; }
}
