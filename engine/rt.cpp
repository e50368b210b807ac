// Models of libstdc++ functions that exist only as compiled code in libstdc++.so.
// Trusted: these stand in for the shared library when the IR is verified.
#include <bits/stl_tree.h>
#include <bits/stl_list.h>
#include <unordered_map>
#include <string>
#include <list>
#include <map>
#include <cstdlib>
namespace std {
// plain (unbalanced) insertion keeps the ordering contract of the red-black tree
void _Rb_tree_insert_and_rebalance(const bool left, _Rb_tree_node_base* x, _Rb_tree_node_base* p, _Rb_tree_node_base& h) noexcept {
    x->_M_parent = p; x->_M_left = 0; x->_M_right = 0; x->_M_color = _S_black;
    if (left) {
        p->_M_left = x;
        if (p == &h) { h._M_parent = x; h._M_right = x; }
        else if (p == h._M_left) h._M_left = x;
    } else {
        p->_M_right = x;
        if (p == h._M_right) h._M_right = x;
    }
}
static _Rb_tree_node_base* inc(_Rb_tree_node_base* x) {
    if (x->_M_right) { x = x->_M_right; while (x->_M_left) x = x->_M_left; }
    else { _Rb_tree_node_base* y = x->_M_parent; while (x == y->_M_right) { x = y; y = y->_M_parent; } if (x->_M_right != y) x = y; }
    return x;
}
static bool isHeader(_Rb_tree_node_base* x) { return x->_M_color == _S_red; }   // only headers are red here
static _Rb_tree_node_base* dec(_Rb_tree_node_base* x) {
    if (isHeader(x)) return x->_M_right;
    if (x->_M_left) { _Rb_tree_node_base* y = x->_M_left; while (y->_M_right) y = y->_M_right; return y; }
    _Rb_tree_node_base* y = x->_M_parent;
    while (x == y->_M_left) { x = y; y = y->_M_parent; }
    return y;
}
_Rb_tree_node_base* _Rb_tree_increment(_Rb_tree_node_base* x) noexcept { return inc(x); }
const _Rb_tree_node_base* _Rb_tree_increment(const _Rb_tree_node_base* x) noexcept { return inc(const_cast<_Rb_tree_node_base*>(x)); }
_Rb_tree_node_base* _Rb_tree_decrement(_Rb_tree_node_base* x) noexcept { return dec(x); }
const _Rb_tree_node_base* _Rb_tree_decrement(const _Rb_tree_node_base* x) noexcept { return dec(const_cast<_Rb_tree_node_base*>(x)); }
_Rb_tree_node_base* _Rb_tree_rebalance_for_erase(_Rb_tree_node_base* const z, _Rb_tree_node_base& h) noexcept {
    _Rb_tree_node_base* next = inc(z); _Rb_tree_node_base* prev = (z == h._M_left) ? &h : dec(z);
    if (h._M_left == z) h._M_left = next;
    if (h._M_right == z) h._M_right = prev;
    _Rb_tree_node_base** link = (z->_M_parent == &h) ? &h._M_parent : (z->_M_parent->_M_left == z ? &z->_M_parent->_M_left : &z->_M_parent->_M_right);
    if (!z->_M_left || !z->_M_right) {
        _Rb_tree_node_base* c = z->_M_left ? z->_M_left : z->_M_right;
        *link = c; if (c) c->_M_parent = z->_M_parent;
    } else {
        _Rb_tree_node_base* y = z->_M_right; while (y->_M_left) y = y->_M_left;   // successor
        if (y->_M_parent != z) {
            y->_M_parent->_M_left = y->_M_right; if (y->_M_right) y->_M_right->_M_parent = y->_M_parent;
            y->_M_right = z->_M_right; z->_M_right->_M_parent = y;
        }
        y->_M_left = z->_M_left; z->_M_left->_M_parent = y;
        *link = y; y->_M_parent = z->_M_parent;
    }
    if (!h._M_parent) { h._M_left = &h; h._M_right = &h; }
    return z;
}
namespace __detail {
void _List_node_base::_M_hook(_List_node_base* const p) noexcept { _M_next = p; _M_prev = p->_M_prev; p->_M_prev->_M_next = this; p->_M_prev = this; }
void _List_node_base::_M_unhook() noexcept { _M_next->_M_prev = _M_prev; _M_prev->_M_next = _M_next; }
void _List_node_base::_M_transfer(_List_node_base* const first, _List_node_base* const last) noexcept {
    if (this != last) {
        last->_M_prev->_M_next = this; first->_M_prev->_M_next = last; _M_prev->_M_next = first;
        _List_node_base* const t = _M_prev; _M_prev = last->_M_prev; last->_M_prev = first->_M_prev; first->_M_prev = t;
    }
}
void _List_node_base::_M_reverse() noexcept { _List_node_base* t = this; do { _List_node_base* n = t->_M_next; t->_M_next = t->_M_prev; t->_M_prev = n; t = n; } while (t != this); }
void _List_node_base::swap(_List_node_base& x, _List_node_base& y) noexcept {
    if (x._M_next != &x) {
        if (y._M_next != &y) { auto a = x._M_next; x._M_next = y._M_next; y._M_next = a; auto b = x._M_prev; x._M_prev = y._M_prev; y._M_prev = b;
            x._M_next->_M_prev = x._M_prev->_M_next = &x; y._M_next->_M_prev = y._M_prev->_M_next = &y; }
        else { y._M_next = x._M_next; y._M_prev = x._M_prev; y._M_next->_M_prev = y._M_prev->_M_next = &y; x._M_next = x._M_prev = &x; }
    } else if (y._M_next != &y) { x._M_next = y._M_next; x._M_prev = y._M_prev; x._M_next->_M_prev = x._M_prev->_M_next = &x; y._M_next = y._M_prev = &y; }
}
static size_t nextb(size_t n) { static const size_t p[] = {2,5,11,23,47,97,199,409,823,1741,3469,6949,14033,28411,57557,116731,236897,480881,976369,1982627,4026031}; for (size_t q : p) if (q >= n) return q; return n | 1; }
size_t _Prime_rehash_policy::_M_next_bkt(size_t n) const { size_t b = nextb(n); _M_next_resize = b; return b; }
std::pair<bool, size_t> _Prime_rehash_policy::_M_need_rehash(size_t nb, size_t ne, size_t ni) const {
    if (ne + ni > _M_next_resize || nb < 2) {
        size_t want = ne + ni; if (want < 11 && !_M_next_resize) want = 11;
        if (want >= nb) { size_t g = nb * 2; size_t b = nextb(want + 1 > g ? want + 1 : g); _M_next_resize = b; return {true, b}; }
        _M_next_resize = nb; return {false, 0};
    }
    return {false, 0};
}
}
size_t _Hash_bytes(const void* p, size_t n, size_t seed) { const unsigned char* q = (const unsigned char*)p; size_t h = seed ^ 1469598103934665603ull; for (size_t i = 0; i < n; ++i) { h ^= q[i]; h *= 1099511628211ull; } return h; }
size_t _Fnv_hash_bytes(const void* p, size_t n, size_t seed) { return _Hash_bytes(p, n, seed); }
}
template class std::__cxx11::basic_string<char>;
extern "C" { char __libc_single_threaded = 1; }

// Environment model: no OpenCL platform is present (the sandbox has none).
extern "C" int clGetPlatformIDs(unsigned, void*, unsigned* n) { if (n) *n = 0; return -1001; }
extern "C" { div_t div(int a, int b) { div_t r; r.quot = a / b; r.rem = a % b; return r; } ldiv_t ldiv(long a, long b) { ldiv_t r; r.quot = a / b; r.rem = a % b; return r; } }
