// Runtime linked into the encoding: file registry behind the stream shim, and
// source versions of the few libstdc++ functions that live in the shared library.
#include "vfstreams.hpp"
#include <bits/stl_tree.h>
#include <list>
#include <stdexcept>
#include <unordered_map>
#include <vector>
template class std::basic_string<char>;
using vfshim::File;
static File* g_files;
namespace vfshim {
size_t no_write_from = (size_t)-1, no_read_from = (size_t)-1;
File* find(const std::string& name, bool create)
{
    for (File* f = g_files; f; f = f->next) if (f->name == name) return f;
    if (!create || name.find('/') != std::string::npos) return nullptr; // there are no directories
    File* f = new File;
    f->name = name; f->next = g_files; g_files = f;
    return f;
}
void put(File* f, size_t pos, const char* p, size_t n)
{
    if (pos + n > f->cap) {
        size_t nc = f->cap ? f->cap : 8192;
        while (nc < pos + n) nc *= 2;
        char* d = new char[nc];
        if (f->size) memcpy(d, f->data, f->size);
        f->data = d; f->cap = nc; // the old block is left in place: vf_file_data pointers stay valid
    }
    if (pos > f->size) memset(f->data + f->size, 0, pos - f->size);
    if (n) memcpy(f->data + pos, p, n);
    if (pos + n > f->size) f->size = pos + n;
}
}
extern "C" void vf_put_file(const char* name, const void* p, size_t n)
{
    File* f = vfshim::find(name, true);
    f->size = 0;
    vfshim::put(f, 0, (const char*)p, n);
}
extern "C" void vf_faults(size_t w, size_t r) { vfshim::no_write_from = w; vfshim::no_read_from = r; }
extern "C" size_t vf_file_size(const char* name) { File* f = vfshim::find(name, false); return f ? f->size : 0; }
extern "C" const unsigned char* vf_file_data(const char* name) { File* f = vfshim::find(name, false); return f ? (const unsigned char*)f->data : nullptr; }

namespace std {
// hashtable growth policy: plain table of primes (observable only through iteration order)
static const size_t vf_primes[] = { 2, 5, 11, 23, 47, 97, 199, 409, 823, 1741, 3739, 7517, 15173, 30727, 62233, 126271, 256279, 520241, 1056323 };
size_t __detail::_Prime_rehash_policy::_M_next_bkt(size_t n) const
{
    for (size_t p : vf_primes) if (p >= n) { _M_next_resize = (size_t)(p * _M_max_load_factor); return p; }
    __builtin_trap();
}
pair<bool, size_t> __detail::_Prime_rehash_policy::_M_need_rehash(size_t bkt, size_t elt, size_t ins) const
{
    if (elt + ins > _M_next_resize) {
        size_t want = elt + ins;
        if (!_M_next_resize && want < 11) want = 11;
        if (want >= bkt) { size_t g = bkt * 2; return { true, _M_next_bkt((want + 1) > g ? want + 1 : g) }; }
        _M_next_resize = bkt;
    }
    return { false, 0 };
}
// red-black tree with real (non-)balancing left out: an ordered binary tree with
// the same in-order sequence, which is all std::map/std::set expose
_Rb_tree_node_base* _Rb_tree_increment(_Rb_tree_node_base* x) throw()
{
    if (x->_M_right) { x = x->_M_right; while (x->_M_left) x = x->_M_left; return x; }
    _Rb_tree_node_base* y = x->_M_parent;
    while (x == y->_M_right) { x = y; y = y->_M_parent; }
    if (x->_M_right != y) x = y;
    return x;
}
const _Rb_tree_node_base* _Rb_tree_increment(const _Rb_tree_node_base* x) throw() { return _Rb_tree_increment(const_cast<_Rb_tree_node_base*>(x)); }
_Rb_tree_node_base* _Rb_tree_decrement(_Rb_tree_node_base* x) throw()
{
    if (x->_M_color == _S_red && x->_M_parent && x->_M_parent->_M_parent == x) return x->_M_right;
    if (x->_M_left) { _Rb_tree_node_base* y = x->_M_left; while (y->_M_right) y = y->_M_right; return y; }
    _Rb_tree_node_base* y = x->_M_parent;
    while (x == y->_M_left) { x = y; y = y->_M_parent; }
    return y;
}
const _Rb_tree_node_base* _Rb_tree_decrement(const _Rb_tree_node_base* x) throw() { return _Rb_tree_decrement(const_cast<_Rb_tree_node_base*>(x)); }
void _Rb_tree_insert_and_rebalance(const bool left, _Rb_tree_node_base* x, _Rb_tree_node_base* p, _Rb_tree_node_base& h) throw()
{
    x->_M_parent = p; x->_M_left = nullptr; x->_M_right = nullptr;
    x->_M_color = _S_black; // only the header is red: _Rb_tree_decrement tells it apart by that
    if (left) {
        p->_M_left = x;
        if (p == &h) { h._M_parent = x; h._M_right = x; }
        else if (p == h._M_left) h._M_left = x;
    } else {
        p->_M_right = x;
        if (p == h._M_right) h._M_right = x;
    }
}
_Rb_tree_node_base* _Rb_tree_rebalance_for_erase(_Rb_tree_node_base* const z, _Rb_tree_node_base& h) throw()
{
    _Rb_tree_node_base* r;
    auto link = [&](_Rb_tree_node_base* o, _Rb_tree_node_base* n) {
        if (h._M_parent == o) h._M_parent = n;
        else if (o->_M_parent->_M_left == o) o->_M_parent->_M_left = n;
        else o->_M_parent->_M_right = n;
        if (n) n->_M_parent = o->_M_parent;
    };
    if (!z->_M_left) link(z, r = z->_M_right);
    else if (!z->_M_right) link(z, r = z->_M_left);
    else {
        _Rb_tree_node_base* y = z->_M_right;
        while (y->_M_left) y = y->_M_left;
        if (y->_M_parent != z) { link(y, y->_M_right); y->_M_right = z->_M_right; y->_M_right->_M_parent = y; }
        link(z, y);
        y->_M_left = z->_M_left; y->_M_left->_M_parent = y;
    }
    if (h._M_parent) {
        _Rb_tree_node_base* m = h._M_parent; while (m->_M_left) m = m->_M_left; h._M_left = m;
        m = h._M_parent; while (m->_M_right) m = m->_M_right; h._M_right = m;
    } else { h._M_left = &h; h._M_right = &h; }
    return z;
}
namespace __detail {
void _List_node_base::_M_hook(_List_node_base* const p) noexcept { _M_next = p; _M_prev = p->_M_prev; p->_M_prev->_M_next = this; p->_M_prev = this; }
void _List_node_base::_M_transfer(_List_node_base* const f, _List_node_base* const l) noexcept
{
    if (this == l) return;
    l->_M_prev->_M_next = this; f->_M_prev->_M_next = l; _M_prev->_M_next = f;
    _List_node_base* const t = _M_prev; _M_prev = l->_M_prev; l->_M_prev = f->_M_prev; f->_M_prev = t;
}
void _List_node_base::swap(_List_node_base& x, _List_node_base& y) noexcept
{
    auto fix = [](_List_node_base& a, _List_node_base& old) { if (a._M_next == &old) a._M_next = a._M_prev = &a; else a._M_next->_M_prev = a._M_prev->_M_next = &a; };
    _List_node_base t = x; x._M_next = y._M_next; x._M_prev = y._M_prev; y._M_next = t._M_next; y._M_prev = t._M_prev;
    fix(x, y); fix(y, x);
}
void _List_node_base::_M_reverse() noexcept
{
    _List_node_base* t = this;
    do { _List_node_base* n = t->_M_next; t->_M_next = t->_M_prev; t->_M_prev = n; t = n; } while (t != this);
}
void _List_node_base::_M_unhook() noexcept { _M_prev->_M_next = _M_next; _M_next->_M_prev = _M_prev; }
}
}
