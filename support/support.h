// Definitions of the functions libstdc++ keeps in its shared library, for the analysis only. They keep
// the documented behaviour (order of nodes, links), not the complexity.
#pragma once
#include <cstddef>
#include <utility>
#define HSMV_DEF(ret, name, params, label) \
    extern "C" ret name params asm(label); \
    extern "C" __attribute__((used)) ret name params
struct hsmv_ln { hsmv_ln* next; hsmv_ln* prev; };
HSMV_DEF(void, hsmv_hook, (hsmv_ln* self, hsmv_ln* pos), "_ZNSt8__detail15_List_node_base7_M_hookEPS0_")
{
    self->next = pos;
    self->prev = pos->prev;
    pos->prev->next = self;
    pos->prev = self;
}
HSMV_DEF(void, hsmv_unhook, (hsmv_ln* self), "_ZNSt8__detail15_List_node_base9_M_unhookEv")
{
    hsmv_ln* n = self->next;
    hsmv_ln* p = self->prev;
    p->next = n;
    n->prev = p;
}
HSMV_DEF(void, hsmv_transfer, (hsmv_ln* self, hsmv_ln* first, hsmv_ln* last), "_ZNSt8__detail15_List_node_base11_M_transferEPS0_S1_")
{
    if (self != last) {
        last->prev->next = self;
        first->prev->next = last;
        self->prev->next = first;
        hsmv_ln* t = self->prev;
        self->prev = last->prev;
        last->prev = first->prev;
        first->prev = t;
    }
}
HSMV_DEF(void, hsmv_reverse, (hsmv_ln* self), "_ZNSt8__detail15_List_node_base10_M_reverseEv")
{
    hsmv_ln* t = self;
    do {
        hsmv_ln* n = t->next;
        t->next = t->prev;
        t->prev = n;
        t = n;
    } while (t != self);
}
HSMV_DEF(void, hsmv_swap, (hsmv_ln& x, hsmv_ln& y), "_ZNSt8__detail15_List_node_base4swapERS0_S1_")
{
    if (x.next != &x) {
        if (y.next != &y) {
            hsmv_ln t = x;
            x = y;
            y = t;
            x.next->prev = x.prev->next = &x;
            y.next->prev = y.prev->next = &y;
        } else {
            y = x;
            y.next->prev = y.prev->next = &y;
            x.next = x.prev = &x;
        }
    } else if (y.next != &y) {
        x = y;
        x.next->prev = x.prev->next = &x;
        y.next = y.prev = &y;
    }
}
// ordered trees, not balanced. The header is the parent of the root and has the colour red
struct hsmv_rb { int color; hsmv_rb* parent; hsmv_rb* left; hsmv_rb* right; };
static inline hsmv_rb* hsmv_next(hsmv_rb* x)
{
    if (x->right) {
        x = x->right;
        while (x->left) x = x->left;
        return x;
    }
    hsmv_rb* y = x->parent;
    while (x == y->right) {
        x = y;
        y = y->parent;
    }
    return x->right != y ? y : x;
}
static inline hsmv_rb* hsmv_prev(hsmv_rb* x)
{
    if (x->color == 0 && x->parent->parent == x) return x->right;
    if (x->left) {
        x = x->left;
        while (x->right) x = x->right;
        return x;
    }
    hsmv_rb* y = x->parent;
    while (x == y->left) {
        x = y;
        y = y->parent;
    }
    return y;
}
HSMV_DEF(hsmv_rb*, hsmv_rbinc, (hsmv_rb* x), "_ZSt18_Rb_tree_incrementPSt18_Rb_tree_node_base") { return hsmv_next(x); }
HSMV_DEF(hsmv_rb*, hsmv_rbincc, (hsmv_rb* x), "_ZSt18_Rb_tree_incrementPKSt18_Rb_tree_node_base") { return hsmv_next(x); }
HSMV_DEF(hsmv_rb*, hsmv_rbdec, (hsmv_rb* x), "_ZSt18_Rb_tree_decrementPSt18_Rb_tree_node_base") { return hsmv_prev(x); }
HSMV_DEF(hsmv_rb*, hsmv_rbdecc, (hsmv_rb* x), "_ZSt18_Rb_tree_decrementPKSt18_Rb_tree_node_base") { return hsmv_prev(x); }
HSMV_DEF(void, hsmv_rbins, (bool left, hsmv_rb* x, hsmv_rb* p, hsmv_rb& h), "_ZSt29_Rb_tree_insert_and_rebalancebPSt18_Rb_tree_node_baseS0_RS_")
{
    x->parent = p;
    x->left = nullptr;
    x->right = nullptr;
    x->color = 1;
    if (left) {
        p->left = x;
        if (p == &h) {
            h.parent = x;
            h.right = x;
        } else if (p == h.left) {
            h.left = x;
        }
    } else {
        p->right = x;
        if (p == h.right) h.right = x;
    }
}
HSMV_DEF(hsmv_rb*, hsmv_rbdel, (hsmv_rb* z, hsmv_rb& h), "_ZSt28_Rb_tree_rebalance_for_erasePSt18_Rb_tree_node_baseRS_")
{
    auto replace = [&](hsmv_rb* o, hsmv_rb* n) {
        if (h.parent == o) h.parent = n;
        else if (o->parent->left == o) o->parent->left = n;
        else o->parent->right = n;
        if (n) n->parent = o->parent;
    };
    if (z->left && z->right) {
        hsmv_rb* y = z->right;
        while (y->left) y = y->left;
        if (y->parent != z) {
            replace(y, y->right);
            y->right = z->right;
            y->right->parent = y;
        }
        replace(z, y);
        y->left = z->left;
        y->left->parent = y;
    } else {
        replace(z, z->left ? z->left : z->right);
    }
    if (h.parent) {
        hsmv_rb* l = h.parent;
        while (l->left) l = l->left;
        h.left = l;
        hsmv_rb* r = h.parent;
        while (r->right) r = r->right;
        h.right = r;
    } else {
        h.left = h.right = &h;
    }
    return z;
}
// hash tables: enough buckets for everything
struct hsmv_hp { float load; std::size_t next; };
HSMV_DEF(std::size_t, hsmv_bkt, (const hsmv_hp* self, std::size_t n), "_ZNKSt8__detail20_Prime_rehash_policy11_M_next_bktEm")
{
    const_cast<hsmv_hp*>(self)->next = 1u << 30;
    return n < 13 ? 13 : n;
}
struct hsmv_br { bool first; std::size_t second; };
HSMV_DEF(hsmv_br, hsmv_rehash, (const hsmv_hp*, std::size_t bkt, std::size_t, std::size_t), "_ZNKSt8__detail20_Prime_rehash_policy14_M_need_rehashEmmm")
{
    return bkt < 13 ? hsmv_br { true, 13 } : hsmv_br { false, 0 };
}
HSMV_DEF(std::size_t, hsmv_hash, (const void*, std::size_t n, std::size_t), "_ZSt11_Hash_bytesPKvmm") { return n; }
