// Stand-ins for the parts of libstdc++ that live in its shared library: the
// polymorphic memory resources (forwarding every request to operator new, so
// that memory errors are seen per allocation) and the red-black tree helpers
// behind std::map. Linked into the symbolic and the native builds alike.
#include <memory_resource>
#include <new>
#include <map>
namespace std { namespace pmr {
memory_resource::~memory_resource() = default;
namespace {
struct verif_new_delete final : memory_resource {
    void *do_allocate(size_t n,size_t) override { return ::operator new(n); }
    void do_deallocate(void *p,size_t,size_t) override { ::operator delete(p); }
    bool do_is_equal(const memory_resource &o) const noexcept override { return this==&o; }
};
alignas(verif_new_delete) unsigned char nd_mem[sizeof(verif_new_delete)];
memory_resource *nd() { static bool init=false; if(!init){ new(nd_mem) verif_new_delete; init=true; } return reinterpret_cast<memory_resource*>(nd_mem); }
}
memory_resource *new_delete_resource() noexcept { return nd(); }
memory_resource *get_default_resource() noexcept { return nd(); }

// pools: every block is an allocation of its own, kept on a list so that
// release() and the destructor work
struct __pool_resource::_BigBlock { void *p; };
struct verif_blk { verif_blk *prev,*next; };
__pool_resource::__pool_resource(const pool_options &o,memory_resource *up) : _M_opts(o), _M_unpooled(up), _M_npools(0) {}
__pool_resource::~__pool_resource() {}
unsynchronized_pool_resource::unsynchronized_pool_resource(const pool_options &o,memory_resource *up) : _M_impl(o,up), _M_pools(nullptr) {}
unsynchronized_pool_resource::~unsynchronized_pool_resource() { release(); }
void unsynchronized_pool_resource::release() {
    auto *b=reinterpret_cast<verif_blk*>(_M_pools);
    while(b) { auto *n=b->next; ::operator delete(b); b=n; }
    _M_pools=nullptr;
}
void *unsynchronized_pool_resource::do_allocate(size_t n,size_t) {
    auto *b=static_cast<verif_blk*>(::operator new(n+sizeof(verif_blk)));
    auto *h=reinterpret_cast<verif_blk*>(_M_pools);
    b->prev=nullptr; b->next=h; if(h) h->prev=b;
    _M_pools=reinterpret_cast<__pool_resource::_Pool*>(b);
    return b+1;
}
void unsynchronized_pool_resource::do_deallocate(void *p,size_t,size_t) {
    auto *b=static_cast<verif_blk*>(p)-1;
    if(b->prev) b->prev->next=b->next; else _M_pools=reinterpret_cast<__pool_resource::_Pool*>(b->next);
    if(b->next) b->next->prev=b->prev;
    ::operator delete(b);
}
}
// binary search tree behind std::map/std::set, without rebalancing
typedef _Rb_tree_node_base *NB;
typedef const _Rb_tree_node_base *CNB;
static NB inc(NB x) noexcept {
    if(x->_M_right) { x=x->_M_right; while(x->_M_left) x=x->_M_left; return x; }
    NB y=x->_M_parent; while(x==y->_M_right) { x=y; y=y->_M_parent; }
    if(x->_M_right!=y) x=y;
    return x;
}
static NB dec(NB x) noexcept {
    if(x->_M_color==_S_red && x->_M_parent->_M_parent==x) return x->_M_right;
    if(x->_M_left) { NB y=x->_M_left; while(y->_M_right) y=y->_M_right; return y; }
    NB y=x->_M_parent; while(x==y->_M_left) { x=y; y=y->_M_parent; }
    return y;
}
NB _Rb_tree_increment(NB x) throw() { return inc(x); }
CNB _Rb_tree_increment(CNB x) throw() { return inc(const_cast<NB>(x)); }
NB _Rb_tree_decrement(NB x) throw() { return dec(x); }
CNB _Rb_tree_decrement(CNB x) throw() { return dec(const_cast<NB>(x)); }
void _Rb_tree_insert_and_rebalance(const bool left,NB x,NB p,_Rb_tree_node_base &h) throw() {
    x->_M_parent=p; x->_M_left=x->_M_right=nullptr; x->_M_color=_S_black;
    if(left) { p->_M_left=x; if(p==&h) { h._M_parent=x; h._M_right=x; } else if(p==h._M_left) h._M_left=x; }
    else { p->_M_right=x; if(p==h._M_right) h._M_right=x; }
}
NB _Rb_tree_rebalance_for_erase(NB const z,_Rb_tree_node_base &h) throw() {
    auto repl=[&](NB a,NB b) { if(h._M_parent==a) h._M_parent=b; else if(a->_M_parent->_M_left==a) a->_M_parent->_M_left=b; else a->_M_parent->_M_right=b; if(b) b->_M_parent=a->_M_parent; };
    if(h._M_left==z) h._M_left=inc(z);
    if(h._M_right==z) h._M_right=(h._M_left==&h)?&h:dec(z);
    if(!z->_M_left) repl(z,z->_M_right);
    else if(!z->_M_right) repl(z,z->_M_left);
    else {
        NB y=z->_M_right; while(y->_M_left) y=y->_M_left;
        if(y->_M_parent!=z) { repl(y,y->_M_right); y->_M_right=z->_M_right; y->_M_right->_M_parent=y; }
        repl(z,y); y->_M_left=z->_M_left; y->_M_left->_M_parent=y;
    }
    return z;
}
}
