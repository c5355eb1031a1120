// Stand-ins for the out-of-line pieces of libstdc++ and libc that inline code
// calls. Engine module only.
#include <cstddef>
#include <cstdint>
#include <list>
#include <map>
#include <string>
#include <unordered_map>

template class std::basic_string<char>;

extern "C"
{
int memcmp(const void* a, const void* b, size_t n)
{
	auto* x = (const unsigned char*)a;
	auto* y = (const unsigned char*)b;
	for(size_t i = 0; i < n; i++)
		if(x[i] != y[i]) return x[i] < y[i] ? -1 : 1;
	return 0;
}
int bcmp(const void* a, const void* b, size_t n) { return memcmp(a, b, n); }
size_t strlen(const char* s)
{
	size_t n = 0;
	while(s[n]) n++;
	return n;
}
int strcmp(const char* a, const char* b)
{
	while(*a && *a == *b) a++, b++;
	return (unsigned char)*a - (unsigned char)*b;
}
void* memchr(const void* p, int c, size_t n)
{
	auto* x = (const unsigned char*)p;
	for(size_t i = 0; i < n; i++)
		if(x[i] == (unsigned char)c) return (void*)(x + i);
	return nullptr;
}
void* __dso_handle;
int __cxa_guard_acquire(int64_t* g) { return *(char*)g == 0; }
void __cxa_guard_release(int64_t* g) { *(char*)g = 1; }
void __cxa_guard_abort(int64_t*) {}
}

namespace std
{
// --- red-black tree, as an ordinary textbook implementation
_Rb_tree_node_base* _Rb_tree_increment(_Rb_tree_node_base* x) noexcept
{
	if(x->_M_right)
	{
		x = x->_M_right;
		while(x->_M_left) x = x->_M_left;
		return x;
	}
	_Rb_tree_node_base* y = x->_M_parent;
	while(x == y->_M_right) x = y, y = y->_M_parent;
	return x->_M_right != y ? y : x;
}
const _Rb_tree_node_base* _Rb_tree_increment(const _Rb_tree_node_base* x) noexcept
{
	return _Rb_tree_increment(const_cast<_Rb_tree_node_base*>(x));
}
_Rb_tree_node_base* _Rb_tree_decrement(_Rb_tree_node_base* x) noexcept
{
	if(x->_M_color == _S_red && x->_M_parent->_M_parent == x) return x->_M_right;
	if(x->_M_left)
	{
		x = x->_M_left;
		while(x->_M_right) x = x->_M_right;
		return x;
	}
	_Rb_tree_node_base* y = x->_M_parent;
	while(x == y->_M_left) x = y, y = y->_M_parent;
	return y;
}
const _Rb_tree_node_base* _Rb_tree_decrement(const _Rb_tree_node_base* x) noexcept
{
	return _Rb_tree_decrement(const_cast<_Rb_tree_node_base*>(x));
}
// Unbalanced insertion keeps every ordering invariant; the root is kept red
// vs. header semantics by colouring nodes black (header stays red).
void _Rb_tree_insert_and_rebalance(const bool left, _Rb_tree_node_base* x,
                                   _Rb_tree_node_base* p,
                                   _Rb_tree_node_base& h) noexcept
{
	x->_M_parent = p;
	x->_M_left = x->_M_right = nullptr;
	x->_M_color = _S_black;
	if(left)
	{
		p->_M_left = x;
		if(p == &h)
		{
			h._M_parent = x;
			h._M_right = x;
		}
		else if(p == h._M_left)
			h._M_left = x;
	}
	else
	{
		p->_M_right = x;
		if(p == h._M_right) h._M_right = x;
	}
}
_Rb_tree_node_base* _Rb_tree_rebalance_for_erase(_Rb_tree_node_base* const z,
                                                 _Rb_tree_node_base& h) noexcept
{
	auto replace = [&](_Rb_tree_node_base* u, _Rb_tree_node_base* v)
	{
		if(h._M_parent == u) h._M_parent = v;
		else if(u->_M_parent->_M_left == u) u->_M_parent->_M_left = v;
		else u->_M_parent->_M_right = v;
		if(v) v->_M_parent = u->_M_parent;
	};
	if(!z->_M_left) replace(z, z->_M_right);
	else if(!z->_M_right) replace(z, z->_M_left);
	else
	{
		_Rb_tree_node_base* y = z->_M_right;
		while(y->_M_left) y = y->_M_left;
		if(y->_M_parent != z)
		{
			replace(y, y->_M_right);
			y->_M_right = z->_M_right;
			y->_M_right->_M_parent = y;
		}
		replace(z, y);
		y->_M_left = z->_M_left;
		y->_M_left->_M_parent = y;
	}
	if(!h._M_parent)
	{
		h._M_left = h._M_right = &h;
		return z;
	}
	_Rb_tree_node_base* l = h._M_parent;
	while(l->_M_left) l = l->_M_left;
	h._M_left = l;
	_Rb_tree_node_base* r = h._M_parent;
	while(r->_M_right) r = r->_M_right;
	h._M_right = r;
	return z;
}

namespace __detail
{
void _List_node_base::_M_hook(_List_node_base* const p) noexcept
{
	_M_next = p;
	_M_prev = p->_M_prev;
	p->_M_prev->_M_next = this;
	p->_M_prev = this;
}
void _List_node_base::_M_unhook() noexcept
{
	_List_node_base* n = _M_next;
	_List_node_base* p = _M_prev;
	p->_M_next = n;
	n->_M_prev = p;
}
void _List_node_base::_M_transfer(_List_node_base* const first,
                                  _List_node_base* const last) noexcept
{
	if(this == last) return;
	last->_M_prev->_M_next = this;
	first->_M_prev->_M_next = last;
	_M_prev->_M_next = first;
	_List_node_base* tmp = _M_prev;
	_M_prev = last->_M_prev;
	last->_M_prev = first->_M_prev;
	first->_M_prev = tmp;
}
void _List_node_base::swap(_List_node_base& x, _List_node_base& y) noexcept
{
	if(x._M_next != &x)
	{
		if(y._M_next != &y)
		{
			auto* n = x._M_next; x._M_next = y._M_next; y._M_next = n;
			auto* p = x._M_prev; x._M_prev = y._M_prev; y._M_prev = p;
			x._M_next->_M_prev = x._M_prev->_M_next = &x;
			y._M_next->_M_prev = y._M_prev->_M_next = &y;
		}
		else
		{
			y._M_next = x._M_next;
			y._M_prev = x._M_prev;
			y._M_next->_M_prev = y._M_prev->_M_next = &y;
			x._M_next = x._M_prev = &x;
		}
	}
	else if(y._M_next != &y)
	{
		x._M_next = y._M_next;
		x._M_prev = y._M_prev;
		x._M_next->_M_prev = x._M_prev->_M_next = &x;
		y._M_next = y._M_prev = &y;
	}
}
void _List_node_base::_M_reverse() noexcept
{
	_List_node_base* t = this;
	do
	{
		auto* n = t->_M_next;
		t->_M_next = t->_M_prev;
		t->_M_prev = n;
		t = t->_M_prev;
	} while(t != this);
}
// Hash tables grow like the real ones, as the order of iteration depends on it.
size_t _Prime_rehash_policy::_M_next_bkt(size_t n) const
{
	static const uint16_t primes[] = {
		2, 3, 5, 7, 11, 13, 17, 19, 23, 29, 31, 37, 41, 43, 47, 53, 59, 61, 67, 71, 73, 79, 83, 89, 97, 103, 109, 113, 127, 137,
		139, 149, 157, 167, 179, 193, 199, 211, 227, 241, 257, 277, 293, 313, 337, 359, 383, 409, 439, 467, 503, 541, 577, 619,
		661, 709, 761, 823, 887, 953, 1031, 1109, 1193, 1289, 1381, 1493, 1613, 1741, 1879, 2029, 2179, 2357, 2549, 2753, 2971};
	if(n == 0) return 1; // For the empty table.
	for(size_t p : primes)
		if(p >= n)
		{
			_M_next_resize = p;
			return p;
		}
	__builtin_trap();
}
pair<bool, size_t> _Prime_rehash_policy::_M_need_rehash(size_t bkt, size_t elt,
                                                        size_t ins) const
{
	// The maximum load factor is 1.
	if(elt + ins <= _M_next_resize) return {false, 0};
	size_t min = elt + ins;
	if(!_M_next_resize && min < 11) min = 11;
	if(min >= bkt) return {true, _M_next_bkt(min + 1 > 2 * bkt ? min + 1 : 2 * bkt)};
	_M_next_resize = bkt;
	return {false, 0};
}
} // namespace __detail
size_t _Hash_bytes(const void* ptr, size_t len, size_t seed)
{
	const size_t mul = (0xc6a4a793UL << 32U) + 0x5bd1e995UL;
	auto mix = [](size_t v) { return v ^ (v >> 47U); };
	auto load = [](const unsigned char* p, size_t n)
	{
		size_t r = 0;
		while(n) r = (r << 8U) + p[--n];
		return r;
	};
	auto const* p = static_cast<const unsigned char*>(ptr);
	size_t hash = seed ^ (len * mul);
	for(; len >= 8; p += 8, len -= 8)
		hash = (hash ^ (mix(load(p, 8) * mul) * mul)) * mul;
	if(len) hash = (hash ^ load(p, len)) * mul;
	return mix(mix(hash) * mul);
}
} // namespace std
