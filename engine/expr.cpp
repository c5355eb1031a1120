#include "expr.h"

#include <algorithm>

namespace ex
{
std::deque<Expr> pool;
std::vector<SymInfo> symtab;
E T, F, UNINIT;

static std::unordered_multimap<u64, E> table;

static u64 mix(u64 h, u64 v)
{
	h ^= v + 0x9e3779b97f4a7c15ull + (h << 6) + (h >> 2);
	return h * 0xff51afd7ed558ccdull;
}

static E mk(Kind k, unsigned w, E a, E b, E cc, uint32_t aux, u64 val,
            const APInt* wide = nullptr)
{
	u64 h = mix(k, w);
	h = mix(h, (u64)a);
	h = mix(h, (u64)b);
	h = mix(h, (u64)cc);
	h = mix(h, aux);
	h = mix(h, val);
	if(wide)
		for(unsigned i = 0; i < wide->getNumWords(); i++)
			h = mix(h, wide->getRawData()[i]);
	auto r = table.equal_range(h);
	for(auto it = r.first; it != r.second; ++it)
	{
		E e = it->second;
		if(e->k == k && e->w == w && e->a == a && e->b == b && e->c == cc &&
		   e->aux == aux && e->val == val &&
		   (!wide == !e->wide) && (!wide || *wide == *e->wide))
			return e;
	}
	pool.push_back(Expr{});
	Expr& n = pool.back();
	n.k = k;
	n.w = w;
	n.id = pool.size();
	n.aux = aux;
	n.val = val;
	n.a = a;
	n.b = b;
	n.c = cc;
	n.wide = wide ? new APInt(*wide) : nullptr;
	n.syms = nullptr;
	n.zbv = n.zbool = nullptr;
	table.emplace(h, &n);
	return &n;
}

void init()
{
	F = c(1, 0);
	T = c(1, 1);
	UNINIT = mk(K_Uninit, 8, nullptr, nullptr, nullptr, 0, 0);
}

E c(unsigned w, u64 v)
{
	if(w > 64) return cw(APInt(w, v));
	return mk(K_Const, w, nullptr, nullptr, nullptr, 0, v & maskw(w));
}

E cw(const APInt& v)
{
	if(v.getBitWidth() <= 64) return c(v.getBitWidth(), v.getZExtValue());
	return mk(K_Const, v.getBitWidth(), nullptr, nullptr, nullptr, 0, 0, &v);
}

APInt cval(E e)
{
	if(e->w > 64) return *e->wide;
	return APInt(e->w, e->val);
}

E sym(const std::string& name, unsigned w, bool input)
{
	assert(w <= 64);
	E e = mk(K_Sym, w, nullptr, nullptr, nullptr, symtab.size(), 0);
	symtab.push_back({name, w, input, e});
	return e;
}

static bool is0(E e)
{
	return e->isC() && (e->w <= 64 ? e->val == 0 : e->wide->isZero());
}
static bool isAll1(E e)
{
	return e->isC() &&
	       (e->w <= 64 ? e->val == maskw(e->w) : e->wide->isAllOnes());
}
static E zero(unsigned w) { return c(w, 0); }
static E ones(unsigned w) { return cw(APInt::getAllOnes(w)); }

static APInt foldW(Kind k, const APInt& x, const APInt& y)
{
	unsigned w = x.getBitWidth();
	switch(k)
	{
	case K_Add: return x + y;
	case K_Sub: return x - y;
	case K_Mul: return x * y;
	case K_UDiv: return y.isZero() ? APInt::getAllOnes(w) : x.udiv(y);
	case K_SDiv:
		return y.isZero() ? (x.isNegative() ? APInt(w, 1) : APInt::getAllOnes(w))
		                  : x.sdiv(y);
	case K_URem: return y.isZero() ? x : x.urem(y);
	case K_SRem: return y.isZero() ? x : x.srem(y);
	case K_And: return x & y;
	case K_Or: return x | y;
	case K_Xor: return x ^ y;
	case K_Shl: return y.uge(w) ? APInt(w, 0) : x.shl(y);
	case K_LShr: return y.uge(w) ? APInt(w, 0) : x.lshr(y);
	case K_AShr: return y.uge(w) ? x.ashr(w - 1) : x.ashr(y);
	case K_Eq: return APInt(1, x == y);
	case K_Ult: return APInt(1, x.ult(y));
	case K_Ule: return APInt(1, x.ule(y));
	case K_Slt: return APInt(1, x.slt(y));
	case K_Sle: return APInt(1, x.sle(y));
	default: abort();
	}
}

static u64 fold64(Kind k, u64 x, u64 y, unsigned w)
{
	u64 m = maskw(w);
	switch(k)
	{
	case K_Add: return (x + y) & m;
	case K_Sub: return (x - y) & m;
	case K_Mul: return (x * y) & m;
	case K_UDiv: return y == 0 ? m : x / y;
	case K_SDiv:
		if(y == 0) return sx(x, w) < 0 ? 1 : m;
		if(sx(y, w) == -1) return (0 - x) & m;
		return (u64)(sx(x, w) / sx(y, w)) & m;
	case K_URem: return y == 0 ? x : x % y;
	case K_SRem:
		if(y == 0) return x;
		if(sx(y, w) == -1) return 0;
		return (u64)(sx(x, w) % sx(y, w)) & m;
	case K_And: return x & y;
	case K_Or: return x | y;
	case K_Xor: return x ^ y;
	case K_Shl: return y >= w ? 0 : (x << y) & m;
	case K_LShr: return y >= w ? 0 : x >> y;
	case K_AShr: return (u64)(sx(x, w) >> (y >= w ? w - 1 : y)) & m;
	case K_Eq: return x == y;
	case K_Ult: return x < y;
	case K_Ule: return x <= y;
	case K_Slt: return sx(x, w) < sx(y, w);
	case K_Sle: return sx(x, w) <= sx(y, w);
	default: abort();
	}
}

static bool isCmp(Kind k) { return k >= K_Eq && k <= K_Sle; }

static E fold(Kind k, E a, E b)
{
	unsigned rw = isCmp(k) ? 1 : a->w;
	if(a->w <= 64) return c(rw, fold64(k, a->val, b->val, a->w));
	return cw(foldW(k, *a->wide, *b->wide));
}

static E raw(Kind k, E a, E b)
{
	return mk(k, isCmp(k) ? 1 : a->w, a, b, nullptr, 0, 0);
}

static E bin(Kind k, E a, E b); // dispatch with simplification

// op(ite(c,k1,k2), const) -> ite(c, fold, fold)
static bool constIte(E e)
{
	return e->k == K_Ite && e->b->isC() && e->c->isC();
}

static E pushIte(Kind k, E a, E b)
{
	if(constIte(a) && b->isC())
		return ite(a->a, fold(k, a->b, b), fold(k, a->c, b));
	if(constIte(b) && a->isC())
		return ite(b->a, fold(k, a, b->b), fold(k, a, b->c));
	return nullptr;
}

E add(E a, E b)
{
	if(a->isC() && b->isC()) return fold(K_Add, a, b);
	if(a->isC()) std::swap(a, b);
	if(is0(b)) return a;
	if(a->w == 1) return xor_(a, b);
	if(a->k == K_Add && a->b->isC())
	{
		if(b->isC()) return add(a->a, add(a->b, b));
		return add(add(a->a, b), a->b);
	}
	if(b->k == K_Add && b->b->isC()) return add(add(a, b->a), b->b);
	if(E r = pushIte(K_Add, a, b)) return r;
	if(!b->isC() && a->id > b->id) std::swap(a, b);
	return raw(K_Add, a, b);
}

E sub(E a, E b)
{
	if(a->isC() && b->isC()) return fold(K_Sub, a, b);
	if(a == b) return zero(a->w);
	if(b->isC()) return add(a, fold(K_Sub, zero(a->w), b));
	if(a->w == 1) return xor_(a, b);
	// (x + c) - x, (x + c1) - (x + c2), (x+c1) - y
	{
		E ab = a, bb = b, ac = nullptr, bc = nullptr;
		if(a->k == K_Add && a->b->isC()) ab = a->a, ac = a->b;
		if(b->k == K_Add && b->b->isC()) bb = b->a, bc = b->b;
		if(ac || bc)
		{
			E cc = zero(a->w);
			if(ac) cc = add(cc, ac);
			if(bc) cc = sub(cc, bc);
			return add(sub(ab, bb), cc);
		}
		if(ab->k == K_Add && ab->a == bb) return ab->b;
		if(ab->k == K_Add && ab->b == bb) return ab->a;
	}
	if(E r = pushIte(K_Sub, a, b)) return r;
	return raw(K_Sub, a, b);
}

E mul(E a, E b)
{
	if(a->isC() && b->isC()) return fold(K_Mul, a, b);
	if(a->isC()) std::swap(a, b);
	if(b->isC())
	{
		if(is0(b)) return b;
		APInt v = cval(b);
		if(v == 1) return a;
		if(v.isPowerOf2()) return shl(a, c(a->w, v.logBase2()));
		// (x + c) * k = x*k + c*k
		if(a->k == K_Add && a->b->isC())
			return add(mul(a->a, b), fold(K_Mul, a->b, b));
	}
	if(E r = pushIte(K_Mul, a, b)) return r;
	if(!b->isC() && a->id > b->id) std::swap(a, b);
	return raw(K_Mul, a, b);
}

E udiv(E a, E b)
{
	if(a->isC() && b->isC()) return fold(K_UDiv, a, b);
	if(b->isC())
	{
		APInt v = cval(b);
		if(v == 1) return a;
		if(v.isPowerOf2()) return lshr(a, c(a->w, v.logBase2()));
	}
	if(E r = pushIte(K_UDiv, a, b)) return r;
	return raw(K_UDiv, a, b);
}
E sdiv(E a, E b)
{
	if(a->isC() && b->isC()) return fold(K_SDiv, a, b);
	return raw(K_SDiv, a, b);
}
E urem(E a, E b)
{
	if(a->isC() && b->isC()) return fold(K_URem, a, b);
	if(b->isC())
	{
		APInt v = cval(b);
		if(v == 1) return zero(a->w);
		if(v.isPowerOf2()) return and_(a, cw(v - 1));
	}
	if(E r = pushIte(K_URem, a, b)) return r;
	return raw(K_URem, a, b);
}
E srem(E a, E b)
{
	if(a->isC() && b->isC()) return fold(K_SRem, a, b);
	return raw(K_SRem, a, b);
}

// split point usable to push a bitwise op through concat/zext
static int splitPoint(E e)
{
	if(e->k == K_Concat) return e->b->w;
	if(e->k == K_ZExt) return e->a->w;
	return -1;
}

static E pushSplit(Kind k, E a, E b)
{
	int p = -1;
	auto cand = [&](E x, E y)
	{
		if(p >= 0) return;
		int s = splitPoint(x);
		if(s < 0) return;
		bool z = x->k == K_ZExt || x->a->isC() || x->b->isC();
		bool y2 = y->isC() || splitPoint(y) == s;
		if(z || y2) p = s;
	};
	cand(a, b);
	cand(b, a);
	if(p < 0) return nullptr;
	E ah = extract(a, p, a->w - p), al = extract(a, 0, p);
	E bh = extract(b, p, b->w - p), bl = extract(b, 0, p);
	return concat(bin(k, ah, bh), bin(k, al, bl));
}

E and_(E a, E b)
{
	if(a->isC() && b->isC()) return fold(K_And, a, b);
	if(a->isC()) std::swap(a, b);
	if(a == b) return a;
	if(b->isC())
	{
		if(is0(b)) return b;
		if(isAll1(b)) return a;
		if(a->k == K_And && a->b->isC()) return and_(a->a, fold(K_And, a->b, b));
		APInt v = cval(b);
		unsigned tz = v.countr_zero();
		unsigned lz = v.countl_zero();
		if(v.isShiftedMask())
		{
			unsigned n = a->w - tz - lz;
			E m = extract(a, tz, n);
			if(tz) m = concat(m, zero(tz));
			return zext(m, a->w);
		}
	}
	if(a->w == 1)
	{
		if(a == not_(b)) return F;
		if(a->k == K_And && (a->a == b || a->b == b)) return a;
		if(b->k == K_And && (b->a == a || b->b == a)) return b;
	}
	if(E r = pushIte(K_And, a, b)) return r;
	if(E r = pushSplit(K_And, a, b)) return r;
	if(!b->isC() && a->id > b->id) std::swap(a, b);
	return raw(K_And, a, b);
}

E or_(E a, E b)
{
	if(a->isC() && b->isC()) return fold(K_Or, a, b);
	if(a->isC()) std::swap(a, b);
	if(a == b) return a;
	if(b->isC())
	{
		if(is0(b)) return a;
		if(isAll1(b)) return b;
		if(a->k == K_Or && a->b->isC()) return or_(a->a, fold(K_Or, a->b, b));
	}
	if(a->w == 1)
	{
		if(a == not_(b)) return T;
		if(a->k == K_Or && (a->a == b || a->b == b)) return a;
		if(b->k == K_Or && (b->a == a || b->b == a)) return b;
	}
	if(E r = pushIte(K_Or, a, b)) return r;
	if(E r = pushSplit(K_Or, a, b)) return r;
	if(!b->isC() && a->id > b->id) std::swap(a, b);
	return raw(K_Or, a, b);
}

E xor_(E a, E b)
{
	if(a->isC() && b->isC()) return fold(K_Xor, a, b);
	if(a->isC()) std::swap(a, b);
	if(a == b) return zero(a->w);
	if(b->isC())
	{
		if(is0(b)) return a;
		if(a->k == K_Xor && a->b->isC()) return xor_(a->a, fold(K_Xor, a->b, b));
		if(a->w == 1) // b == 1: negation
		{
			if(a->k == K_Ult) return ule(a->b, a->a);
			if(a->k == K_Ule) return ult(a->b, a->a);
			if(a->k == K_Slt) return sle(a->b, a->a);
			if(a->k == K_Sle) return slt(a->b, a->a);
		}
	}
	if(E r = pushIte(K_Xor, a, b)) return r;
	if(E r = pushSplit(K_Xor, a, b)) return r;
	if(!b->isC() && a->id > b->id) std::swap(a, b);
	return raw(K_Xor, a, b);
}

E not_(E a) { return xor_(a, ones(a->w)); }

E shl(E a, E b)
{
	if(a->isC() && b->isC()) return fold(K_Shl, a, b);
	if(is0(a)) return a;
	if(b->isC())
	{
		APInt v = cval(b);
		if(v.isZero()) return a;
		if(v.uge(a->w)) return zero(a->w);
		unsigned s = v.getZExtValue();
		return concat(extract(a, 0, a->w - s), zero(s));
	}
	if(E r = pushIte(K_Shl, a, b)) return r;
	return raw(K_Shl, a, b);
}
E lshr(E a, E b)
{
	if(a->isC() && b->isC()) return fold(K_LShr, a, b);
	if(is0(a)) return a;
	if(b->isC())
	{
		APInt v = cval(b);
		if(v.isZero()) return a;
		if(v.uge(a->w)) return zero(a->w);
		unsigned s = v.getZExtValue();
		return zext(extract(a, s, a->w - s), a->w);
	}
	if(E r = pushIte(K_LShr, a, b)) return r;
	return raw(K_LShr, a, b);
}
E ashr(E a, E b)
{
	if(a->isC() && b->isC()) return fold(K_AShr, a, b);
	if(is0(a)) return a;
	if(b->isC())
	{
		APInt v = cval(b);
		if(v.isZero()) return a;
		unsigned s = v.uge(a->w) ? a->w - 1 : v.getZExtValue();
		return sext(extract(a, s, a->w - s), a->w);
	}
	if(E r = pushIte(K_AShr, a, b)) return r;
	return raw(K_AShr, a, b);
}

E eq(E a, E b)
{
	if(a == b) return T;
	if(a->isC() && b->isC()) return fold(K_Eq, a, b);
	if(a->isC()) std::swap(a, b);
	if(a->w == 1 && b->isC()) return b->val ? a : not_(a);
	if(b->isC())
	{
		switch(a->k)
		{
		case K_Concat:
			return and_(eq(a->a, extract(b, a->b->w, a->a->w)),
			            eq(a->b, extract(b, 0, a->b->w)));
		case K_ZExt:
			if(!is0(extract(b, a->a->w, a->w - a->a->w))) return F;
			return eq(a->a, extract(b, 0, a->a->w));
		case K_SExt:
		{
			E lo = extract(b, 0, a->a->w);
			if(sext(lo, a->w) != b) return F;
			return eq(a->a, lo);
		}
		case K_Ite:
		{
			if(a->b->isC() && a->c->isC())
				return ite(a->a, eq(a->b, b), eq(a->c, b));
			if(a->b->isC()) // ite(c, k, x) == b
			{
				if(a->b == b) return or_(a->a, eq(a->c, b));
				return and_(not_(a->a), eq(a->c, b));
			}
			if(a->c->isC())
			{
				if(a->c == b) return or_(not_(a->a), eq(a->b, b));
				return and_(a->a, eq(a->b, b));
			}
			break;
		}
		case K_Add:
			if(a->b->isC()) return eq(a->a, fold(K_Sub, b, a->b));
			break;
		case K_Sub:
			if(a->a->isC()) return eq(a->b, fold(K_Sub, a->a, b));
			break;
		case K_Xor:
			if(a->b->isC()) return eq(a->a, fold(K_Xor, a->b, b));
			break;
		default: break;
		}
	}
	else
	{
		if(a->k == K_ZExt && b->k == K_ZExt && a->a->w == b->a->w)
			return eq(a->a, b->a);
		if(a->k == K_Concat && b->k == K_Concat && a->b->w == b->b->w)
			return and_(eq(a->a, b->a), eq(a->b, b->b));
		if(a->k == K_Add && b->k == K_Add && a->b == b->b)
			return eq(a->a, b->a);
		if(a->k == K_Add && a->b->isC() && a->a == b) return F;
		if(b->k == K_Add && b->b->isC() && b->a == a) return F;
		if(a->k == K_Ite && a->b->isC() && a->c->isC() && b->k == K_Ite &&
		   a->a == b->a)
			return ite(a->a, eq(a->b, b->b), eq(a->c, b->c));
		if(a->id > b->id) std::swap(a, b);
	}
	return raw(K_Eq, a, b);
}

// An upper bound of e's unsigned value (w <= 64).
static u64 umax(E e, int depth = 8)
{
	u64 m = maskw(e->w);
	if(e->isC()) return e->val;
	if(e->w > 64 || depth == 0) return m;
	switch(e->k)
	{
	case K_ZExt: return umax(e->a, depth - 1);
	case K_Add:
	{
		u64 x = umax(e->a, depth - 1), y = umax(e->b, depth - 1), r;
		if(__builtin_add_overflow(x, y, &r) || r > m) return m;
		return r;
	}
	case K_Mul:
	{
		u64 x = umax(e->a, depth - 1), y = umax(e->b, depth - 1), r;
		if(__builtin_mul_overflow(x, y, &r) || r > m) return m;
		return r;
	}
	case K_And: return std::min(umax(e->a, depth - 1), umax(e->b, depth - 1));
	case K_Ite: return std::max(umax(e->b, depth - 1), umax(e->c, depth - 1));
	case K_Concat:
		return (umax(e->a, depth - 1) << e->b->w) | umax(e->b, depth - 1);
	case K_Extract:
		if(e->aux == 0 && e->a->w <= 64) return std::min(m, umax(e->a, depth - 1));
		return m;
	case K_URem:
		if(e->b->isC() && e->b->val) return e->b->val - 1;
		return m;
	case K_UDiv:
		if(e->b->isC() && e->b->val) return umax(e->a, depth - 1) / e->b->val;
		return m;
	default: return m;
	}
}

E ult(E a, E b)
{
	if(a == b) return F;
	if(a->isC() && b->isC()) return fold(K_Ult, a, b);
	if(a->w <= 64)
	{
		if(b->isC() && umax(a) < b->val) return T;
		if(a->isC() && umax(b) <= a->val) return F;
	}
	if(is0(b)) return F;
	if(is0(a)) return not_(eq(b, a));
	if(isAll1(a)) return F;
	if(isAll1(b)) return not_(eq(a, b));
	if(a->w == 1) return and_(not_(a), b);
	if(b->isC() && cval(b) == 1) return eq(a, zero(a->w));
	if(a->k == K_ZExt && b->k == K_ZExt)
	{
		unsigned w = std::max(a->a->w, b->a->w);
		return ult(zext(a->a, w), zext(b->a, w));
	}
	if(a->k == K_ZExt && b->isC())
	{
		unsigned w = a->a->w;
		if(!is0(extract(b, w, b->w - w))) return T;
		return ult(a->a, extract(b, 0, w));
	}
	if(b->k == K_ZExt && a->isC())
	{
		unsigned w = b->a->w;
		if(!is0(extract(a, w, a->w - w))) return F;
		return ult(extract(a, 0, w), b->a);
	}
	if(E r = pushIte(K_Ult, a, b)) return r;
	return raw(K_Ult, a, b);
}
E ule(E a, E b)
{
	if(a == b) return T;
	if(a->isC() && b->isC()) return fold(K_Ule, a, b);
	if(is0(a)) return T;
	if(isAll1(b)) return T;
	if(is0(b)) return eq(a, b);
	if(isAll1(a)) return eq(a, b);
	// Canonical form: express through ult where a constant is involved.
	if(b->isC()) return ult(a, fold(K_Add, b, c(b->w, 1)));
	if(a->isC()) return ult(fold(K_Sub, a, c(a->w, 1)), b);
	if(a->w == 1) return or_(not_(a), b);
	if(a->k == K_ZExt && b->k == K_ZExt)
	{
		unsigned w = std::max(a->a->w, b->a->w);
		return ule(zext(a->a, w), zext(b->a, w));
	}
	return raw(K_Ule, a, b);
}
static bool msb0(E e)
{
	if(e->k == K_ZExt) return true;
	if(e->isC()) return !cval(e).isNegative();
	if(e->k == K_Concat) return msb0(e->a);
	return false;
}
E slt(E a, E b)
{
	if(a == b) return F;
	if(a->isC() && b->isC()) return fold(K_Slt, a, b);
	if(msb0(a) && msb0(b)) return ult(a, b);
	if(a->w == 1) return and_(a, not_(b));
	if(E r = pushIte(K_Slt, a, b)) return r;
	return raw(K_Slt, a, b);
}
E sle(E a, E b)
{
	if(a == b) return T;
	if(a->isC() && b->isC()) return fold(K_Sle, a, b);
	if(msb0(a) && msb0(b)) return ule(a, b);
	if(a->w == 1) return or_(a, not_(b));
	if(E r = pushIte(K_Sle, a, b)) return r;
	return raw(K_Sle, a, b);
}

E ite(E p, E a, E b)
{
	assert(p->w == 1 && a->w == b->w);
	if(p->isC()) return p->val ? a : b;
	if(a == b) return a;
	if(p->k == K_Xor && p->b->isC()) return ite(p->a, b, a); // not
	if(a->w == 1)
	{
		if(a->isC()) return a->val ? or_(p, b) : and_(not_(p), b);
		if(b->isC()) return b->val ? or_(not_(p), a) : and_(p, a);
	}
	if(a->k == K_Ite && a->a == p) a = a->b;
	if(b->k == K_Ite && b->a == p) b = b->c;
	if(a == b) return a;
	// ite(p, x, ite(q, x, y)) -> ite(p|q, x, y)
	if(b->k == K_Ite && b->b == a) return ite(or_(p, b->a), a, b->c);
	if(a->k == K_Concat && b->k == K_Concat && a->b->w == b->b->w &&
	   (a->a == b->a || a->b == b->b))
		return concat(ite(p, a->a, b->a), ite(p, a->b, b->b));
	return mk(K_Ite, a->w, p, a, b, 0, 0);
}

E concat(E hi, E lo)
{
	unsigned w = hi->w + lo->w;
	if(hi->isC() && lo->isC())
	{
		if(w <= 64) return c(w, (hi->val << lo->w) | lo->val);
		return cw(cval(hi).zext(w).shl(lo->w) | cval(lo).zext(w));
	}
	if(is0(hi)) return zext(lo, w);
	if(hi->k == K_ZExt)
		return zext(concat(hi->a, lo), w);
	if(hi->k == K_Extract && lo->k == K_Extract && hi->a == lo->a &&
	   hi->aux == lo->aux + lo->w)
		return extract(hi->a, lo->aux, w);
	// Concat(x, Concat(y, z)) with adjacent extracts x,y
	if(lo->k == K_Concat)
	{
		E y = lo->a;
		if((hi->k == K_Extract && y->k == K_Extract && hi->a == y->a &&
		    hi->aux == y->aux + y->w) ||
		   (hi->isC() && y->isC()))
			return concat(concat(hi, y), lo->b);
	}
	// Canonical right-nested.
	if(hi->k == K_Concat) return concat(hi->a, concat(hi->b, lo));
	if(hi->k == K_Ite && lo->k == K_Ite && hi->a == lo->a)
		return ite(hi->a, concat(hi->b, lo->b), concat(hi->c, lo->c));
	if(hi->k == K_Ite && lo->isC() && constIte(hi))
		return ite(hi->a, concat(hi->b, lo), concat(hi->c, lo));
	return mk(K_Concat, w, hi, lo, nullptr, 0, 0);
}

E extract(E e, unsigned lo, unsigned w)
{
	assert(w > 0 && lo + w <= e->w);
	if(lo == 0 && w == e->w) return e;
	switch(e->k)
	{
	case K_Const:
		if(e->w <= 64) return c(w, e->val >> lo);
		return cw(e->wide->extractBits(w, lo));
	case K_Extract: return extract(e->a, e->aux + lo, w);
	case K_Concat:
	{
		unsigned lw = e->b->w;
		if(lo >= lw) return extract(e->a, lo - lw, w);
		if(lo + w <= lw) return extract(e->b, lo, w);
		return concat(extract(e->a, 0, lo + w - lw), extract(e->b, lo, lw - lo));
	}
	case K_ZExt:
	{
		unsigned iw = e->a->w;
		if(lo >= iw) return zero(w);
		if(lo + w <= iw) return extract(e->a, lo, w);
		return zext(extract(e->a, lo, iw - lo), w);
	}
	case K_SExt:
	{
		unsigned iw = e->a->w;
		if(lo + w <= iw) return extract(e->a, lo, w);
		if(lo < iw) return sext(extract(e->a, lo, iw - lo), w);
		return sext(extract(e->a, iw - 1, 1), w);
	}
	case K_Ite: // keep byte stores of selected values foldable
		return ite(e->a, extract(e->b, lo, w), extract(e->c, lo, w));
	case K_And:
	case K_Or:
	case K_Xor:
		return bin(e->k, extract(e->a, lo, w), extract(e->b, lo, w));
	case K_Add:
	case K_Sub:
	case K_Mul:
		if(lo == 0)
			return bin(e->k, extract(e->a, 0, w), extract(e->b, 0, w));
		break;
	default: break;
	}
	return mk(K_Extract, w, e, nullptr, nullptr, lo, 0);
}

E zext(E e, unsigned w)
{
	if(w == e->w) return e;
	assert(w > e->w);
	if(e->isC()) return cw(cval(e).zext(w));
	if(e->k == K_ZExt) return zext(e->a, w);
	if(constIte(e)) return ite(e->a, zext(e->b, w), zext(e->c, w));
	return mk(K_ZExt, w, e, nullptr, nullptr, 0, 0);
}
E sext(E e, unsigned w)
{
	if(w == e->w) return e;
	assert(w > e->w);
	if(e->isC()) return cw(cval(e).sext(w));
	if(e->k == K_ZExt) return zext(e->a, w);
	if(e->k == K_SExt) return sext(e->a, w);
	if(constIte(e)) return ite(e->a, sext(e->b, w), sext(e->c, w));
	return mk(K_SExt, w, e, nullptr, nullptr, 0, 0);
}

static E bin(Kind k, E a, E b)
{
	switch(k)
	{
	case K_Add: return add(a, b);
	case K_Sub: return sub(a, b);
	case K_Mul: return mul(a, b);
	case K_And: return and_(a, b);
	case K_Or: return or_(a, b);
	case K_Xor: return xor_(a, b);
	default: abort();
	}
}

E rebuild(E e, E a, E b, E c)
{
	if(a == e->a && b == e->b && c == e->c) return e;
	switch(e->k)
	{
	case K_Add: return add(a, b);
	case K_Sub: return sub(a, b);
	case K_Mul: return mul(a, b);
	case K_UDiv: return udiv(a, b);
	case K_SDiv: return sdiv(a, b);
	case K_URem: return urem(a, b);
	case K_SRem: return srem(a, b);
	case K_And: return and_(a, b);
	case K_Or: return or_(a, b);
	case K_Xor: return xor_(a, b);
	case K_Shl: return shl(a, b);
	case K_LShr: return lshr(a, b);
	case K_AShr: return ashr(a, b);
	case K_Eq: return eq(a, b);
	case K_Ult: return ult(a, b);
	case K_Ule: return ule(a, b);
	case K_Slt: return slt(a, b);
	case K_Sle: return sle(a, b);
	case K_Ite: return ite(a, b, c);
	case K_Concat: return concat(a, b);
	case K_Extract: return extract(a, e->aux, e->w);
	case K_ZExt: return zext(a, e->w);
	case K_SExt: return sext(a, e->w);
	default: return e;
	}
}

const SymSet* syms(E e)
{
	static SymSet empty;
	if(e->syms) return e->syms;
	if(e->k == K_Sym)
	{
		auto* s = new SymSet;
		s->v.push_back(e->aux);
		return e->syms = s;
	}
	const SymSet* r = &empty;
	for(E kid : {e->a, e->b, e->c})
	{
		if(!kid) continue;
		const SymSet* s = syms(kid);
		if(s == r || s->v.empty()) continue;
		if(r->v.empty()) { r = s; continue; }
		if(std::includes(r->v.begin(), r->v.end(), s->v.begin(), s->v.end()))
			continue;
		if(std::includes(s->v.begin(), s->v.end(), r->v.begin(), r->v.end()))
		{
			r = s;
			continue;
		}
		auto* n = new SymSet;
		std::set_union(r->v.begin(), r->v.end(), s->v.begin(), s->v.end(),
		               std::back_inserter(n->v));
		r = n;
	}
	return e->syms = r;
}

std::string str(E e, int d)
{
	static const char* names[] = {
		"const", "sym", "+", "-", "*", "/u", "/s", "%u", "%s", "&", "|", "^",
		"<<", ">>u", ">>s", "==", "<u", "<=u", "<s", "<=s", "ite", "++",
		"extract", "zext", "sext", "uninit"};
	if(e->isC())
	{
		if(e->w <= 64) return std::to_string(e->val) + ":" + std::to_string(e->w);
		return "wide:" + std::to_string(e->w);
	}
	if(e->k == K_Sym) return symtab[e->aux].name;
	if(d == 0) return "...";
	std::string s = std::string("(") + names[e->k];
	if(e->k == K_Extract) s += "@" + std::to_string(e->aux) + "," + std::to_string(e->w);
	for(E kid : {e->a, e->b, e->c})
		if(kid) s += " " + str(kid, d - 1);
	return s + ")";
}
} // namespace ex

APInt Model::evalW(E e)
{
	if(e->isC()) return ex::cval(e);
	if(e->w <= 64) return APInt(e->w, eval(e));
	auto it = memoW.find(e);
	if(it != memoW.end()) return it->second;
	APInt r;
	switch(e->k)
	{
	case K_Ite: r = eval(e->a) ? evalW(e->b) : evalW(e->c); break;
	case K_Concat:
		r = evalW(e->a).zext(e->w).shl(e->b->w) | evalW(e->b).zext(e->w);
		break;
	case K_Extract: r = evalW(e->a).extractBits(e->w, e->aux); break;
	case K_ZExt: r = evalW(e->a).zext(e->w); break;
	case K_SExt: r = evalW(e->a).sext(e->w); break;
	default: r = ex::foldW(e->k, evalW(e->a), evalW(e->b)); break;
	}
	memoW.emplace(e, r);
	return r;
}

u64 Model::eval(E e)
{
	switch(e->k)
	{
	case K_Const: return e->w <= 64 ? e->val : (abort(), 0);
	case K_Sym: return get(e->aux) & maskw(e->w);
	case K_Uninit: return 0;
	default: break;
	}
	assert(e->w <= 64);
	auto it = memo.find(e);
	if(it != memo.end()) return it->second;
	u64 r;
	switch(e->k)
	{
	case K_Ite: r = eval(e->a) ? eval(e->b) : eval(e->c); break;
	case K_Concat: r = (eval(e->a) << e->b->w) | eval(e->b); break;
	case K_Extract:
		if(e->a->w <= 64)
			r = (eval(e->a) >> e->aux) & maskw(e->w);
		else
			r = evalW(e->a).extractBits(e->w, e->aux).getZExtValue();
		break;
	case K_ZExt: r = eval(e->a); break;
	case K_SExt: r = (u64)sx(eval(e->a), e->a->w) & maskw(e->w); break;
	default:
		if(e->a->w <= 64)
			r = ex::fold64(e->k, eval(e->a), eval(e->b), e->a->w);
		else
			r = ex::foldW(e->k, evalW(e->a), evalW(e->b)).getZExtValue();
		break;
	}
	memo.emplace(e, r);
	return r;
}

static void z3err(Z3_context c, Z3_error_code e)
{
	fprintf(stderr, "z3 error: %s\n", Z3_get_error_msg(c, e));
	exit(2);
}

Z3Tr::Z3Tr()
{
	Z3_config cfg = Z3_mk_config();
	ctx = Z3_mk_context_rc(cfg);
	Z3_del_config(cfg);
	Z3_set_error_handler(ctx, z3err);
}

static Z3_ast keep(Z3_context c, Z3_ast a)
{
	Z3_inc_ref(c, a);
	return a;
}

Z3_ast Z3Tr::bl(E e)
{
	assert(e->w == 1);
	if(e->zbool) return e->zbool;
	Z3_ast r;
	switch(e->k)
	{
	case K_Const: r = e->val ? Z3_mk_true(ctx) : Z3_mk_false(ctx); break;
	case K_And:
	{
		Z3_ast x[2] = {bl(e->a), bl(e->b)};
		r = Z3_mk_and(ctx, 2, x);
		break;
	}
	case K_Or:
	{
		Z3_ast x[2] = {bl(e->a), bl(e->b)};
		r = Z3_mk_or(ctx, 2, x);
		break;
	}
	case K_Xor:
		if(e->b->isC()) // canonical: xor with 1 is negation
			r = Z3_mk_not(ctx, bl(e->a));
		else
			r = Z3_mk_xor(ctx, bl(e->a), bl(e->b));
		break;
	case K_Eq:
		if(e->a->w == 1)
			r = Z3_mk_iff(ctx, bl(e->a), bl(e->b));
		else
			r = Z3_mk_eq(ctx, bv(e->a), bv(e->b));
		break;
	case K_Ult: r = Z3_mk_bvult(ctx, bv(e->a), bv(e->b)); break;
	case K_Ule: r = Z3_mk_bvule(ctx, bv(e->a), bv(e->b)); break;
	case K_Slt: r = Z3_mk_bvslt(ctx, bv(e->a), bv(e->b)); break;
	case K_Sle: r = Z3_mk_bvsle(ctx, bv(e->a), bv(e->b)); break;
	case K_Ite: r = Z3_mk_ite(ctx, bl(e->a), bl(e->b), bl(e->c)); break;
	default:
		r = Z3_mk_eq(ctx, bv(e), bv(ex::T));
		break;
	}
	return e->zbool = keep(ctx, r);
}

Z3_ast Z3Tr::bv(E e)
{
	if(e->zbv) return e->zbv;
	Z3_ast r = nullptr;
	auto B = [&](E x) { return bv(x); };
	switch(e->k)
	{
	case K_Const:
		if(e->w <= 64)
			r = Z3_mk_unsigned_int64(ctx, e->val, Z3_mk_bv_sort(ctx, e->w));
		else
		{
			llvm::SmallString<80> s;
			e->wide->toString(s, 10, false);
			r = Z3_mk_numeral(ctx, s.c_str(), Z3_mk_bv_sort(ctx, e->w));
		}
		break;
	case K_Sym:
		r = Z3_mk_const(ctx, Z3_mk_int_symbol(ctx, e->aux),
		                Z3_mk_bv_sort(ctx, e->w));
		break;
	case K_Eq: case K_Ult: case K_Ule: case K_Slt: case K_Sle:
		r = Z3_mk_ite(ctx, bl(e), bv(ex::T), bv(ex::F));
		break;
	case K_Add: r = Z3_mk_bvadd(ctx, B(e->a), B(e->b)); break;
	case K_Sub: r = Z3_mk_bvsub(ctx, B(e->a), B(e->b)); break;
	case K_Mul: r = Z3_mk_bvmul(ctx, B(e->a), B(e->b)); break;
	case K_UDiv: r = Z3_mk_bvudiv(ctx, B(e->a), B(e->b)); break;
	case K_SDiv: r = Z3_mk_bvsdiv(ctx, B(e->a), B(e->b)); break;
	case K_URem: r = Z3_mk_bvurem(ctx, B(e->a), B(e->b)); break;
	case K_SRem: r = Z3_mk_bvsrem(ctx, B(e->a), B(e->b)); break;
	case K_And: r = Z3_mk_bvand(ctx, B(e->a), B(e->b)); break;
	case K_Or: r = Z3_mk_bvor(ctx, B(e->a), B(e->b)); break;
	case K_Xor: r = Z3_mk_bvxor(ctx, B(e->a), B(e->b)); break;
	case K_Shl: r = Z3_mk_bvshl(ctx, B(e->a), B(e->b)); break;
	case K_LShr: r = Z3_mk_bvlshr(ctx, B(e->a), B(e->b)); break;
	case K_AShr: r = Z3_mk_bvashr(ctx, B(e->a), B(e->b)); break;
	case K_Ite: r = Z3_mk_ite(ctx, bl(e->a), B(e->b), B(e->c)); break;
	case K_Concat: r = Z3_mk_concat(ctx, B(e->a), B(e->b)); break;
	case K_Extract:
		r = Z3_mk_extract(ctx, e->aux + e->w - 1, e->aux, B(e->a));
		break;
	case K_ZExt: r = Z3_mk_zero_ext(ctx, e->w - e->a->w, B(e->a)); break;
	case K_SExt: r = Z3_mk_sign_ext(ctx, e->w - e->a->w, B(e->a)); break;
	case K_Uninit: fprintf(stderr, "uninit in query\n"); exit(2);
	}
	return e->zbv = keep(ctx, r);
}
