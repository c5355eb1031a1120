// Hash-consed bit-vector expressions with a local simplifier, evaluation
// under models, and translation to Z3.
#pragma once
#include <llvm/ADT/APInt.h>
#include <llvm/ADT/SmallString.h>
#include <z3.h>

#include <cassert>
#include <cstdint>
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <deque>
#include <functional>
#include <string>
#include <unordered_map>
#include <unordered_set>
#include <vector>

using llvm::APInt;
typedef uint64_t u64;

enum Kind : uint8_t
{
	K_Const, K_Sym, K_Add, K_Sub, K_Mul, K_UDiv, K_SDiv, K_URem, K_SRem,
	K_And, K_Or, K_Xor, K_Shl, K_LShr, K_AShr, K_Eq, K_Ult, K_Ule, K_Slt,
	K_Sle, K_Ite, K_Concat, K_Extract, K_ZExt, K_SExt, K_Uninit
};

struct SymSet // sorted symbol ids
{
	std::vector<uint32_t> v;
};

struct Expr
{
	Kind k;
	uint32_t w;   // width in bits
	uint32_t id;  // creation order, unique
	uint32_t aux; // Extract: low bit; Sym: symbol id
	u64 val;      // Const (w<=64)
	const Expr* a;
	const Expr* b;
	const Expr* c;
	const APInt* wide; // Const (w>64)
	mutable const SymSet* syms;
	mutable Z3_ast zbv;
	mutable Z3_ast zbool;
	bool isC() const { return k == K_Const; }
};
typedef const Expr* E;

inline u64 maskw(unsigned w) { return w >= 64 ? ~0ull : ((1ull << w) - 1); }
inline int64_t sx(u64 v, unsigned w)
{
	if(w >= 64) return (int64_t)v;
	return (int64_t)(v << (64 - w)) >> (64 - w);
}

struct SymInfo
{
	std::string name;
	unsigned w;
	bool input;
	E e;
};

namespace ex
{
extern std::deque<Expr> pool;
extern std::vector<SymInfo> symtab;
extern E T, F, UNINIT;
void init();
E c(unsigned w, u64 v);
E cw(const APInt& v);
E sym(const std::string& name, unsigned w, bool input);
E add(E, E); E sub(E, E); E mul(E, E);
E udiv(E, E); E sdiv(E, E); E urem(E, E); E srem(E, E);
E and_(E, E); E or_(E, E); E xor_(E, E); E not_(E);
E shl(E, E); E lshr(E, E); E ashr(E, E);
E eq(E, E); E ult(E, E); E ule(E, E); E slt(E, E); E sle(E, E);
E ite(E, E, E); E concat(E hi, E lo); E extract(E, unsigned lo, unsigned w);
E zext(E, unsigned w); E sext(E, unsigned w);
inline E ne(E a, E b) { return not_(eq(a, b)); }
E rebuild(E e, E a, E b, E c); // e with other operands
APInt cval(E e); // constant value as APInt
const SymSet* syms(E);
std::string str(E, int depth = 6);
}

struct Model
{
	std::unordered_map<uint32_t, u64> v; // sym id -> value (default 0)
	std::unordered_map<E, u64> memo;
	std::unordered_map<E, APInt> memoW;
	u64 get(uint32_t s) const
	{
		auto it = v.find(s);
		return it == v.end() ? 0 : it->second;
	}
	u64 eval(E e);
	APInt evalW(E e);
};

struct Z3Tr
{
	Z3_context ctx;
	Z3Tr();
	Z3_ast bv(E);
	Z3_ast bl(E); // width-1 as Bool
};
