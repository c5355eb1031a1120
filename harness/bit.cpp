// Bit utilities: every value of every width against a bit-at-a-time model.
#include <algorithm>
#include <sym.h>
#include <ygopen/bit.hpp>

using namespace YGOpen::Bit;

template<typename T>
static unsigned m_popcnt(T x)
{
	unsigned n = 0;
	for(unsigned i = 0; i < std::numeric_limits<T>::digits; i++)
		n += static_cast<unsigned>((x >> i) & T{1});
	return n;
}

template<typename T>
static void popcnt_one()
{
	T x = (T)sym_bits(sizeof(T) * 8, "x");
	sym_check(popcnt(x) == m_popcnt(x), "population count is the number of set bits");
	sym_observe("p", popcnt(x));
}

template<typename T>
static void choose_one()
{
	constexpr unsigned W = std::numeric_limits<T>::digits;
	T x;
	unsigned count;
	if(unsigned free = (unsigned)sym_param("free", 0))
	{
		// Any `free` neighbouring bits, the others all clear or all set; every count.
		unsigned at = (unsigned)sym_choice((W + free - 1) / free, "window") * free;
		if(at + free > W) at = W - free;
		x = (T)((T)sym_bits(free, "x") << at);
		if(sym_choice(2, "others")) x |= (T)~(T)(((T{1} << free) - 1) << at);
		count = (unsigned)sym_choice(W + 3, "count");
	}
	else
	{
		x = (T)sym_bits(W, "x");
		// 8 and 16 bits: every count. Wider: the ends of the range (the solver's
		// proofs get too hard in the middle).
		count = (unsigned)sym_choice(W <= 16 ? W + 3 : 6, "count");
		if(W > 16 && count >= 4) count = W + (count - 4);
	}
	bool left = sym_choice(2, "left");
	T r = left ? choosel(count, x) : chooser(count, x);
	// A set bit is chosen iff fewer than `count` set bits precede it.
	// seen[j]: more than j set bits so far.
	T want = 0;
	uint8_t seen[W + 3] = {};
	for(unsigned k = 0; k < W; k++)
	{
		unsigned i = left ? W - 1 - k : k;
		uint8_t bit = static_cast<uint8_t>((x >> i) & T{1});
		uint8_t take = count == 0 ? uint8_t{0} : (uint8_t)(bit & (seen[count - 1] ^ 1u));
		want = (T)(want | (T)((T)take << i));
		for(unsigned j = std::min(count, k + 1); j-- > 1;)
			seen[j] = (uint8_t)(seen[j] | (seen[j - 1] & bit));
		seen[0] = (uint8_t)(seen[0] | bit);
	}
	sym_check(r == want, "exactly the first `count` set bits are chosen");
	sym_observe("r", r);
	sym_reach(left ? "choosel" : "chooser");
}

HARNESS(bit_popcnt)
{
	switch(sym_choice(4, "width"))
	{
	case 0: popcnt_one<uint8_t>(); break;
	case 1: popcnt_one<uint16_t>(); break;
	case 2: popcnt_one<uint32_t>(); break;
	default: popcnt_one<uint64_t>(); break;
	}
	sym_reach("popcnt");
}
HARNESS(bit_choose8) { choose_one<uint8_t>(); }
HARNESS(bit_choose16) { choose_one<uint16_t>(); }
HARNESS(bit_choose32) { choose_one<uint32_t>(); }
HARNESS(bit_choose64) { choose_one<uint64_t>(); }
