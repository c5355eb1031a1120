// A populated field and symbolic places, for the harnesses about it.
#pragma once
#include "fmodel.hpp"
#include <ygopen/client/frame.hpp>
#include <ygopen/client/frame_limbo.hpp>

using namespace YGOpen;
using fm::At;
using fm::Model;
using fm::Place;

namespace
{
// Counts its live instances; moving carries the identity.
struct Card
{
	uint32_t id{};
	static int live;
	Card() noexcept { live++; }
	Card(Card&& o) noexcept : id(o.id) { live++; }
	Card(Card const&) = delete;
	Card& operator=(Card const&) = delete;
	~Card() { live--; }
};
int Card::live = 0;

// Any number below n: a symbol, split by the solver here and now.
uint32_t below(size_t n, const char* name)
{
	uint32_t v = sym_u32(name);
	sym_assume(v < n);
	return (uint32_t)sym_concretize(v);
}

using Frame = Client::BasicFrame<Card>;
uint32_t idof(Card const& c) { return c.id; }

bool same(Frame& f, Model& m)
{
	return fm::same(f, m, idof) & fm::same(const_cast<Frame const&>(f), m, idof) & (Card::live == (int)m.count());
}

// Fills the frame and the model alike through card_add.
template<typename F>
void put(F& f, Model& m, uint32_t con, unsigned li, uint32_t seq, int32_t oseq, uint32_t& next)
{
	At a{con, li, seq, oseq};
	Card& c = f.card_add(a.place());
	c.id = ++next;
	m.add(a, c.id);
}

// A populated field. Sizes depend on the profile so that over the profiles
// every pile and every zone takes every size below `top`.
// Profiles from 100: few containers, but large ones; from 200: one pile and one
// zone with more than a byte counts.
const uint32_t BIG = 100, HUGE = 200;
template<typename F>
void populate(F& f, Model& m, uint32_t profile, uint32_t top, uint32_t& next)
{
	if(profile >= HUGE)
	{
		uint32_t w = profile - HUGE;
		for(uint32_t k = 0; k < 300; k++) put(f, m, w & 1, w % 5, k, -1, next);
		put(f, m, ~w & 1, (w + 2) % 5, 0, -1, next);
		put(f, m, w & 1, 5 + w % 5, 0, -1, next);
		for(uint32_t k = 0; k < 270; k++) put(f, m, w & 1, 5 + w % 5, 0, (int32_t)k, next);
		put(f, m, ~w & 1, 5 + (w + 2) % 5, 0, -1, next);
		return;
	}
	if(profile >= BIG)
	{
		uint32_t w = profile - BIG;
		for(uint32_t i = 0; i < 3; i++)
			for(uint32_t k = 0; k < 40 >> i; k++) put(f, m, (w + i / 2) & 1, (w + 2 * i) % 5, k, -1, next);
		for(uint32_t i = 0; i < 3; i++)
		{
			unsigned li = 5 + (w + i) % 5;
			uint32_t s = (w + 2 * i + 1) % fm::ZLIM[li - 5];
			put(f, m, (w + i) & 1, li, s, -1, next);
			for(uint32_t k = 0; k < (20 >> i) && i < 2; k++) put(f, m, (w + i) & 1, li, s, (int32_t)k, next);
		}
		return;
	}
	uint32_t h = profile;
	for(uint32_t c = 0; c < 2; c++)
		for(unsigned l = 0; l < 10; l++)
			for(uint32_t s = 0; s < (l < 5 ? 1 : fm::ZLIM[l - 5]); s++)
			{
				h = h + 1 + (c + l) / 3;
				uint32_t n = h % top;
				if(l < 5)
					for(uint32_t i = 0; i < n; i++) put(f, m, c, l, i, -1, next);
				else
				{
					if((h / top + profile) % 3 != 0) put(f, m, c, l, s, -1, next);
					for(uint32_t i = 0; i < n; i++) put(f, m, c, l, s, (int32_t)i, next);
				}
			}
}

struct SP
{
	int32_t con;
	uint32_t loc, seq;
	int32_t oseq;
	Place place() const
	{
		Place p;
		p.set_con(con);
		p.set_loc(loc);
		p.set_seq(seq);
		p.set_oseq(oseq);
		return p;
	}
	// The place as concrete values (forks).
	At at() const
	{
		At a{};
		a.con = (uint32_t)sym_concretize((uint32_t)con);
		uint32_t l = (uint32_t)sym_concretize(loc);
		a.li = 99;
		for(unsigned i = 0; i < 5; i++)
		{
			if(fm::PILES[i] == l) a.li = i;
			if(fm::ZONES[i] == l) a.li = 5 + i;
		}
		a.seq = (uint32_t)sym_concretize(seq);
		a.oseq = (int32_t)(uint32_t)sym_concretize((uint32_t)oseq);
		return a;
	}
};
// Any place: controller and location are split here, seq and oseq stay symbolic.
SP sp(const char* n)
{
	SP p{sym_i32(n), sym_u32(n), sym_u32(n), sym_i32(n)};
	sym_assume((unsigned)(p.con >= 0) & (unsigned)(p.con <= 1));
	unsigned ok = 0;
	for(unsigned l = 0; l < 5; l++) ok |= (unsigned)(p.loc == fm::PILES[l]) | (unsigned)(p.loc == fm::ZONES[l]);
	sym_assume(ok);
	return p;
}
SP sp_pile(const char* n)
{
	SP p{sym_i32(n), sym_u32(n), sym_u32(n), -1};
	sym_assume((unsigned)(p.con >= 0) & (unsigned)(p.con <= 1));
	unsigned ok = 0;
	for(unsigned l = 0; l < 5; l++) ok |= (unsigned)(p.loc == fm::PILES[l]);
	sym_assume(ok);
	return p;
}
At cell(SP const& p)
{
	At a{};
	a.con = (uint32_t)sym_concretize((uint32_t)p.con);
	uint32_t l = (uint32_t)sym_concretize(p.loc);
	for(unsigned i = 0; i < 5; i++)
	{
		if(fm::PILES[i] == l) a.li = i;
		if(fm::ZONES[i] == l) a.li = 5 + i;
	}
	return a;
}
uint32_t P() { return (uint32_t)sym_param("profile", 0); }
uint32_t T() { return (uint32_t)sym_param("top", 3); }
// In large containers: the ends and the middle.
template<typename N>
unsigned sparse(N v, size_t z)
{
	if(P() < BIG) return 1;
	return (unsigned)(v == (N)0) | (unsigned)(v == (N)1) | (unsigned)(v == (N)(z / 2)) | (unsigned)(v == (N)(z - (z != 0))) | (unsigned)(v == (N)z);
}
// As one expression over seq and oseq: the place holds a card (more = 0) or
// may receive one (more = 1).
unsigned fits(Model& m, SP const& p, unsigned more, unsigned all = 0)
{
	At a = cell(p);
	if(a.pile())
		return (unsigned)(p.seq < m.P(a).size() + more) & (unsigned)(p.oseq == -1) & (all | sparse(p.seq, m.P(a).size()));
	unsigned ok = 0;
	for(uint32_t s = 0; s < fm::ZLIM[a.li - 5]; s++)
	{
		auto& z = m.zone[a.con][fm::ZOFF[a.li - 5] + s];
		unsigned in = (unsigned)(p.oseq >= 0) & (unsigned)(p.oseq < (int32_t)(z.mats.size() + more)) &
		              (all | sparse(p.oseq, z.mats.size()));
		unsigned top = (unsigned)((z.card != 0) != (more != 0)) & (unsigned)(p.oseq == -1);
		ok |= (unsigned)(p.seq == s) & (in | top);
	}
	return ok;
}
unsigned holds(Model& m, SP const& p) { return fits(m, p, 0); }
unsigned receives(Model& m, SP const& p) { return fits(m, p, 1); }
} // namespace

