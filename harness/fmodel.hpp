// A plain model of the field (ids instead of cards) and its comparison with a
// frame. Piles: main deck, hand, graveyard, banished, extra deck; zones: 7
// monster, 5 spell, 1 field, 2 pendulum, 1 skill.
#pragma once
#include <sym.h>
#include <vector>
#include <ygopen/duel/constants/controller.hpp>
#include <ygopen/duel/constants/location.hpp>
#include <ygopen/proto/duel/data.hpp>

namespace fm
{
using YGOpen::Proto::Duel::Place;
using Ids = std::vector<uint32_t>;

static const uint32_t PILES[5] = {0x1, 0x2, 0x10, 0x20, 0x40};
static const uint32_t ZONES[5] = {0x4, 0x8, 0x100, 0x200, 0x400};
static const uint32_t ZLIM[5] = {7, 5, 1, 2, 1};
static const uint32_t ZOFF[5] = {0, 7, 12, 13, 15};

static inline Place mk(uint32_t con, uint32_t loc, uint32_t seq, int32_t oseq = -1)
{
	Place p;
	p.set_con((int32_t)con);
	p.set_loc(loc);
	p.set_seq(seq);
	p.set_oseq(oseq);
	return p;
}

// A place with concrete fields.
struct At
{
	uint32_t con, li, seq; // li: 0..4 piles, 5..9 zones
	int32_t oseq;
	bool pile() const { return li < 5; }
	uint32_t loc() const { return pile() ? PILES[li] : ZONES[li - 5]; }
	Place place() const { return mk(con, loc(), seq, oseq); }
};

struct Zone
{
	uint32_t card = 0; // 0: none
	Ids mats;
};

struct Model
{
	Ids pile[2][5];
	Zone zone[2][16];

	Ids& P(At const& a) { return pile[a.con][a.li]; }
	Zone& Z(At const& a) { return zone[a.con][ZOFF[a.li - 5] + a.seq]; }
	bool has(At const& a)
	{
		if(a.pile()) return a.oseq < 0 && a.seq < P(a).size();
		if(a.oseq < 0) return Z(a).card != 0;
		return (size_t)a.oseq < Z(a).mats.size();
	}
	// May a card be put there?
	bool room(At const& a)
	{
		if(a.pile()) return a.oseq < 0 && a.seq <= P(a).size();
		if(a.oseq < 0) return Z(a).card == 0;
		return (size_t)a.oseq <= Z(a).mats.size();
	}
	uint32_t& ref(At const& a)
	{
		if(a.pile()) return P(a)[a.seq];
		if(a.oseq < 0) return Z(a).card;
		return Z(a).mats[(size_t)a.oseq];
	}
	void add(At const& a, uint32_t id)
	{
		if(a.pile()) P(a).insert(P(a).begin() + a.seq, id);
		else if(a.oseq < 0) Z(a).card = id;
		else Z(a).mats.insert(Z(a).mats.begin() + a.oseq, id);
	}
	uint32_t take(At const& a)
	{
		uint32_t id = ref(a);
		if(a.pile()) P(a).erase(P(a).begin() + a.seq);
		else if(a.oseq < 0) Z(a).card = 0;
		else Z(a).mats.erase(Z(a).mats.begin() + a.oseq);
		return id;
	}
	// A card moves alone, except between two zones, where its materials follow.
	void move(At const& f, At const& t)
	{
		bool carry = !f.pile() && !t.pile() && f.oseq < 0 && t.oseq < 0;
		Ids mats;
		if(carry) mats.swap(Z(f).mats);
		uint32_t id = take(f);
		add(t, id);
		if(carry) Z(t).mats = mats;
	}
	// May it move? (Evaluated before moving.)
	bool can_move(At const& f, At const& t)
	{
		if(!has(f)) return false;
		Model m(*this);
		m.take(f);
		if(!m.room(t)) return false;
		if(!f.pile() && !t.pile() && f.oseq < 0 && t.oseq < 0)
			return Z(t).card == 0 && Z(t).mats.empty();
		return true;
	}
	void splice(At const& f, uint32_t n, At const& t, bool rev)
	{
		Ids x(P(f).begin() + f.seq, P(f).begin() + f.seq + n);
		P(f).erase(P(f).begin() + f.seq, P(f).begin() + f.seq + n);
		if(rev) P(t).insert(P(t).begin() + t.seq, x.rbegin(), x.rend());
		else P(t).insert(P(t).begin() + t.seq, x.begin(), x.end());
	}
	size_t count() const
	{
		size_t n = 0;
		for(auto const& c : pile)
			for(auto const& p : c) n += p.size();
		for(auto const& c : zone)
			for(auto const& z : c) n += (z.card != 0) + z.mats.size();
		return n;
	}
};

// id of a card of the frame
template<typename Frame, typename Id>
static bool same(Frame& f, Model const& m, Id id)
{
	using namespace YGOpen::Duel;
	unsigned ok = 1;
	for(uint32_t c = 0; c < 2; c++)
	{
		for(unsigned l = 0; l < 5; l++)
		{
			auto const& p = f.pile((Controller)c, (Location)PILES[l]);
			auto const& w = m.pile[c][l];
			if(p.size() != w.size()) return false;
			for(size_t i = 0; i < w.size(); i++) ok &= (unsigned)(id(*p[i]) == w[i]);
		}
		for(unsigned l = 0; l < 5; l++)
			for(uint32_t s = 0; s < ZLIM[l]; s++)
			{
				auto const& z = f.zone((Controller)c, (Location)ZONES[l], s);
				auto const& w = m.zone[c][ZOFF[l] + s];
				if((z.card != nullptr) != (w.card != 0)) return false;
				if(w.card != 0) ok &= (unsigned)(id(*z.card) == w.card);
				if(z.materials.size() != w.mats.size()) return false;
				for(size_t i = 0; i < w.mats.size(); i++) ok &= (unsigned)(id(*z.materials[i]) == w.mats[i]);
			}
	}
	return ok != 0;
}

// Any place, as choices. max: largest sequence tried in a pile; mats: largest
// overlay sequence.
static inline At any_place(const char* nm, uint32_t max, int32_t mats)
{
	At a{};
	a.con = (uint32_t)sym_choice(2, nm);
	a.li = (uint32_t)sym_choice(10, nm);
	a.oseq = -1;
	if(a.pile())
		a.seq = (uint32_t)sym_choice(max + 1, nm);
	else
	{
		a.seq = ZLIM[a.li - 5] == 1 ? 0 : (uint32_t)sym_choice(ZLIM[a.li - 5], nm);
		a.oseq = (int32_t)sym_choice((uint64_t)mats + 2, nm) - 1;
	}
	return a;
}
static inline At any_pile(const char* nm, uint32_t max)
{
	At a{};
	a.con = (uint32_t)sym_choice(2, nm);
	a.li = (uint32_t)sym_choice(5, nm);
	a.oseq = -1;
	a.seq = (uint32_t)sym_choice(max + 1, nm);
	return a;
}
} // namespace fm
