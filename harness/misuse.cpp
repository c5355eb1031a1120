// Misuse of the field: any place at all (every field over its full range). An
// operation that makes no sense ends in a failed assertion; it never gets as
// far as undefined behaviour, and one that is carried out was a sensible one.
#include "fcommon.hpp"

namespace
{
// A place with no restriction whatsoever.
SP wild(const char* n)
{
	SP p{sym_i32(n), sym_u32(n), sym_u32(n), sym_i32(n)};
	// Cases that keep the queries small: each of the sensible values, the rest.
	if(!sym_concretize(p.con == 0)) sym_concretize(p.con == 1);
	for(unsigned l = 0; l < 10; l++)
		if(sym_concretize(p.loc == (l < 5 ? fm::PILES[l] : fm::ZONES[l - 5])))
		{
			for(uint32_t q = 0; l >= 5 && q < fm::ZLIM[l - 5]; q++)
				if(sym_concretize(p.seq == q)) break;
			break;
		}
	return p;
}
unsigned known_con(SP const& p) { return (unsigned)(p.con == 0) | (unsigned)(p.con == 1); }
unsigned pile_loc(SP const& p)
{
	unsigned ok = 0;
	for(unsigned l = 0; l < 5; l++) ok |= (unsigned)(p.loc == fm::PILES[l]);
	return ok;
}
unsigned zone_seq(SP const& p)
{
	unsigned ok = 0;
	for(unsigned l = 0; l < 5; l++) ok |= (unsigned)(p.loc == fm::ZONES[l]) & (unsigned)(p.seq < fm::ZLIM[l]);
	return ok;
}
unsigned in_field(SP const& p) { return known_con(p) & (pile_loc(p) | zone_seq(p)); }
// The place holds a card / may receive one; in piles any overlay sequence is
// ignored, and outside of overlays any negative one will do.
unsigned there(Model& m, SP const& p, unsigned more)
{
	unsigned ok = 0;
	for(uint32_t c = 0; c < 2; c++)
	{
		unsigned k = (unsigned)(p.con == (int32_t)c);
		for(unsigned l = 0; l < 5; l++)
			ok |= k & (unsigned)(p.loc == fm::PILES[l]) & (unsigned)(p.seq < m.pile[c][l].size() + more);
		for(unsigned l = 0; l < 5; l++)
			for(uint32_t s = 0; s < fm::ZLIM[l]; s++)
			{
				auto& z = m.zone[c][fm::ZOFF[l] + s];
				unsigned in = (unsigned)(p.oseq >= 0) & (unsigned)(p.oseq < (int32_t)(z.mats.size() + more));
				unsigned top = (unsigned)((z.card != 0) != (more != 0)) & (unsigned)(p.oseq < 0);
				ok |= k & (unsigned)(p.loc == fm::ZONES[l]) & (unsigned)(p.seq == s) & (in | top);
			}
	}
	return ok;
}
At norm(SP p)
{
	// where it really is
	if(sym_concretize(pile_loc(p))) p.oseq = -1;
	else if(p.oseq < 0) p.oseq = -1;
	return p.at();
}
struct World
{
	Frame f;
	Model m;
	uint32_t next = 0;
	World() { populate(f, m, P(), T(), next); }
};
} // namespace

HARNESS(misuse_lookup)
{
	World w;
	SP s = wild("place");
	Frame const& cf = w.f;
	unsigned which = (unsigned)sym_choice(4, "which");
	Place p = s.place();
	sym_allow_abort(1);
	if(which == 0)
	{
		bool h = cf.has_card(p);
		sym_allow_abort(0);
		sym_check(in_field(s), "has_card: a place outside of the field is not answered");
		sym_check((unsigned)h == there(w.m, s, 0), "has_card: the answer is right");
	}
	else if(which == 1)
	{
		Card const& c = cf.card(p);
		uint32_t id = c.id;
		sym_allow_abort(0);
		sym_check(there(w.m, s, 0), "card: no card is returned where there is none");
		sym_check(id == w.m.ref(norm(s)), "card: the card of that place");
	}
	else if(which == 2)
	{
		auto const& x = cf.pile(p);
		size_t n = x.size();
		sym_allow_abort(0);
		sym_check(known_con(s) & pile_loc(s), "pile: only piles are returned");
		s.seq = 0;
		s.oseq = -1;
		sym_check(n == w.m.P(s.at()).size(), "pile: the pile of that place");
	}
	else
	{
		auto const& x = cf.zone(p);
		size_t n = x.materials.size();
		sym_allow_abort(0);
		sym_check(known_con(s) & zone_seq(s), "zone: only zones are returned");
		s.oseq = -1;
		sym_check(n == w.m.Z(s.at()).mats.size(), "zone: the zone of that place");
	}
	sym_reach("answered");
}

HARNESS(misuse_add)
{
	World w;
	SP s = wild("place");
	Place p = s.place();
	sym_allow_abort(1);
	Card& c = w.f.card_add(p);
	sym_allow_abort(0);
	sym_check(there(w.m, s, 1), "add: refused where a card cannot be put");
	c.id = ++w.next;
	w.m.add(norm(s), c.id);
	sym_check(same(w.f, w.m), "add: what is accepted is carried out");
	sym_reach("added");
}

HARNESS(misuse_remove)
{
	World w;
	SP s = wild("place");
	Place p = s.place();
	sym_allow_abort(1);
	w.f.card_remove(p);
	sym_allow_abort(0);
	sym_check(there(w.m, s, 0), "remove: refused where there is no card");
	w.m.take(norm(s));
	sym_check(same(w.f, w.m), "remove: what is accepted is carried out");
	sym_reach("removed");
}

// One end is any place at all, the other one of a few sensible ones.
HARNESS(misuse_move)
{
	World w;
	unsigned side = (unsigned)sym_param("side", 0);
	SP s = wild("place");
	At g = fm::any_place("good", 0, 0);
	if(side == 0)
	{
		sym_assume(w.m.room(g));
		sym_allow_abort(1);
		w.f.card_move(s.place(), g.place());
		sym_allow_abort(0);
		sym_check(there(w.m, s, 0), "move: refused where there is no card");
		At a = norm(s);
		sym_check(s.oseq < 0 || !a.pile(), "move: a card of a pile has no overlay sequence");
		if(!(a.con == g.con && a.li == g.li && a.seq == g.seq)) w.m.move(a, g), sym_check(same(w.f, w.m), "move: what is accepted is carried out");
	}
	else
	{
		sym_assume(w.m.has(g));
		sym_allow_abort(1);
		w.f.card_move(g.place(), s.place());
		sym_allow_abort(0);
		At b = norm(s);
		if(!(b.con == g.con && b.li == g.li && (b.pile() || b.seq == g.seq)))
		{
			sym_check(there(w.m, s, 1), "move: refused where a card cannot be put");
			sym_check(s.oseq < 0 || !b.pile(), "move: a card of a pile has no overlay sequence");
			w.m.move(g, b);
			sym_check(same(w.f, w.m), "move: what is accepted is carried out");
		}
		else
			sym_check(Card::live == (int)w.m.count(), "move: no card is lost");
	}
	sym_reach("moved");
}

HARNESS(misuse_swap)
{
	World w;
	SP s = wild("place");
	At g = fm::any_place("good", 0, 0);
	sym_assume(w.m.has(g));
	bool first = sym_param("side", 0) == 0;
	sym_allow_abort(1);
	if(first) w.f.card_swap(s.place(), g.place());
	else w.f.card_swap(g.place(), s.place());
	sym_allow_abort(0);
	sym_check(there(w.m, s, 0), "swap: refused where there is no card");
	At a = norm(s);
	sym_check(s.oseq < 0 || !a.pile(), "swap: a card of a pile has no overlay sequence");
	bool az = !a.pile() && a.oseq < 0, bz = !g.pile() && g.oseq < 0;
	sym_check(!(az && g.pile()) || w.m.Z(a).mats.empty(), "swap: a card with materials stays on the field");
	sym_check(!(bz && a.pile()) || w.m.Z(g).mats.empty(), "swap: a card with materials stays on the field");
	uint32_t x = w.m.ref(a), y = w.m.ref(g);
	w.m.ref(a) = y;
	w.m.ref(g) = x;
	if(az && bz && &w.m.Z(a) != &w.m.Z(g)) w.m.Z(a).mats.swap(w.m.Z(g).mats);
	sym_check(same(w.f, w.m), "swap: what is accepted is carried out");
	sym_reach("swapped");
}

// Shuffling one or two zones of a location, one of the places being any.
HARNESS(misuse_shuffle)
{
	World w;
	unsigned side = (unsigned)sym_param("side", 0);
	SP s = wild("place");
	unsigned con = (unsigned)sym_choice(2, "con"), li = 5 + (unsigned)sym_choice(5, "loc");
	std::vector<Place> from, to;
	At g{};
	g.con = con, g.li = li, g.oseq = -1;
	for(g.seq = 0; g.seq < fm::ZLIM[li - 5]; g.seq++)
		if(w.m.has(g)) from.push_back(g.place());
	sym_assume(!from.empty());
	to = from;
	bool second = from.size() > 1 && sym_choice(2, "second") != 0;
	(side == 0 ? from : to)[second] = s.place();
	unsigned n = second || (from.size() > 1 && sym_choice(2, "two") != 0) ? 2 : 1;
	sym_allow_abort(1);
	w.f.card_shuffle(from.cbegin(), to.cbegin(), n);
	sym_allow_abort(0);
	if(side == 0)
	{
		// Where there is no zone, or no card on it.
		sym_check(second ? there(w.m, s, 0) : zone_seq(s) & there(w.m, s, 0), "shuffle: refused where there is no card");
	}
	else
		sym_check((unsigned)(s.loc == 0) | (known_con(s) & zone_seq(s)), "shuffle: refused where there is no zone");
	sym_check(Card::live == (int)w.m.count(), "shuffle: no card is lost");
	sym_reach("shuffled");
}
// Shuffling more than fit anywhere.
HARNESS(misuse_shuffle_many)
{
	Frame f;
	for(uint32_t i = 0; i < 7; i++)
	{
		At a{};
		a.li = 5, a.seq = i, a.oseq = -1;
		f.card_add(a.place());
	}
	uint64_t n = sym_choice(33, "count");
	std::vector<Place> v;
	for(uint64_t i = 0; i < n; i++)
	{
		At a{};
		a.li = 5, a.oseq = -1;
		a.seq = i < 7 ? (uint32_t)i : (uint32_t)sym_choice(i == 7 ? 7 : 1, "again");
		v.push_back(a.place());
	}
	sym_assume(n != 0);
	sym_allow_abort(1);
	f.card_shuffle(v.cbegin(), v.cbegin(), n);
	sym_allow_abort(0);
	sym_check(n <= 7, "shuffle: refused when there are more cards than zones");
	sym_reach("shuffled");
}

HARNESS(misuse_resize)
{
	World w;
	SP s = wild("place");
	uint64_t n = sym_choice(4, "count");
	sym_allow_abort(1);
	w.f.pile_resize(s.place(), n);
	sym_allow_abort(0);
	sym_check(known_con(s) & pile_loc(s), "pile_resize: refused for anything but a pile");
	s.seq = 0;
	s.oseq = -1;
	sym_check(w.f.pile(s.place()).size() == n, "pile_resize: what is accepted is carried out");
	sym_reach("resized");
}

HARNESS(misuse_splice)
{
	World w;
	unsigned side = (unsigned)sym_param("side", 0);
	At g = fm::any_pile("good", 0);
	uint64_t n;
	SP s, t;
	if(side == 0)
	{
		// any source and any count
		s = wild("from");
		t = {(int32_t)g.con, g.loc(), 0, -1};
		n = sym_u64("count");
		if(P() >= BIG)
		{
			static const uint32_t edges[] = {0, 1, 19, 20, 21, 39, 40};
			bool found = false;
			for(uint32_t e : edges) found = found || sym_concretize(s.seq == e);
			sym_assume(found | (s.seq > 40));
			found = false;
			for(uint32_t e : edges) found = found || sym_concretize(n == e);
			sym_assume(found | (n > 40));
		}
	}
	else
	{
		// any destination
		s = {(int32_t)g.con, g.loc(), 0, -1};
		t = wild("to");
		n = sym_choice(3, "count");
	}
	sym_allow_abort(1);
	w.f.pile_splice(s.place(), n, t.place(), sym_choice(2, "reverse") != 0);
	sym_allow_abort(0);
	sym_check(known_con(s) & pile_loc(s) & known_con(t) & pile_loc(t), "pile_splice: refused for anything but piles");
	At a = norm(s), b = norm(t);
	n = sym_concretize(n);
	uint64_t za = w.m.P(a).size(), zb = w.m.P(b).size();
	sym_check(n <= za && a.seq <= za && a.seq + n <= za, "pile_splice: refused when the slice is not in the pile");
	if(&w.m.P(a) == &w.m.P(b)) zb -= n;
	sym_check(b.seq <= zb, "pile_splice: refused when the destination is past the pile");
	sym_check(w.f.pile(s.place()).size() + (&w.m.P(a) == &w.m.P(b) ? 0 : n) == za, "pile_splice: what is accepted is carried out");
	sym_reach("spliced");
}

HARNESS(misuse_pile_swap)
{
	World w;
	SP s = wild("place");
	At g = fm::any_pile("good", 0);
	bool first = sym_param("side", 0) == 0;
	sym_allow_abort(1);
	if(first) w.f.pile_swap(s.place(), g.place());
	else w.f.pile_swap(g.place(), s.place());
	sym_allow_abort(0);
	sym_check(known_con(s) & pile_loc(s), "pile_swap: refused for anything but piles");
	s.seq = 0;
	s.oseq = -1;
	At a = s.at();
	if(a.con != g.con || a.li != g.li) w.m.P(a).swap(w.m.P(g));
	sym_check(same(w.f, w.m), "pile_swap: what is accepted is carried out");
	sym_reach("swapped");
}

#include <ygopen/client/board.hpp>
#include <ygopen/duel/constants/phase.hpp>
namespace
{
struct Traits
{
	using BlockedZonesType = int;
	using ChainStackType = int;
	using FrameType = int;
	using LPType = uint32_t;
	using PhaseType = int;
	using TurnControllerType = int;
	using TurnType = int;
};
} // namespace

// Life points of a player that does not exist.
HARNESS(misuse_lp)
{
	Client::BasicBoard<Traits> b;
	auto const& cb = b;
	uint32_t v[2] = {sym_u32("lp"), sym_u32("lp")};
	for(int c = 0; c < 2; c++) b.lp(static_cast<Duel::Controller>(c)) = v[c];
	int32_t con = sym_i32("con");
	if(!sym_concretize(con == 0)) sym_concretize(con == 1);
	bool write = sym_choice(2, "const") == 0;
	sym_allow_abort(1);
	uint32_t const& r = write ? b.lp(static_cast<Duel::Controller>(con)) : cb.lp(static_cast<Duel::Controller>(con));
	sym_allow_abort(0);
	sym_check((unsigned)(con == 0) | (unsigned)(con == 1), "lp: only the two players have life points");
	sym_check(r == v[con], "lp: the life points of that player");
	sym_reach("answered");
}
