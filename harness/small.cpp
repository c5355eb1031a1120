// Places, locations and values with a history.
#include <cassert>
#include <cstddef>
#include <sym.h>
#include <utility>
#include <vector>
#include <ygopen/client/undoable.hpp>
#include <ygopen/client/frame.hpp>
#include <ygopen/proto/duel/data.hpp>

using namespace YGOpen;
using Place = Proto::Duel::Place;

namespace
{
struct Raw
{
	int32_t con;
	uint32_t loc, seq;
	int32_t oseq;
	explicit Raw(const char* n) : con(sym_i32(n)), loc(sym_u32(n)), seq(sym_u32(n)), oseq(sym_i32(n)) {}
	void to(Place& p) const
	{
		p.set_con(con);
		p.set_loc(loc);
		p.set_seq(seq);
		p.set_oseq(oseq);
	}
};
// Field by field, in the order of the message, without branches.
unsigned less(Raw const& a, Raw const& b)
{
	unsigned l = (unsigned)(a.oseq < b.oseq);
	l = (unsigned)(a.seq < b.seq) | ((unsigned)(a.seq == b.seq) & l);
	l = (unsigned)(a.loc < b.loc) | ((unsigned)(a.loc == b.loc) & l);
	l = (unsigned)(a.con < b.con) | ((unsigned)(a.con == b.con) & l);
	return l;
}
unsigned same(Raw const& a, Raw const& b)
{
	return (unsigned)(a.con == b.con) & (unsigned)(a.loc == b.loc) & (unsigned)(a.seq == b.seq) &
	       (unsigned)(a.oseq == b.oseq);
}
} // namespace

HARNESS(place_order)
{
	Raw a("a"), b("b");
	Place p, q;
	a.to(p);
	b.to(q);
	Proto::Duel::PlaceLess lt;
	bool ab = lt(p, q), ba = lt(q, p), eq = p == q;
	sym_check(ab == (less(a, b) != 0), "places are ordered by controller, location, sequence, material position");
	sym_check(ba == (less(b, a) != 0), "places are ordered by controller, location, sequence, material position");
	sym_check(eq == (same(a, b) != 0), "places are equal exactly if all four parts are");
	sym_check((unsigned)ab + (unsigned)ba + (unsigned)eq == 1, "exactly one of less, equal, greater holds");
	sym_check(!lt(p, p) && !lt(q, q) && p == p, "a place equals itself");
	sym_reach("ordered");
}
HARNESS(place_transitive)
{
	Raw a("a"), b("b"), c("c");
	Place p, q, r;
	a.to(p);
	b.to(q);
	c.to(r);
	Proto::Duel::PlaceLess lt;
	bool pq = lt(p, q), qr = lt(q, r);
	if(pq && qr) sym_check(lt(p, r), "the order of places is transitive");
	if(!pq && !qr && !lt(q, p) && !lt(r, q))
		sym_check(!lt(p, r) && !lt(r, p), "equivalence of places is transitive");
	sym_reach("ordered");
}
HARNESS(location_kinds)
{
	uint32_t l = sym_u32("loc");
	Place p;
	p.set_loc(l);
	p.set_con(sym_i32("con"));
	p.set_seq(sym_u32("seq"));
	p.set_oseq(sym_i32("oseq"));
	auto loc = static_cast<Duel::Location>(l);
	bool pile = (l & 0x73u) != 0, zone = (l & 0x70Cu) != 0, none = l == 0;
	sym_check((Duel::is_pile(loc) == pile) & (is_pile(p) == pile), "piles are main deck, hand, graveyard, banished and extra deck");
	sym_check((Duel::is_zone(loc) == zone) & (is_zone(p) == zone), "zones are monster, spell, field, pendulum and skill zones");
	sym_check((Duel::is_empty(loc) == none) & (is_empty(p) == none), "only no location at all is empty");
	sym_check(((uint32_t)get_loc(p) == l) & ((int32_t)get_con(p) == p.con()), "a place's parts keep their values");
	sym_reach("classified");
}
HARNESS(zone_limits)
{
	uint32_t l = sym_u32("loc");
	uint32_t want = l == 4 ? 7 : l == 8 ? 5 : l == 0x100 ? 1 : l == 0x200 ? 2 : l == 0x400 ? 1 : 0;
	if(want == 0) sym_allow_abort(1);
	size_t got = Client::zone_seq_lim(static_cast<Duel::Location>(l));
	sym_check(want != 0, "only zones have a number of places");
	sym_check(got == want, "7 monster, 5 spell, 1 field, 2 pendulum and 1 skill zone per player");
	sym_reach("limited");
}

namespace
{
// Steps on a value with history against the plain list of its values.
template<typename U, typename V, typename Set, typename Same>
void history(U& u, V zero, Set set, Same same)
{
	unsigned n = (unsigned)sym_param("steps", 6);
	std::vector<V> m{zero};
	size_t at = 0;
	if(unsigned before = (unsigned)sym_param("before", 0))
	{
		for(unsigned i = 0; i < before; i++) m.push_back(set(u));
		at = before;
		for(uint64_t b = sym_choice(5, "back") * before / 4; b > 0; b--)
		{
			u.undo();
			at--;
			sym_check(same(u, m[at]), "every earlier value can be gone back to");
		}
	}
	for(unsigned i = 0; i < n; i++)
	{
		switch(sym_choice(2, "step"))
		{
		case 0:
		{
			V v = set(u);
			if(at + 1 == m.size()) m.push_back(v);
			at++;
			break;
		}
		default:
			if(at == 0)
			{
				sym_allow_abort(1);
				u.undo();
				sym_check(0, "undoing past the first value is refused");
				return;
			}
			u.undo();
			at--;
			break;
		}
		sym_check(same(u, m[at]), "the value is the one of this point in history");
	}
	// Every recorded value is still there, in order.
	while(at + 1 < m.size())
	{
		set(u);
		at++;
		sym_check(same(u, m[at]), "going forward replays the recorded values");
	}
	for(; at > 0; at--)
	{
		u.undo();
		sym_check(same(u, m[at - 1]), "every earlier value can be gone back to");
	}
	sym_reach("walked");
}
} // namespace

HARNESS(undoable_value)
{
	Client::BasicUndoable<uint32_t> u;
	sym_check((uint32_t)u == 0, "the first value is zero");
	history(
		u, 0u,
		[](auto& u)
		{
			uint32_t v = sym_u32("v");
			u = v;
			return v;
		},
		[](auto const& u, uint32_t v)
		{
			uint32_t w = sym_u32("w");
			uint32_t const& cur = u;
			return (unsigned)(cur == v) & (unsigned)((u == w) == (v == w));
		});
}
HARNESS(undoable_list)
{
	Client::BasicUndoable<std::vector<uint32_t>> u;
	unsigned turn = 0;
	history(
		u, std::vector<uint32_t>{},
		[&turn](auto& u)
		{
			static const size_t many[] = {0, 40, 1, 17, 60, 2, 300};
			size_t size = sym_param("before", 0) ? many[turn++ % 7] : sym_choice(3, "size");
			std::vector<uint32_t> v(size);
			for(auto& x : v) x = sym_u32("v");
			u.assign(v.begin(), v.end());
			return v;
		},
		[](auto const& u, std::vector<uint32_t> const& v)
		{
			std::vector<uint32_t> const& cur = u;
			if(cur.size() != v.size()) return 0u;
			unsigned ok = 1;
			for(size_t i = 0; i < v.size(); i++) ok &= (unsigned)(cur[i] == v[i]);
			return ok;
		});
}
