// The field: every operation against a plain model.
#include "fcommon.hpp"

// Looking up: card(), has_card(), pile(), zone() address the same cell for
// every place, and no two places share one.
HARNESS(frame_lookup)
{
	{
		Frame f;
		Model m;
		uint32_t next = 0;
		sym_check(same(f, m), "a new frame is empty");
		populate(f, m, P(), T(), next);
		sym_check(same(f, m), "every card is where it was added");
		SP s = sp("place");
		sym_assume(holds(m, s));
		Place p = s.place();
		Frame const& cf = f;
		Card const* c1 = &cf.card(p);
		Card* c2 = &f.card(p);
		bool h = cf.has_card(p);
		At a = s.at();
		sym_check(h, "has_card: a held card is reported");
		sym_check((c1 == c2) & (c1->id == m.ref(a)), "card: the card of that place");
		sym_reach("looked up");
	}
	sym_check(Card::live == 0, "destroying the frame destroys every card");
}

// has_card is false exactly for the places holding none (well-formed ones).
HARNESS(frame_has_card)
{
	Frame f;
	Model m;
	uint32_t next = 0;
	populate(f, m, P(), T(), next);
	SP s = sp("place");
	At a = cell(s);
	if(a.pile()) sym_assume(s.oseq == -1);
	else sym_assume((unsigned)(s.oseq >= -1) & (unsigned)(s.seq < fm::ZLIM[a.li - 5]));
	bool h = f.has_card(s.place());
	sym_check((unsigned)h == fits(m, s, 0, 1), "has_card: true exactly where a card is held");
	sym_check(same(f, m), "has_card: nothing changes");
	sym_reach("asked");
}

HARNESS(frame_add)
{
	{
		Frame f;
		Model m;
		uint32_t next = 0;
		populate(f, m, P(), T(), next);
		SP s = sp("place");
		sym_assume(receives(m, s));
		Card& c = f.card_add(s.place());
		At a = s.at();
		c.id = ++next;
		m.add(a, next);
		sym_check(same(f, m), "add: one new card at that place, the others keep their order");
		sym_reach("added");
	}
	sym_check(Card::live == 0, "destroying the frame destroys every card");
}

HARNESS(frame_remove)
{
	Frame f;
	Model m;
	uint32_t next = 0;
	populate(f, m, P(), T(), next);
	SP s = sp("place");
	sym_assume(holds(m, s));
	f.card_remove(s.place());
	At a = s.at();
	m.take(a);
	sym_check(same(f, m), "remove: that card is destroyed, the others keep their order");
	sym_reach("removed");
}

HARNESS(frame_move)
{
	Frame f;
	Model m;
	uint32_t next = 0;
	populate(f, m, P(), T(), next);
	SP s = sp("from");
	sym_assume((unsigned)(s.con == (int32_t)sym_param("con", 0)));
	sym_assume(holds(m, s));
	At a = s.at();
	// What may receive it once it is taken out.
	Model left(m);
	left.take(a);
	SP t = sp("to");
	sym_assume(receives(left, t));
	// A card that carries materials goes to a zone that has none.
	if(!a.pile() && a.oseq < 0)
	{
		At b = cell(t);
		if(!b.pile())
			for(uint32_t q = 0; q < fm::ZLIM[b.li - 5]; q++)
				if(!left.zone[b.con][fm::ZOFF[b.li - 5] + q].mats.empty())
					sym_assume((unsigned)(t.seq != q) | (unsigned)(t.oseq != -1));
	}
	// It does not become its own material.
	if(!a.pile() && a.oseq < 0)
		sym_assume((unsigned)(t.con != (int32_t)a.con) | (unsigned)(t.loc != a.loc()) | (unsigned)(t.seq != a.seq));
	Card& r = f.card_move(s.place(), t.place());
	At b = t.at();
	uint32_t id = m.ref(a);
	m.move(a, b);
	sym_check(r.id == id, "move: the moved card is returned");
	sym_check(same(f, m), "move: the card moves, its materials follow between zones, the others keep their order");
	sym_reach("moved");
}

HARNESS(frame_swap)
{
	Frame f;
	Model m;
	uint32_t next = 0;
	populate(f, m, P(), T(), next);
	SP s = sp("a");
	sym_assume((unsigned)(s.con == (int32_t)sym_param("con", 0)));
	sym_assume(holds(m, s));
	At a = s.at();
	SP t = sp("b");
	sym_assume(holds(m, t));
	At b = t.at();
	bool az = !a.pile() && a.oseq < 0, bz = !b.pile() && b.oseq < 0;
	// A card with materials is swapped only with another card on the field.
	if(az && b.pile()) sym_assume(m.Z(a).mats.empty());
	if(bz && a.pile()) sym_assume(m.Z(b).mats.empty());
	f.card_swap(s.place(), t.place());
	uint32_t x = m.ref(a), y = m.ref(b);
	m.ref(a) = y;
	m.ref(b) = x;
	if(az && bz) m.Z(a).mats.swap(m.Z(b).mats);
	sym_check(same(f, m), "swap: the two cards trade places (with their materials between zones), nothing else changes");
	sym_reach("swapped");
}

HARNESS(frame_pile_resize)
{
	Frame f;
	Model m;
	uint32_t next = 0;
	populate(f, m, P(), T(), next);
	SP s = sp_pile("pile");
	uint64_t n = sym_u64("count");
	if(P() < BIG) sym_assume(n <= sym_param("max", 5));
	else if(P() < HUGE) sym_assume(sparse(n, 20) | sparse(n, 41) | (unsigned)(n == 75));
	else
	{
		sym_assume(sparse(n, 300) | (unsigned)(n == 600));
		n = sym_concretize(n);
	}
	f.pile_resize(s.place(), n);
	s.seq = 0;
	s.oseq = -1;
	At a = s.at();
	n = sym_concretize(n);
	auto& w = m.P(a);
	auto& p = f.pile(s.place());
	sym_check(p.size() == n, "pile_resize: the pile has that many cards");
	while(w.size() > n) w.pop_back();
	while(w.size() < n)
	{
		Card& c = *p[w.size()];
		sym_check(c.id == 0, "pile_resize: cards put on top are new");
		c.id = ++next;
		w.push_back(next);
	}
	sym_check(same(f, m), "pile_resize: cards appear or disappear at the top only");
	sym_reach("resized");
}

HARNESS(frame_pile_splice)
{
	Frame f;
	Model m;
	uint32_t next = 0;
	populate(f, m, P(), T(), next);
	SP s = sp_pile("from");
	At a = cell(s);
	uint64_t n = sym_u64("count");
	uint64_t z = m.P(a).size();
	sym_assume((unsigned)(s.seq <= z) & (unsigned)(n <= z));
	sym_assume((unsigned)(s.seq + n <= z) & sparse(s.seq, z) & sparse(n, z));
	SP t = sp_pile("to");
	At b = cell(t);
	z = m.P(b).size();
	if(a.con == b.con && a.li == b.li) sym_assume(t.seq <= z - n);
	else sym_assume(t.seq <= z);
	sym_assume(sparse(t.seq, z) | sparse(t.seq, z - n));
	if(P() >= BIG)
	{
		n = sym_concretize(n);
		s.seq = (uint32_t)sym_concretize(s.seq);
		t.seq = (uint32_t)sym_concretize(t.seq);
	}
	bool rev = sym_bool("reverse");
	f.pile_splice(s.place(), n, t.place(), rev);
	a = s.at(), b = t.at();
	n = sym_concretize(n);
	m.splice(a, (uint32_t)n, b, sym_concretize(rev) != 0);
	sym_check(same(f, m), "pile_splice: that slice moves, in order or reversed, the rest keeps its order");
	sym_reach("spliced");
}

// Splices one after the other, among three piles.
HARNESS(frame_splices)
{
	Frame f;
	Model m;
	uint32_t next = 0;
	populate(f, m, P(), T(), next);
	uint32_t base = (uint32_t)sym_param("piles", 0);
	auto spot = [&](uint32_t i)
	{
		uint32_t k = (base + 3 * i) % 10;
		return At{k / 5, k % 5, 0, -1};
	};
	for(unsigned i = 0, n = (unsigned)sym_param("steps", 2); i < n; i++)
	{
		At a = spot((uint32_t)sym_choice(3, "from")), b = spot((uint32_t)sym_choice(3, "to"));
		uint32_t count = (uint32_t)sym_choice(m.P(a).size() + 1, "count");
		a.seq = (uint32_t)sym_choice(m.P(a).size() + 1 - count, "from");
		bool same_pile = a.con == b.con && a.li == b.li;
		b.seq = (uint32_t)sym_choice(m.P(b).size() + 1 - (same_pile ? count : 0), "to");
		bool rev = sym_choice(2, "reverse") != 0;
		f.pile_splice(fm::mk(a.con, a.loc(), a.seq), count, fm::mk(b.con, b.loc(), b.seq), rev);
		m.splice(a, count, b, rev);
		sym_check(same(f, m), "pile_splice: that slice moves, whatever was spliced before");
	}
	sym_reach("spliced");
}

// Every permutation of a row's first zones.
HARNESS(frame_permute)
{
	Frame f;
	Model m;
	uint32_t next = 0, n = (uint32_t)sym_param("n", 5), cur[7];
	unsigned li = n > 5 ? 5 : 5 + (unsigned)sym_choice(2, "loc");
	populate(f, m, P(), T(), next);
	auto Z = [&](Model& x, uint32_t s) -> fm::Zone& { return x.zone[1][fm::ZOFF[li - 5] + s]; };
	for(uint32_t s = 0; s < n; s++)
		if(Z(m, s).card == 0) put(f, m, 1, li, s, -1, next);
	Place pp[7], cp[7];
	Model w(m);
	for(uint32_t i = 0; i < n; i++)
	{
		cur[i] = sym_u32("current");
		sym_assume(cur[i] < n);
		for(uint32_t j = 0; j < i; j++) sym_assume(cur[i] != cur[j]);
		cur[i] = (uint32_t)sym_concretize(cur[i]);
		pp[i] = fm::mk(1, fm::ZONES[li - 5], i);
		cp[i] = fm::mk(1, fm::ZONES[li - 5], cur[i]);
		Z(w, cur[i]) = Z(m, i);
	}
	f.card_shuffle(&pp[0], &cp[0], n);
	sym_check(same(f, w), "shuffle: each card (with its materials) ends at its announced place");
	sym_reach("shuffled");
}

HARNESS(frame_pile_swap)
{
	Frame f;
	Model m;
	uint32_t next = 0;
	populate(f, m, P(), T(), next);
	SP s = sp_pile("a"), t = sp_pile("b");
	f.pile_swap(s.place(), t.place());
	s.seq = t.seq = 0;
	s.oseq = t.oseq = -1;
	At a = s.at(), b = t.at();
	if(a.con != b.con || a.li != b.li) m.P(a).swap(m.P(b));
	sym_check(same(f, m), "pile_swap: the two piles trade contents");
	sym_reach("swapped");
}

HARNESS(frame_clear)
{
	Frame f;
	Model m;
	uint32_t next = 0;
	populate(f, m, P(), T(), next);
	f.clear();
	Model e;
	sym_check(same(f, e), "clear: the field is empty and every card destroyed");
	populate(f, e, P() + 1, T(), next);
	sym_check(same(f, e), "clear: the field can be filled again");
	sym_reach("cleared");
}

// Shuffling set cards: a card whose new place is announced ends there with its
// materials; the others stay within the shuffled places.
HARNESS(frame_shuffle)
{
	Frame f;
	Model m;
	uint32_t next = 0;
	uint32_t con = (uint32_t)sym_choice(2, "con");
	unsigned li = 5 + (unsigned)sym_choice(2, "loc");
	uint32_t lim = fm::ZLIM[li - 5];
	populate(f, m, P(), T(), next);
	auto Z = [&](Model& x, uint32_t s) -> fm::Zone& { return x.zone[con][fm::ZOFF[li - 5] + s]; };
	// Every zone of that row holds a card.
	for(uint32_t s = 0; s < lim; s++)
		if(Z(m, s).card == 0) put(f, m, con, li, s, -1, next);
	uint32_t n = (uint32_t)sym_param("n", 3);
	sym_assume(n <= lim);
	uint32_t prev[7], cur[7];
	bool known[7];
	for(uint32_t i = 0; i < n; i++)
	{
		prev[i] = sym_u32("previous");
		sym_assume(prev[i] < lim);
		if(i) sym_assume(prev[i - 1] < prev[i]);
		prev[i] = (uint32_t)sym_concretize(prev[i]);
	}
	bool all = sym_choice(2, "all") != 0, every = true;
	for(uint32_t i = 0; i < n; i++)
	{
		known[i] = all || sym_choice(2, "known") != 0;
		every &= known[i];
		if(!known[i]) continue;
		cur[i] = sym_u32("current");
		unsigned in = 0;
		for(uint32_t j = 0; j < n; j++) in |= (unsigned)(cur[i] == prev[j]);
		sym_assume(in);
		for(uint32_t j = 0; j < i; j++)
			if(known[j]) sym_assume(cur[i] != cur[j]);
		cur[i] = (uint32_t)sym_concretize(cur[i]);
	}
	Place pp[7], cp[7];
	for(uint32_t i = 0; i < n; i++)
	{
		pp[i] = fm::mk(con, fm::ZONES[li - 5], prev[i]);
		if(known[i]) cp[i] = fm::mk(con, fm::ZONES[li - 5], cur[i]);
	}
	f.card_shuffle(&pp[0], &cp[0], n);
	Model w(m);
	uint32_t used = 0, placed = 0;
	for(uint32_t i = 0; i < n; i++)
		if(known[i])
		{
			Z(w, cur[i]) = Z(m, prev[i]);
			used |= 1u << cur[i];
			placed |= 1u << i;
		}
	// The unannounced ones: wherever they are, among the places left.
	for(uint32_t i = 0; i < n; i++)
	{
		if(used >> prev[i] & 1) continue;
		auto const& z = f.zone((Duel::Controller)con, (Duel::Location)fm::ZONES[li - 5], prev[i]);
		sym_check(z.card != nullptr, "shuffle: no place is left empty");
		for(uint32_t j = 0; j < n; j++)
			if(!(placed >> j & 1) && Z(m, prev[j]).card == z.card->id)
			{
				Z(w, prev[i]) = Z(m, prev[j]);
				placed |= 1u << j;
				break;
			}
	}
	sym_check(placed == (1u << n) - 1, "shuffle: every shuffled card is still there");
	sym_reach(every ? "shuffled" : "partly announced");
	sym_check(same(f, w), "shuffle: each card (with its materials) ends at its announced place");
}
