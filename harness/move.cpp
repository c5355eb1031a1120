// The core messages that need the context: moves (with Xyz materials), the
// messages rewritten as pile splices, and the match kill.
#include "wire.hpp"

#include <ygopen/duel/constants/reason.hpp>

using namespace wire;
using State = EncodeOneResult::State;

static bool pile(uint32_t loc) { return (loc & 0x73U) != 0; }
static bool zone(uint32_t loc) { return (loc & 0x30CU) != 0; }

static Place place(const char* nm, int32_t oseq)
{
	Place p;
	p.set_con((int32_t)sym_bits(1, nm));
	p.set_loc(1U << sym_bits(3, nm));
	p.set_seq(sym_u32(nm));
	p.set_oseq(oseq);
	return p;
}

HARNESS(enc_move)
{
	W w; Msg m;
	w.u8(50);
	code(w);
	bool big = sym_param("big", 0);
	uint32_t nd = count("deferred");
	Info prev = info(w, nd > 1 ? PLAIN : FULL), curr = info(w);
	// Several deferred attachments only matter for a move to the field.
	if(nd > 1) sym_assume(zone(curr.loc) & (curr.oseq < 0));
	if(big) sym_assume((prev.con == 1U) & (prev.loc == 2U) & (prev.seq != 0U) & (curr.loc != 8U));
	sym_assume(prev.loc != 0U || prev.oseq < 0);
	sym_assume(curr.loc != 0U || curr.oseq < 0);
	uint32_t reason = sym_u32("reason");
	w.u32(reason);
	Ctx ctx;
	ctx.mats = sym_bool("has_mats");
	ctx.left = place("left", -1);
	std::vector<Place> deferred;
	for(uint32_t i = 0; i < nd; i++)
	{
		Place p;
		if(big && i != nd - 2)
		{
			static const uint32_t from[] = {0x01, 0x02, 0x10, 0x20, 0x40};
			p.set_con((int32_t)(i & 1U));
			p.set_loc(from[i % 5]);
			// (Copying places forks on each part being 0.)
			p.set_seq(sym_u32("deferred_seq") | 1U);
			p.set_oseq((int32_t)((uint32_t)sym_bits(31, "deferred_oseq") | 1U));
		}
		else
		{
			p = place("deferred_place", 0);
			p.set_oseq((int32_t)sym_u32("deferred_oseq"));
		}
		deferred.push_back(p);
	}
	ctx.deferred = deferred;
	Place P, C;
	prev.to(P);
	curr.to(C);
	bool pm = prev.oseq >= 0, cm = curr.oseq >= 0;
	auto* card = m.mutable_event()->mutable_card();
	card->set_reason(reason);
	auto move = [&](Place const& a, Place const& b)
	{
		auto* op = card->mutable_move()->add_ops();
		*op->mutable_old_place() = a;
		*op->mutable_new_place() = b;
	};
	enum { NONE, DEFER, TAKE, LEFT_NOWHERE, LEFT_TO } calls = NONE;
	bool swallowed = false, asks_left = false, free_left = false;
	if(prev.loc == 0 && curr.loc == 0)
	{
		swallowed = true;
		sym_reach("limbo to limbo");
	}
	else if(prev.loc == 0)
	{
		*card->mutable_add()->add_places() = C;
		sym_reach("added");
	}
	else if(curr.loc == 0)
	{
		*card->mutable_remove()->add_places() = P;
		if(zone(prev.loc) && pm) free_left = true;
		else if(zone(prev.loc) && ctx.mats) calls = LEFT_NOWHERE;
		sym_reach("removed");
	}
	else if(cm && pile(curr.loc))
	{
		swallowed = true;
		calls = DEFER;
		sym_reach("attached off the field");
	}
	else if(!cm && zone(curr.loc))
	{
		calls = TAKE;
		for(uint32_t i = 0; i < nd; i++)
		{
			Place to = C;
			to.set_oseq((int32_t)i);
			// In its own zone a material comes after those already attached.
			Place from = deferred[i];
			if(from.oseq() >= 0 && from.con() == to.con() && from.loc() == to.loc() && from.seq() == to.seq())
			{
				sym_assume(from.oseq() < INT32_MAX - (int32_t)i);
				from.set_oseq(from.oseq() + (int32_t)i);
			}
			if(eqp(from, to)) continue;
			move(from, to);
		}
		move(P, C);
		sym_reach("to the field");
	}
	else if(pm && pile(prev.loc))
	{
		Place from = ctx.left;
		from.set_oseq(prev.oseq);
		move(from, C);
		asks_left = true;
		sym_reach("detached off the field");
	}
	else
	{
		move(P, C);
		if(zone(prev.loc) && pm) free_left = true;
		else if(zone(prev.loc) && pile(curr.loc) && ctx.mats) calls = LEFT_TO;
		sym_reach("plain move");
	}
	decide(w, ctx, swallowed ? State::SWALLOWED : State::OK, swallowed ? nullptr : &m);
	if(framing()) return;
	for(auto const& p : ctx.asked_mat)
	{
		sym_check(zone(p.loc()), "materials are only asked of zones");
		sym_check(p.con() == P.con() && p.loc() == P.loc() && p.seq() == P.seq(),
		          "materials are asked of the place the card comes from");
	}
	if(asks_left) sym_check(!ctx.asked_left.empty(), "the place the Xyz card left is looked up");
	for(auto const& p : ctx.asked_left)
	{
		Place q = P;
		q.set_oseq(-1);
		sym_check(eqp(p, q), "the Xyz card is looked up at the place its material comes from");
	}
	switch(calls)
	{
	case NONE:
		if(!free_left) sym_check(ctx.calls.empty(), "this move leaves the context alone");
		break;
	case DEFER:
		sym_check(ctx.calls.size() == 1 && ctx.calls[0].op == Ctx::DEFER && eqp(ctx.calls[0].a, P),
		          "the attachment is deferred");
		break;
	case TAKE:
		sym_check(ctx.calls.size() == 1 && ctx.calls[0].op == Ctx::TAKE,
		          "deferred attachments are taken once");
		break;
	case LEFT_NOWHERE:
		sym_check(ctx.calls.size() == 1 && ctx.calls[0].op == Ctx::LEFT && eqp(ctx.calls[0].a, P) &&
		              eqp(ctx.calls[0].b, Place{}),
		          "a removed card with materials is remembered");
		break;
	case LEFT_TO:
		sym_check(ctx.calls.size() == 1 && ctx.calls[0].op == Ctx::LEFT && eqp(ctx.calls[0].a, C) &&
		              eqp(ctx.calls[0].b, P),
		          "a card with materials that left the field is remembered");
		break;
	}
}

HARNESS(enc_match_kill)
{
	W w;
	w.u8(170);
	uint32_t v = sym_u32("reason");
	w.u32(v);
	Ctx ctx;
	decide(w, ctx, State::SWALLOWED, nullptr);
	sym_check(ctx.calls.size() == 1 && ctx.calls[0].op == Ctx::REASON && ctx.calls[0].v == v,
	          "the match win reason is remembered");
}

static void sizes(Ctx& ctx)
{
	for(auto& a : ctx.size)
		for(unsigned i = 0; i < 5; i++)
			a[i] = sym_u32("pile_size");
}
static void set(Place& p, uint32_t c, uint32_t loc, uint32_t seq)
{
	p.set_con((int32_t)c);
	p.set_loc(loc);
	p.set_seq(seq);
	p.set_oseq(-1);
}

HARNESS(enc_deck_top)
{
	W w; Msg m;
	w.u8(38);
	Ctx ctx;
	sizes(ctx);
	uint8_t c = con(w);
	uint32_t s = sym_u32("seq");
	uint32_t size = ctx.get(c, 0x01);
	sym_assume(s < size);
	w.u32(s);
	w.junk(8);
	set(*m.mutable_event()->mutable_meta()->mutable_update()->add_places(), c, 0x01, size - 1 - s);
	decide(w, ctx, State::OK, &m);
	untouched(ctx);
}

HARNESS(enc_draw)
{
	W w; Msg m;
	w.u8(90);
	Ctx ctx;
	sizes(ctx);
	uint8_t c = con(w);
	uint32_t n = count("count");
	w.u32(n);
	for(uint32_t i = 0; i < n; i++) w.junk(8);
	uint32_t deck = ctx.get(c, 0x01), hand = ctx.get(c, 0x02);
	sym_assume(n <= deck);
	auto* p = m.mutable_event()->mutable_pile();
	p->set_reason(0x2000000);
	auto* op = p->mutable_splice()->add_ops();
	set(*op->mutable_from(), c, 0x01, deck - n);
	op->set_count(n);
	set(*op->mutable_to(), c, 0x02, hand);
	op->set_reverse(true);
	decide(w, ctx, State::OK, &m);
	untouched(ctx);
}

HARNESS(enc_reverse_deck)
{
	W w; Msg m;
	w.u8(37);
	Ctx ctx;
	sizes(ctx);
	auto* p = m.mutable_event()->mutable_pile();
	p->set_reason(0x40);
	for(uint32_t c = 0; c < 2; c++)
	{
		auto* op = p->mutable_splice()->add_ops();
		set(*op->mutable_from(), c, 0x01, 0);
		op->set_count(ctx.get(c, 0x01));
		set(*op->mutable_to(), c, 0x01, 0);
		op->set_reverse(true);
	}
	decide(w, ctx, State::OK, &m);
	untouched(ctx);
}

// What the splices do to the three piles, card by card.
HARNESS(enc_swap_grave_deck)
{
	W w;
	w.u8(35);
	bool big = sym_param("big", 0);
	uint32_t G = (uint32_t)sym_param("gy", 3), lo = (uint32_t)sym_param("gylo", 0);
	uint32_t c = con(w);
	uint32_t gy = lo + (uint32_t)sym_choice(G + 1 - lo, "gy");
	uint32_t deck = (uint32_t)sym_choice(3, "deck") * (big ? 20 : 1);
	uint32_t extra = (uint32_t)sym_choice(3, "extra") * (big ? 8 : 1);
	uint32_t at = big ? (uint32_t)sym_choice(3, "insert") * extra / 2 : (uint32_t)sym_choice(extra + 1, "insert");
	w.u32(at);
	uint32_t bytes = (gy + 7) / 8;
	w.u32(bytes);
	uint64_t bits = 0;
	// Many cards: 4 neighbours are free, the others all alike.
	uint32_t window = big ? (uint32_t)sym_choice((gy + 3) / 4, "window") * 4 : 0;
	if(big && sym_choice(2, "others")) bits = ~0ULL;
	if(big) bits = (bits & ~(0xFULL << window)) | ((uint64_t)sym_bits(4, "bits") << window);
	for(uint32_t i = 0; i < bytes; i++)
	{
		if(!big) bits |= (uint64_t)sym_u8("bits") << (8 * i);
		w.u8((uint8_t)(bits >> (8 * i)));
	}
	Ctx ctx;
	for(auto& a : ctx.size)
	{
		a[0] = deck;
		a[2] = gy;
		a[4] = extra;
	}
	google::protobuf::Arena arena;
	uint8_t* data = w.exact();
	auto r = Codec::Edo9300::OCGCore::encode_one(arena, ctx, data);
	sym_check(r.state == State::OK && r.msg != nullptr, "the message is encoded");
	sym_check(r.bytes_read == w.n, "exactly the bytes of the message are consumed");
	untouched(ctx);
	if(framing()) { sym_reach("framed"); return; }
	sym_check(r.msg->t_case() == Msg::kEvent && r.msg->event().t_case() == Msg::Event::kPile &&
	              (r.msg->event().pile().t_case() == Msg::Event::Pile::kSplice),
	          "the swap is expressed as splices");
	// Cards: deck 1.., graveyard 101.., extra 201..
	std::vector<uint32_t> D, Y, X;
	for(uint32_t i = 0; i < deck; i++) D.push_back(1 + i);
	for(uint32_t i = 0; i < gy; i++) Y.push_back(101 + i);
	for(uint32_t i = 0; i < extra; i++) X.push_back(201 + i);
	std::vector<uint32_t> wd, wx(X);
	std::vector<uint32_t> wy(D);
	uint32_t ins = at;
	for(uint32_t i = 0; i < gy; i++)
	{
		if((bits >> i) & 1U) wx.insert(wx.begin() + ins++, 101 + i);
		else wd.push_back(101 + i);
	}
	for(auto const& op : r.msg->event().pile().splice().ops())
	{
		auto get = [&](Place const& p) -> std::vector<uint32_t>*
		{
			return p.loc() == 0x01 ? &D : p.loc() == 0x10 ? &Y : p.loc() == 0x40 ? &X : nullptr;
		};
		auto *a = get(op.from()), *b = get(op.to());
		sym_check(a != nullptr && b != nullptr && op.from().con() == (int)c && op.to().con() == (int)c,
		          "only the player's deck, graveyard and extra deck are spliced");
		sym_check((uint64_t)op.from().seq() + op.count() <= a->size(), "spliced cards exist");
		std::vector<uint32_t> t(a->begin() + op.from().seq(), a->begin() + op.from().seq() + op.count());
		a->erase(a->begin() + op.from().seq(), a->begin() + op.from().seq() + op.count());
		sym_check(op.to().seq() <= b->size(), "cards are spliced inside the destination");
		if(op.reverse()) b->insert(b->begin() + op.to().seq(), t.rbegin(), t.rend());
		else b->insert(b->begin() + op.to().seq(), t.begin(), t.end());
	}
	sym_check(D == wd, "the old graveyard, less the extra deck cards, is the new deck in order");
	sym_check(Y == wy, "the old deck is the new graveyard in order");
	sym_check(X == wx, "extra deck cards go below the face-up pendulums in order");
	sym_reach("compared");
}
