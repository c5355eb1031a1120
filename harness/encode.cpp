// Core message -> protobuf message: framing (what=1) and content (what=2).
#include "wire.hpp"

#include <ygopen/duel/constants/reason.hpp>

using namespace wire;
using State = EncodeOneResult::State;
namespace PD = YGOpen::Proto::Duel;

// ---------------------------------------------------------------- events
static void card_list(uint8_t id, unsigned locw)
{
	W w; Msg m;
	w.u8(id);
	auto* c = m.mutable_event()->mutable_meta()->mutable_confirm();
	con(w);
	List l;
	w.u32(l.n);
	for(uint32_t i = 0; i < l.n; i++)
	{
		code(w);
		info(w, l.kind(i), 4, 0, locw).to(*c->add_places());
	}
	decide_ok(w, m);
}

HARNESS(enc_confirm)
{
	static const uint8_t ids[] = {30, 31, 42};
	card_list(ids[sym_choice(3, "id")], 1);
}

HARNESS(enc_shuffle)
{
	W w; Msg m;
	switch(sym_choice(4, "id"))
	{
	case 0:
	{
		w.u8(32);
		auto* p = m.mutable_event()->mutable_meta()->mutable_shuffle_pile()->add_places();
		p->set_con(con(w));
		p->set_loc(0x01);
		break;
	}
	case 1:
	case 2:
	{
		bool hand = sym_choice(2, "hand");
		w.u8(hand ? 33 : 39);
		auto* p = m.mutable_event()->mutable_meta()->mutable_shuffle_pile()->add_places();
		p->set_con(con(w));
		p->set_loc(hand ? 0x02 : 0x40);
		List l;
		w.u32(l.n);
		for(uint32_t i = 0; i < l.n; i++) code(w);
		break;
	}
	default:
	{
		w.u8(36);
		auto* s = m.mutable_event()->mutable_card()->mutable_shuffle();
		w.junk(1);
		List l("count", 0, BYTE);
		w.u8((uint8_t)l.n);
		for(uint32_t i = 0; i < l.n; i++) info(w, l.kind(i)).to(*s->add_previous_places());
		for(uint32_t i = 0; i < l.n; i++) info(w, l.kind(i)).to(*s->add_current_places());
		break;
	}
	}
	decide_ok(w, m);
}

HARNESS(enc_turn)
{
	W w; Msg m;
	auto* e = m.mutable_event();
	switch(sym_choice(6, "id"))
	{
	case 0:
		w.u8(40);
		e->set_next_turn(con(w));
		break;
	case 1:
	{
		w.u8(41);
		uint16_t p = sym_u16("phase");
		w.u16(p);
		e->set_next_phase(p);
		break;
	}
	case 2:
	{
		static const uint8_t ids[] = {71, 72, 75, 76};
		static const PD::ChainStatus st[] = {PD::CHAIN_STATUS_CHAINED, PD::CHAIN_STATUS_SOLVING,
		                                     PD::CHAIN_STATUS_ACT_NEGATED, PD::CHAIN_STATUS_EFF_NEGATED};
		auto i = sym_choice(4, "status");
		w.u8(ids[i]);
		w.junk(1);
		e->mutable_meta()->set_chain_status(st[i]);
		break;
	}
	case 3:
		w.u8(73);
		w.junk(1);
		e->mutable_chain_stack()->set_pop(true);
		break;
	case 4:
	{
		auto i = sym_choice(4, "lp");
		static const uint8_t ids[] = {91, 92, 94, 100};
		w.u8(ids[i]);
		auto* lp = e->mutable_lp();
		lp->set_controller(con(w));
		uint32_t v = sym_u32("amount");
		w.u32(v);
		if(i == 0) lp->set_damage(v);
		else if(i == 1) lp->set_recover(v);
		else if(i == 2) lp->set_become(v);
		else lp->set_pay(v);
		break;
	}
	default:
	{
		w.u8(165);
		auto* d = e->mutable_meta()->mutable_description();
		d->set_con(con(w));
		bool add = sym_choice(2, "add");
		w.u8(add ? 1 : 2);
		effect(w, add ? *d->mutable_add() : *d->mutable_remove());
		break;
	}
	}
	decide_ok(w, m);
}

HARNESS(enc_update_places)
{
	W w; Msg m;
	auto* u = m.mutable_event()->mutable_meta()->mutable_update();
	auto* p = u->add_places();
	switch(sym_choice(5, "id"))
	{
	case 0: // POS_CHANGE
		w.u8(53);
		code(w);
		info(w, FULL, 1, 0).to(*p);
		w.junk(2);
		break;
	case 1: // SET
		w.u8(54);
		code(w);
		info(w, FULL, 4, 0).to(*p);
		w.junk(4);
		break;
	case 2: // SUMMONING, SPSUMMONING, FLIPSUMMONING
	{
		static const uint8_t ids[] = {60, 62, 64};
		static const uint64_t rs[] = {0x10, 0x800, 0x2000};
		auto i = sym_choice(3, "summon");
		w.u8(ids[i]);
		code(w);
		info(w).to(*p);
		u->set_reason(rs[i]);
		break;
	}
	case 3: // ADD_COUNTER
		w.u8(101);
		w.junk(2);
		info(w, FULL, 1, 0).to(*p);
		w.junk(2);
		break;
	default: // REMOVE_COUNTER
		w.u8(102);
		w.junk(2);
		info(w, FULL, 1, 0).to(*p);
		w.junk(2);
		break;
	}
	decide_ok(w, m);
}

HARNESS(enc_swap)
{
	W w; Msg m;
	auto* op = m.mutable_event()->mutable_card()->mutable_exchange()->add_ops();
	w.u8(55);
	code(w);
	info(w).to(*op->mutable_place_a());
	code(w);
	info(w).to(*op->mutable_place_b());
	decide_ok(w, m);
}

// Zone bits: per half 7 monster zones, an unused bit, 5 spell zones, the
// field zone and 2 pendulum zones; bits as wanted list the zone. The low half is
// `first`'s. `free_from`..: which 8 bits are symbolic (the rest are concrete).
template<typename Add>
static void zones(W& w, uint32_t first, bool want, Add add)
{
	uint32_t win = (uint32_t)sym_choice(4, "window") * 8;
	uint32_t rest = sym_choice(2, "rest") ? 0xFFFFFFFFU : 0;
	uint32_t bits = (rest & ~(0xFFU << win)) | ((uint32_t)sym_u8("zones") << win);
	w.u32(bits);
	for(unsigned half = 0; half < 2; half++)
	{
		uint32_t c = half == 0 ? first : 1U - first;
		for(unsigned i = 0; i < 16; i++)
		{
			if(i == 7) continue;
			if((((bits >> (half * 16 + i)) & 1U) != 0) != want) continue;
			Place* p = add();
			p->set_con((int32_t)c);
			p->set_loc(i < 7 ? 0x4U : i < 13 ? 0x8U : i == 13 ? 0x100U : 0x200U);
			p->set_seq(i < 7 ? i : i < 13 ? i - 8 : i == 13 ? 0U : i - 14);
			p->set_oseq(-1);
		}
	}
}

HARNESS(enc_field_disabled)
{
	W w; Msg m;
	w.u8(56);
	auto* z = m.mutable_event()->mutable_zone_block();
	zones(w, 0, true, [&] { return z->add_zones(); });
	decide_ok(w, m);
}

HARNESS(enc_chain)
{
	W w; Msg m;
	w.u8(70);
	auto* c = m.mutable_event()->mutable_chain_stack()->mutable_push();
	code(w);
	info(w).to(*c->mutable_card_place());
	info(w, FULL, 4, 0).to(*c->mutable_place());
	effect(w, *c->mutable_effect());
	w.junk(4);
	decide_ok(w, m);
}

HARNESS(enc_select_events)
{
	W w; Msg m;
	auto* s = m.mutable_event()->mutable_meta()->mutable_selection();
	switch(sym_choice(3, "id"))
	{
	case 0:
	case 1:
	{
		static const uint8_t ids[] = {81, 80, 83};
		auto i = sym_choice(3, "which");
		w.u8(ids[i]);
		if(i == 0) w.junk(1);
		List l;
		w.u32(l.n);
		for(uint32_t k = 0; k < l.n; k++) info(w, l.kind(k)).to(*s->add_selected_places());
		break;
	}
	default:
		w.u8(sym_choice(2, "cancel") ? 97 : 96);
		info(w).to(*s->mutable_selector());
		info(w).to(*s->add_selected_places());
		break;
	}
	decide_ok(w, m);
}

HARNESS(enc_attack)
{
	W w; Msg m;
	w.u8(110);
	auto* a = m.mutable_event()->mutable_meta()->mutable_attack();
	info(w).to(*a->mutable_attacker());
	Info t = info(w);
	if(t.loc != 0) t.to(*a->mutable_attack_target());
	decide_ok(w, m);
}

HARNESS(enc_results)
{
	W w; Msg m;
	auto* r = m.mutable_event()->mutable_result();
	switch(sym_choice(3, "id"))
	{
	case 0:
	{
		w.u8(130);
		auto* c = r->mutable_coin();
		c->set_actor(con(w));
		List l("count", 0, BYTE);
		w.u8((uint8_t)l.n);
		for(uint32_t i = 0; i < l.n; i++)
		{
			uint8_t v = (uint8_t)sym_bits(1, "coin");
			w.u8(v);
			c->add_values(v != 0);
		}
		break;
	}
	case 1:
	{
		w.u8(131);
		auto* d = r->mutable_dice();
		d->set_actor(con(w));
		List l("count", 0, BYTE);
		w.u8((uint8_t)l.n);
		for(uint32_t i = 0; i < l.n; i++)
		{
			uint8_t v = sym_u8("die");
			w.u8(v);
			d->add_values(v);
		}
		break;
	}
	default:
	{
		w.u8(133);
		auto* h = r->mutable_rps();
		uint8_t a = (uint8_t)sym_bits(2, "hand0"), b = (uint8_t)sym_bits(2, "hand1");
		w.u8((uint8_t)(a | (b << 2)));
		h->add_values(a);
		h->add_values(b);
		break;
	}
	}
	decide_ok(w, m);
}

static void add_pile(Msg::Event::Pile::Resize& r, uint32_t c, uint32_t loc, uint32_t n)
{
	auto* op = r.add_ops();
	auto* p = op->mutable_place();
	p->set_con((int32_t)c);
	p->set_loc(loc);
	p->set_seq(0);
	p->set_oseq(-1);
	op->set_count(n);
}

HARNESS(enc_start)
{
	W w; Msg m;
	w.u8(4);
	w.junk(1);
	auto* s = m.mutable_event()->mutable_board()->mutable_state();
	s->set_turn_counter(0);
	for(int i = 0; i < 2; i++)
	{
		uint32_t lp = sym_u32("lp");
		w.u32(lp);
		s->add_lps(lp);
	}
	for(uint32_t i = 0; i < 2; i++)
	{
		uint16_t a = sym_u16("main"), b = sym_u16("extra");
		w.u16(a);
		w.u16(b);
		add_pile(*s->mutable_resize(), i, 0x01, a);
		add_pile(*s->mutable_resize(), i, 0x40, b);
	}
	decide_ok(w, m);
}

HARNESS(enc_tag_swap)
{
	W w; Msg m;
	w.u8(161);
	auto* x = m.mutable_event()->mutable_board()->mutable_exchange();
	uint8_t c = con(w);
	x->set_con(c);
	uint32_t main = sym_u32("main");
	uint32_t extra = count("extra");
	uint32_t hand = count("hand");
	w.u32(main);
	w.u32(extra);
	w.junk(4);
	w.u32(hand);
	w.junk(4);
	for(uint32_t i = 0; i < extra + hand; i++) w.junk(8);
	add_pile(*x->mutable_resize(), c, 0x01, main);
	add_pile(*x->mutable_resize(), c, 0x40, extra);
	add_pile(*x->mutable_resize(), c, 0x02, hand);
	decide_ok(w, m);
}

// Which zones are occupied: any one window of three neighbours is free, the
// rest all empty or all occupied; `mats` materials on one of them.
HARNESS(enc_reload)
{
	W w; Msg m;
	w.u8(162);
	auto* s = m.mutable_event()->mutable_board()->mutable_state();
	uint32_t flags = sym_u32("flags");
	w.u32(flags);
	auto* sh = s->mutable_shape();
	sh->set_three_columns((flags & 0x400000U) != 0);
	sh->set_has_pzones((flags & 0x800U) != 0);
	sh->set_has_separate_pzones((flags & 0x1000U) != 0);
	sh->set_has_emzones((flags & 0x2000U) != 0);
	s->set_turn_counter(-1);
	bool big = sym_param("big", 0);
	uint32_t at = big ? (uint32_t)sym_choice(3, "zone") * 29 / 2 : (uint32_t)sym_choice(30, "zone");
	bool others = sym_choice(2, "others");
	uint32_t mats = count("mats");
	for(uint32_t c = 0; c < 2; c++)
	{
		uint32_t lp = sym_u32("lp");
		w.u32(lp);
		s->add_lps(lp);
		for(uint32_t z = 0; z < 15; z++)
		{
			bool me = c * 15 + z == at;
			bool here = me ? true : others;
			w.u8(here ? 1 : 0);
			if(!here) continue;
			w.junk(1);
			uint32_t nm = me ? mats : 0;
			w.u32(nm);
			uint32_t loc = z < 7 ? 0x4U : z < 12 ? 0x8U : z == 12 ? 0x100U : 0x200U;
			uint32_t seq = z < 7 ? z : z < 12 ? z - 7 : z == 12 ? 0U : z - 13;
			for(int32_t o = -1; o < (int32_t)nm; o++)
			{
				auto* p = s->mutable_add()->add_places();
				p->set_con((int32_t)c);
				p->set_loc(loc);
				p->set_seq(seq);
				p->set_oseq(o);
			}
		}
		static const uint32_t locs[] = {0x01, 0x02, 0x10, 0x20, 0x40};
		for(uint32_t loc : locs)
		{
			uint32_t n = sym_u32("pile");
			w.u32(n);
			add_pile(*s->mutable_resize(), c, loc, n);
		}
		w.junk(4);
	}
	List l("chains");
	w.u32(l.n);
	for(uint32_t i = 0; i < l.n; i++)
	{
		auto* ch = s->add_chains();
		code(w);
		info(w, l.kind(i)).to(*ch->mutable_card_place());
		info(w, PLAIN, 4, 0).to(*ch->mutable_place());
		effect(w, *ch->mutable_effect());
	}
	decide_ok(w, m);
}

HARNESS(enc_win)
{
	W w; Msg m;
	w.u8(5);
	uint8_t winner = (uint8_t)sym_bits(2, "winner");
	sym_assume(winner <= 2);
	uint8_t why = sym_u8("why");
	w.u8(winner);
	w.u8(why);
	auto* f = m.mutable_event()->mutable_finish();
	f->set_win_reason(why);
	Ctx ctx;
	ctx.reason = sym_u32("match_reason");
	f->set_match_win_reason(ctx.reason);
	if(winner == 2) f->set_draw(true);
	else f->set_winner(winner);
	decide(w, ctx, State::OK, &m);
	untouched(ctx);
}

// ---------------------------------------------------------------- requests
static Msg::Request& request(W& w, Msg& m, uint8_t id)
{
	w.u8(id);
	auto* r = m.mutable_request();
	r->set_replier(con(w));
	return *r;
}
static bool flag(W& w)
{
	uint8_t v = (uint8_t)sym_bits(1, "flag");
	w.u8(v);
	return v != 0;
}
static uint32_t num(W& w)
{
	uint32_t v = sym_u32("num");
	w.u32(v);
	return v;
}

HARNESS(enc_req_simple)
{
	W w; Msg m;
	switch(sym_choice(8, "id"))
	{
	case 0: // ANNOUNCE_ATTRIB
	{
		auto* s = request(w, m, 141).mutable_select_attribute();
		uint8_t c = sym_u8("count");
		w.u8(c);
		s->set_count(c);
		s->set_attribute(num(w));
		break;
	}
	case 1: // ANNOUNCE_RACE
	{
		auto* s = request(w, m, 140).mutable_select_race();
		uint8_t c = sym_u8("count");
		w.u8(c);
		s->set_count(c);
		uint64_t r = sym_u64("race");
		w.u64(r);
		s->set_race(r);
		break;
	}
	case 2: // ANNOUNCE_NUMBER
	{
		auto* s = request(w, m, 143).mutable_select_number();
		s->set_count(1);
		List l("count", 0, BYTE);
		w.u8((uint8_t)l.n);
		for(uint32_t i = 0; i < l.n; i++)
		{
			uint64_t v = sym_u64("number");
			w.u64(v);
			s->add_numbers(v);
		}
		break;
	}
	case 3: // SELECT_OPTION
	{
		auto* s = request(w, m, 14).mutable_select_effect();
		s->set_count(1);
		List l("count", 0, BYTE);
		w.u8((uint8_t)l.n);
		for(uint32_t i = 0; i < l.n; i++) effect(w, *s->add_effects());
		break;
	}
	case 4: // SELECT_POSITION
	{
		auto* s = request(w, m, 19).mutable_select_position();
		s->set_count(1);
		s->set_code(code(w));
		uint8_t p = sym_u8("pos");
		w.u8(p);
		s->set_position(p);
		break;
	}
	case 5: // ROCK_PAPER_SCISSORS
		request(w, m, 132).set_select_rock_paper_scissors(true);
		break;
	case 6: // SELECT_EFFECTYN
	{
		auto* s = request(w, m, 12).mutable_select_yes_no();
		s->set_code(code(w));
		info(w).to(*s->mutable_place());
		effect(w, *s->mutable_effect());
		break;
	}
	default: // SELECT_YESNO
		effect(w, *request(w, m, 13).mutable_select_yes_no()->mutable_effect());
		break;
	}
	decide_ok(w, m);
}

HARNESS(enc_req_card)
{
	W w; Msg m;
	switch(sym_choice(3, "id"))
	{
	case 0: // SELECT_CARD
	{
		auto* s = request(w, m, 15).mutable_select_card();
		bool cancel = flag(w);
		uint32_t lo = num(w), hi = num(w);
		List l("count", 1);
		w.u32(l.n);
		if(sym_choice(2, "limbo"))
		{
			auto* x = s->mutable_limbo();
			x->set_can_cancel(cancel);
			x->set_min(lo);
			x->set_max(hi);
			for(uint32_t i = 0; i < l.n; i++)
			{
				x->add_card_codes(code(w));
				w.junk(1);
				w.u8(0);
				w.junk(8);
			}
		}
		else
		{
			auto* x = s->mutable_unique_range();
			x->set_can_cancel(cancel);
			x->set_min(lo);
			x->set_max(hi);
			for(uint32_t i = 0; i < l.n; i++)
			{
				auto* c = x->add_cards();
				c->set_code(code(w));
				Info p = info(w, l.kind(i));
				if(i == 0) sym_assume(p.loc != 0);
				p.to(*c->mutable_place());
			}
		}
		break;
	}
	case 1: // SELECT_UNSELECT_CARD
	{
		auto* x = request(w, m, 26).mutable_select_card()->mutable_recursive();
		x->set_can_finish(flag(w));
		x->set_accept(flag(w));
		x->set_min(num(w));
		x->set_max(num(w));
		List a("selectable");
		w.u32(a.n);
		for(uint32_t i = 0; i < a.n; i++)
		{
			auto* c = x->add_selectable_cards();
			c->set_code(code(w));
			info(w, a.kind(i)).to(*c->mutable_place());
		}
		uint32_t b = count("deselectable");
		w.u32(b);
		for(uint32_t i = 0; i < b; i++)
		{
			auto* c = x->add_deselectable_cards();
			c->set_code(code(w));
			info(w, PLAIN).to(*c->mutable_place());
		}
		break;
	}
	default: // SELECT_TRIBUTE
	{
		auto* x = request(w, m, 20).mutable_select_card()->mutable_unique_tributes();
		x->set_can_cancel(flag(w));
		x->set_tribute_min(num(w));
		x->set_tribute_max(num(w));
		List l;
		w.u32(l.n);
		for(uint32_t i = 0; i < l.n; i++)
		{
			auto* c = x->add_cards();
			c->set_code(code(w));
			info(w, l.kind(i), 4, 0).to(*c->mutable_place());
			uint8_t v = sym_u8("count_as");
			w.u8(v);
			c->set_count_as(v);
		}
		break;
	}
	}
	decide_ok(w, m);
}

template<typename Add>
static void act_list(W& w, bool with_pos, Kind k, uint32_t n, Add add)
{
	w.u32(n);
	for(uint32_t i = 0; i < n; i++)
	{
		auto* c = add();
		code(w);
		info(w, i == 0 ? k : PLAIN, 4, with_pos ? 4 : 0).to(*c->mutable_place());
		effect(w, *c->mutable_effect());
		w.junk(1);
	}
}
template<typename Add>
static void place_list(W& w, unsigned seqw, Kind k, uint32_t n, Add add)
{
	w.u32(n);
	for(uint32_t i = 0; i < n; i++)
	{
		code(w);
		info(w, i == 0 ? k : PLAIN, seqw, 0).to(*add());
	}
}

HARNESS(enc_req_idle)
{
	W w; Msg m;
	bool battle = sym_choice(2, "battle");
	auto* s = request(w, m, battle ? 10 : 11).mutable_select_idle();
	s->set_is_battle_cmd(battle);
	unsigned lists = battle ? 2 : 6;
	// One list takes any length and any place; the others have 0 or 1 plain
	// cards each (all alike).
	unsigned main = (unsigned)sym_choice(lists, "list");
	uint32_t n = count("count");
	uint32_t rest = (uint32_t)sym_choice(2, "rest");
	auto cnt = [&](unsigned i) { return i == main ? n : rest; };
	auto kind = [&](unsigned i) { return i == main ? FULL : PLAIN; };
	if(battle)
	{
		act_list(w, false, kind(0), cnt(0), [&] { return s->add_activable_cards(); });
		w.u32(cnt(1));
		for(uint32_t i = 0; i < cnt(1); i++)
		{
			auto* c = s->add_can_attack_cards();
			code(w);
			info(w, i == 0 ? kind(1) : PLAIN, 1, 0).to(*c->mutable_place());
			c->set_can_attack_directly(flag(w));
		}
		bool mp2 = flag(w), ep = flag(w);
		s->set_available_phase(pick(mp2, 0x100, 0) | pick(ep, 0x200, 0));
		s->set_can_shuffle(false);
	}
	else
	{
		place_list(w, 4, kind(0), cnt(0), [&] { return s->add_summonable_cards(); });
		place_list(w, 4, kind(1), cnt(1), [&] { return s->add_spsummonable_cards(); });
		place_list(w, 1, kind(2), cnt(2), [&] { return s->add_repositionable_cards(); });
		place_list(w, 4, kind(3), cnt(3), [&] { return s->add_msetable_cards(); });
		place_list(w, 4, kind(4), cnt(4), [&] { return s->add_ssetable_cards(); });
		act_list(w, false, kind(5), cnt(5), [&] { return s->add_activable_cards(); });
		bool bp = flag(w), ep = flag(w);
		s->set_available_phase(pick(bp, 0x80, 0) | pick(ep, 0x200, 0));
		s->set_can_shuffle(flag(w));
	}
	decide_ok(w, m);
}

HARNESS(enc_req_chain)
{
	W w; Msg m;
	if(sym_choice(2, "sort"))
	{
		auto* s = request(w, m, sym_choice(2, "chain") ? 21 : 25).mutable_sort();
		List l;
		w.u32(l.n);
		for(uint32_t i = 0; i < l.n; i++)
		{
			code(w);
			info(w, l.kind(i), 4, 0, 4).to(*s->add_places());
		}
	}
	else
	{
		auto* s = request(w, m, 16).mutable_select_to_chain();
		uint8_t spe = sym_u8("spe_count");
		w.u8(spe);
		s->set_triggering((spe & 0x7FU) != 0);
		s->set_forced(flag(w));
		w.junk(8);
		act_list(w, true, FULL, count("count"), [&] { return s->add_activable_cards(); });
	}
	decide_ok(w, m);
}

HARNESS(enc_req_zone)
{
	W w; Msg m;
	bool dis = sym_choice(2, "disfield");
	w.u8(dis ? 24 : 18);
	auto* r = m.mutable_request();
	uint8_t c = (uint8_t)sym_choice(2, "con");
	w.u8(c);
	r->set_replier(c);
	auto* s = r->mutable_select_zone();
	s->set_blocking(dis);
	uint8_t n = sym_u8("count");
	w.u8(n);
	s->set_count(n);
	zones(w, c, false, [&] { return s->add_places(); });
	decide_ok(w, m);
}

// ---------------------------------------------------------------- queries
static const uint32_t flags_v[] = {
	0x1, 0x2, 0x4, 0x8, 0x10, 0x20, 0x40, 0x80, 0x100, 0x200, 0x400, 0x800, 0x4000, 0x8000,
	0x20000, 0x40000, 0x80000, 0x100000, 0x200000, 0x400000, 0x800000, 0x1000000, 0x2000000,
	0x1000 /* not encoded */};
static const unsigned N_FLAGS = sizeof(flags_v) / sizeof(*flags_v);

struct Overlays
{
	uint32_t n = 0;
	uint32_t at = 0; // offset of the codes
	uint32_t codes[MOST];
};

// One section of a query: size, flag, payload.
static void section(W& w, Msg::Query::Data& q, unsigned which)
{
	uint32_t f = flags_v[which];
	size_t szat = w.n;
	w.u16(0);
	w.u32(f);
	auto v32 = [&] { return num(w); };
	switch(f)
	{
	case 0x1: q.mutable_code()->set_value(v32()); break;
	case 0x2: q.mutable_position()->set_value(v32()); break;
	case 0x4: q.mutable_alias()->set_value(v32()); break;
	case 0x8: q.mutable_type()->set_value(v32()); break;
	case 0x10: q.mutable_level()->set_value((int32_t)v32()); break;
	case 0x20: q.mutable_xyz_rank()->set_value(v32()); break;
	case 0x40: q.mutable_attribute()->set_value(v32()); break;
	case 0x80:
	{
		uint64_t v = sym_u64("race");
		w.u64(v);
		q.mutable_race()->set_value(v);
		break;
	}
	case 0x100: q.mutable_atk()->set_value((int32_t)v32()); break;
	case 0x200: q.mutable_def()->set_value((int32_t)v32()); break;
	case 0x400: q.mutable_base_atk()->set_value((int32_t)v32()); break;
	case 0x800: q.mutable_base_def()->set_value((int32_t)v32()); break;
	case 0x4000: info(w).to(*q.mutable_equipped_to()->mutable_value()); break;
	case 0x8000:
	{
		auto* t = q.mutable_targets();
		List l("targets");
		w.u32(l.n);
		for(uint32_t i = 0; i < l.n; i++) info(w, l.kind(i)).to(*t->add_values());
		break;
	}
	case 0x20000:
	{
		auto* t = q.mutable_counters();
		List l("counters");
		w.u32(l.n);
		for(uint32_t i = 0; i < l.n; i++)
		{
			uint16_t ty = sym_u16("type"), c = sym_u16("count");
			w.u16(ty);
			w.u16(c);
			auto* x = t->add_values();
			x->set_type(ty);
			x->set_count(c);
		}
		break;
	}
	case 0x40000: q.mutable_owner()->set_value(con(w)); break;
	case 0x80000: q.mutable_status()->set_value(v32()); break;
	case 0x100000: q.mutable_is_public()->set_value(flag(w)); break;
	case 0x200000: q.mutable_pend_l_scale()->set_value(v32()); break;
	case 0x400000: q.mutable_pend_r_scale()->set_value(v32()); break;
	case 0x800000:
		q.mutable_link_rate()->set_value(v32());
		q.mutable_link_arrow()->set_value(v32());
		break;
	case 0x1000000: q.mutable_is_hidden()->set_value(flag(w)); break;
	case 0x2000000: q.mutable_cover()->set_value(v32()); break;
	default: w.junk(sym_choice(10, "skipped")); break; // unknown: skipped by its size
	}
	uint16_t sz = (uint16_t)(w.n - szat - 2);
	std::memcpy(w.b + szat, &sz, 2);
}

static void overlay_section(W& w, Overlays& o)
{
	o.n = count("overlays");
	w.u16((uint16_t)(8 + 4 * o.n));
	w.u32(0x10000);
	w.u32(o.n);
	o.at = (uint32_t)w.n;
	for(uint32_t i = 0; i < o.n; i++) o.codes[i] = code(w);
}
static void end_section(W& w)
{
	w.u16(4);
	w.u32(0x80000000U);
}

// Every section alone and every ordered pair of sections.
HARNESS(enc_query)
{
	W w;
	Msg::Query::Data want, got;
	Overlays o;
	unsigned k = (unsigned)sym_choice(sym_param("big", 0) ? 2 : 3, "sections");
	unsigned sparse = k == 2;
	for(unsigned i = 0; i < k; i++)
		section(w, want, (unsigned)sym_choice(N_FLAGS, "flag"));
	if(!sparse && sym_choice(2, "with_overlays")) overlay_section(w, o);
	end_section(w);
	uint8_t* data = w.exact();
	auto r = YGOpen::Codec::Edo9300::OCGCore::encode_one_query(data, got);
	sym_observe("bytes", r.bytes_read);
	if(framing())
	{
		sym_check(r.bytes_read == w.n, "exactly the bytes of the query are consumed");
		sym_reach("framed");
	}
	else
	{
		sym_check(peq::eq(got, want), "the query says exactly what the core said");
		sym_check(r.overlays_count == o.n, "the overlay count is reported");
		if(o.n != 0) sym_check(r.overlays_ptr == data + o.at, "the overlay codes are reported");
		sym_reach("compared");
	}
	std::free(data);
}

static void add_overlays(Msg& m, Place const& at, Overlays const& o)
{
	for(uint32_t i = 0; i < o.n; i++)
	{
		auto* q = m.add_queries();
		*q->mutable_place() = at;
		q->mutable_place()->set_oseq((int32_t)i);
		q->mutable_data()->mutable_code()->set_value(o.codes[i]);
	}
}
// A short query: a few kinds of section, possibly overlays.
static void short_query(W& w, Msg::Query::Data& q, Overlays& o)
{
	switch(sym_choice(4, "short"))
	{
	case 0: break;
	case 1: section(w, q, 0); break;
	case 2: section(w, q, 21); break;
	default: overlay_section(w, o); section(w, q, 1); break;
	}
	end_section(w);
}

HARNESS(enc_update_card)
{
	W w; Msg m;
	w.u8(7);
	Info at = info(w, FULL, 1, 0);
	auto* q = m.add_queries();
	at.to(*q->mutable_place());
	Overlays o;
	short_query(w, *q->mutable_data(), o);
	Place p;
	at.to(p);
	add_overlays(m, p, o);
	decide_ok(w, m);
}

HARNESS(enc_update_data)
{
	W w; Msg m;
	w.u8(6);
	uint8_t c = con(w);
	static const uint8_t locs[] = {0x01, 0x02, 0x04, 0x08, 0x10, 0x20, 0x40};
	uint8_t loc = locs[sym_choice(7, "loc")];
	w.u8(loc);
	size_t szat = w.n;
	w.u32(0);
	// Leading empty slots reach every sequence of the spell zones.
	bool big = sym_param("big", 0) && loc != 4 && loc != 8;
	uint32_t lead = big ? count("lead") : (uint32_t)sym_choice(loc == 8 ? 8 : 3, "lead");
	uint32_t n = (uint32_t)sym_choice(loc == 8 ? (lead < 7 ? 2 : 1) + 1 : 3, "slots");
	for(uint32_t i = 0; i < lead; i++) w.u16(0);
	for(uint32_t i = 0; i < n; i++)
	{
		uint32_t s = lead + i;
		if(i == 1 && sym_choice(2, "hole"))
		{
			w.u16(0);
			continue;
		}
		auto* q = m.add_queries();
		Place p;
		p.set_con(c);
		bool spec = loc == 8 && s > 4;
		p.set_loc(spec ? (s == 5 ? 0x100 : 0x200) : loc);
		p.set_seq(spec ? (s == 5 ? 0 : s - 6) : s);
		p.set_oseq(-1);
		*q->mutable_place() = p;
		Overlays o;
		short_query(w, *q->mutable_data(), o);
		add_overlays(m, p, o);
	}
	uint32_t total = (uint32_t)(w.n - szat - 4);
	std::memcpy(w.b + szat, &total, 4);
	decide_ok(w, m);
}

// Every pattern of empty and taken spots of a location.
HARNESS(enc_update_spots)
{
	W w; Msg m;
	w.u8(6);
	uint8_t c = con(w);
	bool spells = sym_choice(2, "loc") != 0;
	w.u8(spells ? 8 : 4);
	size_t szat = w.n;
	w.u32(0);
	uint32_t n = spells ? 8 : 7;
	for(uint32_t s = 0; s < n; s++)
	{
		if(!sym_choice(2, "card"))
		{
			w.u16(0);
			continue;
		}
		bool spec = spells && s > 4;
		auto* q = m.add_queries();
		Place p;
		p.set_con(c);
		p.set_loc(spells ? (spec ? (s == 5 ? 0x100 : 0x200) : 8) : 4);
		p.set_seq(spec ? (s == 5 ? 0 : s - 6) : s);
		p.set_oseq(-1);
		*q->mutable_place() = p;
		section(w, *q->mutable_data(), 0);
		end_section(w);
	}
	uint32_t total = (uint32_t)(w.n - szat - 4);
	std::memcpy(w.b + szat, &total, 4);
	decide_ok(w, m);
}

// ---------------------------------------------------------------- classes
HARNESS(enc_swallowed)
{
	static const struct { uint8_t id; uint8_t body; } s[] = {
		{1, 0}, {2, 10}, {61, 0}, {63, 0}, {65, 0}, {74, 0}, {93, 20}, {111, 38}, {112, 0},
		{113, 0}, {114, 0}, {120, 14}, {160, 19}};
	W w;
	auto i = sym_choice(14, "id");
	if(i < 13)
	{
		w.u8(s[i].id);
		w.junk(s[i].body);
	}
	else
	{
		w.u8(163);
		uint16_t len = (uint16_t)sym_choice(4, "length");
		w.u16(len);
		w.junk(len + 1U);
	}
	Ctx ctx;
	decide(w, ctx, State::SWALLOWED, nullptr);
	untouched(ctx);
}

// A name takes as many bytes as its length says.
HARNESS(enc_ai_name)
{
	const size_t most = 65535;
	uint16_t len = sym_u16("length");
	auto* data = static_cast<uint8_t*>(std::malloc(4 + most));
	std::memset(data, 1, 4 + most);
	data[0] = 163;
	std::memcpy(data + 1, &len, 2);
	Ctx ctx;
	google::protobuf::Arena arena;
	auto r = Codec::Edo9300::OCGCore::encode_one(arena, ctx, data);
	sym_observe("bytes", r.bytes_read);
	sym_check(r.state == EncodeOneResult::State::SWALLOWED, "the message is classified as encoded, swallowed or unknown as it should");
	sym_check(r.msg == nullptr, "a message is returned if and only if the state says so");
	sym_check(r.bytes_read == (size_t)len + 4, "exactly the bytes of the message are consumed");
	untouched(ctx);
	sym_reach("framed");
	std::free(data);
}

HARNESS(enc_unknown)
{
	W w;
	uint8_t id = sym_u8("id");
	static const uint8_t known[] = {
		1, 2, 4, 5, 6, 7, 10, 11, 12, 13, 14, 15, 16, 18, 19, 20, 21, 22, 23, 24, 25, 26, 30, 31, 32, 33, 35, 36,
		37, 38, 39, 40, 41, 42, 50, 53, 54, 55, 56, 60, 61, 62, 63, 64, 65, 70, 71, 72, 73, 74, 75, 76, 80, 81,
		83, 90, 91, 92, 93, 94, 96, 97, 100, 101, 102, 110, 111, 112, 113, 114, 120, 130, 131, 132, 133, 140,
		141, 142, 143, 144, 160, 161, 162, 163, 165, 170,
		// Exist in the core; the encoder may come to know them.
		3, 8, 34, 95, 121, 122, 123, 164, 180};
	unsigned is = 0;
	for(uint8_t k : known) is |= (unsigned)(id == k);
	sym_assume(is == 0);
	w.u8(id);
	Ctx ctx;
	decide(w, ctx, State::UNKNOWN, nullptr);
	untouched(ctx);
}
