// Answer -> bytes of the core's response.
#include "wire.hpp"

#include <ygopen/codec/edo9300_ocgcore_decode.hpp>
#include <ygopen/proto/duel/answer.hpp>

using namespace wire;
using Proto::Duel::Answer;

// What the vector held before must not matter.
static std::vector<uint8_t> stale()
{
	std::vector<uint8_t> out(sym_choice(3, "stale") * 5);
	for(auto& x : out) x = sym_u8("old");
	return out;
}

static void decide_bytes(Msg::Request const& req, Answer const& ans, W const& w)
{
	auto out = stale();
	Codec::Edo9300::OCGCore::decode_one_answer(req, ans, out);
	sym_observe("size", out.size());
	sym_check(out.size() == w.n, "the response has the size the core expects");
	if(out.size() != w.n) { sym_end_path(); return; }
	unsigned ok = 1;
	for(size_t i = 0; i < w.n; i++) ok &= (unsigned)(out[i] == w.b[i]);
	sym_check(ok != 0, "the response has the bytes the core expects");
	sym_reach("compared");
}

static uint32_t list(Answer::Indexes& ix, uint32_t lo, unsigned bits, uint32_t* v)
{
	uint32_t n = count("count", lo, bits <= 8 ? BYTE : WORD);
	for(uint32_t i = 0; i < n; i++)
	{
		v[i] = (uint32_t)sym_bits(bits, "index");
		ix.add_values(v[i]);
	}
	return n;
}

HARNESS(dec_numbers)
{
	Msg::Request req;
	Answer a;
	W w;
	uint32_t v = sym_u32("v");
	w.u32(v);
	switch(sym_choice(9, "kind"))
	{
	case 0: a.set_select_attribute(v); break;
	case 1: a.set_select_card_code(v); break;
	case 2: a.set_select_effect(v); break;
	case 3: a.set_select_number(v); break;
	case 4: a.set_select_position(v); break;
	case 5: a.set_select_race(v); break;
	case 6: a.set_select_rock_paper_scissors((int32_t)v); break;
	case 7: a.mutable_select_to_chain()->set_index(v); break;
	default:
		sym_assume(v <= 1);
		a.set_select_yes_no(v != 0);
		break;
	}
	decide_bytes(req, a, w);
}

HARNESS(dec_refusals)
{
	Msg::Request req;
	Answer a;
	W w;
	w.u32(0xFFFFFFFFU);
	switch(sym_choice(4, "kind"))
	{
	case 0:
	case 1:
		switch(sym_choice(4, "request"))
		{
		case 0: req.mutable_select_card()->mutable_limbo(); break;
		case 1: req.mutable_select_card()->mutable_recursive(); break;
		case 2: req.mutable_select_card()->mutable_unique_range(); break;
		default: req.mutable_select_card()->mutable_unique_tributes(); break;
		}
		if(sym_choice(2, "finish")) a.mutable_select_card()->set_finish(true);
		else a.mutable_select_card()->set_cancel(true);
		break;
	case 2: a.mutable_select_to_chain()->set_no_op(true); break;
	default: a.mutable_sort()->set_skip(true); break;
	}
	decide_bytes(req, a, w);
}

HARNESS(dec_cards)
{
	Msg::Request req;
	Answer a;
	W w;
	uint32_t v[MOST];
	auto kind = sym_choice(5, "request");
	auto* rsc = req.mutable_select_card();
	auto* ix = a.mutable_select_card()->mutable_indexes();
	if(kind == 1)
	{
		rsc->mutable_recursive();
		v[0] = (uint32_t)sym_bits(31, "index");
		ix->add_values(v[0]);
		w.u32(1);
		w.u32(v[0]);
	}
	else
	{
		switch(kind)
		{
		case 0: rsc->mutable_limbo(); break;
		case 2: rsc->mutable_unique_range(); break;
		case 3: rsc->mutable_unique_sum(); break;
		default: rsc->mutable_unique_tributes(); break;
		}
		uint32_t n = list(*ix, 1, 16, v);
		w.u32(1);
		w.u32(n);
		for(uint32_t i = 0; i < n; i++) w.u16((uint16_t)v[i]);
	}
	decide_bytes(req, a, w);
}

HARNESS(dec_idle)
{
	using SI = Answer::SelectIdle;
	Msg::Request req;
	Answer a;
	W w;
	bool battle = sym_choice(2, "battle");
	req.mutable_select_idle()->set_is_battle_cmd(battle);
	auto* s = a.mutable_select_idle();
	switch(sym_choice(3, "kind"))
	{
	case 0:
		s->set_shuffle(true);
		w.u32(8);
		break;
	case 1:
	{
		bool end = sym_choice(2, "end");
		s->set_phase(end ? 0x200 : battle ? 0x100 : 0x80);
		w.u32(battle ? (end ? 3 : 2) : (end ? 7 : 6));
		break;
	}
	default:
	{
		// The core's action numbers.
		static const struct { SI::Action act; uint32_t idle, battle; } acts[] = {
			{SI::ACTION_ACTIVATE, 5, 0}, {SI::ACTION_ATTACK, 99, 1}, {SI::ACTION_SUMMON, 0, 99},
			{SI::ACTION_SPSUMMON, 1, 99}, {SI::ACTION_REPOSITION, 2, 99}, {SI::ACTION_MSET, 3, 99},
			{SI::ACTION_SSET, 4, 99}};
		auto i = sym_choice(7, "action");
		uint32_t t = battle ? acts[i].battle : acts[i].idle;
		if(t == 99) { sym_assume(0); return; }
		auto* ca = s->mutable_card_action();
		ca->set_action(acts[i].act);
		uint32_t ix = sym_u16("index");
		ca->set_index(ix);
		w.u32((ix << 16) | t);
		break;
	}
	}
	decide_bytes(req, a, w);
}

HARNESS(dec_zones)
{
	Msg::Request req;
	Answer a;
	W w;
	bool big = sym_param("big", 0);
	List l;
	uint32_t n = l.n;
	auto* z = a.mutable_select_zone();
	for(uint32_t i = 0; i < n; i++)
	{
		auto* p = z->add_places();
		uint32_t c = (uint32_t)sym_bits(1, "con");
		bool any = !big || i == l.full;
		uint32_t k = any ? (uint32_t)sym_bits(2, "zone") : i & 1U;
		uint32_t s = any ? (uint32_t)sym_bits(3, "seq") : (uint32_t)sym_bits(2, "seq");
		// Monster zones 0..6, spell zones 0..4, the field zone, pendulum zones 0 and 1.
		sym_assume((k != 0 || s <= 6) && (k != 1 || s <= 4) && (k != 2 || s == 0) && (k != 3 || s <= 1));
		p->set_con((int32_t)c);
		p->set_loc(pick(k < 2, 4U << k, 0x100U << (k & 1U)));
		p->set_seq(s);
		p->set_oseq(-1);
		w.u8((uint8_t)c);
		w.u8((uint8_t)pick(k == 0, 4, 8));
		w.u8((uint8_t)(s + pick(k == 2, 5, pick(k == 3, 6, 0))));
	}
	decide_bytes(req, a, w);
}

HARNESS(dec_sort)
{
	Msg::Request req;
	Answer a;
	W w;
	uint32_t v[MOST];
	uint32_t n = list(*a.mutable_sort()->mutable_indexes(), 0, 8, v);
	w.u8((uint8_t)n);
	for(uint32_t i = 0; i < n; i++) w.u8((uint8_t)v[i]);
	decide_bytes(req, a, w);
}
