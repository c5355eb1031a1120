// The core asks, the request is encoded, a client picks among what it is
// offered, the answer is decoded, the core reads its response: it must be what
// the client meant, of what the core allows.
#include "wire.hpp"

#include <ygopen/codec/edo9300_ocgcore_decode.hpp>
#include <ygopen/proto/duel/answer.hpp>

using namespace wire;
using Proto::Duel::Answer;
using Req = Msg::Request;

namespace
{
// What the core can tell about a card it offers.
struct Card
{
	Place place;
	uint32_t code = 0;
	Effect effect;
};
using Cards = std::vector<Card>;

struct Asked
{
	google::protobuf::Arena arena;
	Ctx ctx;
	W w;
	uint32_t who = 0;
	Req const* req = nullptr;
	Answer ans;
	std::vector<uint8_t> out;

	explicit Asked(uint8_t id)
	{
		w.u8(id);
		who = con(w);
	}
	// false: nothing to answer (reported).
	bool ask()
	{
		uint8_t* data = w.exact();
		auto r = Codec::Edo9300::OCGCore::encode_one(arena, ctx, data);
		std::free(data);
		bool ok = r.msg != nullptr && r.msg->t_case() == Msg::kRequest;
		sym_check(ok, "the core's question becomes a request");
		if(!ok)
		{
			sym_end_path();
			return false;
		}
		req = &r.msg->request();
		sym_check((uint32_t)req->replier() == who, "the player the core asks is asked");
		return true;
	}
	void reply()
	{
		Codec::Edo9300::OCGCore::decode_one_answer(*req, ans, out);
		sym_observe("size", out.size());
	}
	// The core reads its response; what was not given is zero to it.
	template<typename T>
	T read(size_t at) const
	{
		T v{};
		size_t n = out.size() > at ? out.size() - at : 0;
		if(n > 0) std::memcpy(&v, out.data() + at, n < sizeof(T) ? n : sizeof(T));
		return v;
	}
	uint32_t i32() const { return read<uint32_t>(0); }
};

bool flag(W& w)
{
	uint8_t v = (uint8_t)sym_bits(1, "flag");
	w.u8(v);
	return v != 0;
}

// One of n, of many only the ends and the middle.
uint32_t some(uint32_t n, const char* name)
{
	return n > 8 ? (uint32_t)sym_choice(3, name) * (n - 1) / 2 : (uint32_t)sym_choice(n, name);
}

bool meant(bool ok)
{
	sym_check(ok, "the core reads the choice that was made");
	sym_reach("answered");
	return ok;
}
bool offered(bool ok)
{
	sym_check(ok, "exactly what the core allows is offered");
	if(!ok) sym_end_path();
	return ok;
}
} // namespace

// ---------------------------------------------------------- idle and battle
namespace
{
enum List_ { SUMMON, SPSUMMON, REPOS, MSET, SSET, ACT, ATTACK, LISTS };

void cards(W& w, Cards& l, uint32_t n, List_ what, bool any)
{
	w.u32(n);
	for(uint32_t i = 0; i < n; i++)
	{
		Card c;
		c.code = code(w);
		info(w, any && i == 0 ? FULL : PLAIN, what == REPOS || what == ATTACK ? 1 : 4, 0).to(c.place);
		if(what == ACT)
		{
			effect(w, c.effect);
			w.junk(1);
		}
		if(what == ATTACK) w.junk(1);
		l.push_back(std::move(c));
	}
}
} // namespace

HARNESS(choice_idle)
{
	bool battle = sym_choice(2, "battle");
	Asked a(battle ? 10 : 11);
	Cards l[LISTS];
	static const List_ idle[] = {SUMMON, SPSUMMON, REPOS, MSET, SSET, ACT};
	static const List_ battles[] = {ACT, ATTACK};
	unsigned lists = battle ? 2 : 6;
	auto of = [&](unsigned i) { return battle ? battles[i] : idle[i]; };
	// One list of any length; as many in the others as the run says.
	unsigned main = (unsigned)sym_choice(lists, "list");
	uint32_t rest = (uint32_t)sym_choice(2, "rest");
	for(unsigned i = 0; i < lists; i++) cards(a.w, l[of(i)], i == main ? count("count") : rest, of(i), i == main);
	bool next = flag(a.w), end = flag(a.w);
	bool shuffle = !battle && flag(a.w);
	if(!a.ask()) return;
	sym_check(a.req->t_case() == Req::kSelectIdle, "a command is asked for");
	auto const& s = a.req->select_idle();
	// What a client sees.
	auto* si = a.ans.mutable_select_idle();
	using SI = Answer::SelectIdle;
	switch(sym_choice(3, "what"))
	{
	case 0:
	{
		if(!offered((uint32_t)s.available_phase() == (pick(next, battle ? 0x100 : 0x80, 0) | pick(end, 0x200, 0)))) return;
		bool e = sym_choice(2, "end");
		sym_assume(e ? end : next);
		si->set_phase(e ? 0x200 : battle ? 0x100 : 0x80);
		a.reply();
		// The core: low half what, high half which.
		meant((a.i32() & 0xFFFF) == (battle ? (e ? 3U : 2U) : (e ? 7U : 6U)));
		return;
	}
	case 1:
		if(!offered(s.can_shuffle() == shuffle)) return;
		sym_assume(shuffle);
		si->set_shuffle(true);
		a.reply();
		meant((a.i32() & 0xFFFF) == 8);
		return;
	default: break;
	}
	// A card of the list.
	List_ what = of(main);
	static const SI::Action acts[LISTS] = {SI::ACTION_SUMMON, SI::ACTION_SPSUMMON, SI::ACTION_REPOSITION, SI::ACTION_MSET,
	                                       SI::ACTION_SSET, SI::ACTION_ACTIVATE, SI::ACTION_ATTACK};
	auto place = [&](uint32_t i) -> Place const&
	{
		switch(what)
		{
		case SUMMON: return s.summonable_cards((int)i);
		case SPSUMMON: return s.spsummonable_cards((int)i);
		case REPOS: return s.repositionable_cards((int)i);
		case MSET: return s.msetable_cards((int)i);
		case SSET: return s.ssetable_cards((int)i);
		case ACT: return s.activable_cards((int)i).place();
		default: return s.can_attack_cards((int)i).place();
		}
	};
	size_t sizes[LISTS] = {(size_t)s.summonable_cards_size(), (size_t)s.spsummonable_cards_size(), (size_t)s.repositionable_cards_size(),
	                       (size_t)s.msetable_cards_size(), (size_t)s.ssetable_cards_size(), (size_t)s.activable_cards_size(),
	                       (size_t)s.can_attack_cards_size()};
	bool all = true;
	for(unsigned i = 0; i < LISTS; i++) all &= sizes[i] == l[i].size();
	if(!offered(all)) return;
	if(l[what].empty()) return;
	uint32_t j = some((uint32_t)l[what].size(), "card");
	auto* ca = si->mutable_card_action();
	ca->set_action(acts[what]);
	ca->set_index(j);
	a.reply();
	uint32_t t = (uint32_t)sym_concretize(a.i32() & 0xFFFF), k = (uint32_t)sym_concretize(a.i32() >> 16);
	// How the core takes it.
	bool known = t < lists;
	if(!meant(known)) return;
	Cards const& core = l[of(t)];
	if(!meant(k < core.size())) return;
	meant(of(t) == what && eqp(core[k].place, place(j)));
	if(what == ACT) meant(peq::eq(core[k].effect, s.activable_cards((int)j).effect()));
}

// ------------------------------------------------------------------- cards
HARNESS(choice_cards)
{
	enum { RANGE, LIMBO, TRIBUTE, RECURSIVE };
	auto kind = sym_choice(4, "kind");
	Asked a(kind == RECURSIVE ? 26 : kind == TRIBUTE ? 20 : 15);
	Cards core; // the deselectable ones after the selectable
	bool cancel = flag(a.w), accept = kind == RECURSIVE && flag(a.w);
	a.w.u32(sym_u32("min"));
	a.w.u32(sym_u32("max"));
	List n("count", kind == RANGE || kind == LIMBO);
	a.w.u32(n.n);
	auto card = [&](Kind k)
	{
		Card c;
		c.code = code(a.w);
		if(kind == LIMBO)
		{
			a.w.junk(1);
			a.w.u8(0);
			a.w.junk(8);
		}
		else
		{
			Info p = info(a.w, k, 4, kind == TRIBUTE ? 0 : 4);
			if(core.empty() && kind == RANGE) sym_assume(p.loc != 0);
			p.to(c.place);
		}
		if(kind == TRIBUTE) a.w.junk(1);
		core.push_back(std::move(c));
	};
	for(uint32_t i = 0; i < n.n; i++) card(n.kind(i));
	uint32_t on = n.n;
	if(kind == RECURSIVE)
	{
		uint32_t off = count("deselectable");
		a.w.u32(off);
		for(uint32_t i = 0; i < off; i++) card(PLAIN);
	}
	if(!a.ask()) return;
	sym_check(a.req->t_case() == Req::kSelectCard, "a selection of cards is asked for");
	auto const& s = a.req->select_card();
	auto* sc = a.ans.mutable_select_card();
	size_t size = 0;
	bool stop = false; // can the client say no (more)?
	switch(s.t_case())
	{
	case Req::SelectCard::kUniqueRange: size = s.unique_range().cards_size(), stop = s.unique_range().can_cancel(); break;
	case Req::SelectCard::kUniqueTributes: size = s.unique_tributes().cards_size(), stop = s.unique_tributes().can_cancel(); break;
	case Req::SelectCard::kLimbo: size = s.limbo().card_codes_size(), stop = s.limbo().can_cancel(); break;
	case Req::SelectCard::kRecursive:
		size = s.recursive().selectable_cards_size() + s.recursive().deselectable_cards_size();
		stop = s.recursive().can_finish();
		if(!offered((uint32_t)s.recursive().selectable_cards_size() == on && s.recursive().accept() == accept)) return;
		break;
	default: break;
	}
	if(!offered(size == core.size() && stop == cancel)) return;
	if(sym_choice(2, "no"))
	{
		sym_assume(cancel);
		if(accept) sc->set_finish(true);
		else sc->set_cancel(true);
		a.reply();
		meant(a.i32() == 0xFFFFFFFFU);
		return;
	}
	if(size == 0) return;
	auto right = [&](uint32_t k, uint32_t j)
	{
		Card const& c = core[k];
		switch(s.t_case())
		{
		case Req::SelectCard::kUniqueRange:
		{
			auto const& o = s.unique_range().cards((int)j);
			return (unsigned)eqp(c.place, o.place()) & (unsigned)(c.code == o.code());
		}
		case Req::SelectCard::kUniqueTributes:
		{
			auto const& o = s.unique_tributes().cards((int)j);
			return (unsigned)eqp(c.place, o.place()) & (unsigned)(c.code == o.code());
		}
		case Req::SelectCard::kLimbo: return (unsigned)(c.code == s.limbo().card_codes((int)j));
		default:
		{
			auto const& o = j < on ? s.recursive().selectable_cards((int)j) : s.recursive().deselectable_cards((int)(j - on));
			return (unsigned)eqp(c.place, o.place()) & (unsigned)(c.code == o.code());
		}
		}
	};
	// One, two or (of many) all, backwards.
	std::vector<uint32_t> js;
	js.push_back(some((uint32_t)size, "card"));
	if(kind != RECURSIVE && size > 1)
	{
		switch(sym_choice(3, "more"))
		{
		case 0: break;
		case 1:
		{
			uint32_t o = some((uint32_t)size, "other");
			if(o == js[0]) return;
			js.push_back(o);
			break;
		}
		default:
			js.clear();
			for(uint32_t j = (uint32_t)size; j-- > 0;) js.push_back(j);
			break;
		}
	}
	for(auto j : js) sc->mutable_indexes()->add_values(j);
	a.reply();
	unsigned ok = 1;
	if(kind == RECURSIVE)
	{
		uint32_t k = (uint32_t)sym_concretize(a.read<uint32_t>(4));
		if(!meant(a.i32() == 1 && k < core.size())) return;
		meant(right(k, js[0]) != 0);
		return;
	}
	// The core: how the list is written, how many, and the list.
	uint32_t type = (uint32_t)sym_concretize(a.i32());
	uint32_t many = (uint32_t)sym_concretize(a.read<uint32_t>(4));
	if(!meant(type <= 2 && many == js.size())) return;
	for(uint32_t i = 0; i < many; i++)
	{
		uint32_t k = type == 0 ? a.read<uint32_t>(8 + 4 * i) : type == 1 ? a.read<uint16_t>(8 + 2 * i) : a.read<uint8_t>(8 + i);
		k = (uint32_t)sym_concretize(k);
		if(!meant(k < core.size())) return;
		ok &= right(k, js[i]);
	}
	meant(ok != 0);
}

HARNESS(choice_chain)
{
	Asked a(16);
	a.w.junk(1);
	bool forced = flag(a.w);
	a.w.junk(8);
	uint32_t n = count("count");
	Cards core;
	a.w.u32(n);
	for(uint32_t i = 0; i < n; i++)
	{
		Card c;
		code(a.w);
		info(a.w, i == n / 2 ? FULL : PLAIN).to(c.place);
		effect(a.w, c.effect);
		a.w.junk(1);
		core.push_back(std::move(c));
	}
	if(!a.ask()) return;
	sym_check(a.req->t_case() == Req::kSelectToChain, "a link of the chain is asked for");
	auto const& s = a.req->select_to_chain();
	if(!offered((uint32_t)s.activable_cards_size() == n && s.forced() == forced)) return;
	if(sym_choice(2, "no"))
	{
		sym_assume(!forced);
		a.ans.mutable_select_to_chain()->set_no_op(true);
		a.reply();
		meant(a.i32() == 0xFFFFFFFFU);
		return;
	}
	if(n == 0) return;
	uint32_t j = some(n, "card");
	a.ans.mutable_select_to_chain()->set_index(j);
	a.reply();
	uint32_t k = (uint32_t)sym_concretize(a.i32());
	if(!meant(k < n)) return;
	auto const& o = s.activable_cards((int)j);
	meant((unsigned)eqp(core[k].place, o.place()) & (unsigned)peq::eq(core[k].effect, o.effect()));
}

// ------------------------------------------------------------------- zones
HARNESS(choice_zone)
{
	bool dis = sym_choice(2, "disfield");
	Asked a(dis ? 24 : 18);
	a.who = (uint32_t)sym_concretize(a.who);
	uint8_t n = sym_u8("count");
	a.w.u8(n);
	uint32_t win = (uint32_t)sym_choice(4, "window") * 8;
	uint32_t rest = sym_choice(2, "rest") ? 0xFFFFFFFFU : 0;
	uint32_t taken = (rest & ~(0xFFU << win)) | ((uint32_t)sym_u8("zones") << win) | 0x00800080U;
	a.w.u32(taken);
	if(!a.ask()) return;
	sym_check(a.req->t_case() == Req::kSelectZone, "zones are asked for");
	auto const& s = a.req->select_zone();
	uint32_t free = 0;
	for(unsigned i = 0; i < 32; i++) free += (~taken >> i) & 1U;
	if(!offered((uint32_t)s.places_size() == free && s.blocking() == dis && s.count() == n)) return;
	if(s.places_size() == 0) return;
	uint32_t size = (uint32_t)s.places_size();
	uint32_t j = (uint32_t)sym_choice(size, "zone");
	std::vector<uint32_t> js{j};
	if(size > 1 && sym_choice(2, "two")) js.push_back((j + 1) % size);
	for(auto x : js)
	{
		auto const& p = s.places((int)x);
		auto* o = a.ans.mutable_select_zone()->add_places();
		o->set_con(p.con());
		o->set_loc(p.loc());
		o->set_seq(p.seq());
		o->set_oseq(p.oseq());
	}
	a.reply();
	if(!meant(a.out.size() == 3 * js.size())) return;
	uint32_t before = 0;
	for(size_t i = 0; i < js.size(); i++)
	{
		// The core: player, monster or spell zones, sequence; free?
		uint8_t p = a.read<uint8_t>(3 * i), l = a.read<uint8_t>(3 * i + 1), q = a.read<uint8_t>(3 * i + 2);
		unsigned ok = (unsigned)(p <= 1) & (unsigned)((l == 4) | (l == 8)) & (unsigned)(q < 8);
		uint32_t bit = 1U << (((uint32_t)q & 7) + pick(l == 8, 8, 0) + pick(p != a.who, 16, 0));
		ok &= (unsigned)((bit & taken) == 0) & (unsigned)((bit & before) == 0);
		before |= bit;
		// As the client saw it.
		auto const& o = s.places((int)js[i]);
		uint32_t at = pick(o.loc() == 4, o.seq(), pick(o.loc() == 8, o.seq() + 8, pick(o.loc() == 0x100, 13, o.seq() + 14)));
		ok &= (unsigned)(bit == 1U << ((at & 15) + pick((uint32_t)o.con() != a.who, 16, 0)));
		meant(ok != 0);
	}
}

// ------------------------------------------------------------ declarations
HARNESS(choice_declare)
{
	enum { ATTRIBUTE, RACE, NUMBER, OPTION, POSITION, EFFECT, YES };
	auto kind = sym_choice(7, "kind");
	static const uint8_t ids[] = {141, 140, 143, 14, 19, 12, 13};
	Asked a(ids[kind]);
	uint64_t core = 0;
	uint8_t n = 0;
	std::vector<uint64_t> values;
	Place place;
	Effect eff;
	uint32_t cd = 0;
	switch(kind)
	{
	case ATTRIBUTE:
		a.w.u8(n = sym_u8("count"));
		a.w.u32((uint32_t)(core = sym_u32("attributes")));
		break;
	case RACE:
		a.w.u8(n = sym_u8("count"));
		a.w.u64(core = sym_u32("races"));
		break;
	case NUMBER:
	case OPTION:
	{
		List l("count", 1, BYTE);
		a.w.u8((uint8_t)l.n);
		for(uint32_t i = 0; i < l.n; i++)
		{
			values.push_back(sym_u64("value"));
			a.w.u64(values.back());
		}
		break;
	}
	case POSITION:
		cd = code(a.w);
		a.w.u8((uint8_t)(core = sym_bits(4, "positions")));
		break;
	case EFFECT:
		cd = code(a.w);
		info(a.w).to(place);
		[[fallthrough]];
	default: effect(a.w, eff); break;
	}
	if(!a.ask()) return;
	auto const& r = *a.req;
	uint32_t choice = sym_u32("choice");
	switch(kind)
	{
	case ATTRIBUTE:
		if(!offered(r.t_case() == Req::kSelectAttribute && r.select_attribute().count() == n)) return;
		sym_assume((choice & ~r.select_attribute().attribute()) == 0);
		a.ans.set_select_attribute(choice);
		break;
	case RACE:
		if(!offered(r.t_case() == Req::kSelectRace && r.select_race().count() == n)) return;
		sym_assume((choice & ~r.select_race().race()) == 0);
		a.ans.set_select_race(choice);
		break;
	case POSITION:
		if(!offered(r.t_case() == Req::kSelectPosition && r.select_position().count() == 1 && r.select_position().code() == cd)) return;
		sym_assume((choice & ~r.select_position().position()) == 0);
		a.ans.set_select_position(choice);
		break;
	case NUMBER:
	case OPTION:
	{
		uint32_t size = kind == NUMBER ? (uint32_t)r.select_number().numbers_size() : (uint32_t)r.select_effect().effects_size();
		if(!offered(size == values.size())) return;
		uint32_t j = some(size, "which");
		if(kind == NUMBER) a.ans.set_select_number(j);
		else a.ans.set_select_effect(j);
		a.reply();
		uint32_t k = (uint32_t)sym_concretize(a.i32());
		if(!meant(k < values.size())) return;
		if(kind == NUMBER) meant(values[k] == r.select_number().numbers((int)j));
		else
		{
			auto const& e = r.select_effect().effects((int)j);
			meant(values[k] >> 20 == e.code() || values[k] >> 52 != 0);
			meant((values[k] & 0xFFFFF) == e.index());
		}
		return;
	}
	default:
	{
		if(!offered(r.t_case() == Req::kSelectYesNo)) return;
		auto const& y = r.select_yes_no();
		if(!offered((unsigned)peq::eq(y.effect(), eff) & (unsigned)(y.code() == cd))) return;
		if(kind == EFFECT && !offered(eqp(y.place(), place))) return;
		sym_assume(choice <= 1);
		a.ans.set_select_yes_no(choice != 0);
		break;
	}
	}
	a.reply();
	// What was offered is what the core allows: any of it, and nothing else.
	if(kind == ATTRIBUTE) sym_check(r.select_attribute().attribute() == core, "exactly what the core allows is offered");
	if(kind == RACE) sym_check(r.select_race().race() == core, "exactly what the core allows is offered");
	if(kind == POSITION) sym_check(r.select_position().position() == core, "exactly what the core allows is offered");
	meant(a.i32() == choice);
}
