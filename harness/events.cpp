// Histories of events: parse_event against a plain model of the board, and
// undo_parse_event back to every earlier state (and forward again).
#include <list>
#include <proto_eq.h>
#include "fcommon.hpp"
#include <ygopen/client/board.hpp>
#include <ygopen/client/parse_event.hpp>
#include <ygopen/client/undo_parse_event.hpp>
#include <ygopen/client/undoable.hpp>
#include <ygopen/duel/constants/phase.hpp>

namespace
{
using namespace YGOpen::Proto::Duel;
using Event = Msg::Event;

// Cards are numbered as they are made.
struct Builder
{
	uint32_t next = 0;
	auto build() noexcept -> Card
	{
		Card c;
		c.id = ++next;
		return c;
	}
};

// The chain stack of an undoable board (the library leaves it to its user).
struct UndoChain
{
	std::vector<std::vector<Chain>> log{1};
	size_t at = 0;
	unsigned bad = 0;
	std::vector<Chain>& next()
	{
		if(at + 1 == log.size())
		{
			log.push_back(log[at]);
			at++;
			return log[at];
		}
		return log[++at];
	}
	std::vector<Chain> const& get() const { return log[at]; }
	template<typename It>
	void assign(It b, It e)
	{
		bool fresh = at + 1 == log.size();
		auto& v = next();
		if(fresh) v.assign(b, e);
	}
	void push_back(Chain const& c)
	{
		bool fresh = at + 1 == log.size();
		auto& v = next();
		if(fresh) v.push_back(c);
	}
	void pop_back()
	{
		bool fresh = at + 1 == log.size();
		auto& v = next();
		if(fresh) v.pop_back();
	}
	void undo() { at == 0 ? void(bad = 1) : void(at--); }
	void undo_push_back(Chain const& c)
	{
		if(log[at].empty() || !peq::eq(log[at].back(), c)) bad = 1;
		undo();
	}
	void undo_pop_back() { undo(); }
};
struct PlainChain : std::vector<Chain>
{
	std::vector<Chain> const& get() const { return *this; }
	unsigned bad = 0;
};

struct UndoTraits
{
	using BlockedZonesType = Client::BasicUndoable<std::vector<Place>>;
	using ChainStackType = UndoChain;
	using FrameType = Client::LimboFrame<Card, Builder>;
	using LPType = Client::BasicUndoable<uint32_t>;
	using PhaseType = Client::BasicUndoable<Duel::Phase>;
	using TurnControllerType = Client::BasicUndoable<Duel::Controller>;
	using TurnType = Client::BasicUndoable<uint32_t>;
};
struct PlainTraits
{
	using BlockedZonesType = std::vector<Place>;
	using ChainStackType = PlainChain;
	using FrameType = Client::BasicFrame<Card, Builder>;
	using LPType = uint32_t;
	using PhaseType = Duel::Phase;
	using TurnControllerType = Duel::Controller;
	using TurnType = uint32_t;
};

// Scripted events take arbitrary but fixed choices and numbers: a duel up to
// and after the event in question. Infeasible choices are taken anew.
bool scripted = false, retry = false;
uint64_t x;
void seed() { x = 88172645463325252ULL + sym_param("script", 0) * 7919; }
uint32_t rnd()
{
	x = x * 6364136223846793005ULL + 1442695040888963407ULL;
	return (uint32_t)(x >> 33);
}
uint64_t choice(uint64_t n, const char* name) { return scripted ? rnd() % n : sym_choice(n, name); }
bool coarse = false; // In large containers: the ends and the middle.
uint32_t upto(size_t n, const char* name)
{
	if(scripted) return rnd() % (uint32_t)n;
	if(coarse && n > 3) return (uint32_t)sym_choice(3, name) * (uint32_t)(n - 1) / 2;
	return below(n, name);
}
uint32_t u32(const char* name) { return scripted ? rnd() : sym_u32(name); }
int32_t i32(const char* name) { return (int32_t)u32(name); }
#define NEED(c, ...) \
	do \
	{ \
		if(!scripted) sym_assume(c); \
		else if(!(c)) { retry = true; return __VA_ARGS__; } \
	} while(0)

// The board as it should be.
struct Snap
{
	Model m;
	uint32_t made = 0; // cards made so far
	uint32_t turn = 0;
	int32_t who = 0;
	uint32_t lp[2] = {0, 0};
	uint32_t phase = 0;
	std::vector<Place> blocked;
	std::vector<Chain> chain;
};

template<typename V>
unsigned eqv(std::vector<V> const& a, std::vector<V> const& b)
{
	if(a.size() != b.size()) return 0;
	unsigned ok = 1;
	for(size_t i = 0; i < a.size(); i++) ok &= (unsigned)peq::eq(a[i], b[i]);
	return ok;
}
template<typename B>
void compare(B& b, Snap const& s, const char* where, const char* values)
{
	sym_check(fm::same(b.frame(), s.m, idof), where);
	std::vector<Place> const& bl = b.blocked_zones();
	unsigned ok = eqv(bl, s.blocked) & eqv(b.chain_stack().get(), s.chain);
	ok &= (unsigned)((uint32_t)b.turn() == s.turn) & (unsigned)((int32_t)(Duel::Controller)b.turn_controller() == s.who);
	ok &= (unsigned)((uint32_t)b.lp(Duel::CONTROLLER_0) == s.lp[0]) & (unsigned)((uint32_t)b.lp(Duel::CONTROLLER_1) == s.lp[1]);
	ok &= (unsigned)((uint32_t)(Duel::Phase)b.phase() == s.phase);
	ok &= b.chain_stack().bad ^ 1;
	sym_check(ok, values);
}

// The containers events refer to; they rotate over the field with the world.
At spot(unsigned i)
{
	uint32_t w = (uint32_t)sym_param("world", 0);
	At a{};
	a.oseq = -1;
	a.con = (w + i) & 1;
	if(i < 2)
		a.li = (w + 2 * i) % 5;
	else
	{
		a.li = 5 + (w + i) % 5;
		a.seq = (w + i) % fm::ZLIM[a.li - 5];
	}
	return a;
}
const unsigned SPOTS = 4;

// Some place of the spots: the position is symbolic, then split.
At pick(Model& m, unsigned more, const char* n, bool narrow = false)
{
	At a = spot(narrow ? 2 * (unsigned)choice(2, n) : (unsigned)choice(SPOTS, n));
	if(a.pile())
	{
		size_t z = m.P(a).size() + more;
		NEED(z > 0, a);
		a.seq = upto(z, n);
	}
	else
	{
		size_t z = m.Z(a).mats.size() + more;
		bool top = (m.Z(a).card != 0) != (more != 0);
		NEED(z + top > 0, a);
		a.oseq = (int32_t)upto(z + top, n) - (top ? 1 : 0);
	}
	return a;
}
At pick_pile(const char* n, bool narrow = false) { return spot(narrow ? 0 : (unsigned)choice(2, n)); }
// Compound events among others only concern one pile and one zone.
bool narrow() { return sym_param("narrow", 0) != 0; }

// ---- events
// Copying a message tests its numbers for zero: they are not, unless `zero`.
uint32_t num(const char* n, bool zero = false)
{
	uint32_t v = u32(n);
	if(scripted) v |= 1;
	sym_assume(zero | (v != 0));
	return v;
}
void any_place(Place* p, bool zero = false)
{
	p->set_con((int32_t)num("con", zero));
	p->set_loc(num("loc", zero));
	p->set_seq(num("seq", zero));
	p->set_oseq((int32_t)num("oseq", zero));
}
void set(Place* p, At const& a) { *p = a.place(); }

void add_op(Snap& s, Event::Card::Add* e, bool narrow = false)
{
	At a = pick(s.m, 1, "add", narrow);
	if(retry) return;
	set(e->add_places(), a);
	s.m.add(a, ++s.made);
}
void remove_op(Snap& s, Event::Card::Remove* e, bool narrow = false)
{
	At a = pick(s.m, 0, "remove", narrow);
	if(retry) return;
	set(e->add_places(), a);
	s.m.take(a);
}
void resize_op(Snap& s, Event::Pile::Resize* e, bool narrow = false)
{
	At a = pick_pile("resize", narrow);
	uint32_t n;
	if(coarse && s.m.P(a).size() > 100)
	{
		// Around where it is, and far off.
		uint32_t z = (uint32_t)s.m.P(a).size();
		const uint32_t to[] = {0, 1, z - 257, z - 1, z, z + 1, z + 300};
		n = to[choice(7, "count")];
	}
	else n = upto(scripted ? 15 : narrow ? 3 : 4, "count");
	auto* op = e->add_ops();
	set(op->mutable_place(), a);
	op->set_count(n);
	auto& p = s.m.P(a);
	while(p.size() > n) p.pop_back();
	while(p.size() < n) p.push_back(++s.made);
}
void move_op(Snap& s, Event::Card::Move* e)
{
	At a = pick(s.m, 0, "from");
	if(retry) return;
	Model left(s.m);
	left.take(a);
	At b = pick(left, 1, "to");
	if(retry) return;
	NEED(s.m.can_move(a, b));
	NEED(a.pile() || a.oseq >= 0 || b.pile() || b.oseq < 0 || &s.m.Z(a) != &s.m.Z(b));
	auto* op = e->add_ops();
	set(op->mutable_old_place(), a);
	set(op->mutable_new_place(), b);
	s.m.move(a, b);
}
void swap_op(Snap& s, Event::Card::Exchange* e)
{
	At a = pick(s.m, 0, "a");
	if(retry) return;
	At b = pick(s.m, 0, "b");
	if(retry) return;
	bool az = !a.pile() && a.oseq < 0, bz = !b.pile() && b.oseq < 0;
	if(az && b.pile()) NEED(s.m.Z(a).mats.empty());
	if(bz && a.pile()) NEED(s.m.Z(b).mats.empty());
	auto* op = e->add_ops();
	set(op->mutable_place_a(), a);
	set(op->mutable_place_b(), b);
	uint32_t x = s.m.ref(a), y = s.m.ref(b);
	s.m.ref(a) = y;
	s.m.ref(b) = x;
	if(az && bz && &s.m.Z(a) != &s.m.Z(b)) s.m.Z(a).mats.swap(s.m.Z(b).mats);
}
void splice_op(Snap& s, Event::Pile::Splice* e)
{
	At a = pick_pile("from"), b = pick_pile("to");
	size_t z = s.m.P(a).size();
	a.seq = upto(z + 1, "from");
	uint32_t n = upto(z - a.seq + 1, "count");
	size_t zb = s.m.P(b).size() - (&s.m.P(a) == &s.m.P(b) ? n : 0);
	b.seq = upto(zb + 1, "to");
	bool rev = choice(2, "reverse") != 0;
	auto* op = e->add_ops();
	set(op->mutable_from(), a);
	op->set_count(n);
	set(op->mutable_to(), b);
	op->set_reverse(rev);
	s.m.splice(a, n, b, rev);
}
void pile_swap_op(Snap& s, Event::Pile::Exchange* e)
{
	At a = pick_pile("a"), b = pick_pile("b");
	auto* op = e->add_ops();
	set(op->mutable_place_a(), a);
	set(op->mutable_place_b(), b);
	if(&s.m.P(a) != &s.m.P(b)) s.m.P(a).swap(s.m.P(b));
}
void any_chain(Chain* c)
{
	any_place(c->mutable_card_place());
	any_place(c->mutable_place());
	c->mutable_effect()->set_code(num("code"));
	c->mutable_effect()->set_index(num("index"));
}

enum
{
	ADD, REMOVE, MOVE, SWAP, SPLICE, PILE_SWAP, RESIZE, EXCHANGE, STATE, TURN, LP, PHASE, BLOCK, PUSH, POP, OTHER, KINDS
};

// An event of that kind, and what it makes of the board.
void make(unsigned kind, Event& e, Snap& s, unsigned ops)
{
	// Among many operations an infeasible one is replaced; among few, everything is.
	bool many = ops > 4;
	auto each = [&](auto op)
	{
		for(unsigned i = 0; i < ops; i++)
			do
			{
				retry = many ? false : retry;
				op();
			} while(many && retry);
	};
	switch(kind)
	{
	case ADD:
		each([&] { add_op(s, e.mutable_card()->mutable_add()); });
		break;
	case REMOVE:
		each([&] { remove_op(s, e.mutable_card()->mutable_remove()); });
		break;
	case MOVE:
		each([&] { move_op(s, e.mutable_card()->mutable_move()); });
		break;
	case SWAP:
		each([&] { swap_op(s, e.mutable_card()->mutable_exchange()); });
		break;
	case SPLICE:
		each([&] { splice_op(s, e.mutable_pile()->mutable_splice()); });
		break;
	case PILE_SWAP:
		each([&] { pile_swap_op(s, e.mutable_pile()->mutable_exchange()); });
		break;
	case RESIZE:
		each([&] { resize_op(s, e.mutable_pile()->mutable_resize()); });
		break;
	case EXCHANGE:
	{
		auto* x = e.mutable_board()->mutable_exchange();
		each([&] { if(choice(2, "resize")) resize_op(s, x->mutable_resize(), narrow()); });
		if(many)
		{
			each([&] { if(s.m.count() > 4) remove_op(s, x->mutable_remove()); });
			each([&] { add_op(s, x->mutable_add()); });
			break;
		}
		if(choice(2, "remove")) remove_op(s, x->mutable_remove(), narrow());
		if(choice(2, "add")) add_op(s, x->mutable_add(), narrow());
		break;
	}
	case STATE:
	{
		auto* x = e.mutable_board()->mutable_state();
		int32_t tc = i32("turn");
		x->set_turn_counter(tc);
		if(tc >= 0) s.turn = (uint32_t)tc;
		for(auto& lp : s.lp)
		{
			lp = u32("lp");
			x->add_lps(lp);
		}
		s.chain.clear();
		for(uint64_t i = 0, n = many ? ops : choice(2, "chains"); i < n; i++)
		{
			any_chain(x->add_chains());
			s.chain.push_back(x->chains((int)i));
		}
		s.m = Model();
		each([&] { if(many || choice(2, "add")) add_op(s, x->mutable_add(), narrow()); });
		each([&] { resize_op(s, x->mutable_resize(), narrow()); });
		break;
	}
	case TURN:
		s.who = i32("next turn");
		e.set_next_turn(s.who);
		s.turn++;
		break;
	case LP:
	{
		uint32_t c = (uint32_t)choice(2, "who");
		uint32_t v = u32("amount");
		if(scripted) v >>= 20;
		auto* lp = e.mutable_lp();
		lp->set_controller((int)c);
		switch(choice(5, "how"))
		{
		case 0:
			lp->set_become(v);
			s.lp[c] = v;
			break;
		case 1:
			lp->set_damage(v);
			s.lp[c] = v > s.lp[c] ? 0 : s.lp[c] - v;
			break;
		case 2:
			lp->set_pay(v);
			s.lp[c] = v > s.lp[c] ? 0 : s.lp[c] - v;
			break;
		case 3:
			sym_assume(s.lp[c] + v >= v);
			lp->set_recover(v);
			s.lp[c] += v;
			break;
		default: break;
		}
		break;
	}
	case PHASE:
		s.phase = u32("phase");
		e.set_next_phase(s.phase);
		break;
	case BLOCK:
	{
		auto* z = e.mutable_zone_block();
		s.blocked.clear();
		for(uint64_t i = 0, n = many ? ops : choice(ops + 1, "zones"); i < n; i++)
		{
			any_place(z->add_zones(), true);
			s.blocked.push_back(z->zones((int)i));
		}
		break;
	}
	case PUSH:
		any_chain(e.mutable_chain_stack()->mutable_push());
		s.chain.push_back(e.chain_stack().push());
		break;
	case POP:
		NEED(!s.chain.empty());
		e.mutable_chain_stack()->set_pop(true);
		s.chain.pop_back();
		break;
	default:
		// What does not concern the board.
		switch(choice(9, "other"))
		{
		case 0: e.mutable_finish()->set_winner(i32("winner")); break;
		case 1: e.mutable_meta()->mutable_attack(); break;
		case 2: e.mutable_meta()->set_chain_status((ChainStatus)choice(5, "status")); break;
		case 3: e.mutable_result()->mutable_dice()->add_values(u32("value")); break;
		case 4: e.mutable_board(); break;
		case 5: e.mutable_card()->set_reason(u32("reason")); break;
		case 6: e.mutable_pile(); break;
		case 7: e.mutable_chain_stack(); break;
		default: break;
		}
	}
}

// The i-th of many events: scripted, but for one.
void make_long(unsigned i, Event& e, Snap& s)
{
	scripted = i != sym_param("free", 0);
	coarse = true;
	if(!scripted) make((unsigned)sym_param("kind", 0), e, s, 1);
	while(scripted)
	{
		Event n;
		Snap t(s);
		retry = false;
		unsigned kind = rnd() % KINDS;
		// Few of those that replace everything.
		if(kind == STATE && rnd() % 4 != 0) continue;
		make(kind, n, t, 1 + rnd() % 4);
		if(retry) continue;
		e = n;
		s = t;
		break;
	}
	scripted = coarse = false;
}

// A board in the middle of a duel: n cards in each spot, any values.
template<typename B>
void start(B& b, Snap& s, uint32_t n)
{
	for(unsigned i = 0; i < SPOTS; i++)
	{
		At a = spot(i);
		if(!a.pile() && i == 2)
		{
			b.frame().card_add(a.place());
			s.m.add(a, ++s.made);
		}
		for(uint32_t k = 0; k < n && i != 3; k++)
		{
			if(a.pile()) a.seq = k;
			else a.oseq = (int32_t)k;
			b.frame().card_add(a.place());
			s.m.add(a, ++s.made);
		}
	}
	b.turn() = s.turn = sym_u32("turn");
	s.who = sym_i32("turn controller");
	b.turn_controller() = static_cast<Duel::Controller>(s.who);
	for(uint32_t c = 0; c < 2; c++)
	{
		s.lp[c] = sym_u32("lp");
		b.lp(static_cast<Duel::Controller>(c)) = s.lp[c];
	}
	s.phase = sym_u32("phase");
	b.phase() = static_cast<Duel::Phase>(s.phase);
	Chain c;
	any_chain(&c);
	b.chain_stack().push_back(c);
	s.chain.push_back(c);
	Place p;
	any_place(&p);
	b.blocked_zones().assign(&p, &p + 1);
	s.blocked.push_back(p);
}
// The kind of the i-th event: a parameter, or any.
unsigned kind_of(unsigned i)
{
	static const char* const names[] = {"k0", "k1", "k2", "k3"};
	uint64_t k = sym_param(names[i], KINDS);
	return k < KINDS ? (unsigned)k : (unsigned)sym_choice(KINDS, "kind");
}
} // namespace

// parse_event on a plain board.
HARNESS(ev_parse)
{
	{
		Client::BasicBoard<PlainTraits> b;
		Snap s;
		start(b, s, (uint32_t)sym_param("cards", 2));
		compare(b, s, "start: the field", "start: the values");
		unsigned n = (unsigned)sym_param("events", 1);
		for(unsigned i = 0; i < n; i++)
		{
			Event e;
			make(kind_of(i), e, s, (unsigned)sym_param("ops", 1));
			Client::parse_event(b, e);
			compare(b, s, "event: the field follows it", "event: turn, LP, phase, chain and blocked zones follow it");
			sym_check(Card::live == (int)s.m.count(), "event: no card is lost or leaked");
			sym_check(s.made == b.frame().builder().next, "event: exactly the announced cards are made");
		}
		sym_reach("parsed");
	}
	sym_check(Card::live == 0, "the board takes its cards with it");
}

// parse_event on an undoable board, back and forth.
HARNESS(ev_undo)
{
	{
		Client::BasicBoard<UndoTraits> b;
		unsigned n = (unsigned)sym_param("events", 1);
		Snap s[5];
		Event e[4];
		start(b, s[0], (uint32_t)sym_param("cards", 2));
		for(unsigned i = 0; i < n; i++)
		{
			s[i + 1] = s[i];
			make(kind_of(i), e[i], s[i + 1], (unsigned)sym_param("ops", 1));
			Client::parse_event(b, e[i]);
			compare(b, s[i + 1], "event: the field follows it",
			        "event: turn, LP, phase, chain and blocked zones follow it");
		}
		unsigned at = n, back = 1 + (unsigned)sym_choice(n, "back");
		for(unsigned i = 0; i < back; i++)
		{
			Client::undo_parse_event(b, e[--at]);
			compare(b, s[at], "undo: the field is as before", "undo: the values are as before");
		}
		for(unsigned i = 0; i < back; i++)
		{
			Client::parse_event(b, e[at++]);
			compare(b, s[at], "redo: the field is as after, with the same cards", "redo: the values are as after");
		}
		while(at > 0)
		{
			Client::undo_parse_event(b, e[--at]);
			compare(b, s[at], "undo: the field is as before", "undo: the values are as before");
		}
		while(at < n)
		{
			Client::parse_event(b, e[at++]);
			compare(b, s[at], "redo: the field is as after, with the same cards", "redo: the values are as after");
		}
		sym_reach("undone");
	}
	sym_check(Card::live == 0, "the board takes its cards with it, those in limbo included");
}

// A long history around any event.
HARNESS(ev_long)
{
	{
		Client::BasicBoard<PlainTraits> plain;
		Client::BasicBoard<UndoTraits> b;
		bool undo = sym_param("undo", 0);
		seed();
		unsigned n = (unsigned)sym_param("events", 12);
		// Very long histories: the board is compared around their ends and now and then.
		bool far = n > 100;
		auto skipped = [&](unsigned at) { return far && at > 3 && at + 3 < n && at % 32 != 0; };
		std::vector<Snap> s(n + 1);
		std::vector<Event> e(n);
		if(undo) start(b, s[0], (uint32_t)sym_param("cards", 8));
		else start(plain, s[0], (uint32_t)sym_param("cards", 8));
		// Scripted damage need not be told apart.
		for(auto lp : s[0].lp) sym_assume((lp > 0x100000U) & (lp < 0x80000000U));
		for(unsigned i = 0; i < n; i++)
		{
			s[i + 1] = s[i];
			make_long(i, e[i], s[i + 1]);
			bool skip = skipped(i + 1);
			if(undo)
			{
				Client::parse_event(b, e[i]);
				if(!skip) compare(b, s[i + 1], "event: the field follows it",
				        "event: turn, LP, phase, chain and blocked zones follow it");
			}
			else
			{
				Client::parse_event(plain, e[i]);
				if(!skip) compare(plain, s[i + 1], "event: the field follows it",
				        "event: turn, LP, phase, chain and blocked zones follow it");
				sym_check(Card::live == (int)s[i + 1].m.count(), "event: no card is lost or leaked");
				sym_check(s[i + 1].made == plain.frame().builder().next, "event: exactly the announced cards are made");
			}
		}
		sym_reach("followed");
		if(!undo) return;
		unsigned at = n;
		auto to = [&](unsigned t)
		{
			while(at > t)
			{
				Client::undo_parse_event(b, e[--at]);
				if(!skipped(at)) compare(b, s[at], "undo: the field is as before", "undo: the values are as before");
			}
			while(at < t)
			{
				Client::parse_event(b, e[at++]);
				if(!skipped(at)) compare(b, s[at], "redo: the field is as after, with the same cards", "redo: the values are as after");
			}
		};
		to((unsigned)sym_param("back", 3));
		to(n - (unsigned)sym_param("ahead", 0));
		to(0);
		to(n);
		sym_reach("undone");
	}
	sym_check(Card::live == 0, "the board takes its cards with it, those in limbo included");
}

// One event on a large board, or one of many operations.
HARNESS(ev_large)
{
	{
		Client::BasicBoard<PlainTraits> plain;
		Client::BasicBoard<UndoTraits> b;
		bool undo = sym_param("undo", 0);
		seed();
		Snap s[2];
		Event e;
		uint32_t cards = (uint32_t)sym_param("cards", 300);
		unsigned ops = (unsigned)sym_param("ops", 1);
		if(undo) start(b, s[0], cards);
		else start(plain, s[0], cards);
		s[1] = s[0];
		coarse = true;
		scripted = ops > 4;
		make((unsigned)sym_param("kind", 0), e, s[1], ops);
		scripted = coarse = false;
		if(undo)
		{
			for(unsigned i = 0; i < 2; i++)
			{
				Client::parse_event(b, e);
				compare(b, s[1], i ? "redo: the field is as after, with the same cards" : "event: the field follows it",
				        i ? "redo: the values are as after" : "event: turn, LP, phase, chain and blocked zones follow it");
				Client::undo_parse_event(b, e);
				compare(b, s[0], "undo: the field is as before", "undo: the values are as before");
			}
			sym_reach("undone");
		}
		else
		{
			Client::parse_event(plain, e);
			compare(plain, s[1], "event: the field follows it", "event: turn, LP, phase, chain and blocked zones follow it");
			sym_check(Card::live == (int)s[1].m.count(), "event: no card is lost or leaked");
			sym_check(s[1].made == plain.frame().builder().next, "event: exactly the announced cards are made");
		}
		sym_reach("followed");
	}
	sym_check(Card::live == 0, "the board takes its cards with it, those in limbo included");
}
