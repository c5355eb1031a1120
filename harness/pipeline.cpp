// Encoder, standard context and board together: the messages of a small model
// of the core, encoded and then given to the context and to a board.
#include "wire.hpp"

#include "fcommon.hpp"
#include <list>
#include <memory>
#include <ygopen/server/basic_encode_context.hpp>
#include <ygopen/client/board.hpp>
#include <ygopen/client/parse_event.hpp>
#include <ygopen/client/parse_query.hpp>
#include <ygopen/client/undo_parse_event.hpp>
#include <ygopen/client/undoable.hpp>
#include <ygopen/duel/constants/phase.hpp>

namespace
{
using fm::Ids;
using wire::W;
using Proto::Duel::Msg;
using State = Codec::EncodeOneResult::State;

// A card of the library, told apart.
struct Known : Client::BasicCard<Client::DefaultCardTraits>
{
	uint32_t id{};
	Known() noexcept { Card::live++; }
	Known(Known&& o) noexcept : BasicCard(std::move(o)), id(o.id) { Card::live++; }
	Known(Known const&) = delete;
	~Known() { Card::live--; }
};

// Cards are numbered as they are made.
template<typename C>
struct Builder
{
	uint32_t next = 0;
	auto build() noexcept -> C
	{
		C c;
		c.id = ++next;
		return c;
	}
};
template<typename F>
struct Traits
{
	using BlockedZonesType = std::vector<Place>;
	using ChainStackType = std::vector<Proto::Duel::Chain>;
	using FrameType = F;
	using LPType = uint32_t;
	using PhaseType = Duel::Phase;
	using TurnControllerType = Duel::Controller;
	using TurnType = uint32_t;
};
// No chains here (and the library has no chain stack with history).
struct NoChain
{
	template<typename... A>
	void assign(A const&...) {}
	template<typename... A>
	void push_back(A const&...) {}
	template<typename... A>
	void undo_push_back(A const&...) {}
	void pop_back() {}
	void undo_pop_back() {}
	void undo() {}
};
struct UndoTraits
{
	using BlockedZonesType = Client::BasicUndoable<std::vector<Place>>;
	using ChainStackType = NoChain;
	using FrameType = Client::LimboFrame<Card, Builder<Card>>;
	using LPType = Client::BasicUndoable<uint32_t>;
	using PhaseType = Client::BasicUndoable<Duel::Phase>;
	using TurnControllerType = Client::BasicUndoable<Duel::Controller>;
	using TurnType = Client::BasicUndoable<uint32_t>;
};

// Scripted actions take arbitrary but fixed choices and numbers.
bool scripted = false, retry = false, coarse = false;
uint64_t script = 0;
void seed()
{
	scripted = retry = false;
	coarse = true; // of many, the ends and the middle
	script = 88172645463325252ULL + sym_param("script", 0) * 7919;
}
uint32_t rnd()
{
	script = script * 6364136223846793005ULL + 1442695040888963407ULL;
	return (uint32_t)(script >> 33);
}
uint32_t pick(size_t n, const char* name)
{
	if(scripted) return rnd() % (uint32_t)n;
	return coarse && n > 8 ? below(3, name) * (uint32_t)(n - 1) / 2 : below(n, name);
}
uint32_t num(const char* name) { return scripted ? rnd() : sym_u32(name); }
#define NEED(c) \
	do \
	{ \
		if(!scripted) sym_assume(c); \
		else if(!(c)) \
		{ \
			retry = true; \
			return; \
		} \
	} while(0)

struct World
{
	google::protobuf::Arena arena;
	Server::BasicEncodeContext ctx;
	// Who follows: a plain board, one with history or one whose cards know their attributes.
	std::unique_ptr<Client::BasicBoard<Traits<Client::BasicFrame<Card, Builder<Card>>>>> plain;
	std::unique_ptr<Client::BasicBoard<UndoTraits>> undo;
	std::unique_ptr<Client::BasicBoard<Traits<Client::BasicFrame<Known, Builder<Known>>>>> known;
	// The rest of the core's state.
	struct Side
	{
		uint32_t lp[2] = {}, turn = 0, who = 0, phase = 0, blocked = 0;
		std::vector<uint32_t> chain; // codes of effects
	};
	Side s;
	// The events so far and the state before each (and after the last).
	std::list<Msg::Event const*> events;
	std::list<Model> fields{1};
	std::list<Side> sides{1};
	// What the core told about each card (by its number) so far.
	struct Told
	{
		uint32_t code = 0, pos = 0, atk = 0;
	};
	std::vector<Told> told;
	Model m; // materials wait where their card was
	uint32_t made = 0;

	// What the core says, and its field then.
	struct Said
	{
		W w;
		bool swallowed, anew;
		Model m;
		Side s;
	};
	std::vector<Said> said;
	void say(W const& w, bool swallowed = false, bool anew = false) { said.push_back({w, swallowed, anew, m, s}); }
	void flush()
	{
		for(auto& x : said) tell(x);
		said.clear();
	}
	// Encodes a message of the core and has everyone follow.
	void tell(Said& now)
	{
		W& w = now.w;
		bool swallowed = now.swallowed;
		Model& m = now.m;
		uint8_t* data = w.exact();
		auto r = Codec::Edo9300::OCGCore::encode_one(arena, ctx, data);
		sym_check(r.state == (swallowed ? State::SWALLOWED : State::OK) && r.bytes_read == w.n, "the message is encoded");
		if(r.msg != nullptr)
		{
			ctx.parse(*r.msg);
			if(r.msg->t_case() == Msg::kEvent)
			{
				auto const& e = r.msg->event();
				if(plain) Client::parse_event(*plain, e);
				if(known) Client::parse_event(*known, e);
				if(undo) Client::parse_event(*undo, e);
				if(now.anew) renumber(m);
				if(undo)
				{
					events.push_back(&e);
					fields.push_back(m);
					sides.push_back(now.s);
				}
			}
			if(known)
				for(auto const& q : r.msg->queries()) (void)Client::parse_query(known->frame(), q);
		}
		std::free(data);
		if(plain)
		{
			sym_check(fm::same(plain->frame(), m, idof), "the board's field is the core's field");
			unsigned ok = sided(*plain, now.s) & (unsigned)(plain->chain_stack().size() == now.s.chain.size());
			for(size_t i = 0; ok && i < now.s.chain.size(); i++) ok &= (unsigned)(plain->chain_stack()[i].effect().code() == now.s.chain[i]);
			sym_check(ok, "the board's LP, turn, phase, chain and blocked zones are the core's");
		}
		if(undo)
		{
			sym_check(fm::same(undo->frame(), m, idof), "the board's field is the core's field");
			sym_check(sided(*undo, now.s), "the board's LP, turn, phase and blocked zones are the core's");
		}
		if(known)
		{
			sym_check(fm::same(known->frame(), m, [](Known const& c) { return c.id; }), "the board's field is the core's field");
			sym_check(knows(m), "each card knows what the core told about it");
			return;
		}
		unsigned ok = 1;
		Codec::IEncodeContext& c = ctx;
		for(uint32_t p = 0; p < 2; p++)
		{
			for(unsigned l = 0; l < 5; l++)
				ok &= (unsigned)(c.pile_size((Duel::Controller)p, (Duel::Location)fm::PILES[l]) == m.pile[p][l].size());
			for(unsigned l = 0; l < 5; l++)
				for(uint32_t s = 0; s < fm::ZLIM[l]; s++)
					ok &= (unsigned)(c.has_xyz_mat(fm::mk(p, fm::ZONES[l], s)) != m.zone[p][fm::ZOFF[l] + s].mats.empty());
		}
		sym_check(ok, "the context's field is the core's field");
	}
	template<typename B>
	static unsigned sided(B& b, Side const& s)
	{
		unsigned ok = (unsigned)((uint32_t)b.turn() == s.turn) & (unsigned)((uint32_t)(Duel::Controller)b.turn_controller() == s.who);
		for(uint32_t c = 0; c < 2; c++) ok &= (unsigned)((uint32_t)b.lp((Duel::Controller)c) == s.lp[c]);
		ok &= (unsigned)((uint32_t)(Duel::Phase)b.phase() == s.phase);
		uint32_t blocked = 0;
		for(auto const& p : static_cast<std::vector<Place> const&>(b.blocked_zones()))
		{
			uint32_t bit = p.loc() == 4 ? p.seq() : p.loc() == 8 ? 8 + p.seq() : p.loc() == 0x100 ? 13 : 14 + p.seq();
			blocked |= 1U << ((bit & 15) + 16 * ((uint32_t)p.con() & 1));
		}
		return ok & (unsigned)(blocked == s.blocked);
	}
	// All cards are new to the board; it may number them as it likes.
	void renumber(Model& m)
	{
		auto with = [&](auto& f, auto id)
		{
			uint32_t most = made;
			auto one = [&](uint32_t& to, auto const* c)
			{
				if(to == 0 || c == nullptr) return; // told apart later
				to = id(*c);
				sym_check(to > made, "a field made anew has new cards");
				most = to > most ? to : most;
			};
			for(uint32_t c = 0; c < 2; c++)
			{
				for(unsigned l = 0; l < 5; l++)
				{
					auto const& p = f.pile((Duel::Controller)c, (Duel::Location)fm::PILES[l]);
					auto& w = m.pile[c][l];
					for(size_t i = 0; i < w.size() && i < p.size(); i++) one(w[i], p[i]);
				}
				for(unsigned l = 0; l < 5; l++)
					for(uint32_t q = 0; q < fm::ZLIM[l]; q++)
					{
						auto const& z = f.zone((Duel::Controller)c, (Duel::Location)fm::ZONES[l], q);
						auto& w = m.zone[c][fm::ZOFF[l] + q];
						one(w.card, z.card);
						for(size_t i = 0; i < w.mats.size() && i < z.materials.size(); i++) one(w.mats[i], z.materials[i]);
					}
			}
			sym_check(most == made + m.count(), "a field made anew has as many cards as the core's");
			made = most;
		};
		if(plain) with(plain->frame(), idof);
		if(undo) with(undo->frame(), idof);
		if(known) with(known->frame(), [](Known const& c) { return c.id; });
		this->m = m;
	}
	unsigned knows(Model const& m)
	{
		unsigned ok = 1;
		Told nothing;
		auto one = [&](Known const& c)
		{
			Told const& t = c.id < told.size() ? told[c.id] : nothing;
			ok &= (unsigned)(c.code() == t.code) & (unsigned)((uint32_t)c.position() == t.pos) & (unsigned)((uint32_t)c.atk() == t.atk);
		};
		auto& f = known->frame();
		for(uint32_t c = 0; c < 2; c++)
		{
			for(unsigned l = 0; l < 5; l++)
				for(auto const& k : f.pile((Duel::Controller)c, (Duel::Location)fm::PILES[l])) one(*k);
			for(unsigned l = 0; l < 5; l++)
				for(uint32_t s = 0; s < fm::ZLIM[l]; s++)
				{
					auto const& z = f.zone((Duel::Controller)c, (Duel::Location)fm::ZONES[l], s);
					if(z.card) one(*z.card);
					for(auto const& k : z.materials) one(*k);
				}
		}
		return ok;
	}
};

// The way the core writes a place; over: as a material, at that position.
void loc(W& w, At a, int32_t over = -1)
{
	uint32_t l = a.loc();
	if(l == 0x100) l = 8, a.seq = 5;
	if(l == 0x200) l = 8, a.seq += 6;
	w.u8((uint8_t)a.con);
	w.u8((uint8_t)(l | (over >= 0 ? 0x80 : 0)));
	w.u32(a.seq);
	w.u32(over >= 0 ? (uint32_t)over : num("position"));
}
At at(uint32_t con, unsigned li, uint32_t seq, int32_t oseq = -1) { return At{con, li, seq, oseq}; }
W move_msg(At const& a, int32_t ao, At const& b, int32_t bo)
{
	W w;
	w.u8(50);
	w.u32(num("code"));
	loc(w, a, ao);
	loc(w, b, bo);
	w.u32(num("reason"));
	return w;
}
void move(World& x, At const& a, At const& b)
{
	W w = move_msg(a, a.oseq, b, b.oseq);
	x.m.move(a, b);
	x.say(w);
}

const unsigned SPOTS = 8;
// What this run's actions are about.
At spot(unsigned i)
{
	uint32_t c = (uint32_t)sym_param("con", 0);
	switch(i)
	{
	case 0: return at(c, 0, 0);     // deck
	case 1: return at(c, 1, 0);     // hand
	case 2: return at(c, 2, 0);     // graveyard
	case 3: return at(c, 4, 0);     // extra deck
	case 4: return at(c, 5, 2);     // monster zones
	case 5: return at(c, 5, 5);
	case 6: return at(c ^ 1, 5, 0);
	default: return at(c, 8, 1);    // pendulum zone
	}
}
// Some card there (not a material).
bool card(Model& m, At& a, const char* n)
{
	if(a.pile())
	{
		if(m.P(a).empty()) return false;
		a.seq = pick(m.P(a).size(), n);
		return true;
	}
	return m.Z(a).card != 0;
}
At some(unsigned lo, unsigned hi, const char* n) { return spot(lo + pick(hi - lo, n)); }
At end(Model& m, At a)
{
	a.pile() ? void(a.seq = m.P(a).size()) : void(a.oseq = (int32_t)m.Z(a).mats.size());
	return a;
}

void draw(World& x)
{
	At d = spot(0);
	auto &deck = x.m.P(d), &hand = x.m.P(spot(1));
	uint32_t n = pick(std::min<size_t>(deck.size(), 3) + 1, "draws");
	W w;
	w.u8(90);
	w.u8((uint8_t)d.con);
	w.u32(n);
	for(uint32_t i = 0; i < n; i++)
	{
		w.u32(num("code"));
		w.u32(num("position"));
		hand.push_back(deck.back());
		deck.pop_back();
	}
	x.say(w);
}
void any_move(World& x)
{
	At a = some(0, SPOTS, "from");
	NEED(card(x.m, a, "from"));
	Model left(x.m);
	left.take(a);
	At b = some(0, SPOTS, "to");
	if(b.pile())
	{
		// cards with materials leave in another way
		NEED(a.pile() || x.m.Z(a).mats.empty());
		b.seq = pick(left.P(b).size() + 1, "to");
	}
	else
		NEED(x.m.can_move(a, b) && x.m.Z(b).mats.empty() && x.m.Z(b).card == 0);
	move(x, a, b);
}
// A card becomes the last material of a card on the field.
void attach(World& x)
{
	At b = some(4, SPOTS, "to");
	NEED(x.m.Z(b).card != 0);
	At a = some(0, SPOTS, "from");
	if(!a.pile() && pick(2, "material"))
	{
		auto& s = x.m.Z(a).mats;
		NEED(!s.empty() && &s != &x.m.Z(b).mats);
		a.oseq = (int32_t)pick(s.size(), "from");
	}
	else
	{
		NEED(card(x.m, a, "from"));
		NEED(a.pile() || (x.m.Z(a).mats.empty() && &x.m.Z(a) != &x.m.Z(b)));
	}
	move(x, a, end(x.m, b));
}
void detach(World& x)
{
	At a = some(4, SPOTS, "from");
	auto& s = x.m.Z(a).mats;
	NEED(!s.empty());
	a.oseq = (int32_t)pick(s.size(), "from");
	At b = some(0, SPOTS, "to");
	if(b.pile())
		b.seq = pick(x.m.P(b).size() + 1, "to");
	else
		NEED(x.m.Z(b).card == 0 && x.m.Z(b).mats.empty());
	move(x, a, b);
}
// A card of the extra deck is summoned; it gets its materials while still
// there, which the board only learns once it arrives.
void xyz_summon(World& x)
{
	At e = spot(3);
	NEED(card(x.m, e, "summoned"));
	Model core(x.m); // the core's field, with the attached cards set aside
	Ids mats;
	auto over = [&](At const& a)
	{
		W w = move_msg(a, a.oseq, e, (int32_t)mats.size());
		mats.push_back(core.take(a));
		x.say(w, true);
	};
	unsigned n = 1 + pick(2, "materials");
	for(unsigned i = 0; i < n; i++)
	{
		At a = some(1, SPOTS, "material");
		NEED(a.li != 4 && card(core, a, "material"));
		if(!a.pile())
		{
			// its own materials come first (some or all)
			a.oseq = 0;
			while(!core.Z(a).mats.empty()) over(a);
			a.oseq = -1;
		}
		over(a);
	}
	At z = some(4, SPOTS, "zone");
	NEED(core.Z(z).card == 0 && core.Z(z).mats.empty());
	W w = move_msg(e, -1, z, -1);
	core.Z(z).card = core.take(e);
	core.Z(z).mats = mats;
	x.m = core;
	x.say(w);
}
// A card with materials leaves; they follow one by one.
void xyz_leave(World& x)
{
	At z = some(4, SPOTS, "from");
	NEED(x.m.Z(z).card != 0 && !x.m.Z(z).mats.empty());
	At to = some(1, 4, "to");
	to.con ^= pick(2, "owner");
	to = end(x.m, to);
	move(x, z, to);
	unsigned stay = pick(2, "stays");
	while(x.m.Z(z).mats.size() > 0)
	{
		uint32_t i = pick(x.m.Z(z).mats.size(), "material");
		At g = spot(2);
		g.con ^= stay;
		g = end(x.m, g);
		W w = move_msg(to, (int32_t)i, g, -1);
		auto& s = x.m.Z(z).mats;
		x.m.P(g).push_back(s[i]);
		s.erase(s.begin() + i);
		x.say(w);
	}
}
void exchange(World& x)
{
	At a = some(4, SPOTS, "a"), b = some(4, SPOTS, "b");
	NEED(x.m.Z(a).card != 0 && x.m.Z(b).card != 0 && &x.m.Z(a) != &x.m.Z(b));
	W w;
	w.u8(55);
	w.u32(num("code"));
	loc(w, a);
	w.u32(num("code"));
	loc(w, b);
	std::swap(x.m.Z(a), x.m.Z(b));
	x.say(w);
}
void reverse_decks(World& x)
{
	W w;
	w.u8(37);
	for(auto& p : x.m.pile) std::reverse(p[0].begin(), p[0].end());
	x.say(w);
}
void swap_grave_deck(World& x)
{
	At d = spot(0), g = spot(2), e = spot(3);
	auto &deck = x.m.P(d), &gy = x.m.P(g), &ex = x.m.P(e);
	W w;
	w.u8(35);
	w.u8((uint8_t)d.con);
	uint32_t ins = pick(ex.size() + 1, "insert");
	w.u32(ins);
	w.u32((uint32_t)(gy.size() + 7) / 8);
	std::vector<uint32_t> bits;
	for(size_t i = 0; i < gy.size(); i += 8)
	{
		bits.push_back(pick((size_t)1 << std::min<size_t>(gy.size() - i, 8), "bits"));
		w.u8((uint8_t)bits.back());
	}
	Ids nd, ng(deck);
	for(size_t i = 0; i < gy.size(); i++)
		((bits[i / 8] >> (i % 8)) & 1U) ? void(ex.insert(ex.begin() + ins++, gy[i])) : nd.push_back(gy[i]);
	deck = nd;
	gy = ng;
	x.say(w);
}
void tag_swap(World& x)
{
	uint32_t c = spot(0).con;
	uint32_t n[3];
	for(auto& k : n) k = 1 + pick(2, "size");
	W w;
	w.u8(161);
	w.u8((uint8_t)c);
	w.u32(n[0]);
	w.u32(n[1]);
	w.u32(num("pendulums"));
	w.u32(n[2]);
	w.u32(num("top"));
	for(uint32_t i = 0; i < n[1] + n[2]; i++)
	{
		w.u32(num("code"));
		w.u32(num("position"));
	}
	const unsigned li[3] = {0, 4, 1};
	for(unsigned i = 0; i < 3; i++)
	{
		auto& p = x.m.pile[c][li[i]];
		while(p.size() > n[i]) p.pop_back();
		while(p.size() < n[i]) p.push_back(++x.made);
	}
	x.say(w);
}
// A card of the field ceases to be, or comes to be.
void token(World& x)
{
	At z = some(4, SPOTS, "zone");
	W w;
	w.u8(50);
	w.u32(num("code"));
	auto nowhere = [&]
	{
		w.u8((uint8_t)pick(2, "con"));
		w.u8(0);
		w.u32(num("nothing"));
		w.u32(num("nothing"));
	};
	auto& y = x.m.Z(z);
	NEED(y.mats.empty());
	if(y.card != 0)
	{
		loc(w, z);
		nowhere();
		y.card = 0;
	}
	else
	{
		nowhere();
		loc(w, z);
		y.card = ++x.made;
	}
	w.u32(num("reason"));
	x.say(w);
}
enum { PLAIN, UNDO, KNOWN };
void begin(World& x, unsigned who = PLAIN)
{
	if(who == PLAIN) x.plain.reset(new Client::BasicBoard<Traits<Client::BasicFrame<Card, Builder<Card>>>>);
	if(who == UNDO) x.undo.reset(new Client::BasicBoard<UndoTraits>);
	if(who == KNOWN) x.known.reset(new Client::BasicBoard<Traits<Client::BasicFrame<Known, Builder<Known>>>>);
	W w;
	w.u8(4);
	w.u8(sym_u8("rule"));
	for(auto& lp : x.s.lp) w.u32(lp = sym_u32("lp"));
	uint32_t size = (uint32_t)sym_param("deck", 3), extra = (uint32_t)sym_param("extra", 2);
	for(uint32_t c = 0; c < 2; c++)
	{
		w.u16((uint16_t)(size + 5));
		w.u16((uint16_t)(extra + 1));
		for(uint32_t i = 0; i < size + 5; i++) x.m.pile[c][0].push_back(++x.made);
		for(uint32_t i = 0; i < extra + 1; i++) x.m.pile[c][4].push_back(++x.made);
	}
	x.say(w);
	// Both get a hand, a graveyard, a monster and one with two materials.
	uint32_t c = spot(0).con;
	move(x, at(c, 0, 0), at(c, 1, 0));
	move(x, at(c, 0, 0), at(c, 2, 0));
	move(x, at(c, 0, 0), spot(5));
	move(x, at(c, 4, 0), spot(4));
	for(unsigned i = 0; i < (unsigned)sym_param("mats", 2); i++) move(x, at(c, 0, 0), end(x.m, spot(4)));
}
// The whole field anew.
void reload(World& x)
{
	W w;
	w.u8(162);
	w.u32(num("flags"));
	for(uint32_t c = 0; c < 2; c++)
	{
		w.u32(x.s.lp[c] = num("lp"));
		for(unsigned z = 0; z < 15; z++)
		{
			auto const& y = x.m.zone[c][z];
			w.u8(y.card != 0);
			if(y.card == 0) continue;
			w.u8((uint8_t)num("position"));
			w.u32((uint32_t)y.mats.size());
		}
		static const unsigned order[] = {0, 1, 2, 3, 4};
		for(auto l : order) w.u32((uint32_t)x.m.pile[c][l].size());
		w.u32(num("face-up extra deck"));
	}
	w.u32(0);
	x.s.chain.clear();
	x.say(w, false, true);
}
// Anything about the board but the field.
void talk(World& x)
{
	auto& s = x.s;
	W w;
	unsigned what = pick(x.plain ? 9 : 7, "what");
	uint32_t c = what < 6 && what != 1 ? pick(2, "con") : 0;
	switch(what)
	{
	case 0:
		w.u8(40);
		w.u8((uint8_t)c);
		s.turn++;
		s.who = c;
		break;
	case 1:
		w.u8(41);
		w.u16((uint16_t)(s.phase = (uint16_t)num("phase")));
		break;
	case 6:
	{
		static const uint32_t masks[] = {0, 1U << 13, 0x7F7FFF00U & ~0x800000U, 0x40002000U | 5U};
		w.u8(56);
		w.u32(s.blocked = masks[pick(4, "blocked")]);
		break;
	}
	case 7:
	{
		w.u8(70);
		w.u32(num("code"));
		loc(w, spot(4));
		w.u8(0);
		w.u8(4);
		w.u32(num("seq"));
		uint32_t code = num("effect");
		w.u64((uint64_t)code << 20);
		w.u32(num("chain num"));
		s.chain.push_back(code);
		break;
	}
	case 8:
		NEED(!s.chain.empty());
		w.u8(73);
		w.u8((uint8_t)num("chain num"));
		s.chain.pop_back();
		break;
	default:
	{
		static const uint8_t ids[] = {91, 92, 94, 100};
		w.u8(ids[what - 2]);
		w.u8((uint8_t)c);
		uint32_t v = num("amount") & (scripted ? 0xFFFFFU : 0xFFFFFFFFU);
		w.u32(v);
		auto& lp = s.lp[c];
		if(what == 3)
		{
			sym_assume(lp + v >= v);
			lp += v;
		}
		else if(what == 4) lp = v;
		else lp = v > lp ? 0 : lp - v;
		break;
	}
	}
	x.say(w);
}
enum { DRAW, MOVE, ATTACH, DETACH, SUMMON, LEAVE, EXCHANGE, REVERSE, GRAVE, TAG, TOKEN, RELOAD, TALK, KINDS };
void act(World& x, unsigned kind)
{
	switch(kind)
	{
	case DRAW: draw(x); break;
	case MOVE: any_move(x); break;
	case ATTACH: attach(x); break;
	case DETACH: detach(x); break;
	case SUMMON: xyz_summon(x); break;
	case LEAVE: xyz_leave(x); break;
	case EXCHANGE: exchange(x); break;
	case REVERSE: reverse_decks(x); break;
	case GRAVE: swap_grave_deck(x); break;
	case TAG: tag_swap(x); break;
	case TOKEN: token(x); break;
	case RELOAD: reload(x); break;
	default: talk(x); break;
	}
}
void step(World& x, unsigned kind)
{
	act(x, kind);
	x.flush();
}
// One action is free, all others follow a script, with infeasible ones taken
// anew.
void long_step(World& x, unsigned i)
{
	if(i == sym_param("free", 0))
	{
		step(x, (unsigned)sym_param("kind", 0));
		return;
	}
	scripted = true;
	Model before(x.m);
	auto side = x.s;
	uint32_t made = x.made;
	do
	{
		x.m = before;
		x.s = side;
		x.made = made;
		x.said.clear();
		retry = false;
		unsigned kind = rnd() % KINDS;
		if(kind == REVERSE || kind == TAG || kind == GRAVE || kind == RELOAD) kind = rnd() % KINDS;
		act(x, kind);
	} while(retry);
	scripted = false;
	x.flush();
}
} // namespace

// Histories of what the core does (k0, k1, ...: kinds fixed by the run).
HARNESS(pipeline)
{
	World& x = *new World;
	scripted = coarse = false;
	begin(x);
	x.flush();
	const char* k[] = {"k0", "k1", "k2"};
	for(unsigned i = 0, n = (unsigned)sym_param("steps", 1); i < n; i++)
	{
		uint64_t f = sym_param(k[i], KINDS);
		step(x, f < KINDS ? (unsigned)f : (unsigned)below(KINDS, "kind"));
	}
	sym_check((unsigned)Card::live == x.m.count(), "no card is lost or duplicated");
	sym_reach("followed");
}

// A long history around any action.
HARNESS(pipeline_long)
{
	World& x = *new World;
	seed();
	begin(x);
	x.flush();
	for(unsigned i = 0, n = (unsigned)sym_param("steps", 10); i < n; i++) long_step(x, i);
	sym_check((unsigned)Card::live == x.m.count(), "no card is lost or duplicated");
	sym_reach("followed");
}

namespace
{
void rewind(World& x, bool lng)
{
	auto e = x.events.end();
	auto f = --x.fields.end();
	auto s = --x.sides.end();
	auto back = [&](bool look)
	{
		Client::undo_parse_event(*x.undo, **--e);
		--f, --s;
		if(look) sym_check(fm::same(x.undo->frame(), *f, idof), "undo: the board's field is the core's field of then");
		if(look && f != x.fields.begin()) sym_check(World::sided(*x.undo, *s), "undo: LP, turn, phase and blocked zones are those of then");
	};
	auto forth = [&](bool look)
	{
		Client::parse_event(*x.undo, **e++);
		++f, ++s;
		if(look) sym_check(fm::same(x.undo->frame(), *f, idof), "redo: the board's field is the core's field again");
		if(look) sym_check(World::sided(*x.undo, *s), "redo: LP, turn, phase and blocked zones are those of then again");
	};
	for(unsigned i = 0; i < 3; i++) back(true);
	for(unsigned i = 0; i < 2; i++) forth(true);
	while(e != x.events.begin()) back(!lng || e == ++x.events.begin());
	while(e != x.events.end()) forth(!lng || e == --x.events.end());
}
} // namespace

// The same on a board with history, rewound in the end.
HARNESS(pipeline_undo)
{
	{
		std::unique_ptr<World> w(new World);
		World& x = *w;
		scripted = coarse = false;
		bool lng = sym_param("long", 0);
		if(lng) seed();
		begin(x, UNDO);
		x.flush();
		const char* k[] = {"k0", "k1", "k2"};
		for(unsigned i = 0, n = (unsigned)sym_param("steps", 1); i < n; i++)
		{
			if(lng) long_step(x, i);
			else step(x, (unsigned)sym_param(k[i], 0));
		}
		rewind(x, lng);
		sym_reach("rewound");
	}
	sym_check(Card::live == 0, "the board takes its cards with it, those in limbo included");
}

namespace
{
// The core's query of a card (or of no card).
void query(World& x, W& w, uint32_t id, Ids const& mats)
{
	if(id == 0)
	{
		w.u16(0);
		return;
	}
	if(x.told.size() <= x.made) x.told.resize(x.made + 1);
	auto section = [&](uint32_t flag, uint32_t v)
	{
		w.u16(8);
		w.u32(flag);
		w.u32(v);
	};
	unsigned what = (unsigned)sym_param("what", 7); // sections
	auto& t = x.told[id];
	if(what & 1) section(0x1, t.code = num("code"));
	if(what & 2) section(0x2, t.pos = num("position"));
	if(what & 4) section(0x100, t.atk = num("atk"));
	if(!mats.empty())
	{
		w.u16((uint16_t)(8 + 4 * mats.size()));
		w.u32(0x10000);
		w.u32((uint32_t)mats.size());
		for(auto m : mats) w.u32(x.told[m].code = num("code"));
	}
	w.u16(4);
	w.u32(0x80000000U);
}
// The core refreshes a card or all cards at a location.
void refresh(World& x)
{
	At a = spot(pick(SPOTS, "refreshed"));
	if(a.li == 8 && pick(2, "field zone")) a.li = 7, a.seq = 0;
	uint32_t l = a.pile() ? a.loc() : a.li == 5 ? 4 : 8;
	auto const& zone = x.m.zone[a.con];
	W w;
	if(pick(2, "all"))
	{
		w.u8(6);
		w.u8((uint8_t)a.con);
		w.u8((uint8_t)l);
		size_t at = w.n;
		w.u32(0);
		if(a.pile())
			for(auto id : x.m.P(a)) query(x, w, id, {});
		else
			for(unsigned s = l == 4 ? 0 : 7; s < (l == 4 ? 7U : 15U); s++) query(x, w, zone[s].card, zone[s].mats);
		uint32_t size = (uint32_t)(w.n - at - 4);
		std::memcpy(w.b + at, &size, 4);
	}
	else
	{
		NEED(card(x.m, a, "refreshed"));
		w.u8(7);
		w.u8((uint8_t)a.con);
		w.u8((uint8_t)l);
		w.u8((uint8_t)(a.seq + (a.li == 7 ? 5 : a.li == 8 ? 6 : 0)));
		if(a.pile()) query(x, w, x.m.P(a)[a.seq], {});
		else query(x, w, x.m.Z(a).card, x.m.Z(a).mats);
	}
	x.say(w);
}
void refresh_scripted(World& x)
{
	scripted = true;
	auto told = x.told;
	do
	{
		x.told = told;
		x.said.clear();
		retry = false;
		refresh(x);
	} while(retry);
	scripted = false;
	x.flush();
}
} // namespace

// What cards are known to be, refreshed and carried along.
HARNESS(pipeline_know)
{
	World& x = *new World;
	scripted = coarse = false;
	bool lng = sym_param("long", 0);
	if(lng) seed();
	begin(x, KNOWN);
	x.flush();
	const char* k[] = {"k0", "k1", "k2"};
	unsigned n = (unsigned)sym_param("steps", 1);
	unsigned at = (unsigned)sym_param("refresh", 0);
	for(unsigned i = 0; i < n; i++)
	{
		if(i == at)
		{
			refresh(x);
			x.flush();
		}
		if(lng)
		{
			if(i != at) refresh_scripted(x);
			long_step(x, i);
		}
		else step(x, (unsigned)sym_param(k[i], 0));
	}
	if(at == n)
	{
		refresh(x);
		x.flush();
	}
	sym_check((unsigned)Card::live == x.m.count(), "no card is lost or duplicated");
	sym_reach("known");
}
