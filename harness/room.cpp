// The room: what every client is sent, against a model that only knows the
// rules. Clients compare each event with what they are to receive next.
#include <array>
#include <cassert>
#include <cstddef>
#include <functional>
#include <proto_eq.h>
#include <string_view>
#include <sym.h>
#include <vector>
#include <ygopen/server/room.hpp>

namespace
{
using namespace YGOpen;
using Ev = Server::RoomEvent;
using Sig = Server::RoomSignal;
using Options = Proto::Room::Options;

const unsigned MAX_CLIENTS = 310;

struct Client
{
	std::vector<Ev> due; // what it is to be sent, in order
	size_t got = 0, owed = 0;
	unsigned id = 0;
	bool counts = false; // only how many, not which
	void expect(Ev const& e)
	{
		owed++;
		if(!counts) due.push_back(e);
	}
	auto send(Ev const& e) noexcept -> void
	{
		if(counts)
		{
			sym_check(got++ < owed, "nobody is told what does not concern them");
			return;
		}
		sym_check(got < due.size(), "nobody is told what does not concern them");
		sym_check(peq::eq(e, due[got]), "everyone is told exactly what happened");
		got++;
	}
	auto fill_user(Proto::User& u) const noexcept -> void
	{
		char name[2] = {(char)('a' + id), 0};
		u.set_name(name, 1);
	}
};

// The verdict of the next check, and what it has to be about.
struct Validator
{
	mutable bool verdict = false;
	mutable bool touches = true;
	mutable uint32_t card = 0, reason = 0;
	mutable unsigned asked = 0;
	char banlist = 0;
	auto check(std::string_view id, Proto::Deck const& d, Proto::DeckError& e) const noexcept -> bool
	{
		asked++;
		bool about = id.size() == (banlist != 0 ? 1U : 0U) && (banlist == 0 || id[0] == banlist);
		about = about && d.data().main_cards_size() == 1 && d.data().main_cards(0) == card;
		sym_check(about, "the deck is checked against the room's banlist");
		if(touches) e.mutable_out_of_limit()->set_got(reason);
		return verdict;
	}
};
struct Factory
{
	auto make_duel() const noexcept -> void {}
};
// Random numbers: as many as it takes.
struct Rng
{
	using result_type = uint32_t;
	std::vector<uint32_t> const* values = nullptr;
	size_t at = 0;
	static constexpr auto min() -> uint32_t { return 0; }
	static constexpr auto max() -> uint32_t { return 0xFFFFFFFFU; }
	auto operator()() -> uint32_t
	{
		sym_check(at < values->size(), "no more random numbers are drawn than it takes");
		return (*values)[at++];
	}
};
struct Traits
{
	using ClientType = Client;
	using DeckValidatorType = Validator;
	using CoreDuelFactoryType = Factory;
	using RNGType = Rng;
};
using Room = Server::BasicRoom<Traits>;

uint32_t below(uint32_t n, const char* name)
{
	uint32_t v = sym_u32(name);
	sym_assume(v < n);
	return (uint32_t)sym_concretize(v);
}

struct Seat
{
	int client = -1;
	bool deck = false, ready = false;
};

struct World
{
	Client c[MAX_CLIENTS];
	Validator v;
	Factory f;
	std::vector<uint32_t> random;
	Options given;
	uint32_t max[2] = {1, 1};
	Seat seat[2][3];
	bool watching[MAX_CLIENTS] = {};
	unsigned entered = 0;
	int state = 1; // configuring, deciding the first turn
	uint32_t method = 0;
	Options told; // the options as newcomers are told
	alignas(Room) unsigned char room[sizeof(Room)];

	auto r() -> Room& { return *reinterpret_cast<Room*>(room); }
	World()
	{
		for(unsigned i = 0; i < MAX_CLIENTS; i++) c[i].id = i;
	}
	unsigned watchers() const
	{
		unsigned n = 0;
		for(unsigned i = 0; i < entered; i++) n += watching[i];
		return n;
	}
	void duelist(Proto::Room::Duelist& d, uint32_t t, uint32_t p, bool ready)
	{
		d.set_team(t);
		d.set_pos(p);
		c[seat[t][p].client].fill_user(*d.mutable_user());
		d.set_is_host(seat[t][p].client == 0);
		d.set_is_ready(ready);
	}
	void all(Ev const& e)
	{
		for(auto& t : seat)
			for(auto& s : t)
				if(s.client >= 0) c[s.client].expect(e);
		for(unsigned i = 0; i < entered; i++)
			if(watching[i]) c[i].expect(e);
	}
	void told_everything()
	{
		unsigned ok = 1;
		for(unsigned i = 0; i < entered; i++) ok &= (unsigned)(c[i].got == c[i].owed);
		sym_check(ok, "everyone is told everything that concerns them");
	}
	// The next client enters.
	void enter()
	{
		unsigned n = entered++;
		Ev snap;
		auto* es = snap.mutable_configuring()->mutable_entering_state();
		*es->mutable_options() = told;
		for(uint32_t t = 0; t < 2; t++)
			for(uint32_t p = 0; p < 3; p++)
				if(seat[t][p].client >= 0) duelist(*es->add_duelists(), t, p, seat[t][p].ready);
		es->set_spectator_count(watchers());
		c[n].expect(snap);
		uint32_t count[2] = {0, 0};
		for(uint32_t t = 0; t < 2; t++)
			for(uint32_t p = 0; p < 3; p++) count[t] += seat[t][p].client >= 0;
		Ev e;
		if(count[0] >= max[0] && count[1] >= max[1])
		{
			watching[n] = true;
			e.set_spectator_count(watchers());
		}
		else
		{
			uint32_t t = count[0] >= max[0] ? 1 : count[1] >= max[1] ? 0 : count[1] < count[0] ? 1 : 0;
			uint32_t p = 0;
			while(seat[t][p].client >= 0) p++;
			seat[t][p].client = (int)n;
			duelist(*e.mutable_configuring()->mutable_duelist_enters(), t, p, false);
		}
		all(e);
		if(n == 0)
			new(room) Room(v, f, Rng{&random}, c[0], given);
		else
			r().enter(c[n]);
		told_everything();
	}
	Seat* find(unsigned n, uint32_t& t, uint32_t& p)
	{
		for(t = 0; t < 2; t++)
			for(p = 0; p < 3; p++)
				if(seat[t][p].client == (int)n) return &seat[t][p];
		return nullptr;
	}
	void deck(unsigned n, bool verdict)
	{
		Sig s;
		v.verdict = verdict;
		v.touches = !sym_param("bare", 0);
		v.card = sym_u32("card");
		v.reason = sym_u32("reason");
		sym_assume((unsigned)(v.card != 0) & (unsigned)(v.reason != 0));
		s.mutable_configuring()->mutable_update_deck()->mutable_data()->add_main_cards(v.card);
		uint32_t t, p;
		Seat* at = state == 1 ? find(n, t, p) : nullptr;
		unsigned asks = v.asked;
		if(at)
		{
			at->deck = verdict;
			Ev e;
			auto* d = e.mutable_configuring()->mutable_deck_status();
			if(!verdict)
			{
				d->mutable_deck_error();
				if(v.touches) d->mutable_deck_error()->mutable_out_of_limit()->set_got(v.reason);
			}
			c[n].expect(e);
		}
		r().visit(c[n], s);
		told_everything();
		sym_check(v.asked - asks == (at ? 1U : 0U), "only decks of seated players are checked, once");
	}
	void ready(unsigned n, bool yes)
	{
		Sig s;
		s.mutable_configuring()->set_ready_status(yes);
		uint32_t t, p;
		Seat* at = state == 1 ? find(n, t, p) : nullptr;
		if(at && at->ready != yes && (!yes || at->deck))
		{
			at->ready = yes;
			Ev e;
			duelist(*e.mutable_configuring()->mutable_update_duelist(), t, p, yes);
			all(e);
		}
		r().visit(c[n], s);
		told_everything();
	}
	void start(unsigned n)
	{
		Sig s;
		s.mutable_configuring()->set_start_dueling(sym_bool("flag"));
		bool ok = state == 1 && n == 0;
		for(auto& t : seat)
		{
			unsigned players = 0;
			for(auto& x : t)
				if(x.client >= 0)
				{
					players++;
					ok = ok && x.deck && x.ready;
				}
			ok = ok && players > 0;
		}
		if(ok)
		{
			state = 2;
			{
				Ev e;
				e.mutable_deciding_first_turn()->mutable_entering_state();
				all(e);
			}
			decide();
		}
		r().visit(c[n], s);
		told_everything();
	}
	void ask(unsigned n)
	{
		Ev e;
		e.mutable_deciding_first_turn()->set_decide_first_turn(true);
		c[n].expect(e);
	}
	unsigned leader(uint32_t team)
	{
		for(auto& s : seat[team])
			if(s.client >= 0) return (unsigned)s.client;
		return 0;
	}
	// What starting the duel leads to; the random numbers are chosen here.
	void decide()
	{
		Ev e;
		auto* res = e.mutable_deciding_first_turn()->mutable_result();
		switch(method)
		{
		case 1: break; // not there yet
		case 2:
		{
			unsigned ties = below((uint32_t)sym_param("ties", 2) + 1, "ties");
			uint32_t winner = 0;
			for(unsigned i = 0; i <= ties; i++)
			{
				unsigned bits = (unsigned)sym_param("bits", 32);
				uint32_t a = (uint32_t)sym_bits(bits, "die"), b = (uint32_t)sym_bits(bits, "die");
				random.push_back(a);
				random.push_back(b);
				a = a % 6 + 1;
				b = b % 6 + 1;
				sym_assume((a == b) == (i < ties));
				auto* d = res->mutable_dice()->add_results();
				d->set_team0(a);
				d->set_team1(b);
				winner = a < b ? 1 : 0;
			}
			res->set_team_going_first(winner);
			all(e);
			ask(leader(winner));
			break;
		}
		case 3:
		{
			random.push_back(sym_u32("coin"));
			uint32_t side = (uint32_t)sym_concretize(random.back() & 1U);
			res->set_team_going_first(side);
			res->set_coin_result(side != 0 ? Ev::DecidingFirstTurn::Result::COIN_RESULT_TAILS
			                               : Ev::DecidingFirstTurn::Result::COIN_RESULT_HEADS);
			all(e);
			ask(leader(side));
			break;
		}
		default: ask(0); break;
		}
	}
	void go_first(unsigned n)
	{
		Sig s;
		uint32_t team = sym_u32("team");
		s.mutable_deciding_first_turn()->set_team_going_first(team);
		if(state == 2 && method == 0 && n == 0 && team <= 1)
		{
			Ev e;
			e.mutable_deciding_first_turn()->mutable_result()->set_team_going_first(team);
			all(e);
		}
		r().visit(c[n], s);
		told_everything();
	}
	void silence(unsigned n)
	{
		Sig s;
		switch(below(3, "nothing"))
		{
		case 0: break;
		case 1: s.mutable_configuring(); break;
		default: s.mutable_deciding_first_turn(); break;
		}
		r().visit(c[n], s);
		told_everything();
	}
	// Any signal of any client present.
	void signal()
	{
		unsigned n = below(entered, "who");
		switch(below(7, "signal"))
		{
		case 0: deck(n, true); break;
		case 1: deck(n, false); break;
		case 2: ready(n, true); break;
		case 3: ready(n, false); break;
		case 4: start(n); break;
		case 5: go_first(n); break;
		default: silence(n); break;
		}
	}
	// Options with that many seats per team.
	void seats(uint32_t a, uint32_t b)
	{
		max[0] = a;
		max[1] = b;
		given.add_max_duelists(a);
		given.add_max_duelists(b);
		told.add_max_duelists(a);
		told.add_max_duelists(b);
	}
	void first_turn(uint32_t m)
	{
		method = m;
		given.set_ftdm((Proto::Room::FirstTurnDecideMethod)m);
		told.set_ftdm((Proto::Room::FirstTurnDecideMethod)m);
	}
	void banlist(char b)
	{
		char s[2] = {b, 0};
		v.banlist = b;
		given.set_banlist_id(s, 1);
		told.set_banlist_id(s, 1);
	}
	// A seated player in the middle of getting ready.
	void prepare(unsigned n, uint64_t how)
	{
		if(how >= 1) deck(n, true);
		if(how >= 2) ready(n, true);
		if(how >= 3) deck(n, false);
	}
};
} // namespace

// Any options, and as many visitors as it takes to fill the room and more.
HARNESS(room_enter)
{
	World& w = *new World;
	unsigned n = (unsigned)sym_param("limits", 2);
	for(unsigned i = 0; i < n; i++)
	{
		uint32_t v = sym_u32("max");
		w.given.add_max_duelists(v);
		if(i < 2) w.max[i] = v < 1 ? 1 : v > 3 ? 3 : v;
	}
	for(auto& m : w.max)
	{
		m = (uint32_t)sym_concretize(m);
		w.told.add_max_duelists(m);
	}
	uint32_t m = sym_u32("method");
	w.given.set_ftdm((Proto::Room::FirstTurnDecideMethod)m);
	m = m > 3 ? 0 : (uint32_t)sym_concretize(m);
	w.method = m;
	w.told.set_ftdm((Proto::Room::FirstTurnDecideMethod)m);
	switch(below(3, "banlist"))
	{
	case 0: break;
	case 1: w.banlist('z'); break;
	default:
		w.given.mutable_custom_banlist();
		w.told.mutable_custom_banlist();
		break;
	}
	if(below(2, "deck limits"))
	{
		uint32_t lo = sym_u32("min");
		sym_assume(lo != 0);
		w.given.mutable_deck_limits()->mutable_main()->set_min(lo);
		w.told.mutable_deck_limits()->mutable_main()->set_min(lo);
	}
	for(unsigned i = 0; i < (unsigned)sym_param("visitors", 8); i++) w.enter();
	w.r().~Room();
	sym_reach("entered");
}
// A crowd of watchers.
HARNESS(room_crowd)
{
	World& w = *new World;
	w.seats(1, 1);
	w.first_turn(0);
	unsigned n = (unsigned)sym_param("visitors", 260);
	for(unsigned i = 0; i < n; i++)
	{
		// Some only count what they are told.
		w.c[i].counts = i > 3 && (i & 31) != 31;
		w.enter();
	}
	for(unsigned i = 0; i < 2; i++) w.prepare(i, 2);
	w.start(0);
	w.go_first(0);
	w.r().~Room();
	sym_reach("entered");
}
// A room being prepared: any state of the players, any signals of anyone.
HARNESS(room_ready)
{
	World& w = *new World;
	uint32_t a = (uint32_t)sym_param("a", 1), b = (uint32_t)sym_param("b", 1);
	w.seats(a, b);
	w.first_turn((uint32_t)sym_param("method", 0));
	if(sym_param("banlist", 1)) w.banlist('z');
	unsigned players = (unsigned)sym_param("players", 2), watchers = (unsigned)sym_param("watchers", 1);
	for(unsigned i = 0; i < players + watchers; i++) w.enter();
	// the others are ready
	unsigned any = (unsigned)sym_param("any", players);
	for(unsigned i = 0; i < players; i++) w.prepare(i, i < any ? below(4, "prepared") : 2);
	for(unsigned i = 0, n = (unsigned)sym_param("steps", 2); i < n; i++) w.signal();
	// newcomers are told of it, too
	if(w.state == 1) w.enter();
	w.r().~Room();
	sym_reach("signalled");
}
// Starting: everyone ready but for at most one, any random numbers, then
// signals of anyone.
HARNESS(room_start)
{
	World& w = *new World;
	uint32_t a = (uint32_t)sym_param("a", 1), b = (uint32_t)sym_param("b", 1);
	w.seats(a, b);
	w.first_turn((uint32_t)sym_param("method", 0));
	unsigned players = (unsigned)sym_param("players", 2), watchers = (unsigned)sym_param("watchers", 1);
	for(unsigned i = 0; i < players + watchers; i++) w.enter();
	unsigned lazy = below(players + 1, "lazy");
	uint64_t how = lazy < players ? below(4, "prepared") : 0;
	for(unsigned i = 0; i < players; i++) w.prepare(i, i == lazy ? how : 2);
	w.start(below(w.entered, "starter"));
	for(unsigned i = 0, n = (unsigned)sym_param("steps", 1); i < n; i++) w.signal();
	if(w.state == 2) sym_reach("started");
	w.r().~Room();
	sym_reach("signalled");
}
