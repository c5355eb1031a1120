// A query about a card: what it says, and only that, becomes the card's.
#include <proto_eq.h>
#include <sym.h>
#include <vector>
#include <ygopen/client/card.hpp>
#include <ygopen/client/default_card_traits.hpp>
#include <ygopen/client/frame.hpp>
#include <ygopen/client/parse_query.hpp>
#include <ygopen/client/undoable.hpp>
#include <ygopen/proto/duel/msg.hpp>

using namespace YGOpen;
using Proto::Duel::Counter;
using Proto::Duel::Place;
using QData = Proto::Duel::Msg::Query::Data;
using Proto::Duel::Msg;

namespace
{
// name, width, cache bit
#define NUMBERS(F)                                                                                               \
	F(code, 32, 0x1) F(position, 32, 0x2) F(alias, 32, 0x4) F(type, 32, 0x8) F(level, 32, 0x10) F(xyz_rank, 32, 0x20) \
	F(attribute, 32, 0x40) F(race, 64, 0x80) F(atk, 32, 0x100) F(def, 32, 0x200) F(base_atk, 32, 0x400)           \
	F(base_def, 32, 0x800) F(owner, 32, 0x40000) F(status, 32, 0x80000) F(is_public, 1, 0x100000)                 \
	F(pend_l_scale, 32, 0x200000) F(pend_r_scale, 32, 0x400000) F(is_hidden, 1, 0x1000000)                        \
	F(cover, 32, 0x2000000) F(link_rate, 32, 0x100000000) F(link_arrow, 32, 0x200000000)
const unsigned NUM = 21, EQUIP = 21, TARGETS = 22, COUNTERS = 23, FIELDS = 24;
const uint64_t EQUIP_BIT = 0x4000;

template<unsigned W>
uint64_t cut(uint64_t v) { return W == 64 ? v : v & ((uint64_t{1} << (W % 64)) - 1); }

using D = Client::DefaultCardTraits;
template<typename T>
using U = Client::BasicUndoable<T>;
struct UndoTraits
{
#define X(NAME, Name, name, value) using Name##Type = U<D::Name##Type>;
#define EXPAND_ARRAY_LIKE_QUERIES
#define EXPAND_SEPARATE_LINK_DATA_QUERIES
#include <ygopen/client/queries.inl>
#undef EXPAND_SEPARATE_LINK_DATA_QUERIES
#undef EXPAND_ARRAY_LIKE_QUERIES
#undef X
};

// The values of a card.
struct Vals
{
	uint64_t num[NUM] = {};
	Place equip;
	std::vector<Place> targets;
	std::vector<Counter> counters;
};
uint64_t number(unsigned i)
{
	unsigned k = 0;
#define F(name, w, bit) \
	if(k++ == i) return sym_bits(w, #name);
	NUMBERS(F)
#undef F
	return 0;
}
void place(Place* p)
{
	// Copying tests for zero.
	p->set_con(1);
	uint32_t s = sym_u32("seq"), l = sym_u32("loc");
	int32_t o = sym_i32("oseq");
	sym_assume((unsigned)(s != 0) & (unsigned)(o != 0) & (unsigned)(l != 0));
	p->set_loc(l);
	p->set_seq(s);
	p->set_oseq(o);
}
void counter(Counter* c)
{
	uint32_t t = sym_u32("type"), n = sym_u32("count");
	sym_assume((unsigned)(t != 0) & (unsigned)(n != 0));
	c->set_type(t);
	c->set_count(n);
}
template<typename Card>
void read(Card const& c, Vals& v)
{
	unsigned k = 0;
#define F(name, w, bit) v.num[k++] = cut<w>((uint64_t)(Client::Detail::ValueTypeOrT<std::remove_cv_t<std::remove_reference_t<decltype(c.name())>>> const&)c.name());
	NUMBERS(F)
#undef F
	v.equip = (Place const&)c.equipped_to();
	std::vector<Place> const& t = c.targets();
	std::vector<Counter> const& n = c.counters();
	v.targets.assign(t.begin(), t.end());
	v.counters.assign(n.begin(), n.end());
}
template<typename Card>
unsigned is(Card const& c, Vals const& v)
{
	unsigned k = 0, ok = 1;
#define F(name, w, bit) ok &= (unsigned)(cut<w>((uint64_t)(Client::Detail::ValueTypeOrT<std::remove_cv_t<std::remove_reference_t<decltype(c.name())>>> const&)c.name()) == v.num[k++]);
	NUMBERS(F)
#undef F
	ok &= (unsigned)peq::eq((Place const&)c.equipped_to(), v.equip);
	std::vector<Place> const& t = c.targets();
	std::vector<Counter> const& n = c.counters();
	if(t.size() != v.targets.size() || n.size() != v.counters.size()) return 0;
	for(size_t i = 0; i < t.size(); i++) ok &= (unsigned)peq::eq(t[i], v.targets[i]);
	for(size_t i = 0; i < n.size(); i++) ok &= (unsigned)peq::eq(n[i], v.counters[i]);
	return ok;
}
void put(QData& d, Vals const& v, unsigned i)
{
	unsigned k = 0;
#define F(name, w, bit) \
	if(k++ == i) d.mutable_##name()->set_value(static_cast<std::remove_reference_t<decltype(d.name().value())>>(v.num[i]));
	NUMBERS(F)
#undef F
	if(i == EQUIP) *d.mutable_equipped_to()->mutable_value() = v.equip;
	if(i == TARGETS)
	{
		d.mutable_targets();
		for(auto const& p : v.targets) *d.mutable_targets()->add_values() = p;
	}
	if(i == COUNTERS)
	{
		d.mutable_counters();
		for(auto const& c : v.counters) *d.mutable_counters()->add_values() = c;
	}
}
uint64_t bit_of(unsigned i)
{
	static const uint64_t bits[] = {
#define F(name, w, bit) bit,
		NUMBERS(F)
#undef F
		EQUIP_BIT, 0, 0};
	return bits[i];
}
template<typename Card>
void set(Card& c, Vals const& v)
{
	unsigned k = 0;
#define F(name, w, bit) \
	c.name() = static_cast<Client::Detail::ValueTypeOrT<std::remove_reference_t<decltype(c.name())>>>(v.num[k++]);
	NUMBERS(F)
#undef F
	c.equipped_to() = v.equip;
	c.targets().assign(v.targets.begin(), v.targets.end());
	c.counters().assign(v.counters.begin(), v.counters.end());
}
size_t size(const char* n)
{
	static const size_t sizes[] = {0, 1, 2, 17};
	if(sym_param("huge", 0)) return 300;
	return sizes[sym_choice(4, n)];
}
void fresh(Vals& v, unsigned i, bool first = false)
{
	if(i < NUM) v.num[i] = number(i);
	if(i == EQUIP) place(&v.equip);
	if(i == TARGETS)
	{
		v.targets.resize(first ? 1 : size("targets"));
		for(auto& p : v.targets) place(&p);
	}
	if(i == COUNTERS)
	{
		v.counters.resize(first ? 1 : size("counters"));
		for(auto& c : v.counters) counter(&c);
	}
}
void copy(Vals& to, Vals const& v, unsigned i)
{
	if(i < NUM) to.num[i] = v.num[i];
	if(i == EQUIP) to.equip = v.equip;
	if(i == TARGETS) to.targets = v.targets;
	if(i == COUNTERS) to.counters = v.counters;
}
unsigned equal(Vals const& a, Vals const& b, unsigned i)
{
	if(i < NUM) return (unsigned)(a.num[i] == b.num[i]);
	return (unsigned)peq::eq(a.equip, b.equip);
}
template<typename Card>
void undo(Card& c, unsigned i)
{
	if constexpr(!std::is_same_v<typename Card::CodeType, uint32_t>)
	{
		unsigned k = 0;
#define F(name, w, bit) \
		if(k++ == i) c.name().undo();
		NUMBERS(F)
#undef F
		if(i == EQUIP) c.equipped_to().undo();
		if(i == TARGETS) c.targets().undo();
		if(i == COUNTERS) c.counters().undo();
	}
}

template<typename Traits, bool cached>
void query()
{
	using Card = Client::BasicCard<Traits>;
	Client::BasicFrame<Card> f;
	// Three cards: in a pile, on a zone and under it.
	static const struct { int con; uint32_t loc, seq; int32_t oseq; } at[] = {{0, 0x02, 0, -1}, {1, 0x04, 3, -1}, {1, 0x04, 3, 0}};
	Card* cards[3];
	Place places[3];
	for(unsigned i = 0; i < 3; i++)
	{
		places[i].set_con(at[i].con);
		places[i].set_loc(at[i].loc);
		places[i].set_seq(at[i].seq);
		places[i].set_oseq(at[i].oseq);
		cards[i] = &f.card_add(places[i]);
	}
	unsigned me = (unsigned)sym_choice(3, "card");
	Vals old, other;
	for(unsigned i = 0; i < FIELDS; i++) fresh(old, i, true);
	for(unsigned i = 0; i < 3; i++) set(*cards[i], i == me ? old : other);
	// All fields or none, but for two.
	bool huge = sym_param("huge", 0) != 0; // the lists, long
	bool all = !huge && sym_choice(2, "all") != 0;
	unsigned i1 = huge ? (unsigned)TARGETS : (unsigned)sym_choice(FIELDS, "one");
	unsigned i2 = huge ? (unsigned)COUNTERS : (unsigned)sym_choice(FIELDS, "two");
	sym_assume(i1 <= i2);
	Msg::Query q;
	*q.mutable_place() = places[me];
	auto& d = *q.mutable_data();
	Vals now = old;
	uint64_t bits = 0, hit = 0;
	bool there[FIELDS];
	for(unsigned i = 0; i < FIELDS; i++)
	{
		bool sel = i == i1 || i == i2;
		there[i] = cached || huge ? all || sel : all != sel;
		if(!there[i]) continue;
		Vals v = old;
		// With the cache: unselected fields repeat what the card has.
		if(sel || !cached) fresh(v, i);
		put(d, v, i);
		copy(now, v, i);
		bits |= bit_of(i);
		if(cached && i <= EQUIP) hit |= equal(now, old, i) ? bit_of(i) : 0;
	}
	auto got = Client::parse_query<cached>(f, q);
	uint64_t h = (uint64_t)got;
	sym_check(h == hit, cached ? "exactly the fields that were already so are reported as hits" : "without a cache nothing is a hit");
	sym_check(is(*cards[me], now), "the card has what the query says and keeps the rest");
	for(unsigned i = 0; i < 3; i++)
		if(i != me) sym_check(is(*cards[i], other), "other cards are left alone");
	if(!std::is_same_v<typename Card::CodeType, uint32_t>)
	{
		// Every field set, and no field hit, has one more value in its history.
		for(unsigned i = 0; i < FIELDS; i++)
			if(there[i] && !(h & bit_of(i))) undo(*cards[me], i);
		sym_check(is(*cards[me], old), "what was set, and nothing else, can be undone");
	}
	sym_reach("queried");
}
} // namespace

HARNESS(query_plain) { query<D, false>(); }
HARNESS(query_cached) { query<D, true>(); }
HARNESS(query_history) { query<UndoTraits, false>(); }
HARNESS(query_history_cached) { query<UndoTraits, true>(); }
