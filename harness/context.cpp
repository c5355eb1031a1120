// The encoder's standard context: what it remembers, and what its board says.
#include <proto_eq.h>
#include "fcommon.hpp"
#include <ygopen/server/basic_encode_context.hpp>

namespace
{
using Ctx = Server::BasicEncodeContext;
using Proto::Duel::Msg;

// Any place; those of one run only differ in the given fields.
struct Raw
{
	int32_t con;
	uint32_t loc, seq;
	int32_t oseq;
	static uint32_t field(unsigned i, const char* n)
	{
		static uint32_t common[4];
		static bool known[4];
		if((sym_param("fields", 15) >> i) & 1) return sym_u32(n);
		if(!known[i]) common[i] = sym_u32("common");
		known[i] = true;
		return common[i];
	}
	explicit Raw(const char* n) : con((int32_t)field(0, n)), loc(field(1, n)), seq(field(2, n)), oseq((int32_t)field(3, n)) {}
	// What is copied is tested for zero field by field.
	Raw& copied()
	{
		if(!sym_param("zero", 0)) sym_assume((unsigned)(con != 0) & (unsigned)(loc != 0) & (unsigned)(seq != 0) & (unsigned)(oseq != 0));
		return *this;
	}
	Place place() const
	{
		Place p;
		p.set_con(con);
		p.set_loc(loc);
		p.set_seq(seq);
		p.set_oseq(oseq);
		return p;
	}
	unsigned is(Raw const& o) const
	{
		return (unsigned)(con == o.con) & (unsigned)(loc == o.loc) & (unsigned)(seq == o.seq) & (unsigned)(oseq == o.oseq);
	}
	unsigned is(Place const& o) const
	{
		return (unsigned)(con == o.con()) & (unsigned)(loc == o.loc()) & (unsigned)(seq == o.seq()) & (unsigned)(oseq == o.oseq());
	}
};
unsigned empty(Place const& p)
{
	return (unsigned)(p.con() == 0) & (unsigned)(p.loc() == 0) & (unsigned)(p.seq() == 0) & (unsigned)(p.oseq() == 0);
}
struct Left
{
	Raw at, from;
};
// What a lookup must answer: the last registration of that very place.
unsigned answers(std::vector<Left> const& log, Raw const& at, Place const& got)
{
	unsigned ok = empty(got);
	for(auto const& l : log)
	{
		unsigned hit = at.is(l.at);
		ok = (hit & l.from.is(got)) | ((hit ^ 1U) & ok);
	}
	return ok;
}
} // namespace

// Every interleaving of what the encoder tells the context and asks of it.
HARNESS(ctx_memory)
{
	Ctx c;
	Codec::IEncodeContext& ctx = c;
	std::vector<Left> left;
	std::vector<Raw> deferred;
	uint32_t reason = 0;
	unsigned steps = (unsigned)sym_param("steps", 3);
	for(unsigned i = 0; i <= steps; i++)
	{
		// the last step asks
		switch(i < steps ? sym_choice(6, "step") : 3 + sym_choice(3, "last"))
		{
		case 0:
			reason = sym_u32("reason");
			ctx.match_win_reason(reason);
			break;
		case 1:
		{
			Raw p("deferred");
			ctx.xyz_mat_defer(p.place());
			deferred.push_back(p);
			break;
		}
		case 2:
		{
			Left l{Raw("left"), Raw("from")};
			l.from.copied();
			ctx.xyz_left(l.at.place(), l.from.place());
			left.push_back(l);
			break;
		}
		case 3:
			sym_check(ctx.get_match_win_reason() == reason, "the match win reason is the last one told, 0 at first");
			break;
		case 4:
		{
			auto v = ctx.take_deferred_xyz_mat();
			unsigned ok = (unsigned)(v.size() == deferred.size());
			if(ok)
				for(size_t k = 0; k < v.size(); k++) ok &= deferred[k].is(v[k]);
			sym_check(ok, "deferred materials are handed out once, in order");
			deferred.clear();
			break;
		}
		case 5:
		{
			Raw at("asked");
			sym_check(answers(left, at, ctx.get_xyz_left(at.place())), "a place answers with the last card that left it, if any");
			break;
		}
		}
	}
	sym_reach("asked");
}
// Longer histories of deferred materials.
// Many cards left before, some of them several times.
HARNESS(ctx_left_many)
{
	Ctx c;
	Codec::IEncodeContext& ctx = c;
	std::vector<Left> left;
	unsigned n = (unsigned)sym_param("many", 60);
	for(unsigned i = 0; i < n; i++)
	{
		unsigned k = i % 7 == 6 ? i / 2 : i;
		Left l{Raw("left"), Raw("from")};
		l.at.con = (int32_t)(k & 1);
		l.at.loc = fm::PILES[k / 2 % 5];
		l.at.seq = k / 10 + 1;
		l.at.oseq = -1;
		l.from.copied();
		ctx.xyz_left(l.at.place(), l.from.place());
		left.push_back(l);
	}
	Raw at("asked");
	sym_check(answers(left, at, ctx.get_xyz_left(at.place())), "a place answers with the last card that left it, if any");
	sym_reach("asked");
}

HARNESS(ctx_deferred)
{
	Ctx c;
	Codec::IEncodeContext& ctx = c;
	uint32_t many = (uint32_t)sym_param("many", 6);
	auto count = [&] { return sym_param("exact", 0) ? many : (uint32_t)sym_choice(many + 1, "count"); };
	for(unsigned round = 0; round < 3; round++)
	{
		std::vector<Raw> deferred;
		for(uint32_t i = 0, n = count(); i < n; i++)
		{
			Raw p("deferred");
			ctx.xyz_mat_defer(p.place());
			deferred.push_back(p);
		}
		auto v = ctx.take_deferred_xyz_mat();
		unsigned ok = (unsigned)(v.size() == deferred.size());
		if(ok)
			for(size_t k = 0; k < v.size(); k++) ok &= deferred[k].is(v[k]);
		sym_check(ok, "deferred materials are handed out once, in order");
	}
	sym_reach("taken");
}
// Longer histories of cards that left.
HARNESS(ctx_left)
{
	Ctx c;
	Codec::IEncodeContext& ctx = c;
	std::vector<Left> left;
	unsigned steps = (unsigned)sym_param("steps", 3);
	for(unsigned i = 0; i < steps; i++)
	{
		Left l{Raw("left"), Raw("from")};
		l.from.copied();
		ctx.xyz_left(l.at.place(), l.from.place());
		left.push_back(l);
	}
	Raw at("asked");
	sym_check(answers(left, at, ctx.get_xyz_left(at.place())), "a place answers with the last card that left it, if any");
	sym_reach("asked");
}

namespace
{
// Scripted changes take arbitrary but fixed choices and numbers; infeasible
// ones are taken anew.
bool scripted = false, retry = false;
uint64_t script = 0;
void seed()
{
	scripted = retry = false;
	script = 88172645463325252ULL + sym_param("script", 0) * 7919;
}
uint32_t rnd()
{
	script = script * 6364136223846793005ULL + 1442695040888963407ULL;
	return (uint32_t)(script >> 33);
}
uint64_t choice(uint64_t n, const char* name) { return scripted ? rnd() % n : sym_choice(n, name); }
uint32_t upto(size_t n, const char* name) { return scripted ? rnd() % (uint32_t)n : below(n, name); }
#define NEED(c, ...) \
	do \
	{ \
		if(!scripted) sym_assume(c); \
		else if(!(c)) \
		{ \
			retry = true; \
			return __VA_ARGS__; \
		} \
	} while(0)
uint32_t made;
At spot(unsigned i)
{
	uint32_t w = (uint32_t)sym_param("world", 0);
	At a{};
	a.oseq = -1;
	a.con = (w + i) & 1;
	if(i < 2)
		a.li = (w + 2 * i) % 5;
	else
	{
		a.li = 5 + (w + i) % 5;
		a.seq = (w + i) % fm::ZLIM[a.li - 5];
	}
	return a;
}
At pick(Model& m, unsigned more, const char* n)
{
	At a = spot((unsigned)choice(4, n));
	if(a.pile())
	{
		size_t z = m.P(a).size() + more;
		NEED(z > 0, a);
		a.seq = upto(z, n);
	}
	else
	{
		size_t z = m.Z(a).mats.size() + more;
		bool top = (m.Z(a).card != 0) != (more != 0);
		NEED(z + top > 0, a);
		a.oseq = (int32_t)upto(z + top, n) - (top ? 1 : 0);
	}
	return a;
}
// A message with one operation on the field, and its effect on the model.
void change(Msg& msg, Model& m, unsigned kind)
{
	auto* e = msg.mutable_event();
	switch(kind)
	{
	case 0:
	{
		At a = pick(m, 1, "add");
		*e->mutable_card()->mutable_add()->add_places() = a.place();
		if(!retry) m.add(a, ++made);
		break;
	}
	case 1:
	{
		At a = pick(m, 0, "remove");
		*e->mutable_card()->mutable_remove()->add_places() = a.place();
		if(!retry) m.take(a);
		break;
	}
	case 2:
	{
		At a = pick(m, 0, "from");
		if(retry) return;
		Model l(m);
		l.take(a);
		At b = pick(l, 1, "to");
		if(retry) return;
		NEED(m.can_move(a, b));
		NEED(a.pile() || a.oseq >= 0 || b.pile() || b.oseq < 0 || &m.Z(a) != &m.Z(b));
		auto* op = e->mutable_card()->mutable_move()->add_ops();
		*op->mutable_old_place() = a.place();
		*op->mutable_new_place() = b.place();
		m.move(a, b);
		break;
	}
	case 3:
	{
		At a = spot((unsigned)choice(2, "pile")), b = spot((unsigned)choice(2, "to"));
		a.seq = upto(m.P(a).size() + 1, "start");
		uint32_t n = upto(m.P(a).size() - a.seq + 1, "count");
		size_t zb = m.P(b).size() - (&m.P(a) == &m.P(b) ? n : 0);
		b.seq = upto(zb + 1, "dest");
		auto* op = e->mutable_pile()->mutable_splice()->add_ops();
		*op->mutable_from() = a.place();
		op->set_count(n);
		*op->mutable_to() = b.place();
		m.splice(a, n, b, false);
		break;
	}
	case 4:
	{
		At a = spot((unsigned)choice(2, "pile"));
		uint32_t n = upto(4, "count");
		auto* op = e->mutable_pile()->mutable_resize()->add_ops();
		*op->mutable_place() = a.place();
		op->set_count(n);
		m.P(a).resize(n, 1);
		break;
	}
	case 5:
	{
		auto* op = e->mutable_pile()->mutable_exchange()->add_ops();
		At a = spot(0), b = spot(1);
		*op->mutable_place_a() = a.place();
		*op->mutable_place_b() = b.place();
		if(&m.P(a) != &m.P(b)) m.P(a).swap(m.P(b));
		break;
	}
	default: // about no card
		e->set_next_phase((scripted ? rnd() : sym_u32("phase")));
		break;
	}
}
void answers(Codec::IEncodeContext& ctx, Model& m)
{
	unsigned ok = 1;
	for(uint32_t c = 0; c < 2; c++)
	{
		for(unsigned l = 0; l < 5; l++)
			ok &= (unsigned)(ctx.pile_size((Duel::Controller)c, (Duel::Location)fm::PILES[l]) == m.pile[c][l].size());
		for(unsigned l = 0; l < 5; l++)
			for(uint32_t s = 0; s < fm::ZLIM[l]; s++)
				for(int32_t o = -1; o < 1; o++)
					ok &= (unsigned)(ctx.has_xyz_mat(fm::mk(c, fm::ZONES[l], s, o)) != m.zone[c][fm::ZOFF[l] + s].mats.empty());
	}
	sym_check(ok, "pile sizes and materials are as the messages said");
}
} // namespace

// What the context's board answers after messages of any kind.
HARNESS(ctx_board)
{
	seed();
	Ctx c;
	Codec::IEncodeContext& ctx = c;
	Model m;
	answers(ctx, m);
	unsigned cards = (unsigned)sym_param("cards", 2);
	for(unsigned i = 0; i < 3; i++)
		for(unsigned k = 0; k < cards; k++)
		{
			At a = spot(i);
			a.pile() ? void(a.seq = k) : void(a.oseq = (int32_t)k - 1);
			Msg msg;
			*msg.mutable_event()->mutable_card()->mutable_add()->add_places() = a.place();
			m.add(a, ++made);
			c.parse(msg);
		}
	answers(ctx, m);
	for(unsigned i = 0, n = (unsigned)sym_param("steps", 2); i < n; i++)
	{
		Msg msg;
		unsigned kind = (unsigned)sym_choice(8, "kind");
		if(kind < 7)
			change(msg, m, kind);
		else
			msg.mutable_request()->mutable_select_yes_no();
		// queries are about cards that are there
		if(sym_choice(2, "query"))
		{
			for(unsigned k = 0; k < 3; k++)
			{
				At a = spot(k);
				if(!m.has(a)) continue;
				auto* q = msg.add_queries();
				*q->mutable_place() = a.place();
				q->mutable_data()->mutable_code()->set_value(sym_u32("code"));
			}
		}
		c.parse(msg);
		answers(ctx, m);
	}
	sym_reach("followed");
}

// A long history around any change.
HARNESS(ctx_board_long)
{
	seed();
	Ctx c;
	Codec::IEncodeContext& ctx = c;
	Model m;
	answers(ctx, m);
	for(unsigned i = 0, n = (unsigned)sym_param("steps", 30); i < n; i++)
	{
		scripted = i != sym_param("free", 0);
		Model before(m);
		while(true)
		{
			retry = false;
			Msg msg;
			static const unsigned often[] = {0, 0, 0, 0, 0, 0, 1, 2, 2, 2, 2, 3, 3, 4, 5, 6};
			unsigned kind = scripted ? often[rnd() % 16] : (unsigned)sym_param("kind", 0);
			change(msg, m, kind);
			if(retry)
			{
				m = before;
				continue;
			}
			c.parse(msg);
			break;
		}
		answers(ctx, m);
	}
	sym_reach("followed");
}
