// A field with history: back, forward, and on along another line.
#include "fcommon.hpp"

namespace
{
struct Builder
{
	uint32_t next = 0;
	auto build() noexcept -> Card
	{
		Card c;
		c.id = ++next;
		return c;
	}
};
using LF = Client::LimboFrame<Card, Builder>;
enum Kind { ADD, REMOVE, RESIZE, CLEAR, MOVE, KINDS };
struct Op
{
	unsigned kind;
	At a, b;
	uint32_t n;
};

// Scripted operations take arbitrary but fixed choices; infeasible ones are
// taken anew.
bool scripted = false, retry = false;
uint64_t x;
uint32_t rnd()
{
	x = x * 6364136223846793005ULL + 1442695040888963407ULL;
	return (uint32_t)(x >> 33);
}
uint64_t choice(uint64_t n, const char* name) { return scripted ? rnd() % n : sym_choice(n, name); }
uint32_t upto(size_t n, const char* name) { return scripted ? rnd() % (uint32_t)n : below(n, name); }
#define NEED(c, ...) \
	do \
	{ \
		if(!scripted) sym_assume(c); \
		else if(!(c)) { retry = true; return __VA_ARGS__; } \
	} while(0)

// A pile of one player and a zone of the other; they rotate with the world.
At spot(unsigned i)
{
	uint32_t w = (uint32_t)sym_param("world", 0);
	At a{};
	a.con = (w + i) & 1;
	a.oseq = -1;
	a.li = i ? 5 + w % 5 : w % 5;
	if(i) a.seq = (w * 3) % fm::ZLIM[a.li - 5];
	return a;
}
// A place of either spot that holds (0) or can receive (1) a card.
At pick(Model& m, unsigned more, const char* n)
{
	At a = spot((unsigned)choice(2, n));
	if(a.pile())
	{
		size_t z = m.P(a).size() + more;
		NEED(z > 0, a);
		a.seq = upto(z, n);
	}
	else
	{
		size_t z = m.Z(a).mats.size() + more;
		bool top = (m.Z(a).card != 0) != (more != 0);
		NEED(z + top > 0, a);
		a.oseq = (int32_t)upto(z + top, n) - (top ? 1 : 0);
	}
	return a;
}
// A new operation, and what it makes of the field.
Op make(Model& m, uint32_t& made)
{
	Op o{(unsigned)choice(sym_param("kinds", KINDS), "op"), {}, {}, 0};
	switch(o.kind)
	{
	case ADD:
		o.a = pick(m, 1, "add");
		if(retry) return o;
		m.add(o.a, ++made);
		break;
	case REMOVE:
		o.a = pick(m, 0, "remove");
		if(retry) return o;
		m.take(o.a);
		break;
	case RESIZE:
	{
		o.a = spot(0);
		o.n = upto(scripted ? 14 : 4, "size");
		auto& p = m.P(o.a);
		while(p.size() > o.n) p.pop_back();
		while(p.size() < o.n) p.push_back(++made);
		break;
	}
	case CLEAR: m = Model(); break;
	default:
	{
		o.a = pick(m, 0, "from");
		if(retry) return o;
		Model left(m);
		left.take(o.a);
		o.b = pick(left, 1, "to");
		if(retry) return o;
		NEED(m.can_move(o.a, o.b), o);
		NEED(o.a.pile() || o.a.oseq >= 0 || o.b.pile() || o.b.oseq < 0, o);
		m.move(o.a, o.b);
		break;
	}
	}
	return o;
}
// Clearing everything is rare.
Op make_scripted(Model& m, uint32_t& made)
{
	scripted = true;
	for(;;)
	{
		Model t(m);
		uint32_t k = made;
		retry = false;
		Op o = make(t, k);
		if(retry || (o.kind == CLEAR && rnd() % 3 != 0)) continue;
		m = t;
		made = k;
		scripted = false;
		return o;
	}
}
void forward(LF& f, Op const& o)
{
	switch(o.kind)
	{
	case ADD: f.card_add(o.a.place()); break;
	case REMOVE: f.card_remove(o.a.place()); break;
	case RESIZE: f.pile_resize(o.a.place(), o.n); break;
	case CLEAR: f.clear(); break;
	default: f.card_move(o.a.place(), o.b.place()); break;
	}
}
void back(LF& f, Op const& o)
{
	switch(o.kind)
	{
	case ADD: f.undo_card_add(o.a.place()); break;
	case REMOVE: f.undo_card_remove(o.a.place()); break;
	case RESIZE: f.undo_pile_resize(o.a.place(), o.n); break;
	case CLEAR: f.undo_clear(); break;
	default: f.card_move(o.b.place(), o.a.place()); break;
	}
}
} // namespace

HARNESS(limbo_branch)
{
	{
		LF f;
		std::vector<Model> m(1);
		std::vector<Op> ops;
		uint32_t made = 0;
		for(unsigned i = 0; i < 2 && !sym_param("empty", 0); i++)
		{
			At a = spot(i);
			for(unsigned k = 0; k < 2; k++)
			{
				if(a.pile()) a.seq = k;
				else a.oseq = (int32_t)k - 1;
				f.card_add(a.place());
				m[0].add(a, ++made);
			}
		}
		// Very long histories: the field is compared around their ends and every
		// now and then, and left at few points.
		bool far = sym_param("before", 0) > 100;
		auto step = [&](const char* what, size_t at)
		{
			if(far && at > 4 && at + 4 < ops.size() && at % 32 != 0) return;
			sym_check(fm::same(f, m[at], idof), what);
		};
		step("start", 0);
		uint64_t n1 = sym_param("first", 2), n2 = sym_param("second", 2);
		// So many more scripted ones in front.
		uint64_t n0 = sym_param("before", 0);
		bool fixed = true;
		x = 88172645463325252ULL + sym_param("script", 0) * 7919;
		size_t at = 0;
		auto grow = [&]
		{
			m.push_back(m.back());
			ops.push_back(fixed && at < n0 ? make_scripted(m.back(), made) : make(m.back(), made));
			forward(f, ops[at++]);
			step("a new operation does what it says", at);
			sym_check(made == f.builder().next, "exactly the needed cards are made");
		};
		auto to = [&](size_t t)
		{
			while(at > t)
			{
				back(f, ops[--at]);
				step("undoing brings back the field before", at);
			}
			while(at < t)
			{
				forward(f, ops[at++]);
				step("redoing brings back the field after, with the same cards", at);
			}
		};
		for(uint64_t i = 0; i < n0 + n1; i++) grow();
		if(n0 != 0)
		{
			// Forget part of it early on, too.
			to(sym_param("cut", 0));
			f.erase_history();
			m.resize(at + 1);
			ops.resize(at);
			while(at < n0 + n1) grow();
		}
		to(far ? (at - 1) * sym_choice(4, "back") / 3 : at - 1 - sym_choice(n0 + n1, "back"));
		if(sym_choice(2, "forward") && at < ops.size()) to(at + 1);
		f.erase_history();
		step("forgetting what came after leaves the field alone", at);
		m.resize(at + 1);
		ops.resize(at);
		fixed = false;
		for(uint64_t i = 0; i < n2; i++) grow();
		to(0);
		to(ops.size());
		f.erase_history();
		step("forgetting at the end changes nothing", at);
		to(0);
		sym_reach("branched");
	}
	sym_check(Card::live == 0, "the field takes all cards with it, forgotten ones included");
}
