// Core (edo9300 ocgcore) message bytes, built from symbolic field values
// together with the protobuf value those fields mean.
#pragma once
#include <cstdlib>
#include <cstring>
#include <google/protobuf/arena.h>
#include <proto_eq.h>
#include <sym.h>
#include <vector>
#include <ygopen/codec/edo9300_ocgcore_encode.hpp>
#include <ygopen/proto/duel/data.hpp>
#include <ygopen/proto/duel/msg.hpp>

namespace wire
{
using namespace YGOpen;
using Proto::Duel::Msg;
using Proto::Duel::Place;
using Proto::Duel::Effect;
using Codec::EncodeOneResult;

static inline uint32_t pick(bool c, uint32_t a, uint32_t b)
{
	uint32_t m = 0U - (uint32_t)c;
	return (a & m) | (b & ~m);
}

struct W
{
	uint8_t b[1U << 14];
	size_t n = 0;
	template<typename T>
	void put(T v)
	{
		std::memcpy(b + n, &v, sizeof(T));
		n += sizeof(T);
	}
	void u8(uint8_t v) { put(v); }
	void u16(uint16_t v) { put(v); }
	void u32(uint32_t v) { put(v); }
	void u64(uint64_t v) { put(v); }
	void junk(size_t k)
	{
		while(k-- > 0)
			put(sym_u8("junk"));
	}
	// Exactly sized copy: any access past the message is out of bounds.
	uint8_t* exact() const
	{
		auto* p = static_cast<uint8_t*>(std::malloc(n));
		std::memcpy(p, b, n);
		return p;
	}
};

static inline uint8_t con(W& w)
{
	uint8_t c = (uint8_t)sym_bits(1, "con");
	w.u8(c);
	return c;
}

enum Kind
{
	FULL,  // any single-bit core location, materials, every spell sequence
	PLAIN, // main deck, hand, monster zone or graveyard; not a material
};

struct Info
{
	uint32_t con, loc, seq;
	int32_t oseq;
	void to(Place& p) const
	{
		p.set_con((int32_t)con);
		p.set_loc(loc);
		p.set_seq(seq);
		p.set_oseq(oseq);
	}
};

// seqw/posw: bytes of the fields; posw 0: no position (never a material).
static inline Info info(W& w, Kind k = FULL, unsigned seqw = 4, unsigned posw = 4, unsigned locw = 1)
{
	Info r{};
	r.con = con(w);
	uint32_t loc;
	uint32_t mat = 0;
	if(k == FULL)
	{
		uint32_t sel = (uint32_t)sym_bits(3, "loc");
		loc = (1U << sel) >> 1;
		if(posw != 0) mat = (uint32_t)sym_bits(1, "material");
	}
	else
	{
		uint32_t sel = (uint32_t)sym_bits(2, "loc");
		loc = pick(sel == 3U, 0x10U, 1U << sel);
	}
	uint32_t raw = loc | (mat << 7);
	if(locw == 1)
		w.u8((uint8_t)raw);
	else
		w.u32(raw);
	uint32_t seq = (uint32_t)sym_bits(seqw * 8, "seq");
	sym_assume(loc != 8U || seq <= 7U);
	if(seqw == 4)
		w.u32(seq);
	else
		w.u8((uint8_t)seq);
	r.oseq = -1;
	if(posw != 0)
	{
		uint32_t pos = (uint32_t)sym_bits(posw * 8, "pos");
		sym_assume((mat == 0U) | (pos < 0x80000000U));
		w.u32(pos);
		r.oseq = (int32_t)pick(mat != 0U, pos, 0xFFFFFFFFU);
	}
	bool spec = (loc == 8U) & (seq > 4U);
	bool field = seq == 5U;
	r.loc = pick(spec, pick(field, 0x100U, 0x200U), loc);
	r.seq = pick(spec, pick(field, 0U, seq - 6U), seq);
	return r;
}

static inline uint32_t code(W& w)
{
	uint32_t c = sym_u32("code");
	w.u32(c);
	return c;
}

static inline void effect(W& w, Effect& e)
{
	uint32_t c = sym_u32("effect_code");
	uint32_t i = (uint32_t)sym_bits(20, "effect_index");
	w.u64(((uint64_t)c << 20) | i);
	e.set_code(c);
	e.set_index(i);
}

static inline uint32_t maxn() { return (uint32_t)sym_param("n", 2); }

// A number of entries in [lo, n], or one of some large ones: past what a signed
// byte holds and, where the count is no byte itself, past what a byte holds.
static const uint32_t MOST = 259;
enum Width { WORD, BYTE };
static inline uint32_t count(const char* name = "count", uint32_t lo = 0, Width wd = WORD)
{
	static const uint32_t many[] = {7, 40, 131, MOST};
	if(sym_param("big", 0)) return many[sym_choice(wd == BYTE ? 3 : 4, name)];
	return lo + (uint32_t)sym_choice(maxn() + 1 - lo, name);
}

// Also which element takes every location (the others are plain, to bound the
// paths).
struct List
{
	uint32_t n, full;
	explicit List(const char* name = "count", uint32_t lo = 0, Width wd = WORD)
	{
		n = count(name, lo, wd);
		if(sym_param("big", 0))
			full = (uint32_t)sym_choice(3, "full") * (n - 1) / 2;
		else
			full = n > 1 ? (uint32_t)sym_choice(n, "full") : 0;
	}
	Kind kind(uint32_t i) const { return i == full ? FULL : PLAIN; }
};

static inline bool eqp(Place const& a, Place const& b) { return peq::eq(a, b); }

// The context: answers are symbolic, calls are recorded.
struct Ctx final : Codec::IEncodeContext
{
	uint32_t size[2][8] = {};
	uint32_t reason = 0;
	bool mats = false;
	Place left;
	std::vector<Place> deferred;
	// Recorded mutations.
	enum Op { REASON, DEFER, TAKE, LEFT };
	struct Call { Op op; Place a, b; uint32_t v; };
	std::vector<Call> calls;
	// Recorded questions.
	mutable std::vector<Place> asked_mat, asked_left;

	static unsigned slot(uint32_t loc)
	{
		switch(loc)
		{
		case 0x01: return 0;
		case 0x02: return 1;
		case 0x10: return 2;
		case 0x20: return 3;
		case 0x40: return 4;
		default: return 7;
		}
	}
	uint32_t get(uint32_t con, uint32_t loc) const
	{
		return pick(con != 0, size[1][slot(loc)], size[0][slot(loc)]);
	}

	auto pile_size(Con c, Loc l) const noexcept -> size_t override
	{
		sym_check(((uint32_t)c) <= 1U, "pile sizes are asked of an existing controller");
		sym_check(slot((uint32_t)l) != 7, "sizes are only asked of piles");
		return get((uint32_t)c, (uint32_t)l);
	}
	auto get_match_win_reason() const noexcept -> uint32_t override { return reason; }
	auto has_xyz_mat(Place const& p) const noexcept -> bool override
	{
		asked_mat.push_back(p);
		return mats;
	}
	auto get_xyz_left(Place const& p) const noexcept -> Place override
	{
		asked_left.push_back(p);
		return left;
	}
	auto match_win_reason(uint32_t v) noexcept -> void override { calls.push_back({REASON, {}, {}, v}); }
	auto xyz_mat_defer(Place const& p) noexcept -> void override { calls.push_back({DEFER, p, {}, 0}); }
	auto take_deferred_xyz_mat() noexcept -> std::vector<Place> override
	{
		calls.push_back({TAKE, {}, {}, 0});
		return std::exchange(deferred, {});
	}
	auto xyz_left(Place const& a, Place const& b) noexcept -> void override { calls.push_back({LEFT, a, b, 0}); }
};

static inline bool framing() { return sym_param("what", 0) == 1; }

static inline uint64_t low(Place const& p)
{
	return (uint64_t)p.con() ^ ((uint64_t)p.loc() << 8) ^ ((uint64_t)p.seq() << 32) ^ (uint64_t)(uint32_t)p.oseq();
}

// Encodes w and decides either its framing or its content.
static inline void decide(W& w, Ctx& ctx, EncodeOneResult::State st, Msg const* want)
{
	google::protobuf::Arena arena;
	uint8_t* data = w.exact();
	auto r = Codec::Edo9300::OCGCore::encode_one(arena, ctx, data);
	sym_observe("state", (uint64_t)r.state);
	sym_observe("bytes", r.bytes_read);
	if(framing())
	{
		sym_check(r.state == st, "the message is classified as encoded, swallowed or unknown as it should");
		if(st != EncodeOneResult::State::UNKNOWN)
			sym_check(r.bytes_read == w.n, "exactly the bytes of the message are consumed");
		sym_check((r.msg != nullptr) == (r.state == EncodeOneResult::State::OK),
		          "a message is returned if and only if the state says so");
		if(r.msg != nullptr)
			sym_check(r.msg->t_case() != Msg::T_NOT_SET || r.msg->queries_size() > 0 || w.b[0] == 6,
			          "a returned message is an event, a request or queries");
		sym_reach("framed");
	}
	else
	{
		sym_check(r.state == st, "the message is encoded");
		if(want != nullptr)
		{
			sym_check(r.msg != nullptr, "a message is produced");
			if(r.msg == nullptr) { sym_end_path(); return; }
			sym_check(peq::eq(*r.msg, *want), "the encoded message says exactly what the core said");
			sym_reach("compared");
		}
	}
	std::free(data);
}

static inline void untouched(Ctx const& ctx)
{
	sym_check(ctx.calls.empty(), "messages about neither moves nor the match leave the context alone");
}

static inline void decide_ok(W& w, Msg const& want)
{
	Ctx ctx;
	decide(w, ctx, EncodeOneResult::State::OK, &want);
	untouched(ctx);
}
} // namespace wire
