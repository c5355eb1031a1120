From 145f87a2bc8c59b08187581c52381c1012a63d05 Mon Sep 17 00:00:00 2001
From: verif <v@v>
Date: Thu, 19 Nov 2026 16:46:00 +0000
Subject: [PATCH 01/15] fix: choosel/chooser honour a count of 0 and types
 wider than unsigned

---
 include/ygopen/bit.hpp | 8 +++-----
 1 file changed, 3 insertions(+), 5 deletions(-)

diff --git a/include/ygopen/bit.hpp b/include/ygopen/bit.hpp
index bf98a79..142802c 100644
--- a/include/ygopen/bit.hpp
+++ b/include/ygopen/bit.hpp
@@ -45,12 +45,10 @@ template<typename T>
 	static_assert(std::is_unsigned_v<T>);
 	T chosen = 0U;
 	unsigned i = std::numeric_limits<T>::digits;
-	while(i != 0U)
+	while(i != 0U && popcnt(chosen) < count)
 	{
-		chosen |= x & (1U << (i - 1U));
-		if(popcnt(chosen) >= count)
-			break;
 		i--;
+		chosen |= x & static_cast<T>(T{1U} << i);
 	}
 	return chosen;
 }
@@ -65,7 +63,7 @@ template<typename T>
 	unsigned i = 0;
 	while(i < std::numeric_limits<T>::digits && popcnt(chosen) < count)
 	{
-		chosen |= x & (1U << i);
+		chosen |= x & static_cast<T>(T{1U} << i);
 		i++;
 	}
 	return chosen;
-- 
2.43.0


From bba2fb53ac9b60b0219a71035f9b8291dd8001d5 Mon Sep 17 00:00:00 2001
From: verif <v@v>
Date: Thu, 19 Nov 2026 17:09:57 +0000
Subject: [PATCH 02/15] fix: reloaded materials are listed in the same zone as
 their card

---
 src/codec/edo9300_ocgcore_encode.cpp | 13 +++----------
 1 file changed, 3 insertions(+), 10 deletions(-)

diff --git a/src/codec/edo9300_ocgcore_encode.cpp b/src/codec/edo9300_ocgcore_encode.cpp
index c32e1cd..03a7d1c 100644
--- a/src/codec/edo9300_ocgcore_encode.cpp
+++ b/src/codec/edo9300_ocgcore_encode.cpp
@@ -889,18 +889,11 @@ auto encode_one(google::protobuf::Arena& arena, IEncodeContext& context,
 					if(read<uint8_t>(data, "has card") == 0U)
 						continue;
 					skip<CSPos>(data, "position (current)");
-					if(loc == LOCATION_SPELL_ZONE)
-					{
-						auto const [f_loc, f_seq] = fix_spell_loc_seq(loc, seq);
-						add_one(f_loc, f_seq, OSEQ_INVALID);
-					}
-					else
-					{
-						add_one(loc, seq, OSEQ_INVALID);
-					}
+					auto const [f_loc, f_seq] = fix_spell_loc_seq(loc, seq);
+					add_one(f_loc, f_seq, OSEQ_INVALID);
 					auto const mats = read<CCount>(data, "xyz mats count");
 					for(CCount oseq = 0U; oseq < mats; oseq++)
-						add_one(loc, seq, static_cast<COSeq>(oseq));
+						add_one(f_loc, f_seq, static_cast<COSeq>(oseq));
 				}
 			};
 			auto add_pile = [&](Location loc, CCount count)
-- 
2.43.0


From 3b8d3f52a327b474d5fb9df4a99e85722658c5c1 Mon Sep 17 00:00:00 2001
From: verif <v@v>
Date: Thu, 19 Nov 2026 17:17:23 +0000
Subject: [PATCH 03/15] fix: answers of field and pendulum zones use the core's
 spell zone sequences

---
 src/codec/edo9300_ocgcore_decode.cpp | 20 ++++++++++++++++++--
 1 file changed, 18 insertions(+), 2 deletions(-)

diff --git a/src/codec/edo9300_ocgcore_decode.cpp b/src/codec/edo9300_ocgcore_decode.cpp
index 1270796..10b8d2e 100644
--- a/src/codec/edo9300_ocgcore_decode.cpp
+++ b/src/codec/edo9300_ocgcore_decode.cpp
@@ -6,6 +6,7 @@
 #include "ygopen/codec/edo9300_ocgcore_decode.hpp"
 
 #include <cstring>
+#include <ygopen/duel/constants/location.hpp>
 #include <ygopen/duel/constants/phase.hpp>
 #include <ygopen/proto/duel/answer.hpp>
 #include <ygopen/proto/duel/msg.hpp>
@@ -217,9 +218,24 @@ auto decode_one_answer(Proto::Duel::Msg::Request const& request,
 		auto* ptr = out.data();
 		for(auto const& p : places)
 		{
+			// NOTE: The core knows the field zone and the pendulum zones only
+			// as the sequences that follow the spell zones.
+			using namespace YGOpen::Duel;
+			auto loc = p.loc();
+			auto seq = p.seq();
+			if(loc == LOCATION_FIELD_ZONE)
+			{
+				loc = LOCATION_SPELL_ZONE;
+				seq += 5U; // NOLINT
+			}
+			else if(loc == LOCATION_PENDULUM_ZONE)
+			{
+				loc = LOCATION_SPELL_ZONE;
+				seq += 6U; // NOLINT
+			}
 			write(ptr, static_cast<int8_t>(p.con()));
-			write(ptr, static_cast<int8_t>(p.loc()));
-			write(ptr, static_cast<int8_t>(p.seq()));
+			write(ptr, static_cast<int8_t>(loc));
+			write(ptr, static_cast<int8_t>(seq));
 		}
 		break;
 	}
-- 
2.43.0


From 73ad66d50acb2945476fea2aa76caf316ea59aa2 Mon Sep 17 00:00:00 2001
From: verif <v@v>
Date: Thu, 19 Nov 2026 17:41:07 +0000
Subject: [PATCH 04/15] fix: swapping a material uses its overlay sequence

---
 include/ygopen/client/frame.hpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/include/ygopen/client/frame.hpp b/include/ygopen/client/frame.hpp
index 2d99318..caf5cb1 100644
--- a/include/ygopen/client/frame.hpp
+++ b/include/ygopen/client/frame.hpp
@@ -397,11 +397,11 @@ public:
 			}
 			else if(!is_a_not_mat && is_b_not_mat)
 			{
-				std::swap(za.materials[a.seq()], zb.card);
+				std::swap(za.materials[a.oseq()], zb.card);
 			}
 			else // !is_a_not_mat && !is_b_not_mat
 			{
-				std::swap(za.materials[a.seq()], zb.materials[b.oseq()]);
+				std::swap(za.materials[a.oseq()], zb.materials[b.oseq()]);
 			}
 		}
 	}
-- 
2.43.0


From aac6f1f87e5a43b8fb9ecb3add7544be7ba892ad Mon Sep 17 00:00:00 2001
From: verif <v@v>
Date: Thu, 19 Nov 2026 17:54:00 +0000
Subject: [PATCH 05/15] fix: reaching YGOPEN_UNREACHABLE fails an assertion
 instead of being undefined

---
 include/ygopen/detail/config.hpp | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/include/ygopen/detail/config.hpp b/include/ygopen/detail/config.hpp
index 6bf0c07..968bc46 100644
--- a/include/ygopen/detail/config.hpp
+++ b/include/ygopen/detail/config.hpp
@@ -5,11 +5,12 @@
  */
 #ifndef YGOPEN_DETAIL_CONFIG_HPP
 #define YGOPEN_DETAIL_CONFIG_HPP
+#include <cassert>
 
 #ifdef _MSC_VER
-#define YGOPEN_UNREACHABLE() __assume(0)
+#define YGOPEN_UNREACHABLE() (assert(false), __assume(0))
 #else
-#define YGOPEN_UNREACHABLE() __builtin_unreachable()
+#define YGOPEN_UNREACHABLE() (assert(false), __builtin_unreachable())
 #endif // _MSC_VER
 
 #if !defined(YGOPEN_DISABLE_CONCEPTS) && defined(__cpp_concepts)
-- 
2.43.0


From 35d03cafac8ecf58bce92d5c1082b5fbf48ecfdf Mon Sep 17 00:00:00 2001
From: verif <v@v>
Date: Thu, 19 Nov 2026 17:54:00 +0000
Subject: [PATCH 06/15] fix: negative controllers are refused by the frame's
 assertions

---
 include/ygopen/client/frame.hpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/include/ygopen/client/frame.hpp b/include/ygopen/client/frame.hpp
index caf5cb1..8f477c7 100644
--- a/include/ygopen/client/frame.hpp
+++ b/include/ygopen/client/frame.hpp
@@ -614,7 +614,7 @@ private:
 	static constexpr auto pile_(T& t, Duel::Controller con,
 	                            Duel::Location loc) noexcept -> auto&
 	{
-		assert(con <= 1);
+		assert(con == Duel::CONTROLLER_0 || con == Duel::CONTROLLER_1);
 		assert(is_pile(loc));
 		using namespace YGOpen::Duel;
 		if(loc == LOCATION_MAIN_DECK)
@@ -647,7 +647,7 @@ private:
 	static constexpr auto zone_(T& t, Duel::Controller con, Duel::Location loc,
 	                            uint32_t seq) noexcept -> auto&
 	{
-		assert(con <= 1);
+		assert(con == Duel::CONTROLLER_0 || con == Duel::CONTROLLER_1);
 		assert(seq < zone_seq_lim(loc));
 		return ((t.field_[con])[loc])[seq];
 	}
-- 
2.43.0


From b0020780a24228a5b11c994b209c1c5192c98f26 Mon Sep 17 00:00:00 2001
From: verif <v@v>
Date: Thu, 19 Nov 2026 17:54:00 +0000
Subject: [PATCH 07/15] fix: pile_splice refuses slices and destinations
 outside of the piles

---
 include/ygopen/client/frame.hpp | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/include/ygopen/client/frame.hpp b/include/ygopen/client/frame.hpp
index 8f477c7..dc657f3 100644
--- a/include/ygopen/client/frame.hpp
+++ b/include/ygopen/client/frame.hpp
@@ -433,9 +433,10 @@ public:
 	{
 		assert(is_pile(from));
 		assert(is_pile(to));
-		pile_splice_cache_.resize(count);
 		auto& pile_from = pile(from);
-		assert(count + from.seq() <= pile_from.size());
+		assert(from.seq() <= pile_from.size());
+		assert(count <= pile_from.size() - from.seq());
+		pile_splice_cache_.resize(count);
 		{
 			auto first = pile_from.cbegin() + from.seq();
 			auto last = first + count;
@@ -449,6 +450,7 @@ public:
 		}
 		{
 			auto& pile_to = pile(to);
+			assert(to.seq() <= pile_to.size());
 			pile_to.insert(pile_to.begin() + to.seq(),
 			               pile_splice_cache_.cbegin(),
 			               pile_splice_cache_.cend());
-- 
2.43.0


From 86e1989f490e50926755fd37aae1dfa81dcb191d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:36:48 +0000
Subject: [PATCH 08/15] fix: shrinking a pile with history keeps exactly the
 removed cards

---
 include/ygopen/client/frame_limbo.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/ygopen/client/frame_limbo.hpp b/include/ygopen/client/frame_limbo.hpp
index b7cd24f..17c4cab 100644
--- a/include/ygopen/client/frame_limbo.hpp
+++ b/include/ygopen/client/frame_limbo.hpp
@@ -99,7 +99,7 @@ public:
 		{
 			size_t diff = p.size() - count;
 			rsz_op.slice.resize(diff);
-			std::copy(p.cbegin() + diff, p.cend(), rsz_op.slice.begin());
+			std::copy(p.cbegin() + count, p.cend(), rsz_op.slice.begin());
 			p.resize(count);
 		}
 		assert(p.size() == count);
-- 
2.43.0


From ea3ad62828f08346c547f2e179c56ee09d5975f8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:36:48 +0000
Subject: [PATCH 09/15] fix: pile resize events are parsed and undone

---
 include/ygopen/client/parse_event.hpp      | 6 ++++++
 include/ygopen/client/undo_parse_event.hpp | 6 ++++++
 2 files changed, 12 insertions(+)

diff --git a/include/ygopen/client/parse_event.hpp b/include/ygopen/client/parse_event.hpp
index e4f4c89..1aaea31 100644
--- a/include/ygopen/client/parse_event.hpp
+++ b/include/ygopen/client/parse_event.hpp
@@ -236,6 +236,12 @@ auto parse_event(Board& board, Proto::Duel::Msg::Event const& event) noexcept
 		auto& frame = board.frame();
 		switch(pile.t_case())
 		{
+		case Msg::Event::Pile::kResize:
+		{
+			for(auto const& op : pile.resize().ops())
+				frame.pile_resize(op.place(), op.count());
+			break;
+		}
 		case Msg::Event::Pile::kSplice:
 		{
 			for(auto const& op : pile.splice().ops())
diff --git a/include/ygopen/client/undo_parse_event.hpp b/include/ygopen/client/undo_parse_event.hpp
index 6e1316a..47693d4 100644
--- a/include/ygopen/client/undo_parse_event.hpp
+++ b/include/ygopen/client/undo_parse_event.hpp
@@ -174,6 +174,12 @@ auto undo_parse_event(UndoableBoard& board,
 		auto& frame = board.frame();
 		switch(pile.t_case())
 		{
+		case Msg::Event::Pile::kResize:
+		{
+			for(auto const& op : reverse(pile.resize().ops()))
+				frame.undo_pile_resize(op.place(), op.count());
+			break;
+		}
 		case Msg::Event::Pile::kSplice:
 		{
 			for(auto const& op : reverse(pile.splice().ops()))
-- 
2.43.0


From e0ebd91efe7e1f26bc120253a97e53cc7fce664f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:41:08 +0000
Subject: [PATCH 10/15] fix: the board refuses life points of any other
 controller

---
 include/ygopen/client/board.hpp | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/include/ygopen/client/board.hpp b/include/ygopen/client/board.hpp
index 3a9995a..155efab 100644
--- a/include/ygopen/client/board.hpp
+++ b/include/ygopen/client/board.hpp
@@ -75,7 +75,9 @@ public:
 	[[nodiscard]] constexpr auto lp(YGOpen::Duel::Controller con) const noexcept
 		-> LPType const&
 	{
-		return lp_[static_cast<size_t>(con)];
+		auto const who = static_cast<size_t>(con);
+		assert(who < lp_.size());
+		return lp_[who];
 	}
 
 	[[nodiscard]] constexpr auto phase() const noexcept -> PhaseType const&
@@ -113,7 +115,7 @@ public:
 		-> LPType&
 	{
 		auto const who = static_cast<size_t>(con);
-		assert(who <= lp_.size());
+		assert(who < lp_.size());
 		return lp_[who];
 	}
 
-- 
2.43.0


From b07eb3c59503b852207312b5c22b9516f214a71a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:41:08 +0000
Subject: [PATCH 11/15] fix: an encode context starts with no match win reason

---
 include/ygopen/server/basic_encode_context.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/ygopen/server/basic_encode_context.hpp b/include/ygopen/server/basic_encode_context.hpp
index dedac39..cff9f9a 100644
--- a/include/ygopen/server/basic_encode_context.hpp
+++ b/include/ygopen/server/basic_encode_context.hpp
@@ -99,7 +99,7 @@ private:
 
 	BoardType board_;
 
-	uint32_t match_win_reason_;
+	uint32_t match_win_reason_{};
 	std::map<Place, Place, YGOpen::Proto::Duel::PlaceLess> left_;
 	std::vector<Place> deferred_;
 };
-- 
2.43.0


From 1c34673557139a92a80aaabfc7af4d9ac60ac1e4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:41:08 +0000
Subject: [PATCH 12/15] fix: asking for an Xyz card that never left yields an
 empty place

---
 include/ygopen/server/basic_encode_context.hpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/include/ygopen/server/basic_encode_context.hpp b/include/ygopen/server/basic_encode_context.hpp
index cff9f9a..16a67a3 100644
--- a/include/ygopen/server/basic_encode_context.hpp
+++ b/include/ygopen/server/basic_encode_context.hpp
@@ -47,7 +47,8 @@ public:
 
 	auto get_xyz_left(Place const& left) const noexcept -> Place override
 	{
-		return left_.find(left)->second;
+		auto const it = left_.find(left);
+		return it != left_.end() ? it->second : Place{};
 	}
 
 	auto match_win_reason(uint32_t reason) noexcept -> void override
-- 
2.43.0


From f5ad603f5cd44f849f036473449153c2ad4b05ea Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:41:08 +0000
Subject: [PATCH 13/15] fix: unknown first turn decide methods fall back to the
 default

---
 include/ygopen/server/room.hpp | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/include/ygopen/server/room.hpp b/include/ygopen/server/room.hpp
index 3ff9b23..f1776aa 100644
--- a/include/ygopen/server/room.hpp
+++ b/include/ygopen/server/room.hpp
@@ -223,6 +223,9 @@ private:
 		for(auto& v : max_duelists)
 			v = std::clamp<uint32_t>(v, 1, std::tuple_size_v<Team>);
 		// NOTE: FirstTurnDecideMethod defaults to 0 (FTDM_HOST_CHOOSES).
+		using namespace YGOpen::Proto::Room;
+		if(!FirstTurnDecideMethod_IsValid(options_.ftdm()))
+			options_.set_ftdm(FirstTurnDecideMethod::FTDM_HOST_CHOOSES);
 	}
 
 	template<typename T, typename... Args>
-- 
2.43.0


From 0553b4908b5e5057903d792702d8a74797945922 Mon Sep 17 00:00:00 2001
From: verif <v@v>
Date: Thu, 19 Nov 2026 20:07:14 +0000
Subject: [PATCH 14/15] fix: materials already in the zone of a summoned Xyz
 monster keep their order

Core numbers the remaining materials anew each time one of them is taken,
so the second material of a card that is used as material itself comes
with the same number as the first. The ones attached before it are at the
front of the same zone until the move is done.
---
 src/codec/edo9300_ocgcore_encode.cpp | 11 +++++++++--
 1 file changed, 9 insertions(+), 2 deletions(-)

diff --git a/src/codec/edo9300_ocgcore_encode.cpp b/src/codec/edo9300_ocgcore_encode.cpp
index 03a7d1c..db7733f 100644
--- a/src/codec/edo9300_ocgcore_encode.cpp
+++ b/src/codec/edo9300_ocgcore_encode.cpp
@@ -1425,14 +1425,21 @@ auto encode_one(google::protobuf::Arena& arena, IEncodeContext& context,
 			for(auto const& def : context.take_deferred_xyz_mat())
 			{
 				auto const oseq = i++;
+				// Materials already waiting in the zone the card moves to. Core
+				// renumbered them as they were taken, but here they still come
+				// after the ones attached so far.
+				bool const in_zone =
+					def.con() == curr.con() && def.loc() == curr.loc() &&
+					def.seq() == curr.seq() && def.oseq() >= 0;
 				// Skip no-ops.
-				if(def.con() == curr.con() && def.loc() == curr.loc() &&
-				   def.seq() == curr.seq() && def.oseq() == oseq)
+				if(in_zone && def.oseq() == 0)
 					continue;
 				auto* op = card->mutable_move()->add_ops();
 				auto* old_place = op->mutable_old_place();
 				auto* new_place = op->mutable_new_place();
 				*old_place = def;
+				if(in_zone)
+					old_place->set_oseq(def.oseq() + oseq);
 				*new_place = curr;
 				new_place->set_oseq(oseq);
 			}
-- 
2.43.0


From b83abac9cfd1adfdfc5eb92c35cc20dd84a2f061 Mon Sep 17 00:00:00 2001
From: verif <v@v>
Date: Thu, 19 Nov 2026 23:30:06 +0000
Subject: [PATCH 15/15] fix: blocked zones are the core's disabled bits, not
 the others

---
 src/codec/edo9300_ocgcore_encode.cpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/codec/edo9300_ocgcore_encode.cpp b/src/codec/edo9300_ocgcore_encode.cpp
index db7733f..9940d96 100644
--- a/src/codec/edo9300_ocgcore_encode.cpp
+++ b/src/codec/edo9300_ocgcore_encode.cpp
@@ -643,7 +643,8 @@ auto encode_one(google::protobuf::Arena& arena, IEncodeContext& context,
 	case MSG_FIELD_DISABLED:
 	{
 		auto* zone_block = create_event()->mutable_zone_block();
-		unpack_zones(read<CField>(data, "zones"), 0U,
+		// NOTE: Unlike for selections, here the bits set are the blocked zones.
+		unpack_zones(~read<CField>(data, "zones"), 0U,
 		             [&]() { return zone_block->add_zones(); });
 		break;
 	}
-- 
2.43.0

