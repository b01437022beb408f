From b8c56a626ce5379f8ca09237ea93aa58dd0b2b11 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:21:13 +0000
Subject: [PATCH 01/10] fix: choose bits correctly for 64-bit values and for a
 count of 0

The single-bit mask was built from a 32-bit literal, which shifts out of range
for wider types, and choosel looked at the count only after picking a bit.
---
 include/ygopen/bit.hpp | 8 +++-----
 1 file changed, 3 insertions(+), 5 deletions(-)

diff --git a/include/ygopen/bit.hpp b/include/ygopen/bit.hpp
index bf98a79..fd16a18 100644
--- a/include/ygopen/bit.hpp
+++ b/include/ygopen/bit.hpp
@@ -45,11 +45,9 @@ template<typename T>
 	static_assert(std::is_unsigned_v<T>);
 	T chosen = 0U;
 	unsigned i = std::numeric_limits<T>::digits;
-	while(i != 0U)
+	while(i != 0U && popcnt(chosen) < count)
 	{
-		chosen |= x & (1U << (i - 1U));
-		if(popcnt(chosen) >= count)
-			break;
+		chosen |= x & (T{1U} << (i - 1U));
 		i--;
 	}
 	return chosen;
@@ -65,7 +63,7 @@ template<typename T>
 	unsigned i = 0;
 	while(i < std::numeric_limits<T>::digits && popcnt(chosen) < count)
 	{
-		chosen |= x & (1U << i);
+		chosen |= x & (T{1U} << i);
 		i++;
 	}
 	return chosen;
-- 
2.43.0


From 08cf9adc00c4b62298a60c5c072c4d1da625eb76 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:21:13 +0000
Subject: [PATCH 02/10] fix: index materials by overlay sequence when swapping
 out of a zone

---
 include/ygopen/client/frame.hpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/include/ygopen/client/frame.hpp b/include/ygopen/client/frame.hpp
index 2d99318..caf5cb1 100644
--- a/include/ygopen/client/frame.hpp
+++ b/include/ygopen/client/frame.hpp
@@ -397,11 +397,11 @@ public:
 			}
 			else if(!is_a_not_mat && is_b_not_mat)
 			{
-				std::swap(za.materials[a.seq()], zb.card);
+				std::swap(za.materials[a.oseq()], zb.card);
 			}
 			else // !is_a_not_mat && !is_b_not_mat
 			{
-				std::swap(za.materials[a.seq()], zb.materials[b.oseq()]);
+				std::swap(za.materials[a.oseq()], zb.materials[b.oseq()]);
 			}
 		}
 	}
-- 
2.43.0


From 16808a5bcba3548ca2e7fef5bb440e28d57d351e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:21:13 +0000
Subject: [PATCH 03/10] fix: save the cards that are cut off when shrinking a
 pile

The saved slice started at the number of removed cards instead of at the new
size, so undo restored other cards (or the copy overran the slice).
---
 include/ygopen/client/frame_limbo.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/ygopen/client/frame_limbo.hpp b/include/ygopen/client/frame_limbo.hpp
index b7cd24f..17c4cab 100644
--- a/include/ygopen/client/frame_limbo.hpp
+++ b/include/ygopen/client/frame_limbo.hpp
@@ -99,7 +99,7 @@ public:
 		{
 			size_t diff = p.size() - count;
 			rsz_op.slice.resize(diff);
-			std::copy(p.cbegin() + diff, p.cend(), rsz_op.slice.begin());
+			std::copy(p.cbegin() + count, p.cend(), rsz_op.slice.begin());
 			p.resize(count);
 		}
 		assert(p.size() == count);
-- 
2.43.0


From c3b0e660ad49b6c5807611808cf7b696e7cb829b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:21:13 +0000
Subject: [PATCH 04/10] fix: initialize the match win reason of the encode
 context

---
 include/ygopen/server/basic_encode_context.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/ygopen/server/basic_encode_context.hpp b/include/ygopen/server/basic_encode_context.hpp
index dedac39..cff9f9a 100644
--- a/include/ygopen/server/basic_encode_context.hpp
+++ b/include/ygopen/server/basic_encode_context.hpp
@@ -99,7 +99,7 @@ private:
 
 	BoardType board_;
 
-	uint32_t match_win_reason_;
+	uint32_t match_win_reason_{};
 	std::map<Place, Place, YGOpen::Proto::Duel::PlaceLess> left_;
 	std::vector<Place> deferred_;
 };
-- 
2.43.0


From 5379b69677bb837705c335c14065ac025aa430f3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:21:13 +0000
Subject: [PATCH 05/10] fix: place materials of field and pendulum cards in
 their zone on reload

---
 src/codec/edo9300_ocgcore_encode.cpp | 13 +++----------
 1 file changed, 3 insertions(+), 10 deletions(-)

diff --git a/src/codec/edo9300_ocgcore_encode.cpp b/src/codec/edo9300_ocgcore_encode.cpp
index c32e1cd..03a7d1c 100644
--- a/src/codec/edo9300_ocgcore_encode.cpp
+++ b/src/codec/edo9300_ocgcore_encode.cpp
@@ -889,18 +889,11 @@ auto encode_one(google::protobuf::Arena& arena, IEncodeContext& context,
 					if(read<uint8_t>(data, "has card") == 0U)
 						continue;
 					skip<CSPos>(data, "position (current)");
-					if(loc == LOCATION_SPELL_ZONE)
-					{
-						auto const [f_loc, f_seq] = fix_spell_loc_seq(loc, seq);
-						add_one(f_loc, f_seq, OSEQ_INVALID);
-					}
-					else
-					{
-						add_one(loc, seq, OSEQ_INVALID);
-					}
+					auto const [f_loc, f_seq] = fix_spell_loc_seq(loc, seq);
+					add_one(f_loc, f_seq, OSEQ_INVALID);
 					auto const mats = read<CCount>(data, "xyz mats count");
 					for(CCount oseq = 0U; oseq < mats; oseq++)
-						add_one(loc, seq, static_cast<COSeq>(oseq));
+						add_one(f_loc, f_seq, static_cast<COSeq>(oseq));
 				}
 			};
 			auto add_pile = [&](Location loc, CCount count)
-- 
2.43.0


From 6cd542d76df732cd35eabb79b30a89a1eca68719 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:21:13 +0000
Subject: [PATCH 06/10] fix: answer field and pendulum zones with the core's
 own location

Their location values do not fit the response's byte, so the core was sent
location 0.
---
 src/codec/edo9300_ocgcore_decode.cpp | 19 +++++++++++++++++--
 1 file changed, 17 insertions(+), 2 deletions(-)

diff --git a/src/codec/edo9300_ocgcore_decode.cpp b/src/codec/edo9300_ocgcore_decode.cpp
index 1270796..e67b1a0 100644
--- a/src/codec/edo9300_ocgcore_decode.cpp
+++ b/src/codec/edo9300_ocgcore_decode.cpp
@@ -6,6 +6,7 @@
 #include "ygopen/codec/edo9300_ocgcore_decode.hpp"
 
 #include <cstring>
+#include <ygopen/duel/constants/location.hpp>
 #include <ygopen/duel/constants/phase.hpp>
 #include <ygopen/proto/duel/answer.hpp>
 #include <ygopen/proto/duel/msg.hpp>
@@ -217,9 +218,23 @@ auto decode_one_answer(Proto::Duel::Msg::Request const& request,
 		auto* ptr = out.data();
 		for(auto const& p : places)
 		{
+			// The core has no locations for field and pendulum zones, they are
+			// the last sequences of the spell zone.
+			auto loc = p.loc();
+			auto seq = p.seq();
+			if(loc == YGOpen::Duel::LOCATION_FIELD_ZONE)
+			{
+				loc = YGOpen::Duel::LOCATION_SPELL_ZONE;
+				seq += 5U;
+			}
+			else if(loc == YGOpen::Duel::LOCATION_PENDULUM_ZONE)
+			{
+				loc = YGOpen::Duel::LOCATION_SPELL_ZONE;
+				seq += 6U;
+			}
 			write(ptr, static_cast<int8_t>(p.con()));
-			write(ptr, static_cast<int8_t>(p.loc()));
-			write(ptr, static_cast<int8_t>(p.seq()));
+			write(ptr, static_cast<int8_t>(loc));
+			write(ptr, static_cast<int8_t>(seq));
 		}
 		break;
 	}
-- 
2.43.0


From 8137b8935cdc192d31fa527c63a864ca364bd887 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:21:13 +0000
Subject: [PATCH 07/10] fix: report the disabled zones as blocked, not the
 usable ones

The core sets the bit of each disabled zone in MSG_FIELD_DISABLED.
---
 src/codec/edo9300_ocgcore_encode.cpp | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/codec/edo9300_ocgcore_encode.cpp b/src/codec/edo9300_ocgcore_encode.cpp
index 03a7d1c..a4fa2eb 100644
--- a/src/codec/edo9300_ocgcore_encode.cpp
+++ b/src/codec/edo9300_ocgcore_encode.cpp
@@ -643,7 +643,9 @@ auto encode_one(google::protobuf::Arena& arena, IEncodeContext& context,
 	case MSG_FIELD_DISABLED:
 	{
 		auto* zone_block = create_event()->mutable_zone_block();
-		unpack_zones(read<CField>(data, "zones"), 0U,
+		// NOTE: Set bits are disabled zones here, while they are non-selectable
+		// zones (thus, not listed) in the mask of the zone requests.
+		unpack_zones(~read<CField>(data, "zones"), 0U,
 		             [&]() { return zone_block->add_zones(); });
 		break;
 	}
-- 
2.43.0


From fc772178b31d4ed3a57a0b1f730606910ebd3420 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:21:13 +0000
Subject: [PATCH 08/10] fix: do not truncate the selected races to 32 bits in
 the response

---
 src/codec/edo9300_ocgcore_decode.cpp | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/codec/edo9300_ocgcore_decode.cpp b/src/codec/edo9300_ocgcore_decode.cpp
index e67b1a0..9284397 100644
--- a/src/codec/edo9300_ocgcore_decode.cpp
+++ b/src/codec/edo9300_ocgcore_decode.cpp
@@ -177,7 +177,10 @@ auto decode_one_answer(Proto::Duel::Msg::Request const& request,
 	}
 	case Answer::kSelectRace:
 	{
-		response_i(answer.select_race());
+		// NOTE: The core's race type is 64-bit wide.
+		out.resize(sizeof(uint64_t));
+		auto* ptr = out.data();
+		write(ptr, static_cast<uint64_t>(answer.select_race()));
 		break;
 	}
 	case Answer::kSelectRockPaperScissors:
-- 
2.43.0


From e729d584d5be2471aee3ddc590f06b3c904490bc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:22:07 +0000
Subject: [PATCH 09/10] fix: apply and undo pile resize events instead of
 ignoring them

---
 include/ygopen/client/parse_event.hpp      | 6 ++++++
 include/ygopen/client/undo_parse_event.hpp | 6 ++++++
 2 files changed, 12 insertions(+)

diff --git a/include/ygopen/client/parse_event.hpp b/include/ygopen/client/parse_event.hpp
index e4f4c89..6217052 100644
--- a/include/ygopen/client/parse_event.hpp
+++ b/include/ygopen/client/parse_event.hpp
@@ -248,6 +248,12 @@ auto parse_event(Board& board, Proto::Duel::Msg::Event const& event) noexcept
 				frame.pile_swap(op.place_a(), op.place_b());
 			break;
 		}
+		case Msg::Event::Pile::kResize:
+		{
+			for(auto const& op : pile.resize().ops())
+				frame.pile_resize(op.place(), op.count());
+			break;
+		}
 		default:
 			break;
 		}
diff --git a/include/ygopen/client/undo_parse_event.hpp b/include/ygopen/client/undo_parse_event.hpp
index 6e1316a..01819b5 100644
--- a/include/ygopen/client/undo_parse_event.hpp
+++ b/include/ygopen/client/undo_parse_event.hpp
@@ -186,6 +186,12 @@ auto undo_parse_event(UndoableBoard& board,
 				frame.pile_swap(op.place_a(), op.place_b());
 			break;
 		}
+		case Msg::Event::Pile::kResize:
+		{
+			for(auto const& op : reverse(pile.resize().ops()))
+				frame.undo_pile_resize(op.place(), op.count());
+			break;
+		}
 		default:
 			break;
 		}
-- 
2.43.0


From 6d48da3b1722db73c43b2bb7b1cba992da99a0b6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:25:11 +0000
Subject: [PATCH 10/10] fix: keep the materials' order when they stay in the
 zone they are in

The core reports each deferred material's sequence among those not taken yet,
while the ones already placed in the same zone come before them, so moving two
or more of them swapped their order.
---
 src/codec/edo9300_ocgcore_encode.cpp | 15 +++++++++++----
 1 file changed, 11 insertions(+), 4 deletions(-)

diff --git a/src/codec/edo9300_ocgcore_encode.cpp b/src/codec/edo9300_ocgcore_encode.cpp
index a4fa2eb..c7e097b 100644
--- a/src/codec/edo9300_ocgcore_encode.cpp
+++ b/src/codec/edo9300_ocgcore_encode.cpp
@@ -1427,14 +1427,21 @@ auto encode_one(google::protobuf::Arena& arena, IEncodeContext& context,
 			for(auto const& def : context.take_deferred_xyz_mat())
 			{
 				auto const oseq = i++;
-				// Skip no-ops.
+				Place from = def;
 				if(def.con() == curr.con() && def.loc() == curr.loc() &&
-				   def.seq() == curr.seq() && def.oseq() == oseq)
-					continue;
+				   def.seq() == curr.seq())
+				{
+					// Skip no-ops.
+					if(def.oseq() == 0)
+						continue;
+					// The materials already placed precede the remaining ones.
+					if(def.oseq() > 0)
+						from.set_oseq(def.oseq() + oseq);
+				}
 				auto* op = card->mutable_move()->add_ops();
 				auto* old_place = op->mutable_old_place();
 				auto* new_place = op->mutable_new_place();
-				*old_place = def;
+				*old_place = from;
 				*new_place = curr;
 				new_place->set_oseq(oseq);
 			}
-- 
2.43.0

