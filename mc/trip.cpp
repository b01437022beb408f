// C31: a request goes from the core to the player, the player picks one of the
// choices shown, and the response, read the way the core reads it, has to be the
// core's own choice with that very content.
#include <ygopen/codec/edo9300_ocgcore_decode.hpp>
#include <ygopen/proto/duel/answer.hpp>

#include "codec_gen.hpp"

using mc::Chooser;
using mc::Space;
using YGOpen::Codec::EncodeOneResult;
using YGOpen::Proto::Duel::Answer;
using YGOpen::Proto::Duel::Msg;
using YGOpen::Proto::Duel::Place;
using Request = Msg::Request;
using Bytes = std::vector<uint8_t>;
namespace core = YGOpen::Codec::Edo9300::OCGCore;

namespace
{

// One choice as the core has it.
struct Item
{
	uint32_t code = 0;
	cg::Wire w{};
	uint64_t effect = 0;
	uint8_t extra = 0;
};

// Choices that differ in place, except that every third one is another effect of
// the card before it. Some places only differ in side or in being a material.
auto item(uint32_t i, bool zone_only) -> Item
{
	Item k;
	k.code = 5000 + i;
	k.effect = (uint64_t(7000 + i) << 20U) | (i % 16);
	k.extra = i % 2;
	uint32_t const j = zone_only ? i : i - (i % 3 == 2 ? 1 : 0);
	if(zone_only)
		k.w = {uint8_t(j % 2), cg::MZ, (j / 2) % 7, 1};
	else
	{
		uint32_t const n = j / 12;
		switch(j % 12)
		{
		case 0: k.w = {0, cg::HAND, n, 2}; break;
		case 1: k.w = {1, cg::HAND, n, 2}; break;
		case 3: k.w = {0, cg::MZ, n % 7, 1}; break;
		case 4: k.w = {0, cg::SZ, n % 8, 1}; break;
		case 6: k.w = {1, cg::SZ, (n + 5) % 8, 1}; break;
		case 7: k.w = {0, cg::GY, n, 1}; break;
		case 9: k.w = {0, cg::EXTRA, n, 8}; break;
		default: k.w = {1, cg::BAN, n, 1}; break;
		}
		// Zones repeat after a while: then it is the graveyard.
		if(n >= 7 && (k.w.loc == cg::MZ || k.w.loc == cg::SZ))
			k.w = {uint8_t(k.w.con), cg::DECK, n * 12 + j % 12, 8};
	}
	return k;
}

struct W
{
	Bytes b;
	template<typename T>
	auto raw(T v) -> W&
	{
		auto const* p = reinterpret_cast<uint8_t const*>(&v);
		b.insert(b.end(), p, p + sizeof(T));
		return *this;
	}
	auto u8(uint32_t v) -> W& { return raw<uint8_t>(v); }
	auto u16(uint32_t v) -> W& { return raw<uint16_t>(v); }
	auto u32(uint32_t v) -> W& { return raw<uint32_t>(v); }
	auto u64(uint64_t v) -> W& { return raw<uint64_t>(v); }
	auto info(cg::Wire const& w) -> W&
	{
		return u8(w.con).u8(w.loc).u32(w.seq).u32(w.pos);
	}
	auto at32(cg::Wire const& w) -> W& { return u8(w.con).u8(w.loc).u32(w.seq); }
	auto at8(cg::Wire const& w) -> W& { return u8(w.con).u8(w.loc).u8(w.seq); }
};

// How the core reads a response.
struct Response
{
	Chooser& c;
	Bytes const& b;
	template<typename T>
	auto get(size_t at) const -> T
	{
		CHECK(c, at + sizeof(T) <= b.size(),
		      "the core would read past the response of " +
		          std::to_string(b.size()) + " bytes");
		T v;
		memcpy(&v, b.data() + at, sizeof v);
		return v;
	}
	auto i32(size_t n = 0) const -> int32_t { return get<int32_t>(n * 4); }
	// Indexes of a selection; false if it was given up.
	auto cards(std::vector<uint32_t>& out) const -> bool
	{
		auto const type = i32();
		if(type == -1)
			return false;
		if(type == 3)
		{
			for(size_t i = 32; i < b.size() * 8; i++)
				if((b[i / 8] >> (i % 8)) & 1U)
					out.push_back(i - 32);
			return true;
		}
		CHECK(c, type >= 0 && type <= 3,
		      "the core has no response type " + std::to_string(type));
		auto const n = get<uint32_t>(4);
		for(uint32_t i = 0; i < n; i++)
			out.push_back(type == 0   ? get<uint32_t>(8 + 4 * i)
			              : type == 1 ? get<uint16_t>(8 + 2 * i)
			                          : get<uint8_t>(8 + i));
		return true;
	}
};

auto same_place(Place const& p, cg::Wire const& w, bool pos) -> bool
{
	Place q;
	cg::to_place(w, pos, q);
	return p.con() == q.con() && p.loc() == q.loc() && p.seq() == q.seq() &&
	       p.oseq() == q.oseq();
}
template<typename E>
auto same_effect(E const& e, uint64_t desc) -> bool
{
	return e.code() == (desc >> 20U) && e.index() == (desc & 0xFFFFFU);
}

struct Trip
{
	Chooser& c;
	cg::StubContext ctx;
	Bytes out; // Kept from one answer to the next.
	google::protobuf::Arena arena;
	uint8_t who = 0;
	uint8_t alike = 0; // 0 all different, 1 neighbours, 2 every other, 3 all.

	explicit Trip(Chooser& ch) : c(ch) {}

	auto ask(W const& w) -> Request const&
	{
		cg::Exact s(w.b);
		auto const r = core::encode_one(arena, ctx, s.p);
		CHECK(c, r.state == EncodeOneResult::State::OK && r.msg != nullptr &&
		             r.msg->t_case() == Msg::kRequest,
		      "a question of the core is not passed on");
		CHECK(c, uint8_t(r.msg->request().replier()) == who,
		      "a question is passed on to the wrong player");
		return r.msg->request();
	}
	auto reply(Request const& r, Answer const& a) -> Response
	{
		core::decode_one_answer(r, a, out);
		c.step();
		c.outcome(mc::Hasher().add(std::string(out.begin(), out.end())).h);
		return Response{c, out};
	}
	// Where in the list shown to the player the choice is.
	template<typename L, typename F>
	auto find(L const& list, F is, char const* what, uint32_t hint,
	          std::pair<uint32_t, uint32_t> of = {0, 1}) -> uint32_t
	{
		uint32_t at = 0, n = 0;
		for(int i = 0; i < list.size(); i++)
			if(is(list[i]))
			{
				if(n == of.first)
					at = i;
				n++;
			}
		CHECK(c, n == of.second,
		      std::string("choice ") + std::to_string(hint) + " of " + what +
		          " is shown " + std::to_string(n) + " times, the core has it " +
		          std::to_string(of.second) + " times");
		return at;
	}
	// Which choice the i-th is like.
	auto like(uint32_t i) const -> uint32_t
	{
		switch(alike)
		{
		case 1: return i - i % 2;
		case 2: return i % 2;
		case 3: return 0;
		default: return i;
		}
	}
	// Of n choices, the how manieth of how many alike is the i-th?
	auto twins(uint32_t i, uint32_t n) const -> std::pair<uint32_t, uint32_t>
	{
		std::pair<uint32_t, uint32_t> r{0, 0};
		for(uint32_t j = 0; j < n; j++)
			if(like(j) == like(i))
			{
				r.first += j < i;
				r.second++;
			}
		return r;
	}
	// The i-th choice; choices alike are cards of one name in different places,
	// or with an effect, the same effect in the same place.
	auto choice(uint32_t i, bool zone_only, bool effect = false) const -> Item
	{
		if(effect)
			return item(like(i), zone_only);
		auto k = item(i, zone_only);
		k.code = 5000 + like(i);
		return k;
	}
	auto eq(uint64_t got, uint64_t want, char const* what) -> void
	{
		CHECK(c, got == want,
		      std::string(what) + ": the core takes choice " +
		          std::to_string(int64_t(got)) + " but the player meant " +
		          std::to_string(int64_t(want)));
	}

	// Idle and battle commands: six lists, or two. pick: list and index, or
	// the rest of the actions.
	auto command(bool idle, std::vector<uint32_t> const& n, uint32_t list,
	             uint32_t idx) -> void
	{
		W w;
		w.u8(idle ? 11 : 10).u8(who);
		std::vector<std::vector<Item>> ls;
		uint32_t base = 0;
		for(size_t l = 0; l < n.size(); l++)
		{
			bool const zone = idle ? l == 2 : l == 1;
			std::vector<Item> v;
			// The lists overlap: a card may be in several of them.
			bool const eff = idle ? l == 5 : l == 0;
			for(uint32_t i = 0; i < n[l]; i++)
			{
				v.push_back(item(base + (eff ? like(i) : i), zone));
				if(!eff)
					v.back().code = 5000 + base + like(i);
			}
			base += 1 + l % 2;
			if(!zone && !(idle ? l == 5 : l == 0))
			{ // These lists show no effects: one entry a card.
				for(uint32_t i = 0; i < n[l]; i++)
					v[i].w = i % 2 != 0
					             ? cg::Wire{uint8_t(l % 2), cg::HAND, base + i, 2}
					             : cg::Wire{0, cg::SZ, (base + i) % 8, 1};
				for(uint32_t i = 8; i < n[l]; i++)
					v[i].w = {1, cg::GY, base + i, 1};
			}
			ls.push_back(v);
			w.u32(n[l]);
			for(auto& k : v)
			{
				w.u32(k.code);
				if(idle ? l == 5 : l == 0)
					w.at32(k.w).u64(k.effect).u8(k.extra);
				else if(zone)
				{
					w.at8(k.w);
					if(!idle)
						w.u8(k.extra);
				}
				else
					w.at32(k.w);
			}
		}
		w.u8(1).u8(1);
		if(idle)
			w.u8(1);
		auto const& q = ask(w);
		CHECK(c, q.t_case() == Request::kSelectIdle, "not a command request");
		auto const& r = q.select_idle();
		Answer a;
		auto* s = a.mutable_select_idle();
		if(list >= n.size())
		{ // 0 shuffle, 1 battle or second main phase, 2 end
			CHECK(c, r.can_shuffle() == idle, "shuffling is not offered rightly");
			uint32_t const ph = idx == 2 ? 0x200U : idle ? 0x80U : 0x100U;
			if(idx == 0)
				s->set_shuffle(true);
			else
			{
				CHECK(c, (r.available_phase() & ph) != 0,
				      "an available phase is not offered");
				s->set_phase(ph);
			}
			auto const v = reply(q, a).i32();
			uint32_t const want = idx == 0 ? 8U
			                      : idle   ? 5U + idx
			                               : 1U + idx;
			eq(uint32_t(v), want, "a phase or shuffle action");
			return;
		}
		auto const& k = ls[list][idx];
		auto* ca = s->mutable_card_action();
		auto pl = [&](Place const& p) { return same_place(p, k.w, false); };
		auto act = [&](auto const& e)
		{
			return same_place(e.place(), k.w, false) &&
			       same_effect(e.effect(), k.effect);
		};
		auto atk = [&](auto const& e)
		{
			return same_place(e.place(), k.w, false) &&
			       e.can_attack_directly() == (k.extra != 0);
		};
		auto set = [&](Answer::SelectIdle::Action t, uint32_t at)
		{
			ca->set_action(t);
			ca->set_index(at);
		};
		using S = Answer::SelectIdle;
		switch(idle ? list : list + 10)
		{
		case 0:
			set(S::ACTION_SUMMON, find(r.summonable_cards(), pl, "summons", idx));
			break;
		case 1:
			set(S::ACTION_SPSUMMON,
			    find(r.spsummonable_cards(), pl, "special summons", idx));
			break;
		case 2:
			set(S::ACTION_REPOSITION,
			    find(r.repositionable_cards(), pl, "position changes", idx));
			break;
		case 3:
			set(S::ACTION_MSET, find(r.msetable_cards(), pl, "monster sets", idx));
			break;
		case 4:
			set(S::ACTION_SSET, find(r.ssetable_cards(), pl, "spell sets", idx));
			break;
		case 11:
			set(S::ACTION_ATTACK, find(r.can_attack_cards(), atk, "attacks", idx));
			break;
		default:
			set(S::ACTION_ACTIVATE,
			    find(r.activable_cards(), act, "activations", idx,
			         twins(idx, n[list])));
			break;
		}
		auto const v = uint32_t(reply(q, a).i32());
		eq(v & 0xFFFFU, list, "the kind of a command");
		eq(v >> 16U, idx, "the card of a command");
	}
	// Selections. kind: 0 cards, 1 codes only, 2 tributes.
	auto select(uint32_t kind, uint32_t n, std::vector<uint32_t> const& want,
	            bool cancel) -> void
	{
		W w;
		w.u8(kind == 2 ? 20 : 15).u8(who).u8(cancel).u32(1).u32(n).u32(n);
		std::vector<Item> v;
		for(uint32_t i = 0; i < n; i++)
		{
			auto k = choice(i, false);
			if(i % 3 == 2) // Here, no two are the same card.
				k.w = {0, uint8_t(cg::MZ | cg::OVL), (i / 3) % 7, i / 21};
			if(kind == 1)
				k.w = {0, 0, 0, 0};
			if(kind == 2 && i % 3 == 2)
				k.w = {1, cg::DECK, 500 + i, 8};
			v.push_back(k);
			w.u32(k.code);
			if(kind == 2)
				w.at32(k.w).u8(k.extra + 1);
			else
				w.info(k.w);
		}
		auto const& q = ask(w);
		CHECK(c, q.t_case() == Request::kSelectCard, "not a card request");
		auto const& r = q.select_card();
		Answer a;
		auto* s = a.mutable_select_card();
		if(cancel)
			s->set_cancel(true);
		for(auto i : want)
		{
			auto const& k = v[i];
			uint32_t at = 0;
			if(kind == 1)
			{
				CHECK(c, r.has_limbo(), "not a request of codes");
				at = find(r.limbo().card_codes(),
				          [&](uint32_t x) { return x == k.code; }, "codes", i,
				          twins(i, n));
			}
			else if(kind == 2)
			{
				CHECK(c, r.has_unique_tributes(), "not a request of tributes");
				at = find(r.unique_tributes().cards(),
				          [&](auto const& e)
				          {
							  return e.code() == k.code &&
					                 e.count_as() == k.extra + 1U &&
					                 same_place(e.place(), k.w, false);
						  },
				          "tributes", i);
			}
			else
			{
				CHECK(c, r.has_unique_range(), "not a request of cards");
				at = find(r.unique_range().cards(),
				          [&](auto const& e)
				          {
							  return e.code() == k.code &&
					                 same_place(e.place(), k.w, true);
						  },
				          "cards", i);
			}
			s->mutable_indexes()->add_values(at);
		}
		std::vector<uint32_t> got;
		auto const resp = reply(q, a);
		bool const kept = resp.cards(got);
		CHECK(c, kept == !cancel, "the core is wrong about the selection being "
		                          "given up");
		CHECK(c, got.size() == want.size(),
		      "the core gets " + std::to_string(got.size()) +
		          " cards, selected were " + std::to_string(want.size()));
		for(size_t i = 0; i < want.size(); i++)
			eq(got[i], want[i], "a selected card");
	}
	auto unselect(uint32_t n, uint32_t m, uint32_t pick) -> void
	{
		W w;
		bool const finish = pick == n + m;
		w.u8(26).u8(who).u8(1).u8(pick % 2).u32(1).u32(n + m);
		std::vector<Item> v;
		for(uint32_t i = 0; i < n + m; i++)
		{
			if(i == 0)
				w.u32(n);
			if(i == n)
				w.u32(m);
			auto k = choice(i, false);
			if(i % 3 == 2 && alike != 0) // Here, no two are the same card.
				k.w = {0, uint8_t(cg::MZ | cg::OVL), (i / 3) % 7, i / 21};
			v.push_back(k);
			w.u32(k.code).info(k.w);
		}
		if(n + m == 0)
			w.u32(0);
		if(m == 0)
			w.u32(0);
		auto const& q = ask(w);
		CHECK(c, q.select_card().has_recursive(), "not a repeated card request");
		auto const& r = q.select_card().recursive();
		Answer a;
		auto* s = a.mutable_select_card();
		if(finish)
		{
			if(pick % 2 != 0)
				s->set_finish(true);
			else
				s->set_cancel(true);
			eq(uint32_t(reply(q, a).i32()), 0xFFFFFFFFU, "finishing a selection");
			return;
		}
		auto is = [&](auto const& e)
		{
			return e.code() == v[pick].code &&
			       same_place(e.place(), v[pick].w, true);
		};
		// The cards to take back come after those to take.
		uint32_t const at =
			pick < n ? find(r.selectable_cards(), is, "cards to select", pick)
					 : uint32_t(r.selectable_cards().size()) +
						   find(r.deselectable_cards(), is, "cards to take back",
		                        pick);
		s->mutable_indexes()->add_values(at);
		auto const resp = reply(q, a);
		eq(uint32_t(resp.i32(0)), 1, "how many cards are selected at a time");
		eq(uint32_t(resp.i32(1)), pick, "a selected card");
	}
	auto chain(uint32_t n, uint32_t pick) -> void
	{
		W w;
		w.u8(16).u8(who).u8(n % 3).u8(pick != n).u32(1).u32(2).u32(n);
		std::vector<Item> v;
		for(uint32_t i = 0; i < n; i++)
		{
			auto k = choice(i, false, true);
			v.push_back(k);
			w.u32(k.code).info(k.w).u64(k.effect).u8(k.extra);
		}
		auto const& q = ask(w);
		CHECK(c, q.t_case() == Request::kSelectToChain, "not a chain request");
		Answer a;
		auto* s = a.mutable_select_to_chain();
		if(pick == n)
		{
			CHECK(c, !q.select_to_chain().forced(),
			      "a chain that can be declined looks forced");
			s->set_no_op(true);
			eq(uint32_t(reply(q, a).i32()), 0xFFFFFFFFU, "declining to chain");
			return;
		}
		s->set_index(find(q.select_to_chain().activable_cards(),
		                  [&](auto const& e)
		                  {
							  return same_place(e.place(), v[pick].w, true) &&
			                         same_effect(e.effect(), v[pick].effect);
						  },
		                  "chainable effects", pick, twins(pick, n)));
		eq(uint32_t(reply(q, a).i32()), pick, "the effect to chain");
	}
	auto option(uint32_t n, uint32_t pick) -> void
	{
		W w;
		w.u8(14).u8(who).u8(n);
		for(uint32_t i = 0; i < n; i++)
			w.u64(choice(i, false, true).effect);
		auto const& q = ask(w);
		Answer a;
		a.set_select_effect(find(q.select_effect().effects(),
		                         [&](auto const& e)
		                         {
									 return same_effect(
										 e, choice(pick, false, true).effect);
								 },
		                         "effects", pick, twins(pick, n)));
		eq(uint32_t(reply(q, a).i32()), pick, "the effect");
	}
	auto number(uint32_t n, uint32_t pick) -> void
	{
		auto val = [](uint64_t i) -> uint64_t
		{
			return i % 2 != 0 ? (i << 40U) + 3 : i + 1;
		};
		W w;
		w.u8(143).u8(who).u8(n);
		for(uint32_t i = 0; i < n; i++)
			w.u64(val(like(i)));
		auto const& q = ask(w);
		Answer a;
		a.set_select_number(find(q.select_number().numbers(),
		                         [&](uint64_t x) { return x == val(like(pick)); },
		                         "numbers", pick, twins(pick, n)));
		eq(uint32_t(reply(q, a).i32()), pick, "the number");
	}
	auto yes_no(bool effect, bool yes) -> void
	{
		W w;
		w.u8(effect ? 12 : 13).u8(who);
		if(effect)
			w.u32(99).info({0, cg::SZ, 5, 1});
		w.u64(item(3, false).effect);
		auto const& q = ask(w);
		CHECK(c, q.t_case() == Request::kSelectYesNo, "not a yes or no");
		Answer a;
		a.set_select_yes_no(yes);
		eq(uint32_t(reply(q, a).i32()), yes, "yes or no");
	}
	auto rps(uint32_t hand) -> void
	{
		auto const& q = ask(W().u8(132).u8(who));
		Answer a;
		a.set_select_rock_paper_scissors(int32_t(hand));
		eq(uint32_t(reply(q, a).i32()), hand, "the hand");
	}
	// kind: 0 race, 1 attribute, 2 position
	auto bits(uint32_t kind, uint64_t offered, uint64_t chosen) -> void
	{
		W w;
		if(kind == 0)
			w.u8(140).u8(who).u8(1).u64(offered);
		else if(kind == 1)
			w.u8(141).u8(who).u8(1).u32(uint32_t(offered));
		else
			w.u8(19).u8(who).u32(4321).u8(uint32_t(offered));
		auto const& q = ask(w);
		uint64_t const shown = kind == 0   ? q.select_race().race()
		                       : kind == 1 ? q.select_attribute().attribute()
		                                   : q.select_position().position();
		CHECK(c, shown == offered, "other values are shown than the core offers");
		Answer a;
		if(kind == 0)
			a.set_select_race(chosen);
		else if(kind == 1)
			a.set_select_attribute(uint32_t(chosen));
		else
			a.set_select_position(uint32_t(chosen));
		auto const r = reply(q, a);
		eq(kind == 0 ? r.get<uint64_t>(0) : uint32_t(r.i32()), chosen,
		   "the values");
	}
	// Zones: free is the list of the core's free bits, as the player sees it.
	auto zone(std::vector<uint32_t> const& free, std::vector<uint32_t> const& want,
	          bool disable) -> void
	{
		uint32_t mask = 0xFFFFFFFFU;
		for(auto f : free)
			mask &= ~(1U << f);
		W w;
		w.u8(disable ? 24 : 18).u8(who).u8(want.size()).u32(mask);
		auto const& q = ask(w);
		CHECK(c, q.t_case() == Request::kSelectZone, "not a zone request");
		auto const& r = q.select_zone();
		auto wire = [&](uint32_t bit) -> cg::Wire
		{
			uint8_t const con = bit < 16 ? who : 1 - who;
			uint32_t const b = bit % 16;
			return b < 8 ? cg::Wire{con, cg::MZ, b, 0}
			             : cg::Wire{con, cg::SZ, b - 8, 0};
		};
		CHECK(c, size_t(r.places().size()) == free.size(),
		      "the core has " + std::to_string(free.size()) + " free zones, " +
		          std::to_string(r.places().size()) + " are shown");
		Answer a;
		auto* s = a.mutable_select_zone();
		for(auto b : want)
		{
			auto const at =
				find(r.places(),
			         [&](Place const& p) { return same_place(p, wire(b), false); },
			         "zones", b);
			*s->add_places() = r.places()[int(at)];
		}
		auto const resp = reply(q, a);
		for(size_t i = 0; i < want.size(); i++)
		{
			uint32_t const p = resp.get<uint8_t>(3 * i),
			               l = resp.get<uint8_t>(3 * i + 1),
			               n = resp.get<uint8_t>(3 * i + 2);
			CHECK(c, p < 2 && (l == 4 || l == 8) && n < (l == 4 ? 7U : 8U),
			      "the core gets a zone that does not exist");
			uint32_t const bit = (p == who ? 0 : 16) + (l == 8 ? 8 : 0) + n;
			eq(bit, want[i], "a zone");
		}
	}
};

std::vector<uint32_t> const ZONE_BITS = []
{
	std::vector<uint32_t> v;
	for(uint32_t h = 0; h < 32; h += 16)
		for(uint32_t b = 0; b < 16; b++)
			if(b != 7)
				v.push_back(h + b);
	return v;
}();

auto ordered(Chooser& c, uint32_t n, uint32_t most) -> std::vector<uint32_t>
{
	std::vector<uint32_t> left, r;
	for(uint32_t i = 0; i < n; i++)
		left.push_back(i);
	auto const k = 1 + c.pick(std::min(n, most));
	for(uint32_t i = 0; i < k; i++)
	{
		auto const j = c.pick(left.size());
		r.push_back(left[j]);
		left.erase(left.begin() + j);
	}
	return r;
}

// Any small request with any answer.
auto any(Trip& t, uint32_t most) -> void
{
	Chooser& c = t.c;
	t.who = c.pick(2);
	switch(c.pick(11))
	{
	case 0:
	{
		std::vector<uint32_t> n(6, 2);
		auto const l = c.pick(7);
		t.command(true, n, l, c.pick(l < 6 ? 2 : 3));
		break;
	}
	case 1:
	{
		auto const l = c.pick(3);
		t.command(false, {2, 2}, l, l < 2 ? c.pick(2) : 1 + c.pick(2));
		break;
	}
	case 2:
	{
		auto const kind = c.pick(3);
		if(c.pickb())
			t.select(kind, 2, {}, true);
		else
			t.select(kind, most, ordered(c, most, most), false);
		break;
	}
	case 3: t.unselect(2, 1, c.pick(4)); break;
	case 4: t.chain(2, c.pick(3)); break;
	case 5: t.option(2, c.pick(2)); break;
	case 6: t.number(2, c.pick(2)); break;
	case 7:
	{
		bool const e = c.pickb();
		t.yes_no(e, c.pickb());
		break;
	}
	case 8: t.rps(1 + c.pick(3)); break;
	case 9:
	{
		auto const kind = c.pick(3);
		t.bits(kind, kind == 0 ? 0x8000000000000011U : 0xBU,
		       kind == 0 ? (c.pickb() ? 0x8000000000000000U : 0x10U)
		                 : (c.pickb() ? 0x8U : 0x1U));
		break;
	}
	default:
		t.zone({0, 13, 14, 31}, {ordered(c, 1, 1)[0] == 0 ? 14U : 0U, 31U}, c.pickb());
		break;
	}
}

mc::Register const r31("C31", [](bool th) -> std::vector<Space>
{
	std::vector<Space> r;
	uint32_t const ln = th ? 6 : 3;
	r.push_back({"idle",
	             "idle requests with 0 to " + std::to_string(ln) +
	                 " cards in each of the 6 lists, every card, phase and shuffle "
	                 "action",
	             [ln](Chooser& c)
	             {
					 Trip t(c);
					 t.who = c.pick(2);
					 std::vector<uint32_t> n;
					 for(int i = 0; i < 6; i++)
						 n.push_back(c.pick(ln + 1));
					 std::vector<std::pair<uint32_t, uint32_t>> o{
						 {6, 0}, {6, 1}, {6, 2}};
					 for(uint32_t l = 0; l < 6; l++)
						 for(uint32_t i = 0; i < n[l]; i++)
							 o.emplace_back(l, i);
					 auto const k = o[c.pick(o.size())];
					 t.command(true, n, k.first, k.second);
				 }});
	r.push_back({"commands-long",
	             "idle and battle requests with one list of 9 to 300 cards and one "
	             "or none in the others, every card of it",
	             [](Chooser& c)
	             {
					 Trip t(c);
					 bool const idle = c.pickb();
					 uint32_t const l = c.pick(idle ? 6 : 2);
					 bool const zone = idle ? l == 2 : l == 1;
					 static uint32_t const sz[] = {9, 13, 129, 256, 257, 300};
					 auto const n = sz[c.pick(zone ? 2 : 6)];
					 std::vector<uint32_t> ns(idle ? 6 : 2, c.pick(2));
					 ns[l] = n;
					 t.command(idle, ns, l, c.pick(n));
				 }});
	r.push_back({"battle",
	             "battle requests with 0 to 6 cards in both lists, every card and "
	             "phase action",
	             [](Chooser& c)
	             {
					 Trip t(c);
					 t.who = c.pick(2);
					 std::vector<uint32_t> n{uint32_t(c.pick(7)), uint32_t(c.pick(7))};
					 std::vector<std::pair<uint32_t, uint32_t>> o{{2, 1}, {2, 2}};
					 for(uint32_t l = 0; l < 2; l++)
						 for(uint32_t i = 0; i < n[l]; i++)
							 o.emplace_back(l, i);
					 auto const k = o[c.pick(o.size())];
					 t.command(false, n, k.first, k.second);
				 }});
	uint32_t const sn = th ? 8 : 6;
	r.push_back({"select",
	             "card, code and tribute selections from 1 to " +
	                 std::to_string(sn) + " cards, every ordered selection, cancel",
	             [sn](Chooser& c)
	             {
					 Trip t(c);
					 t.who = c.pick(2);
					 auto const kind = c.pick(3);
					 auto const n = 1 + c.pick(sn);
					 if(c.pickb())
						 t.select(kind, n, {}, true);
					 else
						 t.select(kind, n, ordered(c, n, n), false);
				 }});
	r.push_back({"select-long",
	             "selections from 127 to 300 cards: every single card, every pair "
	             "of neighbours, all of them in order and reversed",
	             [](Chooser& c)
	             {
					 Trip t(c);
					 auto const kind = c.pick(3);
					 static uint32_t const sz[] = {127, 128, 129, 255, 256, 257, 300};
					 auto const n = sz[c.pick(7)];
					 std::vector<uint32_t> w;
					 switch(c.pick(4))
					 {
					 case 0: w.push_back(c.pick(n)); break;
					 case 1:
						 w.push_back(1 + c.pick(n - 1));
						 w.push_back(w[0] - 1);
						 break;
					 case 2:
						 for(uint32_t i = 0; i < n; i++)
							 w.push_back(i);
						 break;
					 default:
						 for(uint32_t i = n; i-- > 0;)
							 w.push_back(i);
					 }
					 t.select(kind, n, w, false);
				 }});
	r.push_back({"unselect",
	             "repeated selections with 0 to 8 cards to take and to take back, "
	             "and long ones, every card and finishing",
	             [](Chooser& c)
	             {
					 Trip t(c);
					 t.who = c.pick(2);
					 static uint32_t const sz[] = {0,   1,   2,   3,  4,  5, 6,
			                                       7,   8,   128, 256, 290};
					 auto const n = sz[c.pick(12)], m = sz[c.pick(12)];
					 t.unselect(n, m, c.pick(n + m + 1));
				 }});
	r.push_back({"chain",
	             "chain requests of 0 to 8 effects and of 255 to 300, every effect "
	             "and declining",
	             [](Chooser& c)
	             {
					 Trip t(c);
					 t.who = c.pick(2);
					 auto const k = c.pick(13);
					 uint32_t const n = k < 9 ? k : k == 9 ? 255 : 256 + (k - 10) * 22;
					 t.chain(n, c.pick(n + 1));
				 }});
	uint32_t const an = th ? 6 : 4;
	r.push_back({"alike",
	             "requests of any kind of list with 2 to " + std::to_string(an) +
	                 " choices that look alike (neighbours, every other, or all): "
	                 "every one, or every ordered selection",
	             [an](Chooser& c)
	             {
					 Trip t(c);
					 t.alike = 1 + c.pick(3);
					 uint32_t const n = 2 + c.pick(an - 1);
					 switch(c.pick(7))
					 {
					 case 0:
					 {
						 auto const l = c.pick(6);
						 std::vector<uint32_t> ns(6, c.pick(2));
						 ns[l] = n;
						 t.command(true, ns, l, c.pick(n));
						 break;
					 }
					 case 1:
					 {
						 auto const l = c.pick(2);
						 std::vector<uint32_t> ns(2, c.pick(2));
						 ns[l] = n;
						 t.command(false, ns, l, c.pick(n));
						 break;
					 }
					 case 2:
					 {
						 auto const kind = c.pick(3);
						 t.select(kind, n, ordered(c, n, n), false);
						 break;
					 }
					 case 3:
					 {
						 auto const m = c.pick(an + 1);
						 t.unselect(n, m, c.pick(n + m));
						 break;
					 }
					 case 4: t.chain(n, c.pick(n)); break;
					 case 5: t.option(n, c.pick(n)); break;
					 default: t.number(n, c.pick(n)); break;
					 }
				 }});
	r.push_back({"lists",
	             "effect and number requests of 1 to 255 entries, every entry",
	             [](Chooser& c)
	             {
					 Trip t(c);
					 t.who = c.pick(2);
					 auto const k = c.pick(14);
					 uint32_t const n = k < 8 ? k + 1 : 250 + k - 8;
					 if(c.pickb())
						 t.option(n, c.pick(n));
					 else
						 t.number(n, c.pick(n));
				 }});
	r.push_back({"values",
	             "races: every pair of bits out of all 64, attributes: of all 32, "
	             "positions: every subset of the 4; yes or no; hands",
	             [](Chooser& c)
	             {
					 Trip t(c);
					 t.who = c.pick(2);
					 switch(c.pick(5))
					 {
					 case 0:
					 {
						 uint64_t const a = uint64_t{1} << c.pick(64);
						 t.bits(0, ~uint64_t{0}, a | (uint64_t{1} << c.pick(64)));
						 break;
					 }
					 case 1:
					 {
						 uint64_t const a = uint64_t{1} << c.pick(32);
						 t.bits(1, 0xFFFFFFFFU, a | (uint64_t{1} << c.pick(32)));
						 break;
					 }
					 case 2:
					 {
						 auto const o = 1 + c.pick(15);
						 t.bits(2, o, o & (1 + c.pick(15)));
						 break;
					 }
					 case 3: t.yes_no(c.pickb(), c.pickb()); break;
					 default: t.rps(1 + c.pick(3)); break;
					 }
				 }});
	r.push_back({"zones",
	             "zone requests with every pair of free zones among none or all "
	             "others, answered with one or both of them",
	             [](Chooser& c)
	             {
					 Trip t(c);
					 t.who = c.pick(2);
					 bool const dis = c.pickb();
					 auto const i = c.pick(30), j = c.pick(30);
					 std::vector<uint32_t> free{ZONE_BITS[i]}, want{ZONE_BITS[i]};
					 if(i != j)
					 {
						 free.push_back(ZONE_BITS[j]);
						 if(c.pickb())
							 want.push_back(ZONE_BITS[j]);
					 }
					 if(c.pickb())
						 free = ZONE_BITS;
					 t.zone(free, want, dis);
				 }});
	uint32_t const depth = 3;
	r.push_back({"sequence",
	             "all sequences of " + std::to_string(depth) +
	                 " small requests of any kind with any answer, one response "
	                 "buffer",
	             [depth, th](Chooser& c)
	             {
					 Trip t(c);
					 for(uint32_t i = 0; i < depth; i++)
						 any(t, th ? 3 : 2);
				 }});
	return r;
});

} // namespace

auto main(int argc, char** argv) -> int { return mc::main_(argc, argv); }
