// C14: answers to the core's response bytes.
#include <google/protobuf/arena.h>
#include <ygopen/codec/edo9300_ocgcore_decode.hpp>
#include <ygopen/proto/duel/answer.hpp>
#include <ygopen/proto/duel/msg.hpp>

#include "explorer.hpp"

using mc::Chooser;
using mc::Space;
using YGOpen::Proto::Duel::Answer;
using YGOpen::Proto::Duel::Msg;
using Request = Msg::Request;
using Bytes = std::vector<uint8_t>;
namespace core = YGOpen::Codec::Edo9300::OCGCore;

namespace
{

template<typename T>
auto put(Bytes& b, T v) -> void
{
	auto const* p = reinterpret_cast<uint8_t const*>(&v);
	b.insert(b.end(), p, p + sizeof(T));
}
auto i32(uint32_t v) -> Bytes
{
	Bytes b;
	put<uint32_t>(b, v);
	return b;
}
auto hex(Bytes const& b) -> std::string
{
	static char const* const d = "0123456789abcdef";
	std::string o;
	for(size_t i = 0; i < b.size() && i < 200; i++)
	{
		o += d[b[i] >> 4];
		o += d[b[i] & 15];
	}
	return o;
}

// The buffer may hold anything from before.
auto judge(Chooser& c, char const* what, Request const& r, Answer const& a,
           Bytes const& want) -> void
{
	// Any short one, one about as long as the response, or a long one.
	uint32_t const k = c.pick(26);
	Bytes out(k < 10   ? k
	          : k < 25 ? std::max<size_t>(want.size() + k, 17) - 17
	                   : want.size() + 61,
	          0xEE);
	auto const had = out.size();
	core::decode_one_answer(r, a, out);
	c.step();
	LOG(c, "%s: expected %s, got %s", what, hex(want).c_str(), hex(out).c_str());
	CHECK(c, out == want,
	      std::string(what) + ": response " + hex(out) + " (" +
	          std::to_string(out.size()) + " bytes) instead of " + hex(want) +
	          " (" + std::to_string(want.size()) + " bytes), buffer held " +
	          std::to_string(had) + " bytes before");
	c.outcome(mc::Hasher().add(std::string(want.begin(), want.end())).h);
}

std::vector<uint32_t> const U32{0,      1,      2,          3,          0x7F,
                                0x80,   0xFF,   0x100,      0x7FFF,     0x8000,
                                0xFFFF, 0x10000, 0x12345678, 0x7FFFFFFF, 0x80000000,
                                0xFFFFFFFF};

auto numbers(Chooser& c, bool requests) -> void
{
	Request r;
	Answer a;
	r.set_replier(c.pick(2));
	auto const kind = c.pick(9);
	// What the request offers does not matter.
	static constexpr uint32_t OFFERS[] = {0, 1, 2, 127, 128, 300};
	uint32_t const n = requests ? OFFERS[c.pick(std::size(OFFERS))] : 0;
	bool const flag = requests && c.pickb();
	if(requests)
	{
		auto effect = [&](auto* e, uint32_t i)
		{
			e->set_code(i * 5);
			e->set_index(i * 7);
		};
		for(uint32_t i = 0; i < n; i++)
			switch(kind)
			{
			case 0:
				r.mutable_select_attribute()->set_attribute(i * 0x01010101U);
				break;
			case 1: r.mutable_select_card_code()->add_opcodes(i); break;
			case 2: effect(r.mutable_select_effect()->add_effects(), i); break;
			case 3: r.mutable_select_number()->add_numbers(n - i); break;
			case 5:
			{
				auto* x = r.mutable_select_to_chain()->add_activable_cards();
				x->mutable_place()->set_seq(i);
				effect(x->mutable_effect(), i);
				break;
			}
			}
	}
	if(kind == 6)
	{ // Every single race, every pair of races, and all.
		r.mutable_select_race()->set_race(~uint64_t{0});
		auto const i = c.pick(66);
		uint64_t v = i == 64 ? ~uint64_t{0} : i == 65 ? 0 : uint64_t{1} << i;
		if(i < 64)
			v |= uint64_t{1} << c.pick(64);
		a.set_select_race(v);
		Bytes w;
		put<uint64_t>(w, v);
		judge(c, "race", r, a, w);
		return;
	}
	if(kind == 7)
	{
		r.set_select_rock_paper_scissors(true);
		auto const v = 1 + c.pick(3);
		a.set_select_rock_paper_scissors(v);
		judge(c, "rock paper scissors", r, a, i32(v));
		return;
	}
	if(kind == 8)
	{
		r.mutable_select_yes_no()->set_code(flag ? 0 : 5 + n);
		if(flag)
			r.mutable_select_yes_no()->mutable_place()->set_seq(n);
		auto const v = c.pick(2);
		a.set_select_yes_no(v != 0);
		judge(c, "yes or no", r, a, i32(v));
		return;
	}
	// Dense small values, then all powers of two and their neighbours.
	uint32_t const i = requests ? c.pick(2) * (512 + 17) + c.pick(8)
	                            : c.pick(512 + 96);
	uint32_t v = i;
	if(i >= 512)
		v = (uint32_t{1} << ((i - 512) / 3)) + (i % 3) - 1;
	switch(kind)
	{
	case 0:
		r.mutable_select_attribute()->set_count(1 + n);
		a.set_select_attribute(v);
		judge(c, "attribute", r, a, i32(v));
		break;
	case 1:
		r.mutable_select_card_code()->set_count(1 + n);
		a.set_select_card_code(v);
		judge(c, "card code", r, a, i32(v));
		break;
	case 2:
		r.mutable_select_effect()->set_count(1 + n);
		a.set_select_effect(v);
		judge(c, "effect", r, a, i32(v));
		break;
	case 3:
		r.mutable_select_number()->set_count(1);
		a.set_select_number(v);
		judge(c, "number", r, a, i32(v));
		break;
	case 4:
		r.mutable_select_position()->set_count(1 + n);
		r.mutable_select_position()->set_position(flag ? n : 15);
		a.set_select_position(v);
		judge(c, "position", r, a, i32(v));
		break;
	default:
		r.mutable_select_to_chain()->set_forced(c.pickb());
		r.mutable_select_to_chain()->set_triggering(flag);
		if(c.pickb())
		{
			a.mutable_select_to_chain()->set_index(v);
			judge(c, "chain", r, a, i32(v));
		}
		else if(v == 0)
		{
			a.mutable_select_to_chain()->set_no_op(true);
			judge(c, "no chain", r, a, i32(0xFFFFFFFF));
		}
		break;
	}
}

auto cards(Chooser& c, uint32_t max_len, bool requests) -> void
{
	Request r;
	Answer a;
	r.set_replier(c.pick(2));
	auto* s = r.mutable_select_card();
	auto const kind = c.pick(5);
	static char const* const names[] = {"range", "limbo", "tributes", "sum",
	                                    "recursive"};
	// What the request allows does not matter.
	static constexpr uint32_t LIMITS[] = {9, 0, 1, 2, 5, 255, 0xFFFFFFFF};
	auto const lim = requests ? LIMITS[c.pick(std::size(LIMITS))] : 9;
	bool const can = requests && c.pickb();
	auto card = [&](auto* x, uint32_t i)
	{
		x->set_code(i * 3 + 1);
		auto* q = x->mutable_place();
		q->set_con(i % 2);
		q->set_loc(i % 3 == 0 ? 4 : 16);
		q->set_seq(i);
		q->set_oseq(-1);
	};
	uint32_t const n = lim == 9 ? 0 : 5;
	if(kind == 0)
	{
		auto* q = s->mutable_unique_range();
		q->set_can_cancel(can);
		q->set_min(can ? lim : 0);
		q->set_max(lim);
		for(uint32_t i = 0; i < n; i++)
			card(q->add_cards(), i);
	}
	else if(kind == 1)
	{
		auto* q = s->mutable_limbo();
		q->set_can_cancel(can);
		q->set_min(can ? lim : 0);
		q->set_max(lim);
		for(uint32_t i = 0; i < n; i++)
			q->add_card_codes(i * 3 + 1);
	}
	else if(kind == 2)
	{
		auto* q = s->mutable_unique_tributes();
		q->set_can_cancel(can);
		q->set_tribute_min(can ? lim : 0);
		q->set_tribute_max(lim);
		for(uint32_t i = 0; i < n; i++)
			card(q->add_cards(), i);
	}
	else if(kind == 3)
	{
		auto* q = s->mutable_unique_sum();
		q->set_can_cancel(can);
		q->set_sum_exactly(!can);
		q->set_sum_min(can ? lim : 0);
		q->set_sum_max(lim);
		for(uint32_t i = 0; i < n; i++)
			card(q->add_cards(), i);
	}
	else
	{
		auto* q = s->mutable_recursive();
		q->set_can_finish(can);
		q->set_accept(requests && c.pickb());
		q->set_min(can ? lim : 0);
		q->set_max(lim);
		for(uint32_t i = 0; i < n; i++)
			card(i % 2 == 0 ? q->add_selectable_cards()
			                : q->add_deselectable_cards(),
			     i);
	}
	auto* k = a.mutable_select_card();
	auto const what = c.pick(3);
	if(what == 0)
	{
		k->set_cancel(true);
		judge(c, "cancel", r, a, i32(0xFFFFFFFF));
		return;
	}
	if(what == 1)
	{
		k->set_finish(true);
		judge(c, "finish", r, a, i32(0xFFFFFFFF));
		return;
	}
	static std::vector<uint32_t> const vals{0,   1,     2,    3,     4,
	                                        127, 128,   255,  256,   257,
	                                        299, 32767, 4660, 16384, 8};
	Bytes w;
	put<uint32_t>(w, 1);
	auto* idx = k->mutable_indexes();
	if(kind == 4)
	{
		auto const v = U32[c.pick(U32.size() - 2)];
		idx->add_values(v);
		put<uint32_t>(w, v);
		judge(c, "recursive", r, a, w);
		return;
	}
	std::vector<uint32_t> l;
	auto const len = 1 + c.pick(max_len + 5);
	if(len <= max_len)
	{
		auto left = vals;
		for(uint32_t i = 0; i < len; i++)
		{
			auto const j = c.pick(left.size());
			l.push_back(left[j]);
			left.erase(left.begin() + j);
		}
	}
	else
	{
		static std::array<uint32_t, 5> const lens{17, 127, 128, 255, 300};
		for(uint32_t i = 0; i < lens[len - max_len - 1]; i++)
			l.push_back((i * 7) % 311);
	}
	put<uint32_t>(w, l.size());
	for(auto v : l)
	{
		idx->add_values(v);
		put<uint16_t>(w, v);
	}
	judge(c, names[kind], r, a, w);
}

auto idle(Chooser& c) -> void
{
	Request r;
	Answer a;
	r.set_replier(c.pick(2));
	bool const battle = c.pickb();
	r.mutable_select_idle()->set_is_battle_cmd(battle);
	// What else the request allows does not matter.
	auto const offers = c.pick(3);
	if(offers > 0)
	{
		auto* q = r.mutable_select_idle();
		q->set_can_shuffle(offers == 1);
		q->set_available_phase(offers == 1 ? 0xFFFFFFFF : 0);
		for(uint32_t i = 0; i < 6; i++)
		{
			q->add_activable_cards()->mutable_place()->set_seq(i);
			q->add_summonable_cards()->set_seq(i);
			if(offers == 2)
				continue;
			q->add_spsummonable_cards()->set_seq(i);
			q->add_repositionable_cards()->set_seq(i);
			q->add_msetable_cards()->set_seq(i);
			q->add_ssetable_cards()->set_seq(i);
			q->add_can_attack_cards()->mutable_place()->set_seq(i);
		}
	}
	auto* s = a.mutable_select_idle();
	using A = Answer::SelectIdle;
	auto const k = c.pick(3);
	if(k == 0 && !battle)
	{
		r.mutable_select_idle()->set_can_shuffle(true);
		s->set_shuffle(true);
		judge(c, "shuffle", r, a, i32(8));
	}
	else if(k == 1)
	{
		bool const end = c.pickb();
		r.mutable_select_idle()->set_available_phase(battle ? 0x300 : 0x280);
		s->set_phase(end ? 0x200 : battle ? 0x100 : 0x80);
		judge(c, "phase", r, a, i32(battle ? (end ? 3 : 2) : (end ? 7 : 6)));
	}
	else if(k == 2)
	{
		uint32_t code;
		auto* ca = s->mutable_card_action();
		if(battle)
		{
			code = c.pick(2);
			ca->set_action(code == 0 ? A::ACTION_ACTIVATE : A::ACTION_ATTACK);
		}
		else
		{
			static std::array<A::Action, 6> const acts{
				A::ACTION_SUMMON, A::ACTION_SPSUMMON, A::ACTION_REPOSITION,
				A::ACTION_MSET,   A::ACTION_SSET,     A::ACTION_ACTIVATE};
			code = c.pick(6);
			ca->set_action(acts[code]);
		}
		uint32_t const i = c.pick(300 + 48);
		uint32_t const idx =
			i < 300 ? i : ((uint32_t{1} << ((i - 300) / 3)) + i % 3 - 1) & 0xFFFF;
		ca->set_index(idx);
		Bytes w;
		put<uint16_t>(w, code);
		put<uint16_t>(w, idx);
		judge(c, "card action", r, a, w);
	}
}

auto zones(Chooser& c, uint32_t max_len) -> void
{
	Request r;
	Answer a;
	auto const who = c.pick(2);
	r.set_replier(who);
	r.mutable_select_zone()->set_blocking(c.pickb());
	Bytes w;
	auto const n = 1 + c.pick(max_len);
	r.mutable_select_zone()->set_count(n);
	for(uint32_t i = 0; i < n; i++)
	{
		auto* p = a.mutable_select_zone()->add_places();
		auto const con = c.pick(2);
		auto const z = c.pick(15);
		p->set_con(con);
		p->set_oseq(-1);
		w.push_back(con);
		if(z < 7)
		{
			p->set_loc(4);
			p->set_seq(z);
			w.push_back(4);
			w.push_back(z);
		}
		else
		{
			p->set_loc(z < 12 ? 8 : z == 12 ? 0x100 : 0x200);
			p->set_seq(z < 12 ? z - 7 : z == 12 ? 0 : z - 13);
			w.push_back(8);
			w.push_back(z - 7);
		}
		*r.mutable_select_zone()->add_places() = *p;
	}
	judge(c, "zones", r, a, w);
}

auto sorts(Chooser& c, uint32_t max_len) -> void
{
	Request r;
	Answer a;
	r.set_replier(c.pick(2));
	auto const n = c.pick(max_len + 4);
	if(n == 0)
	{
		r.mutable_sort()->add_places();
		a.mutable_sort()->set_skip(true);
		judge(c, "default order", r, a, i32(0xFFFFFFFF));
		return;
	}
	std::vector<uint32_t> l, left;
	if(n <= max_len)
	{
		for(uint32_t i = 0; i < n; i++)
			left.push_back(i);
		for(uint32_t i = 0; i < n; i++)
		{
			auto const j = c.pick(left.size());
			l.push_back(left[j]);
			left.erase(left.begin() + j);
		}
	}
	else
	{
		static std::array<uint32_t, 3> const lens{17, 64, 127};
		auto const m = lens[n - max_len - 1];
		auto const rot = c.pick(m);
		for(uint32_t i = 0; i < m; i++)
			l.push_back((m - 1 - i + rot) % m);
	}
	Bytes w;
	w.push_back(l.size());
	for(auto v : l)
	{
		r.mutable_sort()->add_places()->set_loc(2);
		a.mutable_sort()->mutable_indexes()->add_values(v);
		w.push_back(v);
	}
	judge(c, "order", r, a, w);
}

mc::Register const r14("C14", [](bool th) -> std::vector<Space>
{
	uint32_t const cl = th ? 4 : 3, zl = th ? 3 : 2, sl = th ? 8 : 7;
	return {
		{"numbers",
	     "every request answered by a number: 0 to 511 and all powers of two with "
	     "their neighbours, every pair of races; buffers of 26 previous sizes",
	     [](Chooser& c) { numbers(c, false); }, 0},
		{"requests",
	     "every request answered by a number or cards with 6 sizes and all flags "
	     "or with 7 limits and all flags, 16 answers or up to 1 card",
	     [](Chooser& c)
	     {
			 if(c.pickb())
				 numbers(c, true);
			 else
				 cards(c, 1, true);
		 },
	     0},
		{"cards",
	     "every card selection: cancel, finish, all ordered selections of up to " +
	         std::to_string(cl) + " of 15 indexes, long ones up to 300 cards",
	     [cl](Chooser& c) { cards(c, cl, false); }, 0},
		{"idle", "every action of both idle requests, indexes up to 65535, with 3 sets of offers", idle, 0},
		{"zones",
	     "all sequences of up to " + std::to_string(zl) + " of the 30 zones",
	     [zl](Chooser& c) { zones(c, zl); }, 0},
		{"sorts",
	     "all permutations of up to " + std::to_string(sl) +
	         " cards, rotations of up to 127",
	     [sl](Chooser& c) { sorts(c, sl); }, 0}};
});

} // namespace

auto main(int argc, char** argv) -> int { return mc::main_(argc, argv); }
