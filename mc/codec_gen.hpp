// Well-formed messages of the core, byte for byte, together with what the
// encoder has to make of them. Written from the core's own layout, not from
// the encoder.
#ifndef MC_CODEC_GEN_HPP
#define MC_CODEC_GEN_HPP
#include <google/protobuf/arena.h>
#include <memory>
#include <ygopen/codec/edo9300_ocgcore_encode.hpp>
#include <ygopen/duel/constants/controller.hpp>
#include <ygopen/duel/constants/location.hpp>
#include <ygopen/duel/constants/phase.hpp>
#include <ygopen/duel/constants/reason.hpp>
#include <ygopen/proto/duel/data.hpp>
#include <ygopen/proto/duel/msg.hpp>

#include "explorer.hpp"

namespace cg
{

using mc::Chooser;
using YGOpen::Codec::EncodeOneResult;
using YGOpen::Proto::Duel::Msg;
using YGOpen::Proto::Duel::Place;
using Event = Msg::Event;
using Request = Msg::Request;
using Bytes = std::vector<uint8_t>;

// Locations as the core numbers them.
enum : uint32_t
{
	DECK = 1,
	HAND = 2,
	MZ = 4,
	SZ = 8,
	GY = 16,
	BAN = 32,
	EXTRA = 64,
	OVL = 128,
	FIELD = 256,
	PEND = 512,
	SKILL = 1024,
};

struct Wire
{
	uint8_t con;
	uint8_t loc; // May include OVL.
	uint32_t seq;
	uint32_t pos; // Overlay sequence if OVL.
};

// What a core place is on a client's board.
inline auto to_place(Wire const& w, bool has_pos, Place& p) -> void
{
	uint32_t loc = w.loc & 0x7FU, seq = w.seq;
	if(loc == SZ && seq == 5)
	{
		loc = FIELD;
		seq = 0;
	}
	else if(loc == SZ && (seq == 6 || seq == 7))
	{
		loc = PEND;
		seq -= 6;
	}
	p.set_con(w.con);
	p.set_loc(loc);
	p.set_seq(seq);
	p.set_oseq((has_pos && (w.loc & OVL) != 0) ? static_cast<int32_t>(w.pos)
	                                           : -1);
}

// A place that names no location has no meaningful rest.
inline auto canon(Place* p) -> void
{
	if(p->loc() == 0)
	{
		p->set_con(0);
		p->set_seq(0);
		p->set_oseq(0);
	}
}

inline auto wires() -> std::vector<Wire> const&
{
	static std::vector<Wire> const v = []
	{
		std::vector<Wire> r;
		for(uint8_t con = 0; con < 2; con++)
		{
			for(uint32_t s = 0; s < 7; s++)
				r.push_back({con, MZ, s, 1U << ((s + con) % 4)});
			for(uint32_t s = 0; s < 8; s++)
				r.push_back({con, SZ, s, (s + con) % 3 ? 1U : 8U});
			r.push_back({con, DECK, 0, 8});
			r.push_back({con, DECK, con ? 59U : 39U, 8});
			r.push_back({con, HAND, 0, 2});
			r.push_back({con, HAND, con ? 16U : 6U, con ? 1U : 2U});
			r.push_back({con, GY, con ? 32U : 3U, con ? 4U : 1U});
			r.push_back({con, GY, con ? 128U : 255U, 1});
			r.push_back({con, BAN, con ? 64U : 1U, con ? 1U : 8U});
			r.push_back({con, EXTRA, con ? 127U : 14U, con ? 8U : 5U});
			r.push_back({con, EXTRA, con ? 7U : 15U, con ? 5U : 10U});
		}
		return r;
	}();
	return v;
}
inline auto wires_big() -> std::vector<Wire> const&
{
	static std::vector<Wire> const v = []
	{
		std::vector<Wire> r = wires();
		r.push_back({0, DECK, 256, 8});
		r.push_back({1, DECK, 65539, 8});
		r.push_back({1, GY, 0x01020304, 8});
		return r;
	}();
	return v;
}
inline auto wires_ovl() -> std::vector<Wire> const&
{
	static std::vector<Wire> const v = []
	{
		std::vector<Wire> r = wires_big();
		for(uint8_t con = 0; con < 2; con++)
		{
			for(uint32_t s = 0; s < 7; s++)
				r.push_back({con, MZ | OVL, s, s % 3});
			for(uint32_t s = 0; s < 8; s++)
				r.push_back({con, SZ | OVL, s, s % 2});
			r.push_back({con, MZ | OVL, 5, 7});
			r.push_back({con, MZ | OVL, 2, 300});
		}
		return r;
	}();
	return v;
}
// Only moves name the materials of a card outside of the field.
inline auto wires_move() -> std::vector<Wire> const&
{
	static std::vector<Wire> const v = []
	{
		std::vector<Wire> r = wires_ovl();
		for(uint8_t con = 0; con < 2; con++)
		{
			r.push_back({con, GY | OVL, 4, 1});
			r.push_back({con, EXTRA | OVL, 2, 0});
		}
		return r;
	}();
	return v;
}

enum SeqW
{
	S8,
	S32
};

// While there is one, fields take many more values: all bytes, numbers around
// all powers of two, places all along piles and materials, more list lengths.
// For few deviations at a time.
struct Wide
{
	static inline bool on = false;
	Wide() { on = true; }
	~Wide() { on = false; }
	Wide(Wide const&) = delete;
	static auto around(int bits) -> std::vector<uint64_t> const&
	{
		static auto const all = []
		{
			std::map<int, std::vector<uint64_t>> r;
			for(int n : {8, 16, 32, 52, 64})
			{
				std::set<uint64_t> s;
				uint64_t const mask = n == 64 ? ~uint64_t{0} : (uint64_t{1} << n) - 1;
				for(int i = 0; i < n; i++)
					for(int d = -1; d < 2; d++)
						s.insert(((uint64_t{1} << i) + d) & mask);
				if(n == 8)
					for(int i = 0; i < 256; i++)
						s.insert(i);
				s.insert(mask);
				s.insert(mask - 1);
				r.emplace(n, std::vector<uint64_t>(s.begin(), s.end()));
			}
			return r;
		}();
		return all.at(bits);
	}
	static auto wires(SeqW sw, bool ovl) -> std::vector<Wire> const&
	{
		static auto const make = [](uint32_t max, bool ovl)
		{
			std::set<uint32_t> seqs;
			for(uint32_t i = 0; i < 70; i++)
				seqs.insert(i);
			for(uint32_t i = 7; i < 20; i++)
				for(int d = -1; d < 2; d++)
					seqs.insert((1U << i) + d);
			std::vector<Wire> r;
			for(uint8_t con = 0; con < 2; con++)
				for(auto q : seqs)
				{
					if(q > max)
						continue;
					for(auto loc : {DECK, HAND, GY, BAN, EXTRA})
						r.push_back({con, uint8_t(loc), q, 8});
					if(ovl)
						for(uint32_t z : {0, 6})
							r.push_back({con, MZ | OVL, z, q});
				}
			return r;
		};
		static auto const s8 = make(255, false), s32 = make(~0U, false),
						  all = make(~0U, true);
		return ovl ? all : sw == S8 ? s8 : s32;
	}
};

// While there is one, fields take few values, for many deviations at a time;
// of a list only the first element deviates.
struct Shapes
{
	static inline bool on = false;
	Shapes() { on = true; }
	~Shapes() { on = false; }
	Shapes(Shapes const&) = delete;
};

struct Gen
{
	Chooser& c;
	Bytes b;
	uint32_t tag = 0;
	bool quiet = false; // No deviations here.

	explicit Gen(Chooser& ch) : c(ch) {}

	template<typename T>
	auto raw(T v) -> T
	{
		auto const* p = reinterpret_cast<uint8_t const*>(&v);
		b.insert(b.end(), p, p + sizeof(T));
		return v;
	}
	auto dev(uint32_t n) -> uint32_t { return quiet ? 0 : c.dev(n); }
	template<typename T>
	auto devv(std::initializer_list<T> l) -> T
	{
		return *(l.begin() + dev(l.size()));
	}
	auto fresh() -> uint64_t
	{
		uint64_t v = mc::Hasher::mix(0x1234567 + ++tag);
		for(int i = 0; i < 8; i++)
			if(((v >> (8 * i)) & 0xFF) == 0)
				v |= uint64_t{0x5A} << (8 * i);
		return v;
	}
	// t or any number around a power of two.
	template<typename T>
	auto any(T t, int bits = sizeof(T) * 8) -> T
	{
		auto const& v = Wide::around(bits);
		auto const d = dev(v.size() + 1);
		return d == 0 ? t : static_cast<T>(v[d - 1]);
	}
	auto u8() -> uint8_t
	{
		auto const t = static_cast<uint8_t>(fresh());
		if(Wide::on)
			return raw(any(t));
		if(Shapes::on)
			return raw(devv<uint8_t>({t, 0, 1}));
		return raw(devv<uint8_t>({t, 0, 1, 0x7F, 0x80, 0xFF}));
	}
	auto u16() -> uint16_t
	{
		auto const t = static_cast<uint16_t>(fresh());
		if(Wide::on)
			return raw(any(t));
		if(Shapes::on)
			return raw(devv<uint16_t>({t, 0}));
		return raw(devv<uint16_t>({t, 0, 1, 0xFF, 0x100, 0x7FFF, 0x8000, 0xFFFF}));
	}
	auto u32() -> uint32_t
	{
		auto const t = static_cast<uint32_t>(fresh());
		if(Wide::on)
			return raw(any(t));
		if(Shapes::on)
			return raw(devv<uint32_t>({t, 0, 1, 3}));
		return raw(devv<uint32_t>({t, 0, 1, 0xFF, 0x100, 0xFFFF, 0x10000,
		                           0x7FFFFFFF, 0x80000000, 0xFFFFFFFF}));
	}
	auto u64() -> uint64_t
	{
		auto const t = fresh();
		if(Wide::on)
			return raw(any(t));
		if(Shapes::on)
			return raw(devv<uint64_t>({t, 0}));
		return raw(devv<uint64_t>({t, 0, 1, 0xFFFFFFFF, 0x100000000,
		                           0x8000000000000000, ~uint64_t{0}}));
	}
	auto boolean() -> bool
	{
		auto const d = (++tag & 1) != 0;
		return raw<uint8_t>((dev(2) == 0) == d ? 1 : 0) != 0;
	}
	auto player() -> uint8_t
	{
		uint8_t const d = ++tag & 1;
		return raw<uint8_t>(dev(2) == 0 ? d : 1 - d);
	}
	auto effect(YGOpen::Proto::Duel::Effect& e) -> void
	{
		auto const t = fresh() & 0xFFFFFFFFFFFFFULL;
		auto const v = Wide::on
		                   ? any(t, 52)
		               : Shapes::on
		                   ? devv<uint64_t>({t, 0})
		                   : devv<uint64_t>({t, 0, 1, 0xFFFFF, 0x100000, 0x123400000,
		                                     0xFFFFFFFF, 0xFFFFFFFFFFFFF,
		                                     0xFFFFFFFF00000});
		raw(v);
		e.set_code(v / 0x100000);
		e.set_index(v % 0x100000);
	}
	auto wire(SeqW sw, bool has_pos, bool limbo, bool move = false) -> Wire
	{
		auto const& l = move        ? wires_move()
		                : has_pos   ? wires_ovl()
		                : sw == S8 ? wires()
		                           : wires_big();
		auto const n = wires().size();
		uint32_t const base = (++tag * 7) % n;
		if(Wide::on && !move)
		{
			auto const& more = Wide::wires(sw, has_pos);
			auto const k = dev(more.size() + 1);
			if(k > 0)
				return more[k - 1];
		}
		if(Shapes::on && !move)
		{
			auto const k = dev(limbo ? 4 : 3);
			if(k == 3)
				return Wire{0, 0, 0, 0};
			auto w = l[base];
			if(k == 1)
				w.con = 1 - w.con;
			if(k == 2)
				w = has_pos ? Wire{0, MZ | OVL, 3, 1} : Wire{1, SZ, 5, 8};
			return w;
		}
		uint32_t const d = dev(l.size() + (limbo ? 1 : 0));
		if(d == l.size())
			return Wire{0, 0, 0, 0};
		Wire w = l[(base + d) % l.size()];
		if((w.loc & OVL) == 0)
			w.pos = devv<uint32_t>({w.pos, 1, 2, 4, 8, 0x10});
		return w;
	}
	auto put(Wire const& w, SeqW sw, bool has_pos, bool wide_loc = false) -> void
	{
		raw<uint8_t>(w.con);
		if(wide_loc)
			raw<uint32_t>(w.loc);
		else
			raw<uint8_t>(w.loc);
		if(sw == S8)
			raw<uint8_t>(w.seq);
		else
			raw<uint32_t>(w.seq);
		if(has_pos)
			raw<uint32_t>(w.pos);
	}
	// con, location (u8), sequence (u32), position (u32)
	auto info(Place* p, bool limbo = false) -> void
	{
		auto const w = wire(S32, true, limbo);
		put(w, S32, true);
		if(p != nullptr)
			to_place(w, true, *p);
	}
	// con, location, sequence
	auto place(Place* p, SeqW sw, bool wide_loc = false) -> void
	{
		auto const w = wire(sw, false, false);
		put(w, sw, false, wide_loc);
		if(p != nullptr)
			to_place(w, false, *p);
	}
	template<typename T>
	auto count(bool nonzero = false) -> uint32_t
	{
		uint32_t n = 2;
		if(Wide::on)
			n = dev(sizeof(T) == 1 ? 256 : 1030);
		else if(Shapes::on)
			n = devv<uint32_t>({2, 0, 1, 3});
		else if constexpr(sizeof(T) == 1)
			n = devv<uint32_t>({2, 1, 0, 3, 9, 17, 128, 255});
		else
			n = devv<uint32_t>({2, 1, 0, 3, 9, 17, 256});
		if(Wide::on)
			n = n == 0 ? 2 : n <= 2 ? n - 1 : n;
		if(n == 0 && nonzero)
			n = 4;
		raw<T>(n);
		return n;
	}
	// Calls f for every element; only the first two and the last one deviate,
	// in long lists only the last one.
	template<typename F>
	auto each(uint32_t n, F f) -> void
	{
		bool const q = quiet;
		for(uint32_t i = 0; i < n; i++)
		{
			quiet = q || (Shapes::on ? i != 0
			                         : i + 1 != n && (i > 1 || n > 17));
			f(i);
		}
		quiet = q;
	}
	template<typename T, typename F>
	auto list(F f, bool nonzero = false) -> void
	{
		each(count<T>(nonzero), [&](uint32_t) { f(); });
	}
};

// What class a message belongs to.
enum class Cls
{
	OK,
	SWALLOWED,
	UNKNOWN,
	UNJUDGED, // Recognised but not implemented yet: only never over-read.
};

enum Group
{
	EVENT,   // C11
	REQUEST, // C12
	ZONES,   // C15 as well
	SPECIAL, // needs the context; content judged by C16 to C18
	QUERY,   // C13
	SWALLOW,
};

struct Kind
{
	uint8_t value;
	char const* name;
	Group group;
	// Writes the message behind the type byte. Returns its class.
	Cls (*gen)(Gen& g, Msg& m);
};

inline auto update_place(Gen& g, Msg& m) -> Place*
{
	return m.mutable_event()->mutable_meta()->mutable_update()->add_places();
}

inline auto zones_of(uint32_t mask, uint8_t first, bool when,
                     google::protobuf::RepeatedPtrField<Place>* out) -> void
{
	for(int half = 0; half < 2; half++)
		for(int bit = 0; bit < 16; bit++)
		{
			if(bit == 7 || ((((mask >> (half * 16 + bit)) & 1U) != 0) != when))
				continue;
			auto* p = out->Add();
			p->set_con(half == 0 ? first : 1 - first);
			p->set_oseq(-1);
			if(bit < 7)
			{
				p->set_loc(MZ);
				p->set_seq(bit);
			}
			else if(bit < 13)
			{
				p->set_loc(SZ);
				p->set_seq(bit - 8);
			}
			else if(bit == 13)
			{
				p->set_loc(FIELD);
				p->set_seq(0);
			}
			else
			{
				p->set_loc(PEND);
				p->set_seq(bit - 14);
			}
		}
}

inline auto mask_of(Gen& g) -> uint32_t
{
	return g.raw(g.devv<uint32_t>({0xE0E0FFE0U, 0, 0xFFFFFFFFU, 0x7F7F7F7FU, 0x1U,
	                               0x80000000U, 0x00010000U, 0x80808080U,
	                               0xFFFF0000U, 0x0000FFFFU, 0xDFFFFFFFU}));
}

template<bool IDLE>
inline auto gen_idle(Gen& g, Msg& m) -> Cls
{
	auto* r = m.mutable_request();
	r->set_replier(g.player());
	auto* s = r->mutable_select_idle();
	s->set_is_battle_cmd(!IDLE);
	auto activable = [&]
	{
		g.list<uint32_t>(
			[&]
			{
				auto* k = s->add_activable_cards();
				g.u32();
				g.place(k->mutable_place(), S32);
				g.effect(*k->mutable_effect());
				g.u8();
			});
	};
	auto places = [&](auto add, SeqW sw)
	{
		g.list<uint32_t>(
			[&]
			{
				g.u32();
				g.place(add(), sw);
			});
	};
	if(IDLE)
	{
		places([&] { return s->add_summonable_cards(); }, S32);
		places([&] { return s->add_spsummonable_cards(); }, S32);
		places([&] { return s->add_repositionable_cards(); }, S8);
		places([&] { return s->add_msetable_cards(); }, S32);
		places([&] { return s->add_ssetable_cards(); }, S32);
		activable();
		uint32_t ph = 0;
		if(g.boolean())
			ph |= 0x80;
		if(g.boolean())
			ph |= 0x200;
		s->set_available_phase(ph);
		s->set_can_shuffle(g.boolean());
	}
	else
	{
		activable();
		g.list<uint32_t>(
			[&]
			{
				auto* k = s->add_can_attack_cards();
				g.u32();
				g.place(k->mutable_place(), S8);
				k->set_can_attack_directly(g.boolean());
			});
		uint32_t ph = 0;
		if(g.boolean())
			ph |= 0x100;
		if(g.boolean())
			ph |= 0x200;
		s->set_available_phase(ph);
		s->set_can_shuffle(false);
	}
	return Cls::OK;
}

template<bool WIDE>
inline auto gen_reload_zone(Gen& g, Event::Card::Add* add, uint8_t con,
                            uint8_t loc, uint32_t n) -> void
{
	for(uint32_t seq = 0; seq < n; seq++)
	{
		// Default: nothing but a few.
		bool const def = seq == 0 || (loc == SZ && seq == 5);
		bool const has = (g.dev(2) == 0) == def;
		g.raw<uint8_t>(has ? 1 : 0);
		if(!has)
			continue;
		g.raw<uint8_t>(g.devv<uint8_t>({1, 8}));
		to_place({con, loc, seq, 0}, false, *add->add_places());
		uint32_t const mats = g.raw(
			g.devv<uint32_t>({def && loc == MZ ? 1U : 0U, 1, 2, 3, 300}));
		for(uint32_t i = 0; i < mats; i++)
			to_place({con, static_cast<uint8_t>(loc | OVL), seq, i}, true,
			         *add->add_places());
	}
}

inline auto add_resize(Event::Pile::Resize* r, uint8_t con, uint32_t loc,
                       uint32_t count) -> void
{
	auto* op = r->add_ops();
	op->mutable_place()->set_con(con);
	op->mutable_place()->set_loc(loc);
	op->mutable_place()->set_seq(0);
	op->mutable_place()->set_oseq(-1);
	op->set_count(count);
}

template<uint32_t REASON>
inline auto gen_summoning(Gen& g, Msg& m) -> Cls
{
	g.u32();
	g.info(update_place(g, m));
	m.mutable_event()->mutable_meta()->mutable_update()->set_reason(REASON);
	return Cls::OK;
}
template<int WHAT>
inline auto gen_lp(Gen& g, Msg& m) -> Cls
{
	auto* lp = m.mutable_event()->mutable_lp();
	lp->set_controller(g.player());
	auto const v = g.u32();
	if(WHAT == 0)
		lp->set_become(v);
	else if(WHAT == 1)
		lp->set_damage(v);
	else if(WHAT == 2)
		lp->set_pay(v);
	else
		lp->set_recover(v);
	return Cls::OK;
}
inline auto gen_confirm(Gen& g, Msg& m) -> Cls
{
	auto* k = m.mutable_event()->mutable_meta()->mutable_confirm();
	g.player();
	g.list<uint32_t>(
		[&]
		{
			g.u32();
			g.place(k->add_places(), S32);
		});
	return Cls::OK;
}
template<uint32_t LOC, bool CODES>
inline auto gen_shuffle(Gen& g, Msg& m) -> Cls
{
	auto* p = m.mutable_event()->mutable_meta()->mutable_shuffle_pile()->add_places();
	p->set_con(g.player());
	p->set_loc(LOC);
	if(CODES)
		g.list<uint32_t>([&] { g.u32(); });
	return Cls::OK;
}
template<int STATUS>
inline auto gen_chain_status(Gen& g, Msg& m) -> Cls
{
	g.u8();
	m.mutable_event()->mutable_meta()->set_chain_status(
		static_cast<YGOpen::Proto::Duel::ChainStatus>(STATUS));
	return Cls::OK;
}
template<bool PLAYER>
inline auto gen_selected(Gen& g, Msg& m) -> Cls
{
	auto* s = m.mutable_event()->mutable_meta()->mutable_selection();
	if(PLAYER)
		g.player();
	g.list<uint32_t>([&] { g.info(s->add_selected_places()); });
	return Cls::OK;
}
inline auto gen_target(Gen& g, Msg& m) -> Cls
{
	auto* s = m.mutable_event()->mutable_meta()->mutable_selection();
	g.info(s->mutable_selector());
	g.info(s->add_selected_places());
	return Cls::OK;
}
inline auto gen_counter(Gen& g, Msg& m) -> Cls
{
	g.u16();
	g.place(update_place(g, m), S8);
	g.u16();
	return Cls::OK;
}
inline auto gen_chain(Gen& g, YGOpen::Proto::Duel::Chain& k) -> void
{
	g.u32();
	g.info(k.mutable_card_place());
	g.place(k.mutable_place(), S32);
	g.effect(*k.mutable_effect());
}
template<bool DIS>
inline auto gen_select_place(Gen& g, Msg& m) -> Cls
{
	auto* r = m.mutable_request();
	auto const who = g.player();
	r->set_replier(who);
	auto* s = r->mutable_select_zone();
	s->set_blocking(DIS);
	s->set_count(g.u8());
	zones_of(mask_of(g), who, false, s->mutable_places());
	return Cls::OK;
}
inline auto gen_sort(Gen& g, Msg& m) -> Cls
{
	auto* r = m.mutable_request();
	r->set_replier(g.player());
	auto* s = r->mutable_sort();
	g.list<uint32_t>(
		[&]
		{
			g.u32();
			g.place(s->add_places(), S32, true);
		});
	return Cls::OK;
}
inline auto gen_nothing(Gen&, Msg&) -> Cls { return Cls::SWALLOWED; }

// One property record of a query block.
struct QRec
{
	uint32_t flag;
	char const* name;
	void (*gen)(Gen& g, Msg::Query::Data& q, std::vector<uint32_t>& mats);
};
inline auto qrecs() -> std::vector<QRec> const&
{
	using D = Msg::Query::Data;
	using M = std::vector<uint32_t>;
	static std::vector<QRec> const v{
		{0x1, "code", [](Gen& g, D& q, M&) { q.mutable_code()->set_value(g.u32()); }},
		{0x2, "position",
	     [](Gen& g, D& q, M&) { q.mutable_position()->set_value(g.u32()); }},
		{0x4, "alias",
	     [](Gen& g, D& q, M&) { q.mutable_alias()->set_value(g.u32()); }},
		{0x8, "type", [](Gen& g, D& q, M&) { q.mutable_type()->set_value(g.u32()); }},
		{0x10, "level",
	     [](Gen& g, D& q, M&)
	     { q.mutable_level()->set_value(static_cast<int32_t>(g.u32())); }},
		{0x20, "rank",
	     [](Gen& g, D& q, M&) { q.mutable_xyz_rank()->set_value(g.u32()); }},
		{0x40, "attribute",
	     [](Gen& g, D& q, M&) { q.mutable_attribute()->set_value(g.u32()); }},
		{0x80, "race", [](Gen& g, D& q, M&) { q.mutable_race()->set_value(g.u64()); }},
		{0x100, "attack",
	     [](Gen& g, D& q, M&)
	     { q.mutable_atk()->set_value(static_cast<int32_t>(g.u32())); }},
		{0x200, "defense",
	     [](Gen& g, D& q, M&)
	     { q.mutable_def()->set_value(static_cast<int32_t>(g.u32())); }},
		{0x400, "base attack",
	     [](Gen& g, D& q, M&)
	     { q.mutable_base_atk()->set_value(static_cast<int32_t>(g.u32())); }},
		{0x800, "base defense",
	     [](Gen& g, D& q, M&)
	     { q.mutable_base_def()->set_value(static_cast<int32_t>(g.u32())); }},
		{0x1000, "reason (ignored)", [](Gen& g, D&, M&) { g.u32(); }},
		{0x2000, "reason card (ignored)", [](Gen& g, D&, M&) { g.info(nullptr); }},
		{0x4000, "equip card",
	     [](Gen& g, D& q, M&) { g.info(q.mutable_equipped_to()->mutable_value()); }},
		{0x8000, "targets",
	     [](Gen& g, D& q, M&)
	     {
			 auto* t = q.mutable_targets();
			 g.list<uint32_t>([&] { g.info(t->add_values()); });
		 }},
		{0x10000, "materials",
	     [](Gen& g, D&, M& mats)
	     { g.list<uint32_t>([&] { mats.push_back(g.u32()); }); }},
		{0x20000, "counters",
	     [](Gen& g, D& q, M&)
	     {
			 auto* t = q.mutable_counters();
			 g.list<uint32_t>(
				 [&]
				 {
					 auto const x = g.u32();
					 auto* k = t->add_values();
					 k->set_type(x % 65536);
					 k->set_count(x / 65536);
				 });
		 }},
		{0x40000, "owner",
	     [](Gen& g, D& q, M&) { q.mutable_owner()->set_value(g.player()); }},
		{0x80000, "status",
	     [](Gen& g, D& q, M&) { q.mutable_status()->set_value(g.u32()); }},
		{0x100000, "is public",
	     [](Gen& g, D& q, M&) { q.mutable_is_public()->set_value(g.boolean()); }},
		{0x200000, "left scale",
	     [](Gen& g, D& q, M&) { q.mutable_pend_l_scale()->set_value(g.u32()); }},
		{0x400000, "right scale",
	     [](Gen& g, D& q, M&) { q.mutable_pend_r_scale()->set_value(g.u32()); }},
		{0x800000, "link",
	     [](Gen& g, D& q, M&)
	     {
			 q.mutable_link_rate()->set_value(g.u32());
			 q.mutable_link_arrow()->set_value(g.u32());
		 }},
		{0x1000000, "is hidden",
	     [](Gen& g, D& q, M&) { q.mutable_is_hidden()->set_value(g.boolean()); }},
		{0x2000000, "cover",
	     [](Gen& g, D& q, M&) { q.mutable_cover()->set_value(g.u32()); }},
		{0x4000000, "unknown property",
	     [](Gen& g, D&, M&)
	     {
			 auto const n = g.devv<uint32_t>({3, 0, 1, 4, 8, 255, 256, 1000});
			 for(uint32_t i = 0; i < n; i++)
				 g.raw<uint8_t>(i * 37 + 11);
		 }},
		{0x8, "type", nullptr}, // sentinel, never used
	};
	return v;
}
constexpr uint32_t N_QREC = 27;

inline auto put_qrec(Gen& g, uint32_t i, Msg::Query::Data& q,
                     std::vector<uint32_t>& mats) -> void
{
	auto const& r = qrecs()[i];
	auto const at = g.b.size();
	g.raw<uint16_t>(0);
	g.raw<uint32_t>(r.flag);
	r.gen(g, q, mats);
	uint16_t const size = g.b.size() - at - 2;
	memcpy(&g.b[at], &size, 2);
}
inline auto put_qend(Gen& g) -> void
{
	g.raw<uint16_t>(4);
	g.raw<uint32_t>(0x80000000U);
}
inline auto expect_query(Msg& m, uint8_t con, uint8_t loc, uint32_t seq,
                         Msg::Query::Data const& d,
                         std::vector<uint32_t> const& mats) -> void
{
	auto* q = m.add_queries();
	to_place({con, loc, seq, 0}, false, *q->mutable_place());
	*q->mutable_data() = d;
	for(uint32_t i = 0; i < mats.size(); i++)
	{
		auto* k = m.add_queries();
		to_place({con, static_cast<uint8_t>(loc | OVL), seq, i}, true,
		         *k->mutable_place());
		k->mutable_data()->mutable_code()->set_value(mats[i]);
	}
}

inline auto kinds() -> std::vector<Kind> const&
{
	static std::vector<Kind> const v{
		// Events.
		{30, "CONFIRM_DECKTOP", EVENT, gen_confirm},
		{42, "CONFIRM_EXTRATOP", EVENT, gen_confirm},
		{31, "CONFIRM_CARDS", EVENT, gen_confirm},
		{32, "SHUFFLE_DECK", EVENT, gen_shuffle<DECK, false>},
		{33, "SHUFFLE_HAND", EVENT, gen_shuffle<HAND, true>},
		{39, "SHUFFLE_EXTRA", EVENT, gen_shuffle<EXTRA, true>},
		{36, "SHUFFLE_SET_CARD", EVENT,
	     [](Gen& g, Msg& m)
	     {
			 auto* s = m.mutable_event()->mutable_card()->mutable_shuffle();
			 g.raw<uint8_t>(g.devv<uint8_t>({MZ, SZ}));
			 auto const n = g.count<uint8_t>();
			 g.each(n, [&](uint32_t) { g.info(s->add_previous_places()); });
			 g.each(n, [&](uint32_t)
		            { g.info(s->add_current_places(), true); });
			 return Cls::OK;
		 }},
		{40, "NEW_TURN", EVENT,
	     [](Gen& g, Msg& m)
	     {
			 m.mutable_event()->set_next_turn(g.player());
			 return Cls::OK;
		 }},
		{41, "NEW_PHASE", EVENT,
	     [](Gen& g, Msg& m)
	     {
			 uint16_t const p =
				 g.devv<uint16_t>({1, 2, 4, 8, 0x10, 0x20, 0x40, 0x80, 0x100, 0x200});
			 m.mutable_event()->set_next_phase(g.raw(p));
			 return Cls::OK;
		 }},
		{53, "POS_CHANGE", EVENT,
	     [](Gen& g, Msg& m)
	     {
			 g.u32();
			 g.place(update_place(g, m), S8);
			 g.u8();
			 g.u8();
			 return Cls::OK;
		 }},
		{54, "SET", EVENT,
	     [](Gen& g, Msg& m)
	     {
			 g.u32();
			 g.place(update_place(g, m), S32);
			 g.u32();
			 return Cls::OK;
		 }},
		{55, "SWAP", EVENT,
	     [](Gen& g, Msg& m)
	     {
			 auto* op = m.mutable_event()->mutable_card()->mutable_exchange()->add_ops();
			 g.u32();
			 g.info(op->mutable_place_a());
			 g.u32();
			 g.info(op->mutable_place_b());
			 return Cls::OK;
		 }},
		{56, "FIELD_DISABLED", ZONES,
	     [](Gen& g, Msg& m)
	     {
			 zones_of(mask_of(g), 0, true,
		              m.mutable_event()->mutable_zone_block()->mutable_zones());
			 return Cls::OK;
		 }},
		{60, "SUMMONING", EVENT, gen_summoning<0x10>},
		{62, "SPSUMMONING", EVENT, gen_summoning<0x800>},
		{64, "FLIPSUMMONING", EVENT, gen_summoning<0x2000>},
		{70, "CHAINING", EVENT,
	     [](Gen& g, Msg& m)
	     {
			 gen_chain(g, *m.mutable_event()->mutable_chain_stack()->mutable_push());
			 g.u32();
			 return Cls::OK;
		 }},
		{71, "CHAINED", EVENT, gen_chain_status<1>},
		{72, "CHAIN_SOLVING", EVENT, gen_chain_status<2>},
		{73, "CHAIN_SOLVED", EVENT,
	     [](Gen& g, Msg& m)
	     {
			 g.u8();
			 m.mutable_event()->mutable_chain_stack()->set_pop(true);
			 return Cls::OK;
		 }},
		{75, "CHAIN_NEGATED", EVENT, gen_chain_status<3>},
		{76, "CHAIN_DISABLED", EVENT, gen_chain_status<4>},
		{91, "DAMAGE", EVENT, gen_lp<1>},
		{92, "RECOVER", EVENT, gen_lp<3>},
		{94, "LPUPDATE", EVENT, gen_lp<0>},
		{100, "PAY_LPCOST", EVENT, gen_lp<2>},
		{81, "RANDOM_SELECTED", EVENT, gen_selected<true>},
		{80, "CARD_SELECTED", EVENT, gen_selected<false>},
		{83, "BECOME_TARGET", EVENT, gen_selected<false>},
		{96, "CARD_TARGET", EVENT, gen_target},
		{97, "CANCEL_TARGET", EVENT, gen_target},
		{101, "ADD_COUNTER", EVENT, gen_counter},
		{102, "REMOVE_COUNTER", EVENT, gen_counter},
		{110, "ATTACK", EVENT,
	     [](Gen& g, Msg& m)
	     {
			 auto* a = m.mutable_event()->mutable_meta()->mutable_attack();
			 g.info(a->mutable_attacker());
			 g.info(a->mutable_attack_target(), true);
			 return Cls::OK;
		 }},
		{130, "TOSS_COIN", EVENT,
	     [](Gen& g, Msg& m)
	     {
			 auto* r = m.mutable_event()->mutable_result()->mutable_coin();
			 r->set_actor(g.player());
			 g.list<uint8_t>([&] { r->add_values(g.boolean()); });
			 return Cls::OK;
		 }},
		{131, "TOSS_DICE", EVENT,
	     [](Gen& g, Msg& m)
	     {
			 auto* r = m.mutable_event()->mutable_result()->mutable_dice();
			 r->set_actor(g.player());
			 g.list<uint8_t>([&] { r->add_values(g.u8()); });
			 return Cls::OK;
		 }},
		{133, "HAND_RES", EVENT,
	     [](Gen& g, Msg& m)
	     {
			 auto* r = m.mutable_event()->mutable_result()->mutable_rps();
			 uint8_t const a = 1 + g.dev(3), b = 1 + g.dev(3);
			 g.raw<uint8_t>(a + 4 * b);
			 r->add_values(a);
			 r->add_values(b);
			 return Cls::OK;
		 }},
		{4, "START", EVENT,
	     [](Gen& g, Msg& m)
	     {
			 auto* s = m.mutable_event()->mutable_board()->mutable_state();
			 g.u8();
			 s->set_turn_counter(0);
			 s->add_lps(g.u32());
			 s->add_lps(g.u32());
			 for(uint8_t i = 0; i < 2; i++)
			 {
				 add_resize(s->mutable_resize(), i, DECK, g.u16());
				 add_resize(s->mutable_resize(), i, EXTRA, g.u16());
			 }
			 return Cls::OK;
		 }},
		{161, "TAG_SWAP", EVENT,
	     [](Gen& g, Msg& m)
	     {
			 auto* e = m.mutable_event()->mutable_board()->mutable_exchange();
			 auto const con = g.player();
			 e->set_con(con);
			 uint32_t const main = g.u32();
			 uint32_t const extra = g.devv<uint32_t>({2, 0, 1, 3, 15, 255, 300});
			 g.raw(extra);
			 g.u32();
			 uint32_t const hand = g.devv<uint32_t>({3, 0, 1, 2, 7, 256, 301});
			 g.raw(hand);
			 add_resize(e->mutable_resize(), con, DECK, main);
			 add_resize(e->mutable_resize(), con, EXTRA, extra);
			 add_resize(e->mutable_resize(), con, HAND, hand);
			 g.u32();
			 g.each(hand + extra,
		            [&](uint32_t)
		            {
						g.u32();
						g.u32();
					});
			 return Cls::OK;
		 }},
		{162, "RELOAD_FIELD", EVENT,
	     [](Gen& g, Msg& m)
	     {
			 auto* s = m.mutable_event()->mutable_board()->mutable_state();
			 // 0x400000: three columns, 0x800: pendulum zones, 0x1000: separate,
			 // 0x2000: extra monster zones.
			 uint32_t const flags = g.raw(g.devv<uint32_t>(
				 {0x2800, 0, 0x400000, 0x800, 0x1000, 0x2000, 0x1800, 0x402800,
			      0x403800, ~0x403800U, 0xFFFFFFFF}));
			 auto* f = s->mutable_shape();
			 f->set_three_columns((flags & 0x400000) != 0);
			 f->set_has_pzones((flags & 0x800) != 0);
			 f->set_has_separate_pzones((flags & 0x1000) != 0);
			 f->set_has_emzones((flags & 0x2000) != 0);
			 f->set_has_skill_zone(false);
			 s->set_turn_counter(-1);
			 s->mutable_add();
			 for(uint8_t con = 0; con < 2; con++)
			 {
				 s->add_lps(g.u32());
				 gen_reload_zone<true>(g, s->mutable_add(), con, MZ, 7);
				 gen_reload_zone<true>(g, s->mutable_add(), con, SZ, 8);
				 for(uint32_t loc : {DECK, HAND, GY, BAN, EXTRA})
					 add_resize(s->mutable_resize(), con, loc, g.u32());
				 g.u32();
			 }
			 g.list<uint32_t>([&] { gen_chain(g, *s->add_chains()); });
			 return Cls::OK;
		 }},
		{165, "PLAYER_HINT", EVENT,
	     [](Gen& g, Msg& m)
	     {
			 auto* d = m.mutable_event()->mutable_meta()->mutable_description();
			 d->set_con(g.player());
			 if(g.dev(2) == 0)
			 {
				 g.raw<uint8_t>(1);
				 g.effect(*d->mutable_add());
			 }
			 else
			 {
				 g.raw<uint8_t>(2);
				 g.effect(*d->mutable_remove());
			 }
			 return Cls::OK;
		 }},
		// Queries.
		{6, "UPDATE_DATA", QUERY,
	     [](Gen& g, Msg& m)
	     {
			 auto const con = g.player();
			 uint8_t const loc =
				 g.raw(g.devv<uint8_t>({MZ, SZ, HAND, DECK, GY, BAN, EXTRA}));
			 uint32_t const n =
				 loc == MZ ? 7 : loc == SZ ? 8 : g.devv<uint32_t>({2, 0, 1, 3, 70});
			 auto const at = g.b.size();
			 g.raw<uint32_t>(0);
			 for(uint32_t i = 0; i < n; i++)
			 {
				 bool const def = loc != MZ && loc != SZ ? true : i % 2 == 0;
				 if((g.dev(2) == 0) != def)
				 {
					 g.raw<uint16_t>(0);
					 continue;
				 }
				 bool const q0 = g.quiet;
				 g.quiet = q0 || (i > 1 && i + 2 < n);
				 Msg::Query::Data d;
				 std::vector<uint32_t> mats;
				 put_qrec(g, 0, d, mats);
				 if((loc & (MZ | SZ)) != 0 && g.dev(2) == 1)
					 put_qrec(g, 16, d, mats);
				 if(g.dev(2) == 1)
					 put_qrec(g, 8, d, mats);
				 put_qend(g);
				 g.quiet = q0;
				 expect_query(m, con, loc, i, d, mats);
			 }
			 uint32_t const total = g.b.size() - at - 4;
			 memcpy(&g.b[at], &total, 4);
			 return Cls::OK;
		 }},
		{7, "UPDATE_CARD", QUERY,
	     [](Gen& g, Msg& m)
	     {
			 auto const w = g.wire(S8, false, false);
			 g.put(w, S8, false);
			 Msg::Query::Data d;
			 std::vector<uint32_t> mats;
			 put_qrec(g, 1, d, mats);
			 if((w.loc & (MZ | SZ)) != 0 && g.dev(2) == 1)
				 put_qrec(g, 16, d, mats);
			 put_qend(g);
			 expect_query(m, w.con, w.loc, w.seq, d, mats);
			 return Cls::OK;
		 }},
		// Requests.
		{141, "ANNOUNCE_ATTRIB", REQUEST,
	     [](Gen& g, Msg& m)
	     {
			 auto* r = m.mutable_request();
			 r->set_replier(g.player());
			 auto* s = r->mutable_select_attribute();
			 s->set_count(g.u8());
			 s->set_attribute(g.u32());
			 return Cls::OK;
		 }},
		{15, "SELECT_CARD", REQUEST,
	     [](Gen& g, Msg& m)
	     {
			 auto* r = m.mutable_request();
			 r->set_replier(g.player());
			 bool const limbo = g.dev(2) == 1;
			 auto const cancel = g.boolean();
			 auto const min = g.u32();
			 auto const max = g.u32();
			 if(limbo)
			 {
				 auto* s = r->mutable_select_card()->mutable_limbo();
				 s->set_can_cancel(cancel);
				 s->set_min(min);
				 s->set_max(max);
				 g.list<uint32_t>(
					 [&]
					 {
						 s->add_card_codes(g.u32());
						 g.put({0, 0, 0, 0}, S32, true);
					 },
					 true);
			 }
			 else
			 {
				 auto* s = r->mutable_select_card()->mutable_unique_range();
				 s->set_can_cancel(cancel);
				 s->set_min(min);
				 s->set_max(max);
				 g.list<uint32_t>(
					 [&]
					 {
						 auto* k = s->add_cards();
						 k->set_code(g.u32());
						 g.info(k->mutable_place());
					 },
					 true);
			 }
			 return Cls::OK;
		 }},
		{26, "SELECT_UNSELECT_CARD", REQUEST,
	     [](Gen& g, Msg& m)
	     {
			 auto* r = m.mutable_request();
			 r->set_replier(g.player());
			 auto* s = r->mutable_select_card()->mutable_recursive();
			 s->set_can_finish(g.boolean());
			 s->set_accept(g.boolean());
			 s->set_min(g.u32());
			 s->set_max(g.u32());
			 g.list<uint32_t>(
				 [&]
				 {
					 auto* k = s->add_selectable_cards();
					 k->set_code(g.u32());
					 g.info(k->mutable_place());
				 });
			 g.list<uint32_t>(
				 [&]
				 {
					 auto* k = s->add_deselectable_cards();
					 k->set_code(g.u32());
					 g.info(k->mutable_place());
				 });
			 return Cls::OK;
		 }},
		{20, "SELECT_TRIBUTE", REQUEST,
	     [](Gen& g, Msg& m)
	     {
			 auto* r = m.mutable_request();
			 r->set_replier(g.player());
			 auto* s = r->mutable_select_card()->mutable_unique_tributes();
			 s->set_can_cancel(g.boolean());
			 s->set_tribute_min(g.u32());
			 s->set_tribute_max(g.u32());
			 g.list<uint32_t>(
				 [&]
				 {
					 auto* k = s->add_cards();
					 k->set_code(g.u32());
					 g.place(k->mutable_place(), S32);
					 k->set_count_as(g.u8());
				 });
			 return Cls::OK;
		 }},
		{14, "SELECT_OPTION", REQUEST,
	     [](Gen& g, Msg& m)
	     {
			 auto* r = m.mutable_request();
			 r->set_replier(g.player());
			 auto* s = r->mutable_select_effect();
			 s->set_count(1);
			 g.list<uint8_t>([&] { g.effect(*s->add_effects()); });
			 return Cls::OK;
		 }},
		{10, "SELECT_BATTLECMD", REQUEST, gen_idle<false>},
		{11, "SELECT_IDLECMD", REQUEST, gen_idle<true>},
		{143, "ANNOUNCE_NUMBER", REQUEST,
	     [](Gen& g, Msg& m)
	     {
			 auto* r = m.mutable_request();
			 r->set_replier(g.player());
			 auto* s = r->mutable_select_number();
			 s->set_count(1);
			 g.list<uint8_t>([&] { s->add_numbers(g.u64()); });
			 return Cls::OK;
		 }},
		{19, "SELECT_POSITION", REQUEST,
	     [](Gen& g, Msg& m)
	     {
			 auto* r = m.mutable_request();
			 r->set_replier(g.player());
			 auto* s = r->mutable_select_position();
			 s->set_count(1);
			 s->set_code(g.u32());
			 s->set_position(g.u8());
			 return Cls::OK;
		 }},
		{140, "ANNOUNCE_RACE", REQUEST,
	     [](Gen& g, Msg& m)
	     {
			 auto* r = m.mutable_request();
			 r->set_replier(g.player());
			 auto* s = r->mutable_select_race();
			 s->set_count(g.u8());
			 s->set_race(g.u64());
			 return Cls::OK;
		 }},
		{132, "ROCK_PAPER_SCISSORS", REQUEST,
	     [](Gen& g, Msg& m)
	     {
			 auto* r = m.mutable_request();
			 r->set_replier(g.player());
			 r->set_select_rock_paper_scissors(true);
			 return Cls::OK;
		 }},
		{16, "SELECT_CHAIN", REQUEST,
	     [](Gen& g, Msg& m)
	     {
			 auto* r = m.mutable_request();
			 r->set_replier(g.player());
			 auto* s = r->mutable_select_to_chain();
			 auto const spe =
				 g.raw(Wide::on ? g.any<uint8_t>(0)
			                    : g.devv<uint8_t>({0, 1, 2, 0x7F, 0x80, 0x81, 0xFF}));
			 s->set_triggering(spe % 128 != 0);
			 s->set_forced(g.boolean());
			 g.u32();
			 g.u32();
			 g.list<uint32_t>(
				 [&]
				 {
					 auto* k = s->add_activable_cards();
					 g.u32();
					 g.info(k->mutable_place());
					 g.effect(*k->mutable_effect());
					 g.u8();
				 });
			 return Cls::OK;
		 }},
		{12, "SELECT_EFFECTYN", REQUEST,
	     [](Gen& g, Msg& m)
	     {
			 auto* r = m.mutable_request();
			 r->set_replier(g.player());
			 auto* s = r->mutable_select_yes_no();
			 s->set_code(g.u32());
			 g.info(s->mutable_place(), true);
			 g.effect(*s->mutable_effect());
			 return Cls::OK;
		 }},
		{13, "SELECT_YESNO", REQUEST,
	     [](Gen& g, Msg& m)
	     {
			 auto* r = m.mutable_request();
			 r->set_replier(g.player());
			 g.effect(*r->mutable_select_yes_no()->mutable_effect());
			 return Cls::OK;
		 }},
		{18, "SELECT_PLACE", ZONES, gen_select_place<false>},
		{24, "SELECT_DISFIELD", ZONES, gen_select_place<true>},
		{21, "SORT_CHAIN", REQUEST, gen_sort},
		{25, "SORT_CARD", REQUEST, gen_sort},
		// Translated with the help of the context.
		{5, "WIN", SPECIAL,
	     [](Gen& g, Msg&)
	     {
			 g.raw<uint8_t>(g.dev(3));
			 g.u8();
			 return Cls::OK;
		 }},
		{38, "DECK_TOP", SPECIAL,
	     [](Gen& g, Msg&)
	     {
			 g.player();
			 g.raw(g.devv<uint32_t>({0, 1, 39}));
			 g.u32();
			 g.u32();
			 return Cls::OK;
		 }},
		{50, "MOVE", SPECIAL,
	     [](Gen& g, Msg&)
	     {
			 g.u32();
			 auto const a = g.wire(S32, true, true, true);
			 auto const b = g.wire(S32, true, true, true);
			 g.put(a, S32, true);
			 g.put(b, S32, true);
			 g.u32();
			 bool const b_pile = (b.loc & (DECK | HAND | GY | BAN | EXTRA)) != 0;
			 if(b.loc == 0)
				 return a.loc == 0 ? Cls::SWALLOWED : Cls::OK;
			 // Announces materials for a monster still to arrive.
			 return a.loc != 0 && b_pile && (b.loc & OVL) != 0 ? Cls::SWALLOWED
		                                                       : Cls::OK;
		 }},
		{35, "SWAP_GRAVE_DECK", SPECIAL,
	     [](Gen& g, Msg&)
	     {
			 g.player();
			 g.raw(g.devv<uint32_t>({0, 1, 15}));
			 // One bit for each of the 40 cards the context reports.
			 g.raw<uint32_t>(5);
			 for(int i = 0; i < 5; i++)
				 g.raw(g.devv<uint8_t>({0, 1, 0x80, 0xFF, 0xA5}));
			 return Cls::OK;
		 }},
		{90, "DRAW", SPECIAL,
	     [](Gen& g, Msg&)
	     {
			 g.player();
			 auto const n = g.raw(g.devv<uint32_t>({1, 0, 2, 5, 40}));
			 g.each(n,
		            [&](uint32_t)
		            {
						g.u32();
						g.u32();
					});
			 return Cls::OK;
		 }},
		{37, "REVERSE_DECK", SPECIAL, [](Gen&, Msg&) { return Cls::OK; }},
		{170, "MATCH_KILL", SPECIAL,
	     [](Gen& g, Msg&)
	     {
			 g.u32();
			 return Cls::SWALLOWED;
		 }},
		// Only consumed.
		{2, "HINT", SWALLOW,
	     [](Gen& g, Msg&)
	     {
			 g.u8();
			 g.player();
			 g.u64();
			 return Cls::SWALLOWED;
		 }},
		{160, "CARD_HINT", SWALLOW,
	     [](Gen& g, Msg&)
	     {
			 g.info(nullptr);
			 g.raw<uint8_t>(g.devv<uint8_t>({1, 2, 3, 4, 5, 6, 7}));
			 g.u64();
			 return Cls::SWALLOWED;
		 }},
		{1, "RETRY", SWALLOW, gen_nothing},
		{61, "SUMMONED", SWALLOW, gen_nothing},
		{63, "SPSUMMONED", SWALLOW, gen_nothing},
		{65, "FLIPSUMMONED", SWALLOW, gen_nothing},
		{74, "CHAIN_END", SWALLOW, gen_nothing},
		{111, "BATTLE", SWALLOW,
	     [](Gen& g, Msg&)
	     {
			 for(int i = 0; i < 2; i++)
			 {
				 g.info(nullptr, true);
				 g.u32();
				 g.u32();
				 g.u8();
			 }
			 return Cls::SWALLOWED;
		 }},
		{93, "EQUIP", SWALLOW,
	     [](Gen& g, Msg&)
	     {
			 g.info(nullptr);
			 g.info(nullptr);
			 return Cls::SWALLOWED;
		 }},
		{112, "ATTACK_DISABLED", SWALLOW, gen_nothing},
		{113, "DAMAGE_STEP_START", SWALLOW, gen_nothing},
		{114, "DAMAGE_STEP_END", SWALLOW, gen_nothing},
		{120, "MISSED_EFFECT", SWALLOW,
	     [](Gen& g, Msg&)
	     {
			 g.info(nullptr);
			 g.u32();
			 return Cls::SWALLOWED;
		 }},
		{163, "AI_NAME", SWALLOW,
	     [](Gen& g, Msg&)
	     {
			 auto const n = g.raw(g.devv<uint16_t>({7, 0, 1, 100, 255, 256, 1000}));
			 for(uint32_t i = 0; i <= n; i++)
				 g.raw<uint8_t>(i == n ? 0 : 'a' + i % 26);
			 return Cls::SWALLOWED;
		 }},
	};
	return v;
}

// Recognised, but the core's layout is not handled (yet).
inline auto unimplemented(uint8_t v) -> bool
{
	return v == 22 || v == 23 || v == 142 || v == 144;
}
inline auto listed(uint8_t v) -> bool
{
	for(auto const& k : kinds())
		if(k.value == v)
			return true;
	return false;
}

// A context that answers from fixed data and keeps what it is told.
struct StubContext final : YGOpen::Codec::IEncodeContext
{
	size_t size = 40;
	uint32_t reason = 0;
	bool mats = false;
	std::vector<Place> deferred;
	Place left_place;
	std::string log_;

	auto pile_size(Con, Loc) const noexcept -> size_t override { return size; }
	auto get_match_win_reason() const noexcept -> uint32_t override
	{
		return reason;
	}
	auto has_xyz_mat(Place const&) const noexcept -> bool override { return mats; }
	auto get_xyz_left(Place const&) const noexcept -> Place override
	{
		return left_place;
	}
	auto match_win_reason(uint32_t r) noexcept -> void override { reason = r; }
	auto xyz_mat_defer(Place const& p) noexcept -> void override
	{
		deferred.push_back(p);
	}
	auto take_deferred_xyz_mat() noexcept -> std::vector<Place> override
	{
		return std::exchange(deferred, {});
	}
	auto xyz_left(Place const& a, Place const& b) noexcept -> void override
	{
		log_ += a.SerializeAsString() + b.SerializeAsString();
	}
	StubContext()
	{
		left_place.set_con(1);
		left_place.set_loc(MZ);
		left_place.set_seq(3);
		left_place.set_oseq(-1);
	}
};

// Messages are given to the encoder in a block of exactly their size.
struct Exact
{
	uint8_t* p;
	size_t n;
	explicit Exact(Bytes const& b) : p(new uint8_t[b.size()]), n(b.size())
	{
		memcpy(p, b.data(), n);
	}
	Exact(Exact const&) = delete;
	~Exact() { delete[] p; }
};
// Same, with room behind it (for checks that judge only the content).
struct Slack
{
	Bytes v;
	uint8_t* p;
	explicit Slack(Bytes const& b) : v(b)
	{
		v.resize(b.size() + 4096, 0);
		p = v.data();
	}
};

inline auto hex(std::string const& s) -> std::string
{
	static char const* const d = "0123456789abcdef";
	std::string o;
	for(unsigned char ch : s)
	{
		o += d[ch >> 4];
		o += d[ch & 15];
	}
	return o.size() > 600 ? o.substr(0, 600) + "..." : o;
}
inline auto hex(Bytes const& b) -> std::string
{
	return hex(std::string(b.begin(), b.end()));
}

// Calls f on every place a message names; `unset` tells whether the protocol
// lets that one be unspecified.
template<typename F>
inline auto walk_places(Msg& m, F f) -> void
{
	auto rep = [&](auto* r, char const* what, bool unset = false)
	{
		for(auto& p : *r)
			f(&p, what, unset);
	};
	auto one = [&](Place* p, char const* what, bool unset = false)
	{ f(p, what, unset); };
	auto resize = [&](Event::Pile::Resize* r)
	{
		for(auto& op : *r->mutable_ops())
			one(op.mutable_place(), "resize");
	};
	auto chain = [&](YGOpen::Proto::Duel::Chain* k)
	{
		if(k->has_card_place())
			one(k->mutable_card_place(), "chain card place");
		if(k->has_place())
			one(k->mutable_place(), "chain place");
	};
	if(m.t_case() == Msg::kEvent)
	{
		auto& e = *m.mutable_event();
		switch(e.t_case())
		{
		case Event::kBoard:
			if(e.board().has_exchange())
			{
				auto& x = *e.mutable_board()->mutable_exchange();
				if(x.has_remove())
					rep(x.mutable_remove()->mutable_places(), "exchange remove");
				if(x.has_add())
					rep(x.mutable_add()->mutable_places(), "exchange add");
				if(x.has_resize())
					resize(x.mutable_resize());
			}
			else if(e.board().has_state())
			{
				auto& x = *e.mutable_board()->mutable_state();
				if(x.has_add())
					rep(x.mutable_add()->mutable_places(), "state add");
				if(x.has_resize())
					resize(x.mutable_resize());
				for(auto& k : *x.mutable_chains())
					chain(&k);
			}
			break;
		case Event::kCard:
		{
			auto& k = *e.mutable_card();
			if(k.has_add())
				rep(k.mutable_add()->mutable_places(), "add");
			else if(k.has_exchange())
				for(auto& op : *k.mutable_exchange()->mutable_ops())
				{
					one(op.mutable_place_a(), "exchange");
					one(op.mutable_place_b(), "exchange");
				}
			else if(k.has_move())
				for(auto& op : *k.mutable_move()->mutable_ops())
				{
					one(op.mutable_old_place(), "move from");
					one(op.mutable_new_place(), "move to");
				}
			else if(k.has_remove())
				rep(k.mutable_remove()->mutable_places(), "remove");
			else if(k.has_shuffle())
			{
				rep(k.mutable_shuffle()->mutable_previous_places(),
				    "shuffle previous");
				rep(k.mutable_shuffle()->mutable_current_places(),
				    "shuffle current", true);
			}
			break;
		}
		case Event::kChainStack:
			if(e.chain_stack().has_push())
				chain(e.mutable_chain_stack()->mutable_push());
			break;
		case Event::kMeta:
		{
			auto& k = *e.mutable_meta();
			if(k.has_attack())
			{
				one(k.mutable_attack()->mutable_attacker(), "attacker");
				if(k.attack().has_attack_target())
					one(k.mutable_attack()->mutable_attack_target(),
					    "attack target", true);
			}
			else if(k.has_confirm())
				rep(k.mutable_confirm()->mutable_places(), "confirm");
			else if(k.has_missed_timing())
				rep(k.mutable_missed_timing()->mutable_places(), "missed timing");
			else if(k.has_selection())
			{
				if(k.selection().has_selector())
					one(k.mutable_selection()->mutable_selector(), "selector");
				rep(k.mutable_selection()->mutable_selected_places(), "selected");
			}
			else if(k.has_shuffle_pile())
				rep(k.mutable_shuffle_pile()->mutable_places(), "shuffle pile");
			else if(k.has_update())
				rep(k.mutable_update()->mutable_places(), "update");
			break;
		}
		case Event::kPile:
		{
			auto& k = *e.mutable_pile();
			if(k.has_exchange())
				for(auto& op : *k.mutable_exchange()->mutable_ops())
				{
					one(op.mutable_place_a(), "pile exchange");
					one(op.mutable_place_b(), "pile exchange");
				}
			else if(k.has_resize())
				resize(k.mutable_resize());
			else if(k.has_splice())
				for(auto& op : *k.mutable_splice()->mutable_ops())
				{
					one(op.mutable_from(), "splice from");
					one(op.mutable_to(), "splice to");
				}
			break;
		}
		case Event::kZoneBlock:
			rep(e.mutable_zone_block()->mutable_zones(), "zone block");
			break;
		default:
			break;
		}
	}
	else if(m.t_case() == Msg::kRequest)
	{
		auto& r = *m.mutable_request();
		switch(r.t_case())
		{
		case Request::kSelectCard:
		{
			auto& s = *r.mutable_select_card();
			auto cards = [&](auto* l)
			{
				for(auto& k : *l)
					one(k.mutable_place(), "selectable card");
			};
			if(s.has_recursive())
			{
				cards(s.mutable_recursive()->mutable_selectable_cards());
				cards(s.mutable_recursive()->mutable_deselectable_cards());
			}
			else if(s.has_unique_range())
				cards(s.mutable_unique_range()->mutable_cards());
			else if(s.has_unique_sum())
				cards(s.mutable_unique_sum()->mutable_cards());
			else if(s.has_unique_tributes())
				cards(s.mutable_unique_tributes()->mutable_cards());
			break;
		}
		case Request::kSelectCounter:
			for(auto& k : *r.mutable_select_counter()->mutable_cards())
				one(k.mutable_place(), "counter card");
			break;
		case Request::kSelectIdle:
		{
			auto& s = *r.mutable_select_idle();
			for(auto& k : *s.mutable_activable_cards())
				one(k.mutable_place(), "activable card");
			rep(s.mutable_summonable_cards(), "summonable card");
			rep(s.mutable_spsummonable_cards(), "special summonable card");
			rep(s.mutable_repositionable_cards(), "repositionable card");
			rep(s.mutable_msetable_cards(), "monster settable card");
			rep(s.mutable_ssetable_cards(), "spell settable card");
			for(auto& k : *s.mutable_can_attack_cards())
				one(k.mutable_place(), "attacking card");
			break;
		}
		case Request::kSelectToChain:
			for(auto& k : *r.mutable_select_to_chain()->mutable_activable_cards())
				one(k.mutable_place(), "chainable card");
			break;
		case Request::kSelectYesNo:
			if(r.select_yes_no().has_place())
				one(r.mutable_select_yes_no()->mutable_place(), "asking card", true);
			break;
		case Request::kSelectZone:
			rep(r.mutable_select_zone()->mutable_places(), "selectable zone");
			break;
		case Request::kSort:
			rep(r.mutable_sort()->mutable_places(), "card to sort");
			break;
		default:
			break;
		}
	}
	for(auto& q : *m.mutable_queries())
	{
		one(q.mutable_place(), "queried card");
		if(q.data().has_equipped_to())
			one(q.mutable_data()->mutable_equipped_to()->mutable_value(),
			    "equipped to");
		if(q.data().has_targets())
			rep(q.mutable_data()->mutable_targets()->mutable_values(), "target");
	}
}

inline auto less(Place const* a, Place const* b) -> bool
{
	auto t = [](Place const* p)
	{ return std::make_tuple(p->con(), p->loc(), p->seq(), p->oseq()); };
	return t(a) < t(b);
}

// Equal messages compare equal after this, unspecified details removed.
inline auto normal(Msg m) -> std::string
{
	walk_places(m, [](Place* p, char const*, bool) { canon(p); });
	if(m.has_event())
	{
		auto& e = *m.mutable_event();
		if(e.has_board() && e.board().has_state())
		{
			auto& s = *e.mutable_board()->mutable_state();
			if(s.has_add() && s.add().places().empty())
				s.clear_add();
			if(s.has_resize() && s.resize().ops().empty())
				s.clear_resize();
		}
		if(e.has_meta() && e.meta().has_shuffle_pile())
			for(auto& p : *e.mutable_meta()->mutable_shuffle_pile()->mutable_places())
			{
				p.set_seq(0); // Only the pile counts.
				p.set_oseq(0);
			}
		if(e.has_meta() && e.meta().has_attack() &&
		   e.meta().attack().attack_target().loc() == 0)
			e.mutable_meta()->mutable_attack()->clear_attack_target();
		if(e.has_zone_block())
			std::sort(e.mutable_zone_block()->mutable_zones()->pointer_begin(),
			          e.mutable_zone_block()->mutable_zones()->pointer_end(), less);
	}
	if(m.has_request() && m.request().has_select_zone())
	{
		auto* l = m.mutable_request()->mutable_select_zone()->mutable_places();
		std::sort(l->pointer_begin(), l->pointer_end(), less);
	}
	return m.SerializeAsString();
}

} // namespace cg

#endif
