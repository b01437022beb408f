// C09: applying card queries.
#include <ygopen/client/card.hpp>
#include <ygopen/client/default_card_traits.hpp>
#include <ygopen/client/frame.hpp>
#include <ygopen/client/parse_query.hpp>
#include <ygopen/client/undoable.hpp>
#include <ygopen/duel/constants/attribute.hpp>
#include <ygopen/duel/constants/link_arrow.hpp>
#include <ygopen/duel/constants/position.hpp>
#include <ygopen/duel/constants/race.hpp>
#include <ygopen/duel/constants/status.hpp>
#include <ygopen/duel/constants/type.hpp>

#include "board_model.hpp"

using namespace bm;
using mc::Chooser;
using mc::Space;
using YGOpen::Client::BasicCard;
using YGOpen::Client::BasicUndoable;
using YGOpen::Client::QueryCacheHit;
using YGOpen::Proto::Duel::Counter;
using YGOpen::Proto::Duel::Msg;

namespace
{

// Written down independently of the library's own list.
// F(flag, Trait, accessor, protobuf field, value kind)
// kinds: u32, i32, u64, bol, plc
#define SCALARS(F)                                   \
	F(CODE, Code, code, u32)                         \
	F(POSITION, Position, position, u32)             \
	F(ALIAS, Alias, alias, u32)                      \
	F(TYPE, Type, type, u32)                         \
	F(LEVEL, Level, level, i32)                      \
	F(RANK, XyzRank, xyz_rank, u32)                  \
	F(ATTRIBUTE, Attribute, attribute, u32)          \
	F(RACE, Race, race, u64)                         \
	F(ATTACK, Atk, atk, i32)                         \
	F(DEFENSE, Def, def, i32)                        \
	F(BASE_ATTACK, BaseAtk, base_atk, i32)           \
	F(BASE_DEFENSE, BaseDef, base_def, i32)          \
	F(EQUIP_CARD, EquippedTo, equipped_to, plc)      \
	F(OWNER, Owner, owner, i32)                      \
	F(STATUS, Status, status, u32)                   \
	F(IS_PUBLIC, IsPublic, is_public, bol)           \
	F(LSCALE, PendLScale, pend_l_scale, u32)         \
	F(RSCALE, PendRScale, pend_r_scale, u32)         \
	F(IS_HIDDEN, IsHidden, is_hidden, bol)           \
	F(COVER, Cover, cover, u32)                      \
	F(LINK_RATE, LinkRate, link_rate, u32)           \
	F(LINK_ARROW, LinkArrow, link_arrow, u32)

enum Field : int
{
#define F(FLAG, Trait, acc, kind) F_##acc,
	SCALARS(F)
#undef F
	F_targets,
	F_counters,
	N_FIELDS
};

char const* const NAMES[] = {
#define F(FLAG, Trait, acc, kind) #acc,
	SCALARS(F)
#undef F
	"targets", "counters"};

enum Kind
{
	u32,
	i32,
	u64,
	bol,
	plc
};

struct HistoryTraits
{
	using D = YGOpen::Client::DefaultCardTraits;
	template<typename T>
	using U = BasicUndoable<T>;
#define F(FLAG, Trait, acc, kind) using Trait##Type = U<D::Trait##Type>;
	SCALARS(F)
#undef F
	using TargetsType = U<std::vector<Place>>;
	using CountersType = U<std::vector<Counter>>;
};

using PlainCard = BasicCard<YGOpen::Client::DefaultCardTraits>;
using HistoryCard = BasicCard<HistoryTraits>;

// Every value is represented by a list of 64-bit numbers.
using Val = std::vector<uint64_t>;

auto place_val(Place const& p) -> Val
{
	return {uint64_t(int64_t(p.con())), p.loc(), p.seq(), uint64_t(int64_t(p.oseq()))};
}
auto val_of(Place const& p) -> Val { return place_val(p); }
auto val_of(std::vector<Place> const& v) -> Val
{
	Val r{v.size()};
	for(auto& p : v)
		for(auto x : place_val(p))
			r.push_back(x);
	return r;
}
auto val_of(std::vector<Counter> const& v) -> Val
{
	Val r{v.size()};
	for(auto& p : v)
	{
		r.push_back(p.type());
		r.push_back(p.count());
	}
	return r;
}
template<typename T>
auto val_of(T const& v) -> std::enable_if_t<std::is_integral_v<T> || std::is_enum_v<T>, Val>
{
	return {uint64_t(v)};
}
template<typename T>
auto val_of(BasicUndoable<T> const& v) -> Val
{
	T const& x = v;
	return val_of(x);
}

template<typename Card>
auto get(Card const& k, int f) -> Val
{
	switch(f)
	{
#define F(FLAG, Trait, acc, kind) \
	case F_##acc: return val_of(k.acc());
		SCALARS(F)
#undef F
	case F_targets: return val_of(k.targets());
	default: return val_of(k.counters());
	}
}

auto undo_field(HistoryCard& k, int f) -> void
{
	switch(f)
	{
#define F(FLAG, Trait, acc, kind) \
	case F_##acc: k.acc().undo(); break;
		SCALARS(F)
#undef F
	case F_targets: k.targets().undo(); break;
	default: k.counters().undo(); break;
	}
}

auto flag_of(int f) -> uint64_t
{
	switch(f)
	{
#define F(FLAG, Trait, acc, kind) \
	case F_##acc: return uint64_t(QueryCacheHit::FLAG);
		SCALARS(F)
#undef F
	default: return 0;
	}
}

auto kind_of(int f) -> Kind
{
	switch(f)
	{
#define F(FLAG, Trait, acc, kind) \
	case F_##acc: return kind;
		SCALARS(F)
#undef F
	default: return plc;
	}
}

auto a_place(unsigned v) -> Place
{
	static P const ps[] = {P{0, 0, 0, 0},        P{1, 4, 6, -1}, P{0, 8, 4, -1},
	                       P{1, 0x200, 1, 3}, P{0, 4, 6, -1}, P{1, 4, 5, -1},
	                       P{1, 4, 6, 0}};
	return pb(ps[v % 7]);
}

// Sets a field of the query to its v-th value; returns the value it stands for.
// Value 0 is the default one.
constexpr unsigned N_VALUES = 5;
auto set(Msg::Query::Data& d, int f, unsigned v) -> Val
{
	static uint32_t const U32[N_VALUES] = {0, 1, 0x80000000U, 0xFFFFFFFFU, 0x12345678U};
	static int32_t const I32[N_VALUES] = {0, 1, -1, INT32_MIN, INT32_MAX};
	static uint64_t const U64[N_VALUES] = {0, 1, 0x8000000000000000ULL,
	                                       0xFFFFFFFFFFFFFFFFULL, 0x100000000ULL};
	static bool const BOL[N_VALUES] = {false, true, true, false, true};
	if(f == F_targets)
	{
		auto* q = d.mutable_targets();
		Val r{0};
		static std::vector<unsigned> const L[N_VALUES] = {{}, {1}, {1, 2}, {2, 1}, {3, 3, 5}};
		for(auto i : L[v])
		{
			*q->add_values() = a_place(i);
			for(auto x : place_val(a_place(i)))
				r.push_back(x);
			r[0]++;
		}
		return r;
	}
	if(f == F_counters)
	{
		auto* q = d.mutable_counters();
		Val r{0};
		static std::vector<unsigned> const L[N_VALUES] = {{}, {1}, {1, 2}, {2, 1}, {9, 9, 9}};
		for(auto i : L[v])
		{
			auto* c = q->add_values();
			c->set_type(0x1000 + i);
			c->set_count(i * 70000);
			r.push_back(0x1000 + i);
			r.push_back(i * 70000);
			r[0]++;
		}
		return r;
	}
#define SET_u32(acc) d.mutable_##acc()->set_value(U32[v]); return {uint64_t(U32[v])};
#define SET_i32(acc) d.mutable_##acc()->set_value(I32[v]); return {uint64_t(int64_t(I32[v]))};
#define SET_u64(acc) d.mutable_##acc()->set_value(U64[v]); return {U64[v]};
#define SET_bol(acc) d.mutable_##acc()->set_value(BOL[v]); return {uint64_t(BOL[v])};
#define SET_plc(acc)                          \
	if(v == 0)                                \
		d.mutable_##acc();                    \
	else                                      \
		*d.mutable_##acc()->mutable_value() = a_place(v + 1); \
	return place_val(v == 0 ? Place() : a_place(v + 1));
	switch(f)
	{
#define F(FLAG, Trait, acc, kind) \
	case F_##acc: SET_##kind(acc)
		SCALARS(F)
#undef F
	}
	return {};
}

auto str(Val const& v) -> std::string
{
	std::string s = "(";
	for(auto x : v)
		s += std::to_string(x) + " ";
	return s + ")";
}

template<typename Card>
struct World
{
	YGOpen::Client::BasicFrame<Card> f;
	std::vector<P> places{P{0, 2, 0, -1}, P{0, 2, 1, -1}, P{1, 4, 5, -1},
	                      P{1, 4, 5, 0},  P{1, 4, 5, 1},  P{0, 0x100, 0, -1}};
	std::vector<std::vector<Val>> now;              // [card][field]
	std::vector<std::vector<std::vector<Val>>> line; // [card][field] history
	World()
	{
		for(auto& p : places)
		{
			static_cast<void>(f.card_add(pb(p)));
			auto const& k = f.card(pb(p));
			now.emplace_back();
			line.emplace_back();
			for(int i = 0; i < N_FIELDS; i++)
			{
				now.back().push_back(get(k, i));
				line.back().push_back({get(k, i)});
			}
		}
	}
};

template<typename Card, bool cache>
struct Run
{
	Chooser& c;
	World<Card> w;
	explicit Run(Chooser& ch) : c(ch) {}
	std::string told;

	auto query(unsigned card, std::vector<std::pair<int, unsigned>> const& what) -> void
	{
		Msg::Query q;
		*q.mutable_place() = pb(w.places[card]);
		auto* d = q.mutable_data();
		uint64_t hits = 0;
		std::string s = std::string(cache ? "caching" : "plain") + " query of " +
		                bm::str(w.places[card]) + ":";
		for(auto& [f, v] : what)
		{
			auto const val = ::set(*d, f, v);
			s += " " + std::string(NAMES[f]) + "=" + ::str(val);
			if(cache && f < F_targets && w.now[card][f] == val)
				hits |= flag_of(f);
			else
				w.line[card][f].push_back(val);
			w.now[card][f] = val;
		}
		LOG(c, "%s", s.c_str());
		told += s + "; ";
		auto const got = uint64_t(YGOpen::Client::parse_query<cache>(w.f, q));
		c.step();
		if(!c.fresh())
			return;
		CHECK(c, got == hits,
		      told + "reported hits " + std::to_string(got) + ", should be " +
		          std::to_string(hits));
		for(size_t k = 0; k < w.places.size(); k++)
		{
			auto const& x = w.f.card(pb(w.places[k]));
			for(int f = 0; f < N_FIELDS; f++)
				CHECK(c, get(x, f) == w.now[k][f],
				      told + NAMES[f] + " of " + bm::str(w.places[k]) + " is " +
				          ::str(get(x, f)) + ", should be " + ::str(w.now[k][f]));
		}
		c.outcome(mc::Hasher().add(hits).add(what.size()).h);
	}
	auto finish() -> void
	{
		mc::Hasher h;
		h.add(told);
		c.state(h.h);
		if constexpr(std::is_same_v<Card, HistoryCard>)
		{
			for(size_t k = 0; k < w.places.size(); k++)
			{
				auto& x = w.f.card(pb(w.places[k]));
				for(int f = 0; f < N_FIELDS; f++)
					for(size_t i = w.line[k][f].size(); i-- > 1;)
					{
						undo_field(x, f);
						c.step();
						CHECK(c, get(x, f) == w.line[k][f][i - 1],
						      told + "undoing " + NAMES[f] + " of " +
						          bm::str(w.places[k]) + " shows " +
						          ::str(get(x, f)) + ", should be " +
						          ::str(w.line[k][f][i - 1]));
					}
			}
		}
	}
};

// Two or three queries of one field each.
template<typename Card, bool cache>
auto one_field(Chooser& c, int times) -> void
{
	Run<Card, cache> r(c);
	int const f = c.pick(N_FIELDS);
	unsigned const a = c.pick(r.w.places.size());
	for(int i = 0; i < times; i++)
		r.query(i == 1 ? (a + c.pick(2) * 2) % r.w.places.size() : a,
		        {{f, c.pick(N_VALUES)}});
	r.finish();
}

// Every bit of a value, changed alone, and unchanged.
auto scalar_bits(Chooser& c) -> void
{
	int const f = c.pick(F_targets);
	auto const k = kind_of(f);
	if(k == bol || k == plc)
		return;
	uint32_t const bits = k == u64 ? 64 : 32;
	auto value = [](uint32_t b) { return b == 0 ? 0 : uint64_t{1} << (b - 1); };
	auto const from = value(c.pick(bits + 1));
	auto const to = from ^ value(c.pick(bits + 1));
	bool const cached = c.pickb();
	YGOpen::Client::BasicFrame<PlainCard> fr;
	auto const p = pb(P{0, 2, 0, -1});
	static_cast<void>(fr.card_add(p));
	auto send = [&](uint64_t v, uint64_t now)
	{
		Msg::Query q;
		*q.mutable_place() = p;
		Val want;
		switch(f)
		{
#define BITS_u32(acc) q.mutable_data()->mutable_##acc()->set_value(uint32_t(v)); want = {uint64_t(uint32_t(v))};
#define BITS_i32(acc) q.mutable_data()->mutable_##acc()->set_value(int32_t(uint32_t(v))); want = {uint64_t(int64_t(int32_t(uint32_t(v))))};
#define BITS_u64(acc) q.mutable_data()->mutable_##acc()->set_value(v); want = {v};
#define BITS_bol(acc)
#define BITS_plc(acc)
#define F(FLAG, Trait, acc, kind) \
	case F_##acc: BITS_##kind(acc) break;
			SCALARS(F)
#undef F
		}
		auto const hits = uint64_t(cached ? YGOpen::Client::parse_query<true>(fr, q)
		                                  : YGOpen::Client::parse_query<false>(fr, q));
		c.step();
		CHECK(c, hits == (cached && v == now ? flag_of(f) : 0),
		      std::string(NAMES[f]) + " from " + std::to_string(now) + " to " +
		          std::to_string(v) + ": reported hits " + std::to_string(hits));
		CHECK(c, get(fr.card(p), f) == want,
		      std::string(NAMES[f]) + " from " + std::to_string(now) + " to " +
		          std::to_string(v) + " is " + ::str(get(fr.card(p), f)));
	};
	send(from, 0);
	send(to, from);
	c.state(mc::Hasher().add(f).add(from).add(to).add(cached).h);
}

// List properties that look much alike: any list of up to three of two things,
// and long ones that differ in one place.
template<typename Card, bool cache>
auto lists(Chooser& c) -> void
{
	bool const targets = c.pickb();
	YGOpen::Client::BasicFrame<Card> fr;
	auto const p = pb(P{0, 4, 0, -1}), other = pb(P{0, 4, 0, 0});
	static_cast<void>(fr.card_add(p));
	static_cast<void>(fr.card_add(other));
	auto list = [&]
	{
		std::vector<uint32_t> v;
		if(c.pickb())
		{
			v.resize(c.pick(4));
			for(auto& x : v)
				x = c.pick(2);
			return v;
		}
		static uint32_t const n[] = {17, 60, 256, 257, 300};
		v.resize(n[c.pick(5)], 1);
		switch(c.pick(4))
		{
		case 0: v.front() = 2; break;
		case 1: v[v.size() / 2] = 2; break;
		case 2: v.back() = 2; break;
		default: break;
		}
		return v;
	};
	std::string told;
	Val first;
	for(int i = 0; i < 2; i++)
	{
		auto const v = list();
		Msg::Query q;
		*q.mutable_place() = p;
		Val want{v.size()};
		for(auto x : v)
			if(targets)
			{
				static P const at[] = {P{0, 4, 2, -1}, P{0, 4, 2, 0}, P{1, 4, 2, -1}};
				*q.mutable_data()->mutable_targets()->add_values() = pb(at[x]);
				for(auto y : place_val(pb(at[x])))
					want.push_back(y);
			}
			else
			{
				auto* k = q.mutable_data()->mutable_counters()->add_values();
				k->set_type(0x1041);
				k->set_count(x + 3);
				want.push_back(0x1041);
				want.push_back(x + 3);
			}
		if(v.empty())
		{
			if(targets)
				q.mutable_data()->mutable_targets();
			else
				q.mutable_data()->mutable_counters();
		}
		told += " " + ::str(want);
		int const f = targets ? F_targets : F_counters;
		auto const hits = uint64_t(YGOpen::Client::parse_query<cache>(fr, q));
		c.step();
		CHECK(c, hits == 0, "hits reported for a list");
		CHECK(c, get(fr.card(p), f) == want,
		      std::string(NAMES[f]) + " set to" + told + " is " +
		          ::str(get(fr.card(p), f)));
		CHECK(c, get(fr.card(other), f) == Val{0}, "a list reached another card");
		CHECK(c, get(fr.card(p), F_targets + F_counters - f) == Val{0},
		      "a list reached the other one");
		if(i == 0)
			first = want;
	}
	if constexpr(std::is_same_v<Card, HistoryCard>)
	{
		int const f = targets ? F_targets : F_counters;
		undo_field(fr.card(p), f);
		CHECK(c, get(fr.card(p), f) == first,
		      std::string(NAMES[f]) + " set to" + told + ", undone, is " +
		          ::str(get(fr.card(p), f)));
		undo_field(fr.card(p), f);
		CHECK(c, get(fr.card(p), f) == Val{0}, "the first list remains");
	}
	c.state(mc::Hasher().add(targets).add(told).h);
}

// One card among many, wherever it is; then one somewhere else.
template<typename Card, bool cache>
auto anywhere(Chooser& c) -> void
{
	YGOpen::Client::BasicFrame<Card> fr;
	std::vector<P> ps;
	auto add = [&](P p)
	{
		static_cast<void>(fr.card_add(pb(p)));
		ps.push_back(p);
	};
	for(int con = 0; con < 2; con++)
	{
		for(int i = 0; i < 5; i++)
			for(uint32_t q = 0; q < (i == 0 && con == 1 ? 300U : 12U + i); q++)
				add({con, PILES[i], q, -1});
		for(int z = 0; z < 16; z++)
		{
			auto p = zplace(con, z);
			add(p);
			int const n = z == 6 && con == 0 ? 70 : z % 3;
			for(p.oseq = 0; p.oseq < n; p.oseq++)
				add(p);
		}
	}
	unsigned const a = c.pick(ps.size());
	static constexpr unsigned BY[] = {1, 2, 17, 100};
	unsigned const b = (a + BY[c.pick(4)]) % ps.size();
	std::vector<std::vector<Val>> want;
	for(auto const& p : ps)
	{
		want.emplace_back();
		for(int f = 0; f < N_FIELDS; f++)
			want.back().push_back(get(fr.card(pb(p)), f));
	}
	unsigned v = 1;
	for(auto k : {a, b, a})
	{
		Msg::Query q;
		*q.mutable_place() = pb(ps[k]);
		for(int f = 0; f < N_FIELDS; f++)
			if(v == 1 || f % 2 == 0)
				want[k][f] = ::set(*q.mutable_data(), f, v);
		v++;
		LOG(c, "query of %s", bm::str(ps[k]).c_str());
		static_cast<void>(YGOpen::Client::parse_query<cache>(fr, q));
		c.step();
	}
	for(size_t k = 0; k < ps.size(); k++)
		for(int f = 0; f < N_FIELDS; f++)
		{
			auto const got = get(fr.card(pb(ps[k])), f);
			CHECK(c, got == want[k][f],
			      std::string(NAMES[f]) + " of " + bm::str(ps[k]) + " is " +
			          ::str(got) + " instead of " + ::str(want[k][f]) +
			          " after queries of " + bm::str(ps[a]) + " and " +
			          bm::str(ps[b]));
		}
	c.outcome(mc::Hasher().add(a).add(b).h);
}

// A long history of one card.
template<bool cache>
auto long_history(Chooser& c, uint32_t times) -> void
{
	Run<HistoryCard, cache> r(c);
	int const f = c.pick(N_FIELDS);
	uint32_t v[3];
	for(auto& x : v)
		x = c.pick(3);
	for(uint32_t i = 0; i < times; i++)
		r.query(2, {{f, v[i % 3]}});
	r.finish();
}

// Any two fields at once, twice.
template<typename Card, bool cache>
auto two_fields(Chooser& c) -> void
{
	Run<Card, cache> r(c);
	int const f = c.pick(N_FIELDS);
	int const g = c.pick(N_FIELDS);
	if(f == g)
		return;
	r.query(3, {{f, 1 + c.pick(2)}, {g, 1 + c.pick(2)}});
	r.query(3, {{f, 1 + c.pick(2)}, {g, 1 + c.pick(2)}});
	r.finish();
}

// All fields present; up to `dev_bound` of them absent or different, twice.
template<typename Card, bool cache>
auto all_fields(Chooser& c) -> void
{
	Run<Card, cache> r(c);
	for(int q = 0; q < 2; q++)
	{
		std::vector<std::pair<int, unsigned>> what;
		for(int f = 0; f < N_FIELDS; f++)
		{
			auto const d = c.dev(3);
			if(d == 0)
				what.emplace_back(f, 1);
			else if(d == 1)
				what.emplace_back(f, 2);
		}
		r.query(2, what);
	}
	r.finish();
}

auto empty_query(Chooser& c) -> void
{
	// The flags are each field's own.
	uint64_t all = 0;
	for(int f = 0; f < F_targets; f++)
	{
		CHECK(c, flag_of(f) != 0 && (all & flag_of(f)) == 0,
		      std::string("the hit flag of ") + NAMES[f] + " is not its own");
		all |= flag_of(f);
	}
	Run<PlainCard, true> r(c);
	r.query(c.pick(6), {});
	r.query(0, {{int(c.pick(N_FIELDS)), 1}});
	r.query(0, {});
	r.finish();
}

mc::Register r09(
	"C09",
	[](bool t)
	{
		std::vector<Space> s;
		int const n = t ? 4 : 3;
		std::string const b = "every field, every sequence of " + std::to_string(n) +
		                      " queries with 5 boundary values, 6 cards";
		s.push_back({"one_field_plain", b,
	                 [n](Chooser& c) { one_field<PlainCard, false>(c, n); }});
		s.push_back({"one_field_cached", b,
	                 [n](Chooser& c) { one_field<PlainCard, true>(c, n); }});
		s.push_back({"one_field_history", b,
	                 [](Chooser& c) { one_field<HistoryCard, false>(c, 3); }});
		s.push_back({"one_field_history_cached", b,
	                 [](Chooser& c) { one_field<HistoryCard, true>(c, 3); }});
		s.push_back({"two_fields_plain", "every pair of fields, two queries",
	                 two_fields<PlainCard, false>});
		s.push_back({"two_fields_cached", "every pair of fields, two queries",
	                 two_fields<PlainCard, true>});
		s.push_back({"two_fields_history_cached", "every pair of fields, two queries",
	                 two_fields<HistoryCard, true>});
		int const d = t ? 3 : 2;
		std::string const bd = "all 24 fields, up to " + std::to_string(d) +
		                       " absent or different in two queries";
		s.push_back({"all_plain", bd, all_fields<PlainCard, false>, d});
		s.push_back({"all_cached", bd, all_fields<PlainCard, true>, d});
		s.push_back({"all_history_cached", bd, all_fields<HistoryCard, true>, d});
		s.push_back({"bits",
	                 "every number property, from any one bit to any change of one "
	                 "bit, or none",
	                 scalar_bits});
		std::string const ls =
			"every two of 35 lists: up to 3 of two values, and 17 to 300 values that "
			"differ in one place";
		s.push_back({"lists", ls, lists<PlainCard, false>});
		s.push_back({"lists_history_cached", ls, lists<HistoryCard, true>});
		std::string const as =
			"queries of every one of 600 cards all over the board, with piles of up "
			"to 300 and up to 70 materials, and of another one";
		s.push_back({"anywhere", as, anywhere<PlainCard, true>});
		s.push_back({"anywhere_history", as, anywhere<HistoryCard, false>});
		int const m = t ? 300 : 100;
		s.push_back({"long",
	                 "every field, every three values in turns, " +
	                     std::to_string(m) + " queries, undone all the way",
	                 [m](Chooser& c) { long_history<true>(c, m); }});
		s.push_back({"flags", "distinct hit flags, empty queries", empty_query});
		return s;
	});

} // namespace

int main(int argc, char** argv)
{
	return mc::main_(argc, argv);
}
