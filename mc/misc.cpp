// C26 (bit selection), C27 (places: order, equality, classification, slots).
#include <limits>
#include <set>
#include <vector>
#include <ygopen/bit.hpp>
#include <ygopen/client/frame.hpp>
#include <ygopen/client/frame_limbo.hpp>
#include <ygopen/duel/constants/location.hpp>
#include <ygopen/proto/duel/data.hpp>

#include "explorer.hpp"

using mc::Chooser;
using mc::Hasher;
using mc::Space;

namespace
{

auto str(uint64_t v) -> std::string
{
	char b[32];
	snprintf(b, sizeof b, "0x%llx", static_cast<unsigned long long>(v));
	return b;
}

// ---------------------------------------------------------------------------
// C26

// One value, every count. The expected sets are built from the list of one bits
// of the value, in a plain array, without any bit arithmetic shared with the
// code.
template<typename T>
auto judge_value(Chooser& c, T x) -> void
{
	constexpr unsigned W = sizeof(T) * 8;
	unsigned ones[W];
	unsigned n = 0;
	uint64_t r = x;
	for(unsigned i = 0; i < W; i++, r /= 2)
		if(r % 2 != 0)
			ones[n++] = i;
	uint64_t pow2[W];
	uint64_t p = 1;
	for(unsigned i = 0; i < W; i++, p *= 2)
		pow2[i] = p;
	using namespace YGOpen::Bit;
	auto const got = popcnt(x);
	CHECK(c, got == n,
	      "popcnt(" + str(x) + ") of " + std::to_string(W) + " bits is " +
	          std::to_string(got) + ", not " + std::to_string(n));
	// Lowest k and highest k.
	uint64_t low = 0, high = 0;
	auto one = [&](unsigned count, uint64_t wl, uint64_t wr)
	{
		uint64_t const l = choosel(count, x);
		uint64_t const rr = chooser(count, x);
		CHECK(c, l == wl,
		      "choosel(" + std::to_string(count) + ", " + str(x) + ") of " +
		          std::to_string(W) + " bits is " + str(l) + ", not " + str(wl));
		CHECK(c, rr == wr,
		      "chooser(" + std::to_string(count) + ", " + str(x) + ") of " +
		          std::to_string(W) + " bits is " + str(rr) + ", not " + str(wr));
	};
	for(unsigned k = 0; k <= W + 1; k++)
	{
		one(k, high, low);
		if(k < n)
		{
			low += pow2[ones[k]];
			high += pow2[ones[n - 1 - k]];
		}
	}
	for(unsigned k : {W + 2, 127U, 128U, 255U, 256U, 65535U, 65536U, 0x7FFFFFFFU,
	                  0x80000000U, 0xFFFFFFFFU})
		one(k, high, low);
	c.step(2 * (W + 12) + 1);
	c.state(Hasher{}.add(W).add(x).h);
}

template<typename T>
auto all_values(Chooser& c) -> void
{
	constexpr unsigned B = sizeof(T) * 8 / 2;
	T const hi = c.pick(1U << B);
	LOG(c, "every %u-bit value with high half %#x, every count", 2 * B, unsigned(hi));
	for(unsigned lo = 0; lo < (1U << B); lo++)
		judge_value<T>(c, static_cast<T>((hi << B) | lo));
	c.outcome(1);
}

// Values with at most `n` one bits, or at most `n` zero bits.
template<typename T>
auto sparse(Chooser& c, unsigned n) -> void
{
	constexpr unsigned W = sizeof(T) * 8;
	bool const inv = c.pickb();
	T base = 0;
	unsigned from = 0;
	// All but the last of the bits are drawn, the last one is looped over.
	for(unsigned i = 1; i < n; i++)
	{
		unsigned const left = W - from;
		unsigned const k = c.pick(left + 1);
		if(k == left)
		{
			from = W;
			break;
		}
		base |= static_cast<T>(T{1} << (from + k));
		from += k + 1;
	}
	LOG(c, "%u-bit %s%#llx and every further bit, every count", W, inv ? "~" : "",
	    static_cast<unsigned long long>(base));
	judge_value<T>(c, inv ? static_cast<T>(~base) : base);
	for(unsigned i = from; i < W; i++)
	{
		T const v = base | static_cast<T>(T{1} << i);
		judge_value<T>(c, inv ? static_cast<T>(~v) : v);
	}
	c.outcome(1);
}

// Contiguous runs of ones, and pairs of runs.
template<typename T>
auto runs(Chooser& c, bool two) -> void
{
	constexpr unsigned W = sizeof(T) * 8;
	auto run = [](unsigned a, unsigned b) // Bits a..b-1.
	{
		T v = 0;
		for(unsigned i = a; i < b; i++)
			v |= static_cast<T>(T{1} << i);
		return v;
	};
	unsigned const a = c.pick(W);
	LOG(c, "%u-bit runs of ones starting at bit %u%s, every count", W, a,
	    two ? ", and a second run" : "");
	for(unsigned b = a + 1; b <= W; b++)
	{
		judge_value<T>(c, run(a, b));
		if(two)
			for(unsigned d = b + 1; d < W; d++)
				for(unsigned e = d + 1; e <= W; e++)
					judge_value<T>(c, run(a, b) | run(d, e));
	}
	c.outcome(1);
}

// Every value of a window of bits, at every shift, over zeros and over ones.
template<typename T>
auto windows(Chooser& c, unsigned width) -> void
{
	constexpr unsigned W = sizeof(T) * 8;
	unsigned const s = c.pick(W - width + 1);
	bool const ones = c.pickb();
	unsigned const hi = c.pick(1U << (width / 2));
	LOG(c, "%u-bit windows at bit %u over %s, high half %#x, every count", W, s,
	    ones ? "ones" : "zeros", hi);
	for(unsigned lo = 0; lo < (1U << (width - width / 2)); lo++)
	{
		T const w = static_cast<T>(
			((static_cast<T>(hi) << (width - width / 2)) | lo));
		T const mask = static_cast<T>(
			((T{1} << (width - 1)) - 1 + (T{1} << (width - 1))) << s);
		T const v = static_cast<T>(w << s);
		judge_value<T>(c, ones ? static_cast<T>(v | ~mask) : v);
	}
	c.outcome(1);
}

auto c26(bool th) -> std::vector<Space>
{
	std::vector<Space> v;
	v.push_back({"u8", "every 8-bit value x every count", all_values<uint8_t>});
	v.push_back({"u16", "every 16-bit value x every count", all_values<uint16_t>});
	auto add = [&](auto t, std::string const& n)
	{
		using T = decltype(t);
		unsigned const k = th ? (sizeof(T) == 4 ? 6 : 5) : 4;
		v.push_back({n + "-sparse",
		             "values with up to " + std::to_string(k) +
		                 " one bits or up to " + std::to_string(k) +
		                 " zero bits x every count",
		             [k](Chooser& c) { sparse<T>(c, k); }});
		bool const two = sizeof(T) == 4 || th;
		v.push_back({n + "-runs",
		             two ? "every one or two runs of ones x every count"
		                 : "every run of ones x every count",
		             [two](Chooser& c) { runs<T>(c, two); }});
		unsigned const w = th ? 16 : 8;
		v.push_back({n + "-windows",
		             "every " + std::to_string(w) +
		                 "-bit pattern at every shift, over zeros and over "
		                 "ones x every count",
		             [w](Chooser& c) { windows<T>(c, w); }});
	};
	add(uint32_t{}, "u32");
	add(uint64_t{}, "u64");
	v.push_back({"ull-runs", "every run of ones of the other 64-bit type",
	             [](Chooser& c) { runs<unsigned long long>(c, false); }});
	return v;
}

// ---------------------------------------------------------------------------
// C27

using YGOpen::Proto::Duel::Place;
using YGOpen::Proto::Duel::PlaceLess;

struct Q
{
	int32_t con;
	uint32_t loc;
	uint32_t seq;
	int32_t oseq;
};

auto str(Q const& q) -> std::string
{
	return "(" + std::to_string(q.con) + ", " + str(uint64_t{q.loc}) + ", " +
	       std::to_string(q.seq) + ", " + std::to_string(q.oseq) + ")";
}

// How a place comes to have its values must not matter.
auto place(Q const& q, unsigned how) -> Place
{
	Place p;
	if(how == 1)
	{
		// Overwritten.
		p.set_con(~q.con);
		p.set_loc(~q.loc);
		p.set_seq(~q.seq);
		p.set_oseq(~q.oseq);
	}
	if(how == 2)
	{
		// Parsed from the wire.
		auto const s = place(q, 0).SerializeAsString();
		p.ParseFromString(s);
		return p;
	}
	if(how == 3)
	{
		// With something unknown in it.
		p.ParseFromString(std::string("\x9a\x06\x01z", 4));
	}
	p.set_con(q.con);
	p.set_loc(q.loc);
	p.set_seq(q.seq);
	p.set_oseq(q.oseq);
	return p;
}

template<typename T>
auto sgn3(T a, T b) -> int
{
	return a == b ? 0 : (static_cast<__int128>(a) < static_cast<__int128>(b) ? -1 : 1);
}

// Expected order, component by component.
auto order(Q const& a, Q const& b) -> int
{
	int const s[4] = {sgn3(a.con, b.con), sgn3(a.loc, b.loc), sgn3(a.seq, b.seq),
	                  sgn3(a.oseq, b.oseq)};
	for(int x : s)
		if(x != 0)
			return x;
	return 0;
}

auto less(Place const& a, Place const& b) -> bool { return PlaceLess{}(a, b); }

using YGOpen::Proto::Duel::operator==;

auto judge_pair(Chooser& c, Q const& a, Q const& b, Place const& pa, Place const& pb)
	-> void
{
	int const o = order(a, b);
	CHECK(c, less(pa, pb) == (o < 0) && less(pb, pa) == (o > 0),
	      "order of " + str(a) + " and " + str(b) + " should be " +
	          std::to_string(o) + " but less gives " +
	          std::to_string(less(pa, pb)) + " and " +
	          std::to_string(less(pb, pa)));
	CHECK(c, (pa == pb) == (o == 0) && (pb == pa) == (o == 0),
	      str(a) + " == " + str(b) + " is " + std::to_string(pa == pb));
	c.step(4);
}

struct Domain
{
	std::vector<int32_t> con;
	std::vector<uint32_t> loc, seq;
	std::vector<int32_t> oseq;
	auto all() const -> std::vector<Q>
	{
		std::vector<Q> v;
		for(auto a : con)
			for(auto b : loc)
				for(auto d : seq)
					for(auto e : oseq)
						v.push_back({a, b, d, e});
		return v;
	}
	// One component at a time away from the first value.
	auto draw(Chooser& c) const -> Q
	{
		Q q;
		q.con = c.pickv(con);
		q.loc = c.pickv(loc);
		q.seq = c.pickv(seq);
		q.oseq = c.pickv(oseq);
		return q;
	}
};

constexpr auto IMIN = std::numeric_limits<int32_t>::min();
constexpr auto IMAX = std::numeric_limits<int32_t>::max();

auto wide() -> Domain
{
	return {{0, 1, 2, -1, IMIN, IMAX},
	        {0, 1, 2, 4, 8, 0x10, 0x20, 0x40, 0x100, 0x200, 0x400, 0x80000000U,
	         0xFFFFFFFFU},
	        {0, 1, 2, 59, 255, 256, 0x7FFFFFFFU, 0x80000000U, 0xFFFFFFFFU},
	        {-1, 0, 1, 2, -2, IMIN, IMAX}};
}

auto pairs(Chooser& c, Domain const& d) -> void
{
	auto const a = d.draw(c);
	auto const how = c.pick(4);
	LOG(c, "%s (made in way %u) against every place", str(a).c_str(), how);
	auto const pa = place(a, how);
	CHECK(c, pa.con() == a.con && pa.loc() == a.loc && pa.seq() == a.seq &&
	             pa.oseq() == a.oseq,
	      "the place " + str(a) + " does not hold its values");
	for(auto const& b : d.all())
		judge_pair(c, a, b, pa, place(b, 0));
	c.state(Hasher{}.add(a.con).add(a.loc).add(a.seq).add(a.oseq).add(how).h);
}

// Strict weak order on triples, without any expected values.
auto triples(Chooser& c, Domain const& d) -> void
{
	auto const a = d.draw(c);
	auto const b = d.draw(c);
	auto const pa = place(a, 0), pb = place(b, 0);
	LOG(c, "%s, %s and every third place", str(a).c_str(), str(b).c_str());
	CHECK(c, !less(pa, pa), str(a) + " is before itself");
	CHECK(c, !(less(pa, pb) && less(pb, pa)),
	      str(a) + " and " + str(b) + " are before each other");
	static auto const all = [&]
	{
		std::vector<std::pair<Q, Place>> v;
		for(auto const& q : d.all())
			v.emplace_back(q, place(q, 0));
		return v;
	}();
	bool const ab = less(pa, pb), eab = pa == pb;
	for(auto const& [q, pc] : all)
	{
		CHECK(c, !(ab && less(pb, pc)) || less(pa, pc),
		      str(a) + " < " + str(b) + " < " + str(q) + " but not " + str(a) +
		          " < " + str(q));
		CHECK(c, !(eab && pb == pc) || pa == pc,
		      str(a) + " == " + str(b) + " == " + str(q) + " but not " +
		          str(a) + " == " + str(q));
		CHECK(c, int(less(pa, pc)) + int(less(pc, pa)) + int(pa == pc) == 1,
		      str(a) + " and " + str(q) +
		          " are not exactly one of less, equal and greater");
		c.step(3);
	}
	c.state(Hasher{}
	            .add(a.con)
	            .add(a.loc)
	            .add(a.seq)
	            .add(a.oseq)
	            .add(b.con)
	            .add(b.loc)
	            .add(b.seq)
	            .add(b.oseq)
	            .h);
}

// A set keyed by the order holds each place once and in order, however filled.
auto sets(Chooser& c) -> void
{
	std::vector<Q> const all{{0, 4, 0, -1}, {0, 4, 0, 0}, {0, 4, 1, -1},
	                         {0, 8, 0, -1}, {1, 4, 0, -1}, {0, 4, 0, 1}};
	std::set<Place, PlaceLess> s;
	std::set<unsigned> in;
	for(unsigned i = 0; i < 6; i++)
	{
		auto const k = c.pick(6);
		auto const r = s.insert(place(all[k], i % 2)).second;
		CHECK(c, r == in.insert(k).second, "a set of places takes " + str(all[k]) +
		                                       " twice, or not at all");
	}
	std::vector<Q> want;
	for(auto k : in)
		want.push_back(all[k]);
	std::sort(want.begin(), want.end(),
	          [](Q const& a, Q const& b) { return order(a, b) < 0; });
	size_t i = 0;
	for(auto const& p : s)
	{
		CHECK(c, i < want.size() && p.con() == want[i].con &&
		             p.loc() == want[i].loc && p.seq() == want[i].seq &&
		             p.oseq() == want[i].oseq,
		      "a set of places is not in order at " + std::to_string(i));
		i++;
	}
	CHECK(c, i == want.size(), "a set of places has the wrong size");
	c.step(6);
	Hasher h;
	for(auto k : in)
		h.add(k);
	c.outcome(h.h);
}

struct Loc
{
	uint32_t v;
	int kind; // 0 unspecified, 1 pile, 2 zone
	size_t slots;
	char const* name;
};

auto locs() -> std::vector<Loc> const&
{
	// From the enumerators as documented: 5 piles, 5 zones.
	static std::vector<Loc> const v{
		{0x0, 0, 0, "unspecified"}, {0x1, 1, 0, "main deck"},
		{0x2, 1, 0, "hand"},        {0x4, 2, 7, "monster zone"},
		{0x8, 2, 5, "spell zone"},  {0x10, 1, 0, "graveyard"},
		{0x20, 1, 0, "banished"},   {0x40, 1, 0, "extra deck"},
		{0x100, 2, 1, "field zone"}, {0x200, 2, 2, "pendulum zone"},
		{0x400, 2, 1, "skill zone"}};
	return v;
}

auto classes(Chooser& c) -> void
{
	using namespace YGOpen::Duel;
	auto const& l = c.pickv(locs());
	auto const loc = static_cast<Location>(l.v);
	LOG(c, "classes of the %s", l.name);
	CHECK(c, is_empty(loc) == (l.kind == 0) && is_pile(loc) == (l.kind == 1) &&
	             is_zone(loc) == (l.kind == 2),
	      std::string("the ") + l.name + " is misclassified");
	Domain d = wide();
	d.loc = {l.v};
	for(auto const& q : d.all())
	{
		auto const p = place(q, 0);
		using namespace YGOpen::Proto::Duel;
		CHECK(c, is_empty(p) == (l.kind == 0) && is_pile(p) == (l.kind == 1) &&
		             is_zone(p) == (l.kind == 2),
		      "the place " + str(q) + " in the " + l.name + " is misclassified");
		CHECK(c, get_loc(p) == loc && static_cast<int32_t>(get_con(p)) == q.con,
		      "get_loc or get_con of " + str(q) + " is wrong");
		c.step(5);
	}
	if(l.kind == 2)
		CHECK(c, YGOpen::Client::zone_seq_lim(loc) == l.slots,
		      std::string("the ") + l.name + " should have " +
		          std::to_string(l.slots) + " slots, but has " +
		          std::to_string(YGOpen::Client::zone_seq_lim(loc)));
	c.state(l.v + 1);
}

struct Card
{
	int id = -1;
};

// Every slot of every zone of a frame is there, is its own, and no more than
// that: putting a card in any two different ones shows both.
template<template<typename, typename> class F>
auto slots(Chooser& c) -> void
{
	using namespace YGOpen::Duel;
	using Frame = F<Card, YGOpen::Client::Detail::DefaultBuilder<Card>>;
	struct S
	{
		int con;
		Loc const* l;
		uint32_t seq;
	};
	std::vector<S> v;
	for(int con = 0; con < 2; con++)
		for(auto const& l : locs())
			for(uint32_t s = 0; s < l.slots; s++)
				v.push_back({con, &l, s});
	auto const a = c.pick(v.size());
	auto const b = c.pick(v.size());
	auto f = std::make_unique<Frame>();
	auto pl = [&](size_t i)
	{ return place({v[i].con, v[i].l->v, v[i].seq, -1}, 0); };
	auto const name = [&](size_t i)
	{
		return std::string(v[i].l->name) + " " + std::to_string(v[i].seq) + " of " +
		       std::to_string(v[i].con);
	};
	LOG(c, "a card in %s, then one in %s", name(a).c_str(), name(b).c_str());
	f->card_add(pl(a));
	f->card(pl(a)).id = 1;
	if(b != a)
	{
		f->card_add(pl(b));
		f->card(pl(b)).id = 2;
	}
	std::set<void const*> zones;
	for(size_t i = 0; i < v.size(); i++)
	{
		auto const& z = f->zone(static_cast<Controller>(v[i].con),
		                        static_cast<Location>(v[i].l->v), v[i].seq);
		CHECK(c, zones.insert(&z).second, name(i) + " is the same as another slot");
		int const want = i == a ? 1 : i == b ? 2 : 0;
		CHECK(c, f->has_card(pl(i)) == (want != 0) && (z.card != nullptr) == (want != 0),
		      name(i) + (want != 0 ? " should hold a card" : " should be empty") +
		          " with cards in " + name(a) + " and " + name(b));
		if(want != 0)
			CHECK(c, f->card(pl(i)).id == want && z.card->id == want,
			      name(i) + " shows another card");
		c.step(2);
	}
	c.state(Hasher{}.add(a).add(b).h);
}

template<typename C, typename B>
using Basic = YGOpen::Client::BasicFrame<C, B>;

auto c27(bool th) -> std::vector<Space>
{
	std::vector<Space> v;
	v.push_back({"pairs",
	             "every ordered pair of places over 6 controllers x 13 locations x "
	             "9 sequences x 7 overlay indexes (boundary values), made in 4 ways",
	             [](Chooser& c)
	             {
					 auto d = wide();
					 pairs(c, d);
				 }});
	Domain t{{0, 1, IMIN}, {0, 4, 0x80000000U}, {0, 1, 0x80000000U}, {-1, 0, IMIN}};
	if(th)
		t = {{0, 1, -1, IMIN}, {0, 4, 8, 0xFFFFFFFFU}, {0, 1, 2, 0xFFFFFFFFU},
		     {-1, 0, 1, IMAX, IMIN}};
	v.push_back({"triples",
	             "every ordered triple of places over " + std::to_string(t.all().size()) +
	                 " places",
	             [t](Chooser& c) { triples(c, t); }});
	v.push_back({"sets", "every sequence of 6 insertions of 6 places "
	                     "into an ordered set", sets});
	v.push_back({"classes", "every location, on itself and on 378 places naming it", classes});
	v.push_back({"slots", "every pair of zone slots of a plain frame", slots<Basic>});
	return v;
}

mc::Register r26("C26", c26);
mc::Register r27("C27", c27);

} // namespace

auto main(int argc, char** argv) -> int { return mc::main_(argc, argv); }
