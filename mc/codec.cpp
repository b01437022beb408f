// C10 to C13, C15, C18, C19: the encoder against the core's message layouts.
#include <new>
#include <ygopen/codec/edo9300_ocgcore_decode.hpp>
#include <ygopen/proto/duel/answer.hpp>
#include <ygopen/server/basic_encode_context.hpp>

#include "codec_gen.hpp"

using namespace cg;
using google::protobuf::Arena;
using mc::Space;
namespace core = YGOpen::Codec::Edo9300::OCGCore;
using State = EncodeOneResult::State;

namespace
{

auto str(State s) -> char const*
{
	return s == State::OK          ? "encoded"
	       : s == State::SWALLOWED ? "swallowed"
	       : s == State::UNKNOWN   ? "unknown"
	                               : "?";
}

auto place_str(Place const& p) -> std::string
{
	return "(con " + std::to_string(p.con()) + ", loc " + std::to_string(p.loc()) +
	       ", seq " + std::to_string(p.seq()) + ", oseq " +
	       std::to_string(p.oseq()) + ")";
}

auto places_str(Msg m) -> std::string
{
	std::string o;
	walk_places(m, [&](Place* p, char const* what, bool)
	            { o += std::string(" ") + what + place_str(*p); });
	return o.size() > 900 ? o.substr(0, 900) + "..." : o;
}

struct Written
{
	Kind const* kind;
	Msg expected;
	Cls cls;
	Bytes b;
};

auto write_msg(Chooser& c, Kind const& k) -> Written
{
	Written w{&k, {}, Cls::OK, {}};
	Gen g(c);
	g.raw<uint8_t>(k.value);
	w.cls = k.gen(g, w.expected);
	w.b = std::move(g.b);
	LOG(c, "%s: %zu bytes %s", k.name, w.b.size(), hex(w.b).c_str());
	return w;
}

auto filter(std::initializer_list<Group> gs) -> std::vector<Kind const*>
{
	std::vector<Kind const*> v;
	for(auto const& k : kinds())
		for(auto x : gs)
			if(k.group == x)
				v.push_back(&k);
	return v;
}

auto check_class(Chooser& c, Written const& w, EncodeOneResult const& r) -> void
{
	auto const name = [&] { return std::string(w.kind->name) + ": "; };
	auto const want = w.cls == Cls::OK ? State::OK : State::SWALLOWED;
	CHECK(c, r.state == want,
	      name() + "reported as " + str(r.state) + " instead of " + str(want));
	CHECK(c, (r.msg != nullptr) == (want == State::OK),
	      name() + (r.msg != nullptr ? "unexpected" : "missing") +
	          " message in the result");
	CHECK(c, r.bytes_read == w.b.size(),
	      name() + "reported " + std::to_string(r.bytes_read) +
	          " bytes read, the message has " + std::to_string(w.b.size()) + ": " +
	          hex(w.b));
}

// ---------------------------------------------------------------- C10
auto every_kind(Chooser& c) -> void
{
	auto const& ks = kinds();
	auto const& k = ks[c.pick(ks.size())];
	StubContext ctx;
	if(k.value == 50)
		ctx.mats = c.pickb();
	auto const w = write_msg(c, k);
	Exact x(w.b);
	Arena arena;
	auto const r = core::encode_one(arena, ctx, x.p);
	c.step();
	check_class(c, w, r);
	c.outcome(k.value * 7 + static_cast<int>(r.state));
}
// Every property record of every size, in both messages that carry them.
auto query_sizes(Chooser& c) -> void
{
	bool const whole = c.pickb();
	auto const ri = c.pick(N_QREC);
	Gen g(c);
	Msg::Query::Data d;
	std::vector<uint32_t> mats;
	size_t at = 0;
	g.raw<uint8_t>(whole ? 6 : 7);
	g.raw<uint8_t>(1);
	g.raw<uint8_t>(whole ? HAND : MZ);
	if(whole)
	{
		at = g.b.size();
		g.raw<uint32_t>(0);
	}
	else
		g.raw<uint8_t>(2);
	put_qrec(g, ri, d, mats);
	if(c.pickb())
		put_qrec(g, 0, d, mats);
	put_qend(g);
	if(whole)
	{
		uint32_t const total = g.b.size() - at - 4;
		memcpy(&g.b[at], &total, 4);
	}
	static Kind const update{6, "UPDATE_DATA", QUERY, nullptr};
	static Kind const update1{7, "UPDATE_CARD", QUERY, nullptr};
	Written const w{whole ? &update : &update1, {}, Cls::OK, std::move(g.b)};
	LOG(c, "%s with a record %s: %s", w.kind->name, qrecs()[ri].name,
	    hex(w.b).c_str());
	StubContext ctx;
	Exact x(w.b);
	Arena arena;
	auto const r = core::encode_one(arena, ctx, x.p);
	c.step();
	check_class(c, w, r);
}
// The bits that come with a swap of graveyard and deck, whatever their number.
auto swap_bits(Chooser& c) -> void
{
	static Kind const swap{35, "SWAP_GRAVE_DECK", SPECIAL, nullptr};
	static size_t const sizes[]{0, 1, 7, 8, 9, 16, 40};
	StubContext ctx;
	ctx.size = sizes[c.pick(7)];
	auto const need = (ctx.size + 7) / 8;
	auto const n = need + c.pick(7);
	auto const fill = c.pick(4);
	Gen g(c);
	g.raw<uint8_t>(35);
	g.raw<uint8_t>(c.pick(2));
	g.raw<uint32_t>(c.pick(3) * 3);
	g.raw<uint32_t>(n);
	for(size_t i = 0; i < n; i++)
		g.raw<uint8_t>(fill == 0   ? 0
		               : fill == 1 ? 0xFF
		               : fill == 2 ? 0xA5
		                           : i == n - 1);
	Written const w{&swap, {}, Cls::OK, std::move(g.b)};
	LOG(c, "SWAP_GRAVE_DECK, %zu cards there: %s", ctx.size, hex(w.b).c_str());
	Exact x(w.b);
	Arena arena;
	auto const r = core::encode_one(arena, ctx, x.p);
	c.step();
	check_class(c, w, r);
}
auto type_bytes(Chooser& c) -> void
{
	auto const v = c.pick(256);
	if(listed(v) || unimplemented(v))
		return;
	StubContext ctx;
	Exact x(Bytes{static_cast<uint8_t>(v)});
	Arena arena;
	auto const r = core::encode_one(arena, ctx, x.p);
	c.step();
	LOG(c, "type %u: %s", v, str(r.state));
	CHECK(c, r.state == State::UNKNOWN,
	      "message type " + std::to_string(v) + " is not one of the core's, but is " +
	          str(r.state));
	CHECK(c, r.msg == nullptr, "unknown message with a result");
}
auto stream(Chooser& c, uint32_t n) -> void
{
	auto const& ks = kinds();
	std::vector<Written> ws;
	for(uint32_t i = 0; i < n; i++)
		ws.push_back(write_msg(c, ks[c.pick(ks.size())]));
	Bytes all;
	StubContext c1;
	std::vector<std::pair<State, std::string>> solo;
	for(auto const& w : ws)
	{
		Arena arena;
		Exact x(w.b);
		auto const r = core::encode_one(arena, c1, x.p);
		c.step();
		check_class(c, w, r);
		solo.emplace_back(r.state,
		                  r.msg != nullptr ? r.msg->SerializeAsString() : "");
		all.insert(all.end(), w.b.begin(), w.b.end());
	}
	StubContext c2;
	Exact x(all);
	Arena arena;
	size_t at = 0;
	for(uint32_t i = 0; i < n; i++)
	{
		CHECK(c, at < all.size(), "buffer exhausted before its last message");
		auto const r = core::encode_one(arena, c2, x.p + at);
		c.step();
		at += r.bytes_read;
		CHECK(c, r.state == solo[i].first,
		      std::string(ws[i].kind->name) + " behind other messages: reported as " +
		          str(r.state) + ", alone as " + str(solo[i].first));
		CHECK(c,
		      (r.msg != nullptr ? r.msg->SerializeAsString() : "") == solo[i].second,
		      std::string(ws[i].kind->name) +
		          ": differs from what it is translated to alone, previous message " +
		          (i > 0 ? ws[i - 1].kind->name : "none"));
	}
	CHECK(c, at == all.size(), "the stream was not consumed exactly");
	CHECK(c,
	      c1.reason == c2.reason && c1.deferred.size() == c2.deferred.size() &&
	          c1.log_ == c2.log_,
	      "the context was told different things for the same messages");
}

// ---------------------------------------------------------------- C11, C12
auto content(Chooser& c, std::vector<Kind const*> const& ks) -> void
{
	auto const& k = *ks[c.pick(ks.size())];
	StubContext ctx;
	auto const w = write_msg(c, k);
	Slack x(w.b);
	Arena arena;
	auto const r = core::encode_one(arena, ctx, x.p);
	c.step();
	CHECK(c, r.msg != nullptr, std::string(k.name) + ": not translated");
	auto const got = normal(*r.msg), want = normal(w.expected);
	CHECK(c, got == want,
	      std::string(k.name) + ": translated to something else\n  message  " +
	          hex(w.b) + "\n  expected " + hex(want) + "\n  got      " + hex(got) +
	          "\n  expected places" + places_str(w.expected) + "\n  got places" +
	          places_str(*r.msg));
	c.outcome(mc::Hasher().add(got).h);
}
auto finish(Chooser& c) -> void
{
	uint32_t const who = c.pick(3), why = c.pick(256);
	StubContext ctx;
	Slack x(Bytes{5, static_cast<uint8_t>(who), static_cast<uint8_t>(why)});
	Arena arena;
	auto const r = core::encode_one(arena, ctx, x.p);
	c.step();
	CHECK(c, r.msg != nullptr && r.msg->event().has_finish(),
	      "WIN: not translated to a finish event");
	auto const& f = r.msg->event().finish();
	CHECK(c, f.win_reason() == why, "WIN: wrong win reason");
	if(who == 2)
		CHECK(c, f.t_case() == Event::Finish::kDraw && f.draw(),
		      "WIN: a draw is not reported as one");
	else
		CHECK(c,
		      f.t_case() == Event::Finish::kWinner &&
		          f.winner() == static_cast<int>(who),
		      "WIN: wrong winner");
}

// ---------------------------------------------------------------- C13
auto query_records(Chooser& c, std::vector<uint32_t> const& recs) -> void
{
	Gen g(c);
	Msg::Query::Data want;
	std::vector<uint32_t> mats;
	bool has_mats = false;
	for(auto i : recs)
	{
		LOG(c, "property: %s", qrecs()[i].name);
		put_qrec(g, i, want, mats);
		has_mats |= qrecs()[i].flag == 0x10000;
	}
	put_qend(g);
	auto const n = g.b.size();
	LOG(c, "block: %s", hex(g.b).c_str());
	Slack x(g.b);
	Msg::Query::Data got;
	auto const r = core::encode_one_query(x.p, got);
	c.step();
	CHECK(c, r.bytes_read == n, "query block of " + std::to_string(n) +
	                                " bytes: reported " +
	                                std::to_string(r.bytes_read));
	CHECK(c, got.SerializeAsString() == want.SerializeAsString(),
	      "query block decoded differently\n  block    " + hex(g.b) +
	          "\n  expected " + hex(want.SerializeAsString()) + "\n  got      " +
	          hex(got.SerializeAsString()));
	CHECK(c, r.overlays_count == mats.size(), "wrong number of material codes");
	for(uint32_t i = 0; i < mats.size(); i++)
	{
		uint32_t v;
		memcpy(&v, r.overlays_ptr + 4 * i, 4);
		CHECK(c, v == mats[i], "wrong material code");
	}
}
auto query_tuple(Chooser& c, uint32_t n) -> void
{
	std::vector<uint32_t> left, recs;
	for(uint32_t i = 0; i < N_QREC; i++)
		left.push_back(i);
	uint32_t const m = c.pick(n + 1);
	for(uint32_t i = 0; i < m; i++)
	{
		auto const j = c.pick(left.size());
		recs.push_back(left[j]);
		left.erase(left.begin() + j);
	}
	query_records(c, recs);
}
auto query_full(Chooser& c) -> void
{
	std::vector<uint32_t> recs;
	bool const rev = c.pickb();
	uint32_t const without = c.pick(N_QREC + 1);
	for(uint32_t i = 0; i < N_QREC; i++)
	{
		auto const j = rev ? N_QREC - 1 - i : i;
		if(j != without)
			recs.push_back(j);
	}
	query_records(c, recs);
}
auto run_queries(Chooser& c, Bytes const& b, Msg const& want) -> void
{
	LOG(c, "message: %s", hex(b).c_str());
	Slack x(b);
	StubContext ctx;
	Arena arena;
	auto const r = core::encode_one(arena, ctx, x.p);
	c.step();
	CHECK(c, r.msg != nullptr, "query message not translated");
	CHECK(c, r.msg->t_case() == Msg::T_NOT_SET, "queries came with an event");
	CHECK(c, r.msg->queries_size() == want.queries_size(),
	      "expected " + std::to_string(want.queries_size()) + " queries, got " +
	          std::to_string(r.msg->queries_size()));
	for(int i = 0; i < want.queries_size(); i++)
	{
		auto const& w = want.queries(i);
		auto const& g = r.msg->queries(i);
		CHECK(c,
		      w.place().SerializeAsString() == g.place().SerializeAsString(),
		      "query " + std::to_string(i) + " is for " + place_str(g.place()) +
		          " instead of " + place_str(w.place()));
		CHECK(c, w.data().SerializeAsString() == g.data().SerializeAsString(),
		      "query " + std::to_string(i) + " at " + place_str(w.place()) +
		          " has other properties than the core sent");
	}
}
auto update_data(Chooser& c, uint32_t max_pile) -> void
{
	Gen g(c);
	Msg want;
	g.raw<uint8_t>(6);
	auto const con = g.raw<uint8_t>(c.pick(2));
	static uint8_t const locs[] = {MZ, SZ, HAND, DECK, GY, BAN, EXTRA};
	auto const loc = g.raw<uint8_t>(locs[c.pick(7)]);
	uint32_t const n = loc == MZ ? 7 : loc == SZ ? 8 : c.pick(max_pile + 1);
	auto const at = g.b.size();
	g.raw<uint32_t>(0);
	for(uint32_t i = 0; i < n; i++)
	{
		if(c.pickb())
		{
			g.raw<uint16_t>(0);
			continue;
		}
		Msg::Query::Data d;
		std::vector<uint32_t> mats;
		put_qrec(g, 0, d, mats);
		if((loc & (MZ | SZ)) != 0 && g.dev(2) == 1)
			put_qrec(g, 16, d, mats);
		if(g.dev(2) == 1)
			put_qrec(g, 8, d, mats);
		if(g.dev(2) == 1)
			put_qrec(g, 26, d, mats);
		put_qend(g);
		expect_query(want, con, loc, i, d, mats);
	}
	uint32_t const total = g.b.size() - at - 4;
	memcpy(&g.b[at], &total, 4);
	run_queries(c, g.b, want);
}
// Long piles and many materials.
auto update_large(Chooser& c) -> void
{
	Gen g(c);
	Msg want;
	g.raw<uint8_t>(6);
	auto const con = g.raw<uint8_t>(c.pick(2));
	static uint8_t const locs[] = {MZ, SZ, HAND, DECK, GY, BAN, EXTRA};
	auto const loc = g.raw<uint8_t>(locs[c.pick(7)]);
	static uint32_t const sizes[] = {9, 17, 33, 60, 65, 129, 257, 300};
	uint32_t const size = sizes[c.pick(8)];
	bool const zone = loc == MZ || loc == SZ;
	uint32_t const n = loc == MZ ? 7 : loc == SZ ? 8 : size;
	// Which slots hold something; in zones, which one has many materials.
	uint32_t const every = 1 + c.pick(4), from = c.pick(every);
	uint32_t const many = zone ? c.pick(n) : n;
	auto const at = g.b.size();
	g.raw<uint32_t>(0);
	g.quiet = true;
	for(uint32_t i = 0; i < n; i++)
	{
		if(i != many && i + 1 != n && i % every != from)
		{
			g.raw<uint16_t>(0);
			continue;
		}
		Msg::Query::Data d;
		std::vector<uint32_t> mats;
		put_qrec(g, i % 2 ? 0 : 8, d, mats);
		if(i == many)
		{
			g.raw<uint16_t>(8 + 4 * size);
			g.raw<uint32_t>(0x10000);
			g.raw<uint32_t>(size);
			for(uint32_t k = 0; k < size; k++)
				mats.push_back(g.u32());
		}
		put_qend(g);
		expect_query(want, con, loc, i, d, mats);
	}
	uint32_t const total = g.b.size() - at - 4;
	memcpy(&g.b[at], &total, 4);
	run_queries(c, g.b, want);
}
auto update_card(Chooser& c) -> void
{
	Gen g(c);
	Msg want;
	g.raw<uint8_t>(7);
	auto const& ws = wires();
	auto const& w = ws[c.pick(ws.size())];
	g.put(w, S8, false);
	Msg::Query::Data d;
	std::vector<uint32_t> mats;
	bool const zone = (w.loc & (MZ | SZ)) != 0;
	uint32_t const order = c.pick(zone ? 4 : 2);
	if(order == 1 && zone)
		put_qrec(g, 16, d, mats);
	if(order != 0)
		put_qrec(g, c.pick(2), d, mats);
	if(order == 2)
		put_qrec(g, 16, d, mats);
	if(order != 0)
		put_qrec(g, 15, d, mats);
	if(order == 3)
		put_qrec(g, 16, d, mats);
	put_qend(g);
	expect_query(want, w.con, w.loc, w.seq, d, mats);
	run_queries(c, g.b, want);
}

// ---------------------------------------------------------------- C15
using Zone = std::array<int, 4>; // bit, con, loc, seq of the core
// The zones whose bit is (not) set, as the asked player sees the mask.
auto zone_of_bit(int bit, uint8_t first, Zone& client, Zone& corez) -> bool
{
	int const b = bit % 16;
	int const con = bit < 16 ? first : 1 - first;
	if(b == 7)
		return false;
	if(b < 7)
	{
		client = {bit, con, MZ, b};
		corez = client;
	}
	else
	{
		corez = {bit, con, SZ, b - 8};
		client = corez;
		if(b == 13)
			client = {bit, con, FIELD, 0};
		else if(b > 13)
			client = {bit, con, PEND, b - 14};
	}
	return true;
}
auto zones(Chooser& c, uint32_t mask, uint32_t what, uint32_t pick_answers) -> void
{
	// what: 0 disabled field, 1.. place / disfield for player 0 / 1
	uint8_t const who = what == 0 ? 0 : (what - 1) % 2;
	bool const dis = what > 2;
	Gen g(c);
	if(what == 0)
		g.raw<uint8_t>(56);
	else
	{
		g.raw<uint8_t>(dis ? 24 : 18);
		g.raw<uint8_t>(who);
		g.raw<uint8_t>(1);
	}
	g.raw<uint32_t>(mask);
	LOG(c, "mask %08x, %s", mask,
	    what == 0 ? "disabled zones" : dis ? "request to block" : "request to place");
	Slack x(g.b);
	StubContext ctx;
	Arena arena;
	auto const r = core::encode_one(arena, ctx, x.p);
	c.step();
	CHECK(c, r.msg != nullptr, "zone mask not translated");
	auto const& got = what == 0 ? r.msg->event().zone_block().zones()
	                            : r.msg->request().select_zone().places();
	std::vector<std::array<int, 3>> want, have;
	std::vector<Zone> cores;
	for(int bit = 0; bit < 32; bit++)
	{
		Zone a, b;
		if((((mask >> bit) & 1) != 0) == (what == 0) && zone_of_bit(bit, who, a, b))
		{
			want.push_back({a[1], a[2], a[3]});
			cores.push_back(b);
		}
	}
	for(auto const& p : got)
	{
		have.push_back({p.con(), int(p.loc()), int(p.seq())});
		CHECK(c, p.oseq() < 0, "a zone came with a material index");
	}
	auto const unsorted = have;
	auto sw = want;
	std::sort(sw.begin(), sw.end());
	std::sort(have.begin(), have.end());
	auto show = [](std::vector<std::array<int, 3>> const& v)
	{
		std::string o;
		for(auto const& z : v)
			o += " (" + std::to_string(z[0]) + "," + std::to_string(z[1]) + "," +
			     std::to_string(z[2]) + ")";
		return o;
	};
	CHECK(c, sw == have,
	      "mask " + std::to_string(mask) + ": expected zones" + show(sw) + ", got" +
	          show(have));
	if(what == 0 || got.empty())
		return;
	auto answer = [&](std::vector<int> const& idx)
	{
		YGOpen::Proto::Duel::Answer a;
		std::string wants;
		for(auto i : idx)
		{
			*a.mutable_select_zone()->add_places() = got[i];
			for(size_t j = 0; j < want.size(); j++)
				if(want[j] == unsorted[i])
				{
					wants += static_cast<char>(cores[j][1]);
					wants += static_cast<char>(cores[j][2]);
					wants += static_cast<char>(cores[j][3]);
				}
		}
		std::vector<uint8_t> out(9, 0xEE);
		core::decode_one_answer(r.msg->request(), a, out);
		c.step();
		CHECK(c, std::string(out.begin(), out.end()) == wants,
		      "answering with zone" + show({unsorted[idx[0]]}) +
		          (idx.size() > 1 ? " and another" : "") + " sent " + hex(out) +
		          " instead of " + hex(wants));
	};
	if(pick_answers == 1)
		for(int i = 0; i < got.size(); i++)
			answer({i});
	else if(pick_answers == 2)
	{
		for(int i = 0; i < got.size(); i++)
			for(int j = 0; j < got.size(); j++)
				if(i != j)
					answer({i, j});
		// Any number of them, from any on, in either direction.
		std::vector<int> up, down;
		int const n = got.size();
		for(int k = 0; k < n; k++)
		{
			up.push_back((n / 3 + k) % n);
			down.push_back((2 * n / 3 + n - k) % n);
			if(k > 1)
			{
				answer(up);
				answer(down);
			}
		}
	}
}
auto zone_half(Chooser& c) -> void
{
	uint32_t const what = c.pick(5);
	bool const high = c.pickb();
	uint32_t const bg = c.pickb() ? 0xFFFF : 0;
	uint32_t const v = c.pick(256) * 256 + c.pick(256);
	uint32_t const mask = high ? (v << 16) | bg : v | (bg << 16);
	zones(c, mask, what, bg == 0xFFFF ? 1 : 0);
}
auto zone_bits(Chooser& c, uint32_t n) -> void
{
	uint32_t const what = c.pick(5);
	uint32_t mask = 0;
	uint32_t const k = c.pick(n + 1);
	uint32_t from = 0;
	for(uint32_t i = 0; i < k && from < 32; i++)
	{
		auto const b = from + c.pick(32 - from);
		mask |= 1U << b;
		from = b + 1;
	}
	if(c.pickb())
		mask = ~mask;
	zones(c, mask, what, 2);
}

// ---------------------------------------------------------------- C18
auto match_win(Chooser& c, uint32_t depth) -> void
{
	using Ctx = YGOpen::Server::BasicEncodeContext;
	static std::array<int, 3> const fills{0xBE, 0x00, 0xFF};
	int const fill = fills[c.pick(3)];
	struct Duel
	{
		void* mem;
		Ctx* ctx;
		uint32_t reason = 0;
	};
	std::array<Duel, 2> d;
	for(auto& x : d)
	{
		x.mem = ::operator new(sizeof(Ctx), std::align_val_t{alignof(Ctx)});
		memset(x.mem, fill, sizeof(Ctx));
		x.ctx = new(x.mem) Ctx;
	}
	static std::array<uint32_t, 4> const reasons{1, 0x12345678, 0, 0xFFFFFFFF};
	for(uint32_t i = 0; i < depth; i++)
	{
		auto const op = c.pick(11);
		if(op == 0)
			break;
		auto& x = d[(op - 1) % 2];
		auto const k = (op - 1) / 2;
		Gen g(c);
		g.quiet = true;
		if(k == 0)
		{
			auto const r = reasons[c.pick(reasons.size())];
			x.reason = r;
			g.raw<uint8_t>(170);
			g.raw<uint32_t>(r);
			LOG(c, "duel %d: match kill %u", (op - 1) % 2, r);
		}
		else if(k == 1)
		{
			auto const who = c.pick(3);
			g.raw<uint8_t>(5);
			g.raw<uint8_t>(who);
			g.raw<uint8_t>(c.pickb() ? 0 : 0xFE);
			LOG(c, "duel %d: win %u", (op - 1) % 2, who);
		}
		else if(k == 2)
		{
			g.raw<uint8_t>(40);
			g.raw<uint8_t>(1);
			LOG(c, "duel %d: new turn", (op - 1) % 2);
		}
		else if(k == 4)
		{
			g.raw<uint8_t>(4);
			g.raw<uint8_t>(0);
			g.raw<uint32_t>(8000);
			g.raw<uint32_t>(8000);
			for(int j = 0; j < 4; j++)
				g.raw<uint16_t>(3);
			LOG(c, "duel %d: start", (op - 1) % 2);
		}
		else
		{
			g.raw<uint8_t>(91);
			g.raw<uint8_t>(0);
			g.raw<uint32_t>(500);
			LOG(c, "duel %d: damage", (op - 1) % 2);
		}
		Arena arena;
		Slack s(g.b);
		auto const r = core::encode_one(arena, *x.ctx, s.p);
		c.step();
		if(k == 1)
		{
			CHECK(c, r.msg != nullptr && r.msg->event().has_finish(),
			      "WIN not translated to a finish event");
			auto const& f = r.msg->event().finish();
			CHECK(c, f.match_win_reason() == x.reason,
			      "match win reason is " + std::to_string(f.match_win_reason()) +
			          ", the core's last announcement was " +
			          std::to_string(x.reason));
			CHECK(c, f.win_reason() == g.b[2], "wrong win reason");
			auto const who = g.b[1];
			CHECK(c,
			      who == 2 ? f.t_case() == Event::Finish::kDraw && f.draw()
			               : f.t_case() == Event::Finish::kWinner &&
			                     f.winner() == who,
			      "wrong winner");
			c.outcome(mc::Hasher().add(f.SerializeAsString()).h);
		}
		if(r.msg != nullptr)
			x.ctx->parse(*r.msg);
	}
	for(auto& x : d)
	{
		x.ctx->~Ctx();
		::operator delete(x.mem, std::align_val_t{alignof(Ctx)});
	}
}

// ---------------------------------------------------------------- C19
auto valid(Place const& p, bool unset, bool pile_only) -> char const*
{
	if(p.loc() == 0)
		return unset ? nullptr : "is unspecified";
	if(p.con() != 0 && p.con() != 1)
		return "names an unknown player";
	uint32_t lim = 0;
	switch(p.loc())
	{
	case DECK:
	case HAND:
	case GY:
	case BAN:
	case EXTRA:
		if(!pile_only && p.oseq() >= 0)
			return "names the material of a pile card";
		return nullptr;
	case MZ:
		lim = 7;
		break;
	case SZ:
		lim = 5;
		break;
	case FIELD:
	case SKILL:
		lim = 1;
		break;
	case PEND:
		lim = 2;
		break;
	default:
		return "names an unknown or combined location";
	}
	if(p.seq() >= lim)
		return "names a sequence the zone does not have";
	return nullptr;
}
auto valid_places(Chooser& c, Kind const& k, Msg& m) -> void
{
	walk_places(
		m,
		[&](Place* p, char const* what, bool unset)
		{
			auto const* e =
				valid(*p, unset, strcmp(what, "shuffle pile") == 0);
			c.step();
			CHECK(c, e == nullptr,
			      std::string(k.name) + ": " + what + " " + place_str(*p) + " " + e);
			c.outcome(mc::Hasher()
			              .add(p->con() * 10000 + p->loc())
			              .add(p->seq())
			              .h);
		});
}
auto places_exist(Chooser& c) -> void
{
	auto const& ks = kinds();
	auto const& k = ks[c.pick(ks.size())];
	if(k.value == 50)
		return; // Below.
	auto const w = write_msg(c, k);
	if(w.cls != Cls::OK)
		return;
	StubContext ctx;
	Slack x(w.b);
	Arena arena;
	auto const r = core::encode_one(arena, ctx, x.p);
	if(r.msg == nullptr)
		return; // Judged by C10.
	valid_places(c, k, *r.msg);
	if(k.value == 38)
		CHECK(c, r.msg->event().meta().update().places(0).seq() < ctx.size,
		      "DECK_TOP: names a card beyond the deck");
	if(k.value == 90)
		CHECK(c, r.msg->event().pile().splice().ops(0).from().seq() <= ctx.size,
		      "DRAW: draws from beyond the deck");
}
// Moves that the core can announce, possibly after materials were announced for
// a monster that is still on its way.
auto moves_exist(Chooser& c, uint32_t max_defer) -> void
{
	static Kind const K{50, "MOVE", SPECIAL, nullptr};
	auto const& l = wires_move();
	StubContext ctx;
	ctx.mats = c.pickb();
	auto const n = c.pick(max_defer + 1);
	auto send = [&](Wire const& a, Wire const& b)
	{
		Gen g(c);
		g.quiet = true;
		g.raw<uint8_t>(50);
		g.u32();
		g.put(a, S32, true);
		g.put(b, S32, true);
		g.u32();
		LOG(c, "move con %u loc %u seq %u pos %u -> con %u loc %u seq %u pos %u",
		    a.con, a.loc, a.seq, a.pos, b.con, b.loc, b.seq, b.pos);
		Slack x(g.b);
		Arena arena;
		auto const r = core::encode_one(arena, ctx, x.p);
		if(r.msg != nullptr)
			valid_places(c, K, *r.msg);
	};
	constexpr uint32_t PILES = DECK | HAND | GY | BAN | EXTRA;
	auto from_ok = [&](Wire const& w)
	{ return (w.loc & OVL) == 0 || (w.loc & PILES) == 0; };
	for(uint32_t i = 0; i < n; i++)
	{
		auto const& a = l[c.pick(l.size())];
		if(!from_ok(a))
			return;
		send(a, Wire{1, EXTRA | OVL, 3, i});
	}
	auto const& all = l;
	auto const ai = c.pick(all.size() + 1);
	auto const bi = c.pick(all.size() + 1);
	Wire const none{0, 0, 0, 0};
	auto const& a = ai == all.size() ? none : all[ai];
	auto const& b = bi == all.size() ? none : all[bi];
	bool const a_out = (a.loc & OVL) != 0 && (a.loc & PILES) != 0;
	bool const b_out = (b.loc & OVL) != 0 && (b.loc & PILES) != 0;
	// A card that is added, removed or put on the field never is a material of
	// a card outside of the field.
	if(a_out && (b.loc & PILES) == 0)
		return;
	if(b_out && a.loc == 0)
		return;
	if(a_out && b_out)
		return;
	send(a, b);
}

mc::Register const r10("C10", [](bool th) -> std::vector<Space>
{
	return {
		{"every_kind",
	     "every message kind with at most " + std::string(th ? "3" : "2") +
	         " fields away from their defaults (boundary values, list lengths up to "
	         "256, every place)",
	     every_kind, th ? 3 : 2},
		{"shapes",
	     "every message kind, at most " +
	         std::string(th ? "4" : "3") + " fields away from their defaults, with few values each (other player, "
	         "zero, one, three; material or field zone; lists of 0 to 3)",
	     [](Chooser& c)
	     {
			 Shapes const w;
			 every_kind(c);
		 },
	     th ? 4 : 3},
		{"wide",
	     "every message kind, one field away from its default with any byte, numbers around all "
	     "powers of two, places up to sequence 70 and around powers of two, or a "
	     "list of any length up to 1029 (bytes: 255)",
	     [](Chooser& c)
	     {
			 Wide const w;
			 every_kind(c);
		 },
	     1},
		{"type_bytes", "all 256 message type bytes", type_bytes, 0},
		{"query_sizes",
	     "each of the 27 property records, alone or before another, 2 values away "
	     "from their defaults, in either query message",
	     query_sizes, 2},
		{"swap_bits",
	     "graveyards and decks of 0 to 40 cards, up to 6 bytes of bits more than "
	     "needed, all clear, all set, mixed, last one set",
	     swap_bits, 0},
		{"pairs",
	     "all ordered pairs of message kinds, one field of them away from its default",
	     [](Chooser& c) { stream(c, 2); }, 1},
		{"triples", "all ordered triples of message kinds",
	     [](Chooser& c) { stream(c, 3); }, 0},
	};
});
mc::Register const r11("C11", [](bool th) -> std::vector<Space>
{
	return {{"events",
	         "every event message kind, at most " + std::string(th ? "3" : "2") +
	             " fields away from their defaults",
	         [](Chooser& c)
	         {
				 static auto const ks = filter({EVENT});
				 content(c, ks);
			 },
	         th ? 3 : 2},
		{"shapes",
	     "every event message kind, at most " +
	         std::string(th ? "4" : "3") + " fields away from their defaults, with few values each (other player, "
	         "zero, one, three; material or field zone; lists of 0 to 3)",
	     [](Chooser& c)
	     {
			 Shapes const w;
			 static auto const ks = filter({EVENT});
			 content(c, ks);
		 },
	     th ? 4 : 3},
		{"wide",
	     "every event message kind, one field away from its default with any byte, numbers around all "
	     "powers of two, places up to sequence 70 and around powers of two, or a "
	     "list of any length up to 1029 (bytes: 255)",
	     [](Chooser& c)
	     {
			 Wide const w;
			 static auto const ks = filter({EVENT});
			 content(c, ks);
		 },
	     1},
	        {"finish", "all winners and all 256 win reasons", finish, 0}};
});
auto requests() -> std::vector<Kind const*>
{
	auto v = filter({REQUEST});
	for(auto const& k : kinds())
		if(k.value == 18 || k.value == 24)
			v.push_back(&k);
	return v;
}
mc::Register const r12("C12", [](bool th) -> std::vector<Space>
{
	return {{"requests",
	         "every request message kind, at most " + std::string(th ? "3" : "2") +
	             " fields away from their defaults",
	         [](Chooser& c)
	         {
				 static auto const ks = requests();
				 content(c, ks);
			 },
	         th ? 3 : 2},
	        {"shapes",
	     "every request message kind, at most " +
	         std::string(th ? "5" : "4") + " fields away from their defaults, with few values each (other player, "
	         "zero, one, three; material or field zone; lists of 0 to 3)",
	     [](Chooser& c)
	     {
			 Shapes const w;
			 static auto const ks = requests();
			 content(c, ks);
		 },
	     th ? 5 : 4},
	        {"wide",
	     "every request message kind, one field away from its default with any byte, numbers around all "
	     "powers of two, places up to sequence 70 and around powers of two, or a "
	     "list of any length up to 1029 (bytes: 255)",
	     [](Chooser& c)
	     {
			 Wide const w;
			 static auto const ks = requests();
			 content(c, ks);
		 },
	     1}};
});
mc::Register const r13("C13", [](bool th) -> std::vector<Space>
{
	uint32_t const n = th ? 3 : 2;
	return {
		{"records",
	     "all ordered selections of up to " + std::to_string(n) +
	         " of 27 property records, at most 2 values away from their defaults",
	     [n](Chooser& c) { query_tuple(c, n); }, 2},
		{"full_block",
	     "all 27 records in both orders, each one missing once, up to " +
	         std::string(th ? "2" : "1") + " values away from their defaults",
	     query_full, th ? 2 : 1},
		{"wide",
	     "every property record, alone or before another, one field away from its default with any byte, numbers around all "
	     "powers of two, places up to sequence 70 and around powers of two, or a "
	     "list of any length up to 1029",
	     [](Chooser& c)
	     {
			 Wide const w;
			 query_tuple(c, 2);
		 },
	     1},
		{"shapes",
	     "all 27 records in both orders, each one missing once, up to " +
	         std::string(th ? "4" : "3") + " values away from their defaults, with few values each",
	     [](Chooser& c)
	     {
			 Shapes const w;
			 query_full(c);
		 },
	     th ? 4 : 3},
		{"update_data",
	     "every location, every pattern of empty slots (piles up to " +
	         std::to_string(th ? 8 : 6) + "), up to 2 optional records or values",
	     [th](Chooser& c) { update_data(c, th ? 8 : 6); }, 2},
		{"update_large",
	     "piles of 9 to 300 cards, all or some of them known; zones with 9 to 300 "
	     "materials in any one slot",
	     update_large, 0},
		{"update_card",
	     "every place, materials at every position of the block, 1 value away from "
	     "its default",
	     update_card, th ? 2 : 1}};
});
mc::Register const r15("C15", [](bool th) -> std::vector<Space>
{
	uint32_t const n = th ? 5 : 3;
	return {
		{"half_masks",
	     "all 65536 masks of either half, the other half all set or all clear; "
	     "disabled zones and both requests for both players; every single answer",
	     zone_half, 0},
		{"bits",
	     "all 32-bit masks with up to " + std::to_string(n) +
	         " bits set or clear; every ordered pair of zones answered, and any number "
	         "of zones in two orders",
	     [n](Chooser& c) { zone_bits(c, n); }, 0}};
});
mc::Register const r18("C18", [](bool th) -> std::vector<Space>
{
	uint32_t const n = th ? 5 : 4;
	return {{"histories",
	         "all histories of up to " + std::to_string(n) +
	             " match kills, wins and other messages over two duels, the "
	             "context's memory filled beforehand in three ways",
	         [n](Chooser& c) { match_win(c, n); }, 0}};
});
mc::Register const r19("C19", [](bool th) -> std::vector<Space>
{
	return {
		{"messages",
	     "every message kind but moves, at most " + std::string(th ? "3" : "2") +
	         " fields away from their defaults",
	     places_exist, th ? 3 : 2},
		{"shapes",
	     "every message kind but moves, at most " +
	         std::string(th ? "4" : "3") + " fields away from their defaults, with few values each (other player, "
	         "zero, one, three; material or field zone; lists of 0 to 3)",
	     [](Chooser& c)
	     {
			 Shapes const w;
			 places_exist(c);
		 },
	     th ? 4 : 3},
		{"wide",
	     "every message kind but moves, one field away from its default with any byte, numbers around all "
	     "powers of two, places up to sequence 70 and around powers of two, or a "
	     "list of any length up to 1029 (bytes: 255)",
	     [](Chooser& c)
	     {
			 Wide const w;
			 places_exist(c);
		 },
	     1},
		{"moves",
	     "every move between any two of 85 core places (or none), after up to " +
	         std::string(th ? "2" : "1") + " materials announced ahead",
	     [th](Chooser& c) { moves_exist(c, th ? 2 : 1); }, 0}};
});

} // namespace

auto main(int argc, char** argv) -> int { return mc::main_(argc, argv); }
