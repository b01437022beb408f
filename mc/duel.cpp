// C16 (clients follow the core's field), C17 (whole-pile messages), C30 (what is
// known of a card follows it), C32 (a recorded duel walks back and forth).
//
// A model of the core's field issues the messages the core would; each one goes
// through the real encoder with the real context, and the resulting event is
// applied to a real client board and to the context. After every message the
// client board must be the view the model prescribes, card for card, and the
// context must know the same pile sizes and materials.
#include <functional>
#include <ygopen/client/card.hpp>
#include <ygopen/client/parse_query.hpp>
#include <ygopen/duel/constants/attribute.hpp>
#include <ygopen/duel/constants/link_arrow.hpp>
#include <ygopen/duel/constants/position.hpp>
#include <ygopen/duel/constants/race.hpp>
#include <ygopen/duel/constants/status.hpp>
#include <ygopen/duel/constants/type.hpp>
#include <ygopen/server/basic_encode_context.hpp>

#include "codec_gen.hpp"
#include "event_gen.hpp"

using namespace bm;
using mc::Chooser;
using YGOpen::Codec::EncodeOneResult;
using Bytes = std::vector<uint8_t>;
namespace pd = YGOpen::Proto::Duel;

namespace
{

constexpr uint32_t DECK = 1, HAND = 2, MZ = 4, SZ = 8, GY = 16, BAN = 32,
				   EXTRA = 64, OVL = 128, FZ = 256, PZ = 512;

struct W
{
	Bytes b;
	template<typename T>
	auto raw(T v) -> W&
	{
		auto const* p = reinterpret_cast<uint8_t const*>(&v);
		b.insert(b.end(), p, p + sizeof(T));
		return *this;
	}
	auto u8(uint32_t v) -> W& { return raw<uint8_t>(v); }
	auto u16(uint32_t v) -> W& { return raw<uint16_t>(v); }
	auto u32(uint32_t v) -> W& { return raw<uint32_t>(v); }
	auto u64(uint64_t v) -> W& { return raw<uint64_t>(v); }
	// A card's location as the core writes it.
	auto info(P const& p) -> W&
	{
		uint32_t loc = p.loc, seq = p.seq;
		if(loc == FZ)
		{
			loc = SZ;
			seq = 5;
		}
		else if(loc == PZ)
		{
			loc = SZ;
			seq += 6;
		}
		u8(p.con);
		if(p.oseq >= 0)
			return u8(loc | OVL).u32(seq).u32(p.oseq);
		uint32_t const pos = p.loc == 0                        ? 0
		                     : p.loc == DECK || p.loc == EXTRA ? 8
		                                                       : 1;
		return u8(loc).u32(seq).u32(pos);
	}
};

struct Cfg
{
	int k = 2;               // Most materials of one Xyz summon.
	bool narrow = false;     // Fewer operands per move.
	bool wide = false;       // More of them.
	unsigned families = ~0U; // Bit per kind of move.
	// Instead of k: this many materials, chosen by this pattern.
	int exactly = 0;
	std::vector<uint32_t> which;
	int board = 0;
};

struct World
{
	Chooser& c;
	Stats st;
	eg::PlainBoard client;
	YGOpen::Server::BasicEncodeContext ctx;
	Model V;
	std::map<int, int> owner;
	std::map<std::string, std::string> left;
	// Sees every message that clients get.
	std::function<void(pd::Msg const&)> tap;

	explicit World(Chooser& ch) : c(ch) { client.frame().builder().st = &st; }

	auto verify(char const* when) -> void
	{
		if(!c.fresh())
			return;
		auto const got = read(client.frame());
		CHECK(c, got == V,
		      std::string(when) + ": the client board is\n  " + got.str() +
		          "\nbut the field is\n  " + V.str());
		for(int con = 0; con < 2; con++)
		{
			for(int i = 0; i < 5; i++)
			{
				auto const n = ctx.pile_size(Controller(con), Location(PILES[i]));
				CHECK(c, n == V.piles[con][i].size(),
				      std::string(when) + ": the context takes " +
				          bm::str(P{con, PILES[i], 0, -1}) + " to have " +
				          std::to_string(n) + " cards");
			}
			for(int z = 0; z < 16; z++)
			{
				bool const has = ctx.has_xyz_mat(pb(zplace(con, z)));
				CHECK(c, has == !V.zones[con][z].mats.empty(),
				      std::string(when) + ": the context is wrong about the "
				                          "materials of " +
				          bm::str(zplace(con, z)));
			}
		}
		c.step();
	}
	// Encode one message and apply what comes of it; nothing is compared.
	auto feed(W const& w) -> pd::Msg const*
	{
		cg::Slack s(w.b);
		google::protobuf::Arena arena;
		auto const r =
			YGOpen::Codec::Edo9300::OCGCore::encode_one(arena, ctx, s.p);
		if(r.state != EncodeOneResult::State::OK)
			return nullptr;
		CHECK(c, r.msg != nullptr, "no message for an encoded one");
		if(r.msg->t_case() == pd::Msg::kEvent)
			YGOpen::Client::parse_event(client, r.msg->event());
		if(tap)
			tap(*r.msg);
		ctx.parse(*r.msg);
		last = *r.msg;
		return &last;
	}
	pd::Msg last;

	auto apply(Op const& o, int& next) -> void { apply_model(V, o, next); }

	// MSG_MOVE without any effect on the view.
	auto mv_raw(P const& a, P const& b, uint32_t reason) -> void
	{
		LOG(c, "core: MOVE %s -> %s", bm::str(a).c_str(), bm::str(b).c_str());
		feed(W().u8(50).u32(1234).info(a).info(b).u32(reason));
	}
	// A plain move: the view moves the card (and its materials between zones).
	auto mv(P const& a, P const& b, uint32_t reason = 0) -> void
	{
		// Unless told otherwise: one of many, depending on where the cards are.
		static constexpr uint32_t REASONS[] = {
			0x40, 0x8, 0x80, 0x400, 0x200008, 0x1, 0x40000, 0x80000000, 0};
		if(reason == 0)
			reason = REASONS[mc::Hasher().add(V.canon_hash()).add(b.seq).h % 9];
		V.move(a, b);
		mv_raw(a, b, reason);
		verify("after a move");
	}
	// New cards appear: take over the client's names for them.
	auto adopt(Model const& shape, char const* when) -> void
	{
		auto const got = read(client.frame());
		for(int con = 0; con < 2; con++)
		{
			for(int i = 0; i < 5; i++)
				CHECK(c, got.piles[con][i].size() == shape.piles[con][i].size(),
				      std::string(when) + ": wrong number of cards in " +
				          bm::str(P{con, PILES[i], 0, -1}) + ": " + got.str());
			for(int z = 0; z < 16; z++)
			{
				CHECK(c,
				      (got.zones[con][z].card == NONE) ==
				          (shape.zones[con][z].card == NONE),
				      std::string(when) + ": wrong occupancy of " +
				          bm::str(zplace(con, z)));
				CHECK(c,
				      got.zones[con][z].mats.size() ==
				          shape.zones[con][z].mats.size(),
				      std::string(when) + ": wrong materials of " +
				          bm::str(zplace(con, z)));
			}
		}
		auto all = got.all();
		std::sort(all.begin(), all.end());
		CHECK(c, std::adjacent_find(all.begin(), all.end()) == all.end(),
		      std::string(when) + ": a card is at two places");
		V = got;
		for(int con = 0; con < 2; con++)
		{
			for(auto& p : V.piles[con])
				for(auto x : p)
					owner.emplace(x, con);
			for(auto& z : V.zones[con])
			{
				if(z.card != NONE)
					owner.emplace(z.card, con);
				for(auto x : z.mats)
					owner.emplace(x, con);
			}
		}
		verify(when);
	}
	auto hash() const -> uint64_t
	{
		mc::Hasher h;
		h.add(V.canon_hash());
		for(auto x : V.all())
			h.add(owner.at(x));
		for(auto& kv : left)
			h.add(kv.first).add(kv.second);
		return h.h;
	}
	auto end(int con, uint32_t loc) const -> P
	{
		return P{con, loc, uint32_t(V.piles[con][pidx(loc)].size()), -1};
	}
	// Where a move to a pile may put a card.
	auto pile_spots(int con, bool one) const -> std::vector<P>
	{
		std::vector<P> r;
		r.push_back(end(con, GY));
		r.push_back(end(con, HAND));
		auto const d = end(con, DECK);
		r.push_back(d);
		if(!one)
		{
			if(d.seq > 0)
				r.push_back(P{con, DECK, 0, -1});
			r.push_back(end(con, BAN));
			auto const e = end(con, EXTRA);
			r.push_back(e);
			if(e.seq > 0)
				r.push_back(P{con, EXTRA, e.seq - 1, -1});
		}
		return r;
	}
	// Cards of the view, materials left out.
	auto cards() const -> std::vector<P>
	{
		std::vector<P> r;
		for(int con = 0; con < 2; con++)
		{
			for(int z = 0; z < 16; z++)
				if(V.zones[con][z].card != NONE)
					r.push_back(zplace(con, z));
			for(int i = 0; i < 5; i++)
				for(size_t s = 0; s < V.piles[con][i].size(); s++)
					r.push_back(P{con, PILES[i], uint32_t(s), -1});
		}
		return r;
	}
	auto mats() const -> std::vector<P>
	{
		std::vector<P> r;
		for(int con = 0; con < 2; con++)
			for(int z = 0; z < 16; z++)
				for(size_t s = 0; s < V.zones[con][z].mats.size(); s++)
				{
					auto p = zplace(con, z);
					p.oseq = int(s);
					r.push_back(p);
				}
		return r;
	}
	auto hosts(bool with_mats) const -> std::vector<P>
	{
		std::vector<P> r;
		for(int con = 0; con < 2; con++)
			for(int z = 0; z < 7; z++)
				if(V.zones[con][z].card != NONE &&
				   (!with_mats || !V.zones[con][z].mats.empty()))
					r.push_back(zplace(con, z));
		return r;
	}
	auto free(P const& p) const -> bool
	{
		return V.zone(p).card == NONE && V.zone(p).mats.empty();
	}
	auto is(P const& p, uint32_t a) const -> bool { return p.loc == a; }
};

auto no_mats(Model const& m, P const& p) -> bool
{
	return is_pile_loc(p.loc) || m.zone(p).mats.empty();
}

// Messages about whole piles.
struct PileOps : World
{
	explicit PileOps(Chooser& ch) : World(ch) {}
	auto draw(int con, uint32_t n) -> void
	{
		LOG(c, "core: DRAW %d by %d", n, con);
		auto& d = V.piles[con][pidx(DECK)];
		auto& h = V.piles[con][pidx(HAND)];
		W w;
		w.u8(90).u8(con).u32(n);
		for(uint32_t i = 0; i < n; i++)
		{
			h.push_back(d.back());
			d.pop_back();
			w.u32(100 + i).u32(i % 2 ? 8 : 10);
		}
		feed(w);
		verify("after a draw");
	}
	auto deck_top(int con, uint32_t seq) -> void
	{
		LOG(c, "core: DECK_TOP %d of %d", seq, con);
		W w;
		w.u8(38).u8(con).u32(seq).u32(1000).u32(1);
		auto const* m = feed(w);
		verify("after a deck top");
		CHECK(c, m != nullptr, "a deck top reveal is not reported");
		CHECK(c,
		      m->t_case() == pd::Msg::kEvent &&
		          m->event().t_case() == pd::Msg::Event::kMeta &&
		          m->event().meta().update().places_size() == 1,
		      "a deck top reveal is not a single update");
		auto const p = un(m->event().meta().update().places(0));
		auto const n = V.piles[con][pidx(DECK)].size();
		P const want{con, DECK, uint32_t(n - 1 - seq), -1};
		CHECK(c, p == want,
		      "a deck top reveal is of " + bm::str(p) + " instead of " +
		          bm::str(want));
	}
	auto reverse() -> void
	{
		LOG(c, "core: REVERSE_DECK");
		for(auto& side : V.piles)
			std::reverse(side[pidx(DECK)].begin(), side[pidx(DECK)].end());
		feed(W().u8(37));
		verify("after a deck reversal");
	}
	auto gy_swap(int con, std::vector<bool> const& flags, uint32_t pos,
	          int spare = 0) -> void
	{
		auto& g = V.piles[con][pidx(GY)];
		auto& d = V.piles[con][pidx(DECK)];
		auto& e = V.piles[con][pidx(EXTRA)];
		std::vector<uint8_t> buf(g.size() / 8 + (g.size() % 8 ? 1 : 0) + spare);
		std::vector<int> deck, ext;
		std::string fs;
		for(size_t i = 0; i < g.size(); i++)
		{
			fs += flags[i] ? '1' : '0';
			if(flags[i])
			{
				buf[i / 8] |= 1U << (i % 8);
				ext.push_back(g[i]);
			}
			else
				deck.push_back(g[i]);
		}
		LOG(c, "core: SWAP_GRAVE_DECK of %d, to extra: %s, at %u", con,
		    fs.c_str(), pos);
		e.insert(e.begin() + pos, ext.begin(), ext.end());
		g = d;
		d = deck;
		W w;
		w.u8(35).u8(con).u32(pos).u32(buf.size());
		for(auto b : buf)
			w.u8(b);
		feed(w);
		verify("after a graveyard and deck swap");
	}
};

struct Driver : PileOps
{
	Cfg g;
	Driver(Chooser& ch, Cfg cfg, std::function<void(pd::Msg const&)> t = {})
		: PileOps(ch), g(cfg)
	{
		tap = std::move(t);
		start();
	}

	auto put(P const& p, int n = 1) -> void
	{
		pd::Msg m;
		auto* add = m.mutable_event()->mutable_card()->mutable_add();
		int next = st.built;
		for(int i = 0; i < n; i++)
		{
			P q = p;
			if(is_pile_loc(q.loc))
				q.seq += i;
			*add->add_places() = pb(q);
			owner[next] = q.con;
			V.insert(q, next++);
		}
		YGOpen::Client::parse_event(client, m.event());
		if(tap)
			tap(m);
		ctx.parse(m);
	}
	auto start() -> void
	{
		if(g.board == 0)
		{
			put({0, DECK, 0, -1}, 2);
			put({0, EXTRA, 0, -1}, 2);
			put({0, HAND, 0, -1}, 1);
			put({0, GY, 0, -1}, 2);
			put({0, MZ, 2, -1});
			put({0, MZ, 2, 0});
			put({0, MZ, 2, 1});
			put({0, MZ, 0, -1});
			put({0, SZ, 0, -1});
			put({0, FZ, 0, -1});
			put({0, PZ, 0, -1});
			put({1, GY, 0, -1}, 1);
			put({1, MZ, 1, -1});
			put({1, MZ, 1, 0});
			put({1, SZ, 2, -1});
		}
		else if(g.board == 1)
		{
			put({0, EXTRA, 0, -1}, 2);
			put({0, GY, 0, -1}, 1);
			put({0, MZ, 1, -1});
			put({0, MZ, 1, 0});
			put({0, MZ, 3, -1});
			put({0, MZ, 3, 0});
			put({0, MZ, 3, 1});
			put({0, MZ, 3, 2});
			put({1, EXTRA, 0, -1}, 1);
			put({1, MZ, 0, -1});
		}
		else if(g.board == 2)
		{
			put({1, EXTRA, 0, -1}, 3);
			put({1, MZ, 5, -1});
			put({1, MZ, 5, 0});
			put({0, MZ, 6, -1});
			put({0, MZ, 6, 0});
			put({0, MZ, 6, 1});
			put({0, GY, 0, -1}, 1);
			put({0, PZ, 1, -1});
			put({1, PZ, 0, -1});
			put({1, PZ, 1, -1});
			put({1, HAND, 0, -1}, 2);
		}
		verify("at the start");
	}
	auto zone_spots(P const& from) -> std::vector<P>
	{
		std::vector<P> r;
		auto add = [&](P p)
		{
			if(free(p))
				r.push_back(p);
		};
		add({0, MZ, 1, -1});
		add({1, MZ, 4, -1});
		if(!g.narrow)
		{
			add({0, MZ, 5, -1});
			add({0, SZ, 4, -1});
			add({1, FZ, 0, -1});
			add({0, PZ, 1, -1});
			add({1, PZ, 0, -1});
			add({0, FZ, 0, -1});
		}
		if(g.wide)
		{
			add({1, MZ, 6, -1});
			add({1, SZ, 0, -1});
			add({0, PZ, 0, -1});
		}
		return r;
	}

	// Kinds of move ----------------------------------------------------------
	auto do_move() -> void
	{
		auto cs = cards();
		auto const a = cs[c.pick(cs.size())];
		std::vector<P> to;
		bool const with = !no_mats(V, a);
		if(!with)
		{
			int const o = owner[V.at(a)];
			for(auto p : pile_spots(o, g.narrow))
			{
				if(a.con == p.con && a.loc == p.loc)
				{
					// A card does not go to the pile where it is.
					continue;
				}
				to.push_back(p);
			}
		}
		for(auto p : zone_spots(a))
			if(!with || p.loc == MZ || p.loc == SZ)
				to.push_back(p);
		to.push_back(P{});
		auto const b = to[c.pick(to.size())];
		if(b.loc == 0)
			return;
		mv(a, b);
	}
	// Monsters with materials leave, then their materials are sent away.
	auto leave_spots(P const& x) -> std::vector<P>
	{
		int const o = owner[V.at(x)];
		std::vector<P> r{end(o, GY), end(o, BAN), end(o, EXTRA)};
		if(r.back().seq > 0)
			r.push_back(P{o, EXTRA, r.back().seq - 1, -1});
		return r;
	}
	auto do_leave() -> void
	{
		auto hs = hosts(true);
		auto const first = hs[c.pick(hs.size())];
		std::vector<std::pair<P, P>> gone; // zone, current place
		auto go = [&](P const& x)
		{
			auto const to = c.pickv(leave_spots(x));
			for(auto& kv : gone)
				if(kv.second.con == to.con && kv.second.loc == to.loc &&
				   kv.second.seq >= to.seq)
					kv.second.seq++;
			left[bm::str(to)] = bm::str(x);
			mv(x, to);
			gone.emplace_back(x, to);
		};
		go(first);
		hs = hosts(true);
		hs.insert(hs.begin(), P{});
		auto const second = hs[c.pick(hs.size())];
		// The later ones are put behind the earlier ones, so that these stay.
		if(second.loc != 0)
		{
			auto const to = c.pickv(leave_spots(second));
			bool const shifts = gone[0].second.con == to.con &&
			                    gone[0].second.loc == to.loc &&
			                    gone[0].second.seq >= to.seq;
			if(!shifts)
			{
				left[bm::str(to)] = bm::str(second);
				mv(second, to);
				gone.emplace_back(second, to);
			}
		}
		// Materials of all of them, in any order.
		for(;;)
		{
			std::vector<std::pair<P, P>> todo; // view place, core place
			for(auto& kv : gone)
				for(size_t i = 0; i < V.zone(kv.first).mats.size(); i++)
				{
					P v = kv.first, w = kv.second;
					v.oseq = w.oseq = int(i);
					todo.emplace_back(v, w);
				}
			if(todo.empty())
				break;
			auto const t = todo[c.pick(todo.size())];
			auto const to = end(owner[V.at(t.first)], GY);
			V.move(t.first, to);
			mv_raw(t.second, to, 0x400);
			verify("after a material of a departed monster left");
		}
		noise();
	}
	// A message that moves nothing.
	auto noise() -> void
	{
		if(g.narrow)
			return;
		switch(c.pick(g.wide ? 4 : 2))
		{
		case 1: // MSG_HINT
			feed(W().u8(2).u8(1).u8(0).u64(77));
			break;
		case 2: // MSG_NEW_PHASE
			feed(W().u8(41).u16(4));
			break;
		case 3: // MSG_SHUFFLE_HAND
			feed(W().u8(33).u8(0).u32(1).u32(99));
			break;
		default: return;
		}
		verify("after a message that moves nothing");
	}
	auto do_summon() -> void
	{
		// Who is summoned.
		std::vector<P> ms;
		for(int con = 0; con < 2; con++)
			for(auto loc : {EXTRA, GY, BAN})
			{
				auto const e = end(con, loc);
				if(e.seq > 0)
					ms.push_back(P{con, loc, e.seq - 1, -1});
				if(e.seq > 1 && !g.narrow && loc != BAN)
					ms.push_back(P{con, loc, 0, -1});
			}
		if(ms.empty())
			return;
		auto x = ms[c.pick(ms.size())];
		int const xid = V.at(x);
		// T is the core's own field while materials wait for the monster.
		Model T = V;
		std::vector<int> attached;
		bool from_pile = false;
		auto find = [&](Model const& m, int id)
		{
			for(int con = 0; con < 2; con++)
				for(int i = 0; i < 5; i++)
					for(size_t s = 0; s < m.piles[con][i].size(); s++)
						if(m.piles[con][i][s] == id)
							return P{con, PILES[i], uint32_t(s), -1};
			return P{};
		};
		int const k = g.exactly > 0 ? g.exactly : int(c.pick(g.k)) + 1;
		auto const outer = c.pattern;
		if(!g.which.empty())
			c.pattern = g.which;
		for(int i = 0; i < k; i++)
		{
			std::vector<P> cand;
			for(int con = 0; con < 2; con++)
			{
				for(int z = 0; z < 12; z++)
				{
					auto const p = zplace(con, z);
					if(T.zone(p).card != NONE && T.zone(p).mats.empty())
						cand.push_back(p);
					for(size_t s = 0; s < T.zone(p).mats.size(); s++)
						cand.push_back(P{p.con, p.loc, p.seq, int(s)});
				}
				for(auto loc : {GY, HAND, DECK, EXTRA})
				{
					auto const& v = T.piles[con][pidx(loc)];
					for(size_t s = 0; s < v.size(); s++)
					{
						if(v[s] == xid)
							continue;
						if((g.narrow || loc == EXTRA || loc == DECK) &&
						   s + 1 < v.size())
							continue;
						if(g.narrow && (loc == DECK || loc == EXTRA))
							continue;
						cand.push_back(P{con, loc, uint32_t(s), -1});
					}
				}
			}
			if(cand.empty())
				break;
			auto const m = cand[c.pick(cand.size())];
			int const id = T.extract(m);
			from_pile |= is_pile_loc(m.loc);
			attached.push_back(id);
			x = find(T, xid);
			P at = x;
			at.oseq = int(attached.size()) - 1;
			mv_raw(m, at, 0x200008);
			verify("after a material was attached to a monster off the field");
		}
		c.pattern = outer;
		if(!g.narrow)
		{
			// Meanwhile something else may happen.
			std::vector<P> sp;
			if(!from_pile)
				for(int con = 0; con < 2; con++)
					for(int z = 7; z < 12; z++)
					{
						auto const p = zplace(con, z);
						if(T.zone(p).card != NONE &&
						   V.zone(p).card == T.zone(p).card &&
						   T.zone(p).mats.empty())
							sp.push_back(p);
					}
			if(sp.size() > 1 && !g.wide)
				sp.resize(1);
			auto const n = c.pick(2 + sp.size());
			if(n == 1)
			{
				switch(mc::Hasher().add(V.canon_hash()).add(attached.size()).h % 4)
				{
				case 0: feed(W().u8(2).u8(1).u8(0).u64(77)); break;
				case 1: feed(W().u8(41).u16(4)); break;
				case 2: feed(W().u8(91).u8(x.con).u32(100)); break;
				default: feed(W().u8(40).u8(x.con)); break;
				}
				verify("after another message during a summon");
			}
			else if(n > 1)
			{
				auto const p = sp[n - 2];
				auto const to = end(owner[V.at(p)], GY);
				T.move(p, to);
				mv(p, to);
				x = find(T, xid);
			}
		}
		std::vector<P> zs;
		for(int con = 0; con < 2; con++)
			for(uint32_t s = 0; s < 7; s++)
			{
				P const p{con, MZ, s, -1};
				if(T.zone(p).card != NONE || !T.zone(p).mats.empty())
					continue;
				// Any zone given up by a material, and a few others.
				bool const freed = !(V.zone(p).card == NONE);
				if(freed || (con == x.con && (s == 1 || (s == 5 && !g.narrow))) ||
				   (g.wide && s == 6))
					zs.push_back(p);
			}
		for(uint32_t q = 0; zs.empty() && q < 14; q++)
		{
			P const p{q < 7 ? x.con : 1 - x.con, MZ, q % 7, -1};
			if(T.zone(p).card == NONE && T.zone(p).mats.empty())
				zs.push_back(p);
		}
		auto const to = zs[c.pick(zs.size())];
		T.extract(x);
		T.zone(to).card = xid;
		T.zone(to).mats = attached;
		V = T;
		mv_raw(x, to, 0x200000);
		verify("after the monster arrived");
	}
	auto do_attach() -> void
	{
		auto hs = hosts(false);
		if(hs.empty())
			return;
		auto const h = hs[c.pick(hs.size())];
		std::vector<P> cand;
		for(auto p : cards())
			if(!(p == h) && no_mats(V, p) && p.loc != FZ && p.loc != PZ)
				cand.push_back(p);
		for(auto p : mats())
			if(!(p.con == h.con && p.loc == h.loc && p.seq == h.seq))
				cand.push_back(p);
		if(cand.empty())
			return;
		auto const a = cand[c.pick(cand.size())];
		P to = h;
		to.oseq = int(V.zone(h).mats.size());
		mv(a, to, 0x40);
	}
	// One more material of h that comes from nowhere.
	auto appear(P h) -> void
	{
		h.oseq = int(V.zone(h).mats.size());
		auto const before = V.all();
		mv_raw(P{h.con, 0, 0, -1}, h, 0);
		int const id = read(client.frame()).at(h);
		CHECK(c,
		      id != NONE &&
		          std::find(before.begin(), before.end(), id) == before.end(),
		      "no new card at " + bm::str(h));
		owner[id] = h.con;
		V.insert(h, id);
	}
	auto do_detach() -> void
	{
		auto ms = mats();
		if(ms.empty())
			return;
		auto const a = ms[c.pick(ms.size())];
		auto to = pile_spots(owner[V.at(a)], g.narrow);
		for(auto p : zone_spots(a))
			to.push_back(p);
		mv(a, to[c.pick(to.size())], 0x80);
	}
	auto do_token() -> void
	{
		std::vector<P> where{{0, MZ, 1, -1}, {1, MZ, 4, -1}};
		if(!g.narrow)
		{
			where.push_back({0, MZ, 6, -1});
			where.push_back({1, SZ, 4, -1});
			where.push_back({0, FZ, 0, -1});
			where.push_back({1, PZ, 1, -1});
		}
		std::vector<std::pair<bool, P>> o;
		for(auto& p : where)
			if(free(p))
				o.emplace_back(true, p);
		for(auto& p : cards())
			if(no_mats(V, p))
				o.emplace_back(false, p);
		for(int con = 0; con < 2; con++)
		{
			o.emplace_back(true, end(con, HAND));
			if(!g.narrow)
			{
				o.emplace_back(true, P{con, DECK, 0, -1});
				o.emplace_back(true, end(con, GY));
			}
		}
		if(!g.narrow)
		{
			for(auto& p : mats())
				o.emplace_back(false, p);
			for(auto h : hosts(false))
			{
				h.oseq = int(V.zone(h).mats.size());
				o.emplace_back(true, h);
			}
		}
		auto const e = o[c.pick(o.size())];
		if(!e.first)
		{
			V.extract(e.second);
			mv_raw(e.second, P{e.second.con, 0, 0, -1}, 0x400);
			verify("after a card ceased to exist");
			return;
		}
		auto const before = V.all();
		mv_raw(P{e.second.con, 0, 0, -1}, e.second, 0);
		auto const got = read(client.frame());
		int const id = got.at(e.second);
		CHECK(c,
		      id != NONE &&
		          std::find(before.begin(), before.end(), id) == before.end(),
		      "no new card at " + bm::str(e.second) + ": " + got.str());
		owner[id] = e.second.con;
		V.insert(e.second, id);
		verify("after a card appeared");
	}
	auto do_swap() -> void
	{
		std::vector<std::pair<P, P>> o;
		for(int ca = 0; ca < 2; ca++)
			for(int za = 0; za < 12; za++)
				for(int cb = 0; cb < 2; cb++)
					for(int zb = 0; zb < 12; zb++)
					{
						auto const a = zplace(ca, za), b = zplace(cb, zb);
						if(a.loc == b.loc && !(a == b) &&
						   V.zone(a).card != NONE && V.zone(b).card != NONE)
							o.emplace_back(a, b);
					}
		if(o.empty())
			return;
		auto const s = o[c.pick(o.size())];
		LOG(c, "core: SWAP %s %s", bm::str(s.first).c_str(),
		    bm::str(s.second).c_str());
		V.swap(s.first, s.second);
		feed(W().u8(55).u32(11).info(s.first).u32(22).info(s.second));
		verify("after a swap");
	}
	auto do_shuffle() -> void
	{
		struct Sh
		{
			int con;
			uint32_t loc;
			std::vector<uint32_t> seqs;
		};
		std::vector<Sh> o;
		for(int con = 0; con < 2; con++)
			for(auto loc : {MZ, SZ})
			{
				std::vector<uint32_t> s;
				for(uint32_t i = 0; i < (loc == MZ ? 7U : 5U); i++)
					if(V.zone({con, loc, i, -1}).card != NONE)
						s.push_back(i);
				if(s.size() > 3)
					s.resize(3);
				if(s.size() < 2)
					continue;
				do
					o.push_back({con, loc, s});
				while(!g.narrow && std::next_permutation(s.begin(), s.end()));
			}
		if(o.empty())
			return;
		auto const s = o[c.pick(o.size())];
		// In the core, the card at seqs[i] goes to seqs[to[i]].
		std::vector<size_t> to(s.seqs.size());
		for(size_t i = 0; i < to.size(); i++)
			to[i] = i;
		std::vector<std::vector<size_t>> perms;
		do
			perms.push_back(to);
		while(std::next_permutation(to.begin(), to.end()));
		to = perms[c.pick(perms.size())];
		W w;
		w.u8(36).u8(s.loc).u8(s.seqs.size());
		for(auto q : s.seqs)
			w.info({s.con, s.loc, q, -1});
		Model before = V;
		for(size_t i = 0; i < to.size(); i++)
		{
			P const now{s.con, s.loc, s.seqs[to[i]], -1};
			if(before.zone({s.con, s.loc, s.seqs[i], -1}).mats.empty())
				w.u8(0).u8(0).u32(0).u32(0);
			else
				w.info(now);
		}
		LOG(c, "core: SHUFFLE_SET_CARD of %zu at %s", to.size(),
		    bm::str(P{s.con, s.loc, s.seqs[0], -1}).c_str());
		feed(w);
		// Cards without materials cannot be told apart: the client may have
		// them in any order, but with materials each is where it has to be.
		auto const got = read(client.frame());
		std::vector<int> loose_was, loose_is;
		for(size_t i = 0; i < to.size(); i++)
		{
			auto const& was = before.zone({s.con, s.loc, s.seqs[i], -1});
			P const now{s.con, s.loc, s.seqs[to[i]], -1};
			auto const& is = got.zone(now);
			if(was.mats.empty())
			{
				loose_was.push_back(was.card);
				loose_is.push_back(is.card);
				V.zone(now) = is;
				V.zone(now).mats.clear();
			}
			else
				V.zone(now) = was;
		}
		std::sort(loose_was.begin(), loose_was.end());
		std::sort(loose_is.begin(), loose_is.end());
		CHECK(c, loose_was == loose_is,
		      "after a shuffle of set cards: other cards than before: " +
		          got.str() + "\nbefore: " + before.str());
		verify("after a shuffle of set cards");
	}
	auto put_zone(W& w, int con, bool monsters) -> void
	{
		for(uint32_t s = 0; s < (monsters ? 7U : 8U); s++)
		{
			P const p = monsters ? P{con, MZ, s, -1}
			            : s < 5  ? P{con, SZ, s, -1}
			            : s == 5 ? P{con, FZ, 0, -1}
			                     : P{con, PZ, s - 6, -1};
			if(V.zone(p).card == NONE)
			{
				w.u8(0);
				continue;
			}
			w.u8(1).u8(1).u32(V.zone(p).mats.size());
		}
	}
	auto do_rebuild() -> void
	{
		switch(c.pick(4))
		{
		case 0: // MSG_RELOAD_FIELD
		{
			LOG(c, "core: RELOAD_FIELD");
			W w;
			w.u8(162).u32(0x2800);
			for(int con = 0; con < 2; con++)
			{
				w.u32(8000);
				put_zone(w, con, true);
				put_zone(w, con, false);
				for(auto l : {DECK, HAND, GY, BAN, EXTRA})
					w.u32(V.piles[con][pidx(l)].size());
				w.u32(0);
			}
			w.u32(0);
			feed(w);
			adopt(V, "after a field reload");
			break;
		}
		case 1: // MSG_START
		{
			LOG(c, "core: START");
			W w;
			w.u8(4).u8(0).u32(8000).u32(4000);
			Model shape;
			for(int con = 0; con < 2; con++)
			{
				w.u16(3 - con).u16(1 + con);
				shape.piles[con][pidx(DECK)].resize(3 - con);
				shape.piles[con][pidx(EXTRA)].resize(1 + con);
			}
			feed(w);
			adopt(shape, "after a duel start");
			break;
		}
		default: // MSG_TAG_SWAP
		{
			int const con = int(c.pick(2));
			uint32_t const main = c.pick(2) * 3, hand = c.pick(2) * 2,
			               extra = 1 + c.pick(2) * 2;
			LOG(c, "core: TAG_SWAP of %d: %u %u %u", con, main, extra, hand);
			Model shape = V;
			shape.piles[con][pidx(DECK)].resize(main);
			shape.piles[con][pidx(HAND)].resize(hand);
			shape.piles[con][pidx(EXTRA)].resize(extra);
			W w;
			w.u8(161).u8(con).u32(main).u32(extra).u32(0).u32(hand).u32(0);
			for(uint32_t i = 0; i < hand + extra; i++)
				w.u32(5).u32(8);
			auto const old = V;
			feed(w);
			auto const got = read(client.frame());
			// Only these piles are concerned.
			for(int cc = 0; cc < 2; cc++)
			{
				for(int i = 0; i < 5; i++)
					if(cc != con ||
					   (PILES[i] != DECK && PILES[i] != HAND && PILES[i] != EXTRA))
						CHECK(c, got.piles[cc][i] == old.piles[cc][i],
						      "a tag swap changed another pile: " + got.str());
				for(int z = 0; z < 16; z++)
					CHECK(c, got.zones[cc][z] == old.zones[cc][z],
					      "a tag swap changed a zone: " + got.str());
			}
			adopt(shape, "after a tag swap");
			break;
		}
		}
	}
	auto step() -> void
	{
		std::vector<int> fam;
		for(int f = 0; f < 9; f++)
			if(((g.families >> f) & 1U) != 0)
			{
				if(f == 1 && hosts(true).empty())
					continue;
				if(f == 0 && cards().empty())
					continue;
				fam.push_back(f);
			}
		switch(fam[c.pick(fam.size())])
		{
		case 0: do_move(); break;
		case 1: do_leave(); break;
		case 2: do_summon(); break;
		case 3: do_attach(); break;
		case 4: do_detach(); break;
		case 5: do_token(); break;
		case 6: do_swap(); break;
		case 7: do_shuffle(); break;
		case 8: do_rebuild(); break;
		}
	}
	auto run(int depth) -> void
	{
		for(int i = 0; i < depth; i++)
		{
			if(!c.visit(hash(), depth - i))
				return;
			step();
		}
		c.outcome(hash());
	}
};

// C17 -----------------------------------------------------------------------

struct Piles : PileOps
{
	explicit Piles(Chooser& ch) : PileOps(ch) {}
	auto fill(int con, uint32_t loc, int n) -> void
	{
		if(n == 0)
			return;
		pd::Msg m;
		auto* op = m.mutable_event()
		               ->mutable_pile()
		               ->mutable_resize()
		               ->add_ops();
		*op->mutable_place() = pb({con, loc, 0, -1});
		op->set_count(n);
		int next = st.built;
		auto const before = read(client.frame()).pile({con, loc, 0, -1}).size();
		YGOpen::Client::parse_event(client, m.event());
		ctx.parse(m);
		for(size_t i = before; i < size_t(n); i++)
			V.pile({con, loc, 0, -1}).push_back(next++);
	}
};

// Long duels: the choices of each move follow a pattern, so that moves, cards and
// places take turns.
auto pattern(Chooser& c, uint32_t len) -> std::vector<uint32_t>
{
	std::vector<uint32_t> v;
	for(uint32_t i = 0; i < len; i++)
		v.push_back(i == 0 ? c.pick(9) : c.pick(5));
	return v;
}
auto long_cfg(Chooser& c, bool shuffles) -> Cfg
{
	Cfg g;
	g.board = int(c.pick(3));
	g.k = 2;
	static constexpr unsigned FAMILIES[] = {0b11111111, 0b11110, 0b111111111};
	g.families = FAMILIES[c.pick(3)];
	if(!shuffles)
		g.families &= ~0b10000000U;
	return g;
}
auto long_name(uint32_t len, uint32_t moves) -> std::string
{
	return std::to_string(moves) +
	       " moves whose choices follow each of " +
	       std::to_string(len == 2 ? 45 : 225) +
	       " patterns, on each board, with all moves, without rebuilding, with "
	       "materials only";
}

auto c16(bool thorough) -> std::vector<mc::Space>
{
	std::vector<mc::Space> r;
	auto add = [&](std::string name, std::string bounds, Cfg g, int depth)
	{
		r.push_back({name, bounds, [g, depth](Chooser& c)
		             {
						 Driver d(c, g);
						 d.run(depth);
					 }});
	};
	{
		uint32_t const len = 3, moves = thorough ? 250 : 60;
		r.push_back({"long", long_name(len, moves),
		             [len, moves](Chooser& c)
		             {
						 auto const g = long_cfg(c, true);
						 auto const pat = pattern(c, len);
						 Driver d(c, g);
						 c.pattern = pat;
						 for(uint32_t i = 0; i < moves; i++)
							 d.step();
						 c.pattern.clear();
						 c.outcome(d.hash());
					 }});
	}
	{
		std::vector<int> ks{1, 2, 3, 5, 9, 12};
		std::vector<uint32_t> ns{0, 1, 4, 10};
		if(thorough)
		{
			ks = {1, 2, 3, 4, 5, 6, 7, 8, 9, 10, 12, 17, 24};
			ns = {0, 1, 2, 3, 4, 8, 16};
		}
		r.push_back(
			{"crowds",
		     "each board, after " + std::to_string(ns.size()) + "^2 numbers up to " +
		         std::to_string(ns.back()) +
		         " of further materials of two monsters, a summon with " +
		         std::to_string(ks.size()) + " numbers up to " +
		         std::to_string(ks.back()) +
		         " of materials that are chosen by each of 45 patterns, to every "
		         "zone, then a detachment or departure",
		     [ks, ns](Chooser& c)
		     {
				 Cfg g;
				 g.board = int(c.pick(3));
				 g.exactly = ks[c.pick(ks.size())];
				 uint32_t const m[2] = {ns[c.pick(ns.size())],
			                            ns[c.pick(ns.size())]};
				 g.narrow = true;
				 Driver d(c, g);
				 // Materials that are not attached in order.
				 auto hs = d.hosts(false);
				 for(int i = 0; i < 2 && i < int(hs.size()); i++)
					 for(uint32_t j = 0; j < m[i]; j++)
						 d.appear(hs[i]);
				 d.g.which = pattern(c, 2);
				 d.do_summon();
				 if(c.pick(2) == 0)
				 {
					 c.pattern = {1, 3};
					 d.do_detach();
				 }
				 else if(!d.hosts(true).empty())
				 {
					 c.pattern = {2, 1};
					 d.do_leave();
				 }
				 c.pattern.clear();
				 c.outcome(d.hash());
			 }});
	}
	for(int b = 0; b < 3; b++)
	{
		Cfg g;
		g.board = b;
		g.k = 3;
		g.wide = true;
		add("one-" + std::to_string(b),
		    "board " + std::to_string(b) +
		        ", one move of any kind with all its operands, up to 3 "
		        "materials, interposed messages",
		    g, 1);
		g.wide = false;
		g.k = thorough ? 2 : 1;
		add("two-" + std::to_string(b),
		    "board " + std::to_string(b) + ", all sequences of 2 moves, up to " +
		        std::to_string(g.k) + " materials per summon",
		    g, 2);
		g.narrow = true;
		g.k = 1;
		if(thorough && b == 2)
			add("three-narrow-" + std::to_string(b),
			    "board " + std::to_string(b) +
			        ", all sequences of 3 moves with fewer operands, 1 "
			        "material per summon",
			    g, 3);
		// Summon, leave, attach, detach only.
		g.families = 0b11110;
		g.k = thorough ? 1 : 2;
		if(b == 1)
			add("xyz-" + std::to_string(b),
			    "board " + std::to_string(b) + ", all sequences of " +
			        std::to_string(thorough ? 3 : 2) +
			        " summons, departures, attachments and detachments, up to " +
			        std::to_string(g.k) + " materials per summon",
			    g, thorough ? 3 : 2);
	}
	return r;
}

auto c17(bool thorough) -> std::vector<mc::Space>
{
	std::vector<mc::Space> r;
	int const md = thorough ? 12 : 8;
	r.push_back({"draw",
	             "deck up to " + std::to_string(md) +
	                 ", hand up to 3, every count, both players, then a reveal "
	                 "of every depth",
	             [md](Chooser& c)
	             {
					 Piles p(c);
					 int const con = int(c.pick(2));
					 int const deck = int(c.pick(md + 1));
					 p.fill(con, DECK, deck);
					 p.fill(con, HAND, int(c.pick(4)));
					 p.fill(1 - con, DECK, 2);
					 p.fill(1 - con, HAND, 1);
					 p.verify("at the start");
					 auto const n = c.pick(deck + 1);
					 p.draw(con, n);
					 if(uint32_t const left = deck - n; left > 0)
						 p.deck_top(con, c.pick(left));
				 }});
	r.push_back({"reverse", "both decks of 0 to 6 cards",
	             [](Chooser& c)
	             {
					 Piles p(c);
					 for(int con = 0; con < 2; con++)
					 {
						 p.fill(con, DECK, int(c.pick(7)));
						 p.fill(con, GY, int(c.pick(2)));
					 }
					 p.verify("at the start");
					 p.reverse();
				 }});
	int const mg = thorough ? 13 : 9;
	r.push_back({"swap",
	             "every graveyard of up to " + std::to_string(mg) +
	                 " cards with every flag pattern, decks of 0 to 3, extra "
	                 "decks of 0 to 3 with every insertion position",
	             [mg](Chooser& c)
	             {
					 Piles p(c);
					 int const con = int(c.pick(2));
					 int const n = int(c.pick(mg + 1));
					 p.fill(con, GY, n);
					 p.fill(con, DECK, int(c.pick(4)));
					 int const e = int(c.pick(4));
					 p.fill(con, EXTRA, e);
					 p.fill(1 - con, DECK, 2);
					 p.fill(1 - con, GY, 1);
					 p.fill(1 - con, EXTRA, 1);
					 p.verify("at the start");
					 uint32_t const pos = c.pick(e + 1);
					 std::vector<bool> f(n);
					 for(int i = 0; i < n; i++)
						 f[i] = c.pickb();
					 p.gy_swap(con, f, pos, int(c.pick(2)));
				 }});
	int const w = thorough ? 14 : 10;
	r.push_back({"swap-bytes",
	             "graveyards of 8, 9, 16, 17, 18, 24, 25 and 32 cards, every flag "
	             "pattern of a window of " +
	                 std::to_string(w) +
	                 " cards at the byte borders, the others all or none",
	             [w](Chooser& c)
	             {
					 Piles p(c);
					 static int const sz[] = {8, 9, 16, 17, 18, 24, 25, 32};
					 int const n = sz[c.pick(8)];
					 p.fill(0, GY, n);
					 p.fill(0, DECK, int(c.pick(2)) * 2);
					 p.fill(0, EXTRA, 2);
					 p.verify("at the start");
					 bool const rest = c.pickb();
					 int starts[3] = {0, std::max(0, n / 2 - w / 2),
			                          std::max(0, n - w)};
					 int const from = starts[n > w ? c.pick(3) : 0];
					 std::vector<bool> f(n, rest);
					 for(int i = 0; i < w && from + i < n; i++)
						 f[from + i] = c.pickb();
					 p.gy_swap(0, f, 1);
				 }});
	r.push_back({"large",
	             "piles of 20 to 300 cards: draws and reveals of counts around "
	             "powers of two, reversals, graveyard/deck swaps with every flag "
	             "set, none, every other or one of them",
	             [](Chooser& c)
	             {
					 static int const sz[] = {20,  40,  60,  64,  127, 128,
			                                  129, 255, 256, 257, 300};
					 Piles p(c);
					 int const con = int(c.pick(2));
					 int const n = sz[c.pick(11)];
					 p.fill(con, DECK, n);
					 p.fill(con, HAND, c.pickb() ? n : 3);
					 p.fill(1 - con, DECK, n / 2);
					 p.fill(1 - con, HAND, 1);
					 auto const keys = bm::key_numbers(n);
					 switch(c.pick(4))
					 {
					 case 0:
						 p.draw(con, c.pickv(keys));
						 break;
					 case 1:
						 p.deck_top(con, std::min<uint32_t>(n - 1, c.pickv(keys)));
						 break;
					 case 2: p.reverse(); break;
					 default:
					 {
						 int const e = c.pickb() ? n / 2 : 1;
						 p.fill(con, GY, n + 5);
						 p.fill(con, EXTRA, e);
						 std::vector<bool> f(n + 5);
						 auto const k = c.pick(3 + keys.size());
						 for(size_t i = 0; i < f.size(); i++)
							 f[i] = k == 0 || (k == 1 && i % 2 != 0) ||
					                (k > 2 && keys[k - 3] == i);
						 auto const ins = bm::key_numbers(e);
						 p.gy_swap(con, f, c.pickv(ins));
						 break;
					 }
					 }
					 c.outcome(p.V.hash());
				 }});
	int const depth = thorough ? 6 : 4;
	r.push_back({"sequence",
	             "all sequences of " + std::to_string(depth) +
	                 " draws, reversals, reveals and swaps from small piles",
	             [depth](Chooser& c)
	             {
					 Piles p(c);
					 for(int con = 0; con < 2; con++)
					 {
						 p.fill(con, DECK, 3 - con);
						 p.fill(con, GY, 2 + con);
						 p.fill(con, EXTRA, 1);
						 p.fill(con, HAND, con);
					 }
					 for(int con = 0; con < 2; con++)
						 for(auto x : p.V.all())
							 p.owner[x] = 0;
					 p.verify("at the start");
					 for(int i = 0; i < depth; i++)
					 {
						 if(!c.visit(p.hash(), depth - i))
							 return;
						 auto const k = c.pick(4);
						 if(k == 1)
						 {
							 p.reverse();
							 continue;
						 }
						 int const con = int(c.pick(2));
						 uint32_t const d = p.V.piles[con][pidx(DECK)].size();
						 if(k == 0)
							 p.draw(con, c.pick(d + 1));
						 else if(k == 2)
						 {
							 if(d > 0)
								 p.deck_top(con, c.pick(d));
						 }
						 else
						 {
							 auto const n = p.V.piles[con][pidx(GY)].size();
							 auto const e = p.V.piles[con][pidx(EXTRA)].size();
							 std::vector<bool> f(n);
							 for(size_t j = 0; j < n; j++)
								 f[j] = c.pickb();
							 p.gy_swap(con, f, c.pick(std::min<size_t>(e, 2) + 1));
						 }
					 }
					 c.outcome(p.V.hash());
				 }});
	return r;
}

// C30 -----------------------------------------------------------------------

// A client's card: it knows its number and what it was told about itself.
struct SeenCard
	: bm::Card
	, YGOpen::Client::BasicCard<YGOpen::Client::DefaultCardTraits>
{
	using Told = YGOpen::Client::BasicCard<YGOpen::Client::DefaultCardTraits>;
	SeenCard(Stats* s, int i) : bm::Card(s, i) {}
	SeenCard(SeenCard&&) noexcept = default;
	auto operator=(SeenCard&&) noexcept -> SeenCard& = default;
};
struct SeenBuilder
{
	Stats* st = nullptr;
	[[nodiscard]] auto build() noexcept -> SeenCard
	{
		return SeenCard(st, st->built++);
	}
};
struct SeenTraits : eg::PlainTraits
{
	using FrameType = YGOpen::Client::BasicFrame<SeenCard, SeenBuilder>;
};
using SeenBoard = YGOpen::Client::BasicBoard<SeenTraits>;

// Property flag of the core (and part of it) -> value; zero and empty is absent.
using Told = std::map<std::pair<uint32_t, int>, std::vector<int64_t>>;

auto told_str(Told const& t) -> std::string
{
	std::string s = "{";
	char buf[40];
	for(auto& kv : t)
	{
		snprintf(buf, sizeof buf, "0x%x.%d=", kv.first.first, kv.first.second);
		s += buf;
		for(auto x : kv.second)
			s += std::to_string(x) + ",";
		s += " ";
	}
	return s + "}";
}
auto four(Place const& p) -> std::vector<int64_t>
{
	return {p.con(), p.loc(), p.seq(), p.oseq()};
}
auto told_by(SeenCard const& k) -> Told
{
	Told t;
	auto one = [&](uint32_t flag, int part, int64_t v)
	{
		if(v != 0)
			t[{flag, part}] = {v};
	};
	one(0x1, 0, k.code());
	one(0x2, 0, k.position());
	one(0x4, 0, k.alias());
	one(0x8, 0, k.type());
	one(0x10, 0, k.level());
	one(0x20, 0, k.xyz_rank());
	one(0x40, 0, k.attribute());
	one(0x80, 0, k.race());
	one(0x100, 0, k.atk());
	one(0x200, 0, k.def());
	one(0x400, 0, k.base_atk());
	one(0x800, 0, k.base_def());
	auto const e = four(k.equipped_to());
	if(e != std::vector<int64_t>{0, 0, 0, 0})
		t[{0x4000, 0}] = e;
	for(auto& p : k.targets())
		for(auto x : four(p))
			t[{0x8000, 0}].push_back(x);
	for(auto& p : k.counters())
	{
		t[{0x20000, 0}].push_back(p.type());
		t[{0x20000, 0}].push_back(p.count());
	}
	one(0x40000, 0, int(k.owner()));
	one(0x80000, 0, k.status());
	one(0x100000, 0, k.is_public());
	one(0x200000, 0, k.pend_l_scale());
	one(0x400000, 0, k.pend_r_scale());
	one(0x800000, 0, k.link_rate());
	one(0x800000, 1, k.link_arrow());
	one(0x1000000, 0, k.is_hidden());
	one(0x2000000, 0, k.cover());
	return t;
}

// What an update carries.
enum Carry
{
	CODE_ONLY,
	SOME,
	ALL,
	LISTS,
	NOTHING,
	MATS_ONLY,
	ALL_ZERO,
	N_CARRY
};

struct Known
{
	Stats st;
	SeenBoard seen;
	std::map<int, Told> told; // By the card's number.
	Driver d;
	Chooser& c;
	uint32_t val = 100;

	Known(Chooser& ch, Cfg g)
		: d((seen.frame().builder().st = &st, ch), g,
	        [this](pd::Msg const& m) { get(m); })
		, c(ch)
	{}
	// A client applies the event, then the queries.
	auto get(pd::Msg const& m) -> void
	{
		if(m.t_case() == pd::Msg::kEvent)
			YGOpen::Client::parse_event(seen, m.event());
		for(auto& q : m.queries())
		{
			CHECK(d.c, seen.frame().has_card(q.place()),
			      "an update is about " + bm::str(un(q.place())) +
			          ", where no card is: " + read(seen.frame()).str());
			(void)YGOpen::Client::parse_query(seen.frame(), q);
		}
	}
	auto verify(char const* when) -> void
	{
		// What was known of a card that is gone is forgotten: should its number
		// come up again, then for a card that starts out blank.
		auto const ids = d.V.all();
		for(auto it = told.begin(); it != told.end();)
			if(std::find(ids.begin(), ids.end(), it->first) == ids.end())
				it = told.erase(it);
			else
				++it;
		if(!c.fresh())
			return;
		auto const m = read(seen.frame());
		CHECK(c, m == d.V,
		      std::string(when) + ": a client that keeps properties has\n  " +
		          m.str() + "\nbut the field is\n  " + d.V.str());
		auto look = [&](SeenCard const& k, P const& p)
		{
			auto const is = told_by(k);
			auto const it = told.find(k.id);
			auto const want = it == told.end() ? Told{} : it->second;
			CHECK(c, is == want,
			      std::string(when) + ": the card at " + bm::str(p) +
			          " is known as " + told_str(is) + " but the core said " +
			          told_str(want));
		};
		for(int con = 0; con < 2; con++)
		{
			for(int i = 0; i < 5; i++)
			{
				auto& pile =
					seen.frame().pile(Controller(con), Location(PILES[i]));
				for(size_t s = 0; s < pile.size(); s++)
					look(*pile[s], P{con, PILES[i], uint32_t(s), -1});
			}
			for(int z = 0; z < 16; z++)
			{
				auto p = zplace(con, z);
				auto& zn =
					seen.frame().zone(Controller(con), Location(p.loc), p.seq);
				if(zn.card != nullptr)
					look(*zn.card, p);
				for(auto* k : zn.materials)
				{
					p.oseq++;
					look(*k, p);
				}
			}
		}
		c.step();
	}
	// One block of properties of the card at p.
	auto block(W& w, P const& p, Carry what) -> void
	{
		auto& t = told[d.V.at(p)];
		auto set = [&](uint32_t f, int part, std::vector<int64_t> v)
		{
			bool const nil = std::all_of(v.begin(), v.end(),
			                             [](int64_t x) { return x == 0; });
			if(nil)
				t.erase({f, part});
			else
				t[{f, part}] = std::move(v);
		};
		bool const zero = what == ALL_ZERO;
		auto next = [&] { return zero ? 0 : val++; };
		auto u32 = [&](uint32_t f)
		{
			auto const v = next();
			w.u16(8).u32(f).u32(v);
			set(f, 0, {v});
		};
		auto s32 = [&](uint32_t f)
		{
			int32_t const v = -int32_t(next());
			w.u16(8).u32(f).u32(uint32_t(v));
			set(f, 0, {v});
		};
		auto flag = [&](uint32_t f)
		{
			uint8_t const v = next() & 1U;
			w.u16(5).u32(f).u8(v);
			set(f, 0, {v});
		};
		auto lists = [&]
		{
			uint32_t const n = zero ? 0 : val++ % 3;
			w.u16(8 + 10 * n).u32(0x8000).u32(n);
			std::vector<int64_t> l;
			for(uint32_t i = 0; i < n; i++)
			{
				uint32_t const s = val++ % 5, con = val % 2;
				w.u8(con).u8(MZ).u32(s).u32(1);
				for(int64_t x : {int64_t(con), int64_t(MZ), int64_t(s), int64_t{-1}})
					l.push_back(x);
			}
			if(l.empty())
				t.erase({0x8000, 0});
			else
				t[{0x8000, 0}] = l;
			uint32_t const k = zero ? 0 : 2 - n;
			w.u16(8 + 4 * k).u32(0x20000).u32(k);
			l.clear();
			for(uint32_t i = 0; i < k; i++)
			{
				uint32_t const ty = val++, co = val % 7 + 1;
				w.u32(ty | (co << 16U));
				l.push_back(ty);
				l.push_back(co);
			}
			if(l.empty())
				t.erase({0x20000, 0});
			else
				t[{0x20000, 0}] = l;
		};
		auto overlay = [&]
		{
			auto const n = d.V.zone(p).mats.size();
			w.u16(8 + 4 * n).u32(0x10000).u32(n);
			for(auto id : d.V.zone(p).mats)
			{
				auto const v = next();
				w.u32(v);
				if(v != 0)
					told[id][{0x1, 0}] = {v};
				else
					told[id].erase({0x1, 0});
			}
		};
		bool const zone = !is_pile_loc(p.loc);
		switch(what)
		{
		case CODE_ONLY: u32(0x1); break;
		case SOME:
			u32(0x1);
			u32(0x2);
			s32(0x100);
			if(zone)
				overlay();
			u32(0x80000);
			break;
		case ALL:
		case ALL_ZERO:
			for(uint32_t f : {0x1, 0x2, 0x4, 0x8})
				u32(f);
			s32(0x10);
			u32(0x20);
			u32(0x40);
			{
				uint64_t const v = zero ? 0 : (uint64_t{1} << 40U) + val++;
				w.u16(12).u32(0x80).u64(v);
				set(0x80, 0, {int64_t(v)});
			}
			for(uint32_t f : {0x100, 0x200, 0x400, 0x800})
				s32(f);
			u32(0x1000);
			t.erase({0x1000, 0}); // The reason is not a property.
			{
				uint32_t const s = next() % 5;
				w.u16(14).u32(0x4000).u8(1).u8(SZ).u32(s).u32(1);
				set(0x4000, 0, {1, SZ, s, -1});
			}
			lists();
			if(zone)
				overlay();
			{
				uint8_t const v = next() & 1U;
				w.u16(5).u32(0x40000).u8(v);
				set(0x40000, 0, {v});
			}
			u32(0x80000);
			flag(0x100000);
			u32(0x200000);
			u32(0x400000);
			w.u16(12).u32(0x800000);
			for(int part = 0; part < 2; part++)
			{
				auto const v = next();
				w.u32(v);
				set(0x800000, part, {v});
			}
			flag(0x1000000);
			u32(0x2000000);
			break;
		case LISTS: lists(); break;
		case MATS_ONLY:
			if(zone)
				overlay();
			break;
		default: break;
		}
		w.u16(4).u32(0x80000000U);
	}
	static auto core_slots(int con, uint32_t loc, Model const& m)
		-> std::vector<P>
	{
		std::vector<P> r;
		if(loc == MZ)
			for(uint32_t s = 0; s < 7; s++)
				r.push_back({con, MZ, s, -1});
		else if(loc == SZ)
			for(uint32_t s = 0; s < 8; s++)
				r.push_back(s < 5    ? P{con, SZ, s, -1}
				            : s == 5 ? P{con, FZ, 0, -1}
				                     : P{con, PZ, s - 6, -1});
		else
			for(uint32_t s = 0; s < m.piles[con][pidx(loc)].size(); s++)
				r.push_back({con, loc, s, -1});
		return r;
	}
	// MSG_UPDATE_DATA of everything at a location but the slot left out.
	auto update_data(int con, uint32_t loc, Carry what, int skip = -1) -> void
	{
		W w;
		auto const slots = core_slots(con, loc, d.V);
		for(size_t i = 0; i < slots.size(); i++)
		{
			if(d.V.at(slots[i]) == NONE || int(i) == skip)
				w.u16(0);
			else
				block(w, slots[i], what);
		}
		LOG(c, "core: UPDATE_DATA %d %s, carrying %d, all but %d", con,
		    bm::str(P{con, loc, 0, -1}).c_str(), int(what), skip);
		W m;
		m.u8(6).u8(con).u8(loc).u32(w.b.size());
		m.b.insert(m.b.end(), w.b.begin(), w.b.end());
		d.feed(m);
	}
	auto update_card(P const& p, Carry what) -> void
	{
		LOG(c, "core: UPDATE_CARD %s, carrying %d", bm::str(p).c_str(),
		    int(what));
		W w;
		W i;
		i.info(p);
		w.u8(7).u8(i.b[0]).u8(i.b[1]).u8(i.b[2]);
		block(w, p, what);
		d.feed(w);
	}
	static constexpr uint32_t LOCS[7] = {MZ, SZ, HAND, GY, BAN, EXTRA, DECK};
	auto update_all(Carry what) -> void
	{
		for(int con = 0; con < 2; con++)
			for(auto l : LOCS)
				update_data(con, l, what);
		verify("after updates of everything");
	}
	// Any single update.
	auto update_any(Carry what, bool omit, bool single = true) -> void
	{
		auto const cs = d.cards();
		auto const n = c.pick(14 + (single ? cs.size() : 0));
		if(n >= 14)
			update_card(cs[n - 14], what);
		else
		{
			int const con = int(n % 2);
			auto const loc = LOCS[n / 2];
			int skip = -1;
			if(omit)
			{
				std::vector<int> full{-1};
				auto const slots = core_slots(con, loc, d.V);
				for(size_t i = 0; i < slots.size(); i++)
					if(d.V.at(slots[i]) != NONE)
						full.push_back(int(i));
				skip = full[c.pick(full.size())];
			}
			update_data(con, loc, what, skip);
		}
		verify("after an update");
	}
};
constexpr uint32_t Known::LOCS[7];

auto c30(bool thorough) -> std::vector<mc::Space>
{
	std::vector<mc::Space> r;
	for(int b = 0; b < 3; b++)
	{
		auto const name = std::to_string(b);
		bool const more = thorough && b != 0;
		Cfg g;
		g.board = b;
		g.k = thorough ? 2 : 1;
		r.push_back({"one-" + name,
		             "board " + name +
		                 ", all cards told apart, then one move of any kind with "
		                 "all its operands, then one update of any location or "
		                 "card",
		             [g](Chooser& c)
		             {
						 Known k(c, g);
						 k.update_all(ALL);
						 k.d.step();
						 k.verify("after a move");
						 k.update_any(SOME, false);
						 c.outcome(k.d.V.hash());
					 }});
		r.push_back({"updates-" + name,
		             "board " + name +
		                 ", all sequences of 2 updates of any location (any slot "
		                 "left out) or card, with each kind of content" +
		                 (more ? ", then one of any location's codes" : ""),
		             [g, thorough, more](Chooser& c)
		             {
						 Known k(c, g);
						 if(thorough)
							 k.update_all(SOME);
						 for(int i = 0; i < 2; i++)
							 k.update_any(Carry(c.pick(N_CARRY)), true);
						 if(more) // Then a whole location.
							 k.update_any(CODE_ONLY, false, false);
						 c.outcome(k.val);
					 }});
		g.narrow = true;
		g.k = 1;
		r.push_back({"two-" + name,
		             "board " + name +
		                 ", all cards told apart, all sequences of 2 moves with "
		                 "fewer operands" +
		                 (thorough ? ", with or without all cards updated in "
		                             "between"
		                           : ""),
		             [g, thorough](Chooser& c)
		             {
						 Known k(c, g);
						 k.update_all(SOME);
						 k.d.step();
						 k.verify("after a move");
						 if(thorough && c.pickb())
							 k.update_all(CODE_ONLY);
						 k.d.step();
						 k.verify("after a move");
						 c.outcome(k.d.V.hash());
					 }});
	}
	uint32_t const len = thorough ? 3 : 2, moves = thorough ? 100 : 40;
	r.push_back({"long",
	             long_name(len, moves) + ", an update of a location or card after each",
	             [len, moves](Chooser& c)
	             {
					 auto const g = long_cfg(c, false);
					 auto const pat = pattern(c, len);
					 Known k(c, g);
					 k.update_all(ALL);
					 c.pattern = pat;
					 for(uint32_t i = 0; i < moves; i++)
					 {
						 k.d.step();
						 k.verify("after a move");
						 k.update_any(i % 3 == 0 ? ALL : SOME, false);
					 }
					 c.pattern.clear();
					 c.outcome(k.d.V.hash());
				 }});
	// Whole piles.
	int const depth = thorough ? 4 : 3;
	r.push_back({"piles",
	             "all sequences of " + std::to_string(depth) +
	                 " draws, reversals and graveyard/deck swaps of told cards",
	             [depth](Chooser& c)
	             {
					 Cfg g;
					 g.board = 0;
					 Known k(c, g);
					 k.update_all(ALL);
					 for(int i = 0; i < depth; i++)
					 {
						 auto const what = c.pick(4);
						 if(what == 0)
							 k.d.reverse();
						 else if(what == 3)
							 k.update_all(SOME);
						 else
						 {
							 int const con = int(c.pick(2));
							 if(what == 1)
								 k.d.draw(con, c.pick(k.d.V.piles[con][pidx(DECK)].size() + 1));
							 else
							 {
								 std::vector<bool> f(k.d.V.piles[con][pidx(GY)].size());
								 for(size_t j = 0; j < f.size(); j++)
									 f[j] = c.pickb();
								 k.d.gy_swap(con, f, c.pick(std::min<size_t>(k.d.V.piles[con][pidx(EXTRA)].size(), 2) + 1));
							 }
						 }
						 k.verify("after a message about piles");
					 }
					 c.outcome(k.d.V.hash());
				 }});
	return r;
}

// C32 -----------------------------------------------------------------------

struct Recorded
{
	Stats st;
	eg::HistoryBoard hist;
	std::vector<std::unique_ptr<pd::Msg>> msgs;
	std::vector<eg::BoardM> points; // Before each, and after the last.
	Driver d;
	Chooser& c;
	uint32_t n = 0;

	Recorded(Chooser& ch, Cfg g)
		: d((hist.frame().builder().st = &st, ch), g,
	        [this](pd::Msg const& m) { get(m); })
		, c(ch)
	{
		base = msgs.size();
	}
	auto get(pd::Msg const& m) -> void
	{
		if(m.t_case() != pd::Msg::kEvent)
			return;
		if(points.empty())
			points.push_back(eg::BoardM());
		// What is recorded is what came over the wire.
		msgs.push_back(std::make_unique<pd::Msg>());
		CHECK(d.c, msgs.back()->ParseFromString(m.SerializeAsString()),
		      "a message does not survive the wire");
		YGOpen::Client::parse_event(hist, msgs.back()->event());
		points.push_back(eg::look(d.client));
		same(points.back(), "when it happened");
	}
	auto same(eg::BoardM const& want, char const* when) -> void
	{
		auto const is = eg::look(hist);
		CHECK(d.c, is.same(want),
		      std::string("a recorded duel shows ") + when + "\n  " + is.str() +
		          "\nbut the board was\n  " + want.str());
		d.c.step();
	}
	// Messages about the state of the duel.
	auto state() -> void
	{
		W w;
		n++;
		switch(c.pick(10))
		{
		case 0: w.u8(40).u8(n % 2); break;               // NEW_TURN
		case 1: w.u8(41).u16(1U << (n % 10)); break;     // NEW_PHASE
		case 2: w.u8(91).u8(n % 2).u32(700 + n); break;  // DAMAGE
		case 3: w.u8(91).u8(n % 2).u32(9000); break;     // all of it
		case 4: w.u8(92).u8(n % 2).u32(33 + n); break;   // RECOVER
		case 5: w.u8(94).u8(n % 2).u32(1234 + n); break; // LPUPDATE
		case 6: w.u8(100).u8(n % 2).u32(50 + n); break;  // PAY_LPCOST
		case 7: w.u8(56).u32(0x00010001U << (n % 16)); break;   // FIELD_DISABLED
		case 8: d.reverse(); return;
		default:
		{
			int const con = int(c.pick(2));
			auto const& deck = d.V.piles[con][pidx(DECK)];
			auto const& gy = d.V.piles[con][pidx(GY)];
			if(c.pickb())
				d.draw(con, c.pick(deck.size() + 1));
			else
			{
				std::vector<bool> f(gy.size());
				for(size_t j = 0; j < f.size(); j++)
					f[j] = c.pickb();
				d.gy_swap(con, f,
				          c.pick(std::min<size_t>(
									 d.V.piles[con][pidx(EXTRA)].size(), 2) +
				                 1));
			}
			return;
		}
		}
		LOG(c, "core: message %u", w.b[0]);
		d.feed(w);
		d.verify("after a message about the state of the duel");
	}
	auto back(size_t to) -> void
	{
		for(; at > to; at--)
		{
			LOG(c, "undo message %zu", at - 1);
			YGOpen::Client::undo_parse_event(hist, msgs[at - 1]->event());
			same(points[at - 1], "after an undo");
		}
	}
	auto forth(size_t to) -> void
	{
		for(; at < to; at++)
		{
			LOG(c, "redo message %zu", at);
			YGOpen::Client::parse_event(hist, msgs[at]->event());
			same(points[at + 1], "after a redo");
		}
	}
	size_t at = 0;
	size_t base = 0;
	// To the beginning and to the end, then to any point and back.
	auto walk(bool any) -> void
	{
		size_t const n = msgs.size();
		at = n;
		back(0);
		forth(n);
		// The messages from the first one of the core on.
		back(any ? base + c.pick(n - base + 1) : (base + n) / 2);
		forth(n);
	}
};

auto c32(bool thorough) -> std::vector<mc::Space>
{
	std::vector<mc::Space> r;
	for(int b = 0; b < 3; b++)
	{
		auto const name = std::to_string(b);
		Cfg g;
		g.board = b;
		g.families = 0b101111111; // Undoing a shuffle is not implemented.
		g.k = thorough ? 3 : 2;
		r.push_back({"one-" + name,
		             "board " + name +
		                 ", one move of any kind with all its operands, walked "
		                 "back, forth and to every point between",
		             [g](Chooser& c)
		             {
						 Recorded k(c, g);
						 k.d.step();
						 k.walk(true);
						 c.outcome(k.d.V.hash());
					 }});
		g.k = 1;
		g.narrow = !thorough;
		r.push_back({"two-" + name,
		             "board " + name +
		                 ", all sequences of 2 moves, walked back, forth, half "
		                 "way and forth",
		             [g](Chooser& c)
		             {
						 Recorded k(c, g);
						 k.d.step();
						 k.d.step();
						 k.walk(false);
						 c.outcome(k.d.V.hash());
					 }});
		g.narrow = true;
		int const m = thorough && b == 2 ? 2 : 1;
		r.push_back({"state-" + name,
		             "board " + name + ", all sequences of " +
		                 std::to_string(m) +
		                 " messages about life points, turns, phases, disabled "
		                 "zones and whole piles, then a move with fewer operands "
		                 "at any place among them",
		             [g, m](Chooser& c)
		             {
						 Recorded k(c, g);
						 int const when = int(c.pick(m + 1));
						 for(int i = 0; i <= m; i++)
						 {
							 if(i == when)
								 k.d.step();
							 if(i < m)
								 k.state();
						 }
						 k.walk(false);
						 c.outcome(k.d.V.hash());
					 }});
	}
	uint32_t const len = thorough ? 3 : 2, moves = thorough ? 80 : 40;
	r.push_back({"long",
	             long_name(len, moves) +
	                 ", a message about the state of the duel after each; walked "
	                 "back, forth, half way and forth",
	             [len, moves](Chooser& c)
	             {
					 auto const g = long_cfg(c, false);
					 auto const pat = pattern(c, len);
					 Recorded k(c, g);
					 c.pattern = pat;
					 for(uint32_t i = 0; i < moves; i++)
					 {
						 k.d.step();
						 k.state();
					 }
					 c.pattern.clear();
					 k.walk(false);
					 c.outcome(k.d.V.hash());
				 }});
	if(thorough)
	{
		Cfg g;
		g.board = 2;
		g.families = 0b101111111;
		g.k = 1;
		g.narrow = true;
		r.push_back({"three-2",
		             "board 2, all sequences of 3 moves with fewer operands, "
		             "walked back, forth, half way and forth",
		             [g](Chooser& c)
		             {
						 Recorded k(c, g);
						 for(int i = 0; i < 3; i++)
							 k.d.step();
						 k.walk(false);
						 c.outcome(k.d.V.hash());
					 }});
	}
	return r;
}

mc::Register const r30("C30", c30);
mc::Register const r32("C32", c32);
mc::Register const r16("C16", c16);
mc::Register const r17("C17", c17);

} // namespace

auto main(int argc, char** argv) -> int
{
	return mc::main_(argc, argv);
}
