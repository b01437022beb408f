// C01 (placement), C02 (card lifetimes), C03 (zone shuffles) on the real frames.
#include "board_model.hpp"

using namespace bm;
using mc::Chooser;
using mc::Space;

namespace
{

// Every view of the board against the model.
template<typename F>
auto verify_views(Chooser& c, F& f, Model const& m) -> void
{
	auto const got = read(f);
	if(!(got == m))
		c.violation("board is " + got.str() + " but should be " + m.str());
	F const& k = f;
	for(int con = 0; con < 2; con++)
	{
		for(int i = 0; i < 5; i++)
		{
			auto const& v = m.piles[con][i];
			auto const p0 = pb(P{con, PILES[i], 0, -1});
			CHECK(c, &f.pile(p0) == &f.pile(Controller(con), Location(PILES[i])) &&
			            &k.pile(p0) == &f.pile(p0) &&
			            &k.pile(Controller(con), Location(PILES[i])) == &f.pile(p0),
			        "the pile views disagree");
			for(uint32_t s = 0; s < v.size() + 2; s++)
			{
				auto const pl = P{con, PILES[i], s, -1};
				auto const p = pb(pl);
				bool const has = s < v.size();
				CHECK(c, k.has_card(p) == has,
				        "has_card(" + str(pl) + ") is wrong on " + m.str());
				if(has)
					CHECK(c, f.card(p).id == v[s] && &k.card(p) == &f.card(p),
					        "card(" + str(pl) + ") is wrong on " + m.str());
			}
		}
		for(int z = 0; z < 16; z++)
		{
			auto pl = zplace(con, z);
			auto const& mz = m.zones[con][z];
			auto const p = pb(pl);
			auto& zn = f.zone(p);
			CHECK(c, &zn == &f.zone(Controller(con), Location(pl.loc), pl.seq) &&
			            &k.zone(p) == &zn &&
			            &k.zone(Controller(con), Location(pl.loc), pl.seq) == &zn,
			        "the zone views disagree");
			CHECK(c, k.has_card(p) == (mz.card != NONE),
			        "has_card(" + str(pl) + ") is wrong on " + m.str());
			if(mz.card != NONE)
				CHECK(c, f.card(p).id == mz.card && &k.card(p) == &f.card(p),
				        "card(" + str(pl) + ") is wrong on " + m.str());
			for(int o = 0; o < int(mz.mats.size()) + 2; o++)
			{
				pl.oseq = o;
				auto const q = pb(pl);
				bool const has = o < int(mz.mats.size());
				CHECK(c, k.has_card(q) == has,
				        "has_card(" + str(pl) + ") is wrong on " + m.str());
				if(has)
					CHECK(c, f.card(q).id == mz.mats[o] && &k.card(q) == &f.card(q),
					        "card(" + str(pl) + ") is wrong on " + m.str());
			}
		}
	}
}

// Populates board and model alike.
template<typename F>
auto populate(F& f, Model& m, int& next, std::vector<std::pair<P, int>> const& what)
	-> void
{
	for(auto& [p0, n] : what)
		for(int i = 0; i < n; i++)
		{
			P p = p0;
			if(is_pile_loc(p.loc))
				p.seq = m.pile(p).size();
			else if(p.oseq >= 0)
				p.oseq = m.zone(p).mats.size();
			Op const o{Op::ADD, p, {}, 0, false};
			apply(f, o);
			apply_model(m, o, next);
		}
}

template<typename F>
auto op_sequences(Chooser& c, Universe const& u, unsigned depth, bool dedup,
                  std::vector<std::pair<P, int>> const& base) -> void
{
	Stats st;
	F f{Builder{&st}};
	Model m;
	int next = 0;
	populate(f, m, next, base);
	if(c.choices.empty())
		verify_views(c, f, m);
	for(unsigned i = 0; i < depth; i++)
	{
		if(dedup && !c.visit(m.canon_hash(), depth - i))
			return;
		// The operations of the (fixed) initial board are listed only once.
		static std::map<uint64_t, std::vector<Op>> firsts;
		std::vector<Op> mine;
		auto* ops = &mine;
		if(i == 0)
			ops = &firsts[mc::Hasher().add(m.hash()).add(u.max_pile).add(u.kinds).h];
		if(ops->empty())
			*ops = enumerate(u, m);
		if(ops->empty())
			return;
		auto const o = (*ops)[c.pick(ops->size())];
		LOG(c, "%s", o.str().c_str());
		bool const fresh = c.fresh();
		apply(f, o);
		apply_model(m, o, next);
		c.step();
		if(fresh)
		{
			verify_views(c, f, m);
			c.outcome(m.hash());
		}
	}
	if(!dedup)
		c.state(m.canon_hash());
}

auto everything() -> Universe
{
	Universe u;
	for(int c = 0; c < 2; c++)
	{
		for(auto l : PILES)
			u.piles.push_back(P{c, l, 0, -1});
		for(int z = 0; z < 16; z++)
			u.zones.push_back(zplace(c, z));
	}
	u.max_cards = 1000;
	return u;
}

auto full_board(int parity) -> std::vector<std::pair<P, int>>
{
	std::vector<std::pair<P, int>> v;
	int k = parity;
	for(int c = 0; c < 2; c++)
	{
		for(int i = 0; i < 5; i++)
			v.emplace_back(P{c, PILES[i], 0, -1}, 1 + ((i + c + parity) % 3));
		for(int z = 0; z < 16; z++, k++)
		{
			auto p = zplace(c, z);
			if(k % 2 == 0 || parity >= 2)
				v.emplace_back(p, 1);
			p.oseq = 0;
			if(parity == 3)
				v.emplace_back(p, 1 + (z % 2));
			else if(k % 4 == 0 && parity < 2)
				v.emplace_back(p, 1 + (k / 4) % 2);
			else if(k % 8 == 3 && parity < 2) // Materials alone
				v.emplace_back(p, 1);
		}
	}
	return v;
}

auto small_universe() -> Universe
{
	Universe u;
	u.piles = {P{0, 2, 0, -1}, P{1, 0x10, 0, -1}};
	u.zones = {P{0, 4, 0, -1}, P{1, 0x200, 1, -1}};
	u.max_pile = 3;
	u.max_mats = 2;
	u.max_cards = 4;
	return u;
}

auto zones_universe() -> Universe
{
	Universe u;
	u.piles = {P{1, 1, 0, -1}};
	u.zones = {P{0, 4, 6, -1}, P{0, 4, 5, -1}, P{1, 8, 4, -1}};
	u.max_pile = 2;
	u.max_mats = 3;
	u.max_cards = 4;
	return u;
}

auto piles_universe() -> Universe
{
	Universe u;
	u.piles = {P{0, 1, 0, -1}, P{1, 1, 0, -1}, P{0, 0x40, 0, -1},
	           P{1, 0x20, 0, -1}};
	u.max_pile = 4;
	u.max_cards = 5;
	u.splice_counts = {0, 1, 2, 3, 4};
	return u;
}

// Piles and materials of a size, and what can be done with them.
auto large(uint32_t n) -> std::pair<Universe, std::vector<std::pair<P, int>>>
{
	Universe u;
	u.piles = {P{0, 1, 0, -1}, P{1, 0x10, 0, -1}};
	u.zones = {P{0, 4, 0, -1}, P{1, 4, 6, -1}};
	u.max_pile = 2 * n + 2;
	u.max_mats = 2 * n + 2;
	u.max_cards = 10000;
	u.key_positions = true;
	return {u,
	        {{P{0, 1, 0, -1}, int(n)},
	         {P{1, 0x10, 0, -1}, int(n / 2 + 1)},
	         {P{0, 4, 0, -1}, 1},
	         {P{0, 4, 0, 0}, int(n)}}};
}
// Boards with few places in use: any set of piles, or one zone with a card,
// materials or both.
auto sparse(Chooser& c) -> std::vector<std::pair<P, int>>
{
	std::vector<std::pair<P, int>> r;
	if(c.pickb())
	{
		auto const set = c.pick(1024);
		for(uint32_t i = 0; i < 10; i++)
			if((set >> i & 1U) != 0)
				r.push_back({P{int(i / 5), PILES[i % 5], 0, -1}, 1 + int(i % 2)});
		return r;
	}
	auto p = zplace(0, 0);
	auto const z = c.pick(32), how = c.pick(4);
	p = zplace(int(z / 16), int(z % 16));
	if(how != 2)
		r.push_back({p, 1});
	p.oseq = 0;
	if(how != 0)
		r.push_back({p, how == 3 ? 3 : 1});
	return r;
}
auto sparse_universe() -> Universe
{
	auto u = everything();
	u.max_pile = 3;
	u.max_mats = 3;
	u.max_cards = 1000;
	u.kinds = (1U << Op::CLEAR) | (1U << Op::RESIZE);
	return u;
}
constexpr char const* SPARSE =
	"every set of piles with cards, or one zone with a card, materials or both; "
	"clears and resizes: ";
constexpr uint32_t LARGE[] = {16, 17, 60, 127, 128, 255, 256, 257, 300};

mc::Register r01(
	"C01",
	[](bool t)
	{
		std::vector<Space> s;
		unsigned const d = t ? 7 : 5;
		s.push_back({"closure_mixed",
	                 "all operation sequences, depth " + std::to_string(d) +
	                     " (up to renaming of cards), 2 piles <=3, 2 zones, <=2 "
	                     "materials, <=4 cards",
	                 [d](Chooser& c)
	                 { op_sequences<Plain>(c, small_universe(), d, true, {}); }});
		s.push_back({"closure_zones",
	                 "all operation sequences, depth " + std::to_string(d) +
	                     " (up to renaming), 1 pile, 3 zones, <=3 materials, <=4 cards",
	                 [d](Chooser& c)
	                 { op_sequences<Plain>(c, zones_universe(), d, true, {}); }});
		s.push_back({"closure_piles",
	                 "all operation sequences, depth " + std::to_string(d) +
	                     " (up to renaming), 4 piles <=4, <=5 cards",
	                 [d](Chooser& c)
	                 { op_sequences<Plain>(c, piles_universe(), d, true, {}); }});
		for(int par = 0; par < 4; par++)
			s.push_back({"every_place_" + std::to_string(par),
		                 "every single legal operation over all 10 piles and 32 zones "
		                 "of a populated board (arrangement " +
		                     std::to_string(par) + ")",
		                 [par](Chooser& c)
		                 {
							 auto u = everything();
							 u.max_pile = 6;
							 u.max_mats = 3;
							 op_sequences<Plain>(c, u, 1, false, full_board(par));
						 }});
		s.push_back({"every_place_history",
	                 "the same on the history-keeping frame",
	                 [](Chooser& c)
	                 {
						 auto u = everything();
						 u.max_pile = 6;
						 u.max_mats = 3;
						 op_sequences<Limbo>(c, u, 1, false, full_board(0));
					 }});
		for(bool history : {false, true})
			s.push_back({std::string("large_") + (history ? "history" : "plain"),
		                 "every single operation on piles and materials of 16 to 300 "
		                 "cards: their ends and middles, and positions and counts "
		                 "around powers of two",
		                 [t, history](Chooser& c)
		                 {
							 auto const n = LARGE[t ? c.pick(9) : 2 + 5 * c.pick(2)];
							 auto const [u, base] = large(n);
							 if(history)
								 op_sequences<Limbo>(c, u, 1, false, base);
							 else
								 op_sequences<Plain>(c, u, 1, false, base);
						 }});
		for(bool history : {false, true})
			s.push_back({std::string("sparse_") + (history ? "history" : "plain"),
		                 SPARSE + std::string(t ? "2" : "1"),
		                 [t, history](Chooser& c)
		                 {
							 auto const base = sparse(c);
							 unsigned const d = t ? 2 : 1;
							 if(history)
								 op_sequences<Limbo>(c, sparse_universe(), d, false, base);
							 else
								 op_sequences<Plain>(c, sparse_universe(), d, false, base);
						 }});
		unsigned const d2 = t ? 4 : 3;
		s.push_back({"sequences_history",
	                 "all operation sequences, depth " + std::to_string(d2) +
	                     ", history-keeping frame, small populated board, no state "
	                     "merging",
	                 [d2](Chooser& c)
	                 {
						 auto u = small_universe();
						 u.end_positions_only = true;
						 u.splice_counts = {1, 2};
						 u.max_cards = 5;
						 op_sequences<Limbo>(c, u, d2, false,
		                                     {{P{0, 2, 0, -1}, 2},
		                                      {P{0, 4, 0, -1}, 1},
		                                      {P{0, 4, 0, 0}, 1}});
					 }});
		if(t)
			s.push_back({"sequences_plain",
		                 "all operation sequences, depth 4, plain frame, small "
		                 "populated board, no state merging",
		                 [](Chooser& c)
		                 {
							 auto u = small_universe();
							 u.end_positions_only = true;
							 u.splice_counts = {1, 2};
							 u.max_cards = 5;
							 op_sequences<Plain>(c, u, 4, false,
			                                     {{P{0, 2, 0, -1}, 1},
			                                      {P{0, 4, 0, -1}, 1},
			                                      {P{0, 4, 0, 0}, 2}});
						 }});
		return s;
	});

// C02 -----------------------------------------------------------------------

// Where a card object currently lives, by its number.
template<typename F>
auto places_of(F& f) -> std::map<int, void const*>
{
	std::map<int, void const*> r;
	for(int c = 0; c < 2; c++)
	{
		for(int i = 0; i < 5; i++)
			for(auto* x : f.pile(Controller(c), Location(PILES[i])))
				r[x->id] = x;
		for(int z = 0; z < 16; z++)
		{
			auto const p = zplace(c, z);
			auto& zn = f.zone(Controller(c), Location(p.loc), p.seq);
			if(zn.card != nullptr)
				r[zn.card->id] = zn.card;
			for(auto* x : zn.materials)
				r[x->id] = x;
		}
	}
	return r;
}

auto expected_builds(Model const& before, Op const& o) -> int
{
	if(o.kind == Op::ADD)
		return 1;
	if(o.kind == Op::RESIZE && o.n > before.pile(o.a).size())
		return o.n - before.pile(o.a).size();
	return 0;
}

struct Life
{
	Stats& st;
	std::map<int, void const*> addr; // first seen address
	template<typename F>
	auto observe(Chooser& c, F& f, bool must_hold_all_live) -> std::map<int, void const*>
	{
		auto const now = places_of(f);
		size_t n = 0;
		auto const all = read(f).all();
		n = all.size();
		CHECK(c, n == now.size(), "a card is on the board twice");
		for(auto& [id, a] : now)
		{
			CHECK(c, id >= 0 && id < st.built,
			        "a card on the board was never built");
			CHECK(c, st.destroyed.count(id) == 0,
			        "a card on the board was destroyed");
			auto it = addr.emplace(id, a).first;
			CHECK(c, it->second == a, "card " + std::to_string(id) +
			                             " changed its address");
		}
		for(auto& [id, k] : st.destroyed)
			CHECK(c, k == 1, "card " + std::to_string(id) + " destroyed " +
			                    std::to_string(k) + " times");
		if(must_hold_all_live)
			for(int id = 0; id < st.built; id++)
				CHECK(c, (now.count(id) != 0) != (st.destroyed.count(id) != 0),
				        "card " + std::to_string(id) +
				            (now.count(id) != 0 ? " is on the board and destroyed"
				                                : " left the board but lives on"));
		return now;
	}
	auto end(Chooser& c) -> void
	{
		for(int id = 0; id < st.built; id++)
			CHECK(c, st.destroyed.count(id) != 0 && st.destroyed[id] == 1,
			        "card " + std::to_string(id) + " was destroyed " +
			            std::to_string(st.destroyed[id]) +
			            " times by the end of the frame");
	}
};

template<typename F>
auto add_base(F& f, std::vector<std::pair<P, int>> const& base) -> void
{
	Model m;
	int next = 0;
	populate(f, m, next, base);
}

auto plain_lives(Chooser& c, Universe const& u, unsigned depth, bool dedup,
                 std::vector<std::pair<P, int>> const& base) -> void
{
	Stats st;
	Life life{st, {}};
	{
		Plain f{Builder{&st}};
		add_base(f, base);
		life.observe(c, f, true);
		for(unsigned i = 0; i < depth; i++)
		{
			auto const before = read(f);
			if(dedup && !c.visit(before.canon_hash(), depth - i))
				return; // Left without the end check: done by another execution.
			static std::map<uint64_t, std::vector<Op>> firsts;
			std::vector<Op> mine;
			auto* ops = &mine;
			if(i == 0)
				ops = &firsts[mc::Hasher()
			                      .add(before.hash())
			                      .add(u.max_pile)
			                      .add(u.kinds)
			                      .h];
			if(ops->empty())
				*ops = enumerate(u, before);
			if(ops->empty())
				return;
			auto const o = (*ops)[c.pick(ops->size())];
			LOG(c, "%s", o.str().c_str());
			int const built = st.built;
			apply(f, o);
			c.step();
			if(!c.fresh())
			{
				for(auto& [id, a] : places_of(f))
					life.addr.emplace(id, a);
				continue;
			}
			CHECK(c, st.built - built == expected_builds(before, o),
			        "the operation built " + std::to_string(st.built - built) +
			            " cards");
			life.observe(c, f, true);
			c.outcome(read(f).hash());
		}
	}
	life.end(c);
	if(!dedup)
		c.state(mc::Hasher().add(st.built).add(st.destroyed.size()).h);
}

// One walk: `depth` operations (each step may be a new operation, an undo, a
// redo or a drop of the future), watching lives all along.
auto limbo_lives(Chooser& c, Universe const& u, unsigned depth,
                 std::vector<std::pair<P, int>> const& base, bool erase) -> void
{
	Stats st;
	Life life{st, {}};
	{
		Limbo f{Builder{&st}};
		add_base(f, base);
		std::vector<Op> hist;
		std::vector<Model> snaps{read(f)};
		size_t at = 0;
		life.observe(c, f, false);
		for(unsigned i = 0; i < depth; i++)
		{
			bool const live = at == hist.size();
			std::vector<Op> ops;
			if(live)
				ops = enumerate(u, read(f));
			uint32_t n = ops.size();
			bool const can_undo = at > 0;
			bool const can_redo = !live;
			bool const can_erase = erase && !live;
			uint32_t k = c.pick(n + can_undo + can_redo + can_erase);
			int const built = st.built;
			int builds = 0;
			std::string what;
			if(k < n)
			{
				what = ops[k].str();
				LOG(c, "%s", what.c_str());
				builds = expected_builds(read(f), ops[k]);
				apply(f, ops[k]);
				hist.push_back(ops[k]);
				at++;
				snaps.push_back(read(f));
			}
			else if(can_undo && k == n)
			{
				LOG(c, "undo %s", hist[at - 1].str().c_str());
				unapply(f, hist[--at]);
			}
			else if(can_redo && k == n + can_undo)
			{
				LOG(c, "redo %s", hist[at].str().c_str());
				apply(f, hist[at++]);
			}
			else
			{
				LOG(c, "erase_history");
				f.erase_history();
				hist.resize(at);
				snaps.resize(at + 1);
			}
			c.step();
			if(!c.fresh())
			{
				for(auto& [id, a] : places_of(f))
					life.addr.emplace(id, a);
				continue;
			}
			CHECK(c, st.built - built == builds, "the step built " +
			                                        std::to_string(st.built - built) +
			                                        " cards, expected " +
			                                        std::to_string(builds));
			life.observe(c, f, false);
			for(auto const& s : snaps)
				for(int id : s.all())
				{
					CHECK(c, st.destroyed.count(id) == 0,
					        "card " + std::to_string(id) +
					            " can be reached by walking the history but was "
					            "destroyed");
					CHECK(c, static_cast<Card const*>(life.addr.at(id))->id == id,
					        "card " + std::to_string(id) + " changed while in limbo");
				}
		}
		c.state(mc::Hasher().add(read(f).hash()).add(at).add(hist.size()).h);
	}
	life.end(c);
}

mc::Register r02(
	"C02",
	[](bool t)
	{
		std::vector<Space> s;
		unsigned const d = t ? 6 : 4;
		s.push_back({"plain_closure",
	                 "plain frame, all operation sequences, depth " +
	                     std::to_string(d) + " up to renaming",
	                 [d](Chooser& c)
	                 { plain_lives(c, small_universe(), d, true, {}); }});
		s.push_back({"plain_sequences",
	                 "plain frame, all operation sequences of length " +
	                     std::to_string(t ? 4 : 3) + " and then the frame's end",
	                 [t](Chooser& c)
	                 {
						 auto u = small_universe();
						 u.end_positions_only = true;
						 u.splice_counts = {1, 2};
						 u.max_cards = 5;
						 plain_lives(c, u, t ? 4 : 3, false,
		                             {{P{0, 2, 0, -1}, 2},
		                              {P{0, 4, 0, -1}, 1},
		                              {P{0, 4, 0, 0}, 2}});
					 }});
		s.push_back({"plain_every_place",
	                 "plain frame, every single operation over all piles and zones",
	                 [](Chooser& c)
	                 {
						 auto u = everything();
						 u.max_pile = 6;
						 u.max_mats = 3;
						 u.end_positions_only = true;
						 plain_lives(c, u, 1, false, full_board(0));
					 }});
		s.push_back({"plain_removal_order",
	                 "plain frame: every removal order of 6 cards over all kinds of "
	                 "places",
	                 [](Chooser& c)
	                 {
						 auto u = small_universe();
						 u.kinds = 1U << Op::REMOVE;
						 plain_lives(c, u, 6, false,
		                             {{P{0, 2, 0, -1}, 2},
		                              {P{0, 4, 0, -1}, 1},
		                              {P{0, 4, 0, 0}, 2},
		                              {P{1, 0x200, 1, -1}, 1}});
					 }});
		s.push_back({"plain_sparse", SPARSE + std::string("1, then the frame's end"),
	                 [](Chooser& c)
	                 { plain_lives(c, sparse_universe(), 1, false, sparse(c)); }});
		s.push_back({"plain_large",
	                 "plain frame, every single operation on piles and materials of "
	                 "60 or 256 cards (key positions and counts)",
	                 [](Chooser& c)
	                 {
						 auto [u, base] = large(LARGE[2 + 5 * c.pick(2)]);
						 u.splice_counts = {0};
						 u.kinds &= ~(1U << Op::SPLICE);
						 plain_lives(c, u, 1, false, base);
					 }});
		s.push_back({"history_large",
	                 "history-keeping frame, 2 additions, removals, resizes, clears, "
	                 "undos or redos on piles and materials of 60 or 256 cards",
	                 [t](Chooser& c)
	                 {
						 auto [u, base] = large(LARGE[2 + 5 * c.pick(2)]);
						 u.kinds = (1U << Op::ADD) | (1U << Op::REMOVE) |
			                       (1U << Op::RESIZE) | (1U << Op::CLEAR);
						 u.zones.resize(1);
						 if(!t)
							 u.piles.resize(1);
						 limbo_lives(c, u, 2, base, true);
					 }});
		s.push_back({"history_walks",
	                 "history-keeping frame: every walk of operations, undos and redos "
	                 "of length " +
	                     std::to_string(t ? 4 : 3),
	                 [t](Chooser& c)
	                 {
						 auto u = small_universe();
						 u.end_positions_only = true;
						 u.splice_counts = {1};
						 u.max_cards = 5;
						 limbo_lives(c, u, t ? 4 : 3,
		                             {{P{0, 2, 0, -1}, 1},
		                              {P{0, 4, 0, -1}, 1},
		                              {P{0, 4, 0, 0}, 1}},
		                             true);
					 }});
		s.push_back({"history_walks_deep",
	                 "history-keeping frame: every walk of additions, removals, "
	                 "resizes, clears, undos, redos and drops of length " +
	                     std::to_string(t ? 9 : 7),
	                 [t](Chooser& c)
	                 {
						 Universe u;
						 u.piles = {P{1, 0x20, 0, -1}};
						 u.max_pile = 2;
						 u.max_cards = 2;
						 u.end_positions_only = true;
						 u.kinds = (1U << Op::ADD) | (1U << Op::REMOVE) |
			                       (1U << Op::RESIZE) | (1U << Op::CLEAR);
						 limbo_lives(c, u, t ? 9 : 7, {}, true);
					 }});
		s.push_back({"history_every_place",
	                 "history-keeping frame: every operation on every place, then undo, "
	                 "redo",
	                 [](Chooser& c)
	                 {
						 auto u = everything();
						 u.max_pile = 6;
						 u.max_mats = 3;
						 u.end_positions_only = true;
						 u.splice_counts = {2};
						 u.kinds = ~unsigned((1U << Op::MOVE) | (1U << Op::SWAP));
						 Stats st;
						 Life life{st, {}};
						 {
							 Limbo f{Builder{&st}};
							 add_base(f, full_board(1));
							 auto const m = read(f);
							 life.observe(c, f, false);
							 auto const ops = enumerate(u, m);
							 auto const& o = ops[c.pick(ops.size())];
							 LOG(c, "%s", o.str().c_str());
							 int b = st.built;
							 apply(f, o);
							 CHECK(c, st.built - b == expected_builds(m, o),
				                     "wrong number of cards built");
							 life.observe(c, f, false);
							 b = st.built;
							 unapply(f, o);
							 life.observe(c, f, false);
							 apply(f, o);
							 life.observe(c, f, false);
							 unapply(f, o);
							 life.observe(c, f, false);
							 CHECK(c, st.built == b, "undo or redo built cards");
							 CHECK(c, st.destroyed.empty(),
				                     "a card in limbo was destroyed");
							 c.step(4);
							 c.state(mc::Hasher().add(o.str()).h);
						 }
						 life.end(c);
					 }});
		return s;
	});

// C03 -----------------------------------------------------------------------

template<typename F>
auto shuffles(Chooser& c, uint32_t loc, uint32_t lim, uint32_t max_n,
              bool any_previous_order, int rounds, std::vector<int> mats_of) -> void
{
	Stats st;
	F f{Builder{&st}};
	int const con = c.pick(2);
	// A board where every zone of both sides is taken, with distinct stacks,
	// except for those not taking part, of which every other one is empty.
	uint32_t const n = 1 + c.pick(std::min(max_n, lim));
	std::vector<uint32_t> seqs;
	{ // A combination.
		uint32_t from = 0;
		for(uint32_t i = 0; i < n; i++)
		{
			uint32_t const room = lim - (n - i) - from + 1;
			from += c.pick(room);
			seqs.push_back(from++);
		}
	}
	Model m;
	int next = 0;
	{
		std::vector<std::pair<P, int>> base;
		for(int k = 0; k < 2; k++)
			for(int z = 0; z < 16; z++)
			{
				auto p = zplace(k, z);
				bool const in =
					k == con && p.loc == loc &&
					std::find(seqs.begin(), seqs.end(), p.seq) != seqs.end();
				if(!in && z % 2 == 0)
					continue;
				base.emplace_back(p, 1);
				p.oseq = 0;
				base.emplace_back(p, mats_of[(z + k) % mats_of.size()]);
			}
		base.emplace_back(P{0, 2, 0, -1}, 2);
		populate(f, m, next, base);
	}
	for(int round = 0; round < rounds; round++)
	{
		std::vector<uint32_t> prev = seqs;
		if(any_previous_order)
			for(uint32_t i = 0; i + 1 < n; i++)
				std::swap(prev[i], prev[i + c.pick(n - i)]);
		std::vector<int> target(n, -1);
		std::vector<uint32_t> left = seqs;
		std::string s = "shuffle P" + std::to_string(con) + " loc " +
		                std::to_string(loc) + ":";
		for(uint32_t i = 0; i < n; i++)
		{
			uint32_t const k = c.pick(left.size() + 1);
			s += " " + std::to_string(prev[i]) + "->";
			if(k < left.size())
			{
				target[i] = left[k];
				left.erase(left.begin() + k);
				s += std::to_string(target[i]);
			}
			else
				s += "?";
		}
		LOG(c, "%s", s.c_str());
		auto const before = read(f);
		std::vector<Place> a, b;
		for(uint32_t i = 0; i < n; i++)
		{
			a.push_back(pb(P{con, loc, prev[i], -1}));
			// An unspecified place is one without location.
			b.push_back(target[i] < 0 ? Place()
			                          : pb(P{con, loc, uint32_t(target[i]), -1}));
		}
		f.card_shuffle(a.cbegin(), b.cbegin(), n);
		c.step();
		auto const after = read(f);
		auto fail = [&](std::string const& w)
		{
			c.violation(s + ": " + w + "; before " + before.str() + "; after " +
			            after.str());
		};
		// Outside of the listed zones nothing changes.
		Model x = before, y = after;
		for(auto q : seqs)
		{
			x.zone(P{con, loc, q, -1}) = {};
			y.zone(P{con, loc, q, -1}) = {};
		}
		if(!(x == y))
			fail("something outside of the listed zones changed");
		for(uint32_t i = 0; i < n; i++)
			if(target[i] >= 0 && !(after.zone(P{con, loc, uint32_t(target[i]), -1}) ==
			                       before.zone(P{con, loc, prev[i], -1})))
				fail("the card of zone " + std::to_string(prev[i]) +
				     " is not at zone " + std::to_string(target[i]));
		// The unnamed stacks fill the remaining zones, intact.
		for(uint32_t i = 0; i < n; i++)
		{
			if(target[i] >= 0)
				continue;
			int found = 0;
			for(auto q : left)
				found += after.zone(P{con, loc, q, -1}) ==
				                 before.zone(P{con, loc, prev[i], -1})
				             ? 1
				             : 0;
			if(found != 1)
				fail("the stack of zone " + std::to_string(prev[i]) +
				     " is not intact in the remaining zones");
		}
		c.state(mc::Hasher().add(s).h);
		c.outcome(after.hash());
	}
}

mc::Register r03(
	"C03",
	[](bool t)
	{
		std::vector<Space> s;
		auto add = [&](std::string name, uint32_t loc, uint32_t lim, uint32_t n,
	                   bool order, int rounds)
		{
			s.push_back({name,
		                 "every set of <=" + std::to_string(n) +
		                     " zones of the location on either side, " +
		                     (order ? "listed in every order, " : "") +
		                     "every assignment with any entries unspecified, " +
		                     std::to_string(rounds) + " in a row",
		                 [=](Chooser& c)
		                 { shuffles<Plain>(c, loc, lim, n, order, rounds, {2, 0, 1}); }});
		};
		add("monster_orders", 4, 7, t ? 4 : 3, true, 1);
		add("monster_5", 4, 7, t ? 7 : 5, false, 1);
		add("spell_orders", 8, 5, t ? 5 : 4, true, 1);
		add("spell_5", 8, 5, 5, false, 1);
		add("pendulum_twice", 0x200, 2, 2, true, 2);
		add("monster_twice", 4, 7, t ? 4 : 3, false, 2);
		s.push_back({"history_keeping_frame", "<=3 zones on the history-keeping frame",
	                 [](Chooser& c)
	                 { shuffles<Limbo>(c, 8, 5, 3, true, 1, {0, 2}); }});
		return s;
	});

} // namespace

int main(int argc, char** argv)
{
	return mc::main_(argc, argv);
}
