// C04 (undo/redo of board operations), C05 (dropping the future), C06 (undoable
// values). What is legal and what the board must return to is taken from the real
// board itself, so that these only judge the history.
#include <deque>
#include <list>
#include <ygopen/client/undoable.hpp>

#include "board_model.hpp"

using namespace bm;
using mc::Chooser;
using mc::Space;

namespace
{

// A complete picture of the board: which card object is where.
auto picture(Limbo& f) -> std::vector<void const*>
{
	return addresses(f);
}

struct Walker
{
	Chooser& c;
	Limbo& f;
	std::vector<Op> hist;
	std::vector<std::vector<void const*>> pics;
	size_t at = 0;
	std::string doing;

	Walker(Chooser& ch, Limbo& fr) : c(ch), f(fr) { pics.push_back(picture(f)); }
	auto fail(std::string const& w) -> void
	{
		std::string s = w + "; history:";
		for(size_t i = 0; i < hist.size(); i++)
			s += (i == at ? " | " : " ") + hist[i].str() + ";";
		s += " at " + std::to_string(at) + "; board: " + read(f).str();
		c.violation(s);
	}
	auto look() -> void
	{
		if(picture(f) != pics[at])
			fail(doing + " did not bring back the board of point " +
			     std::to_string(at));
	}
	auto make(Op const& o) -> void
	{
		LOG(c, "%s", o.str().c_str());
		apply(f, o);
		c.step();
		hist.push_back(o);
		at++;
		pics.push_back(picture(f));
	}
	auto back(bool check) -> void
	{
		auto const& o = hist[at - 1];
		LOG(c, "undo %s", o.str().c_str());
		unapply(f, o);
		c.step();
		at--;
		doing = "undo";
		if(check)
			look();
	}
	auto forth(bool check) -> void
	{
		auto const& o = hist[at];
		LOG(c, "redo %s", o.str().c_str());
		apply(f, o);
		c.step();
		at++;
		doing = "redo";
		if(check)
			look();
	}
	auto erase() -> void
	{
		LOG(c, "erase_history");
		f.erase_history();
		c.step();
		hist.resize(at);
		pics.resize(at + 1);
		doing = "erase_history";
		look();
	}
	auto go(size_t to) -> void
	{
		while(at > to)
			back(true);
		while(at < to)
			forth(true);
	}
};

auto base_board(Limbo& f, std::vector<std::pair<P, int>> const& base) -> void
{
	Model m;
	int next = 0;
	for(auto& [p0, n] : base)
		for(int i = 0; i < n; i++)
		{
			P p = p0;
			if(is_pile_loc(p.loc))
				p.seq = m.pile(p).size();
			else if(p.oseq >= 0)
				p.oseq = m.zone(p).mats.size();
			Op const o{Op::ADD, p, {}, 0, false};
			apply(f, o);
			apply_model(m, o, next);
		}
}

auto ops_now(Limbo& f, Universe const& u, int level) -> std::vector<Op>
{
	auto const m = read(f);
	if(level != 0)
		return enumerate(u, m);
	static std::map<uint64_t, std::vector<Op>> firsts;
	auto& v = firsts[mc::Hasher()
	                     .add(m.hash())
	                     .add(u.kinds)
	                     .add(u.max_pile)
	                     .add(u.end_positions_only)
	                     .h];
	if(v.empty())
		v = enumerate(u, m);
	return v;
}

// `len` operations, then a walk that goes from every point of the history to
// every other one.
auto all_walks(Chooser& c, Universe const& u, unsigned len,
               std::vector<std::pair<P, int>> const& base) -> void
{
	Stats st;
	Limbo f{Builder{&st}};
	base_board(f, base);
	Walker w(c, f);
	for(unsigned i = 0; i < len; i++)
	{
		auto const ops = ops_now(f, u, i);
		w.make(ops[c.pick(ops.size())]);
	}
	auto const end = read(f);
	c.state(mc::Hasher().add(end.hash()).add(st.built).h);
	c.outcome(end.canon_hash());
	for(size_t p = 0; p < len; p++)
		for(size_t q = 0; q <= len; q++)
		{
			w.go(p);
			w.go(q);
		}
	w.go(len);
	w.go(0);
}

// Any walk of new operations (at the live end), undos, redos and drops of the
// future, finally back to the beginning and forth to the end.
auto walks_with_erase(Chooser& c, Universe const& u, unsigned len,
                      std::vector<std::pair<P, int>> const& base, bool erase) -> void
{
	Stats st;
	Limbo f{Builder{&st}};
	base_board(f, base);
	Walker w(c, f);
	bool just_erased = false;
	for(unsigned i = 0; i < len; i++)
	{
		bool const live = w.at == w.hist.size();
		std::vector<Op> ops;
		if(live)
			ops = ops_now(f, u, i);
		bool const can_undo = w.at > 0, can_redo = !live;
		bool const can_erase = erase && !just_erased;
		if(ops.size() + can_undo + can_redo + can_erase == 0)
			break;
		uint32_t const k = c.pick(ops.size() + can_undo + can_redo + can_erase);
		just_erased = false;
		if(k < ops.size())
			w.make(ops[k]);
		else if(can_undo && k == ops.size())
			w.back(c.fresh());
		else if(can_redo && k == ops.size() + can_undo)
			w.forth(c.fresh());
		else
		{
			w.erase();
			just_erased = true;
		}
	}
	mc::Hasher h;
	h.add(read(f).hash()).add(w.at).add(w.hist.size());
	c.state(h.h);
	// At the live end, dropping the future changes nothing at all.
	if(erase && w.at == w.hist.size())
		w.erase();
	size_t const here = w.at;
	w.go(0);
	w.go(w.hist.size());
	w.go(0);
	w.go(here);
	c.outcome(mc::Hasher().add(st.built).add(w.hist.size()).add(here).h);
}

auto everything(unsigned kinds) -> Universe
{
	Universe u;
	for(int c = 0; c < 2; c++)
	{
		for(auto l : PILES)
			u.piles.push_back(P{c, l, 0, -1});
		for(int z = 0; z < 16; z++)
			u.zones.push_back(zplace(c, z));
	}
	u.max_cards = 1000;
	u.max_pile = 6;
	u.max_mats = 3;
	u.kinds = kinds;
	return u;
}

auto full_board(int parity) -> std::vector<std::pair<P, int>>
{
	std::vector<std::pair<P, int>> v;
	int k = parity;
	for(int c = 0; c < 2; c++)
	{
		for(int i = 0; i < 5; i++)
			v.emplace_back(P{c, PILES[i], 0, -1}, 2 + ((i + c + parity) % 3));
		for(int z = 0; z < 16; z++, k++)
		{
			auto p = zplace(c, z);
			if(k % 2 == 0)
				v.emplace_back(p, 1);
			p.oseq = 0;
			if(k % 4 == 0)
				v.emplace_back(p, 1 + (k / 4) % 2);
			else if(k % 8 == 3)
				v.emplace_back(p, 2);
		}
	}
	return v;
}

auto small(unsigned kinds) -> Universe
{
	Universe u;
	u.piles = {P{0, 2, 0, -1}, P{1, 0x10, 0, -1}};
	u.zones = {P{0, 4, 0, -1}, P{1, 0x200, 1, -1}};
	u.max_pile = 3;
	u.max_mats = 2;
	u.max_cards = 6;
	u.end_positions_only = true;
	u.splice_counts = {1, 2};
	u.kinds = kinds;
	return u;
}

auto tiny(unsigned kinds, size_t max_pile) -> Universe
{
	Universe u;
	u.piles = {P{1, 0x20, 0, -1}};
	u.zones = {P{0, 8, 4, -1}};
	u.max_pile = max_pile;
	u.max_mats = 1;
	u.max_cards = 4;
	u.end_positions_only = true;
	u.splice_counts = {1, 2};
	u.kinds = kinds;
	return u;
}

constexpr unsigned K_ALL = 0xFF;
constexpr unsigned K_HIST = (1U << Op::ADD) | (1U << Op::REMOVE) |
                            (1U << Op::RESIZE) | (1U << Op::CLEAR);

auto small_base() -> std::vector<std::pair<P, int>>
{
	return {{P{0, 2, 0, -1}, 2},
	        {P{0, 4, 0, -1}, 1},
	        {P{0, 4, 0, 0}, 1},
	        {P{1, 0x10, 0, -1}, 1}};
}

// Long histories: a pattern of operations again and again. Which operation it is
// each time depends on the board.
constexpr uint32_t N_STEPS = 10;
auto long_step(Limbo& f, uint32_t k) -> Op
{
	auto const m = read(f);
	P pile{1, 0x20, 0, -1}, zone{0, 4, 2, -1};
	auto const n = uint32_t(m.pile(pile).size());
	auto const mats = int(m.zone(zone).mats.size());
	auto at = [&](uint32_t s) { return P{1, 0x20, s, -1}; };
	auto mat = [&](int o) { return P{0, 4, 2, o}; };
	Op const grow{Op::RESIZE, pile, {}, n + 3, false};
	switch(k)
	{
	case 0: return Op{Op::ADD, at(n), {}, 0, false};
	case 1: return Op{Op::ADD, at(0), {}, 0, false};
	case 2: return n > 0 ? Op{Op::REMOVE, at(0), {}, 0, false} : grow;
	case 3: return n > 0 ? Op{Op::REMOVE, at(n - 1), {}, 0, false} : grow;
	case 4: return grow;
	case 5: return Op{Op::RESIZE, pile, {}, n / 2, false};
	case 6: return Op{Op::CLEAR, {}, {}, 0, false};
	case 7: return Op{Op::ADD, mat(mats), {}, 0, false};
	case 8:
		return mats > 0 ? Op{Op::REMOVE, mat(mats / 2), {}, 0, false}
		                : Op{Op::ADD, mat(0), {}, 0, false};
	default:
		return n > 0 ? Op{Op::MOVE, at(n - 1), mat(0), 0, false}
		       : mats > 0 ? Op{Op::MOVE, mat(0), at(0), 0, false}
		                  : grow;
	}
}
auto long_pattern(Chooser& c, uint32_t max) -> std::vector<uint32_t>
{
	std::vector<uint32_t> v;
	for(auto n = 1 + c.pick(max); n > 0; n--)
		v.push_back(c.pick(N_STEPS));
	return v;
}
auto long_walk(Chooser& c, uint32_t max, bool drop) -> void
{
	auto const pat = long_pattern(c, max);
	static constexpr uint32_t LEN[] = {9, 16, 17, 33, 64, 65, 100, 129, 257};
	auto const len = LEN[drop ? 1 + 3 * c.pick(3) : 8];
	Stats st;
	Limbo f{Builder{&st}};
	Walker w(c, f);
	for(uint32_t i = 0; i < len; i++)
		w.make(long_step(f, pat[i % pat.size()]));
	if(drop)
	{ // Dropped at a point; then another pattern from there.
		auto const keys = key_numbers(len);
		w.go(keys[c.pick(keys.size())]);
		w.erase();
		auto const k = c.pick(N_STEPS);
		for(uint32_t i = 0; i < len; i++)
			w.make(long_step(f, i % 3 != 0 ? k : pat[0]));
	}
	auto const end = w.hist.size();
	w.go(0);
	w.go(end);
	w.go(end / 2);
	w.go(end / 2 + 3);
	w.go(0);
	w.go(end);
	c.state(mc::Hasher().add(read(f).hash()).add(st.built).h);
	c.outcome(mc::Hasher().add(read(f).canon_hash()).add(st.built).h);
}

// Boards with few places in use, cleared, filled again and cleared.
auto sparse(Chooser& c, bool drop) -> void
{
	Stats st;
	Limbo f{Builder{&st}};
	Walker w(c, f);
	bool const zones = c.pickb();
	auto const which = zones ? c.pick(32) : c.pick(1024);
	auto const how = zones ? c.pick(4) : 0;
	auto const again = zones || drop ? c.pick(3) : c.pick(13);
	auto put_pile = [&](uint32_t i, uint32_t n)
	{
		w.make(Op{Op::RESIZE, P{int(i / 5), PILES[i % 5], 0, -1}, {}, n, false});
	};
	auto put_zone = [&](uint32_t i)
	{
		auto p = zplace(int(i / 16), int(i % 16));
		if(how != 2)
			w.make(Op{Op::ADD, p, {}, 0, false});
		p.oseq = 0;
		if(how != 0)
			w.make(Op{Op::ADD, p, {}, 0, false});
		if(how == 3)
			w.make(Op{Op::ADD, p, {}, 0, false});
	};
	auto fill = [&](uint32_t set, uint32_t more)
	{
		for(uint32_t i = 0; i < 10; i++)
			if((set >> i & 1U) != 0)
				put_pile(i, 1 + (i + more) % 3);
	};
	Op const clear{Op::CLEAR, {}, {}, 0, false};
	if(zones)
		put_zone(which);
	else
		fill(which, 0);
	w.make(clear);
	if(zones)
	{
		if(again > 0)
			put_zone((which + again - 1) % 32);
	}
	else if(again > 0)
		fill(again == 1   ? which
		     : again == 2 ? ~which
		                  : 1U << (again - 3),
		     1);
	w.make(clear);
	auto const end = w.hist.size();
	w.go(0);
	w.go(end);
	if(drop)
	{
		w.go(c.pick(uint32_t(end) + 1));
		w.erase();
		put_pile(7, 2);
		w.make(clear);
	}
	w.go(0);
	w.go(w.hist.size());
	w.go(w.hist.size() / 2);
	w.go(w.hist.size());
	c.outcome(mc::Hasher().add(st.built).add(w.hist.size()).h);
}

mc::Register r04(
	"C04",
	[](bool t)
	{
		std::vector<Space> s;
		for(int par = 0; par < 2; par++)
			s.push_back({"every_operation_" + std::to_string(par),
		                 "every single operation over all piles and zones of a "
		                 "populated board, undone and redone repeatedly",
		                 [par](Chooser& c)
		                 { all_walks(c, everything(K_ALL), 1, full_board(par)); }});
		s.push_back({"every_history_pair",
	                 "every pair of history operations (a fifth of the board), all walks",
	                 [](Chooser& c)
	                 {
						 auto u = everything(K_HIST);
						 u.end_positions_only = true;
						 u.piles = {P{0, 1, 0, -1}, P{1, 0x40, 0, -1}};
						 u.zones = {zplace(0, 0), zplace(1, 6), zplace(0, 11),
				                    zplace(1, 12), zplace(0, 14), zplace(1, 15)};
						 all_walks(c, u, 2, full_board(0));
					 }});
		s.push_back({"sequences",
	                 "every sequence of " + std::to_string(t ? 4 : 3) +
	                     " operations of all kinds, walked between every two points",
	                 [t](Chooser& c)
	                 {
						 auto u = small(K_ALL);
						 u.splice_counts = {2};
						 if(!t)
						 {
							 u.max_cards = 4;
							 u.max_mats = 1;
						 }
						 all_walks(c, u, t ? 4 : 3,
		                           t ? std::vector<std::pair<P, int>>{{P{0, 2, 0, -1}, 2},
		                                                              {P{0, 4, 0, -1}, 1},
		                                                              {P{0, 4, 0, 0}, 1}}
		                             : std::vector<std::pair<P, int>>{{P{0, 2, 0, -1}, 2},
		                                                              {P{0, 4, 0, -1}, 1},
		                                                              {P{0, 4, 0, 0}, 1}});
					 }});
		s.push_back({"long",
	                 "every pattern of up to " + std::to_string(t ? 4 : 3) +
	                     " operations of 10 kinds repeated to 257 operations, undone "
	                     "and redone all the way and from the middle",
	                 [t](Chooser& c) { long_walk(c, t ? 4 : 3, false); }});
		s.push_back({"large",
	                 "every single operation on piles and materials of 60 or 256 "
	                 "cards: their ends and middles, positions and counts around "
	                 "powers of two; undone and redone",
	                 [](Chooser& c)
	                 {
						 int const n = c.pickb() ? 256 : 60;
						 Universe u;
						 u.piles = {P{0, 1, 0, -1}, P{1, 0x10, 0, -1}};
						 u.zones = {P{0, 4, 0, -1}};
						 u.max_pile = u.max_mats = 2 * n + 2;
						 u.max_cards = 10000;
						 u.key_positions = true;
						 u.kinds = K_ALL & ~(1U << Op::SPLICE) & ~(1U << Op::SWAP);
						 all_walks(c, u, 1,
			                       {{P{0, 1, 0, -1}, n},
			                        {P{1, 0x10, 0, -1}, n / 2 + 1},
			                        {P{0, 4, 0, -1}, 1},
			                        {P{0, 4, 0, 0}, n}});
					 }});
		s.push_back({"sparse",
	                 "every set of piles with cards, or one zone with a card, "
	                 "materials or both, cleared, filled in 13 ways or 3 ways, cleared; undone and redone",
	                 [](Chooser& c) { sparse(c, false); }});
		s.push_back({"history_sequences",
	                 "every sequence of " + std::to_string(t ? 6 : 5) +
	                     " additions, removals, resizes and clears, walked between "
	                     "every two points",
	                 [t](Chooser& c)
	                 { all_walks(c, tiny(K_HIST, 3), t ? 6 : 5, {}); }});
		s.push_back({"any_walk",
	                 "every walk of " + std::to_string(t ? 8 : 6) +
	                     " steps, each a new operation, an undo or a redo",
	                 [t](Chooser& c)
	                 {
						 auto u = tiny(K_HIST, 2);
						 if(!t)
							 u.zones.clear();
						 walks_with_erase(c, u, t ? 8 : 6, {{P{1, 0x20, 0, -1}, 1}},
		                                  false);
					 }});
		return s;
	});

mc::Register r05(
	"C05",
	[](bool t)
	{
		std::vector<Space> s;
		s.push_back({"any_walk",
	                 "every walk of " + std::to_string(t ? 8 : 6) +
	                     " steps, each a new operation (add, remove, resize, clear), an "
	                     "undo, a redo or a drop of the future",
	                 [t](Chooser& c)
	                 {
						 auto u = tiny(K_HIST, 2);
						 if(!t)
							 u.zones.clear();
						 walks_with_erase(c, u, t ? 8 : 6, {{P{1, 0x20, 0, -1}, 1}},
		                                  true);
					 }});
		s.push_back({"any_walk_from_nothing",
	                 "the same on a board that starts without any operation, so that "
	                 "the future is also dropped with nothing left behind it",
	                 [t](Chooser& c)
	                 {
						 auto u = tiny(K_HIST, 2);
						 if(!t)
							 u.zones.clear();
						 walks_with_erase(c, u, t ? 8 : 6, {}, true);
					 }});
		s.push_back({"long",
	                 "every pattern of up to " + std::to_string(t ? 3 : 2) +
	                     " operations of 10 kinds repeated to 16, 64 or 129, the "
	                     "future dropped at a point around a power of two, another "
	                     "pattern from there, all walked back and forth",
	                 [t](Chooser& c) { long_walk(c, t ? 3 : 2, true); }});
		s.push_back({"any_walk_all_kinds",
	                 "every walk of " + std::to_string(t ? 6 : 5) +
	                     " steps with all kinds of operations",
	                 [t](Chooser& c)
	                 {
						 auto u = tiny(K_ALL, 2);
						 u.splice_counts = {2};
						 u.max_cards = 2;
						 walks_with_erase(c, u, t ? 6 : 5,
		                                  {{P{1, 0x20, 0, -1}, 1},
		                                   {P{0, 8, 4, -1}, 1}},
		                                  true);
					 }});
		s.push_back({"sparse",
	                 "every set of piles with cards, or one zone with a card, "
	                 "materials or both, cleared, filled in 3 ways, cleared; undone to any point, the future dropped, another clear, undone and redone",
	                 [](Chooser& c) { sparse(c, true); }});
		s.push_back({"alternatives",
	                 "any operation, undo, drop, any other operation, on a larger board",
	                 [t](Chooser& c)
	                 {
						 auto u = small(K_ALL);
						 Stats st;
						 Limbo f{Builder{&st}};
						 base_board(f, small_base());
						 Walker w(c, f);
						 if(!t)
						 {
							 u.max_cards = 5;
							 u.splice_counts = {2};
						 }
						 unsigned const n = t ? 1 + c.pick(2) : 1;
						 for(unsigned i = 0; i < n; i++)
						 {
							 auto const ops = ops_now(f, u, i);
							 w.make(ops[c.pick(ops.size())]);
						 }
						 unsigned const k = 1 + c.pick(n);
						 for(unsigned i = 0; i < k; i++)
							 w.back(true);
						 w.erase();
						 auto const ops = ops_now(f, u, 9);
						 w.make(ops[c.pick(ops.size())]);
						 w.go(0);
						 w.go(w.hist.size());
						 if(c.pick(2) != 0)
						 {
							 w.go(0);
							 w.erase();
							 auto const ops2 = ops_now(f, u, 9);
							 w.make(ops2[c.pick(t ? ops2.size() : 1)]);
							 w.go(0);
							 w.go(w.hist.size());
						 }
						 c.state(mc::Hasher().add(read(f).hash()).add(st.built).h);
					 }});
		return s;
	});

// C06 -----------------------------------------------------------------------

using YGOpen::Client::BasicUndoable;

template<typename U, typename T, typename Show>
auto timeline(Chooser& c, unsigned len, std::vector<T> const& values, bool by_assign,
              Show show) -> void
{
	U u;
	std::vector<T> line{T{}};
	size_t at = 0;
	std::string s;
	auto look = [&]()
	{
		T const& conv = u;
		if(!(conv == line[at]))
			c.violation(s + ": shows " + show(conv) + ", recorded is " + show(line[at]));
		if(!(u == line[at]))
			c.violation(s + ": comparing with the shown value fails");
		for(auto const& v : values)
			if((u == v) != (line[at] == v))
				c.violation(s + ": comparison with " + show(v) + " is wrong");
	};
	look();
	for(unsigned i = 0; i < len; i++)
	{
		uint32_t const k = c.pick(values.size() + (at > 0 ? 1 : 0));
		if(k < values.size())
		{
			s += " set " + show(values[k]);
			if constexpr(std::is_same_v<T, std::vector<int>>)
			{
				if(by_assign)
					u.assign(values[k].begin(), values[k].end());
				else
					u = values[k];
			}
			else
				u = values[k];
			if(at + 1 == line.size())
				line.push_back(values[k]);
			at++;
		}
		else
		{
			s += " undo";
			u.undo();
			at--;
		}
		c.step();
		if(c.fresh())
			look();
	}
	LOG(c, "%s", s.c_str());
	mc::Hasher h;
	h.add(at);
	for(auto& v : line)
		h.add(show(v));
	c.state(h.h);
	c.outcome(mc::Hasher().add(show(line[at])).h);
}

auto sint(int64_t x) -> std::string { return std::to_string(x); }
auto svec(std::vector<int> const& x) -> std::string
{
	std::string s = "(";
	for(auto v : x)
		s += std::to_string(v) + " ";
	return s + ")";
}
auto sstr(std::string const& x) -> std::string { return "'" + x + "'"; }

// Long timelines: n different values, undone to a point, then forward again with
// other values up to the end and beyond.
template<typename U, typename T, typename Make>
auto long_timeline(Chooser& c, Make make) -> void
{
	auto const n = c.pick(301), back = c.pick(n + 1);
	U u;
	auto look = [&](uint32_t i, char const* when)
	{
		T const& conv = u;
		if(!(conv == make(i)) || !(u == make(i)))
			c.violation("of " + std::to_string(n) + " values, " + when + ", value " +
			            std::to_string(i) + " is not shown");
	};
	for(uint32_t i = 1; i <= n; i++)
	{
		u = make(i);
		if(c.fresh())
			look(i, "when set");
	}
	for(uint32_t i = n; i > n - back; i--)
	{
		u.undo();
		look(i - 1, "after undos");
	}
	for(uint32_t i = n - back + 1; i <= n; i++)
	{
		u = make(1000 + i);
		look(i, "after going forward");
	}
	u = make(n + 1);
	look(n + 1, "after one more");
	for(uint32_t i = n + 1; i > 0; i--)
	{
		u.undo();
		look(i - 1, "after undoing all");
	}
	c.step();
	c.outcome(n * 301 + back);
}

mc::Register r06(
	"C06",
	[](bool t)
	{
		std::vector<Space> s;
		unsigned const d = t ? 11 : 9;
		s.push_back({"int",
	                 "every sequence of " + std::to_string(d) +
	                     " assignments (3 values, one of them the default) and undos",
	                 [d](Chooser& c)
	                 { timeline<BasicUndoable<int>, int>(c, d, {0, 7, -1}, false, sint); }});
		s.push_back({"long",
	                 "0 to 300 values, undone to every point, forward again and all "
	                 "undone",
	                 [](Chooser& c)
	                 {
						 long_timeline<BasicUndoable<uint32_t>, uint32_t>(
							 c, [](uint32_t i) { return i * 7; });
					 }});
		s.push_back({"long_lists",
	                 "the same with lists",
	                 [](Chooser& c)
	                 {
						 using V = std::vector<int>;
						 long_timeline<BasicUndoable<V>, V>(
							 c, [](uint32_t i) { return V(i % 5, int(i)); });
					 }});
		s.push_back({"uint32",
	                 "the same on unsigned values at the ends of their range",
	                 [d](Chooser& c)
	                 {
						 timeline<BasicUndoable<uint32_t>, uint32_t>(
							 c, d - 1, {0U, 1U, 0xFFFFFFFFU}, false, sint);
					 }});
		s.push_back({"list_assign",
	                 "the same on lists set by assign()",
	                 [d](Chooser& c)
	                 {
						 timeline<BasicUndoable<std::vector<int>>, std::vector<int>>(
							 c, d - 1, {{}, {1}, {1, 2}}, true, svec);
					 }});
		s.push_back({"list_set",
	                 "the same on lists set by =",
	                 [d](Chooser& c)
	                 {
						 timeline<BasicUndoable<std::vector<int>>, std::vector<int>>(
							 c, d - 1, {{}, {2, 1}, {3}}, false, svec);
					 }});
		s.push_back({"string",
	                 "the same on strings, kept in a deque-less list container",
	                 [d](Chooser& c)
	                 {
						 timeline<BasicUndoable<std::string, std::list<std::string>>,
				                  std::string>(c, d - 2, {"", "a", "ab"}, false, sstr);
					 }});
		return s;
	});

} // namespace

int main(int argc, char** argv)
{
	return mc::main_(argc, argv);
}
