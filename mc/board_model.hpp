// Reference model of a duel field and instrumented cards, shared by the frame,
// history and event harnesses. Deliberately plain: vectors of card numbers.
#ifndef MC_BOARD_MODEL_HPP
#define MC_BOARD_MODEL_HPP
#include <algorithm>
#include <map>
#include <memory>
#include <string>
#include <vector>
#include <ygopen/client/frame.hpp>
#include <ygopen/client/frame_limbo.hpp>

#include "explorer.hpp"

namespace bm
{

using Place = YGOpen::Proto::Duel::Place;
using YGOpen::Duel::Controller;
using YGOpen::Duel::Location;

struct P
{
	int con = 0;
	uint32_t loc = 0;
	uint32_t seq = 0;
	int oseq = -1;
	auto operator==(P const& o) const -> bool
	{
		return con == o.con && loc == o.loc && seq == o.seq && oseq == o.oseq;
	}
};

inline auto pb(P const& p) -> Place
{
	Place r;
	r.set_con(p.con);
	r.set_loc(p.loc);
	r.set_seq(p.seq);
	r.set_oseq(p.oseq);
	return r;
}

inline auto un(Place const& p) -> P
{
	return P{p.con(), p.loc(), p.seq(), p.oseq()};
}

inline auto str(P const& p) -> std::string
{
	char const* n = "?";
	switch(p.loc)
	{
	case 0: n = "NONE"; break;
	case 1: n = "DECK"; break;
	case 2: n = "HAND"; break;
	case 4: n = "MZ"; break;
	case 8: n = "SZ"; break;
	case 0x10: n = "GRAVE"; break;
	case 0x20: n = "BANISHED"; break;
	case 0x40: n = "EXTRA"; break;
	case 0x100: n = "FZ"; break;
	case 0x200: n = "PZ"; break;
	case 0x400: n = "SKILL"; break;
	}
	std::string s = "P" + std::to_string(p.con) + "." + n;
	if(std::string(n) == "?")
		s += std::to_string(p.loc);
	s += "[" + std::to_string(p.seq) + "]";
	if(p.oseq >= 0)
		s += ".mat" + std::to_string(p.oseq);
	else if(p.oseq != -1)
		s += ".oseq" + std::to_string(p.oseq);
	return s;
}

constexpr uint32_t PILES[5] = {1, 2, 0x10, 0x20, 0x40};
constexpr uint32_t ZLOCS[5] = {4, 8, 0x100, 0x200, 0x400};
constexpr uint32_t ZLIM[5] = {7, 5, 1, 2, 1};
constexpr int ZOFF[5] = {0, 7, 12, 13, 15};

inline auto is_pile_loc(uint32_t l) -> bool
{
	for(auto x : PILES)
		if(x == l)
			return true;
	return false;
}
inline auto pidx(uint32_t l) -> int
{
	for(int i = 0; i < 5; i++)
		if(PILES[i] == l)
			return i;
	abort();
}
inline auto zidx(uint32_t l, uint32_t seq) -> int
{
	for(int i = 0; i < 5; i++)
		if(ZLOCS[i] == l)
		{
			if(seq >= ZLIM[i])
				abort();
			return ZOFF[i] + int(seq);
		}
	abort();
}
inline auto zplace(int con, int z) -> P
{
	for(int i = 4; i >= 0; i--)
		if(z >= ZOFF[i])
			return P{con, ZLOCS[i], uint32_t(z - ZOFF[i]), -1};
	abort();
}

constexpr int NONE = -1;

struct Model
{
	struct Zone
	{
		int card = NONE;
		std::vector<int> mats;
		auto operator==(Zone const& o) const -> bool
		{
			return card == o.card && mats == o.mats;
		}
	};
	std::vector<int> piles[2][5];
	Zone zones[2][16];

	auto operator==(Model const& o) const -> bool
	{
		for(int c = 0; c < 2; c++)
		{
			for(int i = 0; i < 5; i++)
				if(piles[c][i] != o.piles[c][i])
					return false;
			for(int i = 0; i < 16; i++)
				if(!(zones[c][i] == o.zones[c][i]))
					return false;
		}
		return true;
	}
	auto pile(P const& p) -> std::vector<int>&
	{
		return piles[p.con][pidx(p.loc)];
	}
	auto zone(P const& p) -> Zone& { return zones[p.con][zidx(p.loc, p.seq)]; }
	auto pile(P const& p) const -> std::vector<int> const&
	{
		return piles[p.con][pidx(p.loc)];
	}
	auto zone(P const& p) const -> Zone const&
	{
		return zones[p.con][zidx(p.loc, p.seq)];
	}
	auto at(P const& p) const -> int
	{
		if(is_pile_loc(p.loc))
			return p.seq < pile(p).size() ? pile(p)[p.seq] : NONE;
		auto const& z = zone(p);
		if(p.oseq < 0)
			return z.card;
		return size_t(p.oseq) < z.mats.size() ? z.mats[p.oseq] : NONE;
	}
	auto all() const -> std::vector<int>
	{
		std::vector<int> v;
		for(int c = 0; c < 2; c++)
		{
			for(int i = 0; i < 5; i++)
				v.insert(v.end(), piles[c][i].begin(), piles[c][i].end());
			for(int i = 0; i < 16; i++)
			{
				if(zones[c][i].card != NONE)
					v.push_back(zones[c][i].card);
				v.insert(v.end(), zones[c][i].mats.begin(),
				         zones[c][i].mats.end());
			}
		}
		return v;
	}
	auto str() const -> std::string
	{
		std::string s;
		for(int c = 0; c < 2; c++)
		{
			for(int i = 0; i < 5; i++)
				if(!piles[c][i].empty())
				{
					auto n = bm::str(P{c, PILES[i], 0, -1});
					s += n.substr(0, n.find('[')) + "=(";
					for(auto x : piles[c][i])
						s += std::to_string(x) + " ";
					s += ") ";
				}
			for(int i = 0; i < 16; i++)
				if(zones[c][i].card != NONE || !zones[c][i].mats.empty())
				{
					s += bm::str(zplace(c, i)) + "=" +
					     std::to_string(zones[c][i].card);
					if(!zones[c][i].mats.empty())
					{
						s += "{";
						for(auto x : zones[c][i].mats)
							s += std::to_string(x) + " ";
						s += "}";
					}
					s += " ";
				}
		}
		return s;
	}
	// Hash with cards renamed by order of appearance.
	auto canon_hash() const -> uint64_t
	{
		std::map<int, int> ren;
		mc::Hasher h;
		auto f = [&](int x)
		{
			if(x == NONE)
			{
				h.add(0);
				return;
			}
			auto it = ren.emplace(x, int(ren.size()) + 1).first;
			h.add(it->second);
		};
		for(int c = 0; c < 2; c++)
		{
			for(int i = 0; i < 5; i++)
			{
				h.add(1000 + piles[c][i].size());
				for(auto x : piles[c][i])
					f(x);
			}
			for(int i = 0; i < 16; i++)
			{
				f(zones[c][i].card);
				h.add(2000 + zones[c][i].mats.size());
				for(auto x : zones[c][i].mats)
					f(x);
			}
		}
		return h.h;
	}
	auto hash() const -> uint64_t
	{
		mc::Hasher h;
		for(int c = 0; c < 2; c++)
		{
			for(int i = 0; i < 5; i++)
			{
				h.add(1000 + piles[c][i].size());
				for(auto x : piles[c][i])
					h.add(x + 10);
			}
			for(int i = 0; i < 16; i++)
			{
				h.add(zones[c][i].card + 10);
				h.add(2000 + zones[c][i].mats.size());
				for(auto x : zones[c][i].mats)
					h.add(x + 10);
			}
		}
		return h.h;
	}

	// Reference semantics of the operations -------------------------------
	static auto take(std::vector<int>& v, size_t i) -> int
	{
		int const x = v[i];
		v.erase(v.begin() + i);
		return x;
	}
	auto insert(P const& p, int id) -> void
	{
		if(is_pile_loc(p.loc))
			pile(p).insert(pile(p).begin() + p.seq, id);
		else if(p.oseq < 0)
			zone(p).card = id;
		else
			zone(p).mats.insert(zone(p).mats.begin() + p.oseq, id);
	}
	auto extract(P const& p) -> int
	{
		if(is_pile_loc(p.loc))
			return take(pile(p), p.seq);
		if(p.oseq >= 0)
			return take(zone(p).mats, p.oseq);
		int const x = zone(p).card;
		zone(p).card = NONE;
		return x;
	}
	auto move(P const& a, P const& b) -> void
	{
		int const id = extract(a);
		bool const whole = !is_pile_loc(a.loc) && a.oseq < 0 &&
		                   !is_pile_loc(b.loc) && b.oseq < 0;
		std::vector<int> mats;
		if(whole)
		{
			mats = zone(a).mats;
			zone(a).mats.clear();
		}
		insert(b, id);
		if(whole)
			zone(b).mats = mats;
	}
	auto ref(P const& p) -> int&
	{
		if(is_pile_loc(p.loc))
			return pile(p)[p.seq];
		if(p.oseq >= 0)
			return zone(p).mats[p.oseq];
		return zone(p).card;
	}
	auto swap(P const& a, P const& b) -> void
	{
		bool const whole = !is_pile_loc(a.loc) && a.oseq < 0 &&
		                   !is_pile_loc(b.loc) && b.oseq < 0;
		int const x = ref(a), y = ref(b);
		ref(a) = y;
		ref(b) = x;
		if(whole && !(a == b))
		{
			auto const ma = zone(a).mats, mb = zone(b).mats;
			zone(a).mats = mb;
			zone(b).mats = ma;
		}
	}
	auto splice(P const& a, size_t n, P const& b, bool rev) -> void
	{
		auto& f = pile(a);
		std::vector<int> cut(f.begin() + a.seq, f.begin() + a.seq + n);
		f.erase(f.begin() + a.seq, f.begin() + a.seq + n);
		if(rev)
			std::reverse(cut.begin(), cut.end());
		auto& t = pile(b);
		t.insert(t.begin() + b.seq, cut.begin(), cut.end());
	}
	auto clear() -> void { *this = Model(); }

	// Legality (the documented preconditions) -----------------------------
	auto can_move(P const& a, P const& b) const -> bool
	{
		if(at(a) == NONE)
			return false;
		bool const same = a.con == b.con && a.loc == b.loc;
		if(is_pile_loc(b.loc))
			return b.oseq < 0 && b.seq <= pile(b).size() - (same ? 1 : 0);
		bool const same_zone = same && a.seq == b.seq;
		if(b.oseq >= 0)
			return size_t(b.oseq) <= zone(b).mats.size() -
			                             (same_zone && a.oseq >= 0 ? 1 : 0);
		if(zone(b).card != NONE)
			return false;
		bool const whole = !is_pile_loc(a.loc) && a.oseq < 0;
		return !whole || zone(b).mats.empty();
	}
	auto can_swap(P const& a, P const& b) const -> bool
	{
		if(at(a) == NONE || at(b) == NONE)
			return false;
		auto whole_with_mats = [&](P const& p)
		{
			return !is_pile_loc(p.loc) && p.oseq < 0 && !zone(p).mats.empty();
		};
		if(is_pile_loc(b.loc) && whole_with_mats(a))
			return false;
		if(is_pile_loc(a.loc) && whole_with_mats(b))
			return false;
		return true;
	}
};

// ---------------------------------------------------------------------------

struct Stats
{
	int built = 0;
	std::map<int, int> destroyed; // id -> times
	std::map<int, void const*> addr;
	std::string error;
};

// A card that knows its number and reports its life to Stats. Move-only.
struct Card
{
	Stats* st = nullptr;
	int id = NONE;
	Card() = default;
	Card(Stats* s, int i) : st(s), id(i) {}
	Card(Card&& o) noexcept : st(o.st), id(o.id) { o.id = NONE; }
	auto operator=(Card&& o) noexcept -> Card&
	{
		if(this != &o)
		{
			gone();
			st = o.st;
			id = o.id;
			o.id = NONE;
		}
		return *this;
	}
	Card(Card const&) = delete;
	auto operator=(Card const&) -> Card& = delete;
	~Card() { gone(); }

private:
	auto gone() -> void
	{
		if(st != nullptr && id != NONE)
			st->destroyed[id]++;
		id = NONE;
	}
};

struct Builder
{
	Stats* st = nullptr;
	[[nodiscard]] auto build() noexcept -> Card { return Card(st, st->built++); }
};

using Plain = YGOpen::Client::BasicFrame<Card, Builder>;
using Limbo = YGOpen::Client::LimboFrame<Card, Builder>;

template<typename F>
auto read(F& f) -> Model
{
	Model m;
	for(int c = 0; c < 2; c++)
	{
		for(int i = 0; i < 5; i++)
		{
			auto& p = f.pile(Controller(c), Location(PILES[i]));
			auto& v = m.piles[c][i];
			v.reserve(p.size());
			for(auto* x : p)
				v.push_back(x->id);
		}
		for(int z = 0; z < 16; z++)
		{
			auto const p = zplace(c, z);
			auto& zn = f.zone(Controller(c), Location(p.loc), p.seq);
			m.zones[c][z].card = zn.card == nullptr ? NONE : zn.card->id;
			for(auto* x : zn.materials)
				m.zones[c][z].mats.push_back(x->id);
		}
	}
	return m;
}

// Addresses of everything on the board, in a fixed order.
template<typename F>
auto addresses(F& f) -> std::vector<void const*>
{
	std::vector<void const*> r;
	for(int c = 0; c < 2; c++)
	{
		for(int i = 0; i < 5; i++)
		{
			for(auto* x : f.pile(Controller(c), Location(PILES[i])))
				r.push_back(x);
			r.push_back(nullptr);
		}
		for(int z = 0; z < 16; z++)
		{
			auto const p = zplace(c, z);
			auto& zn = f.zone(Controller(c), Location(p.loc), p.seq);
			r.push_back(zn.card);
			for(auto* x : zn.materials)
				r.push_back(x);
			r.push_back(nullptr);
		}
	}
	return r;
}

struct Op
{
	enum Kind
	{
		ADD,
		REMOVE,
		MOVE,
		SWAP,
		RESIZE,
		SPLICE,
		PSWAP,
		CLEAR
	} kind = ADD;
	P a, b;
	uint32_t n = 0;
	bool rev = false;
	auto str() const -> std::string
	{
		switch(kind)
		{
		case ADD: return "add " + bm::str(a);
		case REMOVE: return "remove " + bm::str(a);
		case MOVE: return "move " + bm::str(a) + " -> " + bm::str(b);
		case SWAP: return "swap " + bm::str(a) + " <-> " + bm::str(b);
		case RESIZE:
			return "resize " + bm::str(a) + " to " + std::to_string(n);
		case SPLICE:
			return "splice " + std::to_string(n) + " from " + bm::str(a) +
			       " to " + bm::str(b) + (rev ? " reversed" : "");
		case PSWAP: return "pile_swap " + bm::str(a) + " <-> " + bm::str(b);
		case CLEAR: return "clear";
		}
		return "?";
	}
};

template<typename F>
auto apply(F& f, Op const& o) -> void
{
	switch(o.kind)
	{
	case Op::ADD: static_cast<void>(f.card_add(pb(o.a))); break;
	case Op::REMOVE: f.card_remove(pb(o.a)); break;
	case Op::MOVE: static_cast<void>(f.card_move(pb(o.a), pb(o.b))); break;
	case Op::SWAP: f.card_swap(pb(o.a), pb(o.b)); break;
	case Op::RESIZE: f.pile_resize(pb(o.a), o.n); break;
	case Op::SPLICE: f.pile_splice(pb(o.a), o.n, pb(o.b), o.rev); break;
	case Op::PSWAP: f.pile_swap(pb(o.a), pb(o.b)); break;
	case Op::CLEAR: f.clear(); break;
	}
}

template<typename F>
auto unapply(F& f, Op const& o) -> void
{
	switch(o.kind)
	{
	case Op::ADD: static_cast<void>(f.undo_card_add(pb(o.a))); break;
	case Op::REMOVE: static_cast<void>(f.undo_card_remove(pb(o.a))); break;
	case Op::MOVE: static_cast<void>(f.card_move(pb(o.b), pb(o.a))); break;
	case Op::SWAP: f.card_swap(pb(o.a), pb(o.b)); break;
	case Op::RESIZE: f.undo_pile_resize(pb(o.a), o.n); break;
	case Op::SPLICE: f.pile_splice(pb(o.b), o.n, pb(o.a), o.rev); break;
	case Op::PSWAP: f.pile_swap(pb(o.a), pb(o.b)); break;
	case Op::CLEAR: f.undo_clear(); break;
	}
}

// `next` is the number the next built card will get.
inline auto apply_model(Model& m, Op const& o, int& next) -> void
{
	switch(o.kind)
	{
	case Op::ADD: m.insert(o.a, next++); break;
	case Op::REMOVE: m.extract(o.a); break;
	case Op::MOVE: m.move(o.a, o.b); break;
	case Op::SWAP: m.swap(o.a, o.b); break;
	case Op::RESIZE:
		while(m.pile(o.a).size() > o.n)
			m.pile(o.a).pop_back();
		while(m.pile(o.a).size() < o.n)
			m.pile(o.a).push_back(next++);
		break;
	case Op::SPLICE: m.splice(o.a, o.n, o.b, o.rev); break;
	case Op::PSWAP:
		if(!(o.a.con == o.b.con && o.a.loc == o.b.loc))
			std::swap(m.pile(o.a), m.pile(o.b));
		break;
	case Op::CLEAR: m.clear(); break;
	}
}

// The part of the board on which operations are enumerated.
struct Universe
{
	std::vector<P> piles; // con, loc
	std::vector<P> zones; // con, loc, seq
	size_t max_pile = 3, max_mats = 2, max_cards = 5;
	std::vector<uint32_t> splice_counts{0, 1, 2, 3};
	bool end_positions_only = false; // only first/last insertion index
	bool key_positions = false; // only the ends, the middle and powers of two
	unsigned kinds = 0xFF;           // bit mask of Op::Kind
};

// Numbers up to n next to which something may change.
inline auto key_numbers(size_t n) -> std::vector<uint32_t>
{
	std::vector<uint32_t> v;
	for(size_t x : {size_t{0}, size_t{1}, size_t{15}, size_t{16}, size_t{64},
	                size_t{127}, size_t{128}, size_t{255}, size_t{256}, n / 2,
	                n - std::min<size_t>(n, 1), n})
		if(x <= n && std::find(v.begin(), v.end(), x) == v.end())
			v.push_back(uint32_t(x));
	return v;
}

inline auto insert_positions(Universe const& u, size_t size)
	-> std::vector<uint32_t>
{
	std::vector<uint32_t> v;
	if(u.key_positions)
		return key_numbers(size);
	if(u.end_positions_only)
	{
		v.push_back(0);
		if(size > 0)
			v.push_back(size);
		return v;
	}
	for(size_t i = 0; i <= size; i++)
		v.push_back(i);
	return v;
}

inline auto occupied(Universe const& u, Model const& m) -> std::vector<P>
{
	std::vector<P> v;
	auto indexes = [&](size_t n)
	{
		std::vector<uint32_t> r;
		if(u.key_positions && n > 0)
			return key_numbers(n - 1);
		for(size_t i = 0; i < n; i++)
			r.push_back(uint32_t(i));
		return r;
	};
	for(auto p : u.piles)
		for(auto i : indexes(m.pile(p).size()))
			v.push_back(P{p.con, p.loc, i, -1});
	for(auto z : u.zones)
	{
		if(m.zone(z).card != NONE)
			v.push_back(z);
		for(auto i : indexes(m.zone(z).mats.size()))
			v.push_back(P{z.con, z.loc, z.seq, int(i)});
	}
	return v;
}

inline auto insertable(Universe const& u, Model const& m) -> std::vector<P>
{
	std::vector<P> v;
	for(auto p : u.piles)
		if(m.pile(p).size() < u.max_pile)
			for(auto i : insert_positions(u, m.pile(p).size()))
				v.push_back(P{p.con, p.loc, i, -1});
	for(auto z : u.zones)
	{
		if(m.zone(z).card == NONE)
			v.push_back(z);
		if(m.zone(z).mats.size() < u.max_mats)
			for(auto i : insert_positions(u, m.zone(z).mats.size()))
				v.push_back(P{z.con, z.loc, z.seq, int(i)});
	}
	return v;
}

// All legal operations in a state, simplest kinds first.
inline auto enumerate(Universe const& u, Model const& m) -> std::vector<Op>
{
	std::vector<Op> r;
	auto const occ = occupied(u, m);
	size_t const total = m.all().size();
	Universe all = u; // Resizes go to any size.
	all.end_positions_only = false;
	auto on = [&](Op::Kind k) { return ((u.kinds >> k) & 1U) != 0; };
	if(on(Op::ADD) && total < u.max_cards)
		for(auto& p : insertable(u, m))
			r.push_back(Op{Op::ADD, p, {}, 0, false});
	if(on(Op::REMOVE))
		for(auto& p : occ)
			r.push_back(Op{Op::REMOVE, p, {}, 0, false});
	if(on(Op::MOVE))
		for(auto& a : occ)
		{
			bool const mat = !is_pile_loc(a.loc) && a.oseq >= 0;
			for(auto p : u.piles)
			{
				size_t const sz = m.pile(p).size() -
				                  (p.con == a.con && p.loc == a.loc ? 1 : 0);
				if(sz < u.max_pile)
					for(auto i : insert_positions(u, sz))
					{
						P const b{p.con, p.loc, i, -1};
						if(!(a == b))
							r.push_back(Op{Op::MOVE, a, b, 0, false});
					}
			}
			for(auto z : u.zones)
			{
				bool const same =
					z.con == a.con && z.loc == a.loc && z.seq == a.seq;
				if(m.can_move(a, z))
					r.push_back(Op{Op::MOVE, a, z, 0, false});
				size_t const sz = m.zone(z).mats.size() - (same && mat ? 1 : 0);
				if(sz < u.max_mats)
					for(auto i : insert_positions(u, sz))
					{
						P const b{z.con, z.loc, z.seq, int(i)};
						if(!(a == b))
							r.push_back(Op{Op::MOVE, a, b, 0, false});
					}
			}
		}
	if(on(Op::SWAP))
		for(auto& a : occ)
			for(auto& b : occ)
				if(m.can_swap(a, b))
					r.push_back(Op{Op::SWAP, a, b, 0, false});
	if(on(Op::RESIZE))
		for(auto p : u.piles)
			for(auto n : insert_positions(all, u.max_pile))
			{
				if(n > m.pile(p).size() &&
				   total + n - m.pile(p).size() > u.max_cards)
					continue;
				r.push_back(Op{Op::RESIZE, p, {}, n, false});
			}
	if(on(Op::SPLICE))
		for(auto a : u.piles)
			for(auto s : insert_positions(all, m.pile(a).size()))
				for(auto n : u.key_positions
				                 ? key_numbers(m.pile(a).size() - s)
				                 : u.splice_counts)
				{
					if(s + n > m.pile(a).size())
						continue;
					if(n == 0 && s > 0)
						continue;
					for(auto b : u.piles)
					{
						bool const same = a.con == b.con && a.loc == b.loc;
						size_t const sz =
							m.pile(b).size() - (same ? n : 0);
						if(sz + n > u.max_pile)
							continue;
						for(auto t : insert_positions(u, sz))
							for(int rev = 0; rev < (n > 1 ? 2 : 1); rev++)
								r.push_back(Op{Op::SPLICE,
								               P{a.con, a.loc, s, -1},
								               P{b.con, b.loc, t, -1}, n,
								               rev != 0});
					}
				}
	if(on(Op::PSWAP))
		for(auto a : u.piles)
			for(auto b : u.piles)
				r.push_back(Op{Op::PSWAP, a, b, 0, false});
	if(on(Op::CLEAR))
		r.push_back(Op{Op::CLEAR, {}, {}, 0, false});
	return r;
}

} // namespace bm

#endif
