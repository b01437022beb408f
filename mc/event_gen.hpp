// Boards, snapshots, a generator of legal duel events and the reference effect
// of an event on a board.
#ifndef MC_EVENT_GEN_HPP
#define MC_EVENT_GEN_HPP
#include <ygopen/client/board.hpp>
#include <ygopen/client/parse_event.hpp>
#include <ygopen/client/undo_parse_event.hpp>
#include <ygopen/client/undoable.hpp>
#include <ygopen/duel/constants/controller.hpp>
#include <ygopen/duel/constants/phase.hpp>
#include <ygopen/proto/duel/msg.hpp>

#include "board_model.hpp"

namespace eg
{

using namespace bm;
using mc::Chooser;
using YGOpen::Duel::Phase;
using YGOpen::Proto::Duel::Chain;
using YGOpen::Proto::Duel::Msg;
using Event = Msg::Event;

struct PlainTraits
{
	using BlockedZonesType = std::vector<Place>;
	using ChainStackType = std::vector<Chain>;
	using FrameType = Plain;
	using LPType = uint32_t;
	using PhaseType = Phase;
	using TurnControllerType = Controller;
	using TurnType = uint32_t;
};

struct HistoryTraits
{
	template<typename T>
	using U = YGOpen::Client::BasicUndoable<T>;
	using BlockedZonesType = U<std::vector<Place>>;
	using ChainStackType = U<std::vector<Chain>>;
	using FrameType = Limbo;
	using LPType = U<uint32_t>;
	using PhaseType = U<Phase>;
	using TurnControllerType = U<Controller>;
	using TurnType = U<uint32_t>;
};

// A chain stack that implements everything parse_event and undo_parse_event ask
// of it (the library's own does not yet).
class Chains
{
public:
	operator std::vector<Chain> const&() const { return t_[at_]; }
	auto push_back(Chain const& c) -> void
	{
		auto v = t_[at_];
		v.push_back(c);
		next(std::move(v));
	}
	auto pop_back() -> void
	{
		auto v = t_[at_];
		if(v.empty())
			bad = "pop_back() of an empty chain";
		else
			v.pop_back();
		next(std::move(v));
	}
	template<typename It>
	auto assign(It first, It last) -> void
	{
		next(std::vector<Chain>(first, last));
	}
	auto undo_push_back(Chain const& c) -> void
	{
		if(t_[at_].empty() ||
		   t_[at_].back().SerializeAsString() != c.SerializeAsString())
			bad = "undo_push_back() of something else than was pushed";
		undo();
	}
	auto undo_pop_back() -> void { undo(); }
	auto undo() -> void
	{
		if(at_ == 0)
			bad = "undo without anything to undo";
		else
			at_--;
	}
	char const* bad = nullptr;

private:
	std::vector<std::vector<Chain>> t_{1};
	size_t at_ = 0;
	auto next(std::vector<Chain> v) -> void
	{
		// Redoing makes the same again.
		if(at_ + 1 < t_.size())
			t_.resize(at_ + 1);
		t_.push_back(std::move(v));
		at_++;
	}
};

// Same for a frame's shuffles.
class FullFrame : public Limbo
{
public:
	template<typename It>
	auto undo_card_shuffle(It previous, It current, size_t count) -> void
	{
		std::vector<Zone> was;
		auto p = current;
		for(size_t i = 0; i < count; i++, p++)
			was.push_back(this->zone(*p));
		for(size_t i = 0; i < count; i++, previous++)
			this->zone(*previous) = was[i];
	}

private:
	using Zone = std::decay_t<decltype(std::declval<Limbo&>().zone(std::declval<Place>()))>;
};

struct FullTraits : HistoryTraits
{
	using ChainStackType = Chains;
	using FrameType = FullFrame;
};

using FullBoard = YGOpen::Client::BasicBoard<FullTraits>;
using PlainBoard = YGOpen::Client::BasicBoard<PlainTraits>;
using HistoryBoard = YGOpen::Client::BasicBoard<HistoryTraits>;

struct ChainM
{
	P card, place;
	uint32_t code = 0, index = 0;
	auto operator==(ChainM const& o) const -> bool
	{
		return card == o.card && place == o.place && code == o.code &&
		       index == o.index;
	}
};

struct BoardM
{
	Model m;
	uint32_t lp[2] = {0, 0};
	uint32_t turn = 0;
	int tcon = 0;
	uint32_t phase = 0;
	std::vector<ChainM> chain;
	std::vector<P> blocked;
	int next = 0; // number of the next card built
	auto same(BoardM const& o) const -> bool
	{
		return m == o.m && lp[0] == o.lp[0] && lp[1] == o.lp[1] &&
		       turn == o.turn && tcon == o.tcon && phase == o.phase &&
		       chain == o.chain && blocked == o.blocked;
	}
	auto str() const -> std::string
	{
		std::string s = m.str() + "lp " + std::to_string(lp[0]) + "/" +
		                std::to_string(lp[1]) + " turn " + std::to_string(turn) +
		                " of " + std::to_string(tcon) + " phase " +
		                std::to_string(phase) + " chain(";
		for(auto& c : chain)
			s += bm::str(c.card) + "@" + bm::str(c.place) + ":" +
			     std::to_string(c.code) + "." + std::to_string(c.index) + " ";
		s += ") blocked(";
		for(auto& p : blocked)
			s += bm::str(p) + " ";
		return s + ")";
	}
	auto hash(bool canon) const -> uint64_t
	{
		mc::Hasher h;
		h.add(canon ? m.canon_hash() : m.hash());
		h.add(lp[0]).add(lp[1]).add(turn).add(tcon).add(phase);
		for(auto& c : chain)
			h.add(bm::str(c.card)).add(bm::str(c.place)).add(c.code).add(c.index);
		h.add(77);
		for(auto& p : blocked)
			h.add(bm::str(p));
		return h.h;
	}
};

inline auto chain_of(Chain const& c) -> ChainM
{
	return ChainM{un(c.card_place()), un(c.place()), c.effect().code(),
	              c.effect().index()};
}

template<typename B>
auto look(B& b) -> BoardM
{
	using YGOpen::Duel::CONTROLLER_0;
	using YGOpen::Duel::CONTROLLER_1;
	BoardM r;
	r.m = read(b.frame());
	r.lp[0] = uint32_t{b.lp(CONTROLLER_0)};
	r.lp[1] = uint32_t{b.lp(CONTROLLER_1)};
	r.turn = uint32_t{b.turn()};
	Controller const tc = b.turn_controller();
	r.tcon = int(tc);
	Phase const ph = b.phase();
	r.phase = uint32_t(ph);
	std::vector<Chain> const& ch = b.chain_stack();
	for(auto& c : ch)
		r.chain.push_back(chain_of(c));
	std::vector<Place> const& bz = b.blocked_zones();
	for(auto& p : bz)
		r.blocked.push_back(un(p));
	return r;
}

// Reference effect ----------------------------------------------------------

inline auto effect(BoardM& b, Event const& e) -> void
{
	auto op1 = [&](Op::Kind k, Place const& a)
	{ apply_model(b.m, Op{k, un(a), {}, 0, false}, b.next); };
	auto op2 = [&](Op::Kind k, Place const& x, Place const& y)
	{ apply_model(b.m, Op{k, un(x), un(y), 0, false}, b.next); };
	auto add = [&](Event::Card::Add const& a)
	{
		for(int i = 0; i < a.places_size(); i++)
			op1(Op::ADD, a.places(i));
	};
	auto remove = [&](Event::Card::Remove const& a)
	{
		for(int i = 0; i < a.places_size(); i++)
			op1(Op::REMOVE, a.places(i));
	};
	auto resize = [&](Event::Pile::Resize const& r)
	{
		for(int i = 0; i < r.ops_size(); i++)
			apply_model(b.m,
			            Op{Op::RESIZE, un(r.ops(i).place()), {}, r.ops(i).count(),
			               false},
			            b.next);
	};
	if(e.has_board() && e.board().has_exchange())
	{
		auto const& x = e.board().exchange();
		resize(x.resize());
		remove(x.remove());
		add(x.add());
	}
	else if(e.has_board() && e.board().has_state())
	{
		auto const& s = e.board().state();
		if(s.turn_counter() >= 0)
			b.turn = s.turn_counter();
		b.lp[0] = s.lps(0);
		b.lp[1] = s.lps(1);
		b.chain.clear();
		for(int i = 0; i < s.chains_size(); i++)
			b.chain.push_back(chain_of(s.chains(i)));
		b.m.clear();
		add(s.add());
		resize(s.resize());
	}
	else if(e.has_card())
	{
		auto const& k = e.card();
		if(k.has_add())
			add(k.add());
		else if(k.has_remove())
			remove(k.remove());
		else if(k.has_exchange())
			for(int i = 0; i < k.exchange().ops_size(); i++)
				op2(Op::SWAP, k.exchange().ops(i).place_a(),
				    k.exchange().ops(i).place_b());
		else if(k.has_move())
			for(int i = 0; i < k.move().ops_size(); i++)
				op2(Op::MOVE, k.move().ops(i).old_place(),
				    k.move().ops(i).new_place());
		else if(k.has_shuffle())
		{
			// Fully specified ones only.
			auto const& s = k.shuffle();
			auto const old = b.m;
			for(int i = 0; i < s.previous_places_size(); i++)
				b.m.zone(un(s.current_places(i))) =
					old.zone(un(s.previous_places(i)));
		}
	}
	else if(e.has_chain_stack())
	{
		if(e.chain_stack().has_push())
			b.chain.push_back(chain_of(e.chain_stack().push()));
		else if(e.chain_stack().t_case() == Event::ChainStack::kPop)
			b.chain.pop_back();
	}
	else if(e.t_case() == Event::kNextTurn)
	{
		b.turn++;
		b.tcon = e.next_turn();
	}
	else if(e.has_lp())
	{
		auto& lp = b.lp[e.lp().controller()];
		auto minus = [&](uint32_t n) { lp = n > lp ? 0 : lp - n; };
		switch(e.lp().t_case())
		{
		case Event::LP::kBecome: lp = e.lp().become(); break;
		case Event::LP::kDamage: minus(e.lp().damage()); break;
		case Event::LP::kPay: minus(e.lp().pay()); break;
		case Event::LP::kRecover: lp += e.lp().recover(); break;
		default: break;
		}
	}
	else if(e.t_case() == Event::kNextPhase)
		b.phase = e.next_phase();
	else if(e.has_pile())
	{
		auto const& p = e.pile();
		if(p.has_splice())
			for(int i = 0; i < p.splice().ops_size(); i++)
			{
				auto const& o = p.splice().ops(i);
				b.m.splice(un(o.from()), o.count(), un(o.to()), o.reverse());
			}
		else if(p.has_exchange())
			for(int i = 0; i < p.exchange().ops_size(); i++)
				op2(Op::PSWAP, p.exchange().ops(i).place_a(),
				    p.exchange().ops(i).place_b());
		else if(p.has_resize())
			resize(p.resize());
	}
	else if(e.has_zone_block())
	{
		b.blocked.clear();
		for(int i = 0; i < e.zone_block().zones_size(); i++)
			b.blocked.push_back(un(e.zone_block().zones(i)));
	}
}

// Generators ----------------------------------------------------------------

inline auto to_event(std::vector<Op> const& ops) -> Event
{
	Event e;
	for(auto const& o : ops)
		switch(o.kind)
		{
		case Op::ADD: *e.mutable_card()->mutable_add()->add_places() = pb(o.a); break;
		case Op::REMOVE:
			*e.mutable_card()->mutable_remove()->add_places() = pb(o.a);
			break;
		case Op::MOVE:
		{
			auto* x = e.mutable_card()->mutable_move()->add_ops();
			*x->mutable_old_place() = pb(o.a);
			*x->mutable_new_place() = pb(o.b);
			break;
		}
		case Op::SWAP:
		{
			auto* x = e.mutable_card()->mutable_exchange()->add_ops();
			*x->mutable_place_a() = pb(o.a);
			*x->mutable_place_b() = pb(o.b);
			break;
		}
		case Op::RESIZE:
		{
			auto* x = e.mutable_pile()->mutable_resize()->add_ops();
			*x->mutable_place() = pb(o.a);
			x->set_count(o.n);
			break;
		}
		case Op::SPLICE:
		{
			auto* x = e.mutable_pile()->mutable_splice()->add_ops();
			*x->mutable_from() = pb(o.a);
			x->set_count(o.n);
			*x->mutable_to() = pb(o.b);
			x->set_reverse(o.rev);
			break;
		}
		case Op::PSWAP:
		{
			auto* x = e.mutable_pile()->mutable_exchange()->add_ops();
			*x->mutable_place_a() = pb(o.a);
			*x->mutable_place_b() = pb(o.b);
			break;
		}
		case Op::CLEAR: break;
		}
	return e;
}

inline auto ops_of_kind(Universe u, Model const& m, Op::Kind k) -> std::vector<Op>
{
	u.kinds = 1U << k;
	return enumerate(u, m);
}

constexpr Op::Kind CARD_PILE_KINDS[7] = {Op::ADD,    Op::REMOVE, Op::MOVE, Op::SWAP,
                                         Op::RESIZE, Op::SPLICE, Op::PSWAP};

// A card or pile event with 1 to max_ops operations of one kind, each legal
// after the ones before.
inline auto pick_ops_event(Chooser& c, Universe const& u, Model m, unsigned max_ops)
	-> Event
{
	auto const k = CARD_PILE_KINDS[c.pick(7)];
	unsigned const n = 1 + c.pick(max_ops);
	std::vector<Op> ops;
	int next = 10000;
	for(unsigned i = 0; i < n; i++)
	{
		auto const all = ops_of_kind(u, m, k);
		if(all.empty())
			break;
		auto const& o = all[c.pick(all.size())];
		ops.push_back(o);
		apply_model(m, o, next);
	}
	auto e = to_event(ops);
	if(e.has_card())
		e.mutable_card()->set_reason(0x1234);
	return e;
}

inline auto chain_tag(int k) -> Chain
{
	Chain c;
	*c.mutable_card_place() = pb(P{k & 1, 4, uint32_t(k % 7), -1});
	*c.mutable_place() = pb(P{(k + 1) & 1, 8, uint32_t(k % 5), -1});
	c.mutable_effect()->set_code(1000 + k);
	c.mutable_effect()->set_index(k);
	return c;
}

inline auto kind_name(Event const& e) -> std::string
{
	static char const* const n[] = {"unset", "board", "card", "chain_stack",
	                                "next_turn", "finish", "lp", "meta",
	                                "next_phase", "pile", "result", "zone_block"};
	std::string s = n[int(e.t_case())];
	if(e.has_board())
		s += e.board().has_state() ? ".state" : ".exchange";
	if(e.has_card())
		s += "." + std::to_string(int(e.card().t_case()));
	if(e.has_pile())
		s += "." + std::to_string(int(e.pile().t_case()));
	if(e.has_lp())
		s += "." + std::to_string(int(e.lp().t_case()));
	return s;
}

inline auto describe(Event const& e) -> std::string
{
	std::string s = kind_name(e);
	auto pl = [&](Place const& p) { s += " " + bm::str(un(p)); };
	if(e.has_card())
	{
		auto& k = e.card();
		for(auto& p : k.add().places())
			pl(p);
		for(auto& p : k.remove().places())
			pl(p);
		for(auto& o : k.move().ops())
		{
			pl(o.old_place());
			s += " ->";
			pl(o.new_place());
			s += ";";
		}
		for(auto& o : k.exchange().ops())
		{
			pl(o.place_a());
			s += " <->";
			pl(o.place_b());
			s += ";";
		}
		for(auto& p : k.shuffle().previous_places())
			pl(p);
		if(k.has_shuffle())
			s += " =>";
		for(auto& p : k.shuffle().current_places())
			pl(p);
	}
	auto rsz = [&](Event::Pile::Resize const& r)
	{
		for(auto& o : r.ops())
		{
			s += " resize";
			pl(o.place());
			s += "=" + std::to_string(o.count());
		}
	};
	if(e.has_pile())
	{
		auto& k = e.pile();
		rsz(k.resize());
		for(auto& o : k.splice().ops())
		{
			s += " " + std::to_string(o.count()) + " of";
			pl(o.from());
			s += " ->";
			pl(o.to());
			s += o.reverse() ? " reversed;" : ";";
		}
		for(auto& o : k.exchange().ops())
		{
			pl(o.place_a());
			s += " <->";
			pl(o.place_b());
			s += ";";
		}
	}
	if(e.has_board() && e.board().has_exchange())
	{
		auto& x = e.board().exchange();
		rsz(x.resize());
		s += " remove";
		for(auto& p : x.remove().places())
			pl(p);
		s += " add";
		for(auto& p : x.add().places())
			pl(p);
	}
	if(e.has_board() && e.board().has_state())
	{
		auto& x = e.board().state();
		s += " turn " + std::to_string(x.turn_counter()) + " lps";
		for(auto v : x.lps())
			s += " " + std::to_string(v);
		s += " chains " + std::to_string(x.chains_size()) + " add";
		for(auto& p : x.add().places())
			pl(p);
		rsz(x.resize());
	}
	if(e.has_lp())
		s += " of " + std::to_string(e.lp().controller()) + " by " +
		     std::to_string(e.lp().become() + e.lp().damage() + e.lp().pay() +
		                    e.lp().recover());
	if(e.t_case() == Event::kNextTurn)
		s += " " + std::to_string(e.next_turn());
	if(e.t_case() == Event::kNextPhase)
		s += " " + std::to_string(e.next_phase());
	if(e.has_zone_block())
		for(auto& p : e.zone_block().zones())
			pl(p);
	return s;
}

inline auto lp_event(int con, int kind, uint32_t v) -> Event
{
	Event e;
	auto* l = e.mutable_lp();
	l->set_controller(con);
	if(kind == 0)
		l->set_become(v);
	else if(kind == 1)
		l->set_damage(v);
	else if(kind == 2)
		l->set_pay(v);
	else if(kind == 3)
		l->set_recover(v);
	return e;
}

// Zero, one, and the numbers around every power of two, up to the given one.
inline auto around_powers(uint64_t max) -> std::vector<uint32_t>
{
	std::set<uint32_t> v;
	for(int k = 0; k <= 32; k++)
		for(int d = -1; d <= 1; d++)
			if(int64_t const n = (int64_t{1} << k) + d; n <= int64_t(max))
				v.insert(uint32_t(n));
	return {v.begin(), v.end()};
}

// Events with n operations, or one operation on n cards.
inline auto mass_event(Chooser& c, uint32_t n, Model const& m) -> Event
{
	Event e;
	P const deck{0, 1, 0, -1}, yard{1, 0x10, 0, -1}, zone{0, 4, 2, -1};
	auto at = [](P p, uint32_t seq)
	{
		p.seq = seq;
		return pb(p);
	};
	uint32_t const have = m.pile(deck).size();
	switch(c.pick(12))
	{
	case 0:
		for(uint32_t i = 0; i < n; i++)
			*e.mutable_card()->mutable_add()->add_places() = at(deck, i / 2);
		break;
	case 1:
		for(uint32_t i = 0; i < std::min(n, have); i++)
			*e.mutable_card()->mutable_remove()->add_places() =
				at(deck, (have - 1 - i) / 2);
		break;
	case 2:
		for(uint32_t i = 0; i < std::min(n, have); i++)
		{
			auto* o = e.mutable_card()->mutable_move()->add_ops();
			*o->mutable_old_place() = at(deck, have - 1 - i);
			*o->mutable_new_place() = at(yard, i / 2);
		}
		break;
	case 3: // To a pile of materials and back.
	{
		auto* k = e.mutable_card()->mutable_move();
		auto* o = k->add_ops();
		*o->mutable_old_place() = at(deck, 0);
		*o->mutable_new_place() = pb(zone);
		for(uint32_t i = 0; i + 1 < std::min(n, have); i++)
		{
			o = k->add_ops();
			*o->mutable_old_place() = at(deck, 0);
			auto z = zone;
			z.oseq = i / 2;
			*o->mutable_new_place() = pb(z);
		}
		break;
	}
	case 4:
		for(uint32_t i = 0; i + 1 < std::min(n, have); i++)
		{
			auto* o = e.mutable_card()->mutable_exchange()->add_ops();
			*o->mutable_place_a() = at(deck, i);
			*o->mutable_place_b() = at(deck, have - 1);
		}
		break;
	case 5:
		for(uint32_t i = 0; i < n; i++)
		{
			auto* o = e.mutable_pile()->mutable_resize()->add_ops();
			*o->mutable_place() = i % 3 ? pb(deck) : pb(yard);
			o->set_count(i % 7);
		}
		break;
	case 6:
	{
		auto* o = e.mutable_pile()->mutable_resize()->add_ops();
		*o->mutable_place() = pb(deck);
		o->set_count(c.pickb() ? n : 2 * n);
		break;
	}
	case 7:
	{
		auto* o = e.mutable_pile()->mutable_splice()->add_ops();
		*o->mutable_from() = at(deck, have - std::min(n, have));
		o->set_count(std::min(n, have));
		*o->mutable_to() = c.pickb() ? pb(yard) : pb(deck);
		o->set_reverse(c.pickb());
		break;
	}
	case 8:
		for(uint32_t i = 0; i < std::min(n, have); i++)
		{
			auto* o = e.mutable_pile()->mutable_splice()->add_ops();
			*o->mutable_from() = at(deck, 0);
			o->set_count(1);
			*o->mutable_to() = at(yard, i / 3);
			o->set_reverse(i % 2);
		}
		break;
	case 9:
		for(uint32_t i = 0; i < n; i++)
		{
			auto* o = e.mutable_pile()->mutable_exchange()->add_ops();
			*o->mutable_place_a() = i % 2 ? pb(deck) : pb(yard);
			*o->mutable_place_b() = i % 3 ? pb(P{0, 2, 0, -1}) : pb(yard);
		}
		break;
	case 10:
		for(uint32_t i = 0; i < n; i++)
			*e.mutable_zone_block()->add_zones() =
				pb(P{int(i % 2), i % 5 ? 4U : 8U, i % 5, -1});
		break;
	case 11:
	{
		auto* s = e.mutable_board()->mutable_state();
		s->set_turn_counter(n);
		s->add_lps(n);
		s->add_lps(2 * n);
		for(uint32_t i = 0; i < n; i++)
			*s->add_chains() = chain_tag(i);
		*s->mutable_add()->add_places() = pb(zone);
		for(uint32_t i = 0; i < n; i++)
		{
			auto z = zone;
			z.oseq = i;
			*s->mutable_add()->add_places() = pb(z);
		}
		auto* o = s->mutable_resize()->add_ops();
		*o->mutable_place() = pb(deck);
		o->set_count(n);
		break;
	}
	}
	return e;
}
constexpr uint32_t MASS[] = {3, 9, 17, 33, 65, 129, 257};

// Full states: parts chosen independently.
inline auto state_event(Chooser& c) -> Event
{
	Event e;
	auto* s = e.mutable_board()->mutable_state();
	s->set_turn_counter(c.pickv<int>({-1, 0, 7}));
	uint32_t const lps[3][2] = {{8000, 8000}, {0, 1}, {0xFFFFFFFFU, 4000}};
	auto const* l = lps[c.pick(3)];
	s->add_lps(l[0]);
	s->add_lps(l[1]);
	for(int i = 0, n = c.pick(3); i < n; i++)
		*s->add_chains() = chain_tag(i + 3);
	static std::vector<std::vector<P>> const adds = {
		{},
		{P{0, 4, 2, -1}},
		{P{1, 4, 5, -1}, P{1, 4, 5, 0}, P{1, 4, 5, 1}, P{0, 8, 4, -1},
	     P{1, 0x100, 0, -1}, P{0, 0x200, 1, -1}},
		{P{0, 2, 0, -1}, P{0, 2, 0, -1}},
	};
	for(auto& p : adds[c.pick(adds.size())])
		*s->mutable_add()->add_places() = pb(p);
	static std::vector<std::vector<std::pair<P, uint32_t>>> const rs = {
		{},
		{{P{0, 2, 0, -1}, 3}},
		{{P{0, 1, 0, -1}, 2}, {P{1, 0x40, 0, -1}, 1}, {P{1, 0x10, 0, -1}, 0}},
		{{P{0, 2, 0, -1}, 3}, {P{0, 2, 0, -1}, 1}},
	};
	for(auto& [p, n] : rs[c.pick(rs.size())])
	{
		auto* o = s->mutable_resize()->add_ops();
		*o->mutable_place() = pb(p);
		o->set_count(n);
	}
	s->mutable_shape()->set_has_pzones(true);
	return e;
}

// Exchange: resize, then remove, then add; legal on the given board.
inline auto exchange_event(Chooser& c, Universe const& u, Model m) -> Event
{
	Event e;
	auto* x = e.mutable_board()->mutable_exchange();
	x->set_con(c.pick(2));
	int next = 10000;
	for(int i = 0, n = c.pick(3); i < n; i++)
	{
		auto const all = ops_of_kind(u, m, Op::RESIZE);
		auto const& o = all[c.pick(all.size())];
		auto* r = x->mutable_resize()->add_ops();
		*r->mutable_place() = pb(o.a);
		r->set_count(o.n);
		apply_model(m, o, next);
	}
	for(int i = 0, n = c.pick(3); i < n; i++)
	{
		auto const all = ops_of_kind(u, m, Op::REMOVE);
		if(all.empty())
			break;
		auto const& o = all[c.pick(all.size())];
		*x->mutable_remove()->add_places() = pb(o.a);
		apply_model(m, o, next);
	}
	for(int i = 0, n = c.pick(3); i < n; i++)
	{
		auto const all = ops_of_kind(u, m, Op::ADD);
		if(all.empty())
			break;
		auto const& o = all[c.pick(all.size())];
		*x->mutable_add()->add_places() = pb(o.a);
		apply_model(m, o, next);
	}
	return e;
}

// Events that carry only information.
inline auto info_events() -> std::vector<Event>
{
	std::vector<Event> v;
	auto add = [&]() -> Event& { return v.emplace_back(); };
	add();
	add().mutable_board();
	add().mutable_card()->set_reason(5);
	add().mutable_chain_stack();
	add().mutable_lp()->set_controller(1);
	add().mutable_pile()->set_reason(3);
	add().mutable_finish()->set_winner(1);
	add().mutable_finish()->set_draw(true);
	add().mutable_meta();
	*add().mutable_meta()->mutable_attack()->mutable_attacker() = pb(P{0, 4, 0, -1});
	add().mutable_meta()->set_chain_status(
		YGOpen::Proto::Duel::CHAIN_STATUS_SOLVING);
	*add().mutable_meta()->mutable_confirm()->add_places() = pb(P{0, 2, 0, -1});
	add().mutable_meta()->mutable_description()->set_con(1);
	add().mutable_meta()->mutable_flash_card()->set_code(7);
	*add().mutable_meta()->mutable_missed_timing()->add_places() =
		pb(P{0, 4, 0, -1});
	*add().mutable_meta()->mutable_selection()->add_selected_places() =
		pb(P{0, 4, 0, -1});
	*add().mutable_meta()->mutable_shuffle_pile()->add_places() = pb(P{0, 2, 0, -1});
	*add().mutable_meta()->mutable_update()->add_places() = pb(P{0, 4, 0, -1});
	add().mutable_result();
	add().mutable_result()->mutable_coin()->add_values(true);
	add().mutable_result()->mutable_dice()->add_values(3);
	add().mutable_result()->mutable_rps()->add_values(3);
	// Present, but listing nothing.
	add().mutable_card()->mutable_add();
	add().mutable_card()->mutable_remove();
	add().mutable_card()->mutable_move();
	add().mutable_card()->mutable_exchange();
	add().mutable_pile()->mutable_splice();
	add().mutable_pile()->mutable_exchange();
	add().mutable_pile()->mutable_resize();
	add().mutable_board()->mutable_exchange();
	return v;
}

// Values and information only: everything that is no card or pile operation.
inline auto value_events(uint32_t big) -> std::vector<Event>
{
	std::vector<Event> v;
	for(int con = 0; con < 2; con++)
		for(int k = 0; k < 4; k++)
			v.push_back(lp_event(con, k, k == 3 ? 100 : con == 0 ? big : 50));
	for(int con = 0; con < 2; con++)
		v.emplace_back().set_next_turn(con);
	for(uint32_t p : {1U, 4U, 0x200U})
		v.emplace_back().set_next_phase(p);
	v.emplace_back().mutable_zone_block();
	*v.emplace_back().mutable_zone_block()->add_zones() = pb(P{0, 4, 6, -1});
	{
		auto* z = v.emplace_back().mutable_zone_block();
		*z->add_zones() = pb(P{1, 8, 4, -1});
		*z->add_zones() = pb(P{0, 0x200, 0, -1});
	}
	return v;
}

// A handful of representative events for long sequences, legal on `m`.
inline auto narrow_events(BoardM const& b, bool chain_ops) -> std::vector<Event>
{
	Universe u;
	u.piles = {P{0, 2, 0, -1}, P{1, 0x10, 0, -1}};
	u.zones = {P{0, 4, 0, -1}};
	u.max_pile = 3;
	u.max_mats = 1;
	u.max_cards = 6;
	u.end_positions_only = true;
	u.splice_counts = {2};
	std::vector<Event> v;
	v.push_back(lp_event(0, 1, 3000));
	v.push_back(lp_event(1, 0, 77));
	v.emplace_back().set_next_turn(int(b.turn % 2));
	v.emplace_back().set_next_phase(b.phase == 4 ? 8 : 4);
	*v.emplace_back().mutable_zone_block()->add_zones() = pb(P{0, 4, b.turn % 7, -1});
	{
		auto* s = v.emplace_back().mutable_board()->mutable_state();
		s->set_turn_counter(-1);
		s->add_lps(8000);
		s->add_lps(100);
		*s->add_chains() = chain_tag(1);
		*s->mutable_add()->add_places() = pb(P{0, 4, 0, -1});
		*s->mutable_add()->add_places() = pb(P{0, 4, 0, 0});
		auto* o = s->mutable_resize()->add_ops();
		*o->mutable_place() = pb(P{0, 2, 0, -1});
		o->set_count(2);
	}
	{
		auto* s = v.emplace_back().mutable_board()->mutable_state();
		s->set_turn_counter(9);
		s->add_lps(1);
		s->add_lps(2);
	}
	for(auto k : CARD_PILE_KINDS)
	{
		auto const all = ops_of_kind(u, b.m, k);
		if(all.empty())
			continue;
		v.push_back(to_event({all.front()}));
		if(all.size() > 1)
			v.push_back(to_event({all.back()}));
	}
	{
		auto* x = v.emplace_back().mutable_board()->mutable_exchange();
		auto* r = x->mutable_resize()->add_ops();
		*r->mutable_place() = pb(P{0, 2, 0, -1});
		r->set_count(1);
		r = x->mutable_resize()->add_ops();
		*r->mutable_place() = pb(P{1, 0x10, 0, -1});
		r->set_count(2);
		*x->mutable_remove()->add_places() = pb(P{0, 2, 0, -1});
		*x->mutable_add()->add_places() = pb(P{1, 0x10, 1, -1});
	}
	if(chain_ops)
	{
		*v.emplace_back().mutable_chain_stack()->mutable_push() =
			chain_tag(b.chain.size());
		if(!b.chain.empty())
			v.emplace_back().mutable_chain_stack()->set_pop(true);
	}
	return v;
}

// Fixed starting position, set up with events.
template<typename B>
auto setup(B& b, Stats* st, bool big) -> void
{
	b.frame().builder().st = st;
	std::vector<Event> v;
	auto* s = v.emplace_back().mutable_board()->mutable_state();
	s->set_turn_counter(2);
	s->add_lps(8000);
	s->add_lps(2000);
	auto res = [&](P p, uint32_t n)
	{
		auto* o = s->mutable_resize()->add_ops();
		*o->mutable_place() = pb(p);
		o->set_count(n);
	};
	auto ad = [&](P p) { *s->mutable_add()->add_places() = pb(p); };
	ad(P{0, 4, 0, -1});
	ad(P{0, 4, 0, 0});
	res(P{0, 2, 0, -1}, 2);
	res(P{1, 0x10, 0, -1}, 1);
	if(big)
	{
		for(int c = 0; c < 2; c++)
			for(int z = c; z < 16; z += 2)
			{
				auto p = zplace(c, z);
				if(c == 0 && z == 0)
					continue;
				ad(p);
				if(z % 3 == 0)
				{
					p.oseq = 0;
					ad(p);
				}
			}
		for(int c = 0; c < 2; c++)
			for(int i = 0; i < 5; i++)
				res(P{c, PILES[i], 0, -1}, 1 + (i + c) % 3);
	}
	for(auto& e : v)
		YGOpen::Client::parse_event(b, e);
}

inline auto small_universe() -> Universe
{
	Universe u;
	u.piles = {P{0, 2, 0, -1}, P{1, 0x10, 0, -1}};
	u.zones = {P{0, 4, 0, -1}, P{1, 0x200, 1, -1}};
	u.max_pile = 3;
	u.max_mats = 2;
	u.max_cards = 6;
	u.end_positions_only = true;
	u.splice_counts = {0, 1, 2};
	return u;
}

inline auto everything() -> Universe
{
	Universe u;
	for(int c = 0; c < 2; c++)
	{
		for(auto l : PILES)
			u.piles.push_back(P{c, l, 0, -1});
		for(int z = 0; z < 16; z++)
			u.zones.push_back(zplace(c, z));
	}
	u.max_cards = 1000;
	u.max_pile = 5;
	u.max_mats = 2;
	u.end_positions_only = true;
	u.splice_counts = {2};
	return u;
}

} // namespace eg

#endif
