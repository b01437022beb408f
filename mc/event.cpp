// C07 (effect of an event), C08 (undoing events), C28 (history-keeping and plain
// boards agree).
#include "event_gen.hpp"

using namespace eg;
using mc::Space;
using YGOpen::Client::parse_event;
using YGOpen::Client::undo_parse_event;

namespace
{

template<typename B>
auto expect(Chooser& c, B& b, BoardM const& want, std::string const& what) -> void
{
	auto const got = look(b);
	if(!got.same(want))
		c.violation(what + ": board is " + got.str() + "; should be " + want.str());
}

template<typename B>
auto step(Chooser& c, B& b, BoardM& m, Event const& e, bool check) -> void
{
	LOG(c, "%s", describe(e).c_str());
	effect(m, e);
	parse_event(b, e);
	c.step();
	if(check)
	{
		expect(c, b, m, describe(e));
		c.outcome(m.hash(true));
	}
}

// C07 -----------------------------------------------------------------------

template<typename B>
auto start(B& b, Stats& st, bool big) -> BoardM
{
	setup(b, &st, big);
	auto m = look(b);
	m.next = st.built;
	return m;
}

template<typename B>
auto ops_twice(Chooser& c, Universe const& u, bool big, unsigned max_ops) -> void
{
	Stats st;
	B b;
	auto m = start(b, st, big);
	auto const e = pick_ops_event(c, u, m.m, max_ops);
	step(c, b, m, e, true);
	c.state(m.hash(false));
}

auto full_values(Chooser& c) -> void
{
	// Sequences of 3 value events, from a board where everything is set.
	Stats st;
	PlainBoard b;
	auto m = start(b, st, false);
	auto const vals = value_events(0xFFFFFFFFU);
	for(int i = 0; i < 3; i++)
		step(c, b, m, vals[c.pick(vals.size())], c.fresh());
	c.state(m.hash(false));
}

auto lp_arith(Chooser& c) -> void
{
	Stats st;
	PlainBoard b;
	auto m = start(b, st, false);
	static auto const v = []
	{
		auto r = around_powers(0xFFFFFFFFU);
		r.insert(r.end(), {99, 100, 101, 8000, 8001});
		return r;
	}();
	int const con = c.pick(2);
	auto const first = c.pickv(v);
	auto const other = c.pickv<uint32_t>({0, 5000});
	int const k = c.pick(5);
	auto const amount = c.pickv(v);
	if(k == 3 && uint64_t(first) + amount > 0xFFFFFFFFU)
		return; // Life points beyond 32 bits cannot be expressed.
	step(c, b, m, lp_event(1 - con, 0, other), true);
	step(c, b, m, lp_event(con, 0, first), true);
	step(c, b, m, lp_event(con, k, amount), true);
	c.state(mc::Hasher().add(con).add(first).add(k).add(amount).add(other).h);
}

// A turn number of any width, then the turns after it.
auto turn_numbers(Chooser& c) -> void
{
	Stats st;
	PlainBoard b;
	auto m = start(b, st, false);
	static auto const v = around_powers(0x7FFFFFFFU);
	Event e;
	auto* s = e.mutable_board()->mutable_state();
	s->set_turn_counter(c.pickv(v));
	s->add_lps(8000);
	s->add_lps(8000);
	step(c, b, m, e, true);
	for(int i = 0; i < 3; i++)
	{
		Event n;
		n.set_next_turn(i % 2);
		step(c, b, m, n, true);
	}
	c.state(m.hash(false));
}

auto phases(Chooser& c) -> void
{
	Stats st;
	PlainBoard b;
	auto m = start(b, st, false);
	for(int i = 0; i < 2; i++)
	{
		Event e;
		e.set_next_phase(1U << c.pick(10));
		step(c, b, m, e, true);
	}
	c.state(m.hash(false));
}

template<typename B>
auto masses(Chooser& c) -> void
{
	Stats st;
	B b;
	auto m = start(b, st, false);
	auto const n = MASS[c.pick(7)];
	Event e;
	auto* o = e.mutable_pile()->mutable_resize()->add_ops();
	*o->mutable_place() = pb(P{0, 1, 0, -1});
	o->set_count(n + c.pick(2));
	step(c, b, m, e, true);
	step(c, b, m, mass_event(c, n, m.m), true);
	c.state(m.hash(false));
}

template<typename B>
auto states(Chooser& c) -> void
{
	Stats st;
	B b;
	auto m = start(b, st, c.pickb());
	Event e;
	e.set_next_phase(8);
	step(c, b, m, e, false);
	*e.mutable_zone_block()->add_zones() = pb(P{0, 4, 1, -1});
	step(c, b, m, e, false);
	step(c, b, m, state_event(c), true);
	c.state(m.hash(false));
}

auto exchanges(Chooser& c) -> void
{
	Stats st;
	PlainBoard b;
	auto m = start(b, st, false);
	auto u = small_universe();
	u.zones = {P{0, 4, 0, -1}};
	u.max_mats = 1;
	step(c, b, m, exchange_event(c, u, m.m), true);
	c.state(m.hash(false));
}

auto infos(Chooser& c) -> void
{
	Stats st;
	PlainBoard b;
	auto m = start(b, st, true);
	auto const v = info_events();
	auto const before = m;
	for(int i = 0; i < 2; i++)
	{
		auto const& e = v[c.pick(v.size())];
		step(c, b, m, e, true);
		if(!m.same(before))
			c.internal("information events must not change the reference");
	}
	c.state(mc::Hasher().add(c.choices[0]).add(c.choices[1]).h);
}

auto chains(Chooser& c, unsigned len) -> void
{
	Stats st;
	PlainBoard b;
	auto m = start(b, st, false);
	for(unsigned i = 0; i < len; i++)
	{
		Event e;
		if(!m.chain.empty() && c.pickb())
			e.mutable_chain_stack()->set_pop(c.pickb());
		else
			*e.mutable_chain_stack()->mutable_push() = chain_tag(c.pick(3));
		step(c, b, m, e, true);
	}
	c.state(m.hash(false));
}

auto shuffle_event(Chooser& c, BoardM const& m) -> Event
{
	// P0's monsters are at even places, P1's at odd ones.
	int const con = c.pick(2);
	std::vector<uint32_t> at;
	for(uint32_t s = con; s < 7; s += 2)
		if(m.m.zones[con][s].card != NONE)
			at.push_back(s);
	Event e;
	auto* s = e.mutable_card()->mutable_shuffle();
	auto left = at;
	for(auto q : at)
	{
		*s->add_previous_places() = pb(P{con, 4, q, -1});
		auto const k = c.pick(left.size());
		*s->add_current_places() = pb(P{con, 4, left[k], -1});
		left.erase(left.begin() + k);
	}
	return e;
}

auto shuffles(Chooser& c) -> void
{
	Stats st;
	PlainBoard b;
	auto m = start(b, st, true);
	step(c, b, m, shuffle_event(c, m), true);
	c.state(m.hash(false));
}

template<typename B>
auto sequences(Chooser& c, unsigned len, bool chain_ops) -> void
{
	Stats st;
	B b;
	auto m = start(b, st, false);
	for(unsigned i = 0; i < len; i++)
	{
		if(!c.visit(mc::Hasher().add(m.hash(true)).add(i).h, len - i))
			return;
		auto const v = narrow_events(m, chain_ops);
		step(c, b, m, v[c.pick(v.size())], c.fresh());
	}
}

// Two representative events taking turns, for a long time. Which ones these are
// depends on the board.
struct Turns
{
	uint32_t k[2];
	explicit Turns(Chooser& c, bool chains) : k{c.pick(n(chains)), c.pick(n(chains))}
	{}
	static auto n(bool chains) -> uint32_t { return chains ? 27 : 25; }
	auto at(BoardM const& m, uint32_t i, bool chains) const -> Event
	{
		auto const v = narrow_events(m, chains);
		return v[k[i % 2] % v.size()];
	}
};

mc::Register r07(
	"C07",
	[](bool t)
	{
		std::vector<Space> s;
		s.push_back({"card_and_pile_events",
	                 "every card/pile event with 1 or 2 operations on a small board",
	                 [](Chooser& c)
	                 { ops_twice<PlainBoard>(c, small_universe(), false, 2); }});
		s.push_back({"every_place",
	                 "every card/pile event with one operation over all piles and zones",
	                 [](Chooser& c)
	                 { ops_twice<PlainBoard>(c, everything(), true, 1); }});
		if(t)
			s.push_back({"card_and_pile_events_3",
		                 "every card/pile event with up to 3 operations",
		                 [](Chooser& c)
		                 {
							 auto u = small_universe();
							 u.zones = {P{0, 4, 0, -1}};
							 u.max_mats = 1;
							 u.splice_counts = {2};
							 ops_twice<PlainBoard>(c, u, false, 3);
						 }});
		s.push_back({"values", "every sequence of 3 life/turn/phase/zone events",
	                 full_values});
		s.push_back({"life_points",
	                 "every life point event over boundary values, both players",
	                 lp_arith});
		s.push_back({"turn_numbers",
	                 "turn numbers around every power of two, then three turns",
	                 turn_numbers});
		s.push_back({"phases", "every two phases", phases});
		s.push_back({"masses",
	                 "every kind of event with 3 to 257 operations, or one operation "
	                 "on as many cards",
	                 masses<PlainBoard>});
		s.push_back({"states", "full states: every combination of their parts",
	                 states<PlainBoard>});
		s.push_back({"exchanges",
	                 "board exchanges with up to 2 resizes, removals and additions",
	                 exchanges});
		s.push_back({"information", "every pair of information-only or empty events",
	                 infos});
		s.push_back({"chain", "every sequence of chain pushes and pops",
	                 [t](Chooser& c) { chains(c, t ? 8 : 6); }});
		s.push_back({"shuffle", "every complete monster zone shuffle", shuffles});
		s.push_back({"long",
	                 "every two representative events taking turns, " +
	                     std::to_string(t ? 300 : 140) + " in all",
	                 [t](Chooser& c)
	                 {
						 Turns const turns(c, true);
						 Stats st;
						 PlainBoard b;
						 auto m = start(b, st, false);
						 for(uint32_t i = 0; i < (t ? 300 : 140); i++)
							 step(c, b, m, turns.at(m, i, true), true);
						 c.state(m.hash(false));
					 }});
		s.push_back({"sequences",
	                 "sequences of representative events, depth " +
	                     std::to_string(t ? 6 : 4),
	                 [t](Chooser& c) { sequences<PlainBoard>(c, t ? 6 : 4, true); }});
		return s;
	});

// C08 -----------------------------------------------------------------------

struct Snap
{
	std::vector<void const*> cards;
	BoardM b;
};

template<typename B>
auto snap(B& b) -> Snap
{
	return Snap{addresses(b.frame()), look(b)};
}

template<typename B = HistoryBoard>
struct Timeline
{
	Chooser& c;
	B& b;
	std::vector<Event> events;
	std::vector<Snap> snaps;
	size_t at = 0;
	Timeline(Chooser& ch, B& bo) : c(ch), b(bo)
	{
		snaps.push_back(snap(b));
	}
	auto verify(char const* what) -> void
	{
		if constexpr(std::is_same_v<B, FullBoard>)
			if(b.chain_stack().bad != nullptr)
				c.violation(std::string(what) + ": " + b.chain_stack().bad);
		auto const now = snap(b);
		if(now.cards == snaps[at].cards && now.b.same(snaps[at].b))
			return;
		std::string s = std::string(what) + " did not bring back point " +
		                std::to_string(at) + "; events:";
		for(auto& e : events)
			s += " [" + describe(e) + "]";
		c.violation(s + "; board is " + now.b.str() + "; should be " +
		            snaps[at].b.str());
	}
	auto make(Event const& e) -> void
	{
		LOG(c, "%s", describe(e).c_str());
		parse_event(b, e);
		events.push_back(e);
		at++;
		snaps.push_back(snap(b));
		c.step();
	}
	auto go(size_t to) -> void
	{
		while(at > to)
		{
			LOG(c, "undo %s", describe(events[at - 1]).c_str());
			undo_parse_event(b, events[--at]);
			c.step();
			verify("undo");
		}
		while(at < to)
		{
			LOG(c, "redo %s", describe(events[at]).c_str());
			parse_event(b, events[at++]);
			c.step();
			verify("redo");
		}
	}
	auto everywhere() -> void
	{
		size_t const n = events.size();
		for(size_t p = 0; p < n; p++)
			for(size_t q = 0; q <= n; q++)
			{
				go(p);
				go(q);
			}
		go(0);
		go(n);
	}
};

auto wide_event(Chooser& c, Universe const& u, BoardM const& m, unsigned max_ops)
	-> Event
{
	switch(c.pick(3))
	{
	case 0: return pick_ops_event(c, u, m.m, max_ops);
	case 1:
	{
		auto const v = value_events(0xFFFFFFFFU);
		return v[c.pick(v.size())];
	}
	default:
	{
		// Two very different full states and an information event.
		auto v = narrow_events(m, false);
		std::vector<Event> w;
		for(auto& e : v)
			if(e.has_board())
				w.push_back(e);
		for(auto& e : info_events())
			w.push_back(e);
		return w[c.pick(w.size())];
	}
	}
}

template<typename B = HistoryBoard, typename Gen>
auto undo_space(Chooser& c, unsigned len, bool big, Gen gen) -> void
{
	Stats st;
	B b;
	setup(b, &st, big);
	Timeline<B> t(c, b);
	for(unsigned i = 0; i < len; i++)
		t.make(gen(c, t.snaps.back().b, i));
	c.state(t.snaps.back().b.hash(false));
	c.outcome(t.snaps.back().b.hash(true));
	t.everywhere();
}

mc::Register r08(
	"C08",
	[](bool t)
	{
		std::vector<Space> s;
		s.push_back({"one_wide",
	                 "every single event with up to 2 operations, undone and redone",
	                 [](Chooser& c)
	                 {
						 undo_space(c, 1, false,
		                            [](Chooser& ch, BoardM const& m, unsigned)
		                            { return wide_event(ch, small_universe(), m, 2); });
					 }});
		s.push_back({"every_place",
	                 "every single-operation event over all piles and zones, undone "
	                 "and redone",
	                 [](Chooser& c)
	                 {
						 undo_space(c, 1, true,
		                            [](Chooser& ch, BoardM const& m, unsigned)
		                            { return pick_ops_event(ch, everything(), m.m, 1); });
					 }});
		s.push_back({"states", "full states, every combination of their parts",
	                 [](Chooser& c)
	                 {
						 undo_space(c, 1, c.pickb(),
		                            [](Chooser& ch, BoardM const&, unsigned)
		                            { return state_event(ch); });
					 }});
		s.push_back({"exchanges", "board exchanges with up to 2 operations of each kind",
	                 [t](Chooser& c)
	                 {
						 undo_space(c, 1, false,
		                            [t](Chooser& ch, BoardM const& m, unsigned)
		                            {
										auto u = small_universe();
										u.zones = {P{0, 4, 0, -1}};
										u.max_mats = 1;
										if(!t)
											u.max_pile = 2;
										return exchange_event(ch, u, m.m);
									});
					 }});
		s.push_back({"pairs",
	                 "every pair of single-operation events, all walks between points",
	                 [t](Chooser& c)
	                 {
						 undo_space(c, 2, false,
		                            [t](Chooser& ch, BoardM const& m, unsigned)
		                            {
										auto u = small_universe();
										u.splice_counts = {2};
										if(!t)
										{
											u.zones = {P{0, 4, 0, -1}};
											u.max_mats = 1;
										}
										return wide_event(ch, u, m, 1);
									});
					 }});
		s.push_back({"chains",
	                 "every sequence of " + std::to_string(t ? 6 : 5) +
	                     " chain pushes, pops, full states and life point changes, "
	                     "all walks between points, on a board whose chain stack "
	                     "can undo them",
	                 [t](Chooser& c)
	                 {
						 undo_space<FullBoard>(
							 c, t ? 6 : 5, false,
							 [](Chooser& ch, BoardM const& m, unsigned) -> Event
							 {
								 Event e;
								 bool const pop = !m.chain.empty();
								 switch(ch.pick(4 + pop))
								 {
								 case 0:
								 case 1:
									 *e.mutable_chain_stack()->mutable_push() =
										 chain_tag(ch.choices.back());
									 break;
								 case 2:
								 {
									 auto* s = e.mutable_board()->mutable_state();
									 s->set_turn_counter(-1);
									 s->add_lps(8000);
									 s->add_lps(100);
									 *s->add_chains() = chain_tag(1);
									 *s->add_chains() = chain_tag(2);
									 break;
								 }
								 case 3: return lp_event(0, 1, 100);
								 default: e.mutable_chain_stack()->set_pop(true);
								 }
								 return e;
							 });
					 }});
		s.push_back({"shuffles",
	                 "every complete monster zone shuffle, then every event of a "
	                 "short list, all walks between points, on a board whose frame "
	                 "can undo shuffles",
	                 [](Chooser& c)
	                 {
						 undo_space<FullBoard>(
							 c, 2, true,
							 [](Chooser& ch, BoardM const& m, unsigned i) -> Event
							 {
								 if(i == 0)
									 return shuffle_event(ch, m);
								 auto v = narrow_events(m, false);
								 return v[ch.pick(v.size())];
							 });
					 }});
		s.push_back({"narrow_sequences",
	                 "every sequence of " + std::to_string(t ? 4 : 3) +
	                     " representative events, all walks between points",
	                 [t](Chooser& c)
	                 {
						 undo_space(c, t ? 4 : 3, false,
		                            [](Chooser& ch, BoardM const& m, unsigned)
		                            {
										auto v = narrow_events(m, false);
										return v[ch.pick(v.size())];
									});
					 }});
		s.push_back({"long",
	                 "every two representative events taking turns, " +
	                     std::to_string(t ? 300 : 140) +
	                     " in all, undone and redone all the way and from the middle",
	                 [t](Chooser& c)
	                 {
						 Turns const turns(c, false);
						 Stats st;
						 HistoryBoard b;
						 setup(b, &st, false);
						 Timeline<> tl(c, b);
						 size_t const n = t ? 300 : 140;
						 for(uint32_t i = 0; i < n; i++)
							 tl.make(turns.at(tl.snaps.back().b, i, false));
						 for(size_t to : {size_t{0}, n, n / 2, n - 1, size_t{0}})
							 tl.go(to);
						 c.state(tl.snaps.back().b.hash(false));
						 c.outcome(tl.snaps.back().b.hash(true));
					 }});
		s.push_back({"walks",
	                 "every walk of " + std::to_string(t ? 8 : 6) +
	                     " steps: a new event from a short list (at the end), undo or "
	                     "redo",
	                 [t](Chooser& c)
	                 {
						 Stats st;
						 HistoryBoard b;
						 setup(b, &st, false);
						 Timeline<> tl(c, b);
						 for(int i = 0; i < (t ? 8 : 6); i++)
						 {
							 std::vector<Event> v;
							 if(tl.at == tl.events.size())
								 for(auto& e : narrow_events(tl.snaps.back().b, false))
									 if(e.has_lp() || e.has_pile() || e.has_board())
										 v.push_back(e);
							 bool const u = tl.at > 0, r = tl.at < tl.events.size();
							 if(v.size() > 5)
								 v.resize(5);
							 uint32_t const k = c.pick(v.size() + u + r);
							 if(k < v.size())
								 tl.make(v[k]);
							 else if(u && k == v.size())
								 tl.go(tl.at - 1);
							 else
								 tl.go(tl.at + 1);
						 }
						 c.state(mc::Hasher()
			                         .add(tl.snaps[tl.at].b.hash(false))
			                         .add(tl.at)
			                         .add(tl.events.size())
			                         .h);
					 }});
		s.push_back({"masses",
	                 "every kind of event with 3 to 257 operations, or one operation "
	                 "on as many cards",
	                 [t](Chooser& c)
	                 {
						 auto const n = MASS[t ? c.pick(7) : 2 + 4 * c.pick(2)];
						 auto const more = c.pick(2);
						 undo_space(c, 2, false,
		                   [n, more](Chooser& ch, BoardM const& m, unsigned i)
		                   {
							   if(i == 1)
								   return mass_event(ch, n, m.m);
							   Event e;
							   auto* o = e.mutable_pile()->mutable_resize()->add_ops();
							   *o->mutable_place() = pb(P{0, 1, 0, -1});
							   o->set_count(n + more);
							   return e;
						   });
					 }});
		return s;
	});

// C28 -----------------------------------------------------------------------

template<typename Gen>
auto twin_space(Chooser& c, unsigned len, bool big, Gen gen) -> void
{
	Stats s1, s2;
	PlainBoard a;
	HistoryBoard b;
	setup(a, &s1, big);
	setup(b, &s2, big);
	std::vector<Event> ev;
	auto agree = [&](char const* when)
	{
		auto const x = look(a), y = look(b);
		if(x.same(y))
			return;
		std::string s;
		for(auto& e : ev)
			s += " [" + describe(e) + "]";
		c.violation(std::string("the boards differ ") + when + " after" + s +
		            "; plain: " + x.str() + "; history-keeping: " + y.str());
	};
	agree("at the start");
	for(unsigned i = 0; i < len; i++)
	{
		ev.push_back(gen(c, look(b), i));
		LOG(c, "%s", describe(ev.back()).c_str());
		parse_event(a, ev.back());
		parse_event(b, ev.back());
		c.step(2);
		if(c.fresh())
			agree("live");
	}
	c.state(look(b).hash(false));
	c.outcome(look(b).hash(true));
	// Back to every earlier point and forth again; the plain boards of earlier
	// points are made anew.
	for(size_t k = ev.size(); k-- > 0;)
	{
		LOG(c, "walk back to %zu and forth", k);
		for(size_t i = ev.size(); i-- > k;)
			undo_parse_event(b, ev[i]);
		{
			Stats s3;
			PlainBoard d;
			setup(d, &s3, big);
			for(size_t i = 0; i < k; i++)
				parse_event(d, ev[i]);
			auto const x = look(d), y = look(b);
			if(!x.same(y))
				c.violation("after walking back to point " + std::to_string(k) +
				            " the board is " + y.str() + "; a plain one is " +
				            x.str());
		}
		for(size_t i = k; i < ev.size(); i++)
			parse_event(b, ev[i]);
		c.step(2 * (ev.size() - k));
		agree("after a walk back and forth");
	}
}

mc::Register r28(
	"C28",
	[](bool t)
	{
		std::vector<Space> s;
		s.push_back({"one_wide", "every single event with up to 2 operations",
	                 [](Chooser& c)
	                 {
						 twin_space(c, 1, false,
		                            [](Chooser& ch, BoardM const& m, unsigned)
		                            { return wide_event(ch, small_universe(), m, 2); });
					 }});
		s.push_back({"every_place", "every single-operation event over all places",
	                 [](Chooser& c)
	                 {
						 twin_space(c, 1, true,
		                            [](Chooser& ch, BoardM const& m, unsigned)
		                            { return pick_ops_event(ch, everything(), m.m, 1); });
					 }});
		s.push_back({"states", "full states, every combination of their parts",
	                 [](Chooser& c)
	                 {
						 twin_space(c, 1, c.pickb(),
		                            [](Chooser& ch, BoardM const&, unsigned)
		                            { return state_event(ch); });
					 }});
		s.push_back({"long",
	                 "every two representative events taking turns, " +
	                     std::to_string(t ? 90 : 48) + " in all",
	                 [t](Chooser& c)
	                 {
						 Turns const turns(c, false);
						 twin_space(c, t ? 90 : 48, false,
		                            [&](Chooser&, BoardM const& m, unsigned i)
		                            { return turns.at(m, i, false); });
					 }});
		s.push_back({"pairs", "every pair of single-operation events",
	                 [t](Chooser& c)
	                 {
						 twin_space(c, 2, false,
		                            [t](Chooser& ch, BoardM const& m, unsigned)
		                            {
										auto u = small_universe();
										u.splice_counts = {2};
										if(!t)
										{
											u.zones = {P{0, 4, 0, -1}};
											u.max_mats = 1;
										}
										return wide_event(ch, u, m, 1);
									});
					 }});
		s.push_back({"narrow_sequences",
	                 "every sequence of " + std::to_string(t ? 4 : 3) +
	                     " representative events",
	                 [t](Chooser& c)
	                 {
						 twin_space(c, t ? 4 : 3, false,
		                            [](Chooser& ch, BoardM const& m, unsigned)
		                            {
										auto v = narrow_events(m, false);
										return v[ch.pick(v.size())];
									});
					 }});
		s.push_back({"masses",
	                 "every kind of event with 3 to 257 operations, or one operation "
	                 "on as many cards",
	                 [t](Chooser& c)
	                 {
						 auto const n = MASS[t ? c.pick(7) : 2 + 4 * c.pick(2)];
						 auto const more = c.pick(2);
						 twin_space(c, 2, false,
		                   [n, more](Chooser& ch, BoardM const& m, unsigned i)
		                   {
							   if(i == 1)
								   return mass_event(ch, n, m.m);
							   Event e;
							   auto* o = e.mutable_pile()->mutable_resize()->add_ops();
							   *o->mutable_place() = pb(P{0, 1, 0, -1});
							   o->set_count(n + more);
							   return e;
						   });
					 }});
		return s;
	});

} // namespace

int main(int argc, char** argv)
{
	return mc::main_(argc, argv);
}
