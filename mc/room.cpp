// C20 to C25: the pre-duel room, driven through every order of entries and
// signals within bounds.
#include "room_gen.hpp"

using namespace rg;

namespace
{

using Space = mc::Space;

struct Walk
{
	std::vector<std::array<uint32_t, 2>> sizes;
	int clients = 4;
	int depth = 4;
	uint32_t decks = 2;
	bool odd = false;   // Odd signals, too.
	bool prune = false; // Cut repeated states (with the last action).
	bool same_users = false;
	bool effective = false; // Only actions that have an effect.
};

auto setup(Chooser& c, Walk const& w) -> Setup
{
	Setup s;
	auto const& z = w.sizes[c.pick(w.sizes.size())];
	s.size[0] = z[0];
	s.size[1] = z[1];
	s.clients = w.clients;
	s.same_users = w.same_users;
	return s;
}

// All sequences of actions; `judge` is called after each.
template<typename Judge>
auto walk(Chooser& c, Walk const& w) -> void
{
	Party p(c, setup(c, w));
	Judge j(c, p);
	p.room.reset();
	p.open();
	j.opened();
	uint64_t last = 0;
	for(int i = 0; i < w.depth; i++)
	{
		if(w.prune)
		{
			mc::Hasher h;
			h.add(p.hash()).add(last);
			if(!c.visit(h.h, w.depth - i))
				return;
		}
		auto as = p.acts(w.decks, w.odd);
		if(w.effective)
		{
			std::vector<Act> v;
			for(auto& a : as)
				if(p.has_effect(a))
					v.push_back(a);
			as = v;
		}
		if(as.empty())
			break;
		auto const k = c.pick(as.size());
		auto const a = as[k];
		last = (uint64_t(a.kind) << 32U) | (a.who == 0 ? 256U : 0U) | a.arg;
		j.before(a);
		p.run(a);
		j.after(a);
		p.fold();
		if(p.deciding)
			break;
	}
	c.outcome(p.hash());
}

// A long time before the start: which action is next follows a pattern.
template<typename Judge>
auto long_walk(Chooser& c, Walk const& w, uint32_t len) -> void
{
	auto const s = setup(c, w);
	std::vector<uint32_t> pat;
	for(uint32_t i = 0; i < len; i++)
		pat.push_back(i == 0 ? c.pick(12) : c.pick(7));
	Party p(c, s);
	Judge j(c, p);
	p.room.reset();
	p.open();
	j.opened();
	auto act = [&](Act const& a)
	{
		j.before(a);
		p.run(a);
		j.after(a);
		p.fold();
	};
	for(int i = 0; i < w.depth && !p.deciding; i++)
	{
		std::vector<Act> v;
		bool const eff = i % 4 != 3; // Mostly what has an effect.
		for(auto& a : p.acts(w.decks, w.odd))
		{
			bool const has = p.has_effect(a);
			if(a.kind == Act::START && has)
				continue;
			if(has || !eff)
				v.push_back(a);
		}
		if(v.empty())
			continue;
		c.pattern = pat;
		auto const k = c.pick(v.size());
		c.pattern.clear();
		act(v[k]);
	}
	for(int i = 1; i < s.clients; i++)
		if(!p.in[i])
			act({Act::ENTER, i, 0});
	for(int i = 0; i < s.clients; i++)
		if(p.seat[i])
		{
			act({Act::DECK, i, 0});
			act({Act::READY, i, 1});
		}
	act({Act::START, 0, 0});
	c.outcome(p.hash());
}

// Many spectators. In between, duelists are busy.
template<typename Judge>
auto crowd(Chooser& c, Walk const& w) -> void
{
	auto const s = setup(c, w);
	Party p(c, s);
	Judge j(c, p);
	p.open();
	j.opened();
	auto const every = 1 + c.pick(3);
	auto act = [&](Act const& a)
	{
		j.before(a);
		p.run(a);
		j.after(a);
		p.fold();
	};
	for(int i = 1; i < s.clients; i++)
	{
		act({Act::ENTER, i, 0});
		if(uint32_t(i) % every == 0)
		{
			act({Act::DECK, 0, uint32_t(i) / every % 2});
			act({Act::READY, 0, uint32_t(i) / every % 2});
		}
		if(uint32_t(i) % (17 * every) == 0)
		{
			act({Act::DECK, i, 0});
			act({Act::READY, i, 1});
			act({Act::START, i, 0});
		}
	}
	for(int i = 0; i < s.clients; i++)
		if(p.seat[i])
		{
			act({Act::DECK, i, 0});
			act({Act::READY, i, 1});
		}
	act({Act::START, 0, 0});
	if constexpr(Judge::CHOOSES)
	{
		act({Act::CHOOSE, s.clients - 1, 0});
		act({Act::CHOOSE, 0, 1});
	}
	c.outcome(p.hash());
}

struct Judge
{
	Chooser& c;
	Party& p;
	static constexpr bool CHOOSES = true;
	Judge(Chooser& ch, Party& pa) : c(ch), p(pa) {}
	auto opened() -> void {}
	auto before(Act const&) -> void {}
	auto after(Act const&) -> void {}
};

// C20 -----------------------------------------------------------------------

struct Seating : Judge
{
	using Judge::Judge;
	std::optional<Seat> want;
	uint32_t spectators = 0;
	auto expect() -> void
	{
		// From the seats given so far.
		want.reset();
		std::set<uint32_t> taken[2];
		for(size_t i = 0; i < p.clients.size(); i++)
			if(p.seat[i])
				taken[p.seat[i]->team].insert(p.seat[i]->pos);
		for(auto t : {taken[0].size() <= taken[1].size() ? 0U : 1U,
		              taken[0].size() <= taken[1].size() ? 1U : 0U})
			for(uint32_t pos = 0; pos < p.s.size[t] && !want; pos++)
				if(taken[t].count(pos) == 0)
					want = Seat{t, pos};
		spectators = p.spectators() + (want ? 0 : 1);
	}
	auto before(Act const& a) -> void
	{
		if(a.kind == Act::ENTER)
			expect();
	}
	auto judge(int who) -> void
	{
		if(!c.fresh())
			return;
		// Everybody in the room was told.
		for(size_t i = 0; i < p.clients.size(); i++)
		{
			if(!p.in[i])
				continue;
			std::string told;
			for(auto& e : p.fresh(int(i)))
			{
				if(e.has_configuring() && e.configuring().has_duelist_enters())
				{
					auto const& d = e.configuring().duelist_enters();
					told += "seat " + Seat{d.team(), d.pos()}.str();
				}
				if(e.t_case() == Ev::kSpectatorCount)
					told += "spectator " + std::to_string(e.spectator_count());
			}
			auto const w = want ? "seat " + want->str()
			                    : "spectator " + std::to_string(spectators);
			CHECK(c, told == w,
			      "client " + std::to_string(who) +
			          " enters and should become " + w + ", but client " +
			          std::to_string(i) + " was told: " + told);
		}
		std::set<Seat> all;
		for(auto& s : p.seat)
			if(s)
				CHECK(c, all.insert(*s).second, "two clients at " + s->str());
	}
	auto opened() -> void
	{
		want = Seat{0, 0};
		CHECK(c,
		      p.seat[0] && *p.seat[0] == *want &&
		          !p.clients[0]->got.empty(),
		      "the host is not seated first");
	}
	auto after(Act const& a) -> void
	{
		if(a.kind == Act::ENTER)
			judge(a.who);
	}
};

// Entries up to two more than there are seats; then, with `full`, everybody
// submits a deck and gets ready, and the host starts. A few deviations on the
// way: any signal in between, or another order.
template<typename J>
auto fill(Chooser& c, bool odd, bool full, bool same_users) -> void
{
	Setup s;
	s.size[0] = 1 + c.pick(3);
	s.size[1] = 1 + c.pick(3);
	s.clients = int(s.size[0] + s.size[1]) + 2;
	s.same_users = same_users && c.pickb();
	Party p(c, s);
	J j(c, p);
	p.open();
	j.opened();
	auto act = [&](Act const& a)
	{
		j.before(a);
		p.run(a);
		j.after(a);
		p.fold();
	};
	auto between = [&]
	{
		auto as = p.acts(2, odd);
		std::vector<Act> v;
		for(auto& a : as)
			if(a.kind != Act::ENTER)
				v.push_back(a);
		if(auto const k = c.dev(v.size() + 1); k != 0)
			act(v[k - 1]);
		return !p.deciding;
	};
	std::vector<int> todo;
	for(int i = 1; i < s.clients; i++)
		todo.push_back(i);
	while(!todo.empty())
	{
		if(!between())
			return;
		// Usually the next one enters; another one may be earlier.
		auto const k = c.dev(todo.size());
		Act const a{Act::ENTER, todo[k], 0};
		todo.erase(todo.begin() + k);
		act(a);
	}
	if(full)
	{
		for(int i = 0; i < s.clients; i++)
		{
			if(!p.seat[i])
				continue;
			act({Act::DECK, i, 0});
			act({Act::READY, i, 1});
		}
		if(!between())
			return;
		act({Act::START, 0, 0});
	}
	c.outcome(p.hash());
}

// C21 -----------------------------------------------------------------------

struct Views : Judge
{
	using Judge::Judge;
	View old;
	bool effect = false;
	auto consistent(char const* when) -> void
	{
		auto const t = p.truth();
		for(size_t i = 0; i < p.clients.size(); i++)
		{
			if(!p.in[i])
			{
				CHECK(c, p.clients[i]->got.empty(),
				      "somebody outside of the room was sent something");
				continue;
			}
			auto v = p.views[i];
			for(auto& e : p.fresh(int(i)))
				v.fold(e);
			CHECK(c, v.error.empty(),
			      "client " + std::to_string(i) + ": " + v.error);
			CHECK(c, v == t,
			      std::string(when) + ": client " + std::to_string(i) +
			          " sees\n  " + v.str() + "\nbut the room is\n  " +
			          t.str() + (v.options == t.options ? "" : " (options)"));
		}
	}
	auto opened() -> void { consistent("after the room was made"); }
	auto before(Act const& a) -> void
	{
		old = p.truth();
		effect = p.has_effect(a);
	}
	auto after(Act const& a) -> void
	{
		if(!c.fresh())
			return;
		for(size_t i = 0; i < p.clients.size(); i++)
		{
			auto const ev = p.fresh(int(i));
			auto const n = ev.size();
			size_t want = 0;
			if(effect && p.in[i])
				switch(a.kind)
				{
				case Act::ENTER: want = a.who == int(i) ? 2 : 1; break;
				case Act::DECK: want = a.who == int(i) ? 1 : 0; break;
				case Act::READY: want = 1; break;
				// How a start goes on is not of interest here.
				default: want = n; break;
				}
			CHECK(c, n == want,
			      "client " + std::to_string(i) + " was sent " +
			          std::to_string(n) + " events instead of " +
			          std::to_string(want) + " after " + a.str());
			if(a.kind == Act::ENTER && a.who == int(i))
			{
				CHECK(c,
				      ev[0].has_configuring() &&
				          ev[0].configuring().has_entering_state(),
				      "a newcomer is not sent a snapshot first");
				View v;
				v.fold(ev[0]);
				CHECK(c, v == old,
				      "a newcomer's snapshot is\n  " + v.str() +
				          "\nbut the others know\n  " + old.str());
			}
			if(effect && a.kind == Act::DECK && a.who == int(i))
				CHECK(c,
				      ev[0].has_configuring() &&
				          ev[0].configuring().has_deck_status(),
				      "a deck is answered by something else");
		}
		consistent(a.str().c_str());
	}
};

// C22 -----------------------------------------------------------------------

struct Starting : Judge
{
	using Judge::Judge;
	static constexpr bool CHOOSES = false; // Looks no further than the start.
	bool can = false, effect = false;
	std::vector<bool> was;
	int calls = 0;
	auto before(Act const& a) -> void
	{
		can = a.kind == Act::START && a.who == 0 && p.can_start();
		effect = p.has_effect(a);
		was = p.ready;
		calls = p.validator.calls;
	}
	auto after(Act const& a) -> void
	{
		if(!c.fresh())
			return;
		bool left = false;
		for(size_t i = 0; i < p.clients.size(); i++)
			for(auto& e : p.fresh(int(i)))
				left |= e.has_deciding_first_turn();
		CHECK(c, !(left && !can), "the room starts after " + a.str());
		CHECK(c, !(can && !left),
		      "the host cannot start though everybody is ready");
		CHECK(c, !p.validator.wrong_banlist,
		      "a deck was checked against another ban list");
		if(a.kind == Act::DECK && p.seat[a.who])
		{
			auto const d = deck(a.arg);
			CHECK(c,
			      p.validator.calls > calls &&
			          p.validator.last == d.SerializeAsString(),
			      "another deck than the submitted one was checked");
			int answers = 0;
			for(auto& e : p.fresh(a.who))
				if(e.has_configuring() && e.configuring().has_deck_status())
				{
					answers++;
					auto const& ds = e.configuring().deck_status();
					DeckError err;
					bool const ok = Validator::verdict(d, err);
					CHECK(c, ds.has_deck_error() == !ok,
					      std::string("a deck that was ") +
					          (ok ? "accepted" : "rejected") +
					          " is reported as the opposite");
					CHECK(c,
					      ok || ds.deck_error().SerializeAsString() ==
					                err.SerializeAsString(),
					      "not the validator's error is reported");
				}
			CHECK(c, answers == 1, "a submitted deck is not answered");
		}
		// Ready changes, as seen by the host.
		auto v = p.views[0];
		for(auto& e : p.fresh(0))
			v.fold(e);
		for(size_t i = 0; i < p.clients.size(); i++)
		{
			if(!p.seat[i] || v.duelists.count(*p.seat[i]) == 0)
				continue;
			bool const shown = v.duelists[*p.seat[i]].ready;
			bool const want = a.kind == Act::READY && a.who == int(i) && effect
			                      ? a.arg != 0
			                      : bool(was[i]);
			CHECK(c, shown == want,
			      "client " + std::to_string(i) + " is shown as " +
			          (shown ? "ready" : "not ready") + " after " + a.str());
		}
	}
};

// C23 -----------------------------------------------------------------------

auto decide(Chooser& c, int max_draws, bool many, int ties = 0) -> void
{
	Setup s;
	static pr::FirstTurnDecideMethod const ms[] = {
		pr::FTDM_DICE, pr::FTDM_COIN, pr::FTDM_HOST_CHOOSES, pr::FTDM_RPS};
	s.method = ms[ties > 0 ? 0 : c.pick(4)];
	s.size[0] = 1 + c.pick(many ? 3 : 2);
	s.size[1] = 1 + c.pick(many ? 3 : 2);
	int const most = int(s.size[0] + s.size[1]) + 1;
	s.clients = 2 + int(c.pick(most - 1));
	Party p(c, s);
	int draws = 0;
	auto* const chooser = &c;
	// That many ties to begin with.
	int const first_ties = ties > 0 ? int(c.pick(ties + 1)) : 0;
	uint32_t face = ties > 0 ? c.pick(6) : 0;
	p.dice.ask = [&draws, &face, first_ties, chooser, max_draws]() -> uint32_t
	{
		int const n = draws++ - 2 * first_ties;
		if(n < 0)
			return n % 2 == 0 ? face = (face + 1) % 6 : face;
		if(n >= max_draws)
			return n % 2 ? 0 : 5;
		return chooser->pick(6);
	};
	p.open();
	for(int i = 1; i < s.clients; i++)
		p.run({Act::ENTER, i, 0});
	// In either order of readiness.
	bool const rev = c.pickb();
	for(int k = 0; k < s.clients; k++)
	{
		int const i = rev ? s.clients - 1 - k : k;
		p.run({Act::DECK, i, 0});
		p.run({Act::READY, i, 1});
	}
	p.fold();
	if(!p.can_start())
		c.internal("the room cannot start");
	p.run({Act::START, 0, 0});

	auto bad = [&](std::string const& m) { c.violation(m); };
	std::string common;
	int asked = -1;
	std::optional<uint32_t> first;
	for(int i = 0; i < s.clients; i++)
	{
		auto const ev = p.fresh(i);
		auto const who = "client " + std::to_string(i);
		if(ev.empty() || !ev[0].has_deciding_first_turn() ||
		   !ev[0].deciding_first_turn().has_entering_state())
			bad(who + " is not told that the decision begins");
		int results = 0;
		for(size_t k = 1; k < ev.size(); k++)
		{
			if(!ev[k].has_deciding_first_turn())
				bad(who + " is sent something else");
			auto const& d = ev[k].deciding_first_turn();
			if(d.has_entering_state())
				bad(who + " is told twice that the decision begins");
			if(d.has_result())
			{
				results++;
				auto const r = d.result().SerializeAsString();
				if(!first)
				{
					common = r;
					first = d.result().team_going_first();
				}
				else if(r != common)
					bad(who + " is told another result");
				if(asked == i)
					bad(who + " is asked before the result");
			}
			if(d.t_case() == Ev::DecidingFirstTurn::kDecideFirstTurn)
			{
				if(!d.decide_first_turn())
					bad(who + " is asked not to decide");
				if(asked >= 0)
					bad("there is more than one request to decide");
				asked = i;
			}
		}
		bool const drawn = s.method == pr::FTDM_DICE || s.method == pr::FTDM_COIN;
		if(s.method != pr::FTDM_RPS && results != (drawn ? 1 : 0))
			bad(who + " is sent " + std::to_string(results) + " results");
	}
	if(!p.clients[p.stranger()]->got.empty())
		bad("somebody outside of the room was sent something");
	if(s.method == pr::FTDM_RPS)
	{
		c.outcome(p.hash());
		return;
	}
	if(s.method == pr::FTDM_HOST_CHOOSES)
	{
		if(asked != 0)
			bad("not the host is asked, but " + std::to_string(asked));
	}
	else
	{
		Ev::DecidingFirstTurn::Result r;
		r.ParseFromString(common);
		uint32_t winner = 2;
		if(s.method == pr::FTDM_DICE)
		{
			if(!r.has_dice() || r.dice().results_size() == 0)
				bad("no dice results");
			int const n = r.dice().results_size();
			for(int i = 0; i < n; i++)
			{
				auto const a = r.dice().results(i).team0(),
						   b = r.dice().results(i).team1();
				if(a < 1 || a > 6 || b < 1 || b > 6)
					bad("a die shows " + std::to_string(a) + " or " +
					    std::to_string(b));
				if((a == b) != (i + 1 < n))
					bad("the dice do not end at the first unequal pair");
				winner = a > b ? 0 : 1;
			}
			c.outcome(n * 100 + r.dice().results(n - 1).team0() * 10 +
			          r.dice().results(n - 1).team1());
		}
		else
		{
			if(r.t_case() != Ev::DecidingFirstTurn::Result::kCoinResult)
				bad("no coin result");
			if(int(r.coin_result()) != 0 && int(r.coin_result()) != 1)
				bad("the coin shows neither side");
			winner = r.coin_result() ==
			                 Ev::DecidingFirstTurn::Result::COIN_RESULT_HEADS
			             ? 0
			             : 1;
		}
		if(r.team_going_first() != winner)
			bad("team " + std::to_string(winner) + " won, but team " +
			    std::to_string(r.team_going_first()) + " is announced");
		if(asked != p.team(winner).front())
			bad("client " + std::to_string(asked) +
			    " is asked instead of the leader of team " +
			    std::to_string(winner));
		return;
	}
	// The host's choice, possibly after something that is none.
	p.fold();
	std::vector<Act> wrong;
	for(int i = 1; i <= p.stranger(); i++)
		for(uint32_t t = 0; t < 2; t++)
			wrong.push_back({Act::CHOOSE, i, t});
	for(uint32_t t : {2U, 3U, 256U, 0x80000000U, 0xFFFFFFFFU})
		wrong.push_back({Act::CHOOSE, 0, t});
	wrong.push_back({Act::EMPTY_DEC, 0, 0});
	wrong.push_back({Act::READY, 0, 0});
	wrong.push_back({Act::START, 0, 0});
	for(int n = 0; n < (many ? 1 : 2); n++)
	{
		auto const k = c.pick(wrong.size() + 1);
		if(k == 0)
			break;
		p.run(wrong[k - 1]);
		for(size_t i = 0; i < p.clients.size(); i++)
			if(!p.fresh(int(i)).empty())
				bad(wrong[k - 1].str() + ": something was announced to " +
				    std::to_string(i));
	}
	uint32_t const t = c.pick(2);
	p.run({Act::CHOOSE, 0, t});
	for(int i = 0; i < s.clients; i++)
	{
		auto const ev = p.fresh(i);
		if(ev.size() != 1 || !ev[0].has_deciding_first_turn() ||
		   !ev[0].deciding_first_turn().has_result() ||
		   ev[0].deciding_first_turn().result().team_going_first() != t)
			bad("client " + std::to_string(i) +
			    " is not told of the choice of team " + std::to_string(t));
	}
	if(!p.clients[p.stranger()]->got.empty())
		bad("somebody outside of the room was told of the choice");
	c.outcome(p.hash() + t);
}

// Every face of both dice and both sides of the coin come up.
auto faces(Chooser& c) -> void
{
	bool const dice = c.pickb();
	std::set<uint32_t> seen;
	for(uint32_t a = 0; a < 6; a++)
		for(uint32_t b = 0; b < 6; b++)
		{
			Setup s;
			s.method = dice ? pr::FTDM_DICE : pr::FTDM_COIN;
			s.clients = 2;
			Party p(c, s);
			*p.dice.faces = {a, b};
			p.open();
			p.run({Act::ENTER, 1, 0});
			for(int i = 0; i < 2; i++)
			{
				p.run({Act::DECK, i, 0});
				p.run({Act::READY, i, 1});
			}
			p.run({Act::START, 0, 0});
			for(auto& e : p.clients[0]->got)
				if(e.has_deciding_first_turn() &&
				   e.deciding_first_turn().has_result())
				{
					auto const& r = e.deciding_first_turn().result();
					if(dice && r.dice().results_size() > 0)
						seen.insert(r.dice().results(0).team0() * 10 +
						            r.dice().results(0).team1());
					if(!dice)
						seen.insert(r.coin_result());
				}
		}
	CHECK(c, seen.size() == (dice ? 36 : 2),
	      std::string("only ") + std::to_string(seen.size()) + " different " +
	          (dice ? "first rolls" : "coin results") + " can come up");
}

// C24 -----------------------------------------------------------------------

auto options(Chooser& c, bool thorough) -> void
{
	static uint32_t const vals[] = {0, 1, 2, 3, 4, 255, 256, 0x7FFFFFFF,
	                                0x80000000U, 0xFFFFFFFFU};
	size_t const nv = thorough ? 10 : 7;
	static uint32_t const few[] = {1, 0, 2, 3, 4, 256, 0xFFFFFFFFU};
	pr::Options o;
	auto const len = c.pick(thorough ? 6 : 5);
	std::vector<uint32_t> list;
	for(uint32_t i = 0; i < len; i++)
		list.push_back(i < 2        ? (thorough ? vals[c.pick(nv)] : few[c.pick(nv)])
		               : len == 3 ? few[c.pick(4)]
		                          : few[i % 4]);
	for(auto v : list)
		o.add_max_duelists(v);
	switch(c.pick(3))
	{
	case 1: o.set_banlist_id("some list"); break;
	case 2:
		o.mutable_custom_banlist()->set_title("mine");
		o.mutable_custom_banlist()->add_forbidden(4);
		o.mutable_custom_banlist()->add_whitelist(5);
		break;
	default: break;
	}
	static int const methods[] = {0, 1, 2, 3, 9};
	o.set_ftdm(pr::FirstTurnDecideMethod(methods[c.pick(5)]));
	switch(c.pick(3))
	{
	case 1:
		o.mutable_deck_limits()->mutable_main()->set_min(40);
		o.mutable_deck_limits()->mutable_main()->set_max(-1);
		o.mutable_deck_limits()->mutable_extra()->set_max(15);
		o.mutable_deck_limits()->mutable_side();
		break;
	case 2:
		o.mutable_deck_limits();
		// Something a newer version knows of.
		o.MergeFromString(std::string("\xFA\x07\x01x", 4));
		break;
	default: break;
	}
	pr::Options want = o;
	want.clear_max_duelists();
	uint32_t size[2];
	for(size_t i = 0; i < 2; i++)
	{
		size[i] = i < list.size() ? list[i] : 1;
		size[i] = size[i] < 1   ? 1
		          : size[i] > 3 ? 3
		                        : size[i];
		want.add_max_duelists(size[i]);
	}
	std::string lists = "sizes (";
	for(auto v : list)
		lists += std::to_string(v) + " ";
	LOG(c, "%s)", lists.c_str());
	Setup s;
	s.size[0] = size[0];
	s.size[1] = size[1];
	s.clients = 8;
	Party p(c, s);
	p.validator.banlist = o.banlist_id();
	p.options = o;
	p.open();
	auto judge = [&](int who)
	{
		int n = 0;
		for(auto& e : p.clients[who]->got)
			if(e.has_configuring() && e.configuring().has_entering_state())
			{
				n++;
				auto const& got = e.configuring().entering_state().options();
				CHECK(c,
				      got.SerializeAsString() == want.SerializeAsString(),
				      "client " + std::to_string(who) +
				          " is told other options for " + lists + ")");
			}
		CHECK(c, n > 0, "no snapshot for client " + std::to_string(who));
	};
	judge(0);
	// Whoever comes later is told the same, whatever happens in between.
	int const noise = int(c.pick(3));
	for(int i = 1; i < 8; i++)
	{
		if(noise == 1)
			p.run({Act::DECK, i - 1, uint32_t(i % 4)});
		if(noise == 2)
		{
			p.run({Act::DECK, i - 1, 0});
			p.run({Act::READY, i - 1, 1});
		}
		p.run({Act::ENTER, i, 0});
		judge(i);
	}
	CHECK(c, p.team(0).size() == size[0] && p.team(1).size() == size[1],
	      "the room seats " + std::to_string(p.team(0).size()) + " and " +
	          std::to_string(p.team(1).size()) + " duelists for " + lists + ")");
	c.outcome(size[0] * 10 + size[1]);
}

// C25 -----------------------------------------------------------------------

// Two rooms with the same history, but for one signal without standing.
auto standing(Chooser& c, Walk const& w, bool deciding_part) -> void
{
	auto s = setup(c, w);
	static pr::FirstTurnDecideMethod const ms[] = {
		pr::FTDM_HOST_CHOOSES, pr::FTDM_DICE, pr::FTDM_COIN};
	s.method = deciding_part ? ms[c.pick(3)] : pr::FTDM_HOST_CHOOSES;
	Party a(c, s), b(c, s);
	a.open();
	b.open();
	auto both = [&](Act const& x)
	{
		a.run(x);
		a.fold();
		bool const v = c.verbose;
		c.verbose = false;
		b.run(x);
		b.fold();
		c.verbose = v;
	};
	auto complete = [&](bool start)
	{
		for(int i = 1; i < s.clients && !a.deciding; i++)
			if(!a.in[i])
				both({Act::ENTER, i, 0});
		for(int i = 0; i < s.clients && !a.deciding; i++)
		{
			both({Act::READY, i, 1});
			both({Act::DECK, i, 0});
			both({Act::READY, i, 1});
		}
		if(start && !a.deciding)
			both({Act::START, 0, 0});
	};
	if(deciding_part)
	{
		for(int i = 1; i < s.clients; i++)
			if(i == 1 || c.pickb())
				both({Act::ENTER, i, 0});
		// Only those present.
		for(int i = 0; i < s.clients; i++)
			if(a.in[i])
			{
				both({Act::DECK, i, 0});
				both({Act::READY, i, 1});
			}
		both({Act::START, 0, 0});
		if(!a.deciding)
			c.violation("the room does not start");
	}
	else
	{
		// Some reachable state, by one way or another.
		int const n = 1 + int(c.pick(s.clients));
		bool const late = c.pickb();
		auto status = [&](int i)
		{
			switch(c.pick(4))
			{
			case 1: both({Act::DECK, i, 0}); break;
			case 2:
				both({Act::DECK, i, 0});
				both({Act::READY, i, 1});
				break;
			case 3: // Ready with a deck that is not valid any more.
				both({Act::DECK, i, 0});
				both({Act::READY, i, 1});
				both({Act::DECK, i, 1});
				break;
			default: break;
			}
		};
		for(int i = 0; i < n; i++)
		{
			if(i > 0)
				both({Act::ENTER, i, 0});
			if(!late && a.seat[i])
				status(i);
		}
		for(int i = n - 1; late && i >= 0; i--)
			if(a.seat[i])
				status(i);
		c.state(a.hash());
	}
	int decider = -1;
	if(a.deciding)
		for(int i = 0; i < s.clients; i++)
			for(auto& e : a.clients[i]->got)
				if(e.has_deciding_first_turn() &&
				   e.deciding_first_turn().decide_first_turn())
					decider = i;
	std::vector<Act> idle;
	for(auto& x : a.acts(4, true))
		if(!a.has_effect(x))
		{
			// How the answer of a decider other than the host is handled is
			// not settled yet.
			if(x.kind == Act::CHOOSE && x.who == decider && x.arg < 2)
				continue;
			idle.push_back(x);
		}
	auto const x = idle[c.pick(idle.size())];
	a.run(x);
	for(size_t i = 0; i < a.clients.size(); i++)
		CHECK(c, a.fresh(int(i)).empty(),
		      x.str() + ": client " + std::to_string(i) + " was sent " +
		          describe(a.fresh(int(i)).front()));
	a.fold();
	// From here on, both rooms have to behave the same.
	if(!a.deciding)
	{
		std::vector<Act> v;
		for(auto& y : a.acts(2, false))
			if(a.has_effect(y))
				v.push_back(y);
		auto const k = c.pick(v.size() + 1);
		if(k > 0)
			both(v[k - 1]);
		if(!a.deciding)
		{
			both({Act::START, 0, 0});
			complete(true);
		}
	}
	else if(s.method == pr::FTDM_HOST_CHOOSES)
		both({Act::CHOOSE, 0, c.pick(2)});
	for(size_t i = 0; i < a.clients.size(); i++)
	{
		bool same = a.clients[i]->got.size() == b.clients[i]->got.size();
		for(size_t k = 0; same && k < a.clients[i]->got.size(); k++)
			same = a.clients[i]->got[k].SerializeAsString() ==
			       b.clients[i]->got[k].SerializeAsString();
		CHECK(c, same,
		      "client " + std::to_string(i) +
		          " is sent something else later, because " + x.str());
	}
	c.outcome(a.hash());
}

using Sizes = std::vector<std::array<uint32_t, 2>>;
Sizes const ALL{{{1, 1}}, {{1, 2}}, {{2, 1}}, {{2, 2}}, {{1, 3}},
                {{3, 1}}, {{2, 3}}, {{3, 2}}, {{3, 3}}};
Sizes const SOME{{{1, 1}}, {{2, 1}}, {{1, 2}}, {{2, 2}}};

template<typename J>
auto walks(char const* what, bool th) -> std::vector<Space>
{
	std::vector<Space> r;
	auto add = [&](std::string n, Walk w)
	{
		std::string b = std::string(what) + ": " +
		                std::to_string(w.sizes.size()) + " size pairs, " +
		                std::to_string(w.clients) +
		                " clients and a stranger, sequences of up to " +
		                std::to_string(w.depth) + " actions";
		if(w.prune)
			b += ", each room state continued once per kind of last action";
		if(w.odd)
			b += ", with odd signals";
		if(w.same_users)
			b += ", all with the same user data";
		r.push_back({n, b, [w](Chooser& c) { walk<J>(c, w); }, 0});
	};
	{
		Walk w;
		w.sizes = SOME;
		w.depth = th ? 5 : 3;
		w.clients = 3;
		w.odd = !th;
		add("all", w);
	}
	{
		Walk w;
		w.sizes = th ? ALL : SOME;
		w.clients = 4;
		w.prune = true;
		w.depth = th ? 18 : 14;
		add("deep", w);
		if(th)
		{
			auto v = w;
			v.sizes = {{{2, 2}}, {{1, 3}}};
			v.clients = 5;
			add("deeper", v);
		}
		w.same_users = true;
		w.clients = th ? 4 : 3;
		add("same-users", w);
	}
	{
		// Only what has an effect, longer.
		Walk w;
		w.sizes = SOME;
		w.clients = 3;
		w.effective = true;
		w.depth = th ? 7 : 5;
		add("effective", w);
	}
	{
		Walk w;
		w.sizes = ALL;
		w.clients = 8;
		w.depth = th ? 300 : 80;
		r.push_back({"long",
		             std::string(what) +
		                 ": 9 size pairs, 8 clients, " + std::to_string(w.depth) +
		                 " actions that follow each of " +
		                 (th ? "588" : "84") +
		                 " patterns, then the start",
		             [w, th](Chooser& c) { long_walk<J>(c, w, th ? 3 : 2); }, 0});
	}
	{
		Walk w;
		w.sizes = {{{1, 1}}, {{3, 3}}};
		w.clients = th ? 300 : 140;
		r.push_back({"crowd",
		             std::string(what) + ": 2 size pairs, " +
		                 std::to_string(w.clients) +
		                 " clients enter while duelists submit decks and change "
		                 "their readiness, then the start",
		             [w](Chooser& c) { crowd<J>(c, w); }, 0});
	}
	return r;
}

template<typename J>
auto filled(bool th) -> Space
{
	return {"fill",
	        "all 9 size pairs, two clients more than seats, everybody enters, "
	        "gets ready and the host starts, up to " +
	            std::string(th ? "2" : "1") +
	            " deviations (a signal of any kind in between" +
	            std::string(th ? "" : ", odd ones too") +
	            ", another order of entry)",
	        [th](Chooser& c) { fill<J>(c, !th, true, false); }, th ? 2 : 1};
}

mc::Register const r20(
	"C20",
	[](bool th) -> std::vector<Space>
	{
		auto r = walks<Seating>("seats", th);
		r.push_back({"fill",
	                 "all 9 size pairs, two clients more than seats, up to "
	                 "2 deviations (a signal of any kind in between, another "
	                     "order of entry)",
	                 [th](Chooser& c) { fill<Seating>(c, th, false, true); }, 2});
		return r;
	});
mc::Register const r21("C21", [](bool th) -> std::vector<Space>
                       {
	auto r = walks<Views>("views", th);
	r.push_back(filled<Views>(th));
	return r;
});
mc::Register const r22("C22", [](bool th) -> std::vector<Space>
                       {
	auto r = walks<Starting>("starting", th);
	r.push_back(filled<Starting>(th));
	return r;
});
mc::Register const r23(
	"C23",
	[](bool th) -> std::vector<Space>
	{
		int const d = th ? 6 : 4;
		return {{"decide",
	             "4 methods, 4 size pairs, every number of clients up to one "
	             "spectator, every outcome of " +
	                 std::to_string(d) +
	                 " random draws, up to 2 invalid choices before the host's",
	             [d](Chooser& c) { decide(c, d, false); }, 0},
	            {"seats",
	             "4 methods, 9 size pairs, every number of clients, every "
	             "outcome of 2 draws",
	             [](Chooser& c) { decide(c, 2, true); }, 0},
	            {"ties",
	             "dice, up to " + std::to_string(th ? 260 : 40) +
	                 " ties in a row, then every outcome of 2 draws",
	             [th](Chooser& c) { decide(c, 2, false, th ? 260 : 40); }, 0},
	            {"faces", "all pairs of random draws", faces, 0}};
	});
mc::Register const r24(
	"C24",
	[](bool th) -> std::vector<Space>
	{
		return {{"options",
	             "size lists of up to " + std::to_string(th ? 5 : 4) +
	                 " entries of all value classes, ban lists, methods, deck "
	                 "limits, 8 clients",
	             [th](Chooser& c) { options(c, th); }, 0}};
	});
mc::Register const r25(
	"C25",
	[](bool th) -> std::vector<Space>
	{
		Walk w;
		w.sizes = th ? SOME : Sizes{{{1, 1}}, {{2, 1}}};
		w.clients = th ? 4 : 3;
		Walk d;
		d.sizes = SOME;
		d.clients = th ? 5 : 4;
		return {{"configuring",
	             std::to_string(w.sizes.size()) + " size pairs, " +
	                 std::to_string(w.clients) +
	                 " clients and a stranger: in every reachable state every "
	                 "signal without standing, then any action with an effect and a start, "
	                 "against a room without that signal",
	             [w](Chooser& c) { standing(c, w, false); }, 0},
	            {"deciding",
	             "the same during the decision, 3 methods, up to " +
	                 std::to_string(d.clients) + " clients",
	             [d](Chooser& c) { standing(c, d, true); }, 0}};
	});

} // namespace

auto main(int argc, char** argv) -> int { return mc::main_(argc, argv); }
