// Recording clients, a deck validator and a random generator under the
// explorer's control, and what each participant of a room can tell from the
// events it was sent.
#ifndef MC_ROOM_GEN_HPP
#define MC_ROOM_GEN_HPP
#include <array>
#include <deque>
#include <map>
#include <memory>
#include <optional>
#include <ygopen/server/room.hpp>

#include "explorer.hpp"

namespace rg
{

namespace pr = YGOpen::Proto::Room;
using YGOpen::Proto::Deck;
using YGOpen::Proto::DeckError;
using YGOpen::Proto::User;
using Ev = YGOpen::Server::RoomEvent;
using Sig = YGOpen::Server::RoomSignal;
using mc::Chooser;

struct Client
{
	User user;
	std::vector<Ev> got;
	std::function<void(Ev const&)> hook; // Called at the end of each send.
	Client() = default;
	Client(Client const&) = delete;
	auto operator=(Client const&) -> Client& = delete;
	auto send(Ev const& e) noexcept -> void
	{
		got.push_back(e);
		if(hook)
			hook(e);
	}
	auto fill_user(User& u) const noexcept -> void { u = user; }
};

// A deck says by its title what the validator makes of it.
struct Validator
{
	std::string banlist; // Of the room; anything else is an error.
	mutable int calls = 0;
	mutable std::string last;
	mutable bool wrong_banlist = false;
	static auto verdict(Deck const& d, DeckError& e) -> bool
	{
		auto const& t = d.title();
		if(t == "good")
			return true;
		if(t == "good scribble")
		{
			e.mutable_invalid_card()->add_cards(7);
			return true;
		}
		if(t == "bad")
		{
			auto& o = *e.mutable_out_of_limit();
			o.set_expected(40);
			o.set_got(d.data().main_cards_size());
			e.mutable_excessive_copies()->add_cards(5);
			return false;
		}
		return false; // "bad silent"
	}
	auto check(std::string_view id, Deck const& d, DeckError& e) const noexcept
		-> bool
	{
		calls++;
		last = d.SerializeAsString();
		if(id != banlist)
			wrong_banlist = true;
		return verdict(d, e);
	}
};

struct Factory
{
	auto make_duel() const noexcept -> void {}
};

// One value out of each sixth of the range, the k-th being k modulo 6: reducing
// by remainder or by scaling gives each die face and each side of a coin.
inline auto rng_value(uint32_t k) -> uint32_t
{
	uint64_t const sixth = (uint64_t{1} << 32U) / 6;
	uint64_t v = sixth * k + sixth / 2;
	while(v % 6 != k)
		v++;
	return uint32_t(v);
}

struct Dice
{
	// Faces to come (0 to 5); afterwards the generator alternates 0 and 5.
	std::shared_ptr<std::deque<uint32_t>> faces =
		std::make_shared<std::deque<uint32_t>>();
	std::function<uint32_t()> ask;
	std::shared_ptr<int> n = std::make_shared<int>(0);
	using result_type = uint32_t;
	static constexpr auto min() -> uint32_t { return 0; }
	static constexpr auto max() -> uint32_t { return 0xFFFFFFFFU; }
	auto operator()() -> uint32_t
	{
		(*n)++;
		if(ask)
			return rng_value(ask());
		if(faces->empty())
			return rng_value(*n % 2 ? 5 : 0);
		auto const f = faces->front();
		faces->pop_front();
		return rng_value(f);
	}
};

struct Traits
{
	using DeckValidatorType = Validator;
	using CoreDuelFactoryType = Factory;
	using ClientType = Client;
	using RNGType = Dice;
};
using Room = YGOpen::Server::BasicRoom<Traits>;

struct Seat
{
	uint32_t team, pos;
	auto operator<(Seat const& o) const -> bool
	{
		return team != o.team ? team < o.team : pos < o.pos;
	}
	auto operator==(Seat const& o) const -> bool
	{
		return team == o.team && pos == o.pos;
	}
	auto str() const -> std::string
	{
		return "(" + std::to_string(team) + "," + std::to_string(pos) + ")";
	}
};

struct Info
{
	std::string user;
	bool host, ready;
	auto operator==(Info const& o) const -> bool
	{
		return user == o.user && host == o.host && ready == o.ready;
	}
};

// What somebody knows about a room.
struct View
{
	bool has_options = false;
	std::string options;
	std::map<Seat, Info> duelists;
	uint32_t spectators = 0;
	int deciding = 0;
	std::string error; // An event that does not fit what was known.
	auto operator==(View const& o) const -> bool
	{
		return has_options == o.has_options && options == o.options &&
		       duelists == o.duelists && spectators == o.spectators;
	}
	auto str() const -> std::string
	{
		std::string s;
		for(auto& kv : duelists)
		{
			User u;
			u.ParseFromString(kv.second.user);
			s += kv.first.str() + "=" + u.name() +
			     (kv.second.host ? "*" : "") + (kv.second.ready ? "!" : "") + " ";
		}
		return s + "spectators=" + std::to_string(spectators) +
		       (has_options ? "" : " no options");
	}
	auto put(pr::Duelist const& d) -> void
	{
		duelists[Seat{d.team(), d.pos()}] =
			Info{d.user().SerializeAsString(), d.is_host(), d.is_ready()};
	}
	auto fold(Ev const& e) -> void
	{
		switch(e.t_case())
		{
		case Ev::kConfiguring:
		{
			auto const& k = e.configuring();
			switch(k.t_case())
			{
			case Ev::Configuring::kEnteringState:
			{
				auto const& s = k.entering_state();
				has_options = true;
				options = s.options().SerializeAsString();
				duelists.clear();
				for(auto& d : s.duelists())
				{
					if(duelists.count(Seat{d.team(), d.pos()}) != 0)
						error = "a snapshot lists a seat twice";
					put(d);
				}
				spectators = s.spectator_count();
				break;
			}
			case Ev::Configuring::kDuelistEnters:
			{
				auto const& d = k.duelist_enters();
				if(duelists.count(Seat{d.team(), d.pos()}) != 0)
					error = "a duelist enters at a taken seat " +
					        Seat{d.team(), d.pos()}.str();
				put(d);
				break;
			}
			case Ev::Configuring::kUpdateDuelist:
			{
				auto const& d = k.update_duelist();
				if(duelists.count(Seat{d.team(), d.pos()}) == 0)
					error = "an update of an empty seat " +
					        Seat{d.team(), d.pos()}.str();
				put(d);
				break;
			}
			default: break;
			}
			break;
		}
		case Ev::kSpectatorCount: spectators = e.spectator_count(); break;
		case Ev::kDecidingFirstTurn:
			if(e.deciding_first_turn().has_entering_state())
				deciding++;
			break;
		default: break;
		}
	}
};

inline auto describe(Ev const& e) -> std::string
{
	switch(e.t_case())
	{
	case Ev::kConfiguring:
		switch(e.configuring().t_case())
		{
		case Ev::Configuring::kEnteringState: return "snapshot";
		case Ev::Configuring::kDuelistEnters:
		{
			auto const& d = e.configuring().duelist_enters();
			return "duelist_enters" + Seat{d.team(), d.pos()}.str();
		}
		case Ev::Configuring::kUpdateDuelist:
		{
			auto const& d = e.configuring().update_duelist();
			return "update_duelist" + Seat{d.team(), d.pos()}.str() +
			       (d.is_ready() ? " ready" : " not ready");
		}
		case Ev::Configuring::kDeckStatus:
			return e.configuring().deck_status().has_deck_error()
			           ? "deck_status error"
			           : "deck_status fine";
		default: return "empty configuring event";
		}
	case Ev::kDecidingFirstTurn:
	{
		auto const& d = e.deciding_first_turn();
		switch(d.t_case())
		{
		case Ev::DecidingFirstTurn::kEnteringState: return "deciding";
		case Ev::DecidingFirstTurn::kDecideFirstTurn:
			return d.decide_first_turn() ? "asked" : "asked(false)";
		case Ev::DecidingFirstTurn::kResult:
			return "result team " +
			       std::to_string(d.result().team_going_first());
		default: return "empty deciding event";
		}
	}
	case Ev::kSpectatorCount:
		return "spectator_count " + std::to_string(e.spectator_count());
	default: return "empty event";
	}
}

// A signal, with what it is for the log and the state hash.
struct Act
{
	enum Kind
	{
		ENTER,
		DECK,
		READY,
		START,
		CHOOSE,
		EMPTY,
		EMPTY_CONF,
		EMPTY_DEC,
		UNKNOWN,
	} kind = ENTER;
	int who = 0;
	uint32_t arg = 0; // Deck kind, ready status, team.
	auto str() const -> std::string
	{
		static char const* const n[] = {"enters",
		                                "submits deck",
		                                "ready",
		                                "starts",
		                                "chooses team",
		                                "sends an empty signal",
		                                "sends an empty configuring signal",
		                                "sends an empty deciding signal",
		                                "sends an unknown signal"};
		return "client " + std::to_string(who) + " " + n[kind] + " " +
		       std::to_string(arg);
	}
};

inline auto deck(uint32_t kind) -> Deck
{
	static char const* const t[] = {"good", "bad", "good scribble",
	                                "bad silent"};
	Deck d;
	d.set_title(t[kind]);
	d.mutable_data()->add_main_cards(100 + kind);
	d.mutable_data()->add_extra_cards(200);
	d.mutable_data()->add_side_cards(300);
	d.set_notes("notes");
	return d;
}
inline auto deck_ok(uint32_t kind) -> bool { return kind % 2 == 0; }

inline auto signal(Act const& a) -> Sig
{
	Sig s;
	switch(a.kind)
	{
	case Act::DECK:
		*s.mutable_configuring()->mutable_update_deck() = deck(a.arg);
		break;
	case Act::READY: s.mutable_configuring()->set_ready_status(a.arg != 0); break;
	case Act::START: s.mutable_configuring()->set_start_dueling(true); break;
	case Act::CHOOSE:
		s.mutable_deciding_first_turn()->set_team_going_first(a.arg);
		break;
	case Act::EMPTY_CONF: s.mutable_configuring(); break;
	case Act::EMPTY_DEC: s.mutable_deciding_first_turn(); break;
	case Act::UNKNOWN:
		// Fields nobody knows, alone or inside of a known part.
		if(a.arg == 0)
			s.ParseFromString(std::string("\x7A\x02hi", 4));
		else
			s.ParseFromString(std::string("\x0A\x04\x7A\x02hi", 6));
		break;
	default: break;
	}
	return s;
}

struct Setup
{
	uint32_t size[2] = {1, 1};
	pr::FirstTurnDecideMethod method = pr::FTDM_HOST_CHOOSES;
	int clients = 4; // Of which the first is the host, besides one stranger.
	bool same_users = false;
};

struct Party
{
	Chooser& c;
	Setup s;
	Validator validator;
	Factory factory;
	std::vector<std::unique_ptr<Client>> clients; // Last one: stranger.
	Dice dice;
	std::unique_ptr<Room> room;
	pr::Options options;
	std::vector<View> views;
	std::vector<size_t> read;
	std::vector<bool> in;
	// Reference, per client.
	std::vector<std::optional<Seat>> seat;
	std::vector<bool> valid, ready;
	bool deciding = false;

	Party(Chooser& ch, Setup st) : c(ch), s(st)
	{
		validator.banlist = "the list";
		for(int i = 0; i <= s.clients; i++)
		{
			clients.push_back(std::make_unique<Client>());
			auto& u = clients.back()->user;
			u.set_id(s.same_users ? "id" : "id" + std::to_string(i));
			u.set_name(s.same_users ? "name" : "name" + std::to_string(i));
		}
		views.resize(clients.size());
		read.resize(clients.size());
		in.resize(clients.size());
		seat.resize(clients.size());
		valid.resize(clients.size());
		ready.resize(clients.size());
		options.add_max_duelists(s.size[0]);
		options.add_max_duelists(s.size[1]);
		options.set_banlist_id("the list");
		options.set_ftdm(s.method);
		options.mutable_deck_limits()->mutable_main()->set_min(40);
	}
	auto stranger() const -> int { return s.clients; }
	auto team(uint32_t t) const -> std::vector<int>
	{
		std::map<Seat, int> m;
		for(size_t i = 0; i < clients.size(); i++)
			if(seat[i] && seat[i]->team == t)
				m[*seat[i]] = int(i);
		std::vector<int> r;
		for(auto& kv : m)
			r.push_back(kv.second);
		return r;
	}
	auto entered() const -> int
	{
		int n = 0;
		for(auto b : in)
			n += b;
		return n;
	}
	auto spectators() const -> uint32_t
	{
		uint32_t n = 0;
		for(size_t i = 0; i < clients.size(); i++)
			n += in[i] && !seat[i];
		return n;
	}
	auto can_start() const -> bool
	{
		for(uint32_t t = 0; t < 2; t++)
		{
			auto const v = team(t);
			if(v.empty())
				return false;
			for(auto i : v)
				if(!valid[i] || !ready[i])
					return false;
		}
		return true;
	}
	// Does the reference expect anything to come of this?
	auto has_effect(Act const& a) const -> bool
	{
		switch(a.kind)
		{
		case Act::ENTER: return true;
		case Act::DECK: return !deciding && seat[a.who].has_value();
		case Act::READY:
			return !deciding && seat[a.who] && ready[a.who] != (a.arg != 0) &&
			       (a.arg == 0 || valid[a.who]);
		case Act::START: return !deciding && a.who == 0 && can_start();
		case Act::CHOOSE:
			return deciding && a.who == 0 && a.arg < 2 &&
			       s.method == pr::FTDM_HOST_CHOOSES;
		default: return false;
		}
	}
	auto open() -> void
	{
		room = std::make_unique<Room>(validator, factory, dice, *clients[0],
		                              options);
		in[0] = true;
		take_seat(0);
		fold();
	}
	// What was newly sent to a client.
	auto fresh(int i) const -> std::vector<Ev>
	{
		return {clients[i]->got.begin() + long(read[i]), clients[i]->got.end()};
	}
	auto fold() -> void
	{
		for(size_t i = 0; i < clients.size(); i++)
			for(; read[i] < clients[i]->got.size(); read[i]++)
				views[i].fold(clients[i]->got[read[i]]);
	}
	// The seat a newcomer says it got.
	auto take_seat(int i) -> void
	{
		for(auto& e : fresh(i))
			if(e.has_configuring() && e.configuring().has_duelist_enters())
			{
				auto const& d = e.configuring().duelist_enters();
				seat[i] = Seat{d.team(), d.pos()};
			}
	}
	// Perform the action on the real room and on the reference. The events are
	// left unread for inspection.
	auto run(Act const& a) -> void
	{
		LOG(c, "%s", a.str().c_str());
		c.step();
		bool const effect = has_effect(a);
		if(a.kind == Act::ENTER)
		{
			in[a.who] = true;
			room->enter(*clients[a.who]);
			take_seat(a.who);
		}
		else
			room->visit(*clients[a.who], signal(a));
		if(c.verbose)
			for(size_t i = 0; i < clients.size(); i++)
				for(auto& e : fresh(int(i)))
					LOG(c, "    to client %zu: %s", i, describe(e).c_str());
		if(!effect)
			return;
		if(a.kind == Act::DECK)
			valid[a.who] = deck_ok(a.arg);
		else if(a.kind == Act::READY)
			ready[a.who] = a.arg != 0;
		else if(a.kind == Act::START)
			deciding = true;
	}
	auto truth() const -> View
	{
		View v;
		v.has_options = true;
		v.options = options.SerializeAsString();
		for(size_t i = 0; i < clients.size(); i++)
			if(seat[i])
				v.duelists[*seat[i]] =
					Info{clients[i]->user.SerializeAsString(), i == 0, ready[i]};
		v.spectators = spectators();
		return v;
	}
	auto hash() const -> uint64_t
	{
		mc::Hasher h;
		h.add(s.size[0]).add(s.size[1]).add(uint64_t(s.method)).add(deciding);
		h.add(s.same_users);
		for(size_t i = 0; i < clients.size(); i++)
			h.add(in[i] * 8 + valid[i] * 4 + ready[i] * 2)
				.add(seat[i] ? seat[i]->team * 10 + seat[i]->pos : 99);
		return h.h;
	}
	// Everything anybody may do now.
	auto acts(uint32_t decks, bool odd) const -> std::vector<Act>
	{
		std::vector<Act> r;
		if(!deciding)
			for(int i = 1; i < s.clients; i++)
				if(!in[i])
				{
					r.push_back({Act::ENTER, i, 0});
					break;
				}
		for(int i = 0; i < int(clients.size()); i++)
		{
			if(!in[i] && i != stranger())
				continue;
			for(uint32_t d = 0; d < decks; d++)
				r.push_back({Act::DECK, i, d});
			r.push_back({Act::READY, i, 1});
			r.push_back({Act::READY, i, 0});
			r.push_back({Act::START, i, 0});
			if(odd)
			{
				for(uint32_t t : {0U, 1U, 2U, 3U, 255U, 256U, 0x80000000U,
				                  0xFFFFFFFFU})
					r.push_back({Act::CHOOSE, i, t});
				r.push_back({Act::EMPTY, i, 0});
				r.push_back({Act::EMPTY_CONF, i, 0});
				r.push_back({Act::EMPTY_DEC, i, 0});
				r.push_back({Act::UNKNOWN, i, 0});
				r.push_back({Act::UNKNOWN, i, 1});
			}
		}
		return r;
	}
};

} // namespace rg

#endif
