// C29: instances (duels, boards, rooms) never influence each other.
//
// Two scripts, each driving one instance, are run against the real code under
// a controlled scheduler:
//  - every order of their steps, one thread ("orders");
//  - the step of one is suspended at every basic block of the code under test
//    (edges reported by the compiler's coverage callback) while the other, in
//    its own thread, runs some or all of its steps ("preempted"), also with the
//    other one suspended in turn ("preempted twice");
//  - one is driven from inside the callbacks of the other ("callbacks").
// Everything observable of each must be what it was when that script ran alone
// in a fresh process.
#include <condition_variable>
#include <google/protobuf/arena.h>
#include <mutex>
#include <thread>
#include <ygopen/client/card.hpp>
#include <ygopen/client/parse_query.hpp>
#include <ygopen/codec/edo9300_ocgcore_decode.hpp>
#include <ygopen/proto/duel/answer.hpp>
#include <ygopen/server/basic_encode_context.hpp>

#include "codec_gen.hpp"
#include "event_gen.hpp"
#include "room_gen.hpp"

using mc::Chooser;
using mc::Space;
namespace core = YGOpen::Codec::Edo9300::OCGCore;
namespace pd = YGOpen::Proto::Duel;
using Bytes = std::vector<uint8_t>;

// Switch points --------------------------------------------------------------

namespace
{

struct Tl
{
	bool armed = false;
	uint64_t points = 0, stop_at = ~uint64_t{0};
};
thread_local Tl tl;
std::function<void()> on_stop;
std::function<void()> on_callback;

// The code under test runs while one of these is alive.
struct Armed
{
	bool was;
	explicit Armed(bool v = true) : was(tl.armed) { tl.armed = v; }
	~Armed() { tl.armed = was; }
};

auto callback() -> void
{
	if(!on_callback)
		return;
	Armed off(false);
	on_callback();
}

} // namespace

extern "C" void __sanitizer_cov_trace_pc_guard(uint32_t*)
{
	if(!tl.armed)
		return;
	if(tl.points++ == tl.stop_at)
	{
		tl.armed = false;
		on_stop();
		tl.armed = true;
	}
}
extern "C" void __sanitizer_cov_trace_pc_guard_init(uint32_t*, uint32_t*) {}

namespace
{

// Instances ------------------------------------------------------------------

struct Inst
{
	virtual ~Inst() = default;
	virtual auto step(size_t i) -> std::string = 0;
	// Everything handed out earlier, looked at again.
	virtual auto end() -> std::string { return ""; }
};

struct Script
{
	std::string name;
	size_t n;
	std::function<std::unique_ptr<Inst>()> make;
};

// Encoding, with a context that counts as a callback.
template<typename Ctx>
struct HookContext final : YGOpen::Codec::IEncodeContext
{
	Ctx in;
	auto pile_size(Con c, Loc l) const noexcept -> size_t override
	{
		callback();
		return in.pile_size(c, l);
	}
	auto get_match_win_reason() const noexcept -> uint32_t override
	{
		callback();
		return in.get_match_win_reason();
	}
	auto has_xyz_mat(Place const& p) const noexcept -> bool override
	{
		callback();
		return in.has_xyz_mat(p);
	}
	auto get_xyz_left(Place const& p) const noexcept -> Place override
	{
		callback();
		return in.get_xyz_left(p);
	}
	auto match_win_reason(uint32_t r) noexcept -> void override
	{
		callback();
		in.match_win_reason(r);
		callback();
	}
	auto xyz_mat_defer(Place const& p) noexcept -> void override
	{
		callback();
		in.xyz_mat_defer(p);
		callback();
	}
	auto take_deferred_xyz_mat() noexcept -> std::vector<Place> override
	{
		callback();
		return in.take_deferred_xyz_mat();
	}
	auto xyz_left(Place const& a, Place const& b) noexcept -> void override
	{
		callback();
		in.xyz_left(a, b);
		callback();
	}
};

struct EncodeInst final : Inst
{
	HookContext<cg::StubContext> ctx;
	std::vector<Bytes> const& msgs;
	google::protobuf::Arena arena;
	std::vector<std::pair<pd::Msg*, std::string>> kept;
	EncodeInst(std::vector<Bytes> const& m, int variant) : msgs(m)
	{
		ctx.in.mats = variant % 2 != 0;
		ctx.in.size = 3 + 2 * variant;
		ctx.in.left_place.set_seq(variant % 5);
		ctx.in.left_place.set_con(variant % 2);
		ctx.in.reason = 0x20 + variant;
	}
	auto step(size_t i) -> std::string override
	{
		cg::Slack s(msgs[i]);
		YGOpen::Codec::EncodeOneResult r;
		{
			Armed a;
			r = core::encode_one(arena, ctx, s.p);
		}
		std::string o = std::to_string(int(r.state)) + "/" +
		                (r.state == YGOpen::Codec::EncodeOneResult::State::UNKNOWN
		                     ? ""
		                     : std::to_string(r.bytes_read)) +
		                "/";
		if(r.msg != nullptr)
		{
			o += r.msg->SerializeAsString();
			kept.emplace_back(r.msg, r.msg->SerializeAsString());
		}
		o += "/" + ctx.in.log_ + "/" + std::to_string(ctx.in.deferred.size());
		for(auto& p : ctx.in.deferred)
			o += p.SerializeAsString();
		return o + "/" + std::to_string(ctx.in.reason);
	}
	auto end() -> std::string override
	{
		for(auto& kv : kept)
			if(kv.first->SerializeAsString() != kv.second)
				return "an encoded message changed afterwards";
		return "";
	}
};

// A duel followed through the real context and a client board.
struct DuelInst final : Inst
{
	bm::Stats st;
	eg::PlainBoard board;
	HookContext<YGOpen::Server::BasicEncodeContext> ctx;
	std::vector<Bytes> const& msgs;
	google::protobuf::Arena arena;
	std::vector<std::pair<pd::Msg*, std::string>> kept;
	explicit DuelInst(std::vector<Bytes> const& m) : msgs(m)
	{
		board.frame().builder().st = &st;
	}
	auto step(size_t i) -> std::string override
	{
		cg::Slack s(msgs[i]);
		YGOpen::Codec::EncodeOneResult r;
		{
			Armed a;
			r = core::encode_one(arena, ctx, s.p);
			if(r.msg != nullptr)
			{
				ctx.in.parse(*r.msg);
				if(r.msg->t_case() == pd::Msg::kEvent)
					YGOpen::Client::parse_event(board, r.msg->event());
			}
		}
		std::string o = std::to_string(int(r.state)) + "/";
		if(r.msg != nullptr)
		{
			o += std::to_string(r.bytes_read) + "/" + r.msg->SerializeAsString();
			kept.emplace_back(r.msg, r.msg->SerializeAsString());
		}
		o += "/" + eg::look(board).str();
		for(int con = 0; con < 2; con++)
		{
			for(auto l : bm::PILES)
				o += std::to_string(ctx.in.pile_size(bm::Controller(con),
				                                     bm::Location(l))) +
				     " ";
			for(int z = 0; z < 16; z++)
				o += ctx.in.has_xyz_mat(bm::pb(bm::zplace(con, z))) ? "m" : ".";
		}
		return o;
	}
	auto end() -> std::string override
	{
		for(auto& kv : kept)
			if(kv.first->SerializeAsString() != kv.second)
				return "an encoded message changed afterwards";
		return eg::look(board).str() + std::to_string(st.built) + "/" +
		       std::to_string(st.destroyed.size());
	}
};

// Cards that tell when they are built.
struct HookBuilder
{
	bm::Stats* st = nullptr;
	[[nodiscard]] auto build() noexcept -> bm::Card
	{
		callback();
		return bm::Card(st, st->built++);
	}
};
struct HookHistoryTraits : eg::HistoryTraits
{
	using FrameType = YGOpen::Client::LimboFrame<bm::Card, HookBuilder>;
};
struct HookPlainTraits : eg::PlainTraits
{
	using FrameType = YGOpen::Client::BasicFrame<bm::Card, HookBuilder>;
};
using HookPlain = YGOpen::Client::BasicBoard<HookPlainTraits>;
using HookHistory = YGOpen::Client::BasicBoard<HookHistoryTraits>;

// Events to apply; an entry below 0 undoes the last one.
struct Walk
{
	std::vector<eg::Event> events;
	std::vector<int> steps; // Index of an event, or -1: undo.
};

template<typename B>
struct BoardInst final : Inst
{
	bm::Stats st;
	B board;
	Walk const& w;
	std::vector<int> done;
	explicit BoardInst(Walk const& x) : w(x) { board.frame().builder().st = &st; }
	auto step(size_t i) -> std::string override
	{
		int const k = w.steps[i];
		if(k >= 0)
		{
			Armed a;
			YGOpen::Client::parse_event(board, w.events[k]);
		}
		else
			undo();
		if(k >= 0)
			done.push_back(k);
		return eg::look(board).str();
	}
	auto undo() -> void
	{
		if constexpr(std::is_same_v<B, HookHistory>)
		{
			Armed a;
			YGOpen::Client::undo_parse_event(board, w.events[done.back()]);
		}
		done.pop_back();
	}
	auto end() -> std::string override
	{
		return eg::look(board).str() + std::to_string(st.built) + "/" +
		       std::to_string(st.destroyed.size());
	}
};

struct RoomInst final : Inst
{
	rg::Setup s;
	rg::Validator validator;
	rg::Factory factory;
	rg::Dice dice;
	std::vector<std::unique_ptr<rg::Client>> clients;
	std::unique_ptr<rg::Room> room;
	std::vector<rg::Act> const& acts;
	std::vector<size_t> seen;
	RoomInst(rg::Setup st, std::vector<rg::Act> const& a,
	         std::initializer_list<uint32_t> faces)
		: s(st), acts(a)
	{
		validator.banlist = "list of " + std::to_string(s.size[0]);
		for(auto f : faces)
			dice.faces->push_back(f);
		for(int i = 0; i < s.clients; i++)
		{
			clients.push_back(std::make_unique<rg::Client>());
			clients.back()->user.set_name(
				"room" + std::to_string(s.size[0]) + std::to_string(s.size[1]) +
				"client" + std::to_string(i));
			clients.back()->hook = [](rg::Ev const&) { callback(); };
		}
		seen.resize(clients.size());
	}
	auto step(size_t i) -> std::string override
	{
		if(i == 0)
		{
			rg::pr::Options o;
			o.add_max_duelists(s.size[0]);
			o.add_max_duelists(s.size[1]);
			o.set_banlist_id(validator.banlist);
			o.set_ftdm(s.method);
			Armed a;
			room = std::make_unique<rg::Room>(validator, factory, dice, *clients[0], o);
		}
		else
		{
			auto const& act = acts[i - 1];
			auto const sig = rg::signal(act);
			Armed a;
			if(act.kind == rg::Act::ENTER)
				room->enter(*clients[act.who]);
			else
				room->visit(*clients[act.who], sig);
		}
		std::string o;
		for(size_t k = 0; k < clients.size(); k++)
		{
			o += "client " + std::to_string(k) + ": ";
			for(; seen[k] < clients[k]->got.size(); seen[k]++)
				o += rg::describe(clients[k]->got[seen[k]]) + " " +
				     cg::hex(clients[k]->got[seen[k]].SerializeAsString()) + "; ";
		}
		return o + std::to_string(validator.calls) + validator.last +
		       std::to_string(*dice.n) + (validator.wrong_banlist ? "wrong list" : "");
	}
	auto end() -> std::string override
	{
		std::string o;
		for(auto& c : clients)
			o += std::to_string(c->got.size()) + " ";
		return o;
	}
};

struct AnswerCase
{
	pd::Msg::Request r;
	pd::Answer a;
};
struct AnswerInst final : Inst
{
	std::vector<AnswerCase> const& v;
	std::vector<Bytes> out;
	explicit AnswerInst(std::vector<AnswerCase> const& x) : v(x), out(x.size()) {}
	auto step(size_t i) -> std::string override
	{
		{
			Armed a;
			core::decode_one_answer(v[i].r, v[i].a, out[i]);
		}
		return cg::hex(out[i]);
	}
	auto end() -> std::string override
	{
		std::string o;
		for(auto& b : out)
			o += cg::hex(b) + " ";
		return o;
	}
};

using QCard = YGOpen::Client::BasicCard<YGOpen::Client::DefaultCardTraits>;
using QFrame = YGOpen::Client::BasicFrame<QCard>;

auto card_str(QCard const& c) -> std::string
{
	std::string o;
	auto add = [&](auto const& v) { o += std::to_string(int64_t(v)) + " "; };
	add(c.code());
	add(c.position());
	add(c.level());
	add(c.race());
	add(c.atk());
	add(c.owner());
	add(c.is_hidden());
	o += c.equipped_to().SerializeAsString();
	for(auto& t : c.targets())
		o += t.SerializeAsString();
	for(auto& t : c.counters())
		o += t.SerializeAsString();
	return o;
}

template<bool CACHE>
struct QueryInst final : Inst
{
	QFrame f;
	std::vector<pd::Msg::Query> const& v;
	explicit QueryInst(std::vector<pd::Msg::Query> const& x) : v(x)
	{
		f.card_add(bm::pb(bm::P{0, 4, 1, -1}));
		f.card_add(bm::pb(bm::P{1, 2, 0, -1}));
	}
	auto step(size_t i) -> std::string override
	{
		YGOpen::Client::QueryCacheHit h;
		{
			Armed a;
			h = YGOpen::Client::parse_query<CACHE>(f, v[i]);
		}
		return std::to_string(uint64_t(h)) + " " + show();
	}
	auto show() -> std::string
	{
		return card_str(f.card(bm::pb(bm::P{0, 4, 1, -1}))) + "|" +
		       card_str(f.card(bm::pb(bm::P{1, 2, 0, -1})));
	}
	auto end() -> std::string override { return show(); }
};

// Scripts --------------------------------------------------------------------

// The bytes of a message of a kind: 0, 1: default shape with other values; 2:
// third alternative of everything; 3: the last one.
auto message(size_t kind, int variant) -> Bytes
{
	auto const& k = cg::kinds()[kind];
	std::vector<uint32_t> prefix;
	for(;;)
	{
		Chooser lc;
		lc.prefix = prefix;
		lc.dev_bound = variant >= 2 ? 1 << 20 : 0;
		cg::Gen g(lc);
		g.tag = 1000 * (variant + 1) + variant;
		g.raw<uint8_t>(k.value);
		pd::Msg m;
		static_cast<void>(k.gen(g, m));
		size_t const i = prefix.size();
		if(variant < 2 || lc.choices.size() <= i || i > 400)
			return g.b;
		prefix.push_back(variant == 2 ? 3 % lc.arity[i]
		                              : (i % 2 ? lc.arity[i] - 1 : 0));
	}
}

// All scripts stay where they are once made.
auto store() -> std::deque<Script>&
{
	static std::deque<Script> d;
	return d;
}
template<typename T>
auto keep(T v) -> T const&
{
	static std::deque<T> d;
	d.push_back(std::move(v));
	return d.back();
}

auto encode_script(std::string const& name, std::vector<Bytes> m, int variant) -> Script
{
	auto const& k = keep(std::move(m));
	return {name, k.size(),
	        [&k, variant] { return std::make_unique<EncodeInst>(k, variant); }};
}

// Scripts of messages of one kind: A takes two messages, B one.
auto kind_script(size_t kind, int role) -> Script const&
{
	static std::map<std::pair<size_t, int>, Script> m;
	auto const key = std::make_pair(kind, role);
	auto it = m.find(key);
	if(it == m.end())
	{
		std::vector<Bytes> v;
		if(role == 0)
			v = {message(kind, 0), message(kind, 2)};
		else
			v = {message(kind, 1), message(kind, 3)};
		it = m.emplace(key, encode_script(std::string(cg::kinds()[kind].name) +
		                                      (role == 0 ? " (first)" : " (second)"),
		                                  v, role))
		         .first;
	}
	return it->second;
}

struct W
{
	Bytes b;
	template<typename T>
	auto raw(T v) -> W&
	{
		auto const* p = reinterpret_cast<uint8_t const*>(&v);
		b.insert(b.end(), p, p + sizeof(T));
		return *this;
	}
	auto u8(uint32_t v) -> W& { return raw<uint8_t>(v); }
	auto u16(uint32_t v) -> W& { return raw<uint16_t>(v); }
	auto u32(uint32_t v) -> W& { return raw<uint32_t>(v); }
	auto at(uint32_t con, uint32_t loc, uint32_t seq, uint32_t pos) -> W&
	{
		return u8(con).u8(loc).u32(seq).u32(pos);
	}
	auto nowhere() -> W& { return at(0, 0, 0, 0); }
};
auto mv(W from, W to, uint32_t reason = 0x40) -> Bytes
{
	W w;
	w.u8(50).u32(777);
	w.b.insert(w.b.end(), from.b.begin(), from.b.end());
	w.b.insert(w.b.end(), to.b.begin(), to.b.end());
	w.u32(reason);
	return w.b;
}
constexpr uint32_t DECK = 1, HAND = 2, MZ = 4, SZ = 8, GY = 16, EXTRA = 64, OVL = 128;

auto start_msg(uint32_t d0, uint32_t e0, uint32_t d1, uint32_t e1, uint32_t lp) -> Bytes
{
	return W().u8(4).u8(0).u32(lp).u32(lp + 1).u16(d0).u16(e0).u16(d1).u16(e1).b;
}
auto draw_msg(uint32_t con, uint32_t n) -> Bytes
{
	W w;
	w.u8(90).u8(con).u32(n);
	for(uint32_t i = 0; i < n; i++)
		w.u32(1000 * con + i).u32(8);
	return w.b;
}

auto duel_scripts() -> std::vector<Script> const&
{
	static std::vector<Script> const v = []
	{
		std::vector<Script> r;
		auto add = [&](char const* name, std::vector<Bytes> m)
		{
			auto const& k = keep(std::move(m));
			r.push_back({name, k.size(),
			             [&k] { return std::make_unique<DuelInst>(k); }});
		};
		// An Xyz summon: materials go to the Extra Deck first, then follow the
		// monster to the field; it leaves, and its materials after it.
		add("Xyz duel",
		    {start_msg(4, 2, 3, 1, 8000), draw_msg(0, 2),
		     mv(W().at(0, HAND, 0, 1), W().at(0, MZ, 1, 1)),
		     mv(W().at(0, MZ, 1, 1), W().at(0, EXTRA | OVL, 1, 0)),
		     mv(W().at(0, EXTRA, 1, 8), W().at(0, MZ, 1, 1)),
		     mv(W().at(0, MZ, 1, 1), W().at(0, GY, 0, 1)),
		     mv(W().at(0, GY | OVL, 0, 0), W().at(0, GY, 1, 1))});
		add("other Xyz duel",
		    {start_msg(2, 1, 2, 3, 4000), draw_msg(1, 1),
		     mv(W().at(1, HAND, 0, 1), W().at(1, MZ, 3, 1)),
		     mv(W().at(1, MZ, 3, 1), W().at(1, EXTRA | OVL, 2, 0)),
		     mv(W().at(1, EXTRA, 2, 8), W().at(1, MZ, 4, 1)),
		     mv(W().at(1, MZ, 4, 1), W().at(1, GY, 0, 1)),
		     mv(W().at(1, GY | OVL, 0, 0), W().at(1, GY, 1, 1))});
		// The same places as the first one, the monster in another zone.
		add("similar Xyz duel",
		    {start_msg(4, 2, 3, 1, 8000), draw_msg(0, 2),
		     mv(W().at(0, HAND, 0, 1), W().at(0, MZ, 2, 1)),
		     mv(W().at(0, MZ, 2, 1), W().at(0, EXTRA | OVL, 1, 0)),
		     mv(W().at(0, EXTRA, 1, 8), W().at(0, MZ, 2, 1)),
		     mv(W().at(0, MZ, 2, 1), W().at(0, GY, 0, 1)),
		     mv(W().at(0, GY | OVL, 0, 0), W().at(0, GY, 1, 1))});
		add("match duel",
		    {start_msg(1, 0, 2, 0, 100), W().u8(170).u32(0x1111).b, draw_msg(0, 1),
		     W().u8(37).b, W().u8(5).u8(0).u8(0x20).b});
		add("plain duel",
		    {start_msg(3, 1, 1, 2, 200), draw_msg(1, 1), W().u8(40).u8(1).b,
		     mv(W().at(0, DECK, 2, 8), W().at(0, SZ, 5, 1)),
		     W().u8(5).u8(1).u8(0x21).b});
		return r;
	}();
	return v;
}

auto walk_of(bool second) -> Walk
{
	using bm::P;
	Walk w;
	auto ev = [&]() -> eg::Event& { return w.events.emplace_back(); };
	auto const a = second ? 1 : 0;
	{
		auto* s = ev().mutable_board()->mutable_state();
		s->set_turn_counter(2 + a);
		s->add_lps(8000 - 100 * a);
		s->add_lps(2000 + 100 * a);
		auto* o = s->mutable_resize()->add_ops();
		*o->mutable_place() = bm::pb(P{a, 2, 0, -1});
		o->set_count(3 - a);
		*s->mutable_add()->add_places() = bm::pb(P{a, 4, uint32_t(2 + a), -1});
		*s->mutable_add()->add_places() = bm::pb(P{a, 4, uint32_t(2 + a), 0});
	}
	{
		auto* o = ev().mutable_card()->mutable_move()->add_ops();
		*o->mutable_old_place() = bm::pb(P{a, 2, 1, -1});
		*o->mutable_new_place() = bm::pb(P{a, 8, 1, -1});
	}
	{
		auto* o = ev().mutable_pile()->mutable_resize()->add_ops();
		*o->mutable_place() = bm::pb(P{a, 2, 0, -1});
		o->set_count(a == 0 ? 1 : 4);
	}
	ev() = eg::lp_event(a, 1, 300 + a);
	*ev().mutable_card()->mutable_remove()->add_places() =
		bm::pb(P{a, 8, 1, -1});
	ev().set_next_phase(second ? 8 : 4);
	w.steps = second ? std::vector<int>{0, 1, 2, -1, 2, 3}
	                 : std::vector<int>{0, 1, 4, -1, -1, 1};
	return w;
}

auto board_scripts() -> std::vector<Script> const&
{
	static std::vector<Script> const v = []
	{
		std::vector<Script> r;
		for(int second = 0; second < 2; second++)
		{
			auto const& w = keep(walk_of(second != 0));
			r.push_back({second ? "other history board" : "history board",
			             w.steps.size(),
			             [&w] { return std::make_unique<BoardInst<HookHistory>>(w); }});
			auto p = w;
			p.steps = second ? std::vector<int>{0, 2, 1, 4, 5}
			                 : std::vector<int>{0, 1, 2, 3, 4};
			auto const& pw = keep(std::move(p));
			r.push_back({second ? "other plain board" : "plain board",
			             pw.steps.size(),
			             [&pw] { return std::make_unique<BoardInst<HookPlain>>(pw); }});
		}
		return r;
	}();
	return v;
}

auto room_scripts() -> std::vector<Script> const&
{
	static std::vector<Script> const v = []
	{
		std::vector<Script> r;
		using rg::Act;
		auto add = [&](char const* name, rg::Setup s, std::vector<Act> acts,
		               std::initializer_list<uint32_t> faces)
		{
			auto const& k = keep(std::move(acts));
			r.push_back({name, k.size() + 1,
			             [&k, s, faces = std::vector<uint32_t>(faces)]
			             {
							 auto p = std::make_unique<RoomInst>(
								 s, k, std::initializer_list<uint32_t>{});
							 for(auto f : faces)
								 p->dice.faces->push_back(f);
							 return p;
						 }});
		};
		rg::Setup a;
		a.size[0] = a.size[1] = 1;
		a.clients = 3;
		a.method = rg::pr::FTDM_HOST_CHOOSES;
		add("room", a,
		    {{Act::ENTER, 1, 0}, {Act::DECK, 0, 0}, {Act::DECK, 1, 0},
		     {Act::READY, 0, 1}, {Act::READY, 1, 1}, {Act::START, 0, 0},
		     {Act::CHOOSE, 0, 1}},
		    {});
		rg::Setup b;
		b.size[0] = 2;
		b.size[1] = 1;
		b.clients = 4;
		b.method = rg::pr::FTDM_DICE;
		add("dice room", b,
		    {{Act::ENTER, 1, 0}, {Act::ENTER, 2, 0}, {Act::DECK, 1, 1},
		     {Act::DECK, 1, 2}, {Act::DECK, 0, 0}, {Act::DECK, 2, 0},
		     {Act::READY, 1, 1}, {Act::READY, 2, 1}, {Act::READY, 0, 1},
		     {Act::START, 0, 0}},
		    {3, 3, 1, 5});
		rg::Setup d;
		d.size[0] = 1;
		d.size[1] = 2;
		d.clients = 4;
		d.method = rg::pr::FTDM_COIN;
		add("coin room", d,
		    {{Act::ENTER, 2, 0}, {Act::DECK, 2, 0}, {Act::READY, 2, 1},
		     {Act::ENTER, 1, 0}, {Act::ENTER, 3, 0}, {Act::DECK, 0, 3},
		     {Act::READY, 2, 0}},
		    {4});
		return r;
	}();
	return v;
}

auto answer_cases(int v) -> std::vector<AnswerCase>
{
	std::vector<AnswerCase> r;
	auto add = [&]() -> AnswerCase& { return r.emplace_back(); };
	auto zone = [&](pd::Place* p, uint32_t loc, uint32_t seq)
	{ *p = bm::pb(bm::P{v, loc, seq, -1}); };
	{
		auto& c = add();
		auto* s = c.r.mutable_select_zone();
		s->set_count(2);
		for(uint32_t i = 0; i < 3; i++)
			zone(s->add_places(), MZ, i + v);
		zone(c.a.mutable_select_zone()->add_places(), MZ, v);
		zone(c.a.mutable_select_zone()->add_places(), MZ, 2 + v);
	}
	{
		auto& c = add();
		auto* s = c.r.mutable_sort();
		for(int i = 0; i < 3; i++)
			zone(s->add_places(), HAND, i);
		auto* l = c.a.mutable_sort()->mutable_indexes();
		for(int i = 0; i < 3; i++)
			l->add_values(v ? 2 - i : i);
	}
	{
		auto& c = add();
		c.r.mutable_select_yes_no()->set_code(3);
		c.a.set_select_yes_no(v == 0);
	}
	{
		auto& c = add();
		c.r.mutable_select_race()->set_race(~uint64_t{0});
		c.a.set_select_race(uint64_t{0x100000001} << v);
	}
	{
		auto& c = add();
		c.r.mutable_select_card();
		auto* l = c.a.mutable_select_card()->mutable_indexes();
		for(int i = 0; i < 3 - v; i++)
			l->add_values(7 * v + i);
	}
	{
		auto& c = add();
		c.r.mutable_select_card()->mutable_recursive();
		c.a.mutable_select_card()->mutable_indexes()->add_values(4 + v);
	}
	{
		auto& c = add();
		c.r.mutable_select_card()->mutable_recursive();
		if(v)
			c.a.mutable_select_card()->set_cancel(true);
		else
			c.a.mutable_select_card()->mutable_indexes()->add_values(2);
	}
	{
		auto& c = add();
		c.r.mutable_select_idle()->set_is_battle_cmd(v != 0);
		auto* i = c.a.mutable_select_idle()->mutable_card_action();
		i->set_action(pd::Answer::SelectIdle::ACTION_ACTIVATE);
		i->set_index(3 + v);
	}
	{
		auto& c = add();
		c.r.mutable_select_idle()->set_is_battle_cmd(v != 0);
		c.a.mutable_select_idle()->set_phase(YGOpen::Duel::PHASE_END);
	}
	{
		auto& c = add();
		c.r.mutable_select_number();
		c.a.set_select_number(11 * v + 1);
	}
	{
		auto& c = add();
		c.r.mutable_select_to_chain();
		if(v)
			c.a.mutable_select_to_chain()->set_index(6);
		else
			c.a.mutable_select_to_chain()->set_no_op(true);
	}
	{
		auto& c = add();
		c.r.mutable_select_position();
		c.a.set_select_position(v ? 4 : 1);
	}
	return r;
}

auto queries(int v) -> std::vector<pd::Msg::Query>
{
	std::vector<pd::Msg::Query> r;
	for(int i = 0; i < 4; i++)
	{
		auto& q = r.emplace_back();
		*q.mutable_place() =
			bm::pb(i % 2 == v ? bm::P{0, 4, 1, -1} : bm::P{1, 2, 0, -1});
		auto* d = q.mutable_data();
		d->mutable_code()->set_value(100 * v + i / 2);
		d->mutable_atk()->set_value(-5 - v);
		d->mutable_race()->set_value(uint64_t{1} << (40 + v));
		*d->mutable_equipped_to()->mutable_value() = bm::pb(bm::P{v, 4, 0, -1});
		for(int k = 0; k < 1 + v + i; k++)
			*d->mutable_targets()->add_values() =
				bm::pb(bm::P{v, 8, uint32_t(k), -1});
		for(int k = 0; k < 2 - v; k++)
			d->mutable_counters()->add_values()->set_count(7 * v + k);
		d->mutable_is_hidden()->set_value(v != 0);
	}
	return r;
}

auto small_scripts() -> std::vector<Script> const&
{
	static std::vector<Script> const r = []
	{
		std::vector<Script> s;
		for(int i = 0; i < 2; i++)
		{
			auto const& k = keep(answer_cases(i));
			s.push_back({i ? "other answers" : "answers", k.size(),
			             [&k] { return std::make_unique<AnswerInst>(k); }});
			auto const& q = keep(queries(i));
			s.push_back({i ? "other queries" : "queries", q.size(),
			             [&q] { return std::make_unique<QueryInst<false>>(q); }});
			s.push_back({i ? "other cached queries" : "cached queries", q.size(),
			             [&q] { return std::make_unique<QueryInst<true>>(q); }});
		}
		return s;
	}();
	return r;
}

auto scripts() -> std::vector<Script const*> const&
{
	static std::vector<Script const*> const v = []
	{
		std::vector<Script const*> r;
		for(auto* l : {&duel_scripts(), &board_scripts(), &room_scripts(),
		               &small_scripts()})
			for(auto& s : *l)
				r.push_back(&s);
		return r;
	}();
	return v;
}

// Running --------------------------------------------------------------------

// What a script observes alone, and how many switch points its steps have.
struct Solo
{
	std::vector<std::string> obs; // One per step, then the end.
	std::vector<uint64_t> points, calls;
};

auto send_all(int fd, std::string const& s) -> void
{
	size_t at = 0;
	while(at < s.size())
	{
		auto const n = write(fd, s.data() + at, s.size() - at);
		if(n <= 0)
			_exit(9);
		at += size_t(n);
	}
}

// Runs f in a new process; what it returns comes back, or a crash is reported.
struct Child
{
	bool ok = false;
	std::string out, err;
};
auto in_child(std::function<std::string()> const& f) -> Child
{
	int fd[2];
	if(pipe(fd) != 0)
		_exit(4);
	char err[64];
	snprintf(err, sizeof err, "/tmp/mc_indep.%d", getpid());
	fflush(stdout);
	pid_t const pid = fork();
	if(pid == 0)
	{
		close(fd[0]);
		int const e = open(err, O_CREAT | O_TRUNC | O_WRONLY, 0600);
		dup2(e, 2);
		alarm(120);
		send_all(fd[1], f());
		_exit(0);
	}
	close(fd[1]);
	Child r;
	char buf[65536];
	ssize_t n;
	while((n = read(fd[0], buf, sizeof buf)) > 0)
		r.out.append(buf, size_t(n));
	close(fd[0]);
	int st = 0;
	waitpid(pid, &st, 0);
	r.ok = WIFEXITED(st) && WEXITSTATUS(st) == 0;
	if(!r.ok)
	{
		std::ifstream i(err);
		std::stringstream ss;
		ss << i.rdbuf();
		r.err = (WIFSIGNALED(st) ? "signal " + std::to_string(WTERMSIG(st))
		                         : "exit code " + std::to_string(WEXITSTATUS(st))) +
		        ": " + ss.str().substr(0, 1500);
	}
	unlink(err);
	return r;
}

auto run_solo(Script const& s) -> Solo
{
	Solo r;
	auto inst = s.make();
	uint64_t calls = 0;
	on_callback = [&] { calls++; };
	for(size_t i = 0; i < s.n; i++)
	{
		tl.points = 0;
		calls = 0;
		r.obs.push_back(inst->step(i));
		r.points.push_back(tl.points);
		r.calls.push_back(calls);
	}
	on_callback = nullptr;
	r.obs.push_back(inst->end());
	return r;
}

auto pack(Solo const& s) -> std::string
{
	std::string o;
	auto num = [&](uint64_t v) { o.append(reinterpret_cast<char const*>(&v), 8); };
	num(s.points.size());
	for(auto& x : s.obs)
	{
		num(x.size());
		o += x;
	}
	for(auto x : s.points)
		num(x);
	for(auto x : s.calls)
		num(x);
	return o;
}
auto unpack(std::string const& s) -> Solo
{
	Solo r;
	size_t at = 0;
	auto num = [&]
	{
		uint64_t v;
		memcpy(&v, s.data() + at, 8);
		at += 8;
		return v;
	};
	auto const n = num();
	for(size_t i = 0; i <= n; i++)
	{
		auto const l = num();
		r.obs.push_back(s.substr(at, l));
		at += l;
	}
	for(size_t i = 0; i < n; i++)
		r.points.push_back(num());
	for(size_t i = 0; i < n; i++)
		r.calls.push_back(num());
	return r;
}

// Alone, in a process that has done nothing else.
auto solo(Chooser& c, Script const& s) -> Solo const&
{
	static std::map<Script const*, Solo> m;
	auto const it = m.find(&s);
	if(it != m.end())
		return it->second;
	auto const r = in_child([&] { return pack(run_solo(s)); });
	CHECK(c, r.ok, s.name + " alone: " + r.err);
	return m.emplace(&s, unpack(r.out)).first->second;
}

auto show(std::string const& s) -> std::string
{
	bool const plain = std::all_of(s.begin(), s.end(), [](char ch)
	                               { return (ch >= ' ' && ch < 127) || ch == '\n'; });
	auto t = plain ? s : cg::hex(s);
	return t.size() > 900 ? t.substr(0, 900) + "..." : t;
}

// A running script and what it ought to show.
struct Run
{
	Script const& s;
	Solo const& want;
	std::unique_ptr<Inst> inst;
	size_t at = 0;
	std::string bad;
	Run(Script const& x, Solo const& w) : s(x), want(w), inst(x.make()) {}
	auto step() -> void
	{
		if(at >= s.n)
			return;
		auto const o = inst->step(at);
		if(bad.empty() && o != want.obs[at])
			bad = s.name + ", step " + std::to_string(at) +
			      " shows:\n  " + show(o) + "\nbut alone it shows:\n  " +
			      show(want.obs[at]);
		at++;
	}
	auto finish() -> std::string
	{
		while(at < s.n)
			step();
		if(!bad.empty())
			return bad;
		auto const o = inst->end();
		if(o != want.obs[s.n])
			return s.name + " at the end shows:\n  " + show(o) +
			       "\nbut alone it shows:\n  " + show(want.obs[s.n]);
		return "";
	}
};

auto again(Script const& s, Solo const& w) -> std::string
{
	auto const r = Run(s, w).finish();
	return r.empty() ? "" : "run again after other histories: " + r;
}

// Another thread that runs jobs for the main one, one at a time.
class Worker
{
	std::mutex m;
	std::condition_variable cv;
	std::function<void()> job;
	enum
	{
		IDLE,
		RUNNING,
		PAUSED
	} state = IDLE;
	bool go = false, quit = false;
	std::thread t;

public:
	Worker()
		: t([this]
	        {
				std::unique_lock<std::mutex> l(m);
				for(;;)
				{
					cv.wait(l, [&] { return quit || (state == RUNNING && job); });
					if(quit)
						return;
					auto j = std::move(job);
					job = nullptr;
					l.unlock();
					j();
					l.lock();
					state = IDLE;
					cv.notify_all();
				}
			})
	{}
	~Worker()
	{
		wait();
		{
			std::unique_lock<std::mutex> l(m);
			quit = true;
			cv.notify_all();
		}
		t.join();
	}
	// Until it ends or pauses. A worker that waits for something the suspended
	// side holds is left to go on when that one does.
	auto start(std::function<void()> j) -> void
	{
		std::unique_lock<std::mutex> l(m);
		state = RUNNING;
		job = std::move(j);
		cv.notify_all();
		cv.wait_for(l, std::chrono::seconds(2), [&] { return state != RUNNING; });
	}
	auto resume() -> void
	{
		std::unique_lock<std::mutex> l(m);
		if(state != PAUSED)
			return;
		state = RUNNING;
		go = true;
		cv.notify_all();
	}
	// In the worker.
	auto pause() -> void
	{
		std::unique_lock<std::mutex> l(m);
		state = PAUSED;
		cv.notify_all();
		cv.wait(l, [&] { return go; });
		go = false;
	}
	auto wait() -> void
	{
		resume();
		std::unique_lock<std::mutex> l(m);
		cv.wait(l, [&] { return state == IDLE; });
	}
};

std::atomic<bool> pausing{false};

struct Stat
{
	uint64_t schedules = 0;
	std::string bad;
};

auto report(Chooser& c, std::string const& what, Child const& r) -> void
{
	CHECK(c, r.ok, what + ": " + r.err);
	uint64_t n = 0;
	memcpy(&n, r.out.data(), 8);
	c.step(n);
	auto const bad = r.out.substr(8);
	LOG(c, "%s: %llu schedules", what.c_str(), static_cast<unsigned long long>(n));
	CHECK(c, bad.empty(), what + ": " + bad);
}
auto pack(Stat const& s) -> std::string
{
	return std::string(reinterpret_cast<char const*>(&s.schedules), 8) + s.bad;
}

// Every order of the steps of two scripts; long ones with at most `most`
// changes between them.
auto orders(Chooser& c, Script const& a, Script const& b, size_t all, int most)
	-> void
{
	auto const& wa = solo(c, a);
	auto const& wb = solo(c, b);
	auto const r = in_child(
		[&]
		{
			Stat st;
			std::vector<bool> order(a.n + b.n);
			std::fill(order.begin() + long(a.n), order.end(), true);
			do
			{
				if(order.size() > all)
				{
					int n = 0;
					for(size_t i = 1; i < order.size(); i++)
						n += order[i] != order[i - 1];
					if(n > most)
						continue;
				}
				Run ra(a, wa), rb(b, wb);
				for(bool second : order)
					(second ? rb : ra).step();
				st.schedules++;
				st.bad = ra.finish();
				if(st.bad.empty())
					st.bad = rb.finish();
				if(!st.bad.empty())
				{
					std::string o;
					for(bool second : order)
						o += second ? "B" : "A";
					st.bad = "in the order " + o + ": " + st.bad;
					break;
				}
			} while(std::next_permutation(order.begin(), order.end()));
			if(st.bad.empty())
				st.bad = again(b, wb);
			return pack(st);
		});
	report(c, "A: " + a.name + ", B: " + b.name, r);
}

// A suspended in its step `sa` (of which the ones before are done) at each
// switch point; B, which has done `sb` steps, then does `k` more in its own
// thread. If `twice`, B is suspended too at each switch point of its step, A
// finishes its step, and B goes on.
auto preempted(Chooser& c, Script const& a, Script const& b, size_t sa, size_t sb,
               size_t k, bool twice) -> void
{
	auto const& wa = solo(c, a);
	auto const& wb = solo(c, b);
	// A slice of the points at a time where there are many schedules.
	uint64_t const every = twice ? wa.points[sa] / 8 + 1 : 1;
	uint64_t const slice = twice ? c.pick(uint32_t(every)) : 0;
	auto const r = in_child(
		[&]
		{
			Stat st;
			// One-time initialisations happen here, and do not count as a wait.
			st.bad = again(b, wb);
			if(st.bad.empty())
				st.bad = again(a, wa);
			Worker w;
			uint64_t const nb = twice ? wb.points[sb] : 1;
			for(uint64_t p = slice; st.bad.empty() && p < wa.points[sa]; p += every)
				for(uint64_t q = 0; st.bad.empty() && q < nb; q++)
				{
					Run ra(a, wa), rb(b, wb);
					for(size_t i = 0; i < sa; i++)
						ra.step();
					for(size_t i = 0; i < sb; i++)
						rb.step();
					std::thread::id const me = std::this_thread::get_id();
					bool met = false;
					on_stop = [&]
					{
						if(std::this_thread::get_id() != me)
						{
							w.pause();
							return;
						}
						met = true;
						w.start(
							[&]
							{
								tl.points = 0;
								tl.stop_at = twice ? q : ~uint64_t{0};
								for(size_t i = 0; i < k; i++)
									rb.step();
								tl.stop_at = ~uint64_t{0};
							});
					};
					tl.points = 0;
					tl.stop_at = p;
					ra.step();
					tl.stop_at = ~uint64_t{0};
					w.wait();
					st.schedules++;
					st.bad = ra.finish();
					if(st.bad.empty())
						st.bad = rb.finish();
					if(!st.bad.empty())
						st.bad = "A suspended in step " + std::to_string(sa) +
						         " at point " + std::to_string(p) + " while B did " +
						         std::to_string(k) + " steps from step " +
						         std::to_string(sb) +
						         (twice ? ", suspended at point " + std::to_string(q)
						                : "") +
						         ": " + st.bad;
				}
			on_stop = nullptr;
			return pack(st);
		});
	report(c, "A: " + a.name + ", B: " + b.name, r);
}

// B does `k` steps inside each callback of A, in the same thread.
auto in_callback(Chooser& c, Script const& a, Script const& b, size_t sb) -> void
{
	auto const& wa = solo(c, a);
	auto const& wb = solo(c, b);
	auto const r = in_child(
		[&]
		{
			Stat st;
			for(size_t sa = 0; st.bad.empty() && sa < a.n; sa++)
				for(uint64_t n = 0; st.bad.empty() && n < wa.calls[sa]; n++)
					for(size_t k = 1; st.bad.empty() && sb + k <= b.n; k++)
					{
						Run ra(a, wa), rb(b, wb);
						for(size_t i = 0; i < sa; i++)
							ra.step();
						for(size_t i = 0; i < sb; i++)
							rb.step();
						uint64_t left = n;
						bool inside = false;
						on_callback = [&]
						{
							if(inside || left-- != 0)
								return;
							inside = true;
							for(size_t i = 0; i < k; i++)
								rb.step();
							left = ~uint64_t{0};
							inside = false;
						};
						ra.step();
						on_callback = nullptr;
						st.schedules++;
						st.bad = ra.finish();
						if(st.bad.empty())
							st.bad = rb.finish();
						if(!st.bad.empty())
							st.bad = "B doing " + std::to_string(k) + " steps from " +
							         std::to_string(sb) + " in callback " +
							         std::to_string(n) + " of step " +
							         std::to_string(sa) + " of A: " + st.bad;
					}
			return pack(st);
		});
	report(c, "A: " + a.name + ", B: " + b.name, r);
}

// Spaces ---------------------------------------------------------------------

auto mark(Chooser& c) -> void
{
	mc::Hasher h;
	for(auto x : c.choices)
		h.add(x);
	c.state(h.h);
}

auto register_all(bool th) -> std::vector<Space>
{
	std::vector<Space> v;
	size_t const nk = cg::kinds().size();
	v.push_back({"message_orders",
	             "every pair of message kinds, two messages each, every order",
	             [nk](Chooser& c)
	             {
					 auto const i = c.pick(nk), j = c.pick(nk);
					 orders(c, kind_script(i, 0), kind_script(j, 1), 4, 4);
					 mark(c);
				 }});
	v.push_back(
		{"messages_preempted",
	     th ? "every pair of message kinds: one message suspended at every basic "
	          "block while the other two are encoded"
	        : "two encoders on messages of the same kind, and every kind against "
	          "the special ones: one message suspended at every basic block while "
	          "the other two are encoded",
	     [nk, th](Chooser& c)
	     {
			 auto const i = c.pick(nk);
			 size_t j = i;
			 if(th)
				 j = c.pick(nk);
			 preempted(c, kind_script(i, 0), kind_script(j, 1), c.pick(2), 0, 2, false);
			 mark(c);
		 }});
	if(th)
		v.push_back({"messages_preempted_twice",
		             "two encoders on messages of the same kind, both suspended in "
		             "turn at every pair of basic blocks (default shapes)",
		             [nk](Chooser& c)
		             {
						 auto const i = c.pick(nk);
						 preempted(c, kind_script(i, 0), kind_script(i, 1), 0, 0, 1,
			                       true);
						 mark(c);
					 }});
	v.push_back({"message_callbacks",
	             "every pair of message kinds: the second encoder driven from inside "
	             "each context call of the first",
	             [nk](Chooser& c)
	             {
					 // Only some kinds call the context.
					 auto const i = c.pick(nk);
					 auto const& a = kind_script(i, 0);
					 auto const& w = solo(c, a);
					 if(w.calls[0] + w.calls[1] == 0)
						 return;
					 in_callback(c, a, kind_script(c.pick(nk), 1), c.pick(2));
					 mark(c);
				 }});
	v.push_back({"orders",
	             "every pair of whole-instance scripts (duels, boards, rooms, "
	             "answers, queries), every order of their steps (scripts of more than " +
	                 std::string(th ? "12" : "9") +
	                 " steps together: every order with at most " +
	                 std::string(th ? "5" : "3") + " changes)",
	             [th](Chooser& c)
	             {
					 auto const& s = scripts();
					 auto const i = c.pick(s.size()), j = c.pick(s.size());
					 orders(c, *s[i], *s[j], th ? 12 : 9, th ? 5 : 3);
					 mark(c);
				 }});
	v.push_back(
		{"preempted",
	     "every pair of whole-instance scripts" +
	         std::string(th ? "" : " of the same sort") +
	         ": every step suspended at every basic block while the other instance, "
	         "at every point of its script, runs to its end" +
	         (th ? ", or only one step" : ""),
	     [th](Chooser& c)
	     {
			 auto const& s = scripts();
			 auto const i = c.pick(s.size());
			 auto const& a = *s[i];
			 size_t j = 0;
			 if(th)
				 j = c.pick(s.size());
			 else
			 {
				 // The scripts of the same list.
				 std::vector<size_t> same;
				 size_t at = 0;
				 for(auto n : {duel_scripts().size(), board_scripts().size(),
				               room_scripts().size(), small_scripts().size()})
				 {
					 if(i >= at && i < at + n)
						 for(size_t x = at; x < at + n; x++)
							 same.push_back(x);
					 at += n;
				 }
				 j = same[c.pick(same.size())];
			 }
			 auto const& b = *s[j];
			 auto const sa = c.pick(a.n);
			 auto const sb = th ? c.pick(b.n) : c.pick(2) * (b.n / 2);
			 auto const k = th && c.pickb() ? 1 : b.n - sb;
			 preempted(c, a, b, sa, sb, k, false);
			 mark(c);
		 }});
	v.push_back({"callbacks",
	             "every pair of whole-instance scripts: the second driven from inside "
	             "each callback of the first, from every point of its script",
	             [](Chooser& c)
	             {
					 auto const& s = scripts();
					 auto const& a = *s[c.pick(s.size())];
					 auto const& w = solo(c, a);
					 uint64_t n = 0;
					 for(auto x : w.calls)
						 n += x;
					 if(n == 0)
						 return;
					 auto const& b = *s[c.pick(s.size())];
					 in_callback(c, a, b, c.pick(b.n));
					 mark(c);
				 }});
	return v;
}

mc::Register r29("C29", register_all);

} // namespace

auto main(int argc, char** argv) -> int { return mc::main_(argc, argv); }
