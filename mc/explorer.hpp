// Exhaustive, bounded exploration of executions of the real code.
//
// A *space* is a body run once per execution. Everything the environment may
// decide (operation, operand, field value, random number, interleaving step) is
// drawn from Chooser::pick (free alternative) or Chooser::dev (a deviation from
// the default, of which an execution may have at most `dev_bound`). The
// explorer re-executes the body for every reachable sequence of answers (depth
// first, stateless), in parallel processes that split the tree by prefix.
// A body may call visit(hash, remaining): an execution that reaches a state
// that another one already continued from, with at least as many remaining
// steps, is cut there.
#ifndef MC_EXPLORER_HPP
#define MC_EXPLORER_HPP
#define LOG(c, ...)               \
	do                            \
	{                             \
		if((c).verbose)           \
			(c).log(__VA_ARGS__); \
	} while(false)
// Like Chooser::check, but the message is only composed on failure.
#define CHECK(c, cond, msg)     \
	do                          \
	{                           \
		if(!(cond))             \
			(c).violation(msg); \
	} while(false)
#include <atomic>
#include <chrono>
#include <cstdarg>
#include <cstdint>
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <fcntl.h>
#include <fstream>
#include <functional>
#include <iostream>
#include <set>
#include <signal.h>
#include <sstream>
#include <string>
#include <sys/mman.h>
#include <sys/wait.h>
#include <unistd.h>
#include <vector>

namespace mc
{

struct Hasher
{
	uint64_t h = 0x9E3779B97F4A7C15ULL;
	static auto mix(uint64_t x) -> uint64_t
	{
		x ^= x >> 30U;
		x *= 0xBF58476D1CE4E5B9ULL;
		x ^= x >> 27U;
		x *= 0x94D049BB133111EBULL;
		return x ^ (x >> 31U);
	}
	auto add(uint64_t v) -> Hasher&
	{
		h = mix(h ^ mix(v + 0x632BE59BD9B4E019ULL)) * 0x9FB21C651E98DF25ULL + 1;
		return *this;
	}
	auto add(std::string const& s) -> Hasher&
	{
		add(s.size());
		uint64_t acc = 0;
		size_t i = 0;
		for(unsigned char c : s)
		{
			acc = (acc << 8U) | c;
			if(++i % 8 == 0)
				add(acc);
		}
		return add(acc);
	}
};

constexpr uint32_t MAX_CHOICES = 16384;

struct Slot
{
	std::atomic<uint64_t> beat;
	uint64_t executions, transitions, cut;
	uint32_t len;
	uint32_t choices[MAX_CHOICES];
	uint32_t sample_len;
	uint32_t sample[MAX_CHOICES];
	int failed;
	char msg[8192];
	char known[4096];
};

struct Shared
{
	std::atomic<uint64_t> next_task;
	std::atomic<uint64_t> states, outcomes;
	std::atomic<int> stop;
	std::atomic<int> table_full;
};

constexpr size_t TABLE_BITS = 25;
constexpr size_t TABLE_SIZE = size_t{1} << TABLE_BITS;
constexpr size_t OUT_BITS = 20;
constexpr size_t OUT_SIZE = size_t{1} << OUT_BITS;

struct Globals
{
	Shared* sh = nullptr;
	std::atomic<uint64_t>* table = nullptr;
	std::atomic<uint64_t>* outs = nullptr;
	Slot* slots = nullptr;
	std::set<std::string> known;
};
inline Globals G;

class Chooser
{
public:
	std::vector<uint32_t> prefix;
	std::vector<uint32_t> choices, arity;
	int dev_bound = 0;
	int devs = 0;
	bool verbose = false;
	bool expanding = false; // Neither prune nor record states.
	Slot* slot = nullptr;
	uint64_t transitions = 0;
	uint64_t cut = 0;
	std::vector<uint32_t> const* expect_arity = nullptr;
	// While not empty, picks do not branch but repeat this pattern, one further
	// each time round.
	std::vector<uint32_t> pattern;
	uint32_t played = 0;

	auto pick(uint32_t n) -> uint32_t
	{
		if(n == 0)
			internal("pick(0)");
		if(!pattern.empty())
		{
			auto const i = played++;
			return uint32_t((pattern[i % pattern.size()] + i / pattern.size()) % n);
		}
		uint32_t const i = choices.size();
		uint32_t c = 0;
		if(i < prefix.size())
		{
			c = prefix[i];
			if(c >= n)
				internal("nondeterministic replay: choice out of range");
			if(expect_arity != nullptr && i < expect_arity->size() &&
			   (*expect_arity)[i] != n)
				internal("nondeterministic replay: arity changed");
		}
		choices.push_back(c);
		arity.push_back(n);
		if(slot != nullptr)
		{
			if(i >= MAX_CHOICES)
				internal("too many choices in one execution");
			slot->choices[i] = c;
			slot->len = i + 1;
		}
		return c;
	}
	auto pickb() -> bool { return pick(2) != 0; }
	// Alternative 0 is the default; any other one costs one deviation.
	auto dev(uint32_t n) -> uint32_t
	{
		auto const c = pick(devs < dev_bound ? n : 1);
		if(c != 0)
			devs++;
		return c;
	}
	// Choose among listed values, first one being the default.
	template<typename T>
	auto devv(std::vector<T> const& v) -> T
	{
		return v[dev(v.size())];
	}
	template<typename T>
	auto pickv(std::vector<T> const& v) -> T
	{
		return v[pick(v.size())];
	}

	auto step(uint64_t n = 1) -> void { transitions += n; }

	// False while re-executing steps that an earlier execution already checked.
	[[nodiscard]] auto fresh() const -> bool
	{
		return verbose || choices.size() >= prefix.size();
	}

	// False if this execution need not continue.
	auto visit(uint64_t h, unsigned remaining) -> bool
	{
		if(verbose || expanding || choices.size() < prefix.size())
			return true;
		uint64_t const key = h & ~uint64_t{0xFF};
		uint64_t const rem = remaining > 254 ? 255 : remaining + 1;
		uint64_t const val = key | rem;
		size_t i = (Hasher::mix(h) >> 7U) & (TABLE_SIZE - 1);
		for(int probes = 0; probes < 64; probes++, i = (i + 1) & (TABLE_SIZE - 1))
		{
			uint64_t cur = G.table[i].load(std::memory_order_relaxed);
			if(cur == 0)
			{
				if(G.table[i].compare_exchange_strong(cur, val))
				{
					G.sh->states.fetch_add(1, std::memory_order_relaxed);
					return true;
				}
			}
			while((cur & ~uint64_t{0xFF}) == key)
			{
				if((cur & 0xFF) >= rem)
				{
					cut++;
					return false;
				}
				if(G.table[i].compare_exchange_strong(cur, val))
					return true;
			}
		}
		G.sh->table_full = 1;
		return true;
	}
	// Count a distinct state without pruning.
	auto state(uint64_t h) -> void
	{
		static_cast<void>(visit(h, 0));
	}
	auto outcome(uint64_t h) -> void
	{
		if(expanding || verbose)
			return;
		h |= 1;
		size_t i = (Hasher::mix(h) >> 11U) & (OUT_SIZE - 1);
		for(int probes = 0; probes < 32; probes++, i = (i + 1) & (OUT_SIZE - 1))
		{
			uint64_t cur = G.outs[i].load(std::memory_order_relaxed);
			if(cur == h)
				return;
			if(cur == 0 && G.outs[i].compare_exchange_strong(cur, h))
			{
				G.sh->outcomes.fetch_add(1, std::memory_order_relaxed);
				return;
			}
			if(cur == h)
				return;
		}
	}

	__attribute__((format(printf, 2, 3))) auto log(char const* f, ...) -> void
	{
		if(!verbose)
			return;
		va_list ap;
		va_start(ap, f);
		vprintf(f, ap);
		va_end(ap);
		putchar('\n');
		fflush(stdout);
	}

	[[noreturn]] auto violation(std::string const& m) -> void
	{
		if(verbose)
		{
			printf("FAILED: %s\n", m.c_str());
			fflush(stdout);
		}
		if(slot != nullptr)
		{
			slot->failed = 1;
			snprintf(slot->msg, sizeof(slot->msg), "%s", m.c_str());
		}
		_exit(3);
	}
	auto check(bool ok, std::string const& m) -> void
	{
		if(!ok)
			violation(m);
	}
	[[noreturn]] auto internal(std::string const& m) -> void
	{
		fprintf(stderr, "INTERNAL ERROR: %s\n", m.c_str());
		if(slot != nullptr)
		{
			slot->failed = 2;
			snprintf(slot->msg, sizeof(slot->msg), "%s", m.c_str());
		}
		_exit(4);
	}
};

struct Space
{
	std::string name;
	std::string bounds; // Human description.
	std::function<void(Chooser&)> body;
	int dev_bound = 0;
};

using SpaceGen = std::function<std::vector<Space>(bool thorough)>;

struct Registry
{
	std::vector<std::pair<std::string, SpaceGen>> v;
};
inline auto registry() -> Registry&
{
	static Registry r;
	return r;
}
struct Register
{
	Register(char const* id, SpaceGen g)
	{
		registry().v.emplace_back(id, std::move(g));
	}
};

inline auto now() -> double
{
	using namespace std::chrono;
	return duration<double>(steady_clock::now().time_since_epoch()).count();
}

inline auto shm(size_t sz) -> void*
{
	void* p = mmap(nullptr, sz, PROT_READ | PROT_WRITE,
	               MAP_SHARED | MAP_ANONYMOUS | MAP_NORESERVE, -1, 0);
	if(p == MAP_FAILED)
	{
		perror("mmap");
		_exit(4);
	}
	return p;
}

inline auto jstr(std::string const& s) -> std::string
{
	std::string o = "\"";
	for(unsigned char c : s)
	{
		if(c == '"' || c == '\\')
		{
			o += '\\';
			o += static_cast<char>(c);
		}
		else if(c == '\n')
			o += "\\n";
		else if(c < 0x20 || c > 0x7E)
		{
			char b[8];
			snprintf(b, sizeof b, "\\u%04x", c);
			o += b;
		}
		else
			o += static_cast<char>(c);
	}
	return o + "\"";
}

inline auto run_once(Space const& sp, Chooser& c) -> void
{
	c.dev_bound = sp.dev_bound;
	if(c.slot != nullptr)
		c.slot->len = 0;
	sp.body(c);
}

// Runs in a child so that a failure cannot take the parent down.
inline auto capture_run(Space const& sp, std::vector<uint32_t> const& prefix)
	-> std::string
{
	int fd[2];
	if(pipe(fd) != 0)
		return "";
	pid_t const pid = fork();
	if(pid == 0)
	{
		close(fd[0]);
		dup2(fd[1], 1);
		int const dn = open("/dev/null", O_WRONLY);
		dup2(dn, 2);
		alarm(20);
		Chooser c;
		c.prefix = prefix;
		c.verbose = true;
		run_once(sp, c);
		fflush(stdout);
		_exit(0);
	}
	close(fd[1]);
	std::string out;
	char buf[4096];
	ssize_t n;
	while((n = read(fd[0], buf, sizeof buf)) > 0)
		out.append(buf, n);
	close(fd[0]);
	int st;
	waitpid(pid, &st, 0);
	return out;
}

struct Result
{
	bool violated = false;
	bool internal = false;
	bool exhaustive = true;
	std::string why;
	std::vector<uint32_t> trace;
	uint64_t executions = 0, transitions = 0, states = 0, outcomes = 0, cut = 0,
	         tasks = 0;
	bool table_full = false;
	double wall = 0;
	std::vector<std::string> samples;
};

inline auto explore(Space const& sp, unsigned workers, double budget) -> Result
{
	Result res;
	double const t0 = now();
	G.table = static_cast<std::atomic<uint64_t>*>(shm(TABLE_SIZE * 8));
	G.outs = static_cast<std::atomic<uint64_t>*>(shm(OUT_SIZE * 8));
	G.sh = static_cast<Shared*>(shm(sizeof(Shared)));
	G.slots = static_cast<Slot*>(shm(sizeof(Slot) * (workers + 1)));
	auto stderr_name = [](unsigned w)
	{ return "/tmp/mc_err." + std::to_string(getppid()) + "." + std::to_string(w); };
	auto const self_err = [&](unsigned w)
	{ return "/tmp/mc_err." + std::to_string(getpid()) + "." + std::to_string(w); };

	// Phase 1 (in a child, results through shared memory): split the tree.
	constexpr size_t TASK_WORDS = size_t{1} << 22;
	auto* tbuf = static_cast<uint32_t*>(shm(TASK_WORDS * 4));
	size_t const want = size_t{workers} * 48;
	auto fail_from_slot = [&](Slot& s, int st, std::string const& errfile)
	{
		res.exhaustive = false;
		if(s.failed == 2)
		{
			res.internal = true;
			res.why = s.msg;
		}
		else
		{
			res.violated = true;
			if(s.failed == 1)
				res.why = s.msg;
			else
			{
				std::ifstream f(errfile);
				std::stringstream ss;
				ss << f.rdbuf();
				res.why = (WIFSIGNALED(st)
				               ? "crash, signal " + std::to_string(WTERMSIG(st))
				               : "crash, exit code " +
				                     std::to_string(WEXITSTATUS(st))) +
				          ": " + ss.str().substr(0, 1800);
			}
		}
		res.trace.assign(s.choices, s.choices + std::min(s.len, MAX_CHOICES));
	};
	auto wait_watch = [&](pid_t pid, Slot& s, int& st) -> bool // false: hung
	{
		uint64_t last = s.beat.load();
		uint32_t last_len = s.len;
		double t = now();
		for(;;)
		{
			if(waitpid(pid, &st, WNOHANG) == pid)
				return true;
			usleep(3000);
			if(s.beat.load() != last || s.len != last_len)
			{
				last = s.beat.load();
				last_len = s.len;
				t = now();
			}
			else if(now() - t > 40)
			{
				kill(pid, SIGKILL);
				waitpid(pid, &st, 0);
				return false;
			}
		}
	};
	{
		Slot& s = G.slots[workers];
		pid_t const pid = fork();
		if(pid == 0)
		{
			int const fd = open(stderr_name(workers).c_str(),
			                    O_CREAT | O_TRUNC | O_WRONLY, 0600);
			dup2(fd, 2);
			std::vector<std::vector<uint32_t>> open_{{}}, done;
			size_t words = 0;
			while(!open_.empty() && open_.size() + done.size() < want)
			{
				// Expand the shallowest one.
				size_t best = 0;
				for(size_t i = 1; i < open_.size(); i++)
					if(open_[i].size() < open_[best].size())
						best = i;
				auto p = open_[best];
				open_.erase(open_.begin() + best);
				Chooser c;
				c.prefix = p;
				c.expanding = true;
				c.slot = &s;
				run_once(sp, c);
				s.beat++;
				size_t k = p.size();
				while(k < c.choices.size() && c.arity[k] == 1)
					k++;
				if(k >= c.choices.size())
				{
					done.push_back(p);
					continue;
				}
				std::vector<uint32_t> q(c.choices.begin(),
				                        c.choices.begin() + k);
				for(uint32_t a = 0; a < c.arity[k]; a++)
				{
					q.push_back(a);
					open_.push_back(q);
					q.pop_back();
				}
			}
			for(auto& d : done)
				open_.push_back(d);
			uint32_t* w = tbuf + 1;
			words = 1;
			for(auto& p : open_)
			{
				if(words + p.size() + 1 > TASK_WORDS)
					_exit(5);
				*w++ = p.size();
				for(auto x : p)
					*w++ = x;
				words += p.size() + 1;
			}
			tbuf[0] = open_.size();
			_exit(0);
		}
		int st = 0;
		bool const alive = wait_watch(pid, s, st);
		if(!alive || !WIFEXITED(st) || WEXITSTATUS(st) != 0)
		{
			fail_from_slot(s, st, self_err(workers));
			if(!alive)
				res.why = "no progress for 40 s (hang)";
		}
		unlink(self_err(workers).c_str());
	}
	std::vector<std::vector<uint32_t>> tasks;
	if(!res.violated && !res.internal)
	{
		uint32_t const* w = tbuf + 1;
		for(uint32_t i = 0; i < tbuf[0]; i++)
		{
			uint32_t const n = *w++;
			tasks.emplace_back(w, w + n);
			w += n;
		}
		res.tasks = tasks.size();
		std::vector<pid_t> pids(workers);
		for(unsigned wi = 0; wi < workers; wi++)
		{
			pids[wi] = fork();
			if(pids[wi] != 0)
				continue;
			int const fd = open(stderr_name(wi).c_str(),
			                    O_CREAT | O_TRUNC | O_WRONLY, 0600);
			dup2(fd, 2);
			Slot& s = G.slots[wi];
			for(;;)
			{
				uint64_t const ti = G.sh->next_task++;
				if(ti >= tasks.size())
					break;
				auto const& base = tasks[ti];
				std::vector<uint32_t> cur = base;
				std::vector<uint32_t> ar;
				for(;;)
				{
					if(G.sh->stop.load(std::memory_order_relaxed) != 0)
						_exit(0);
					Chooser c;
					c.prefix = cur;
					c.slot = &s;
					c.expect_arity = &ar;
					run_once(sp, c);
					if(c.choices.size() < cur.size())
						c.internal("nondeterministic replay: too short");
					s.beat++;
					s.executions++;
					s.transitions += c.transitions;
					s.cut += c.cut;
					if((s.executions & (s.executions - 1)) == 0)
					{
						s.sample_len = c.choices.size();
						std::copy(c.choices.begin(), c.choices.end(), s.sample);
					}
					size_t k = c.choices.size();
					while(k > base.size() &&
					      c.choices[k - 1] + 1 >= c.arity[k - 1])
						k--;
					if(k <= base.size())
						break;
					cur.assign(c.choices.begin(), c.choices.begin() + k);
					cur[k - 1]++;
					ar.assign(c.arity.begin(), c.arity.begin() + k);
				}
			}
			_exit(0);
		}
		// Watch them.
		std::vector<bool> alive(workers, true);
		std::vector<uint64_t> beat(workers, 0);
		std::vector<uint32_t> lens(workers, 0);
		std::vector<double> seen(workers, now());
		unsigned left = workers;
		auto kill_all = [&]()
		{
			for(unsigned i = 0; i < workers; i++)
				if(alive[i])
				{
					kill(pids[i], SIGKILL);
					int st;
					waitpid(pids[i], &st, 0);
					alive[i] = false;
				}
			left = 0;
		};
		while(left > 0)
		{
			bool progress = false;
			for(unsigned i = 0; i < workers && left > 0; i++)
			{
				if(!alive[i])
					continue;
				int st;
				if(waitpid(pids[i], &st, WNOHANG) == pids[i])
				{
					progress = true;
					alive[i] = false;
					left--;
					if(!WIFEXITED(st) || WEXITSTATUS(st) != 0)
					{
						fail_from_slot(G.slots[i], st, self_err(i));
						kill_all();
					}
					continue;
				}
				Slot& s = G.slots[i];
				if(s.beat.load() != beat[i] || s.len != lens[i])
				{
					beat[i] = s.beat.load();
					lens[i] = s.len;
					seen[i] = now();
				}
				else if(now() - seen[i] > 40)
				{
					fail_from_slot(s, 0, "/dev/null");
					res.why = "no progress for 40 s (hang)";
					kill_all();
				}
			}
			if(now() - t0 > budget && left > 0 && G.sh->stop == 0)
			{
				G.sh->stop = 1;
				res.exhaustive = false;
				res.why = "time budget reached";
			}
			if(!progress)
				usleep(2000);
		}
		for(unsigned i = 0; i < workers; i++)
		{
			unlink(self_err(i).c_str());
			res.executions += G.slots[i].executions;
			res.transitions += G.slots[i].transitions;
			res.cut += G.slots[i].cut;
		}
		res.states = G.sh->states;
		res.outcomes = G.sh->outcomes;
		res.table_full = G.sh->table_full != 0;
		if(!res.violated && !res.internal)
		{
			unsigned taken = 0;
			for(unsigned i = 0; i < workers && taken < 2; i++)
				if(G.slots[i].sample_len != 0)
				{
					auto s = capture_run(
						sp, std::vector<uint32_t>(
								G.slots[i].sample,
								G.slots[i].sample + G.slots[i].sample_len));
					if(s.size() > 1500)
						s = s.substr(0, 1500) + "...";
					res.samples.push_back(s);
					taken++;
				}
		}
	}
	munmap(G.table, TABLE_SIZE * 8);
	munmap(G.outs, OUT_SIZE * 8);
	munmap(G.sh, sizeof(Shared));
	munmap(G.slots, sizeof(Slot) * (workers + 1));
	munmap(tbuf, TASK_WORDS * 4);
	res.wall = now() - t0;
	return res;
}

inline auto find_spaces(std::string const& id, bool thorough)
	-> std::vector<Space>
{
	std::vector<Space> out;
	for(auto& [k, g] : registry().v)
		if(k == id)
			for(auto& s : g(thorough))
				out.push_back(s);
	return out;
}

inline auto main_(int argc, char** argv) -> int
{
	setvbuf(stdout, nullptr, _IOFBF, 1 << 16);
	if(argc >= 2 && std::string(argv[1]) == "list")
	{
		std::set<std::string> s;
		for(auto& [k, g] : registry().v)
			s.insert(k);
		for(auto& k : s)
			printf("%s\n", k.c_str());
		return 0;
	}
	if(argc < 4)
	{
		fprintf(stderr, "usage: explore ID TIER OUT [workers] [budget] [only] "
		                "| replay ID FILE\n");
		return 2;
	}
	std::string const mode = argv[1], id = argv[2];
	if(mode == "replay")
	{
		std::ifstream f(argv[3]);
		std::string line, space, tier;
		std::vector<uint32_t> trace;
		while(std::getline(f, line))
		{
			std::stringstream ss(line);
			std::string k;
			ss >> k;
			if(k == "space")
				ss >> space;
			else if(k == "tier")
				ss >> tier;
			else if(k == "choices")
			{
				uint32_t x;
				while(ss >> x)
					trace.push_back(x);
			}
		}
		for(auto& sp : find_spaces(id, tier == "thorough"))
			if(sp.name == space)
			{
				printf("replaying property=%s space=%s (%s)\n", id.c_str(),
				       sp.name.c_str(), sp.bounds.c_str());
				fflush(stdout);
				Chooser c;
				c.prefix = trace;
				c.verbose = true;
				run_once(sp, c);
				printf("execution finished without violation\n");
				fflush(stdout);
				return 0;
			}
		fprintf(stderr, "no such space\n");
		return 2;
	}
	if(mode != "explore" || argc < 5)
		return 2;
	bool const thorough = std::string(argv[3]) == "thorough";
	std::string const outp = argv[4];
	unsigned workers = argc > 5 ? atoi(argv[5]) : 8;
	double budget = argc > 6 ? atof(argv[6]) : 600;
	std::string const only = argc > 7 ? argv[7] : "";
	std::ofstream out(outp);
	out << "{\"spaces\":[";
	bool first = true;
	int rc = 0;
	auto sps = find_spaces(id, thorough);
	if(sps.empty())
	{
		fprintf(stderr, "no spaces for %s\n", id.c_str());
		return 2;
	}
	double const t0 = now();
	for(auto& sp : sps)
	{
		if(!only.empty() && sp.name != only)
			continue;
		double const left = budget - (now() - t0);
		auto r = explore(sp, workers, left < 1 ? 1 : left);
		if(!first)
			out << ",";
		first = false;
		out << "{\"name\":" << jstr(sp.name)
		    << ",\"bounds\":" << jstr(sp.bounds)
		    << ",\"deviation_bound\":" << sp.dev_bound
		    << ",\"executions\":" << r.executions
		    << ",\"transitions\":" << r.transitions
		    << ",\"states\":" << r.states << ",\"outcomes\":" << r.outcomes
		    << ",\"cut\":" << r.cut << ",\"tasks\":" << r.tasks
		    << ",\"table_full\":" << (r.table_full ? "true" : "false")
		    << ",\"exhaustive\":" << (r.exhaustive ? "true" : "false")
		    << ",\"violated\":" << (r.violated ? "true" : "false")
		    << ",\"internal\":" << (r.internal ? "true" : "false")
		    << ",\"wall_s\":" << r.wall << ",\"why\":" << jstr(r.why)
		    << ",\"trace\":[";
		for(size_t i = 0; i < r.trace.size(); i++)
			out << (i ? "," : "") << r.trace[i];
		out << "],\"samples\":[";
		for(size_t i = 0; i < r.samples.size(); i++)
			out << (i ? "," : "") << jstr(r.samples[i]);
		out << "]}";
		if(r.violated || r.internal)
		{
			rc = r.internal ? 4 : 3;
			break;
		}
	}
	out << "]}";
	out.close();
	return rc;
}

} // namespace mc

#endif
