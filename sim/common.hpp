// Common machinery of the simulator: seeded generator, trace format, verdicts,
// shared statistics.  Everything a run does is a pure function of (trace, code).
#pragma once

#include <cstdint>
#include <cstdio>
#include <cstdlib>
#include <functional>
#include <map>
#include <string>
#include <string_view>
#include <vector>

namespace sim {

using u64 = std::uint64_t;

//---------------------------------------------------------------- randomness
struct Rng {
	u64 s;
	explicit Rng(u64 seed) : s(seed) { next(); }
	u64 next() {
		u64 z = (s += 0x9e3779b97f4a7c15ull);
		z = (z ^ (z >> 30)) * 0xbf58476d1ce4e5b9ull;
		z = (z ^ (z >> 27)) * 0x94d049bb133111ebull;
		return z ^ (z >> 31);
	}
	u64 below(u64 n) { return n ? next() % n : 0; }
	int range(int a, int b) { return a + (int) below((u64) (b - a + 1)); }
	bool chance(int percent) { return (int) below(100) < percent; }
	template<typename T> T const& pick(std::vector<T> const& v) { return v[below(v.size())]; }
	// Index chosen by integer weights.
	std::size_t weighted(std::vector<int> const& w) {
		u64 sum = 0;
		for(int x : w) sum += (u64) x;
		u64 r = below(sum);
		for(std::size_t i = 0; i < w.size(); ++i) {
			if(r < (u64) w[i]) return i;
			r -= (u64) w[i];
		}
		return 0;
	}
};

inline u64 fnv(std::string_view s, u64 h = 0xcbf29ce484222325ull) {
	for(unsigned char c : s) { h ^= c; h *= 0x100000001b3ull; }
	return h;
}
inline u64 mix(u64 a, u64 b) {
	Rng r(a ^ (b * 0x9e3779b97f4a7c15ull + 0x632be59bd9b4e019ull));
	return r.next();
}

//--------------------------------------------------------------------- trace
// One operation per line: "<kind> <name> [int|word]...".  Integers are
// resolved modulo what is available when the operation executes, so that any
// subset of the lines of a trace is a valid trace (needed to minimise).
struct Line {
	std::string text;
	std::vector<std::string> w;
	std::string const& at(std::size_t i) const {
		static std::string const empty;
		return i < w.size() ? w[i] : empty;
	}
	long num(std::size_t i, long def = 0) const {
		if(i >= w.size()) return def;
		return std::strtol(w[i].c_str(), nullptr, 10);
	}
	bool is(std::string_view s) const { return !w.empty() && w[0] == s; }
};

struct Trace {
	std::vector<Line> lines;
	void add(std::string const& text);
	std::string str() const;
	static Trace parse(std::string const& text);
};

std::string fmt(char const* f, ...) __attribute__((format(printf, 1, 2)));

//------------------------------------------------------- shared per-run result
enum Status : int { RUNNING = 0, OK = 1, FAIL = 2, DISCARD = 3 };

struct Result {
	int status;
	int step;            // Trace line being executed.
	u64 hash;            // Hash of the event log.
	u64 events;
	u64 logsize;
	char cls[64];        // Violation class.
	char msg[8192];
	char step_text[256];
};

constexpr std::size_t MAX_COUNTERS = 512;
constexpr std::size_t HSET = 1u << 20;

struct Shared {
	Result result;
	struct { char name[56]; u64 value; } counters[MAX_COUNTERS];
	u64 hset_count;
	u64 hset[HSET];       // Distinct states reached.
	u64 iset_count;
	u64 iset[HSET];       // Distinct histories (interleavings).
	char sample[4096];
	char errtext[16384];  // Tail of the child's standard error.
	char scratch[1u << 22];
};

extern Shared* shm;
extern bool g_verbose;       // Print the event log on stdout (replay).
extern std::string g_property;

void count(char const* name, u64 n = 1);
void state_seen(u64 h);      // Reached state, for the distinct states measure.
void history_seen(u64 h);    // Executed history.
void event(std::string const& text); // Append to the event log.

// Reports a violation and ends the run.  Never returns, never throws (the code
// under test is noexcept nearly everywhere).
[[noreturn]] void fail(std::string const& cls, std::string const& msg);
[[noreturn]] void discard(std::string const& why);
[[noreturn]] void finish_ok();

void at_step(std::size_t i, std::string const& text);

//-------------------------------------------------------------------- worlds
struct World {
	char const* name;
	std::function<Trace(Rng&, std::string const& property, u64 index)> generate;
	std::function<void(Trace const&, std::string const& property)> execute;
	bool crash_is_violation = true;
};
World const* world_of(std::string const& property, std::string const& trace_world);

// Runs f in a forked child; returns its wait status.  Output goes through shm.
// Whether a violation was already reported (by a child of the run).
bool failed();
int in_child(std::function<void()> const& f, int cpu_seconds = 10);

// Runs f in a forked child and brings back the bytes it returns; status gets
// the wait status.
std::string ask_child(std::function<std::string()> const& f, int& status, int cpu_seconds = 10);

} // namespace sim
