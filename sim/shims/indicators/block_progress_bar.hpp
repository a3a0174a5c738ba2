// Stand-in for the progress bar library: records what the program asks of it.
#pragma once
#include <cstddef>
#include <ostream>
#include <string>
#include <vector>
namespace indicators {
enum class Color { grey, red, green, yellow, blue, magenta, cyan, white, unspecified };
enum class FontStyle { bold, dark, italic, underline, blink, reverse, concealed, crossed };
enum class ProgressType { incremental, decremental };
namespace option {
struct BarWidth { std::size_t value; };
struct Start { std::string value; };
struct End { std::string value; };
struct Fill { std::string value; };
struct Lead { std::string value; };
struct Remainder { std::string value; };
struct ForegroundColor { Color value; };
struct FontStyles { std::vector<FontStyle> value; };
struct ShowPercentage { bool value; };
struct ShowElapsedTime { bool value; };
struct ShowRemainingTime { bool value; };
struct SavedStartTime { bool value; };
struct Completed { bool value; };
struct PrefixText { std::string value; };
struct PostfixText { std::string value; };
struct MinProgress { std::size_t value; };
struct MaxProgress { std::size_t value; };
struct MaxPostfixTextLen { std::size_t value; };
struct ProgressType { indicators::ProgressType value; };
struct Stream { std::ostream& value; };
} // namespace option

struct Record {
	std::size_t max = 0;
	std::string prefix;
	std::vector<std::string> events;
	std::size_t width = 0, widest = 0;
	int completed = 0, destroyed = 0;
};
inline std::vector<Record*>& records() { static std::vector<Record*> r; return r; }

class BlockProgressBar {
	Record* r;
	bool done = false;
	void on(option::BarWidth const& o) { r->width = o.value; if(o.value > r->widest) r->widest = o.value; }
	void on(option::PrefixText const& o) { r->prefix = o.value; }
	void on(option::MaxProgress const& o) { r->max = o.value; }
	template<typename T> void on(T const&) {}
public:
	template<typename... A> explicit BlockProgressBar(A&&... a) : r(new Record) { records().push_back(r); (on(a), ...); }
	BlockProgressBar(BlockProgressBar const&) = delete;
	~BlockProgressBar() { ++r->destroyed; }
	template<typename T> void set_option(T const& o) { on(o); }
	void set_progress(std::size_t v) { r->events.push_back(std::to_string(v)); }
	void tick() { r->events.push_back("+"); }
	std::size_t current() { return 0; }
	bool is_completed() const { return done; }
	void mark_as_completed() { ++r->completed; done = true; r->events.push_back("done"); }
	void print_progress() {}
};
using ProgressBar = BlockProgressBar;
} // namespace indicators
