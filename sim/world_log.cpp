// Log world (P13): the real Logger, Progress, command line listener and
// command line progress bar, with recording listeners and reporters, scripted
// terminals and failing ones.
#include <deque>
#include <iostream>
#include <memory>
#include <optional>
#include <set>
#include <sstream>
#include <streambuf>

#include <cerrno>

#include <indicators/block_progress_bar.hpp>

#include "app/openemsh.hpp"
#include "ui/cli/logger.hpp"
#include "ui/cli/progress.hpp"
#include "utils/logger.hpp"
#include "utils/progress.hpp"

#include "docgen.hpp"
#include "simfs.hpp"
#include "worlds.hpp"

namespace sim {
namespace {

using Action = Logger::UserAction;
using Level = Logger::Level;

constexpr int SLOTS = 4;
constexpr Action actions[] = { Action::CANCEL, Action::OK, Action::SAVE, Action::CLOSE, Action::ABORT };
constexpr char const* letters[] = { "n", "y", "s", "c", "a" };
char const* const typed[] = { "n", "y", "s", "c", "a", "", "Y", "yes", " y", "garbage", "nn", "\t", "0" };

//------------------------------------------------------------------ terminal
struct Keyboard final : std::streambuf {
	std::deque<std::string> lines; // With their end of line, if any.
	std::string cur;
	bool broken = false;           // Reading fails instead of ending.
	long reads = 0;
	int_type underflow() override {
		if(gptr() < egptr()) return traits_type::to_int_type(*gptr());
		while(true) {
			if(++reads > 5000)
				fail("hang", "the program keeps reading from a terminal which has ended");
			if(lines.empty()) {
				if(broken) throw std::runtime_error("terminal gone");
				return traits_type::eof();
			}
			cur = lines.front();
			lines.pop_front();
			if(cur.empty()) continue;
			setg(cur.data(), cur.data(), cur.data() + cur.size());
			return traits_type::to_int_type(*gptr());
		}
	}
};
struct Screen final : std::streambuf {
	std::string text;
	bool broken = false, throwing = false;
	long budget = -1; // Characters accepted before it breaks.
	bool take(std::size_t n) {
		if(budget >= 0 && (budget -= (long) n) < 0) { budget = 0; broken = true; }
		if(broken && throwing) throw std::runtime_error("terminal gone");
		return !broken;
	}
	int_type overflow(int_type c) override {
		if(!take(1)) return traits_type::eof();
		text += traits_type::to_char_type(c);
		if(text.size() > (1u << 20)) fail("hang", "the program keeps writing on the terminal");
		return c;
	}
	std::streamsize xsputn(char const* s, std::streamsize n) override {
		if(!take((std::size_t) n)) return 0;
		text.append(s, (std::size_t) n);
		if(text.size() > (1u << 20)) fail("hang", "the program keeps writing on the terminal");
		return n;
	}
	int sync() override { return broken ? -1 : 0; }
};
Keyboard keyboard;
Screen screen;

//----------------------------------------------------------------- listeners
struct Call {
	int slot, gen;
	bool interactive;
	std::string text;
};
std::vector<Call> calls;
std::set<int> alive[SLOTS];

std::string describe(Logger::LogEvent const& e) {
	std::string s = fmt("%d|", (int) e.level);
	for(auto a : e.user_actions) s += fmt("%d,", (int) a);
	s += fmt("|%d|", e.default_user_action ? (int) *e.default_user_action : -1);
	return s + e.message + "|" + e.informative + "|" + e.details;
}
Action answer_of(int slot, Logger::LogEvent const& e) {
	auto const h = fnv(e.message, 77u + (u64) slot);
	return h % 4 == 0 ? Action::NOTHING : actions[h / 4 % std::size(actions)];
}
struct Sink final : Logger::ISink {
	int slot, gen;
	unsigned magic = 0xa11fe;
	Sink(int slot, int gen) : slot(slot), gen(gen) { alive[slot].insert(gen); }
	~Sink() override { magic = 0xdead; alive[slot].erase(gen); }
	Action log(Logger::LogEvent const& e) const override {
		if(magic != 0xa11fe) fail("dead-listener", "a listener which was released got a message");
		calls.push_back({ slot, gen, is_interactive, describe(e) });
		return answer_of(slot, e);
	}
};
std::string slot_name(int s) { return fmt("s%d", s); }

//----------------------------------------------------------------- reporters
struct Job {
	std::size_t max;
	std::string message;
	std::vector<std::string> events;
	int completed = 0, released = 0;
	std::size_t last = 0;
	bool backwards = false;
};
std::deque<Job> jobs[SLOTS];    // By reporter, in order of creation.
int reporters = 0;
struct Reporter final : Progress::IBar {
	Job* j;
	unsigned magic = 0xa11fe;
	Reporter(int k, std::size_t max, std::string const& m) { jobs[k].push_back({ max, m, {} }); j = &jobs[k].back(); }
	~Reporter() override { magic = 0xdead; ++j->released; }
	void note(std::string const& e) {
		if(magic != 0xa11fe) fail("dead-reporter", "a bar which was released was told of progress");
		j->events.push_back(e);
	}
	void tick(std::size_t i) override { note(fmt("%zu", i)); if(i < j->last) j->backwards = true; j->last = i; }
	void tick(std::size_t i, std::size_t k) override { note(fmt("%zu/%zu", i, k)); if(k < j->last) j->backwards = true; j->last = k; }
	void complete() override { note("done"); ++j->completed; }
};

std::string join(std::vector<std::string> const& v) {
	std::string s;
	for(auto const& x : v) s += x + " ";
	return s;
}

struct LiveJob {
	std::unique_ptr<Progress::Bar> bar;
	std::size_t max;
	std::string message;
	std::vector<std::string> events, real_events;
	int reporters;      // That were registered when it was created.
	bool real;
	std::size_t index[SLOTS];
	std::size_t real_index;
	bool completed = false;
};

struct Run {
	int seq = 0, gens = 0;
	bool registered[SLOTS] = {};
	std::optional<int> inter;      // Slot, SLOTS: the command line.
	bool cli = false, cli_verbose = false;
	bool ended = false;            // The keyboard has ended.
	bool screen_failed = false;
	int real_impl = 0;             // Real progress bars registered.
	bool throw_next = false;
	std::vector<LiveJob> live;
	std::vector<std::unique_ptr<int>> junk;
	u64 history = 0;
	int effective = 0;

	void check_alive(char const* w) {
		for(int s = 0; s < SLOTS; ++s)
			if(alive[s].size() != (registered[s] ? 1u : 0u))
				fail("listener-lost", fmt("%s: %zu listeners live under a name that was registered%s", w, alive[s].size(), registered[s] ? "" : " by nobody"));
	}

	void take_screen(std::string& out) { out = screen.text; screen.text.clear(); }

	static std::size_t occurrences(std::string const& in, std::string const& what) {
		std::size_t n = 0;
		for(std::size_t p = in.find(what); p != std::string::npos; p = in.find(what, p + what.size())) ++n;
		return n;
	}

	// What the command line listener must answer, and how much it may read.
	std::optional<Action> cli_answer(Logger::LogEvent const& e, bool& refused) {
		refused = false;
		if(inter != SLOTS || e.level != Level::QUESTION || e.user_actions.empty()) return Action::NOTHING;
		while(!ended) {
			if(keyboard_model.empty()) { ended = true; break; }
			auto ln = keyboard_model.front();
			keyboard_model.pop_front();
			if(ln.ends_with('\n')) ln.pop_back();
			else if(ln.empty()) { ended = true; break; }
			else ended_after = true;
			if(ended_after && keyboard.broken) { ended = true; break; } // The line was never finished.
			for(std::size_t i = 0; i < std::size(letters); ++i)
				if(ln == letters[i] && e.user_actions.contains(actions[i])) {
					if(ended_after) ended = true;
					return actions[i];
				}
			if(ended_after) { ended = true; break; }
		}
		refused = true;
		return std::nullopt;
	}
	std::deque<std::string> keyboard_model;
	bool ended_after = false;

	void do_log(Line const& l) {
		Logger::LogEvent e;
		int const d = (int) (std::labs(l.num(2)) % (SLOTS + 3));
		e.level = (Level) (std::labs(l.num(3)) % 4);
		long const mask = std::labs(l.num(4)) % 32;
		for(int i = 0; i < 5; ++i) if(mask >> i & 1) e.user_actions.insert(actions[i]);
		if(mask && l.num(5) % 2) e.default_user_action = *e.user_actions.begin();
		++seq;
		e.message = fmt("<m%d>", seq);
		if(l.num(6) & 1) e.informative = fmt("<i%d>", seq);
		if(l.num(6) & 2) e.details = fmt("<d%d>", seq);
		std::optional<int> target; // None: everybody.
		if(d == SLOTS) { e.destination = Logger::id("Cli"); if(cli) target = SLOTS; }
		else if(d == SLOTS + 1) e.destination = 0;
		else if(d == SLOTS + 2) e.destination = Logger::id("nobody");
		else { e.destination = Logger::id(slot_name(d)); if(registered[d]) target = d; }

		calls.clear();
		screen.text.clear();
		auto const left_before = keyboard.lines.size();
		bool const cli_asked = cli && (!target || *target == SLOTS);
		bool refused = false;
		std::optional<Action> cli_expected = Action::NOTHING;
		if(cli_asked) cli_expected = cli_answer(e, refused);
		auto const got = ::log(e);
		auto const* w = l.text.c_str();
		// Deliveries.
		std::map<int, int> n;
		for(auto const& c : calls) {
			++n[c.slot];
			if(c.text != describe(e)) fail("message-changed", fmt("%s: a listener got [%s], sent [%s]", w, c.text.c_str(), describe(e).c_str()));
			if(!alive[c.slot].contains(c.gen)) fail("dead-listener", fmt("%s: a listener which was released got the message", w));
			if(c.interactive != (inter == c.slot))
				fail("interactive-flag", fmt("%s: listener %d believes that it %s the interactive one", w, c.slot, c.interactive ? "is" : "is not"));
		}
		for(int s = 0; s < SLOTS; ++s) {
			int const e2 = registered[s] && (!target || *target == s) ? 1 : 0;
			if(n[s] != e2) fail("delivery", fmt("%s: listener %d got the message %d times, expected %d", w, s, n[s], e2));
		}
		// The terminal.
		if(cli && !screen.broken && !screen_failed) {
			bool const shown = cli_asked && !(e.level == Level::INFO && !cli_verbose);
			for(auto const* part : { &e.message, &e.informative, &e.details })
				if(!part->empty() && occurrences(screen.text, *part) != (shown ? 1u : 0u))
					fail("delivery", fmt("%s: %s is shown %zu times on the terminal, expected %d", w, part->c_str(), occurrences(screen.text, *part), shown));
			if(cli_asked && inter == SLOTS && e.level == Level::QUESTION && mask)
				for(std::size_t i = 0; i < std::size(letters); ++i)
					if(e.user_actions.contains(actions[i]) && screen.text.find(letters[i], screen.text.rfind('>') + 1) == std::string::npos)
						fail("question", fmt("%s: the offered answer '%s' is not shown", w, letters[i]));
		}
		if(screen.broken) screen_failed = true;
		if(!(cli_asked && inter == SLOTS) && keyboard.lines.size() != left_before)
			fail("question", fmt("%s: the terminal was read although it was not asked", w));
		if(cli_asked && inter == SLOTS && !refused && !ended && keyboard.lines.size() != keyboard_model.size())
			fail("question", fmt("%s: %zu lines are left to read on the terminal, expected %zu", w, keyboard.lines.size(), keyboard_model.size()));
		// The answer.
		auto const slot_asked = target ? target : inter;
		std::set<Action> ok { Action::NOTHING };
		if(slot_asked) {
			if(*slot_asked == SLOTS) {
				if(cli_expected) ok = { *cli_expected };
				else ok = { Action::NOTHING, Action::CANCEL };
				if(!cli_expected) { count("probe.refusal"); if(got == Action::CANCEL && !e.user_actions.contains(Action::CANCEL)) fail("answer", fmt("%s: cancel was not offered", w)); }
				else if(*cli_expected != Action::NOTHING) count("probe.answered");

			} else ok = { answer_of(*slot_asked, e) };
		}
		if(!ok.contains(got))
			fail("answer", fmt("%s: the answer is %d, the listener asked said %d", w, (int) got, (int) *ok.begin()));
		event(fmt("%s -> %d, %zu calls", w, (int) got, calls.size()));
	}

	void check_job(LiveJob const& j, char const* w, bool released) {
		for(int k = 0; k < j.reporters; ++k) {
			auto const& r = jobs[k].at(j.index[k]);
			if(r.max != j.max || r.message != j.message) fail("progress", fmt("%s: reporter %d was given another job", w, k));
			if(r.events != j.events) fail("progress", fmt("%s: reporter %d saw [%s], the job said [%s]", w, k, join(r.events).c_str(), join(j.events).c_str()));
			if(r.released != (released ? 1 : 0)) fail("progress-release", fmt("%s: the bar of reporter %d was released %d times while the job is %s", w, k, r.released, released ? "over" : "running"));
		}
		if(j.real) {
			auto const& r = *indicators::records().at(j.real_index);
			if(r.events != j.real_events) fail("progress", fmt("%s: the terminal bar showed [%s], the job said [%s]", w, join(r.events).c_str(), join(j.real_events).c_str()));
			if(r.destroyed != (released ? 1 : 0)) fail("progress-release", fmt("%s: the terminal bar was released %d times", w, r.destroyed));
			if(r.completed != (j.completed ? 1 : 0)) fail("progress", fmt("%s: the terminal bar was completed %d times", w, r.completed));
			if(r.widest > 1000) fail("progress", fmt("%s: a terminal bar of %zu characters", w, r.widest));
		}
	}
	void check_jobs(char const* w) {
		for(auto const& j : live) check_job(j, w, false);
		for(int k = 0; k < reporters; ++k) {
			std::size_t here = 0;
			for(auto const& j : live) if(k < j.reporters) ++here;
			std::size_t alive_bars = 0;
			for(auto const& r : jobs[k]) {
				if(r.released > 1) fail("progress-release", fmt("%s: a bar was released %d times", w, r.released));
				alive_bars += r.released == 0;
			}
			if(alive_bars != here) fail("progress-release", fmt("%s: reporter %d has %zu bars, %zu jobs are running", w, k, alive_bars, here));
		}
	}

	void new_job(Line const& l) {
		LiveJob j;
		j.max = (std::size_t) (std::labs(l.num(2)) % 50);
		j.message = std::string((std::size_t) (std::labs(l.num(3)) % 60), 'x') + fmt("#%d ", ++seq);
		j.reporters = reporters;
		j.real = real_impl;
		for(int k = 0; k < reporters; ++k) j.index[k] = jobs[k].size();
		j.real_index = indicators::records().size();
		try {
			if(l.num(4) % 2) j.bar = std::make_unique<Progress::Bar>(j.max, j.message);
			else {
				auto [bar, a, b] = Progress::Bar::build(j.max, j.message);
				if(a || b) fail("progress", "a new job starts elsewhere than at 0");
				j.bar = std::make_unique<Progress::Bar>(std::move(bar));
			}
		} catch(std::runtime_error const&) { // From a reporter: nothing may leak.
			if(!l.is("job") ) throw;
			throw_next = false;
			for(int k = 0; k < reporters; ++k)
				for(std::size_t i = j.index[k]; i < jobs[k].size(); ++i)
					if(jobs[k][i].released != 1) fail("progress-release", fmt("%s: a bar is not released though the job never started", l.text.c_str()));
			count("fault.reporter_throws");
			return;
		}
		for(int k = 0; k < reporters; ++k)
			if(jobs[k].size() != j.index[k] + 1) fail("progress", fmt("%s: reporter %d got %zu bars for one job", l.text.c_str(), k, jobs[k].size() - j.index[k]));
		if(j.real && indicators::records().size() != j.real_index + 1) fail("progress", fmt("%s: not exactly one terminal bar", l.text.c_str()));
		live.push_back(std::move(j));
		count("probe.job");
	}

	// A real project: its jobs and its warnings.
	void project(Line const& l) {
		std::size_t first[SLOTS], first_real = indicators::records().size();
		for(int k = 0; k < reporters; ++k) first[k] = jobs[k].size();
		calls.clear();
		app::OpenEMSH::Params p;
		p.input = "/sim/in0.csx";
		p.output = "/sim/out.csx";
		p.override_from_cli = [](domain::Params&) {};
		app::OpenEMSH a(p);
		fs::Plan plan;
		if(l.num(2) % 4 == 3) plan.faults.push_back({ fs::Op::READ, (int) (l.num(3) % 3), fs::Fault::ERR, EIO, 0, true, false });
		plan.chunk = l.num(2) % 4 == 2 ? 7 : 0;
		fs::start_life(plan);
		bool const opened = a.parse().has_value();
		fs::end_life();
		check_jobs("after opening");
		if(opened) {
			if(l.num(3) % 2) a.run_all_steps();
			else for(int i = 0; i < 20 && a.can_run_a_next_step(); ++i) { a.run_next_step(); check_jobs("after a step"); }
			count("probe.project");
		}
		check_jobs("after running");
		for(int k = 0; k < reporters; ++k) {
			if(jobs[k].size() - first[k] != jobs[0].size() - first[0]) fail("progress", fmt("reporters 0 and %d got %zu and %zu bars from the same project", k, jobs[0].size() - first[0], jobs[k].size() - first[k]));
			for(std::size_t i = 0; i < jobs[k].size() - first[k]; ++i) {
				auto const& x = jobs[0][first[0] + i];
				auto const& y = jobs[k][first[k] + i];
				if(x.events != y.events || x.message != y.message || x.max != y.max) fail("progress", fmt("reporters 0 and %d see job [%s] differently", k, x.message.c_str()));
				if(y.completed > 1 || (opened && y.completed != 1)) fail("progress", fmt("job [%s] was completed %d times", y.message.c_str(), y.completed));
				if(y.backwards) fail("progress", fmt("job [%s] went backwards: [%s]", y.message.c_str(), join(y.events).c_str()));
				if(y.completed && y.events.back() != "done") fail("progress", fmt("job [%s] advances after its completion", y.message.c_str()));
			}
		}
		if(real_impl) {
			for(std::size_t i = first_real; i < indicators::records().size(); ++i) {
				auto const& r = *indicators::records()[i];
				if(r.destroyed != 1 || r.completed > 1 || (opened && r.completed != 1)) fail("progress-release", fmt("terminal bar [%s] was completed %d times and released %d times", r.prefix.c_str(), r.completed, r.destroyed));
				if(r.widest > 1000) fail("progress", fmt("a terminal bar of %zu characters", r.widest));
			}
			if(reporters && indicators::records().size() - first_real != jobs[0].size() - first[0]) fail("progress", "the terminal shows another number of bars than there are jobs");
		}
		// Warnings reach everybody alike.
		std::map<int, std::string> got;
		std::set<std::string> seen;
		for(auto const& c : calls) {
			got[c.slot] += c.text + "\n";
			if(!alive[c.slot].contains(c.gen)) fail("dead-listener", "a listener which was released got a warning");
		}
		for(int s = 0; s < SLOTS; ++s) if(registered[s]) seen.insert(got[s]);
		if(seen.size() > 1) fail("delivery", "listeners got different warnings from the same project");
		if(!seen.empty() && !seen.begin()->empty()) count("probe.warning");
		event(fmt("project %d %zu jobs", opened, reporters ? jobs[0].size() - first[0] : 0));
		screen.text.clear();
	}

	bool op(Line const& l) {
		auto const a = std::labs(l.num(1)), b = std::labs(l.num(2));
		auto& lg = Logger::singleton();
		if(l.is("reg")) {
			int const s = (int) (a % SLOTS);
			bool const i = b % 2;
			lg.register_sink(Logger::id(slot_name(s)), std::make_unique<Sink>(s, ++gens), i);
			if(registered[s]) count("probe.registered_again");
			registered[s] = true;
			if(i) inter = s;
		} else if(l.is("regcli")) {
			if(cli) return false;
			cli = true;
			cli_verbose = a % 2;
			lg.register_sink(Logger::id("Cli"), std::make_unique<ui::cli::LoggerSink>(cli_verbose), b % 2);
			if(b % 2) inter = SLOTS;
		} else if(l.is("inter")) {
			int const s = (int) (a % (SLOTS + 3));
			if(s == SLOTS) { lg.set_as_the_interactive(Logger::id("Cli")); if(cli) inter = SLOTS; }
			else if(s == SLOTS + 1) { lg.set_as_the_interactive(0); inter.reset(); }
			else if(s == SLOTS + 2) lg.set_as_the_interactive(Logger::id("nobody"));
			else { lg.set_as_the_interactive(Logger::id(slot_name(s))); if(registered[s]) inter = s; }
		} else if(l.is("log")) {
			do_log(l);
		} else if(l.is("type")) {
			if(ended || (!keyboard_model.empty() && !keyboard_model.back().ends_with('\n'))) return false;
			std::string ln = typed[(std::size_t) a % std::size(typed)];
			if(b % 8 != 7) ln += '\n';
			else if(ln.empty()) return false;
			keyboard.lines.push_back(ln);
			keyboard_model.push_back(ln);
		} else if(l.is("keyboard_breaks")) {
			keyboard.broken = true;
			count("fault.keyboard_breaks");
		} else if(l.is("screen_breaks")) {
			screen.budget = (long) (a % 40);
			screen.throwing = b % 2;
			count("fault.screen_breaks");
		} else if(l.is("reporter")) {
			if(reporters >= SLOTS) return false;
			int const k = reporters++;
			bool* t = &throw_next;
			Progress::singleton().register_impl_builder([k, t](std::size_t max, std::string const& m) -> std::unique_ptr<Progress::IBar> {
				if(*t && k > 0 && k == reporters - 1) throw std::runtime_error("no bar");
				return std::make_unique<Reporter>(k, max, m);
			});
		} else if(l.is("realbar")) {
			if(real_impl) return false;
			real_impl = 1;
			Progress::singleton().register_impl_builder([](std::size_t max, std::string const& m) { return std::make_unique<ui::cli::ProgressBar>(max, m); });
		} else if(l.is("throws")) {
			if(reporters < 2) return false;
			throw_next = true;
		} else if(l.is("job")) {
			if(live.size() > 6) return false;
			Line m { l.text, { "job", "job", l.at(1), l.at(2), l.at(3) } };
			new_job(m);
		} else if(l.is("tick") || l.is("tick2") || l.is("complete") || l.is("move") || l.is("drop") || l.is("unwind")) {
			if(live.empty()) return false;
			auto& j = live[(std::size_t) a % live.size()];
			auto const x = (std::size_t) (b % 100), y = (std::size_t) (std::labs(l.num(3)) % 100);
			if(l.is("tick")) { j.bar->tick(x); j.events.push_back(fmt("%zu", x)); j.real_events.push_back(fmt("%zu", x + 1)); }
			else if(l.is("tick2")) { j.bar->tick(x, y); j.events.push_back(fmt("%zu/%zu", x, y)); j.real_events.push_back(fmt("%zu", y)); }
			else if(l.is("complete")) {
				if(j.completed) return false;
				j.bar->complete();
				j.completed = true;
				j.events.push_back("done");
				j.real_events.push_back("done");
			} else if(l.is("move")) {
				auto n = std::make_unique<Progress::Bar>(std::move(*j.bar));
				j.bar = std::move(n);
				check_job(j, l.text.c_str(), false);
			} else {
				if(l.is("drop")) j.bar.reset();
				else try { // The job ends with an exception.
					Progress::Bar mine(std::move(*j.bar));
					mine.tick(x);
					j.events.push_back(fmt("%zu", x));
					j.real_events.push_back(fmt("%zu", x + 1));
					throw 1;
				} catch(int) { j.bar.reset(); }
				check_job(j, l.text.c_str(), true);
				live.erase(live.begin() + (long) ((std::size_t) a % live.size()));
			}
		} else if(l.is("project")) {
			if(throw_next) return false;
			Line m { l.text, { "project", "", l.at(1), l.at(2) } };
			project(m);
		} else if(l.is("junk")) {
			for(int i = 0; i < 3; ++i) junk.push_back(std::make_unique<int>(i));
		} else return false;
		check_alive(l.text.c_str());
		check_jobs(l.text.c_str());
		++effective;
		history = mix(history, fnv(l.w[0]) + (u64) (l.is("log") ? (inter ? *inter : 9) : (long) live.size()));
		u64 h = (u64) reporters + 10 * (u64) real_impl + 100 * live.size();
		for(bool r : registered) h = h * 2 + r;
		h = h * 8 + (inter ? (u64) *inter : 7);
		h = h * 4 + cli + 2u * cli_verbose;
		for(auto const& j : live) h = mix(h, j.completed + 2 * (u64) j.reporters);
		h = mix(h, keyboard_model.size() * 8 + ended * 4u + keyboard.broken * 2u + screen_failed);
		state_seen(h);
		return true;
	}
};

Trace generate(Rng& rng, std::string const&, u64) {
	Trace t;
	t.add("world log");
	bool const with_project = rng.chance(25);
	if(with_project) {
		doc::Options o;
		o.max_props = 3;
		o.max_prims = rng.range(1, 5);
		o.rounds = true;
		doc::generate(rng, t, o, 0);
	}
	//                     reg cli inter log type kbreak sbreak reporter real throws job tick tick2 complete move drop unwind project
	std::vector<int> w = { 8,  3,  8,    30, 14,  1,     1,     5,       2,   2,     8,  10,  8,    6,       4,   5,   4,     with_project ? 3 : 0 };
	for(auto& x : w) if(x && rng.chance(20)) x *= 3; else if(rng.chance(15)) x = 0;
	if(rng.chance(60)) {
		t.add(fmt("regcli %d %d", (int) rng.below(2), rng.chance(75)));
		for(int k = (int) rng.below(8); k > 0; --k) t.add(fmt("type %d 0", rng.chance(60) ? (int) rng.below(5) : (int) rng.below(13)));
	}
	if(with_project) { t.add("reporter"); if(rng.chance(50)) t.add("reporter"); if(rng.chance(50)) t.add("realbar"); if(rng.chance(70)) t.add(fmt("reg %d 0", (int) rng.below(4))); }
	int const n = rng.range(5, rng.chance(20) ? 80 : 30);
	auto u = [&](int k) { return (int) rng.below((u64) k); };
	for(int i = 0; i < n; ++i) {
		switch(rng.weighted(w)) {
		case 0: t.add(fmt("reg %d %d", u(4), rng.chance(30))); break;
		case 1: t.add(fmt("regcli %d %d", u(2), u(2))); break;
		case 2: t.add(fmt("inter %d", u(7))); break;
		case 3: t.add(fmt("log 0 %d %d %d %d %d", u(7), rng.chance(50) ? 0 : u(4), rng.chance(20) ? 0 : u(32), u(2), u(4))); break;
		case 4: for(int k = rng.range(1, 3); k > 0; --k) t.add(fmt("type %d %d", rng.chance(60) ? u(5) : u(13), rng.chance(95) ? 0 : 7)); break;
		case 5: t.add("keyboard_breaks"); break;
		case 6: t.add(fmt("screen_breaks %d %d", u(40), u(2))); break;
		case 7: t.add("reporter"); break;
		case 8: t.add("realbar"); break;
		case 9: t.add("throws"); t.add(fmt("job %d %d %d", u(50), u(60), u(2))); break;
		case 10: t.add(fmt("job %d %d %d", u(50), u(60), u(2))); break;
		case 11: t.add(fmt("tick %d %d", u(8), u(100))); break;
		case 12: t.add(fmt("tick2 %d %d %d", u(8), u(100), u(100))); break;
		case 13: t.add(fmt("complete %d", u(8))); break;
		case 14: t.add(fmt("move %d", u(8))); break;
		case 15: t.add(fmt("drop %d", u(8))); break;
		case 16: t.add(fmt("unwind %d %d", u(8), u(100))); break;
		case 17: t.add(fmt("project %d %d", u(4), u(6))); break;
		}
	}
	return t;
}

void execute(Trace const& t, std::string const&) {
	// The real streams, on simulated devices.
	auto* run = new Run; // What the process wide listeners refer to outlives it.
	std::cin.rdbuf(&keyboard);
	std::cerr.rdbuf(&screen);
	fs::mkdir_p("/sim");
	bool project = false;
	for(auto const& l : t.lines) if(l.is("project")) project = true;
	if(project) fs::put("/sim/in0.csx", doc::render(t, 0));
	for(std::size_t i = 0; i < t.lines.size(); ++i) {
		auto const& l = t.lines[i];
		if(l.w.empty() || l.is("world") || l.is("prop") || l.is("prim") || l.w[0].starts_with("doc")) continue;
		at_step(i, l.text);
		if(run->op(l)) { event(l.text); count("steps"); }
	}
	at_step(t.lines.size(), "end");
	while(!run->live.empty()) run->op(Line { "drop 0", { "drop", "0" } });
	history_seen(run->history);
	if(run->effective < 4) discard("short");
	finish_ok();
}

} // namespace

World const log_world { "log", generate, execute };

} // namespace sim
