// Session world (P04-P07): the real application object, domain, parser and
// serializer under random sessions of steps, edits, undo, redo, stepping back,
// pinning, collecting, saving and opening, on a simulated disk.
//
// Oracles: a model of the history tree, the first observation of each point of
// the history, and a pristine process (forked before any code of the program
// ran) which executes only the steps and edits in effect.
#include <algorithm>
#include <array>
#include <cmath>
#include <cstring>
#include <map>
#include <memory>
#include <optional>
#include <set>
#include <sstream>

#include <sys/resource.h>
#include <sys/wait.h>
#include <unistd.h>

#include "app/openemsh.hpp"
#include "domain/board.hpp"
#include "domain/conflicts/conflict_diagonal_or_circular_zone.hpp"
#include "domain/geometrics/angle.hpp"
#include "domain/mesh/interval.hpp"
#include "domain/mesh/meshline.hpp"
#include "domain/mesh/meshline_policy.hpp"
#include "utils/logger.hpp"
#include "utils/progress.hpp"
#include "utils/state_management.hpp"

#include "infra/serializers/serializer_to_plantuml.hpp"
#include "infra/serializers/serializer_to_prettyprint.hpp"

#include "docgen.hpp"
#include "reports.hpp"
#include "simfs.hpp"
#include "snapshot.hpp"
#include "worlds.hpp"
#include "xmlmini.hpp"

namespace sim {
namespace {

using app::OpenEMSH;
using app::Step;
using namespace domain;

constexpr int DOCS = 3;
constexpr int STEPS = 15;


OpenEMSH::Params params_of(long doc, long flags) {
	OpenEMSH::Params p;
	p.input = fmt("/sim/in%ld.csx", doc);
	p.output = "/sim/out.csx";
	p.force = true;
	if(flags & 1) p.with_yz = false;
	if(flags & 2) p.with_zx = false;
	if(flags & 4) p.with_xy = false;
	if(flags & 8) p.read_oemsh_params = false;
	if(flags & 16) p.keep_old_mesh = true;
	if(flags & 32) p.with_oemsh_params = true;
	p.override_from_cli = [flags](domain::Params& d) { if(flags & 64) { d.dmax = 3; d.lmin = 3; } };
	return p;
}

Step step_of(int i) { return (Step) i; }
char const* const step_names[] = { "ADJUST", "ANGLES", "ZONES", "SOLVE_ZA", "EIP", "CE", "FIXED", "S_EIP", "S_CE", "EDGES", "TCMLP", "INTERVALS", "INT_ZONES", "SOLVE_ZI", "MESH" };

//-------------------------------------------------------------------- edits
struct Edit { int kind; int index; long v[3]; };
enum { EDGE, ANGLE, GLOBAL, MLP, INTERVAL, ZONE, KINDS };

int edit_step(int kind, long const* v) {
	switch(kind) {
	case EDGE: case ANGLE: return (int) Step::DETECT_CONFLICT_EIP;
	case GLOBAL: return (int) Step::DETECT_DIAG_ZONES;
	case MLP: return (int) Step::DETECT_INTERVALS;
	case INTERVAL: return (int) Step::MESH;
	default: return v[2] % 2 ? (int) Step::SOLVE_DIAG_ZONES_ANGLES : (int) Step::SOLVE_DIAG_ZONES_INTERVALS;
	}
}

std::vector<void const*> objects(Board const& b, int kind) {
	std::vector<void const*> r;
	auto all = [&](auto const& v) { for(auto const& x : v) r.push_back(x.get()); };
	switch(kind) {
	case EDGE: for(auto p : AllPlane) for(auto const& x : b.get_polygons(p)) all(x->edges); break;
	case ANGLE: for(auto p : AllPlane) all(b.get_angles(p)); break;
	case GLOBAL: r.push_back(b.global_params.get()); break;
	case MLP: for(auto a : AllAxis) all(b.get_meshline_policies(a)); break;
	case INTERVAL: for(auto a : AllAxis) all(b.get_intervals(a)); break;
	default: for(auto a : AllAxis) all(b.get_conflicts_diagonal_or_circular_zones(a)); break;
	}
	return r;
}

template<typename T, typename F>
void change(void const* o, F const& f) {
	auto* x = const_cast<T*>(static_cast<T const*>(o));
	auto state = x->get_current_state();
	std::remove_const_t<decltype(state)> s = state;
	f(s);
	x->set_next_state(s);
}

// What the edition dialogs do once validated.
void apply(Board const& b, Edit const& e) {
	auto const v = objects(b, e.kind);
	if(v.empty()) return;
	void const* o = v[(std::size_t) e.index % v.size()];
	long const a = std::labs(e.v[0]), c = std::labs(e.v[1]), d = std::labs(e.v[2]);
	static double const dmaxs[] = { 1, 1.5, 2, 2.5, 4, 8 }, smooths[] = { 1.2, 1.5, 1.8, 2 }, ds[] = { 0.5, 1, 2, 0.25 };
	switch(e.kind) {
	case EDGE: change<Edge>(o, [&](auto& s) { s.to_mesh = a & 1; s.to_reverse = a & 2; }); break;
	case ANGLE: change<Angle>(o, [&](auto& s) { s.to_mesh[H] = a & 1; s.to_mesh[V] = a & 2; }); break;
	case GLOBAL: change<GlobalParams>(o, [&](auto& s) {
		s.dmax = dmaxs[a % 6];
		s.lmin = 1 + (std::size_t) c % 4;
		s.smoothness = smooths[c / 4 % 4];
		s.proximity_limit = ds[d % 4];
		s.diagonal_dmax = 0.25 * (1 + (double) (d / 4 % 4));
		s.diagonal_lmin = 1 + (std::size_t) d / 16 % 3;
		s.consecutive_diagonal_minimal_angle = 10 + 10 * (double) (a / 6 % 4);
	}); break;
	case MLP: change<MeshlinePolicy>(o, [&](auto& s) {
		using Policy = MeshlinePolicy::Policy;
		using Normal = MeshlinePolicy::Normal;
		static std::pair<Policy, Normal> const ok[] = { { Policy::ONELINE, Normal::NONE }, { Policy::HALFS, Normal::NONE }, { Policy::THIRDS, Normal::MIN }, { Policy::THIRDS, Normal::MAX } };
		if(a % 3) std::tie(s.policy, s.normal) = ok[c % 4];
		s.is_enabled = a % 4 != 1;
		if(d % 2) s.d = ds[d / 2 % 4];
	}); break;
	case INTERVAL: change<Interval>(o, [&](auto& s) {
		s.dmax = dmaxs[a % 6];
		s.before.lmin = 1 + (std::size_t) c % 4;
		s.after.lmin = 1 + (std::size_t) c / 4 % 4;
		s.before.smoothness = smooths[d % 4];
		s.after.smoothness = smooths[d / 4 % 4];
	}); break;
	default: change<ConflictDiagonalOrCircularZone>(o, [&](auto& s) {
		s.lmin = 1 + (std::size_t) c % 4;
		s.dmax = 0.25 * (1 + (double) (a % 6));
		if(e.v[2] % 2) s.minimal_angle = 10 + 10 * (double) (d % 4);
	}); break;
	}
}

std::string edit_text(Edit const& e) { return fmt("E %d %d %ld %ld %ld", e.kind, e.index, e.v[0], e.v[1], e.v[2]); }

//--------------------------------------------------------- pristine processes
// Executes a script in this (fresh) process: O doc flags, S step, E ..., W.
std::string run_script(std::string const& script, bool grouped) {
	Trace const t = Trace::parse(script);
	std::unique_ptr<OpenEMSH> a;
	std::set<Step> group;
	int last = -1;
	auto flush = [&] { if(!group.empty()) a->run(group); group.clear(); last = -1; };
	bool saved = false;
	for(auto const& l : t.lines) {
		if(l.is("S")) {
			int const s = (int) l.num(1);
			if(s <= last) flush();
			group.insert(step_of(s));
			last = s;
			if(!grouped) flush();
			continue;
		}
		flush();
		if(l.is("O")) {
			a = std::make_unique<OpenEMSH>(params_of(l.num(1), l.num(2)));
			if(auto r = a->parse(); !r) return "E" + r.error();
		} else if(l.is("E")) {
			apply(a->get_board(), Edit{ (int) l.num(1), (int) l.num(2), { l.num(3), l.num(4), l.num(5) } });
		} else if(l.is("W")) {
			fs::put("/sim/out.csx", "");
			if(auto r = a->write(); !r) return "E" + r.error();
			saved = true;
		}
	}
	flush();
	if(saved) { auto* s = fs::get("/sim/out.csx"); return "F" + (s ? *s : std::string()); }
	auto const s = snapshot(*a);
	return "S" + s.dangling + "\n" + s.text;
}

struct Pristine {
	int to = -1, from = -1;
	std::map<std::string, std::string> cache;
	void start() {
		int p[2], q[2];
		if(pipe(p) || pipe(q)) { perror("pipe"); _exit(2); }
		pid_t const pid = fork();
		if(pid == 0) {
			close(p[1]);
			close(q[0]);
			serve(p[0], q[1]);
			_exit(0);
		}
		close(p[0]);
		close(q[1]);
		to = p[1];
		from = q[0];
	}
	static bool get(int fd, void* b, std::size_t n) {
		auto* c = (char*) b;
		while(n) {
			ssize_t const k = ::read(fd, c, n);
			if(k < 0 && errno == EINTR) continue;
			if(k <= 0) return false;
			c += k;
			n -= (std::size_t) k;
		}
		return true;
	}
	static void put(int fd, void const* b, std::size_t n) {
		auto* c = (char const*) b;
		while(n) {
			ssize_t const k = ::write(fd, c, n);
			if(k < 0 && errno == EINTR) continue;
			if(k <= 0) _exit(97);
			c += k;
			n -= (std::size_t) k;
		}
	}
	static void put_str(int fd, std::string const& s) {
		u64 n = s.size();
		put(fd, &n, sizeof n);
		put(fd, s.data(), s.size());
	}
	static bool get_str(int fd, std::string& s) {
		u64 n;
		if(!get(fd, &n, sizeof n)) return false;
		s.resize(n);
		return get(fd, s.data(), n);
	}
	[[noreturn]] static void serve(int in, int out) {
		rlimit rl { 600, 600 };
		setrlimit(RLIMIT_CPU, &rl);
		std::string req;
		while(get_str(in, req)) {
			int st = 0;
			std::string r = ask_child([&] { return run_script(req.substr(1), req[0] == 'g'); }, st, 4);
			if(WIFSIGNALED(st)) r = WTERMSIG(st) == SIGKILL || WTERMSIG(st) == SIGXCPU ? "H" : fmt("Csignal %d", WTERMSIG(st));
			else if(WEXITSTATUS(st)) r = fmt("Cstatus %d", WEXITSTATUS(st));
			put_str(out, r);
		}
		_exit(0);
	}
	std::string const& ask(std::string const& script, bool grouped) {
		std::string const req = (grouped ? "g" : "s") + script;
		auto it = cache.find(req);
		if(it != cache.end()) return it->second;
		put_str(to, req);
		std::string r;
		if(!get_str(from, r)) { fprintf(stderr, "the pristine server died\n"); _exit(2); }
		count("pristine.processes");
		return cache[req] = r;
	}
};

//--------------------------------------------------------------------- model
struct Node {
	std::string script;
	int parent;
	int annot = -1;
	Timepoint* real = nullptr;
	bool seen = false;
	std::string first;      // First observation.
	int depth = 0;          // Steps and edits.
};

struct Session {
	std::string prop;
	Pristine pristine;
	std::unique_ptr<OpenEMSH> a;
	std::vector<Node> nodes;
	int cur = -1;                   // -1: nothing is open.
	std::vector<int> hist;
	std::optional<std::size_t> cursor;
	int opens = 0;
	bool gui = false;
	u64 history = 0;
	int effective = 0;

	int running = -1;               // Step expected to be running.
	std::set<int> allowed;          // Steps the running call may be in.
	std::string progress_error;

	static Caretaker& ct() { return Caretaker::singleton(); }

	// A violation of property p was seen.  When another property is checked the
	// run ends here: the model no longer describes the program.
	[[noreturn]] void bad(char const* p, std::string const& cls, std::string const& msg) {
		if(prop == p) fail(cls, msg);
		// Everything that goes wrong after opening again is P07's.
		if(prop == "P07" && opens > 1) fail("after-reopen-" + cls, msg);
		count((std::string("diverged.") + p).c_str());
		finish_ok();
	}

	int add(int parent, std::string const& item) {
		Node n;
		n.parent = parent;
		n.script = parent >= 0 ? nodes[(std::size_t) parent].script + item + "\n" : item + "\n";
		n.depth = parent >= 0 ? nodes[(std::size_t) parent].depth + 1 : 0;
		nodes.push_back(n);
		return (int) nodes.size() - 1;
	}
	Node& at(int i) { return nodes[(std::size_t) i]; }
	int nearest(int n, bool self, int want = -1) {
		for(int i = self ? n : at(n).parent; i >= 0; i = at(i).parent)
			if(at(i).annot >= 0 && (want < 0 || at(i).annot == want)) return i;
		return -1;
	}
	int next_step() { // STEPS: none.
		if(at(cur).annot >= 0) return at(cur).annot;
		int const n = nearest(cur, false);
		return n < 0 ? 0 : at(n).annot + 1;
	}
	void new_work() {
		if(cursor) {
			hist.resize(*cursor + 1);
			cursor.reset();
		}
	}
	void remember() {
		if(cursor) {
			if(hist[*cursor] == cur) return;
			hist.resize(*cursor + 1);
			cursor.reset();
		}
		if(hist.back() != cur) hist.push_back(cur);
	}
	bool can_undo(std::size_t n) const {
		if(!n) return false;
		if(cursor) return n <= *cursor;
		return n <= (hist.back() == cur ? hist.size() - 1 : hist.size());
	}
	bool can_redo(std::size_t n) const { return n && cursor && n <= hist.size() - 1 - *cursor; }

	//------------------------------------------------------------- pristine
	std::string const& reference(std::string const& script, bool grouped) {
		auto const& r = pristine.ask(script, grouped);
		if(r[0] == 'H') bad("P06", "never-finishes", "running these steps on a freshly opened project does not finish:\n" + script);
		if(r[0] == 'C') bad("P06", "pristine-crash", "running these steps on a freshly opened project crashes (" + r.substr(1) + "):\n" + script);
		if(r[0] == 'E') bad("P07", "unusable", "a generated document is refused: " + r.substr(1));
		return r;
	}
	// The steps to come must be possible in a fresh program.
	void foresee(std::string const& script) { reference(script, true); }

	//------------------------------------------------------------------ runs
	void run_steps(std::vector<int> const& steps, std::function<void()> const& f) {
		std::string script = at(cur).script;
		for(int s : steps) script += fmt("S %d\n", s);
		foresee(script);
		allowed = std::set<int>(steps.begin(), steps.end());
		progress_error.clear();
		if(!steps.empty()) new_work();
		for(int s : steps) {
			if(at(cur).annot < 0) at(cur).annot = s;
			cur = add(cur, fmt("S %d", s));
		}
		f();
		allowed.clear();
		remember();
		if(!progress_error.empty()) bad("P06", "current-step", progress_error);
		at(cur).real = ct().get_current_timepoint();
		if(!steps.empty()) {
			auto const s = a->get_current_step();
			if(!s || (int) *s != steps.back())
				bad("P06", "current-step", fmt("after running %s the current step is %s", step_names[steps.back()], s ? step_names[(int) *s] : "none"));
		}
		for(int i = 0; i < (int) nodes.size(); ++i)
			if(i != cur && at(i).real == at(cur).real && is_kept(i))
				bad("P06", "stuck", fmt("after running %s the session is still at the point of the history where it was", steps.empty() ? "nothing" : step_names[steps.back()]));
	}
	bool is_kept(int n) {
		auto anc = [&](int m) { for(; m >= 0; m = at(m).parent) if(m == n) return true; return false; };
		if(anc(cur)) return true;
		for(int h : hist) if(anc(h)) return true;
		return false;
	}

	void arrived(char const* how) {
		auto* t = ct().get_current_timepoint();
		auto& n = at(cur);
		if(n.real) {
			if(n.real != t) bad(strcmp(how, "undo") && strcmp(how, "redo") ? "P06" : "P04", std::string(how) + "-lands-elsewhere", fmt("%s does not land on the expected point of the history:\n", how) + n.script);
		} else n.real = t;
	}

	// Checks that hold whenever the program is idle.
	void check(char const* how, bool grouped_session) {
		if(cur < 0) return;
		auto& n = at(cur);
		auto const s = snapshot(*a);
		state_seen(fnv(s.text));
		event(fmt("%s -> node %d script %016llx view %016llx", how, cur, (unsigned long long) fnv(n.script), (unsigned long long) fnv(s.text)));
		if(!s.dangling.empty()) bad("P04", "dangling", std::string("after ") + how + ", something observable refers to an object that is not part of the project: " + s.dangling + "\nin effect:\n" + n.script);
		if(n.seen) {
			count("probe.revisit");
			if(n.first != s.text) bad("P04", "not-restored", std::string("after ") + how + " the project is not what it was at that point of the history: " + snap_diff(n.first, s.text) + "\nin effect:\n" + n.script);
		} else {
			n.seen = true;
			n.first = s.text;
		}
		bool const back = !strcmp(how, "prev") || !strcmp(how, "undo") || !strcmp(how, "redo");
		if(prop == "P04") {
			// A point first reached by stepping back was passed before.
			if(back) compare("P04", how, s.text, true);
		} else if(prop == "P05") compare("P05", how, s.text, true);
		else if(prop == "P06") compare("P06", how, s.text, !grouped_session);
		else if(prop == "P07" && opens > 1) compare("P07", how, s.text, true);
		if((prop == "P20" || prop == "P21") && next_step() == STEPS) check_mesh(how);
		if(prop == "P23" && next_step() > (int) Step::SOLVE_ALL_CE) check_policies(how);
		if(prop == "P24" && next_step() > (int) Step::DETECT_DIAG_ZONES) check_zones(how);
		if(prop == "P22") check_edges(how);
		if(prop == "P25") check_polygons(how);
		if(prop == "P27") check_reports(how, s.text);
		// Queries.
		bool const next = a->can_run_a_next_step(), prev = a->can_go_before();
		int const ns = next_step();
		if(next != (ns < STEPS)) bad("P06", "can-next", fmt("after %s, can_run_a_next_step says %d but the next step is %s\nin effect:\n", how, next, ns < STEPS ? step_names[ns] : "none") + n.script);
		if(prev != (nearest(cur, false) >= 0)) bad("P06", "can-prev", fmt("after %s, can_go_before says %d\nin effect:\n", how, prev) + n.script);
		for(std::size_t i = 0; i < 4; ++i) {
			if(ct().can_undo(i) != can_undo(i)) bad(opens > 1 && hist.size() == 1 ? "P07" : "P06", "can-undo", fmt("after %s, can_undo(%zu) says %d", how, i, ct().can_undo(i)));
			if(ct().can_redo(i) != can_redo(i)) bad(opens > 1 && hist.size() == 1 ? "P07" : "P06", "can-redo", fmt("after %s, can_redo(%zu) says %d", how, i, ct().can_redo(i)));
		}
	}
	// The diagram and the report tell the project as it is (P27).
	void check_reports(char const* how, std::string const& before) {
		std::string const where = fmt(" after %s\nin effect:\n", how) + at(cur).script;
		auto& b = const_cast<Board&>(a->get_board());
		auto const diagram = SerializerToPlantuml::run(b);
		auto const report = SerializerToPrettyprint::run(b);
		count("probe.reports_judged");
		for(auto plane : AllPlane) {
			if(b.get_conflicts_edge_in_polygons(plane).size()) count("probe.hidden_edge_told");
		}
		for(auto axis : AllAxis) {
			if(b.get_conflicts_colinear_edges(axis).size()) count("probe.colinear_edges_told");
			if(b.get_conflicts_too_close_meshline_policies(axis).size()) count("probe.close_policies_told");
			if(b.get_meshlines(axis).size()) count("probe.mesh_told");
		}
		if(auto const [cls, why] = reports::misdrawn(diagram, b); !cls.empty()) bad("P27", cls, why + where);
		if(auto const [cls, why] = reports::misreported(report, b); !cls.empty()) bad("P27", cls, why + where);
		if(auto const after = snapshot(*a); after.text != before) bad("P27", "report-changes", "telling the project changes it: " + snap_diff(before, after.text) + where);
	}
	// The lines that the document and the options ask for.
	std::vector<double> asked[3];
	void find_asked() {
		long doc = 0, flags = 0;
		sscanf(at(0).script.c_str(), "O %ld %ld", &doc, &flags);
		for(auto& v : asked) v.clear();
		auto const* f = fs::get(fmt("/sim/in%ld.csx", doc));
		if(!f) return;
		auto const d = xml::parse(*f);
		std::function<void(xml::Node const&)> look = [&](xml::Node const& n) {
			if((n.name == "FixedMeshlines" && !(flags & 8)) || (n.name == "RectilinearGrid" && (flags & 16)))
				for(int ax = 0; ax < 3; ++ax)
					if(auto const* l = n.child(std::string(1, "XYZ"[ax]) + "Lines")) {
						double unit = 1; // Saved fixed lines are in a unit of theirs.
						if(n.name == "FixedMeshlines") for(auto const& [k, u] : n.attrs) if(k == "DeltaUnit") unit = std::strtod(u.c_str(), nullptr);
						std::istringstream in(l->text);
						std::string v;
						while(std::getline(in, v, ',')) if(v.find_first_not_of(" \n\t") != std::string::npos) asked[ax].push_back(unit * std::strtod(v.c_str(), nullptr));
					}
			for(auto const& c : n.children) look(c);
		};
		for(auto const& n : d.tops) look(n);
	}
	// Judges the finished mesh from the policies and parameters in effect alone.
	void check_mesh(char const* how) {
		using Policy = MeshlinePolicy::Policy;
		using Normal = MeshlinePolicy::Normal;
		constexpr double eps = 1e-7;
		auto const& b = a->get_board();
		auto const& g = b.global_params->get_current_state();
		bool const own_params = at(cur).script.find(fmt("E %d ", (int) INTERVAL)) == std::string::npos; // No interval was edited.
		double dmax = g.dmax;
		count("probe.mesh_judged");
		for(auto ax : AllAxis) {
			std::vector<MeshlinePolicy const*> on;
			for(auto const& m : b.get_meshline_policies(ax)) if(m->get_current_state().is_enabled) on.push_back(m.get());
			std::ranges::stable_sort(on, {}, [](auto* m) { return m->coord.value(); });
			std::vector<double> x;
			for(auto const& m : b.get_meshlines(ax)) x.push_back(m->coord.value());
			bool const own_policies = at(cur).script.find(fmt("E %d ", (int) MLP)) == std::string::npos;
			std::string const where = fmt(" on axis %d after %s\nin effect:\n", (int) ax, how) + at(cur).script;
			auto has = [&](double c) { return std::ranges::any_of(x, [&](double v) { return std::fabs(v - c) < eps; }); };
			auto lines = [&] {
				std::string r = "policies:";
				for(auto* m : on) { auto const& s = m->get_current_state(); r += fmt(" %.9g(%d,%d,%.9g)", m->coord.value(), (int) s.policy, (int) s.normal, s.d); }
				r += "\nlines:";
				for(double v : x) r += fmt(" %.9g", v);
				return r;
			};
			for(std::size_t i = 0; i < x.size(); ++i) {
				if(!std::isfinite(x[i])) bad("P20", "not-finite", "a mesh line is not at a finite place" + where);
				if(i && x[i] < x[i - 1]) bad("P20", "disorder", fmt("mesh line %.9g comes after %.9g", x[i], x[i - 1]) + where);
				if(i && x[i] - x[i - 1] < 1e-9) bad("P20", "duplicate", fmt("two mesh lines at %.17g and %.17g", x[i-1], x[i]) + where + lines());
			}
			if(!on.empty() && on.size() > 1 && x.empty() && on.front()->coord.value() != on.back()->coord.value()) bad("P20", "no-lines", "there is no mesh line between the enabled policies" + where);
			for(auto* m : on) {
				auto const& s = m->get_current_state();
				double const c = m->coord.value();
				if(s.policy == Policy::ONELINE && !has(c)) bad("P20", "policy-line-missing", fmt("no mesh line at %.9g where a line was asked for", c) + where + lines());
			}
			for(double c : asked[(int) ax]) {
				count("probe.asked_line");
				if(has(c) || !own_policies) continue;
				// Unless another policy took its place: it was merged, maybe more than once.
				MeshlinePolicy const* m = nullptr;
				for(auto const& o : b.get_meshline_policies(ax)) if(std::fabs(o->coord.value() - c) < eps && o->get_current_state().policy == Policy::ONELINE) { m = o.get(); if(!o->get_current_state().is_enabled) break; }
				if(!m) bad("P20", "asked-line-missing", fmt("nothing asks for the mesh line %.9g of the document", c) + where + lines());
				for(bool again = true; again && !m->get_current_state().is_enabled;) {
					again = false;
					for(auto const& t : b.get_conflicts_too_close_meshline_policies(ax))
						if((t->meshline_policies[0] == m || t->meshline_policies[1] == m) && t->get_current_state().meshline_policy) {
							m = t->get_current_state().meshline_policy;
							again = true;
							break;
						}
				}
				if(!m->get_current_state().is_enabled) bad("P20", "asked-line-missing", fmt("no mesh line at %.9g, which was asked for, and nothing took its place", c) + where + lines());
			}
			// Between two policies: where the lines beside a policy are.
			auto side = [&](MeshlinePolicy const* m, bool after) {
				auto const& s = m->get_current_state();
				switch(s.policy) {
				case Policy::ONELINE: return 0.0;
				case Policy::HALFS: return s.d / 2;
				default: return s.normal == Normal::NONE ? s.d : ((s.normal == Normal::MAX) == after ? 2.0 : 1.0) / 3.0 * s.d;
				}
			};
			for(std::size_t i = 1; i < on.size(); ++i) {
				double const c0 = on[i - 1]->coord.value(), c1 = on[i]->coord.value();
				if(on[i - 1]->coord == on[i]->coord) continue;
				double const a0 = c0 + side(on[i - 1], true), a1 = c1 - side(on[i], false);
				// Of several policies at the same place, each side follows one.
				auto alone = [&](std::size_t k) { return (!k || on[k - 1]->coord != on[k]->coord) && (k + 1 == on.size() || on[k + 1]->coord != on[k]->coord); };
				if(alone(i - 1) && !has(a0)) bad("P20", "first-line-missing", fmt("no mesh line at %.9g, the first after the policy at %.9g", a0, c0) + where + lines());
				if(alone(i) && !has(a1)) bad("P20", "first-line-missing", fmt("no mesh line at %.9g, the first before the policy at %.9g", a1, c1) + where + lines());
			}
			double const lo = on.empty() ? 0 : on.front()->coord.value(), hi = on.empty() ? 0 : on.back()->coord.value();
			for(double v : x) if(v < lo - eps || v > hi + eps) bad("P20", "outside", fmt("mesh line %.9g is outside of [%.9g, %.9g]", v, lo, hi) + where);
			// Spacing.
			for(auto const& iv : b.get_intervals(ax)) {
				auto const& s = iv->get_current_state();
				double const c0 = s.before.meshline_policy->coord.value(), c1 = s.after.meshline_policy->coord.value(), m = iv->m.value();
				double limit = dmax, smooth = g.smoothness;
				std::size_t lmin = g.lmin;
				// The zones it lies in.
				double finest = -1;
				for(auto const& z : b.get_conflicts_diagonal_or_circular_zones(ax)) {
					auto const r = z->bounding();
					if(m > r[0].value() + eps && m < r[1].value() - eps) finest = std::max(finest, z->get_current_state().dmax);
				}
				if(finest >= 0) { limit = finest; count("probe.interval_in_zone"); }
				if(!own_params) { limit = s.dmax; smooth = 2; lmin = 0; }
				std::vector<double> in;
				for(double v : x) if(v > c0 - eps && v < c1 + eps) in.push_back(v);
				for(std::size_t i = 1; i < in.size(); ++i)
					if(in[i] - in[i - 1] > limit + eps) bad("P21", "too-far", fmt("mesh lines %.9g and %.9g are more than %.9g apart", in[i - 1], in[i], limit) + where + lines());
				// Growth from each policy to the middle.
				auto growth = [&](bool before) {
					auto const* p = before ? s.before.meshline_policy : s.after.meshline_policy;
					std::vector<double> h; // Distances from the first line beside the policy.
					double const first = before ? c0 + side(p, true) : c1 - side(p, false);
					for(double v : in) { double const q = before ? v - first : first - v; if(q > eps && (before ? v < m - eps : v > m + eps)) h.push_back(q); }
					if(!before) std::ranges::reverse(h);
					std::ranges::sort(h);
					double last = p->get_current_state().d, at_ = 0;
					for(double q : h) {
						if(q - at_ > last * smooth * (1 + 1e-9) + 1e-6) bad("P21", "not-smooth", fmt("a cell of %.9g follows one of %.9g, with a smoothness of %.9g", q - at_, last, smooth) + where + lines());
						last = q - at_;
						at_ = q;
					}
					if(h.size() + 1 < lmin) bad("P21", "too-few", fmt("%zu lines where %zu are asked for", h.size() + 1, lmin) + where + lines());
				};
				growth(true);
				growth(false);
			}
		}
	}
	bool edited(int kind) { return at(cur).script.find(fmt("E %d ", kind)) != std::string::npos; }
	// Judges line policies from the edges, angles and fixed lines they come from,
	// and their merging.
	void check_policies(char const* how) {
		using Policy = MeshlinePolicy::Policy;
		using MNormal = MeshlinePolicy::Normal;
		constexpr double eps = 1e-6;
		if(edited(MLP)) return; // The user decides.
		auto const& b = a->get_board();
		int const ns = next_step();
		double const limit = b.global_params->get_current_state().proximity_limit;
		count("probe.policies_judged");
		// 1: toward the minimum, 2: toward the maximum, 0: none.
		auto side = [](Edge const* e) {
			int r = 0;
			switch(e->normal) {
			case Normal::XMIN: case Normal::YMIN: case Normal::ZMIN: r = 1; break;
			case Normal::XMAX: case Normal::YMAX: case Normal::ZMAX: r = 2; break;
			default: break;
			}
			return r && e->get_current_state().to_reverse ? 3 - r : r;
		};
		auto name = [](MeshlinePolicy const* m) { auto const& s = m->get_current_state(); return fmt("(%d,%d at %.9g%s)", (int) s.policy, (int) s.normal, m->coord.value(), s.is_enabled ? "" : " disabled"); };
		for(auto ax : AllAxis) {
			std::string const where = fmt(" on axis %d after %s\nin effect:\n", (int) ax, how) + at(cur).script;
			auto const& all = b.get_meshline_policies(ax);
			std::set<MeshlinePolicy const*> explained;
			auto explain = [&](MeshlinePolicy const* m) { explained.insert(m); };
			// Colinear edges.
			std::set<Edge const*> together;
			for(auto const& c : b.get_conflicts_colinear_edges(ax)) {
				auto const& s = c->get_current_state();
				bool lo = false, hi = false, none = false;
				double const at0 = coord(s.edges.front()->p0(), s.edges.front()->axis).value().value();
				for(Edge const* e : s.edges) {
					if(!together.insert(e).second) bad("P23", "edge-twice", fmt("an edge at %.9g is in two groups of colinear edges", at0) + where);
					if(std::fabs(coord(e->p0(), e->axis).value().value() - at0) > eps) bad("P23", "not-colinear", fmt("edges at %.9g and %.9g are taken for colinear", at0, coord(e->p0(), e->axis).value().value()) + where);
					if(!e->get_current_state().to_mesh) continue;
					int const n = side(e);
					(n == 1 ? lo : n == 2 ? hi : none) = true;
				}
				auto const* m = s.meshline_policy;
				if(!lo && !hi && !none) {
					if(m) bad("P23", "policy-for-nothing", fmt("a policy at %.9g although none of its colinear edges is to mesh", at0) + where);
					continue;
				}
				if(!m) bad("P23", "policy-missing", fmt("no policy for the colinear edges at %.9g", at0) + where);
				explain(m);
				count("probe.colinear_edges_judged");
				auto const& ms = m->get_current_state();
				Policy const want = none ? Policy::ONELINE : lo && hi ? Policy::HALFS : Policy::THIRDS;
				MNormal const wantn = want != Policy::THIRDS ? MNormal::NONE : lo ? MNormal::MIN : MNormal::MAX;
				if(ms.policy != want || ms.normal != wantn || std::fabs(m->coord.value() - at0) > eps) bad("P23", "colinear-wrong", fmt("colinear edges at %.9g (min %d, max %d, none %d) got the policy ", at0, lo, hi, none) + name(m) + where);
			}
			// Edges on their own; and no colinear ones left apart.
			for(auto plane : AllPlane) {
				auto const va = transpose(plane, ax);
				if(!va) continue;
				std::vector<Edge const*> edges;
				for(auto const& p : b.get_polygons(plane)) for(auto const& e : p->edges) {
					auto const c = transpose(plane, e->axis);
					if(c && *c == ax) edges.push_back(e.get());
				}
				std::map<double, std::vector<Edge const*>> places;
				for(auto* e : edges) {
					double const c = coord(e->p0(), e->axis).value().value();
					bool const alone = std::ranges::none_of(edges, [&](Edge const* o) { return o != e && std::fabs(coord(o->p0(), o->axis).value().value() - c) < eps; });
					bool const exactly_alone = std::ranges::none_of(edges, [&](Edge const* o) { return o != e && coord(o->p0(), o->axis).value() == coord(e->p0(), e->axis).value(); });
					if(alone != exactly_alone) continue; // On the edge of the tolerance.
					if(alone == (bool) together.contains(e)) bad("P23", "colinear-missed", fmt("the edge at %.9g %s", c, alone ? "is alone but grouped" : "is not grouped with its colinear ones") + where);
					auto const& s = e->get_current_state();
					if(!alone) {
						if(s.meshline_policy) bad("P23", "policy-twice", fmt("the edge at %.9g shares the policy of its colinear ones and has one of its own", c) + where);
						continue;
					}
					if(ns <= (int) Step::DETECT_INDIVIDUAL_EDGES) continue;
					count("probe.single_edge_judged");
					int const n = side(e);
					if(!s.to_mesh || !n) {
						if(s.meshline_policy) bad("P23", "policy-for-nothing", fmt("a policy for the edge at %.9g which is not to mesh", c) + where);
						continue;
					}
					auto const* m = s.meshline_policy;
					if(!m) bad("P23", "policy-missing", fmt("no policy for the edge at %.9g", c) + where);
					explain(m);
					auto const& ms = m->get_current_state();
					if(ms.policy != Policy::THIRDS || ms.normal != (n == 1 ? MNormal::MIN : MNormal::MAX) || std::fabs(m->coord.value() - c) > eps) bad("P23", "edge-wrong", fmt("the edge at %.9g toward %d got the policy ", c, n) + name(m) + where);
				}
				if(ns > (int) Step::DETECT_INDIVIDUAL_EDGES)
					for(auto const& g : b.get_angles(plane)) {
						double const c = coord(g->p, *va).value();
						// One for each axis of the plane.
						auto const it = std::ranges::find_if(all, [&](auto const& m) {
							auto const& o = m->get_current_state().origins;
							return std::ranges::find(o, (IMeshLineOrigin*) g.get()) != o.end();
						});
						if(it == all.end()) bad("P23", "policy-missing", fmt("no policy for the angle at %.9g", c) + where);
						explain(it->get());
						auto const& ms = (*it)->get_current_state();
						if(ms.policy != Policy::HALFS || std::fabs((*it)->coord.value() - c) > eps) bad("P23", "angle-wrong", fmt("the angle at %.9g got the policy ", c) + name(it->get()) + where);
						if(!g->get_current_state().to_mesh[*va] && ms.is_enabled) bad("P23", "angle-wrong", fmt("the angle at %.9g is not to mesh but its policy is enabled", c) + where);
					}
			}
			// Merging.
			std::set<MeshlinePolicy const*> born;
			std::vector<MeshlinePolicy const*> on;
			for(auto const& c : b.get_conflicts_too_close_meshline_policies(ax)) if(auto const* m = c->get_current_state().meshline_policy) born.insert(m);
			for(auto const& m : all) {
				if(born.contains(m.get())) continue;
				bool never = false; // Angles which are not to mesh.
				for(auto* o : m->get_current_state().origins) for(auto plane : AllPlane) for(auto const& g : b.get_angles(plane)) if((IMeshLineOrigin*) g.get() == o) { auto const va = transpose(plane, ax); if(va && !g->get_current_state().to_mesh[*va]) never = true; }
				if(!never) on.push_back(m.get());
			}
			if(ns <= (int) Step::DETECT_AND_SOLVE_TCMLP) continue;
			for(auto const& c : b.get_conflicts_too_close_meshline_policies(ax)) {
				count("probe.merge_judged");
				auto const* x = c->meshline_policies[0];
				auto const* y = c->meshline_policies[1];
				double const dist = std::fabs(x->coord.value() - y->coord.value());
				if(!std::count(on.begin(), on.end(), x) || !std::count(on.begin(), on.end(), y)) bad("P23", "merged-twice", "a policy that was merged or not to mesh is merged: " + name(x) + name(y) + where);
				if(dist > limit + eps) bad("P23", "merged-apart", fmt("policies %.9g apart are merged, the limit is %.9g", dist, limit) + where);
				std::vector<double> v;
				for(auto* m : on) v.push_back(m->coord.value());
				std::ranges::sort(v);
				for(std::size_t i = 1; i < v.size(); ++i) if(v[i] - v[i - 1] < dist - eps) bad("P23", "not-closest", fmt("policies %.9g apart are merged before those at %.9g and %.9g", dist, v[i - 1], v[i]) + where);
				auto const& s = c->get_current_state();
				auto const* m = s.meshline_policy;
				if(!m || !s.is_solved) bad("P23", "not-merged", "close policies are not merged: " + name(x) + name(y) + where);
				auto const &sx = x->get_current_state(), &sy = y->get_current_state(), &sm = m->get_current_state();
				if(sx.is_enabled || sy.is_enabled) bad("P23", "still-enabled", "a merged policy is still enabled: " + name(x) + name(y) + where);
				double const mid = (x->coord.value() + y->coord.value()) / 2;
				Policy want = Policy::HALFS; MNormal wantn = MNormal::NONE; double wantc = mid;
				if(sx.policy == Policy::ONELINE || sy.policy == Policy::ONELINE) {
					want = Policy::ONELINE;
					if(sx.policy != sy.policy) wantc = sx.policy == Policy::ONELINE ? x->coord.value() : y->coord.value();
				} else if(sx.policy == Policy::THIRDS && sy.policy == Policy::THIRDS && sx.normal == sy.normal) { want = Policy::THIRDS; wantn = sx.normal; }
				if(sm.policy != want || sm.normal != wantn || std::fabs(m->coord.value() - wantc) > eps) bad("P23", "merged-wrong", name(x) + " and " + name(y) + " gave " + name(m) + where);
				std::erase_if(on, [&](auto* o) { return o == x || o == y; });
				on.push_back(m);
			}
			for(auto const& m : all) {
				if(born.contains(m.get()) || explained.contains(m.get())) continue;
				auto const& o = m->get_current_state().origins;
				if(std::ranges::none_of(o, [](auto* x) { return x != nullptr; })) continue; // Asked by the document.
				bad("P23", "policy-for-nothing", "a policy that no edge, angle, colinear edges nor merging explains: " + name(m.get()) + where);
			}
			std::vector<double> v;
			for(auto* m : on) {
				if(!m->get_current_state().is_enabled) bad("P23", "disabled", "a policy is disabled for no reason: " + name(m) + where);
				v.push_back(m->coord.value());
			}
			std::ranges::sort(v);
			for(std::size_t i = 1; i < v.size(); ++i) if(v[i] - v[i - 1] < limit - eps) bad("P23", "too-close", fmt("policies at %.9g and %.9g are left apart, the limit is %.9g", v[i - 1], v[i], limit) + where);
		}
	}
	// Judges which edges ask for mesh, and to which side, from the polygons.
	void check_edges(char const* how) {
		constexpr double eps = 1e-6;
		auto const& b = a->get_board();
		int const ns = next_step();
		if(edited(EDGE)) return; // The user decides.
		// At library level, an edit may come before the steps and skip them.
		auto ran = [&](Step x) { return at(cur).script.find(fmt("S %d\n", (int) x)) != std::string::npos; };
		bool const hidden_known = ns > (int) Step::SOLVE_ALL_EIP && ran(Step::DETECT_CONFLICT_EIP) && ran(Step::SOLVE_ALL_EIP), sides_known = ran(Step::ADJUST_EDGE_TO_MATERIAL);
		if(!hidden_known && !sides_known) return;
		count("probe.edges_judged");
		struct P { double x, y; };
		for(auto plane : AllPlane) {
			std::string const where = fmt(" on plane %d after %s\nin effect:\n", (int) plane, how) + at(cur).script;
			auto const& polygons = b.get_polygons(plane);
			auto point = [](Point const& p) { return P{ p.x.value(), p.y.value() }; };
			auto distance_to = [](P q, P u, P v) {
				double const dx = v.x - u.x, dy = v.y - u.y, l = dx * dx + dy * dy;
				double const t = l > 0 ? std::clamp(((q.x - u.x) * dx + (q.y - u.y) * dy) / l, 0.0, 1.0) : 0;
				return std::hypot(q.x - u.x - t * dx, q.y - u.y - t * dy);
			};
			enum { OUT, ON, IN };
			auto relation = [&](Polygon const& p, P q) {
				bool in = false;
				for(std::size_t i = 0, n = p.points.size(); i < n; ++i) {
					P const u = point(*p.points[i]), v = point(*p.points[(i + 1) % n]);
					if(distance_to(q, u, v) < eps) return (int) ON;
					if((u.y > q.y) != (v.y > q.y) && q.x < (v.x - u.x) * (q.y - u.y) / (v.y - u.y) + u.x) in = !in;
				}
				return (int) (in ? IN : OUT);
			};
			auto rectangle = [](Polygon const& p) { return p.points.size() == 4 && std::ranges::all_of(p.edges, [](auto const& e) { return e->axis == Segment::Axis::H || e->axis == Segment::Axis::V; }); };
			for(auto const& p : polygons) for(auto const& e : p->edges) {
				P const p0 = point(e->p0()), p1 = point(e->p1());
				double const length = std::hypot(p1.x - p0.x, p1.y - p0.y);
				if(length < 1e-3 || e->axis == Segment::Axis::DIAGONAL) continue; // Diagonal ones ask for nothing.
				auto const& s = e->get_current_state();
				std::string const edge = fmt("the edge (%.9g, %.9g)-(%.9g, %.9g) of priority %zu", p0.x, p0.y, p1.x, p1.y, p->priority);
				if(hidden_known) {
					std::vector<Polygon const*> above;
					bool fuzzy = false;
					for(auto const& o : polygons) {
						if(o == p || o->priority < p->priority) continue;
						double const apart = std::max(o->z_placement.min.value(), p->z_placement.min.value()) - std::min(o->z_placement.max.value(), p->z_placement.max.value());
						if(std::fabs(apart) < eps && apart != 0) fuzzy = true;
						if(apart < eps) above.push_back(o.get());
					}
					// Places where it may enter or leave another polygon.
					std::vector<double> cuts{ 0, 1 };
					for(auto* o : above) for(std::size_t i = 0, n = o->points.size(); i < n; ++i) {
						P const u = point(*o->points[i]), v = point(*o->points[(i + 1) % n]);
						double const dx = p1.x - p0.x, dy = p1.y - p0.y, ex = v.x - u.x, ey = v.y - u.y, det = dx * ey - dy * ex;
						if(std::fabs(det) > 1e-9 * (1 + length * std::hypot(ex, ey))) cuts.push_back(((u.x - p0.x) * ey - (u.y - p0.y) * ex) / det);
						for(P q : { u, v }) cuts.push_back(((q.x - p0.x) * dx + (q.y - p0.y) * dy) / (length * length));
					}
					std::ranges::sort(cuts);
					// Hidden where it is within one, or along a side of it that is turned the other way.
					bool open = false, alongside = false;
					P seen{};
					std::vector<int> by(above.size());
					std::size_t parts = 0;
					for(std::size_t i = 1; i < cuts.size(); ++i) {
						if(cuts[i] <= 1e-9 || cuts[i - 1] >= 1 - 1e-9) continue;
						double const from = std::max(0.0, cuts[i - 1]), to = std::min(1.0, cuts[i]);
						if((to - from) * length < 1e-4) { if((to - from) * length > 1e-9) fuzzy = true; continue; }
						double const t = (from + to) / 2;
						P const q{ p0.x + t * (p1.x - p0.x), p0.y + t * (p1.y - p0.y) };
						bool covered = false;
						++parts;
						for(std::size_t k = 0; k < above.size(); ++k) {
							int const r = relation(*above[k], q);
							if(r == ON)
								for(auto const& o : above[k]->edges) if(distance_to(q, point(o->p0()), point(o->p1())) < eps) {
									if(o->normal != e->normal) { covered = true; ++by[k]; break; }
									alongside = true;
								}
							if(r == IN) { covered = true; ++by[k]; }
						}
						if(!covered) { open = true; seen = q; }
					}
					if(!fuzzy) {
						bool const by_one = std::ranges::any_of(by, [&](int n) { return n == (int) parts; });
						if(open && std::ranges::any_of(above, [&](auto* o) { return relation(*o, p0) == IN && relation(*o, p1) == IN; })) count("probe.edge_across_notch");
						count(above.empty() ? "probe.edge_above_all" : open ? alongside ? "probe.edge_alongside" : "probe.edge_open" : by_one ? "probe.edge_hidden_by_one" : "probe.edge_hidden_by_several");
						auto others = [&] {
							std::string r;
							for(auto* o : above) { r += fmt("\nabove, of priority %zu:", o->priority); for(auto const& q : o->points) r += fmt(" (%.9g, %.9g)", q->x.value(), q->y.value()); }
							for(auto const& c : b.get_conflicts_edge_in_polygons(plane)) if(c->edge == e.get()) for(auto const& o : c->get_current_state().overlaps) { auto const& rr = std::get<1>(o); r += fmt("\noverlap (%.9g, %.9g)-(%.9g, %.9g) edge %d;", rr.p0().x.value(), rr.p0().y.value(), rr.p1().x.value(), rr.p1().y.value(), (int) std::get<2>(o).has_value()); }
							return r;
						};
						if(!s.to_mesh && open) bad("P22", "visible-not-meshed", edge + fmt(" is not to mesh although nothing hides it at (%.9g, %.9g)", seen.x, seen.y) + where + others());
						if(s.to_mesh && !open) bad("P22", "hidden-meshed", edge + " is to mesh although it is hidden by polygons of at least its priority" + where + others());
					}
				}
				// Which side is the material's: only told of rectangles, where nothing is ambiguous.
				int const n = e->normal == Normal::XMIN ? 1 : e->normal == Normal::XMAX ? 2 : e->normal == Normal::YMIN ? 3 : e->normal == Normal::YMAX ? 4 : 0;
				if(!n || !p->material || !sides_known) continue;
				P const out{ n == 1 ? -1.0 : n == 2 ? 1.0 : 0.0, n == 3 ? -1.0 : n == 4 ? 1.0 : 0.0 };
				Polygon const* top = nullptr;
				bool sure = true;
				for(auto const& o : polygons) {
					if(o == p || !o->material) continue;
					double const zapart = std::max(o->z_placement.min.value(), p->z_placement.min.value()) - std::min(o->z_placement.max.value(), p->z_placement.max.value());
					if(zapart > eps) continue;
					if(zapart > -eps) { sure = false; break; }
					// Its bounding box, against the strip beside the edge.
					double lo[2] = { 1e300, 1e300 }, hi[2] = { -1e300, -1e300 };
					for(auto const& q : o->points) { P const v = point(*q); lo[0] = std::min(lo[0], v.x); hi[0] = std::max(hi[0], v.x); lo[1] = std::min(lo[1], v.y); hi[1] = std::max(hi[1], v.y); }
					P const u{ p0.x + out.x * 1e-5, p0.y + out.y * 1e-5 }, v{ p1.x + out.x * 1e-5, p1.y + out.y * 1e-5 };
					double const slo[2] = { std::min(u.x, v.x), std::min(u.y, v.y) }, shi[2] = { std::max(u.x, v.x), std::max(u.y, v.y) };
					bool far = false, covers = true;
					for(int k = 0; k < 2; ++k) {
						if(slo[k] > hi[k] + 1e-4 || shi[k] < lo[k] - 1e-4) far = true;
						if(slo[k] < lo[k] - 1e-9 || shi[k] > hi[k] + 1e-9) covers = false;
						if(std::fabs(slo[k] - hi[k]) < 1e-6 || std::fabs(shi[k] - lo[k]) < 1e-6) covers = false;
					}
					// A side of it right at the edge: the strip is out of it or within.
					bool beside = false;
					if(!far) for(int k = 0; k < 2; ++k) {
						double const edge_at = k == 0 ? p0.x : p0.y, o1 = k == 0 ? out.x : out.y;
						if(o1 > 0 && std::fabs(hi[k] - edge_at) < 1e-9) beside = true;
						if(o1 < 0 && std::fabs(lo[k] - edge_at) < 1e-9) beside = true;
					}
					if(far || beside) continue;
					if(!covers || !rectangle(*o)) { sure = false; break; }
					if(top && top->priority == o->priority && top->material->type != o->material->type) { sure = false; break; }
					if(!top || o->priority > top->priority) top = o.get();
				}
				if(!sure) continue;
				auto const m = top ? top->material : std::shared_ptr<Material>();
				if(!m) continue; // The background.
				bool const want = (int) m->type < (int) p->material->type; // From the best conductor to air.
				count(want ? "probe.edge_reversed" : "probe.edge_not_reversed");
				if(s.to_reverse != want) bad("P22", "side", edge + fmt(" of material kind %d beside a material of kind %d: reversed %d", (int) p->material->type, (int) m->type, (int) s.to_reverse) + where);
			}
		}
	}
	// Angle points: where a diagonal side meets another one, or crosses an edge of another polygon.
	void check_angles(char const* how) {
		auto const& b = a->get_board();
		struct V { double x, y; };
		auto at_ = [](Point const& p) { return V { p.x.value(), p.y.value() }; };
		auto same = [](V u, V v) { return std::fabs(u.x - v.x) < 1e-6 && std::fabs(u.y - v.y) < 1e-6; };
		auto diagonal = [&](Edge const& e) { auto const u = at_(e.p0()), v = at_(e.p1()); return std::fabs(u.x - v.x) > 1e-9 && std::fabs(u.y - v.y) > 1e-9; };
		auto unsure = [&](Edge const& e) { // Tells H and V from diagonal only.
			auto const u = at_(e.p0()), v = at_(e.p1());
			for(double const d : { std::fabs(u.x - v.x), std::fabs(u.y - v.y) }) if(d > 0 && d < 1e-6) return true;
			return false;
		};
		auto turn = [&](Edge const& e, Edge const& f) {
			auto const a0 = at_(e.p0()), a1 = at_(e.p1()), b0 = at_(f.p0()), b1 = at_(f.p1());
			V const u { a1.x - a0.x, a1.y - a0.y }, v { b1.x - b0.x, b1.y - b0.y };
			return std::atan2(std::fabs(u.x * v.y - u.y * v.x), u.x * v.x + u.y * v.y) * 180 / M_PI;
		};
		for(auto plane : AllPlane) {
			std::string const where = fmt(" in plane %d after %s\nin effect:\n", (int) plane, how) + at(cur).script;
			std::map<std::pair<Edge const*, Edge const*>, std::vector<Angle const*>> got;
			for(auto const& n : b.get_angles(plane)) {
				auto const* e = n->e0;
				auto const* f = n->e1;
				if(e > f) std::swap(e, f);
				got[{ e, f }].push_back(n.get());
			}
			auto take = [&](Edge const& e, Edge const& f) {
				std::vector<Angle const*> r;
				Edge const *u = &e, *v = &f;
				if(u > v) std::swap(u, v);
				std::pair<Edge const*, Edge const*> const key { u, v };
				for(auto it = got.begin(); it != got.end(); ++it) if(it->first.first == key.first && it->first.second == key.second) { r = it->second; got.erase(it); break; }
				return r;
			};
			auto const& polygons = b.get_polygons(plane);
			for(auto const& p : polygons) {
				auto const n = p->edges.size();
				for(std::size_t i = 0; i < n; ++i) {
					auto const& e = *p->edges[i];
					auto const& f = *p->edges[(i + 1) % n];
					if(n < 3 || unsure(e) || unsure(f)) { take(e, f); continue; }
					auto const r = take(e, f);
					auto const v = at_(e.p1());
					std::size_t const want = diagonal(e) || diagonal(f);
					if(r.size() != want) bad("P24", "angle-of-sides", fmt("%zu angle points instead of %zu where two sides of " , r.size(), want) + p->name + fmt(" meet at (%.9g, %.9g)", v.x, v.y) + where);
					if(!want) continue;
					count("probe.angle_of_sides");
					if(!same(at_(r[0]->p), v)) bad("P24", "angle-place", fmt("the angle of the sides that meet at (%.9g, %.9g) is said to be at (%.9g, %.9g)", v.x, v.y, r[0]->p.x.value(), r[0]->p.y.value()) + where);
					if(std::fabs(r[0]->angle.value() - turn(e, f)) > 1e-4) bad("P24", "angle-value", fmt("the sides that meet at (%.9g, %.9g) turn by %.9g degrees, not by %.9g", v.x, v.y, turn(e, f), r[0]->angle.value()) + where);
				}
			}
			for(std::size_t i = 0; i < polygons.size(); ++i) for(std::size_t j = i + 1; j < polygons.size(); ++j)
				for(auto const& e : polygons[i]->edges) for(auto const& f : polygons[j]->edges) {
					if(unsure(*e) || unsure(*f)) { take(*e, *f); continue; }
					auto const p = at_(e->p0()), q = at_(e->p1()), u = at_(f->p0()), v = at_(f->p1());
					auto const r = take(*e, *f);
					std::string const here = fmt(" where (%.9g, %.9g)-(%.9g, %.9g) of ", p.x, p.y, q.x, q.y) + polygons[i]->name + fmt(" and (%.9g, %.9g)-(%.9g, %.9g) of ", u.x, u.y, v.x, v.y) + polygons[j]->name;
					if(!diagonal(*e) && !diagonal(*f)) {
						if(!r.empty()) bad("P24", "angle-for-nothing", "an angle point" + here + " meet, none is diagonal" + where);
						continue;
					}
					// Where they cross, along each.
					double const dx = q.x - p.x, dy = q.y - p.y, ex = v.x - u.x, ey = v.y - u.y;
					double const div = dx * ey - dy * ex, size = std::hypot(dx, dy) * std::hypot(ex, ey);
					bool sure = false, out = false;
					double s = 0, t = 0;
					if(std::fabs(div) > 1e-6 * size && size > 0) {
						s = ((u.x - p.x) * ey - (u.y - p.y) * ex) / div;
						t = ((u.x - p.x) * dy - (u.y - p.y) * dx) / div;
						// The program compares the areas of triangles.
						double const m = 1e-4 + 1e-6 / std::fabs(div);
						sure = s > m && s < 1 - m && t > m && t < 1 - m;
						out = s < -m || s > 1 + m || t < -m || t > 1 + m;
					}
					if(out && !r.empty()) bad("P24", "angle-for-nothing", "an angle point" + here + " do not meet" + where);
					if(sure && r.size() != 1) bad("P24", "angle-of-crossing", fmt("%zu angle points instead of one", r.size()) + here + " cross" + where);
					if(r.size() > 1) bad("P24", "angle-of-crossing", fmt("%zu angle points instead of one", r.size()) + here + " meet" + where);
					if(!sure) continue;
					count(diagonal(*e) && diagonal(*f) ? "probe.angle_of_diagonals" : "probe.angle_of_crossing");
					V const w { p.x + s * dx, p.y + s * dy };
					if(!same(at_(r[0]->p), w)) bad("P24", "angle-place", fmt("the angle at (%.9g, %.9g) is said to be at (%.9g, %.9g)", w.x, w.y, r[0]->p.x.value(), r[0]->p.y.value()) + where);
					double const k = turn(*e, *f), g = r[0]->angle.value();
					if(std::fabs(g - k) > 1e-4 && std::fabs(180 - g - k) > 1e-4) bad("P24", "angle-value", fmt("the edges that cross at (%.9g, %.9g) make an angle of %.9g degrees, not of %.9g", w.x, w.y, k, g) + where);
				}
			if(!got.empty()) { auto const& n = *got.begin()->second.front(); bad("P24", "angle-for-nothing", fmt("an angle point at (%.9g, %.9g) is of sides that do not follow each other", n.p.x.value(), n.p.y.value()) + where); }
		}
	}
	// Judges diagonal zones from the polygons, and what they do to angles and intervals.
	// Meshing changes intervals: they are judged as they were before it, in a child that steps back.
	void check_zones(char const* how, bool before_mesh = false) {
		constexpr double eps = 1e-6;
		if(!before_mesh && next_step() == STEPS && !edited(INTERVAL)) {
			int const st = in_child([&] { a->go_before(Step::MESH); check_zones(how, true); });
			if(failed()) _exit(0);
			if(st) bad("P24", "lost", fmt("stepping back before meshing and looking at the zones ended with status %d", st));
			return;
		}
		auto const& b = a->get_board();
		auto const& g = b.global_params->get_current_state();
		int const ns = before_mesh ? (int) Step::MESH : next_step();
		// An edit of an edge made earlier than the zones leaves them out.
		auto ran = [&](Step x) { return at(cur).script.find(fmt("S %d\n", (int) x)) != std::string::npos; };
		if(!ran(Step::DETECT_DIAG_ANGLES) || !ran(Step::DETECT_DIAG_ZONES)) return;
		count("probe.zones_judged");
		check_angles(how);
		for(auto ax : AllAxis) {
			std::string const where = fmt(" on axis %d after %s\nin effect:\n", (int) ax, how) + at(cur).script;
			std::vector<std::array<double, 2>> want, got;
			bool fuzzy = false;
			for(auto plane : AllPlane) {
				auto const va = transpose(plane, ax);
				if(!va) continue;
				std::vector<double> c;
				for(auto const& g2 : b.get_angles(plane)) c.push_back(coord(g2->p, *va).value());
				std::ranges::sort(c);
				std::vector<std::array<double, 2>> diag;
				for(auto const& p : b.get_polygons(plane)) for(auto const& e : p->edges) if(e->axis == Segment::Axis::DIAGONAL) {
					double const x = coord(e->p0(), *va).value(), y = coord(e->p1(), *va).value();
					diag.push_back({ std::min(x, y), std::max(x, y) });
				}
				std::optional<std::array<double, 2>> run;
				for(std::size_t i = 1; i < c.size(); ++i) {
					double const m = (c[i - 1] + c[i]) / 2;
					bool in = false;
					for(auto const& d : diag) {
						if(m > d[0] - eps && m < d[1] + eps) in = true;
						if(c[i] - c[i - 1] > eps && (std::fabs(m - d[0]) < eps || std::fabs(m - d[1]) < eps)) fuzzy = true;
					}
					if(in) run = run ? std::array{ (*run)[0], c[i] } : std::array{ c[i - 1], c[i] };
					else if(run) { want.push_back(*run); run.reset(); }
				}
				if(run) want.push_back(*run);
			}
			auto small = [](auto const& z) { return z[1] - z[0] < eps; };
			std::erase_if(want, small);
			for(auto const& z : b.get_conflicts_diagonal_or_circular_zones(ax)) {
				auto const r = z->bounding();
				got.push_back({ r[0].value(), r[1].value() });
				auto const& s = z->get_current_state();
				if(!edited(ZONE) && s.dmax != g.diagonal_dmax) bad("P24", "zone-spacing", fmt("a zone has the spacing %.9g instead of %.9g", s.dmax, g.diagonal_dmax) + where);
				if(ran(Step::SOLVE_DIAG_ZONES_ANGLES) && !edited(ANGLE))
					for(std::size_t i = 0; i < s.angles.size(); ++i) {
						auto const* n = s.angles[i];
						auto const va = transpose(n->plane, ax);
						if(!va) bad("P24", "foreign-angle", "an angle of a zone is in a plane without its axis" + where);
						bool const is = n->get_current_state().to_mesh[*va];
						bool const end = !i || i + 1 == s.angles.size();
						bool const sharp = n->angle.value() > g.consecutive_diagonal_minimal_angle - 1e-9;
						if((edited(ZONE) || std::fabs(n->angle.value() - g.consecutive_diagonal_minimal_angle) < 1e-6) && !end) continue;
						// The same angle may end another zone.
						if(end ? !is : sharp ? !is : false) bad("P24", "angle-not-meshed", fmt("the angle of %.9g degrees at %.9g is not to mesh", n->angle.value(), coord(n->p, *va).value()) + where);
						if(!end && !sharp && is) {
							bool ends = false;
							for(auto const& y : b.get_conflicts_diagonal_or_circular_zones(ax)) { auto const& o = y->get_current_state().angles; if(o.front() == n || o.back() == n) ends = true; }
							if(!ends) bad("P24", "angle-meshed", fmt("the obtuse angle of %.9g degrees at %.9g is to mesh", n->angle.value(), coord(n->p, *va).value()) + where);
						}
						count("probe.angle_judged");
					}
			}
			std::erase_if(got, small);
			std::ranges::sort(want);
			std::ranges::sort(got);
			auto text = [](auto const& v) { std::string r; for(auto const& z : v) r += fmt(" [%.9g, %.9g]", z[0], z[1]); return r; };
			bool same = want.size() == got.size();
			for(std::size_t i = 0; same && i < want.size(); ++i) same = std::fabs(want[i][0] - got[i][0]) < eps && std::fabs(want[i][1] - got[i][1]) < eps;
			if(!same && !fuzzy) bad("P24", "zones", "diagonal zones are" + text(got) + " instead of" + text(want) + where);
			if(!want.empty()) count("probe.zone");
			if(ns != (int) Step::MESH || edited(INTERVAL)) continue;
			for(auto const& iv : b.get_intervals(ax)) {
				double const m = iv->m.value(), d = iv->get_current_state().dmax;
				bool in = false, ok = false, near = false;
				for(auto const& z : b.get_conflicts_diagonal_or_circular_zones(ax)) {
					auto const r = z->bounding();
					if(std::fabs(m - r[0].value()) < eps || std::fabs(m - r[1].value()) < eps) near = true;
					if(m > r[0].value() && m < r[1].value()) { in = true; ok |= d == z->get_current_state().dmax; }
				}
				if(near) continue;
				count(in ? "probe.interval_in_zone" : "probe.interval_out_of_zones");
				if(!in && d != g.dmax) bad("P24", "interval-spacing", fmt("the interval around %.9g, in no zone, has the spacing %.9g instead of %.9g", m, d, g.dmax) + where);
				if(in && !ok) bad("P24", "interval-spacing", fmt("the interval around %.9g has the spacing %.9g, which is not the one of its zone", m, d) + where);
			}
		}
	}
	void compare(char const* p, char const* how, std::string const& text, bool grouped) {
		auto const& r = reference(at(cur).script, grouped);
		auto const nl = r.find('\n');
		if(nl > 1) bad("P04", "dangling", "in a fresh program: something observable refers to an object that is not part of the project: " + r.substr(1, nl - 1) + "\nscript:\n" + at(cur).script);
		count("probe.compared_with_pristine");
		if(r.substr(nl + 1) != text)
			bad(p, "differs-from-fresh", std::string("after ") + how + " the project differs from the one a fresh program makes of the steps and edits in effect (fresh versus session): " + snap_diff(r.substr(nl + 1), text) + "\nin effect:\n" + at(cur).script);
	}

	// What the document says (P25), read by other means than the program's.
	struct Shape {
		int plane, type;
		std::string name, material;
		std::optional<std::array<int, 4>> fill, edge;
		std::size_t priority;
		double low, high;
		std::vector<std::array<double, 2>> outline; // Of a circle: its centre.
		double radius = -1;                         // Of a circle.
	};
	std::vector<Shape> shapes;
	std::vector<double> lines_of_shapes[3];
	std::set<std::string> odd_types[2], odd_names[2];   // Properties, primitives.
	std::optional<int> background;
	struct Told { std::string message; std::set<std::string> types, names; };
	static std::vector<Told>& told() { static std::vector<Told> v; return v; }
	struct Listener final : Logger::ISink {
		Logger::UserAction log(Logger::LogEvent const& e) const override {
			auto split = [](std::string const& x) {
				std::set<std::string> r;
				for(std::size_t i = 0; i < x.size();) { auto const j = std::min(x.find(", ", i), x.size()); r.insert(x.substr(i, j - i)); i = j + 2; }
				return r;
			};
			told().push_back({ e.message, split(e.informative), split(e.details) });
			return Logger::UserAction::OK;
		}
	};
	void find_shapes() {
		long doc = 0, flags = 0;
		sscanf(at(0).script.c_str(), "O %ld %ld", &doc, &flags);
		shapes.clear();
		background.reset();
		for(auto& v : lines_of_shapes) v.clear();
		for(int i = 0; i < 2; ++i) odd_types[i].clear(), odd_names[i].clear();
		auto const* f = fs::get(fmt("/sim/in%ld.csx", doc));
		if(!f) return;
		auto const d = xml::parse(*f);
		xml::Node const* csx = nullptr;
		for(auto const& n : d.tops) {
			if(n.name == "ContinuousStructure") csx = &n;
			if(n.name == "openEMS" && n.child("ContinuousStructure")) csx = n.child("ContinuousStructure");
		}
		if(!csx) return;
		auto number = [](xml::Node const* n, char const* k, double def = 0) { auto const* v = n ? n->attr(k) : nullptr; return v ? std::strtod(v->c_str(), nullptr) : def; };
		enum { PORT, CONDUCTOR, DIELECTRIC, AIR };
		auto kind_of = [&](xml::Node const* n) {
			double const e = number(n, "Epsilon", 1), m = number(n, "Mue", 1), k = number(n, "Kappa", 0);
			if(e == 1 && m == 1) return k == 0 ? (int) AIR : k > 0 ? (int) CONDUCTOR : (int) DIELECTRIC;
			return (int) DIELECTRIC;
		};
		auto is_in = [](std::string const& x, std::initializer_list<char const*> l) { return std::ranges::any_of(l, [&](auto* c) { return x == c; }); };
		if(auto const* n = csx->child("BackgroundMaterial")) background = kind_of(n);
		bool const on[3] = { !(flags & 1), !(flags & 2), !(flags & 4) }; // By normal.
		auto line = [&](int axis, double c) { lines_of_shapes[axis].push_back(c); };
		for(auto const& group : csx->children) if(group.name == "Properties") {
			int rank = 0;
			for(auto const& p : group.children) {
				auto const* pn = p.attr("Name");
				std::string const pname = pn ? *pn : "";
				int type = -1;
				if(is_in(p.name, { "Metal", "ConductingSheet" })) type = CONDUCTOR;
				else if(is_in(p.name, { "LumpedElement", "Excitation", "ProbeBox" })) type = PORT;
				else if(is_in(p.name, { "Material", "DispersiveMaterial", "DebyeMaterial", "LorentzMaterial" })) type = kind_of(p.child("Property"));
				else odd_types[0].insert(p.name), odd_names[0].insert(pname);
				auto colour = [&](char const* k) -> std::optional<std::array<int, 4>> {
					auto const* c = p.child(k);
					if(!c) return {};
					return std::array { (int) number(c, "R"), (int) number(c, "G"), (int) number(c, "B"), (int) number(c, "a") };
				};
				for(auto const& ps : p.children) if(ps.name == "Primitives") for(auto const& n : ps.children) {
					std::string const name = pname + fmt("::%d", rank++);
					if(type < 0) continue;
					auto odd = [&](std::string const& t) { odd_types[1].insert(t), odd_names[1].insert(name); };
					std::vector<xml::Node const*> vertices;
					for(auto const& c : n.children) if(c.name == "Vertex") vertices.push_back(&c);
					if(auto const* t = n.child("Transformation"); t && (!t->children.empty())) { odd("Transformed " + n.name); continue; }
					if(is_in(n.name, { "LinPoly", "Polygon", "Curve" }) && vertices.empty()) { odd("Invalid " + n.name); continue; }
					std::size_t const priority = type == PORT || n.name == "Curve" ? (std::size_t) -1 : (std::size_t) number(&n, "Priority");
					auto add = [&](int normal, double z0, double z1, std::vector<std::array<double, 2>> o, double r = -1) {
						if(on[normal]) shapes.push_back({ normal, type, name, pname, colour("FillColor"), colour("EdgeColor"), priority, std::min(z0, z1), std::max(z0, z1), std::move(o), r });
					};
					using V3 = std::array<double, 3>;
					auto place = [&](xml::Node const* c) { return V3{ number(c, "X"), number(c, "Y"), number(c, "Z") }; };
					// Seen along an axis, the two others follow it in turn.
					auto rectangle = [&](int k, V3 const& a, V3 const& b) {
						int const i = (k + 1) % 3, j = (k + 2) % 3;
						add(k, a[k], b[k], { { a[i], a[j] }, { a[i], b[j] }, { b[i], b[j] }, { b[i], a[j] } });
					};
					if(n.name == "Box") for(int k = 0; k < 3; ++k) rectangle(k, place(n.child("P1")), place(n.child("P2")));
					else if(n.name == "MultiBox") {
						std::vector<V3> a, b;
						for(auto const& c : n.children) { if(c.name == "StartP") a.push_back(place(&c)); if(c.name == "EndP") b.push_back(place(&c)); }
						for(std::size_t i = 0; i < std::min(a.size(), b.size()); ++i) for(int k = 0; k < 3; ++k) rectangle(k, a[i], b[i]);
					} else if(n.name == "LinPoly" || n.name == "Polygon") {
						int const k = (int) number(&n, "NormDir");
						double const z0 = number(&n, "Elevation"), z1 = z0 + (n.name == "LinPoly" ? number(&n, "Length") : 0);
						if(k < 0 || k > 2) continue;
						std::vector<std::array<double, 2>> o;
						V3 lo, hi;
						for(auto const* v : vertices) {
							o.push_back({ number(v, "X1"), number(v, "X2") });
							for(int m = 0; m < 2; ++m) {
								auto const x = o.back()[m];
								lo[(k + 1 + m) % 3] = o.size() == 1 ? x : std::min(x, lo[(k + 1 + m) % 3]);
								hi[(k + 1 + m) % 3] = o.size() == 1 ? x : std::max(x, hi[(k + 1 + m) % 3]);
							}
						}
						lo[k] = z0, hi[k] = z1;
						add(k, z0, z1, o);
						if(n.name == "Polygon") line(k, z0);
						else if(z0 != z1) for(int m = 1; m < 3; ++m) rectangle((k + m) % 3, lo, hi);
					} else if(n.name == "Sphere") {
						V3 const c = place(n.child("Center"));
						double const r = number(&n, "Radius");
						for(int k = 0; k < 3; ++k) add(k, c[k] - r, c[k] + r, { { c[(k + 1) % 3], c[(k + 2) % 3] } }, r);
					} else if(n.name == "Cylinder") {
						V3 a = place(n.child("P1")), b = place(n.child("P2"));
						double const r = number(&n, "Radius");
						int along = -1;
						for(int k = 2; k >= 0; --k) if(a[(k + 1) % 3] == b[(k + 1) % 3] && a[(k + 2) % 3] == b[(k + 2) % 3]) along = k;
						if(along < 0) { odd("Cylinder (with diagonal axis)"); continue; }
						add(along, a[along], b[along], { { a[(along + 1) % 3], a[(along + 2) % 3] } }, r);
						for(int m = 1; m < 3; ++m) a[(along + m) % 3] -= r, b[(along + m) % 3] += r;
						for(int m = 1; m < 3; ++m) rectangle((along + m) % 3, a, b);
					} else if(n.name == "Point") {
						V3 const c = place(&n);
						for(int k = 0; k < 3; ++k) if(on[k]) for(int m = 1; m < 3; ++m) line((k + m) % 3, c[(k + m) % 3]);
					} else if(n.name == "Curve") {
						std::vector<V3> v;
						for(auto const* c : vertices) v.push_back(place(c));
						for(int k = 0; k < 3; ++k) {
							double lo = v[0][k], hi = lo;
							std::vector<std::array<double, 2>> o;
							for(auto const& x : v) lo = std::min(lo, x[k]), hi = std::max(hi, x[k]), o.push_back({ x[(k + 1) % 3], x[(k + 2) % 3] });
							for(std::size_t i = v.size() > 1 ? v.size() - 2 : 0; i > 0; --i) { auto const back = o[i]; o.push_back(back); }
							add(k, lo, hi, o);
						}
					} else odd(n.name);
				}
			}
		}
	}
	// The polygons are those of the document, at any point of the history.
	void check_polygons(char const* how) {
		auto const& b = a->get_board();
		auto near = [](double u, double v) { return std::fabs(u - v) <= 1e-9 * (1 + std::fabs(u) + std::fabs(v)); };
		std::string const where = fmt(" after %s\nin effect:\n", how) + at(cur).script;
		count("probe.polygons_judged");
		{
			auto const* m = b.material.get();
			if((bool) m != background.has_value() || (m && (int) m->type != *background)) bad("P25", "background", "the background is not made of what the document says" + where);
		}
		for(auto plane : AllPlane) {
			int const k = plane == YZ ? 0 : plane == ZX ? 1 : 2;
			std::string const on = fmt(" seen along axis %d", k) + where;
			auto const& polygons = b.get_polygons(plane);
			std::vector<bool> used(polygons.size());
			std::size_t edges = 0;
			auto text = [&](Polygon const& p) {
				std::string r = p.name + fmt(" priority %zu heights %.9g..%.9g:", p.priority, p.z_placement.min.value(), p.z_placement.max.value());
				for(auto const& q : p.points) r += fmt(" (%.9g, %.9g)", q->x.value(), q->y.value());
				return r;
			};
			for(auto const& w : shapes) if(w.plane == k) {
				std::string why = "there is none of this name";
				auto colour = [&](auto const& got, auto const& want) {
					if((bool) got != (bool) want) return false;
					return !got || std::array { (int) got->r, (int) got->g, (int) got->b, (int) got->a } == *want;
				};
				auto fits = [&](Polygon const& p) {
					if(p.name != w.name) return false;
					why = text(p);
					if(p.plane != plane || p.priority != w.priority || !near(p.z_placement.min.value(), w.low) || !near(p.z_placement.max.value(), w.high)) return false;
					if(!p.material || (int) p.material->type != w.type || p.material->name != w.material || !colour(p.material->fill_color, w.fill) || !colour(p.material->edge_color, w.edge)) return why += " of another material", false;
					std::size_t const n = p.points.size();
					if(w.radius >= 0) {
						double const cx = w.outline[0][0], cy = w.outline[0][1];
						if(n < 8) return false;
						double turned = 0;
						bool reach[4] = {};
						for(std::size_t i = 0; i < n; ++i) {
							double const x = p.points[i]->x.value() - cx, y = p.points[i]->y.value() - cy, u = p.points[(i + 1) % n]->x.value() - cx, v = p.points[(i + 1) % n]->y.value() - cy;
							if(!near(std::hypot(x, y), w.radius)) return false;
							turned += std::atan2(x * v - y * u, x * u + y * v);
							reach[0] |= near(x, w.radius), reach[1] |= near(-x, w.radius), reach[2] |= near(y, w.radius), reach[3] |= near(-y, w.radius);
						}
						if(!(reach[0] && reach[1] && reach[2] && reach[3])) return false;
						return w.radius == 0 || std::fabs(std::fabs(turned) - 2 * M_PI) < 1e-6;
					}
					if(n != w.outline.size()) return false;
					for(std::size_t from = 0; from < n; ++from) for(int way : { 1, -1 }) {
						bool same = true;
						for(std::size_t i = 0; same && i < n; ++i) {
							auto const& q = *p.points[way > 0 ? (from + i) % n : (from + n - i) % n];
							same = near(q.x.value(), w.outline[i][0]) && near(q.y.value(), w.outline[i][1]);
						}
						if(same) return true;
					}
					return false;
				};
				std::size_t i = 0;
				while(i < polygons.size() && (used[i] || !fits(*polygons[i]))) ++i;
				if(i == polygons.size()) {
					std::string want = w.name + fmt(" type %d priority %zu heights %.9g..%.9g", w.type, w.priority, w.low, w.high) + (w.radius >= 0 ? fmt(" circle of radius %.9g around", w.radius) : std::string(":"));
					for(auto const& q : w.outline) want += fmt(" (%.9g, %.9g)", q[0], q[1]);
					bad("P25", "polygon-missing", "no polygon for " + want + ", but " + why + on);
				}
				used[i] = true;
				count(w.radius >= 0 ? "probe.circle" : "probe.outline");
			}
			for(std::size_t i = 0; i < polygons.size(); ++i) {
				auto const& p = *polygons[i];
				if(!used[i]) bad("P25", "polygon-for-nothing", "the document does not have " + text(p) + on);
				// Its sides.
				std::size_t const n = p.points.size();
				edges += n;
				if(p.edges.size() != n) bad("P25", "sides", "not as many sides as vertices in " + text(p) + on);
				double lo[2] = { HUGE_VAL, HUGE_VAL }, hi[2] = { -HUGE_VAL, -HUGE_VAL };
				for(std::size_t v = 0; v < n; ++v) {
					auto const& e = *p.edges[v];
					auto const &from = *p.points[(v + n - 1) % n], &to = *p.points[v];
					if(&e.p0() != &from || &e.p1() != &to || e.plane != plane) bad("P25", "sides", fmt("side %zu does not join its vertices in ", v) + text(p) + on);
					double const dx = to.x.value() - from.x.value(), dy = to.y.value() - from.y.value();
					auto const axis = std::fabs(dx) < 1e-9 && std::fabs(dy) < 1e-9 ? Segment::Axis::POINT : std::fabs(dy) < 1e-9 ? Segment::Axis::H : std::fabs(dx) < 1e-9 ? Segment::Axis::V : Segment::Axis::DIAGONAL;
					if(e.axis != axis) bad("P25", "sides", fmt("side %zu is said to be along %d in ", v, (int) e.axis) + text(p) + on);
					double const c[2] = { to.x.value(), to.y.value() };
					for(int m = 0; m < 2; ++m) lo[m] = std::min(lo[m], c[m]), hi[m] = std::max(hi[m], c[m]);
				}
				if(!near(p.bounding[XMIN].value(), lo[0]) || !near(p.bounding[XMAX].value(), hi[0]) || !near(p.bounding[YMIN].value(), lo[1]) || !near(p.bounding[YMAX].value(), hi[1])) bad("P25", "bounds", "the bounds are not those of " + text(p) + on);
			}
			if(b.get_current_state().edges[plane].size() != edges) bad("P25", "sides", fmt("%zu sides are in the project instead of %zu", b.get_current_state().edges[plane].size(), edges) + on);
		}
		// Lines that primitives ask for.
		bool const ran = at(cur).script.find(fmt("S %d\n", (int) Step::ADD_FIXED_MLP)) != std::string::npos;
		for(auto ax : AllAxis) {
			std::vector<double> want = lines_of_shapes[ax];
			want.insert(want.end(), asked[ax].begin(), asked[ax].end());
			if(!ran) want.clear();
			auto const& all = b.get_meshline_policies(ax);
			std::string const on = fmt(" on axis %d", (int) ax) + where;
			for(auto const& m : all) {
				auto const& s = m->get_current_state();
				if(s.origins.empty() && std::ranges::none_of(want, [&](double c) { return near(c, m->coord.value()); })) bad("P25", "line-for-nothing", fmt("nothing in the document asks for the line %.9g", m->coord.value()) + on);
			}
			for(double c : want) {
				count("probe.line_of_primitive");
				if(std::ranges::none_of(all, [&](auto const& m) { return near(c, m->coord.value()) && (edited(MLP) || (m->get_current_state().policy == MeshlinePolicy::Policy::ONELINE && m->get_current_state().normal == MeshlinePolicy::Normal::NONE)); })) bad("P25", "line-missing", fmt("the document asks for a line at %.9g, no policy does", c) + on);
			}
		}
	}
	// What is not represented was told, once.
	void check_told() {
		char const* const what[] = { "Properties", "Primitives" };
		for(int i = 0; i < 2; ++i) {
			auto const n = std::ranges::count_if(told(), [&](auto const& x) { return x.message.find(what[i]) != std::string::npos; });
			if(n != !odd_names[i].empty()) bad("P25", "told", fmt("%ld messages tell about unsupported %s instead of %d", (long) n, what[i], !odd_names[i].empty()));
			for(auto const& x : told()) if(x.message.find(what[i]) != std::string::npos) {
				auto join = [](auto const& v) { std::string r; for(auto const& y : v) r += " " + y; return r; };
				if(x.types != odd_types[i] || x.names != odd_names[i]) bad("P25", "told", fmt("unsupported %s are", what[i]) + join(odd_types[i]) + " (" + join(odd_names[i]) + "), those told are" + join(x.types) + " (" + join(x.names) + ")");
				count("probe.unsupported_told");
			}
		}
		if(told().size() != (std::size_t) !odd_names[0].empty() + !odd_names[1].empty()) bad("P25", "told", "another message was sent: " + told().back().message);
	}

	//------------------------------------------------------------------- ops
	void open(long doc, long flags, bool same) {
		doc = std::labs(doc) % DOCS;
		flags = std::labs(flags) % 128;
		if((flags & 7) == 7) flags &= ~7;
		std::string const script = fmt("O %ld %ld", doc, flags);
		foresee(script + "\n");
		if(!a || !same) a = std::make_unique<OpenEMSH>(params_of(doc, flags));
		else {
			// The same program object: only the file changes, as in the main window.
			flags = own_flags;
			a->set_input(fmt("/sim/in%ld.csx", doc));
		}
		own_flags = flags;
		foresee(fmt("O %ld %ld\n", doc, flags));
		++opens;
		told().clear();
		fs::Plan plan;
		plan.chunk = chunk;
		fs::start_life(plan);
		auto const r = a->parse();
		fs::end_life();
		if(!r) bad("P07", "open-failed", "a document that opens in a fresh program is refused: " + r.error());
		nodes.clear();
		hist.clear();
		cursor.reset();
		cur = add(-1, fmt("O %ld %ld", doc, flags));
		hist.push_back(cur);
		at(cur).real = ct().get_current_timepoint();
		if(prop == "P20" || prop == "P25") find_asked();
		if(prop == "P25") find_shapes(), check_told();
		if(opens > 1) count("probe.reopen");
	}
	long own_flags = 0;
	int chunk = 0;                  // Reads give that many bytes at a time.

	void open_bad(long kind) {
		kind = std::labs(kind) % 4;
		if(!a) a = std::make_unique<OpenEMSH>(params_of(0, own_flags));
		fs::Plan plan;
		auto const* whole = fs::get("/sim/in0.csx");
		switch(kind) {
		case 0: a->set_input("/sim/missing.csx"); break;
		case 1: fs::put("/sim/bad.csx", whole ? whole->substr(0, whole->size() / 2) : ""); a->set_input("/sim/bad.csx"); break;
		case 2: fs::put("/sim/bad.csx", "not a document"); a->set_input("/sim/bad.csx"); break;
		default: a->set_input("/sim/in0.csx"); plan.faults.push_back({ fs::Op::READ, 0, fs::Fault::ERR, EIO, 0, true, false }); break;
		}
		fs::start_life(plan);
		auto const r = a->parse();
		fs::end_life();
		++opens;
		count(r ? "probe.bad_open_accepted" : "probe.failed_open");
		cur = -1; // Only opening again makes sense.
	}

	void edit(Line const& l) {
		Edit e { (int) (std::labs(l.num(1)) % KINDS), 0, { std::labs(l.num(3)), std::labs(l.num(4)), std::labs(l.num(5)) } };
		auto const view = objects(a->get_board(), e.kind);
		if(view.empty()) return;
		void const* const o = view[(std::size_t) std::labs(l.num(2)) % view.size()];
		int const s = edit_step(e.kind, e.v);
		int const target = nearest(cur, true, s);
		if(target < 0) {
			// Not run yet: edges, angles and parameters can be edited beforehand.
			if(e.kind > GLOBAL) return;
			for(int i = cur; i >= 0; i = at(i).parent) if(at(i).annot >= s) return;
		}
		int const from = target < 0 ? cur : target;
		// The script needs the position of the object where it is edited.
		a->go_before(step_of(s));
		cur = from;
		arrived("go_before");
		auto const there = objects(a->get_board(), e.kind);
		std::size_t i = 0;
		while(i < there.size() && there[i] != o) ++i;
		if(i == there.size()) bad("P06", "go-before-loses-object", fmt("before step %s the object being edited does not exist\nin effect:\n", step_names[s]) + at(cur).script);
		e.index = (int) i;
		if(prop == "P06") {
			auto const v = snapshot(*a);
			compare("P06", "go_before", v.text, true);
		}
		std::vector<int> steps;
		for(int k = s; k < STEPS; ++k) steps.push_back(k);
		std::string script = at(cur).script + edit_text(e) + "\n";
		for(int k : steps) script += fmt("S %d\n", k);
		foresee(script);
		apply(a->get_board(), e);
		new_work();
		cur = add(cur, edit_text(e));
		at(cur).real = ct().get_current_timepoint();
		run_steps(steps, [&] { a->run_from_step(step_of(s)); });
		count((std::string("op.edit") + std::to_string(e.kind)).c_str());
		check("edit", true);
	}

	void save() {
		auto const before = at(cur).script + "W\n";
		auto const& r = reference(before, true);
		fs::put("/sim/out.csx", "");
		a->set_output("/sim/out.csx");
		auto const w = a->write();
		if(!w) bad("P05", "save-failed", "saving failed: " + w.error());
		auto const* f = fs::get("/sim/out.csx");
		if(!f || r != "F" + *f) {
			if(prop == "P07" && opens < 2) return;
			bad(prop == "P07" ? "P07" : "P05", "saved-differs", "the saved file differs from the one saved by a fresh program (fresh versus session): " + snap_diff(r.substr(1), f ? *f : "") + "\nin effect:\n" + at(cur).script);
		}
	}

	void op(Line const& l) {
		std::string const& k = l.w[0];
		count("steps");
		if(k == "open") { open(l.num(1), l.num(2), l.num(3) % 2); done(k); check("open", true); return; }
		if(k == "openbad") { open_bad(l.num(1)); done(k); return; }
		if(cur < 0) return;
		if(k == "next") {
			int const s = next_step();
			if(s >= STEPS) {
				// Impossible: nothing changes.
				auto const* t = ct().get_current_timepoint();
				a->run_next_step();
				if(ct().get_current_timepoint() != t) bad("P06", "next-after-end", "running a next step when there is none moved the session");
				check("next", false);
				return;
			}
			run_steps({ s }, [&] { a->run_next_step(); });
			done(k);
			check("next", false);
		} else if(k == "all") {
			if(at(cur).parent >= 0) return;
			std::vector<int> v;
			for(int i = 0; i < STEPS; ++i) v.push_back(i);
			run_steps(v, [&] { a->run_all_steps(); });
			done(k);
			check("all", true);
		} else if(k == "from") {
			int const s = next_step();
			if(s >= STEPS) return;
			std::vector<int> v;
			for(int i = s; i < STEPS; ++i) v.push_back(i);
			run_steps(v, [&] { a->run_from_step(step_of(s)); });
			done(k);
			check("from", true);
		} else if(k == "finish") {
			int n = 0;
			while(a->can_run_a_next_step()) {
				int const s = next_step();
				if(s >= STEPS || ++n > STEPS) bad("P06", "never-finished", "moving forward does not reach the finished mesh\nin effect:\n" + at(cur).script);
				run_steps({ s }, [&] { a->run_next_step(); });
			}
			if(n) done(k);
			if(next_step() < STEPS) bad("P06", "can-next", "no next step is possible but the mesh is not finished\nin effect:\n" + at(cur).script);
			check("finish", false);
		} else if(k == "prev") {
			int const t = nearest(cur, false);
			a->go_before_previous_step();
			if(t >= 0) {
				cur = t;
				remember();
				done(k);
			}
			arrived("prev");
			check("prev", true);
		} else if(k == "undo" || k == "redo") {
			std::size_t const n = 1 + (std::size_t) std::labs(l.num(1)) % 3;
			if(k == "undo") {
				if(can_undo(n)) {
					std::size_t pos = cursor ? *cursor - n : hist.size() - 1 - n + (hist.back() == cur ? 0 : 1);
					cursor = pos;
					if(pos == hist.size() - 1) cursor.reset();
					cur = hist[pos];
					done(k);
				}
				ct().undo(n);
			} else {
				if(can_redo(n)) {
					std::size_t const pos = *cursor + n;
					cursor = pos;
					if(pos == hist.size() - 1) cursor.reset();
					cur = hist[pos];
					done(k);
				}
				ct().redo(n);
			}
			arrived(k.c_str());
			check(k.c_str(), true);
		} else if(k == "edit") {
			edit(l);
			history = mix(history, fnv("edit"));
			++effective;
		} else if(k == "pin") {
			ct().pin_current_timepoint();
			done(k);
			check("pin", true);
		} else if(k == "gc") {
			ct().garbage_collector();
			done(k);
			check("gc", true);
		} else if(k == "save") {
			save();
			done(k);
			check("save", true);
		}
		if(gui && cur >= 0) ct().pin_current_timepoint();
	}
	void done(std::string const& k) {
		count(("op." + k).c_str());
		history = mix(history, fnv(k) + (u64) (cur >= 0 ? at(cur).depth : 0));
		++effective;
	}
};

Session* g_session = nullptr;

// The progress reporter of the simulated user interface: looks at the session
// while a step is running.
struct Bar final : Progress::IBar {
	void look() {
		auto* s = g_session;
		if(!s || s->allowed.empty()) return;
		auto const st = s->a->get_current_step();
		count("probe.looked_while_running");
		if((!st || !s->allowed.contains((int) *st)) && s->progress_error.empty())
			s->progress_error = fmt("while running, the current step is said to be %s", st ? step_names[(int) *st] : "none");
	}
	Bar() { look(); }
	void tick(std::size_t) override { look(); }
	void tick(std::size_t, std::size_t) override { look(); }
	void complete() override { look(); }
};

Trace generate(Rng& rng, std::string const& prop, u64) {
	Trace t;
	t.add("world session");
	doc::Options o;
	o.max_props = 3;
	o.max_prims = rng.range(1, 5);
	if(prop == "P22" || prop == "P24" || prop == "P27") { o.outlines = rng.chance(80); if(rng.chance(50)) o.max_prims = rng.range(4, 9); }
	o.extras = rng.chance(20);
	if(prop == "P25") { o.incomplete = true; o.max_props = 6; o.max_prims = rng.range(2, 14); if(rng.chance(25)) t.add(fmt("chunk %d", rng.chance(50) ? 1 + (int) rng.below(8) : 64 << rng.below(4))); }
	for(int d = 0; d < DOCS; ++d)
		if(d == 0 || rng.chance(prop == "P07" ? 80 : 25)) doc::generate(rng, t, o, d);
	if(rng.chance(50)) t.add("gui 1");
	auto flags = [&] {
		long f = 0;
		if(rng.chance(20)) f |= 1 << rng.below(3);
		if(rng.chance(10)) f |= 8;
		if(rng.chance(20)) f |= 16;
		if(rng.chance(30)) f |= 32;
		if(rng.chance(15)) f |= 64;
		return f;
	};
	auto open = [&] { t.add(fmt("open %d %ld %d", (int) rng.below(DOCS), flags(), (int) rng.below(2))); };
	t.add(fmt("open 0 %ld 0", flags()));
	//                       open bad next all from fin prev undo redo edit pin gc save
	std::vector<int> w = { 1, 1, 12, 4, 4, 5, 12, 12, 10, 12, 3, 3, 2 };
	for(auto& x : w) if(rng.chance(20)) x *= 4; else if(rng.chance(15)) x = 0;
	if(prop == "P07") { w[0] = 8; w[1] = 5; }
	if(rng.chance(60)) t.add(rng.chance(50) ? "all" : "finish");
	int const n = rng.range(4, rng.chance(20) ? 40 : 16);
	for(int i = 0; i < n; ++i) {
		switch(rng.weighted(w)) {
		case 0: open(); if(rng.chance(60)) t.add("all"); break;
		case 1: t.add(fmt("openbad %d", (int) rng.below(4))); open(); break;
		case 2: t.add("next"); break;
		case 3: t.add("all"); break;
		case 4: t.add("from"); break;
		case 5: t.add("finish"); break;
		case 6: for(int k = rng.chance(30) ? rng.range(1, 6) : 1; k > 0; --k) t.add("prev"); break;
		case 7: t.add(fmt("undo %d", rng.chance(70) ? 0 : (int) rng.below(3))); break;
		case 8: t.add(fmt("redo %d", rng.chance(70) ? 0 : (int) rng.below(3))); break;
		case 9: t.add(fmt("edit %d %d %d %d %d", (int) rng.weighted({ 6, 2, 4, 6, 5, prop == "P24" ? 12 : 3 }), (int) rng.below(40), (int) rng.below(24), (int) rng.below(24), (int) rng.below(64))); break;
		case 10: t.add("pin"); break;
		case 11: t.add("gc"); break;
		case 12: t.add("save"); break;
		}
	}
	return t;
}

void execute(Trace const& t, std::string const& prop) {
	Session s;
	s.prop = prop;
	fs::mkdir_p("/sim");
	for(int d = 0; d < DOCS; ++d) {
		fs::put(fmt("/sim/in%d.csx", d), doc::render(t, d));
		if(g_verbose) printf("document %d:\n%s\n", d, doc::render(t, d).c_str());
	}
	s.pristine.start();
	g_session = &s;
	if(prop == "P25") Logger::singleton().register_sink(Logger::id("simulator"), std::make_unique<Session::Listener>());
	Progress::singleton().register_impl_builder([](std::size_t, std::string const&) { return std::make_unique<Bar>(); });
	for(std::size_t i = 0; i < t.lines.size(); ++i) {
		auto const& l = t.lines[i];
		if(l.w.empty() || l.is("world")) continue;
		if(l.is("gui")) { s.gui = true; continue; }
		if(l.is("chunk")) { s.chunk = (int) std::labs(l.num(1)) % 4096; if(s.chunk) count("fault.short_reads"); continue; }
		if(l.is("prop") || l.is("prim") || l.w[0].starts_with("doc")) continue;
		at_step(i, l.text);
		s.op(l);
	}
	history_seen(s.history);
	if(s.effective < 4) discard("short");
	g_session = nullptr;
	finish_ok();
}

} // namespace

World const session_world { "session", generate, execute };

} // namespace sim
