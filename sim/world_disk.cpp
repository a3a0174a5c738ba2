// Disk world (P08, P09, P10, P12): whole lives of the program (open, mesh,
// edit, save) on a simulated disk, with damaged documents, failing, short and
// torn I/O, full disks, and processes killed at any I/O point of a save.
//
// Each life runs in its own forked process: only the disk survives it.
#include <cmath>
#include <cstring>
#include <memory>

#include <sys/resource.h>
#include <sys/wait.h>
#include <unistd.h>

#include "app/openemsh.hpp"
#include "domain/board.hpp"
#include "domain/mesh/meshline.hpp"
#include "domain/mesh/meshline_policy.hpp"
#include "utils/state_management.hpp"

#include "docgen.hpp"
#include "simfs.hpp"
#include "snapshot.hpp"
#include "worlds.hpp"
#include "xmlmini.hpp"

namespace sim {
namespace {

using app::OpenEMSH;
using app::Step;
using namespace domain;

//--------------------------------------------------------------------- options
enum : long { NO_YZ = 1, NO_ZX = 2, NO_XY = 4, NO_READ = 8, KEEP = 16, PARAMS = 32, POLICIES = 64, NO_LINES = 128, NO_X = 256, NO_Y = 512, NO_Z = 1024, OVERRIDE = 2048 };

struct Setup {
	long flags = 0;
	bool plantuml = false;
	std::string in = "/sim/work/model.csx";
	std::string out;
	int layout = 0;
	bool refused = false;   // A healthy save is impossible there.
	fs::Disk disk;
};

OpenEMSH::Params params_of(Setup const& s, std::string const& in, std::string const& out) {
	OpenEMSH::Params p;
	long const f = s.flags;
	p.input = in;
	p.output = out;
	p.force = true;
	p.output_format = s.plantuml ? OpenEMSH::Params::OutputFormat::PLANTUML : OpenEMSH::Params::OutputFormat::CSX;
	p.with_yz = !(f & NO_YZ);
	p.with_zx = !(f & NO_ZX);
	p.with_xy = !(f & NO_XY);
	p.read_oemsh_params = !(f & NO_READ);
	p.keep_old_mesh = f & KEEP;
	p.with_oemsh_params = f & PARAMS;
	p.with_meshline_policies = f & POLICIES;
	p.with_meshlines = !(f & NO_LINES);
	p.with_axis_x = !(f & NO_X);
	p.with_axis_y = !(f & NO_Y);
	p.with_axis_z = !(f & NO_Z);
	p.override_from_cli = [f](domain::Params& d) { if(f & OVERRIDE) { d.dmax = 3; d.lmin = 3; d.smoothness = 1.7; } };
	return p;
}

//---------------------------------------------------------------------- layout
enum { FRESH, OTHER, SAME, NO_DIR, LINK, READONLY, RO_DIR, IS_DIR, LINK_IN, DANGLING, LINK_FAR, LAYOUTS };

std::string const bystanders[] = { "out.csx.tmp", "out.csx~", ".out.csx.tmp", "out.csx.bak", "out.csx.new", "out.csx.part", "model.csx.tmp", "model.csx.bak", "model.csx~", "out.tmp", "tmp", "out.csx.0", "out.csx.tmp0", "model.csx.tmp0", "notes.txt" };

std::string const old_content = "<?xml version=\"1.0\"?>\n<openEMS><ContinuousStructure><RectilinearGrid/><!-- the previous output of the user --></ContinuousStructure></openEMS>\n";

Setup setup_of(Trace const& t) {
	Setup s;
	bool leftovers = false;
	for(auto const& l : t.lines) {
		if(l.is("opt")) { s.flags = l.num(1); s.plantuml = l.num(2); }
		else if(l.is("layout")) s.layout = (int) (std::labs(l.num(1)) % LAYOUTS);
		else if(l.is("bystanders")) leftovers = true;
	}
	fs::disk.nodes.clear();
	fs::active = false;
	fs::put(s.in, doc::render(t, 0));
	fs::put("/sim/work/other.txt", "something else\n");
	fs::put("/sim/far/kept.csx", "<kept/>\n");
	s.out = "/sim/work/out.csx";
	auto link = [](std::string const& at, std::string const& to) { fs::Inode n; n.kind = fs::Inode::LINK_; n.data = to; n.mode = 0777; fs::disk.nodes[at] = n; };
	switch(s.layout) {
	case FRESH: break;
	case OTHER: fs::put(s.out, old_content, 0640); break;
	case SAME: s.out = s.in; if(s.plantuml) s.out = "/sim/work/out.csx"; break;
	case NO_DIR: s.out = "/sim/work/missing/out.csx"; s.refused = true; break;
	case LINK: fs::put("/sim/work/target.csx", old_content); link(s.out, "target.csx"); break;
	case READONLY: fs::put(s.out, old_content, 0444); s.refused = true; break;
	case RO_DIR: fs::mkdir_p("/sim/work/ro"); fs::disk.nodes["/sim/work/ro"].mode = 0555; s.out = "/sim/work/ro/out.csx"; s.refused = true; break;
	case IS_DIR: fs::mkdir_p(s.out); s.refused = true; break;
	case LINK_IN: link("/sim/work/model-link.csx", "model.csx"); s.out = s.plantuml ? "/sim/work/out.csx" : "/sim/work/model-link.csx"; break;
	case DANGLING: link(s.out, "/sim/far/new.csx"); break;
	case LINK_FAR: fs::put("/sim/far/target.csx", old_content, 0600); link(s.out, "/sim/far/target.csx"); break;
	}
	if(leftovers)
		for(auto const& b : bystanders) {
			fs::put("/sim/work/" + b, "precious: " + b + "\n");
			fs::put("/sim/far/" + b, "precious: " + b + "\n");
		}
	s.disk = fs::disk;
	return s;
}

//----------------------------------------------------------------------- lives
struct Report {
	std::map<std::string, std::string> v;
	bool has(std::string const& k) const { return v.contains(k); }
	std::string const& get(std::string const& k) const { static std::string const e; auto it = v.find(k); return it == v.end() ? e : it->second; }
};
struct Life {
	Report r;
	fs::Disk disk;
	bool killed = false;   // By the simulator.
	int status = 0;
	bool hang() const { return WIFSIGNALED(status) && (WTERMSIG(status) == SIGKILL || WTERMSIG(status) == SIGXCPU); }
	bool crashed() const { return !hang() && (WIFSIGNALED(status) || WEXITSTATUS(status)); }
};

u64 history = 0;

void publish(Report const& r, bool killed) {
	std::string s = killed ? "1\n" : "0\n";
	s += std::to_string(r.v.size()) + "\n";
	for(auto const& [k, v] : r.v) s += fmt("%zu %zu\n", k.size(), v.size()) + k + v;
	s += fs::disk.serialise();
	if(s.size() + 8 > sizeof shm->scratch) { fprintf(stderr, "scratch is too small\n"); _exit(96); }
	u64 const n = s.size();
	std::memcpy(shm->scratch + 8, s.data(), n);
	std::memcpy(shm->scratch, &n, 8);
}

Life live(fs::Disk const& disk, std::function<void(Report&)> const& body, int cpu = 6) {
	u64 zero = 0;
	std::memcpy(shm->scratch, &zero, 8);
	Life l;
	l.status = in_child([&] {
#ifdef SIM_PLAIN
		rlimit as { 3ull << 30, 3ull << 30 };
		setrlimit(RLIMIT_AS, &as);
#endif
		fs::disk = disk;
		fs::active = false;
		Report r;
		fs::on_crash = [&r] { publish(r, true); };
		body(r);
		publish(r, false);
		_exit(0);
	}, cpu);
	count("lives");
	u64 n;
	std::memcpy(&n, shm->scratch, 8);
	if(n) {
		std::string const s(shm->scratch + 8, n);
		l.killed = s[0] == '1';
		std::size_t off = 2, e = s.find('\n', off);
		std::size_t const m = std::stoul(s.substr(off, e - off));
		off = e + 1;
		for(std::size_t i = 0; i < m; ++i) {
			std::size_t ks = 0, vs = 0;
			sscanf(s.c_str() + off, "%zu %zu", &ks, &vs);
			off = s.find('\n', off) + 1;
			l.r.v[s.substr(off, ks)] = s.substr(off + ks, vs);
			off += ks + vs;
		}
		l.disk = fs::Disk::parse(s.substr(off));
	}
	return l;
}
// A life which must not end by itself: anything else is a violation of the property under check.
void require_alive(Life const& l, char const* what) {
	if(l.hang()) fail("hang", std::string(what) + " did not finish (processor time limit)");
	if(l.crashed()) {
		// Let the outer process report it like its own.
		if(WIFSIGNALED(l.status)) { signal(WTERMSIG(l.status), SIG_DFL); raise(WTERMSIG(l.status)); }
		_exit(WEXITSTATUS(l.status) ? WEXITSTATUS(l.status) : 95);
	}
}

//------------------------------------------------------------------ operations
// What the main window does between an opening and a save.
void operate(OpenEMSH& a, Trace const& t, int life = 0) {
	auto& c = Caretaker::singleton();
	for(auto const& l : t.lines) {
		if(!l.is("do") || l.num(1) != life) continue;
		auto const& w = l.at(2);
		long const n = std::labs(l.num(3));
		if(w == "all") a.run_from_step(Step::ADJUST_EDGE_TO_MATERIAL);
		else if(w == "steps") { for(long i = 0; i < n % 16 && a.can_run_a_next_step(); ++i) a.run_next_step(); }
		else if(w == "undo") { if(c.can_undo(1)) c.undo(1); }
		else if(w == "redo") { if(c.can_redo(1)) c.redo(1); }
		else if(w == "prev") { if(a.can_go_before()) a.go_before_previous_step(); }
		else if(w == "collect") c.garbage_collector();
		else if(w == "edit") {
			a.go_before(Step::DETECT_DIAG_ZONES);
			auto const& g = a.get_board().global_params;
			domain::Params p = g->get_current_state();
			static double const dmaxs[] = { 1, 1.5, 2, 2.5, 4, 8, 1.1, 1.0 / 3 }, smooths[] = { 1.2, 1.5, 1.8, 2, 1.37 }, ds[] = { 0.5, 1, 2, 0.25, 0.1 };
			p.dmax = dmaxs[n % 8];
			p.lmin = 1 + (std::size_t) (n / 8 % 4);
			p.smoothness = smooths[n / 32 % 5];
			p.proximity_limit = ds[n / 160 % 5];
			g->set_next_state(p);
			a.run_from_step(Step::DETECT_DIAG_ZONES);
		}
		history = mix(history, fnv(l.text));
	}
}

// The lines a save is expected to hold, in full precision.
std::string lines_of(OpenEMSH const& a, long flags) {
	std::string o;
	Board const& b = a.get_board();
	for(auto ax : AllAxis) {
		if(flags & (ax == X ? NO_X : ax == Y ? NO_Y : NO_Z)) continue;
		o += fmt("%d", (int) ax);
		if(!(flags & NO_LINES)) for(auto const& m : b.get_meshlines(ax)) o += fmt(" %.17g", m->coord.value());
		if(flags & POLICIES) for(auto const& m : b.get_meshline_policies_meshlines(ax)) o += fmt(" %.17g", m->coord.value());
		o += "\n";
	}
	return o;
}

//--------------------------------------------------------------------- oracles
std::string const oemsh = "OpenEMSH";

std::vector<double> numbers(std::string const& s, std::string& err) {
	std::vector<double> v;
	if(s.empty()) return v;
	std::size_t i = 0;
	for(;;) {
		auto e = s.find(',', i);
		std::string const w = s.substr(i, e == std::string::npos ? e : e - i);
		char* end;
		double const x = std::strtod(w.c_str(), &end);
		if(w.empty() || *end) err = "not a number: \"" + w + "\"";
		v.push_back(x);
		if(e == std::string::npos) return v;
		i = e + 1;
	}
}

// "" or what is wrong with the saved file.
std::string judge_saved(std::string const& saved, std::string const& input, std::string const& lines, Setup const& s, std::string const& gp) {
	auto const out = xml::parse(saved), in = xml::parse(input);
	if(!out.complete) return "the file is not complete: " + out.error;
	auto split = [](xml::Doc const& d, std::vector<xml::Node>& rest, xml::Node const*& o) {
		o = nullptr;
		for(auto const& n : d.tops) if(n.name == oemsh) { if(!o) o = &n; } else rest.push_back(n);
	};
	std::vector<xml::Node> ro, ri;
	xml::Node const *oo, *oi;
	split(out, ro, oo);
	split(in, ri, oi);
	// The grid.
	auto find_grid = [](std::vector<xml::Node>& v) -> xml::Node* {
		for(auto& n : v) if(n.name == "ContinuousStructure") { for(auto& c : n.children) if(c.name == "RectilinearGrid") return &c; }
		for(auto& n : v) if(n.name == "openEMS") for(auto& m : n.children) if(m.name == "ContinuousStructure") for(auto& c : m.children) if(c.name == "RectilinearGrid") return &c;
		return nullptr;
	};
	auto* g = find_grid(ro);
	auto* h = find_grid(ri);
	if(!g) return "no RectilinearGrid in the saved file";
	Trace const want = Trace::parse(lines);
	char const* const names[] = { "XLines", "YLines", "ZLines" };
	std::size_t k = 0;
	for(auto const& l : want.lines) {
		auto const name = names[(std::size_t) l.num(0) % 3];
		if(k >= g->children.size() || g->children[k].name != name) return fmt("%s is missing", name);
		std::string err;
		auto const got = numbers(g->children[k].text, err);
		if(!err.empty()) return std::string(name) + " " + err;
		if(got.size() != l.w.size() - 1) return fmt("%s holds %zu lines, the mesh has %zu", name, got.size(), l.w.size() - 1);
		for(std::size_t i = 0; i < got.size(); ++i)
			if(double const x = std::strtod(l.w[i + 1].c_str(), nullptr); std::fabs(got[i] - x) > 1e-6) return fmt("%s line %zu is %.9g, the mesh has %.9g", name, i, got[i], x);
		++k;
	}
	if(g->children.size() != k) return "the grid holds axes that were not asked for";
	// The parameters.
	if(s.flags & PARAMS) {
		if(!oo) return "the parameters are missing";
		auto const* p = oo->child("GlobalParams");
		if(!p) return "the parameters are missing";
		std::string seen;
		for(char const* n : { "ProximityLimit", "Smoothness", "dmax", "lmin" }) {
			auto const* a = p->attr(n);
			if(!a) return std::string("parameter ") + n + " is missing";
			seen += fmt(" %.12g", std::strtod(a->c_str(), nullptr));
		}
		if(seen != gp) return "saved parameters are" + seen + ", current ones are" + gp;
		auto const* fo = oo->child("FixedMeshlines");
		auto const* fi = oi ? oi->child("FixedMeshlines") : nullptr;
		if((fo ? xml::canonical(*fo) : "") != (fi ? xml::canonical(*fi) : "")) return "the fixed lines changed";
	} else if(oo) return "parameters were saved";
	// All the rest.
	g->children.clear();
	if(h) h->children.clear();
	else return "";
	g->text.clear();
	h->text.clear();
	std::string a, b;
	for(auto const& n : ro) a += xml::canonical(n);
	for(auto const& n : ri) b += xml::canonical(n);
	if(a != b) return "the rest of the document changed: " + snap_diff(b, a, 3);
	return "";
}

std::string gp_of(OpenEMSH const& a) {
	auto const& p = a.get_board().global_params->get_current_state();
	return fmt(" %.12g %.12g %.12g %.12g", p.proximity_limit, p.smoothness, p.dmax, (double) p.lmin);
}

//------------------------------------------------------------------------ plans
fs::Plan plan_of(Trace const& t, char phase) { // 'o': opening, 's': save.
	static fs::Op const rops[] = { fs::Op::OPEN_R, fs::Op::READ, fs::Op::STAT };
	static fs::Op const wops[] = { fs::Op::OPEN_W, fs::Op::WRITE, fs::Op::CLOSE, fs::Op::RENAME, fs::Op::STAT, fs::Op::OPEN_R, fs::Op::READ, fs::Op::CHMOD, fs::Op::UNLINK, fs::Op::SYNC };
	static int const errs[] = { EIO, ENOSPC, EACCES, EINTR, EMFILE, ENOENT, EDQUOT, EROFS };
	fs::Plan p;
	for(auto const& l : t.lines) {
		if(l.is(phase == 'o' ? "ofault" : "sfault")) {
			fs::Fault f;
			auto const k = (std::size_t) std::labs(l.num(1));
			f.op = phase == 'o' ? rops[k % std::size(rops)] : wops[k % std::size(wops)];
			f.k = (int) (std::labs(l.num(2)) % 6);
			bool const data = f.op == fs::Op::READ || f.op == fs::Op::WRITE;
			f.what = !data ? fs::Fault::ERR : f.op == fs::Op::READ ? (l.num(3) % 2 ? fs::Fault::SHORT : fs::Fault::ERR) : std::array { fs::Fault::ERR, fs::Fault::TORN, fs::Fault::SHORT }[(std::size_t) std::labs(l.num(3)) % 3];
			f.err = errs[(std::size_t) std::labs(l.num(4)) % std::size(errs)];
			if(f.err == EINTR && !data) f.err = EIO;
			f.arg = (int) (std::labs(l.num(5)) % 100000);
			if(f.op == fs::Op::STAT) f.err = f.err == ENOENT || f.err == EROFS || f.err == ENOSPC || f.err == EDQUOT ? EIO : f.err;
			f.sticky = l.num(6) % 2;
			if((f.sticky || f.what == fs::Fault::TORN) && f.err == EINTR) f.err = EIO; // Interrupted calls transfer nothing and end.
			p.faults.push_back(f);
		} else if(l.is(phase == 'o' ? "ochunk" : "schunk")) p.chunk = 1 + (int) (std::labs(l.num(1)) % 4000);
		else if(l.is("cap") && phase == 's') p.capacity = std::labs(l.num(1)) % 20000;
	}
	return p;
}

//-------------------------------------------------------------------------- P08
char const* const odd[] = { "nan", "inf", "-inf", "-1", "1e308", "1e400", "99999999999999999999", "", "abc", "1,2", "0x10", "-0", "1e-320", "  3  " };

std::string damage(std::string s, Line const& l, bool& only_structure) {
	auto const a = (std::size_t) std::labs(l.num(2)), b = (std::size_t) std::labs(l.num(3)), c = (std::size_t) std::labs(l.num(4));
	std::size_t const n = s.size();
	if(!n) return s;
	std::size_t const at = a % n, len = std::min<std::size_t>(1 + b % 200, n - at);
	auto nth = [&](std::string const& what, std::size_t k) {
		std::vector<std::size_t> v;
		for(auto i = s.find(what); i != std::string::npos; i = s.find(what, i + 1)) v.push_back(i);
		return v.empty() ? std::string::npos : v[k % v.size()];
	};
	switch(std::labs(l.num(1)) % 13) {
	case 0: return s.substr(0, at);
	case 1: only_structure = false; s.erase(at, len); return s;
	case 2: only_structure = false; s[at] = (char) (s[at] ^ (1 << (b % 8))); return s;
	case 3: only_structure = false; s[at] = "<>&\"'/= \0\xff;!?"[b % 14]; return s;
	case 4: only_structure = false; s.insert(at, s.substr(at, len)); return s;
	case 5: for(std::size_t i = 0; i < len; ++i) s[at + i] = 0; only_structure = false; return s;
	case 6: { // An element goes.
		auto i = nth("<", a);
		if(i == std::string::npos || i + 1 >= n || s[i + 1] == '/' || s[i + 1] == '?') return s;
		auto e = s.find('>', i);
		if(e == std::string::npos) return s;
		if(s[e - 1] == '/') { s.erase(i, e + 1 - i); return s; }
		std::string const name = s.substr(i + 1, s.find_first_of(" >", i) - i - 1);
		auto x = s.find("</" + name + ">", e);
		if(x == std::string::npos) return s;
		s.erase(i, x + name.size() + 3 - i);
		return s;
	}
	case 7: { // An attribute goes.
		auto i = nth("=\"", a);
		if(i == std::string::npos) return s;
		auto b0 = s.rfind(' ', i), e = s.find('"', i + 2);
		if(b0 == std::string::npos || e == std::string::npos) return s;
		s.erase(b0, e + 1 - b0);
		return s;
	}
	case 8: { // An attribute is something else.
		auto i = nth("=\"", a);
		if(i == std::string::npos) return s;
		auto e = s.find('"', i + 2);
		only_structure = false;
		s.replace(i + 2, e - i - 2, odd[b % std::size(odd)]);
		return s;
	}
	case 9: { // A number list is something else.
		auto i = nth("Lines>", a);
		if(i == std::string::npos) return s;
		only_structure = false;
		s.insert(i + 6, std::string(odd[b % std::size(odd)]) + (c % 2 ? "," : ""));
		return s;
	}
	case 10: only_structure = false; s.insert(c % 2 ? 0 : at, std::string(b % 2 ? "\xff\xfe" : "\xef\xbb\xbf")); return s;
	case 11: { std::string d; for(std::size_t i = 0; i < 1 + b % 3000; ++i) d += "<a>"; s.insert(nth("<", a) == std::string::npos ? 0 : nth("<", a), d); return s; }
	default: { // Text where an element was expected.
		auto i = nth(">", a);
		if(i != std::string::npos) s.insert(i + 1, "stray");
		return s;
	}
	}
}

void run_p08(Trace const& t) {
	Setup s = setup_of(t);
	std::string const healthy = *fs::get(s.in);
	std::string data = healthy;
	bool only_structure = true, cut = false, meshed = false;
	int damages = 0, missing = 0;
	for(auto const& l : t.lines) {
		if(l.is("damage")) {
			std::string const before = data;
			data = damage(data, l, only_structure);
			if(data != before) {
				++damages;
				count(fmt("fault.damage_%ld", std::labs(l.num(1)) % 13).c_str());
				cut = std::labs(l.num(1)) % 13 == 0;
			}
			history = mix(history, fnv(fmt("damage %ld", std::labs(l.num(1)) % 13)));
		} else if(l.is("noin")) missing = 1 + (int) (std::labs(l.num(1)) % 5);
		else if(l.is("use")) meshed = true;
	}
	fs::disk = s.disk;
	fs::put(s.in, data);
	std::string in = s.in;
	switch(missing) {
	case 1: in = "/sim/work/absent.csx"; break;
	case 2: in = "/sim/work"; break;
	case 3: fs::disk.nodes[s.in].mode = 0000; break;
	case 4: in = "/sim/nowhere/absent.csx"; break;
	case 5: { fs::Inode n; n.kind = fs::Inode::LINK_; n.data = "loop.csx"; fs::disk.nodes["/sim/work/loop.csx"] = n; in = "/sim/work/loop.csx"; } break;
	}
	if(missing) { count(fmt("fault.input_kind_%d", missing).c_str()); history = mix(history, (u64) missing); }
	fs::Disk const d = fs::disk;
	fs::Plan const plan = plan_of(t, 'o');
	auto open = [&](fs::Plan const& p, bool use) {
		return [&, p, use](Report& r) {
			OpenEMSH a(params_of(s, in, "/sim/work/out.csx"));
			fs::start_life(p);
			auto const res = a.parse();
			r.v["fired"] = std::to_string(fs::read_faults);
			fs::end_life();
			if(!res) { r.v["error"] = res.error().empty() ? "(nothing)" : res.error(); return; }
			r.v["snap"] = snapshot(a).text;
			r.v["opened"] = "1";
			publish(r, false);
			if(!use) return;
			a.run_all_steps();
			auto const w = a.write();
			r.v["saved"] = w ? "1" : w.error();
		};
	};
	at_step(0, "open with faults");
	Life const x = live(d, open(plan, false));
	require_alive(x, "opening");
	event("opened " + x.r.get("opened") + " error " + x.r.get("error"));
	bool const ok = x.r.has("opened");
	count(ok ? "probe.opened" : "probe.refused");
	bool const reading_failed = x.r.get("fired") != "0" && !x.r.get("fired").empty();
	if(ok && missing) fail("opened-nothing", "a file which cannot be read was opened");
	if(ok && damages == 1 && cut && !xml::parse(data).complete)
		fail("cut-taken-for-complete", fmt("a file cut at byte %zu of %zu (%s) was opened as if it was complete", data.size(), healthy.size(), xml::parse(data).error.c_str()));
	at_step(1, "open the same file from a healthy disk");
	Life const y = live(d, open({}, meshed && damages <= 1 && only_structure));
	if(!y.r.has("opened") && !y.r.has("error")) require_alive(y, "opening");
	if(only_structure && damages <= 1) {
		if(y.crashed()) require_alive(y, "meshing an opened project");
		if(y.hang()) fail("hang", "meshing an opened project did not finish (processor time limit)");
		if(y.r.has("saved") && y.r.get("saved") != "1") fail("unusable", "the opened project cannot be saved: " + y.r.get("saved"));
	}
	if(ok != y.r.has("opened") && ok) fail("failed-read-taken-for-complete", "opened under I/O faults although the file itself is refused: " + y.r.get("error"));
	if(ok && x.r.get("snap") != y.r.get("snap")) fail("failed-read-taken-for-complete", "the project opened under I/O faults is another one: " + snap_diff(y.r.get("snap"), x.r.get("snap")));
	if(!ok && y.r.has("opened") && !reading_failed) {
		// Only faults of other kinds (stat) may explain it.
		bool stat = false;
		for(auto const& f : plan.faults) stat |= f.op == fs::Op::STAT;
		if(!stat) fail("short-read-refused", "refused although every read succeeded (some were short): " + x.r.get("error"));
	}
	if(!ok && x.r.get("error") == "(nothing)") fail("unexplained", "refused without any explanation");
	if(damages == 0 && !missing && !y.r.has("opened")) fail("healthy-refused", "a healthy file is refused: " + y.r.get("error"));
	state_seen(fnv(x.r.get("snap") + x.r.get("error")));
	history_seen(mix(history, shm->result.hash));
	finish_ok();
}

//---------------------------------------------------------------------- P09, P10
// One whole life: open, work, save.
std::function<void(Report&)> session(Trace const& t, Setup const& s, fs::Plan const& plan, bool twice, bool note_points = false) {
	return [&t, s, plan, twice, note_points](Report& r) {
		fs::record_points = note_points;
		OpenEMSH a(params_of(s, s.in, s.out));
		fs::start_life({});
		auto const res = a.parse();
		if(!res) { r.v["error"] = res.error(); return; }
		operate(a, t);
		r.v["lines"] = lines_of(a, s.flags);
		r.v["gp"] = gp_of(a);
		fs::end_life();
		auto const* in = fs::get(s.in);
		r.v["input"] = in ? *in : "";
		fs::start_life(plan);
		auto const w = a.write();
		fs::active = false;
		r.v["points"] = std::to_string(fs::points);
		r.v["fired"] = std::to_string(fs::fired);
		r.v["saved"] = w ? "1" : "0";
		std::string closed;
		for(auto const& f : fs::plan.faults) if(f.fired && f.op == fs::Op::CLOSE) closed = "1";
		r.v["close"] = closed;
		if(!w) r.v["why"] = w.error().empty() ? "(nothing)" : w.error();
		event(std::string("saved ") + (w ? "1" : "0 " + w.error()));
		if(!twice) return;
		r.v["image"] = fs::disk.serialise();
		auto const* in2 = fs::get(s.in);
		r.v["input2"] = in2 ? *in2 : "";
		fs::start_life({});
		auto const w2 = a.write();
		fs::active = false;
		r.v["saved2"] = w2 ? "1" : "0";
		if(!w2) r.v["why2"] = w2.error();
	};
}

std::string content(fs::Disk const& d, std::string const& path, bool& there) {
	fs::disk = d;
	auto const* c = fs::get(path);
	there = c;
	return c ? *c : "";
}

std::string judge(std::string const& saved, std::string const& input, Report const& r, Setup const& s) {
	if(!s.plantuml) return judge_saved(saved, input, r.get("lines"), s, r.get("gp"));
	if(saved.rfind("@startuml", 0) != 0) return "does not start with @startuml";
	if(saved.find("@enduml") == std::string::npos) return "no @enduml";
	return "";
}

void run_p09(Trace const& t) {
	Setup s = setup_of(t);
	fs::Plan const plan = plan_of(t, 's');
	at_step(0, "open, work, save with faults, save again");
	Life const x = live(s.disk, session(t, s, plan, true, true), 10);
	if(x.hang() && !x.r.has("saved")) discard("meshing takes too long");
	require_alive(x, "saving");
	if(!x.r.has("saved")) discard("not opened");
	history = mix(history, (u64) s.layout * 64 + (u64) s.plantuml);
	fs::Disk const image = fs::Disk::parse(x.r.get("image"));
	bool const ok = x.r.get("saved") == "1";
	int const fired = std::atoi(x.r.get("fired").c_str());
	count(ok ? (fired ? "probe.saved_despite_faults" : "probe.saved") : (fired ? "probe.failed_by_fault" : "probe.failed_by_layout"));
	bool there = false, there2 = false;
	std::string const saved = content(image, s.out, there);
	if(ok) {
		if(s.refused && s.layout != RO_DIR) fail("impossible-save-reported", "saving to a place that cannot be written was reported as a success");
		if(!there) fail("reported-but-absent", "the save was reported as a success, there is no output file");
		if(auto e = judge(saved, x.r.get("input"), x.r, s); !e.empty()) fail("reported-but-wrong", "the save was reported as a success, but " + e);
		if(!x.r.get("close").empty()) fail("close-error-ignored", "the output file could not be finished (close failed), the save was reported as a success");
	} else {
		if(!fired && !s.refused) fail("healthy-save-failed", "nothing failed, the save was reported as failed: " + x.r.get("why"));
		if(x.r.get("why") == "(nothing)") fail("unexplained", "the save failed without any explanation");
	}
	// The program kept running: the same save on a healthy disk.
	bool const ok2 = x.r.get("saved2") == "1";
	std::string const again = content(x.disk, s.out, there2);
	if(!s.refused && x.r.get("input2") == x.r.get("input") && !ok2) fail("no-save-after-failure", "once faults stopped, saving again failed: " + x.r.get("why2"));
	if(ok2) {
		if(!there2) fail("reported-but-absent", "saving again was reported as a success, there is no output file");
		if(auto e = judge(again, x.r.get("input2"), x.r, s); !e.empty()) fail("reported-but-wrong", "saving again was reported as a success, but " + e);
		if(s.plantuml && ok && again != saved) fail("reported-but-wrong", "the save was reported as a success, but the file is not the complete one: " + snap_diff(again, saved, 3));
	}
	state_seen(fnv(saved) ^ (u64) ok);
	history_seen(mix(history, shm->result.hash));
	finish_ok();
}

void run_p10(Trace const& t) {
	Setup s = setup_of(t);
	at_step(0, "the save, undisturbed");
	Life const ref = live(s.disk, session(t, s, {}, false), 10);
	if(ref.hang()) discard("meshing takes too long");
	if(ref.crashed()) discard("the undisturbed life crashes");
	if(!ref.r.has("saved")) discard("not opened");
	bool had = false, has = false;
	std::string const before = content(s.disk, s.out, had), after = content(ref.disk, s.out, has);
	bool const possible = ref.r.get("saved") == "1" && has;
	int const points = std::max(1, std::atoi(ref.r.get("points").c_str()));

	fs::Plan plan = plan_of(t, 's');
	bool crash = false;
	for(auto const& l : t.lines) if(l.is("crash")) {
		crash = true;
		plan.crash_at = 1 + std::labs(l.num(1)) % points;
		plan.crash_arg = (int) (std::labs(l.num(2)) % 100000);
	}
	at_step(1, "the save, disturbed");
	Life const x = live(s.disk, session(t, s, plan, false, true), 10);
	if(!x.killed) require_alive(x, "saving");
	if(x.killed) count("probe.killed_in_save");
	bool there = false;
	std::string const now = content(x.disk, s.out, there);
	bool const is_old = there == had && now == before, is_new = possible && there && now == after;
	history = mix(history, (u64) s.layout * 64 + (u64) s.plantuml * 8 + (u64) x.killed * 4 + (u64) is_old * 2 + (u64) is_new);
	auto const how = x.killed ? fmt("killed at I/O point %ld of %d of the save", plan.crash_at, points) : std::string("after a save that ") + (x.r.get("saved") == "1" ? "succeeded" : "failed: " + x.r.get("why"));
	if(!is_old && !is_new)
		fail("output-destroyed", how + fmt(", the output holds %s (%zu bytes; previously %zu, complete result %zu)", there ? "neither its previous content nor the complete result" : "nothing any more", now.size(), before.size(), after.size()));
	if(!x.killed && x.r.get("saved") == "1" && !is_new) fail("success-without-result", how + ", the output is not the new content");
	// Nothing else.
	fs::disk = s.disk;
	std::string const target = fs::resolve(s.out);
	for(auto const& [p, n] : s.disk.nodes) {
		if(p == target && n.kind != fs::Inode::DIR_) continue;
		auto it = x.disk.nodes.find(p);
		if(it == x.disk.nodes.end()) fail("other-file-lost", how + ", " + p + " is gone");
		if(it->second.kind != n.kind || it->second.data != n.data) fail("other-file-changed", how + ", " + p + " changed");
		if(it->second.mode != n.mode) fail("other-file-changed", how + ", the permissions of " + p + " changed");
	}
	// A restart.
	at_step(2, "the same save after a restart");
	Life const z = live(x.disk, session(t, s, {}, false), 10);
	if(z.hang()) discard("meshing takes too long after the restart");
	require_alive(z, "saving after a restart");
	if(!z.r.has("saved")) fail("no-restart", how + ", the input cannot be opened again: " + z.r.get("error"));
	if(possible) {
		if(z.r.get("saved") != "1") fail("no-restart", how + ", saving again after a restart fails: " + z.r.get("why"));
		bool t3 = false;
		std::string const third = content(z.disk, s.out, t3);
		fs::disk = s.disk;
		bool const in_place = fs::resolve(s.in) == target;
		if(!(in_place && !is_old) && third != after) fail("no-restart", how + ", saving again after a restart gives another file: " + snap_diff(after, third, 3));
		if(auto e = judge(third, z.r.get("input"), z.r, s); !e.empty()) fail("no-restart", how + ", saving again after a restart: " + e);
	}
	if(crash && !x.killed) count("probe.crash_not_reached");
	state_seen(fnv(x.disk.serialise()));
	history_seen(mix(history, shm->result.hash));
	finish_ok();
}

//-------------------------------------------------------------------------- P12
std::string drop_params(std::string const& snap) { // Old grid presence legitimately differs.
	std::string o;
	std::size_t i = 0;
	while(i < snap.size()) {
		auto e = snap.find('\n', i);
		std::string l = snap.substr(i, e - i);
		if(l.rfind("params", 0) != 0) o += l + "\n";
		i = e + 1;
	}
	return o;
}

// Opens, works, saves to out; notes the project right after opening, its parameters and its mesh.
std::function<void(Report&)> chain_life(Trace const& t, Setup const& s, std::string const& in, std::string const& out, int number, fs::Plan const& plan) {
	return [&t, s, in, out, number, plan](Report& r) {
		fs::record_points = false;
		OpenEMSH a(params_of(s, in, out));
		fs::start_life(plan);
		auto const res = a.parse();
		fs::active = false;
		if(!res) { r.v["error"] = res.error(); return; }
		r.v["structure"] = drop_params(snapshot(a).text);
		r.v["opened_gp"] = gp_of(a);
		if(number) {
			// What is kept of the old mesh: what the same file fixes with and without it.
			auto fixed = [](OpenEMSH& a) {
				a.run({ Step::ADD_FIXED_MLP });
				std::string f;
				for(auto ax : AllAxis) {
					f += fmt("%d", (int) ax);
					std::vector<double> v;
					for(auto const& p : a.get_board().get_meshline_policies(ax)) v.push_back(p->coord.value());
					std::sort(v.begin(), v.end());
					v.erase(std::unique(v.begin(), v.end()), v.end());
					for(double x : v) f += fmt(" %.17g", x);
					f += "\n";
				}
				return f;
			};
			auto const f = fixed(a);
			auto other = params_of(s, in, out);
			other.keep_old_mesh = false;
			OpenEMSH b(other);
			fs::start_life({});
			auto const res = b.parse();
			fs::active = false;
			if(!res) { r.v["error"] = "without the old mesh: " + res.error(); return; }
			r.v["fixed_without"] = fixed(b);
			r.v["fixed"] = f;
			if(auto again = a.parse(); !again) { r.v["error"] = again.error(); return; }
		}
		if(number) a.run_all_steps();
		else operate(a, t);
		r.v["gp"] = gp_of(a);
		r.v["lines"] = lines_of(a, s.flags);
		r.v["mesh"] = lines_of(a, 0);
		r.v["current_params"] = snapshot(a).text.substr(0, snapshot(a).text.find('\n'));
		auto const* i = fs::get(in);
		r.v["input"] = i ? *i : "";
		fs::start_life(plan);
		auto const w = a.write();
		fs::active = false;
		r.v["saved"] = w ? "1" : "0";
		if(!w) r.v["why"] = w.error();
	};
}

void run_p12(Trace const& t) {
	Setup s = setup_of(t);
	s.plantuml = false;
	fs::Plan plan;
	plan.chunk = plan_of(t, 's').chunk;
	int lives = 2;
	bool same = false;
	for(auto const& l : t.lines) {
		if(l.is("lives")) lives = 2 + (int) (std::labs(l.num(1)) % 3);
		if(l.is("inplace")) same = true;
	}
	bool edited = false;
	for(auto const& l : t.lines) if(l.is("do") && l.at(2) == "edit") edited = true;
	std::string in = s.in;
	fs::Disk d = s.disk;
	Life prev;
	std::string prev_file;
	for(int i = 0; i < lives; ++i) {
		std::string const out = same ? s.in : fmt("/sim/work/gen%d.csx", i);
		at_step((std::size_t) i, fmt("life %d: %s -> %s", i, in.c_str(), out.c_str()));
		Life const x = live(d, chain_life(t, s, in, out, i, plan), 10);
		if(x.hang()) discard("meshing takes too long");
		require_alive(x, "a life of the program");
		if(!x.r.has("saved")) {
			if(i == 0) discard("not opened");
			fail("cannot-reopen", "the saved file cannot be opened: " + x.r.get("error"));
		}
		if(x.r.get("saved") != "1") fail("cannot-save", "saving failed: " + x.r.get("why"));
		bool there = false;
		std::string const file = content(x.disk, out, there);
		if(auto e = judge_saved(file, x.r.get("input"), x.r.get("lines"), s, x.r.get("gp")); !e.empty()) fail("saved-wrong", "life " + std::to_string(i) + ": " + e);
		event(fmt("life %d file %016llx", i, (unsigned long long) fnv(file)));
		if(i) {
			count("probe.reopened");
			if(x.r.get("structure") != prev.r.get("structure")) fail("structure-lost", "reopened: " + snap_diff(prev.r.get("structure"), x.r.get("structure")));
			bool const all_lines = !(s.flags & (NO_X | NO_Y | NO_Z | NO_LINES | POLICIES));
			bool const params_kept = (s.flags & PARAMS) && !(s.flags & NO_READ);
			if(params_kept) {
				bool const overridden = s.flags & OVERRIDE;
				if(!overridden && x.r.get("opened_gp") != prev.r.get("gp")) fail("params-lost", "parameters were" + prev.r.get("gp") + ", reopened:" + x.r.get("opened_gp"));
				if(!(s.flags & KEEP) && !(overridden && edited && i == 1) && x.r.get("mesh") != prev.r.get("mesh") && prev.r.get("full") != "no") {
					bool complete = i > 1;
					for(auto const& l : t.lines) if(l.is("do")) complete = l.at(2) == "all" || l.at(2) == "edit" ? true : false;
					if(i > 1 || complete) fail("mesh-lost", "the reopened project meshes differently: " + snap_diff(prev.r.get("mesh"), x.r.get("mesh"), 3));
				}
			}
			if((s.flags & KEEP) && all_lines) {
				// Exactly the lines of the file, as fixed policies (with the fixed lines of the input).
				Trace const f = Trace::parse(x.r.get("fixed"));
				Trace const g = Trace::parse(x.r.get("fixed_without"));
				auto const doc = xml::parse(prev_file);
				xml::Node const* csx = nullptr;
				for(auto const& n : doc.tops) {
					if(n.name == "ContinuousStructure") csx = &n;
					if(n.name == "openEMS") for(auto const& m : n.children) if(m.name == "ContinuousStructure") csx = &m;
				}
				char const* const names[] = { "XLines", "YLines", "ZLines" };
				for(std::size_t ax = 0; ax < 3 && csx; ++ax) {
					std::string err;
					auto want = numbers(csx->child("RectilinearGrid")->child(names[ax])->text, err);
					if(ax < g.lines.size()) for(std::size_t k = 1; k < g.lines[ax].w.size(); ++k) want.push_back(std::strtod(g.lines[ax].w[k].c_str(), nullptr));
					std::sort(want.begin(), want.end());
					want.erase(std::unique(want.begin(), want.end()), want.end());
					std::string w = fmt("%zu", ax);
					for(double v : want) w += fmt(" %.17g", v);
					if(ax < f.lines.size() && f.lines[ax].text != w) fail("old-mesh-lost", "kept lines are " + f.lines[ax].text + ", the file holds " + w);
					count("probe.kept_mesh");
				}
			}
			if(i > 1 && !(s.flags & KEEP) && (params_kept || !(s.flags & PARAMS)) && file != prev_file) fail("not-stable", "meshing and saving the saved file again gives another file: " + snap_diff(prev_file, file, 3));
		}
		history = mix(history, fnv(x.r.get("gp")));
		state_seen(fnv(file));
		prev = x;
		prev_file = file;
		in = out;
		d = x.disk;
	}
	history_seen(mix(history, (u64) s.flags));
	finish_ok();
}

//------------------------------------------------------------------- generation
Trace generate(Rng& rng, std::string const& prop, u64) {
	Trace t;
	t.add("world disk");
	doc::Options o;
	o.extras = rng.chance(60);
	o.degenerate = prop == "P08" && rng.chance(50);
	o.max_prims = rng.chance(70) ? 3 : 6;
	doc::generate(rng, t, o, 0);
	long f = 0;
	auto bit = [&](long b, int p) { if(rng.chance(p)) f |= b; };
	bit(NO_YZ, 6); bit(NO_ZX, 6); bit(NO_XY, 6); bit(NO_READ, 20); bit(KEEP, prop == "P12" ? 35 : 15); bit(PARAMS, prop == "P12" ? 65 : 35);
	bit(POLICIES, 15); bit(NO_LINES, 8); bit(NO_X, 8); bit(NO_Y, 8); bit(NO_Z, 8); bit(OVERRIDE, 15);
	bool const uml = (prop == "P09" || prop == "P10") && rng.chance(25);
	t.add(fmt("opt %ld %d", f, uml));
	if(prop == "P09" || prop == "P10") {
		t.add(fmt("layout %d", (int) rng.weighted({ 6, 8, 10, prop == "P09" ? 2 : 0, 4, prop == "P09" ? 2 : 1, 1, prop == "P09" ? 2 : 0, 4, 2, 3 })));
		if(rng.chance(50)) t.add("bystanders");
	}
	if(prop == "P08") {
		if(rng.chance(50)) t.add("use");
		if(rng.chance(8)) t.add(fmt("noin %d", (int) rng.below(5)));
		if(rng.chance(85)) {
			int const n = rng.chance(75) ? 1 : rng.range(2, 5);
			for(int i = 0; i < n; ++i) t.add(fmt("damage %d %d %d %d", (int) rng.weighted({ 6, 2, 3, 2, 2, 2, 6, 6, 4, 3, 1, 1, 2 }), (int) rng.below(1000000), (int) rng.below(100000), (int) rng.below(100)));
		}
		if(rng.chance(40)) {
			int const n = rng.range(1, 2);
			for(int i = 0; i < n; ++i) t.add(fmt("ofault %d %d %d %d %d %d", (int) rng.weighted({ 3, 8, 2 }), (int) rng.weighted({ 8, 3, 2, 1, 1, 1 }), (int) rng.below(2), (int) rng.below(8), (int) rng.below(5000), (int) rng.below(2)));
		}
		if(rng.chance(25)) t.add(fmt("ochunk %d", (int) rng.below(rng.chance(30) ? 40 : 4000)));
		return t;
	}
	// Work.
	if(prop == "P12") {
		int n = rng.range(1, 3);
		t.add("do 0 all 0");
		while(n-- > 0) if(rng.chance(60)) t.add(fmt("do 0 edit %d", (int) rng.below(800)));
		if(rng.chance(15)) t.add("do 0 undo 0");
		if(rng.chance(10)) t.add("do 0 redo 0");
		if(rng.chance(30)) t.add(fmt("schunk %d", (int) rng.below(4000)));
		if(rng.chance(40)) t.add("inplace");
		t.add(fmt("lives %d", rng.range(0, 2)));
		return t;
	}
	if(rng.chance(10)) {}
	else if(rng.chance(55)) t.add("do 0 all 0");
	else t.add(fmt("do 0 steps %d", rng.range(1, 15)));
	int n = rng.range(0, 3);
	while(n-- > 0) {
		static char const* const w[] = { "edit", "undo", "redo", "prev", "collect", "steps" };
		t.add(fmt("do 0 %s %d", w[rng.weighted({ 5, 3, 2, 2, 2, 2 })], (int) rng.below(800)));
	}
	bool const crash = prop == "P10" && rng.chance(65);
	if(crash) t.add(fmt("crash %d %d", (int) rng.below(100000), (int) rng.below(60000)));
	if(!crash || rng.chance(20)) {
		int m = crash ? 1 : rng.range(prop == "P09" ? 0 : 1, 2);
		while(m-- > 0)
			t.add(fmt("sfault %d %d %d %d %d %d", (int) rng.weighted({ 4, 10, 5, 3, 2, 2, 3, 1, 1, 1 }), (int) rng.weighted({ 8, 4, 2, 1, 1, 1 }), (int) rng.below(3), (int) rng.below(8), (int) rng.below(5000), (int) rng.below(2)));
		if(rng.chance(20)) t.add(fmt("cap %d", (int) rng.below(rng.chance(50) ? 3000 : 20000)));
	}
	if(rng.chance(30)) t.add(fmt("schunk %d", (int) rng.below(rng.chance(40) ? 60 : 4000)));
	return t;
}

void execute(Trace const& t, std::string const& prop) {
	history = fnv(prop);
	for(std::size_t i = 0; i < t.lines.size(); ++i) count("steps");
	if(prop == "P08") run_p08(t);
	if(prop == "P09") run_p09(t);
	if(prop == "P10") run_p10(t);
	if(prop == "P12") run_p12(t);
}

} // namespace

World const disk_world { "disk", generate, execute };

} // namespace sim
