// Command line world (P11): the real main() and option parser, run as whole
// processes on a simulated disk with simulated standard streams.
//
// Each command runs in its own forked process; only the disk survives it.
// What it should have done comes from another process which uses the library
// directly, with parameters filled in by this file's own reading of the
// documented options, on a healthy disk.
#include <algorithm>
#include <cstring>
#include <iostream>
#include <memory>
#include <sstream>
#include <streambuf>

#include <cerrno>
#include <sys/resource.h>
#include <sys/wait.h>
#include <unistd.h>

#include "app/openemsh.hpp"
#include "infra/serializers/serializer_to_plantuml.hpp"
#include "infra/serializers/serializer_to_prettyprint.hpp"

#include "docgen.hpp"
#include "simfs.hpp"
#include "worlds.hpp"

int openemsh_main(int argc, char** argv);

namespace sim {

int windows_opened = 0;

namespace {

using app::OpenEMSH;
using Format = OpenEMSH::Params::OutputFormat;

//------------------------------------------------------------- standard streams
struct Stream final : std::streambuf {
	std::string text;
	long budget = -1;
	bool broken = false;
	bool take(std::size_t n) {
		if(budget >= 0 && (budget -= (long) n) < 0) { budget = 0; broken = true; }
		return !broken;
	}
	int_type overflow(int_type c) override {
		if(!take(1)) return traits_type::eof();
		text += traits_type::to_char_type(c);
		return c;
	}
	std::streamsize xsputn(char const* s, std::streamsize n) override {
		if(!take((std::size_t) n)) return 0;
		text.append(s, (std::size_t) n);
		return n;
	}
	int sync() override { return broken ? -1 : 0; }
};

//-------------------------------------------------------------------- a process
struct Outcome {
	int status = 0;
	bool published = false;
	int windows = 0, read_faults = 0, write_faults = 0;
	bool err_broken = false;
	std::string out, err, extra;
	fs::Disk disk;
	bool exited() const { return WIFEXITED(status); }
	int code() const { return WEXITSTATUS(status); }
};

Stream* g_out;
Stream* g_err;
std::string* g_extra;

void publish(int, void*) {
	std::string s = fmt("%d %d %d %d %zu %zu %zu\n", windows_opened, fs::read_faults, fs::write_faults, g_err->broken, g_out->text.size(), g_err->text.size(), g_extra->size());
	s += g_out->text + g_err->text + *g_extra;
	fs::active = false;
	s += fs::disk.serialise();
	if(s.size() + 8 > sizeof shm->scratch) { fprintf(stderr, "scratch is too small\n"); _exit(96); }
	u64 const n = s.size();
	std::memcpy(shm->scratch + 8, s.data(), n);
	std::memcpy(shm->scratch, &n, 8);
}

Outcome process(fs::Disk const& disk, fs::Plan const& plan, long err_budget, std::function<int()> const& body) {
	u64 zero = 0;
	std::memcpy(shm->scratch, &zero, 8);
	Outcome o;
	o.status = in_child([&] {
#ifdef SIM_PLAIN
		rlimit as { 3ull << 30, 3ull << 30 };
		setrlimit(RLIMIT_AS, &as);
#endif
		fs::disk = disk;
		g_out = new Stream;
		g_err = new Stream;
		g_extra = new std::string;
		g_err->budget = err_budget;
		std::cout.rdbuf(g_out);
		std::cerr.rdbuf(g_err);
		on_exit(publish, nullptr);
		fs::start_life(plan);
		int const rc = body();
		std::exit(rc);
	}, 8);
	count("lives");
	u64 n;
	std::memcpy(&n, shm->scratch, 8);
	if(n) {
		std::string const s(shm->scratch + 8, n);
		std::size_t a = 0, b = 0, c = 0;
		int broken = 0;
		sscanf(s.c_str(), "%d %d %d %d %zu %zu %zu", &o.windows, &o.read_faults, &o.write_faults, &broken, &a, &b, &c);
		o.err_broken = broken;
		std::size_t off = s.find('\n') + 1;
		o.out = s.substr(off, a); off += a;
		o.err = s.substr(off, b); off += b;
		o.extra = s.substr(off, c); off += c;
		o.disk = fs::Disk::parse(s.substr(off));
		o.published = true;
	}
	return o;
}

//--------------------------------------------------------------------- the disk
char const* const inputs[] = { "/sim/work/model.csx", "/sim/work/model.csx", "/sim/work/model.csx", "/sim/work/second.csx", "/sim/work/cut.csx", "/sim/work/missing.csx", "/sim/work/adir", "/sim/work/secret.csx", "/sim/work/out.csx", "/sim/work/text.txt", "/sim/work/model-link.csx", "/sim/work/../work/model.csx" };
struct Out { char const* path; bool writable; };
Out const outputs[] = {
	{ "/sim/work/out.csx", true }, { "/sim/work/out.csx", true }, { "/sim/work/out.csx", true },
	{ "/sim/work/old.csx", true }, { "/sim/work/old.csx", true },
	{ "/sim/work/model.csx", true }, { "/sim/work/second.csx", true },
	{ "/sim/work/link.csx", true }, { "/sim/work/dangling.csx", true },
	{ "/sim/work/readonly.csx", false }, { "/sim/work/rodir/new.csx", false }, { "/sim/work/rodir/old.csx", false },
	{ "/sim/work/adir", false }, { "/sim/work/nodir/new.csx", false }, { "/sim/work/loop.csx", false },
	{ "/sim/work/empty.csx", true }, { "/sim/work/./old.csx", true }, { "/sim/work/model-link.csx", true },
	{ "/sim/work/notdir/x/old.csx", false },
};

void lay_out(Trace const& t) {
	fs::disk.nodes.clear();
	fs::active = false;
	auto link = [](std::string const& at, std::string const& to) { fs::Inode n; n.kind = fs::Inode::LINK_; n.data = to; n.mode = 0777; fs::disk.nodes[at] = n; };
	auto const doc0 = doc::render(t, 0);
	fs::put("/sim/work/model.csx", doc0);
	fs::put("/sim/work/second.csx", doc::render(t, 1));
	fs::put("/sim/work/cut.csx", doc0.substr(0, doc0.size() * 2 / 3));
	fs::put("/sim/work/secret.csx", doc0, 0000);
	fs::put("/sim/work/text.txt", "not a model\n");
	fs::put("/sim/work/old.csx", "<?xml version=\"1.0\"?><openEMS><ContinuousStructure><RectilinearGrid/></ContinuousStructure></openEMS>\n");
	fs::put("/sim/work/linked.csx", "what the link refers to\n");
	fs::put("/sim/work/empty.csx", "");
	link("/sim/work/link.csx", "linked.csx");
	link("/sim/work/model-link.csx", "model.csx");
	link("/sim/work/dangling.csx", "/sim/far/new.csx");
	link("/sim/work/loop.csx", "loop.csx");
	fs::put("/sim/work/readonly.csx", "do not touch\n", 0444);
	fs::mkdir_p("/sim/work/adir");
	fs::mkdir_p("/sim/far");
	fs::put("/sim/work/rodir/old.csx", "in a read only folder\n");
	fs::disk.nodes["/sim/work/rodir"].mode = 0555;
	fs::put("/sim/work/notdir", "a file\n");
}

// The file a path ends at, symbolic links followed; "" when there is none.
std::string real_file(fs::Disk const& d, std::string path, int depth = 0) {
	if(depth > 8) return "";
	// Normalise.
	std::vector<std::string> parts;
	std::stringstream ss(path);
	std::string p;
	while(std::getline(ss, p, '/')) {
		if(p.empty() || p == ".") continue;
		if(p == "..") { if(!parts.empty()) parts.pop_back(); continue; }
		parts.push_back(p);
	}
	path.clear();
	for(auto const& x : parts) path += "/" + x;
	auto it = d.nodes.find(path);
	if(it == d.nodes.end()) return path;
	if(it->second.kind != fs::Inode::LINK_) return path;
	std::string to = it->second.data;
	if(to[0] != '/') to = path.substr(0, path.rfind('/') + 1) + to;
	return real_file(d, to, depth + 1);
}

//------------------------------------------------------------------ the command
struct Command {
	std::vector<std::string> argv { "openemsh" };
	OpenEMSH::Params p;
	std::vector<std::function<void(domain::Params&)>> overrides;
	bool valid = true;      // As far as the words go.
	bool help = false, version = false;
	std::string help_kind;
	bool has_input = false, has_output = false;
	bool out_writable = true;
	fs::Plan plan;
	long err_budget = -1;
	std::set<std::string> used;
	std::vector<std::pair<domain::Axis, double>> fixed;
	std::string kinds;
};

char const* const doubles[] = { "1", "2.5", "0.5", "4", "1e1", "0.25" };
// What is wrong whatever the option, and what is no number.
char const* const bad_doubles[] = { "abc", "x1", "1,5", "1.5mm" };

struct Opt { char const* name; int kind; };

void add_arg(Command& c, Line const& l) {
	auto const k = std::labs(l.num(1)) % 30;
	auto const a = (std::size_t) std::labs(l.num(2)), b = (std::size_t) std::labs(l.num(3));
	auto& v = c.argv;
	auto once = [&](char const* key) { return c.used.insert(key).second; };
	auto valued = [&](std::string const& name, std::string const& value) {
		if(b % 2) v.push_back(name + "=" + value);
		else { v.push_back(name); v.push_back(value); }
	};
	auto flag = [&](char const* n, auto&& f) { if(once(n)) { v.push_back(n); f(); } };
	c.kinds += fmt("%ld.", k);
	switch(k) {
	case 0: case 1: { // Input.
		if(!once("input")) return;
		std::string const in = inputs[a % std::size(inputs)];
		switch(b % 4) {
		case 0: v.insert(v.begin() + 1, in); break; // Options which take several values come after it.
		case 1: v.push_back("-i"); v.push_back(in); break;
		case 2: v.push_back("--input=" + in); break;
		default: v.push_back("--input"); v.push_back(in); break;
		}
		c.p.input = in;
		c.has_input = true;
		break;
	}
	case 2: case 3: { // Output.
		if(!once("output")) return;
		auto const& o = outputs[a % std::size(outputs)];
		switch(b % 3) {
		case 0: v.push_back("-o"); v.push_back(o.path); break;
		case 1: v.push_back(std::string("--output=") + o.path); break;
		default: v.push_back("--output"); v.push_back(o.path); break;
		}
		c.p.output = o.path;
		c.has_output = true;
		c.out_writable = o.writable;
		break;
	}
	case 4: if(once("force")) { v.push_back(a % 2 ? "-f" : "--force"); c.p.force = true; } break;
	case 5: if(once("verbose")) { v.push_back(a % 2 ? "-v" : "--verbose"); c.p.verbose = true; } break;
	case 6: {
		if(!once("format")) return;
		static char const* const names[] = { "csx", "plantuml", "prettyprint", "CSX", "PlantUML", "PRETTYPRINT", "pdf", "" };
		static Format const f[] = { Format::CSX, Format::PLANTUML, Format::PRETTYPRINT };
		auto const i = a % 8;
		if(i >= 6) { c.valid = false; v.push_back("--output-format"); v.push_back(names[6]); }
		else { valued("--output-format", names[i]); c.p.output_format = f[i % 3]; }
		break;
	}
	case 7: flag("--no-yz", [&] { c.p.with_yz = false; }); break;
	case 8: flag("--no-zx", [&] { c.p.with_zx = false; }); break;
	case 9: flag("--no-xy", [&] { c.p.with_xy = false; }); break;
	case 10: if(once("read")) { bool const x = a % 2; valued("--read-oemsh-params", x ? "true" : "false"); c.p.read_oemsh_params = x; } break;
	case 11: if(once("keep")) { bool const x = a % 2; valued("--integrate-old-mesh", x ? "true" : "false"); c.p.keep_old_mesh = x; } break;
	case 12: {
		auto const axis = a % 3;
		static char const* const n[] = { "x", "y", "z", "X", "Y", "Z" };
		auto const pos = 0.5 * (double) (a / 3 % 60);
		auto const text = fmt("%s,%g", n[axis + 3 * (b / 2 % 2)], pos);
		v.push_back("--add-fixed-meshline");
		v.push_back(text);
		c.used.insert("fixed");
		auto const ax = axis == 0 ? domain::X : axis == 1 ? domain::Y : domain::Z;
		c.fixed.emplace_back(ax, pos);
		break;
	}
	case 13: case 14: case 15: case 16: {
		static char const* const n[] = { "--proximity-limit", "--dmax", "--diag-dmax", "--smoothness" };
		auto const i = (std::size_t) k - 13;
		if(!once(n[i])) return;
		if(a % 12 == 11) { c.valid = false; v.push_back(n[i]); v.push_back(bad_doubles[b % 4]); return; }
		if(i == 3) {
			static char const* const s[] = { "1.5", "2", "1.2", "1.9", "1.5", "2.0", "1", "3", "0.5", "-1" };
			auto const j = a % 10;
			valued(n[i], s[j]);
			if(j >= 6) { c.valid = false; return; }
			double const x = std::strtod(s[j], nullptr);
			c.overrides.push_back([x](domain::Params& d) { d.smoothness = x; });
			return;
		}
		auto const* s = doubles[a % std::size(doubles)];
		valued(n[i], s);
		double const x = std::strtod(s, nullptr);
		c.overrides.push_back([x, i](domain::Params& d) { (i == 0 ? d.proximity_limit : i == 1 ? d.dmax : d.diagonal_dmax) = x; });
		break;
	}
	case 17: case 18: {
		char const* const n = k == 17 ? "--lmin" : "--diag-lmin";
		if(!once(n)) return;
		if(a % 12 == 11) { c.valid = false; v.push_back(n); v.push_back(b % 2 ? "-3" : "two"); return; }
		std::size_t const x = 1 + a % 6;
		valued(n, std::to_string(x));
		bool const diag = k == 18;
		c.overrides.push_back([x, diag](domain::Params& d) { (diag ? d.diagonal_lmin : d.lmin) = x; });
		break;
	}
	case 19: if(once("angle")) {
		static char const* const s[] = { "0.1", "0.5", "1", "2" };
		valued("--diag-minimal-angle", s[a % 4]);
		double const x = std::strtod(s[a % 4], nullptr);
		c.overrides.push_back([x](domain::Params& d) { d.consecutive_diagonal_minimal_angle = x; });
	} break;
	case 20: flag("--no-x", [&] { c.p.with_axis_x = false; }); break;
	case 21: flag("--no-y", [&] { c.p.with_axis_y = false; }); break;
	case 22: flag("--no-z", [&] { c.p.with_axis_z = false; }); break;
	case 23: flag("--save-oemsh-params", [&] { c.p.with_oemsh_params = true; }); break;
	case 24: if(once("lines")) { bool const x = a % 2; valued("--meshlines", x ? "true" : "false"); c.p.with_meshlines = x; } break;
	case 25: if(once("policies")) { bool const x = a % 2; valued("--policy-lines", x ? "true" : "false"); c.p.with_meshline_policies = x; } break;
	case 26: flag("-G", [&] { c.p.gui = true; }); break;
	case 27: if(once("help")) { if(a % 3 == 2) { v.push_back("--version"); c.version = true; } else { v.push_back(a % 3 ? "-h" : "--help"); c.help = true; } } break;
	case 28: { // Not an option.
		static char const* const s[] = { "--bogus", "-Z", "--forc", "--output-formatt=csx", "--no-w" };
		v.push_back(s[a % std::size(s)]);
		c.valid = false;
		break;
	}
	default: c.used.insert("dangling"); break; // An option without its value, at the end.
	}
}


std::vector<Command> commands_of(Trace const& t) {
	static fs::Op const ops[] = { fs::Op::STAT, fs::Op::OPEN_R, fs::Op::READ, fs::Op::OPEN_W, fs::Op::WRITE, fs::Op::CLOSE, fs::Op::RENAME, fs::Op::CHMOD, fs::Op::SYNC };
	static int const errs[] = { EIO, ENOSPC, EACCES, EMFILE, EDQUOT, ENOMEM };
	std::vector<Command> cs;
	for(auto const& l : t.lines) {
		if(l.is("cmd")) cs.emplace_back();
		if(cs.empty()) continue;
		auto& c = cs.back();
		if(l.is("arg")) add_arg(c, l);
		else if(l.is("fault")) {
			fs::Fault f;
			f.op = ops[(std::size_t) std::labs(l.num(1)) % std::size(ops)];
			f.k = (int) (std::labs(l.num(2)) % 8);
			bool const data = f.op == fs::Op::READ || f.op == fs::Op::WRITE;
			f.what = !data ? fs::Fault::ERR : f.op == fs::Op::READ ? fs::Fault::ERR : l.num(3) % 2 ? fs::Fault::TORN : fs::Fault::ERR;
			f.err = errs[(std::size_t) std::labs(l.num(4)) % std::size(errs)];
			if(f.op == fs::Op::STAT && f.err != EACCES && f.err != ENOMEM) f.err = EIO;
			f.arg = (int) (std::labs(l.num(5)) % 100000);
			f.sticky = l.num(6) % 2;
			c.plan.faults.push_back(f);
		} else if(l.is("chunk")) c.plan.chunk = 1 + (int) (std::labs(l.num(1)) % 3000);
		else if(l.is("full")) c.plan.capacity = std::labs(l.num(1)) % 6000;
		else if(l.is("errbreaks")) c.err_budget = std::labs(l.num(1)) % 300;
	}
	for(auto& c : cs) {
		if(c.used.contains("dangling")) {
			static char const* const n[] = { "--dmax", "-o", "--output-format", "--lmin" };
			static char const* const key[] = { "--dmax", "output", "format", "--lmin" };
			for(int i = 0; i < 4; ++i) if(!c.used.contains(key[i])) { c.argv.push_back(n[i]); c.valid = false; break; }
		}
		auto const fixed = c.fixed;
		auto const overrides = c.overrides;
		c.p.override_from_cli = [fixed, overrides](domain::Params& d) {
			if(!fixed.empty()) d.input_fixed_meshlines = fixed;
			for(auto const& o : overrides) o(d);
		};
		if(c.argv.size() == 1) c.p.gui = true; // Called without anything.
		if(!c.has_output) c.p.output = c.p.input;
	}
	return cs;
}

std::string shown(Command const& c) {
	std::string s;
	for(auto const& a : c.argv) s += (s.empty() ? "" : " ") + a;
	return s;
}
std::string shown(Outcome const& o) {
	std::string e = o.err.substr(0, 300);
	for(auto& ch : e) if(ch == '\n') ch = ' ';
	return WIFSIGNALED(o.status) ? fmt("killed by signal %d", WTERMSIG(o.status)) : fmt("exit status %d, said [%s]", o.code(), e.c_str());
}

std::string node_of(fs::Disk const& d, std::string const& path) {
	auto it = d.nodes.find(path);
	if(it == d.nodes.end()) return "nothing";
	auto const& n = it->second;
	return fmt("kind %d mode %o:", (int) n.kind, n.mode) + n.data;
}

void run_command(Command const& c, fs::Disk& disk, u64& history) {
	std::string const cmd = shown(c);
	event("command: " + cmd);
	bool const file_format = c.p.output_format != Format::PRETTYPRINT;
	std::string const target = c.p.output.empty() ? "" : real_file(disk, c.p.output.native());
	bool const target_exists = disk.nodes.contains(target) && disk.nodes.at(target).kind != fs::Inode::LINK_;

	// What is expected: the library, straight, on a healthy disk, saving elsewhere.
	bool const does_work = c.valid && !c.help && !c.version && !c.p.gui && c.has_input;
	bool opens = false;
	std::string want;
	std::string const in_file = real_file(disk, c.p.input.native());
	bool const input_there = c.has_input && disk.nodes.contains(in_file) && disk.nodes.at(in_file).kind == fs::Inode::FILE_;
	if(does_work && input_there) {
		auto const ref = process(disk, {}, -1, [&] {
			auto p = c.p;
			p.force = true;
			p.output = "/sim/reference.out";
			OpenEMSH a(p);
			if(!a.parse().has_value()) { *g_extra = "-"; return 0; }
			a.run_all_steps();
			switch(p.output_format) {
			case Format::CSX: if(auto r = SerializerToCsx::run(const_cast<domain::Board&>(a.get_board()), p.input, p.output, static_cast<SerializerToCsx::Params const&>(p)); !r.has_value()) { *g_extra = "!" + r.error(); return 0; } *g_extra = "+" + *fs::get(p.output.native()); break;
			case Format::PLANTUML: *g_extra = "+" + SerializerToPlantuml::run(const_cast<domain::Board&>(a.get_board())); break;
			default: *g_extra = "+" + SerializerToPrettyprint::run(const_cast<domain::Board&>(a.get_board())); break;
			}
			return 0;
		});
		if(!ref.published) discard("reference failed");
		opens = ref.extra[0] != '-';
		want = ref.extra.substr(1);
	}

	auto const got = process(disk, c.plan, c.err_budget, [&] {
		std::vector<char*> argv;
		auto words = c.argv;
		for(auto& w : words) argv.push_back(w.data());
		argv.push_back(nullptr);
		return openemsh_main((int) words.size(), argv.data());
	});
	auto ctx = [&](std::string const& what) { return what + "\n  command: " + cmd + "\n  " + shown(got); };
	if(!got.exited() || got.code() == 77 || !got.published) {
		if(WIFSIGNALED(got.status) && (WTERMSIG(got.status) == SIGKILL || WTERMSIG(got.status) == SIGXCPU)) fail("hang", ctx("the command did not finish"));
		fail("crash", ctx("the program crashed instead of exiting with a status") + " " + std::string(shm->errtext).substr(0, 500));
	}
	bool const faulted = got.read_faults || got.write_faults;
	bool const success = got.code() == 0;
	event(fmt("-> %d, windows %d, faults %d %d", got.code(), got.windows, got.read_faults, got.write_faults));
	history = mix(history, fnv(c.kinds) + (u64) got.code() * 3 + faulted);
	count(success ? "probe.success" : "probe.failure");
	if(faulted) count(success ? "probe.success_despite_fault" : "probe.failed_by_fault");

	// Nothing but the output file ever changes.
	bool const may_write = does_work && file_format && (c.p.force || !target_exists);
	for(auto const& [path, n] : disk.nodes) {
		if(may_write && path == target) continue;
		if(node_of(disk, path) != node_of(got.disk, path)) {
			bool const existing_output = path == target && does_work;
			fail(existing_output ? "overwritten" : "bystander",
				ctx((existing_output ? "the existing file " + path + " was changed without --force" : "the file " + path + " was changed") + ": it now is " + node_of(got.disk, path).substr(0, 100)));
		}
	}
	if(!faulted)
		for(auto const& [path, n] : got.disk.nodes)
			if(!disk.nodes.contains(path) && !(may_write && path == target))
				fail("leftover", ctx("the file " + path + " was left behind"));
	std::string const now = got.disk.nodes.contains(target) && got.disk.nodes.at(target).kind == fs::Inode::FILE_ ? got.disk.nodes.at(target).data : "";
	bool const complete = may_write && got.disk.nodes.contains(target) && now == want && opens;
	if(may_write && node_of(disk, target) != node_of(got.disk, target) && now != want)
		fail("half-written", ctx("the output file holds neither what it held nor the complete result"));

	// The status is true.
	if(success) {
		if(c.help || c.version) {
			if(got.out.empty()) fail("status", ctx("success, but nothing was displayed"));
			count("probe.help");
		} else if(c.p.gui) {
			if(got.windows != 1) fail("status", ctx("success, but no window was opened"));
			if(!c.valid) fail("status", ctx("success, though the command line is wrong"));
			if(c.has_input && !input_there) fail("status", ctx("success, though the input does not exist"));
			count("probe.window");
		} else {
			if(!c.valid || !c.has_input) fail("status", ctx("success, though the command line is wrong"));
			if(!input_there) fail("status", ctx("success, though the input does not exist"));
			if(!opens) fail("status", ctx("success, though the input cannot be opened"));
			if(file_format) {
				if(!c.p.force && target_exists) fail("status", ctx("success, though the output exists and --force was not given"));
				if(!complete) fail("incomplete", ctx("success, but the output file is not what was asked for: " + std::to_string(now.size()) + " bytes, expected " + std::to_string(want.size())));
				count("probe.saved");
			} else {
				// What comes after the result may be refused, as long as the result is told.
				if(got.err.find(want) == std::string::npos) fail("incomplete", ctx(fmt("success, but the result was not displayed (%zu bytes out of %zu, broken: %d)", got.err.size(), want.size(), (int) got.err_broken)));
				count("probe.displayed");
			}
		}
	} else {
		if(!got.err_broken && c.err_budget < 0 && got.err.empty() && got.out.empty()) fail("silent", ctx("failure without any explanation"));
		bool should_work = false;
		if(c.valid && (c.help || c.version)) should_work = !c.has_input || input_there;
		else if(c.valid && c.p.gui) should_work = !c.has_input || input_there;
		else if(does_work && opens) should_work = !file_format || (c.out_writable && (c.p.force || !target_exists));
		if(should_work && !faulted && !(got.err_broken && !file_format))
			fail("status", ctx("failure, though everything that was asked for can be done"));
		if(does_work && opens && target_exists && !c.p.force && file_format) count("probe.refused_overwriting");
	}
	if(got.windows && !c.p.gui) fail("status", ctx("a window was opened though none was asked for"));
	state_seen(mix(fnv(now), (u64) got.code() + 2 * (u64) c.p.output_format));
	disk = got.disk;
}

Trace generate(Rng& rng, std::string const&, u64) {
	Trace t;
	t.add("world cli");
	doc::Options o;
	o.max_props = 2;
	o.max_prims = rng.range(1, 4);
	o.extras = rng.chance(30);
	doc::generate(rng, t, o, 0);
	if(rng.chance(40)) doc::generate(rng, t, o, 1);
	auto u = [&](int k) { return (int) rng.below((u64) k); };
	int const n = rng.range(1, 4);
	for(int i = 0; i < n; ++i) {
		t.add("cmd");
		if(rng.chance(3)) continue; // No argument at all.
		if(rng.chance(96)) t.add(fmt("arg 0 %d %d", rng.chance(70) ? 0 : u(12), u(4)));
		if(rng.chance(75)) t.add(fmt("arg 2 %d %d", rng.chance(40) ? u(5) : u(19), u(3)));
		if(rng.chance(45)) t.add(fmt("arg 4 %d 0", u(2)));
		if(rng.chance(40)) t.add(fmt("arg 6 %d %d", rng.chance(95) ? u(6) : 6, u(2)));
		for(int k = rng.chance(70) ? u(3) : u(9); k > 0; --k) {
			int const kind = rng.range(7, 25);
			t.add(fmt("arg %d %d %d", kind, rng.chance(93) ? u(120) / 12 * 12 + u(11) : u(120), u(4)));
		}
		if(rng.chance(20)) t.add(fmt("arg 5 %d 0", u(2)));
		if(rng.chance(5)) t.add("arg 26 0 0");
		if(rng.chance(3)) t.add(fmt("arg 27 %d 0", u(3)));
		if(rng.chance(3)) t.add(fmt("arg 28 %d 0", u(5)));
		if(rng.chance(2)) t.add("arg 29 0 0");
		if(rng.chance(35)) t.add(fmt("fault %d %d %d %d %d %d", u(9), rng.chance(60) ? u(3) : u(8), u(2), u(6), u(4000), rng.chance(15)));
		if(rng.chance(15)) t.add(fmt("chunk %d", rng.chance(50) ? u(16) : u(3000)));
		if(rng.chance(8)) t.add(fmt("full %d", u(6000)));
		if(rng.chance(6)) t.add(fmt("errbreaks %d", u(300)));
	}
	return t;
}

void execute(Trace const& t, std::string const&) {
	lay_out(t);
	fs::Disk disk = fs::disk;
	auto const cs = commands_of(t);
	if(cs.empty()) discard("no command");
	u64 history = 0;
	std::size_t k = 0;
	for(std::size_t i = 0; i < t.lines.size(); ++i) {
		if(!t.lines[i].is("cmd")) continue;
		at_step(i, shown(cs[k]));
		run_command(cs[k++], disk, history);
		count("steps");
	}
	history_seen(mix(history, shm->result.hash));
	finish_ok();
}

} // namespace

World const cli_world { "cli", generate, execute };

} // namespace sim
