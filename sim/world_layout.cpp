// Layout world (P14): the same project executed several times, each time in
// a fresh process with another placement of objects in memory, another
// content of fresh and released memory and of the stack, and another past of
// the process.  Everything that comes out must be the same.
#include <algorithm>
#include <cstring>
#include <iostream>
#include <new>
#include <sstream>

#include <sys/mman.h>
#include <sys/resource.h>
#include <sys/wait.h>
#include <unistd.h>

#include "app/openemsh.hpp"
#include "infra/serializers/serializer_to_plantuml.hpp"
#include "infra/serializers/serializer_to_prettyprint.hpp"
#include "utils/state_management.hpp"

#include "docgen.hpp"
#include "simfs.hpp"
#include "snapshot.hpp"
#include "worlds.hpp"

//---------------------------------------------------------------- the allocator
// One region per size class; the order in which its slots are handed out is
// the simulator's choice.
namespace sim::heap {

enum Order { PLAIN, UP, DOWN, SHUFFLED, ZIGZAG, ORDERS };
enum Reuse { LAST, FIRST, NEVER, REUSES };

struct Config {
	int order = PLAIN;
	int reuse = LAST;
	u64 seed = 0;
	int fill = 0;      // 0: zeros, 1: ones, 2: seeded bytes, 3: 0xa5, 4: small integers.
	bool padding = false;
};
static Config config;
static bool on = false;
static u64 allocations = 0;

constexpr std::size_t CLASSES = 64, GRAIN = 16, REGION = 1u << 26;
static char* base = nullptr;

struct Class {
	std::size_t size, slots, next = 0;
	std::size_t freed_head = 0;
	std::size_t* freed = nullptr;
	std::size_t freed_count = 0, freed_cap = 0;
	u64 mul = 1;
};
static Class classes[CLASSES];
static u64 junk = 1;

static u64 rnd() { junk ^= junk << 13; junk ^= junk >> 7; junk ^= junk << 17; return junk; }

static void fill(void* p, std::size_t n, bool fresh) {
	auto* c = (unsigned char*) p;
	switch(config.fill) {
	case 0: std::memset(c, fresh ? 0 : 0xdd, n); break;
	case 1: std::memset(c, 0xff, n); break;
	case 2: for(std::size_t i = 0; i < n; ++i) c[i] = (unsigned char) rnd(); break;
	case 3: std::memset(c, fresh ? 0xa5 : 0x5a, n); break;
	default: for(std::size_t i = 0; i < n; ++i) c[i] = i % 8 ? 0 : (unsigned char) (1 + rnd() % 7); break;
	}
}

void start(Config const& c) {
	config = c;
	junk = c.seed * 2 + 1;
	base = (char*) mmap(nullptr, REGION * CLASSES, PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS | MAP_NORESERVE, -1, 0);
	if(base == MAP_FAILED) _exit(97);
	for(std::size_t i = 0; i < CLASSES; ++i) {
		auto& k = classes[i];
		k.size = (i + 1) * GRAIN;
		k.slots = 1u << 15;
		k.next = 0;
		k.mul = 2 * (rnd() % (1u << 14)) + 1; // Odd: a permutation of the slots.
	}
	on = true;
}

static std::size_t slot(Class& k, std::size_t i) {
	std::size_t const n = k.slots;
	switch(config.order) {
	case DOWN: return n - 1 - i;
	case SHUFFLED: return (std::size_t) ((i * k.mul + config.seed) % n);
	case ZIGZAG: return i % 2 ? n - 1 - i / 2 : i / 2;
	default: return i;
	}
}

void* get(std::size_t n) {
	if(on && n && n <= CLASSES * GRAIN) {
		std::size_t c = (n + GRAIN - 1) / GRAIN - 1;
		auto& k = classes[c];
		++allocations;
		std::size_t s = (std::size_t) -1;
		if(config.reuse != NEVER && k.freed_count > (config.reuse == FIRST ? 16u : 0u)) {
			if(config.reuse == LAST) s = k.freed[k.freed_head + --k.freed_count];
			else { s = k.freed[k.freed_head++]; --k.freed_count; }
		} else if(k.next < k.slots) s = slot(k, k.next++);
		if(s != (std::size_t) -1) {
			void* p = base + c * REGION + s * k.size;
			fill(p, k.size, true);
			return p;
		}
	}
	void* p = std::malloc(n ? n : 1);
	if(p && on) fill(p, n, true);
	return p;
}

void put(void* p) {
	if(!p) return;
	auto* c = (char*) p;
	if(base && c >= base && c < base + REGION * CLASSES) {
		std::size_t const i = (std::size_t) (c - base) / REGION;
		auto& k = classes[i];
		fill(p, k.size, false);
		if(k.freed_head + k.freed_count >= k.freed_cap) {
			std::size_t const cap = std::max<std::size_t>(1024, k.freed_count * 2 + 64);
			auto* n = (std::size_t*) std::malloc(cap * sizeof(std::size_t));
			std::memcpy(n, k.freed + k.freed_head, k.freed_count * sizeof(std::size_t));
			std::free(k.freed);
			k.freed = n;
			k.freed_cap = cap;
			k.freed_head = 0;
		}
		k.freed[k.freed_head + k.freed_count++] = (std::size_t) (c - base - i * REGION) / k.size;
		return;
	}
	std::free(p);
}

} // namespace sim::heap

#ifdef SIM_PLAIN
void* operator new(std::size_t n) { if(void* p = sim::heap::get(n)) return p; throw std::bad_alloc(); }
void* operator new[](std::size_t n) { if(void* p = sim::heap::get(n)) return p; throw std::bad_alloc(); }
void* operator new(std::size_t n, std::nothrow_t const&) noexcept { return sim::heap::get(n); }
void* operator new[](std::size_t n, std::nothrow_t const&) noexcept { return sim::heap::get(n); }
void operator delete(void* p) noexcept { sim::heap::put(p); }
void operator delete[](void* p) noexcept { sim::heap::put(p); }
void operator delete(void* p, std::size_t) noexcept { sim::heap::put(p); }
void operator delete[](void* p, std::size_t) noexcept { sim::heap::put(p); }
void operator delete(void* p, std::nothrow_t const&) noexcept { sim::heap::put(p); }
void operator delete[](void* p, std::nothrow_t const&) noexcept { sim::heap::put(p); }
#endif

namespace sim {
namespace {

using app::OpenEMSH;
using app::Step;

[[gnu::noinline]] void soil_stack(u64 seed, int how) {
	constexpr std::size_t n = 1u << 18;
	volatile unsigned char a[n];
	for(std::size_t i = 0; i < n; ++i)
		a[i] = how == 0 ? 0 : how == 1 ? 0xff : (unsigned char) (fnv("s", seed + i / 64) >> (i % 8));
	asm volatile("" ::: "memory");
}

OpenEMSH::Params params(long f, std::string const& in, std::string const& out) {
	OpenEMSH::Params p;
	p.input = in;
	p.output = out;
	p.force = true;
	p.with_yz = !(f & 1);
	p.with_zx = !(f & 2);
	p.with_xy = !(f & 4);
	p.keep_old_mesh = f & 8;
	p.with_oemsh_params = f & 16;
	p.with_meshline_policies = f & 32;
	p.override_from_cli = [f](domain::Params& d) { if(f & 64) { d.dmax = 3; d.lmin = 3; } };
	return p;
}

// Everything that comes out of one execution.
std::string work(Trace const& t, int how) {
	long flags = 0;
	for(auto const& l : t.lines) if(l.is("opt")) flags = l.num(1);
	std::string o;
	OpenEMSH a(params(flags, "/sim/in0.csx", "/sim/out.csx"));
	auto& c = Caretaker::singleton();
	if(how) { // The process has a past.
		OpenEMSH b(params(flags, how == 1 ? "/sim/in1.csx" : "/sim/in0.csx", "/sim/other.csx"));
		if(b.parse().has_value()) { b.run_all_steps(); if(how == 2) b.go_before(Step::MESH); }
		if(how == 3) { b.go_before_previous_step(); b.go_before_previous_step(); b.run_next_step(); }
		// Back to where a fresh process starts: nothing is left of the past but memory.
	}
	if(auto r = a.parse(); !r.has_value()) return "cannot be opened: " + r.error();
	for(auto const& l : t.lines) {
		if(l.is("do")) {
			auto const& w = l.at(1);
			long const n = std::labs(l.num(2));
			if(w == "all") a.run_from_step(Step::ADJUST_EDGE_TO_MATERIAL);
			else if(w == "steps") { for(long i = 0; i < n % 16 && a.can_run_a_next_step(); ++i) a.run_next_step(); }
			else if(w == "prev") { if(a.can_go_before()) a.go_before_previous_step(); }
			else if(w == "undo") { if(c.can_undo(1)) c.undo(1); }
			else if(w == "collect") c.garbage_collector();
			else if(w == "edit" && a.can_go_before() && c.find_first_ancestor_with_annotation_that([](IAnnotation const* x) { return static_cast<app::Annotation const*>(x)->before_step == Step::DETECT_DIAG_ZONES; }, true)) {
				a.go_before(Step::DETECT_DIAG_ZONES);
				auto const& g = a.get_board().global_params;
				domain::Params p = g->get_current_state();
				static double const dmaxs[] = { 1, 1.5, 2, 2.5, 4, 8 };
				p.dmax = dmaxs[n % 6];
				p.lmin = 1 + (std::size_t) (n / 6 % 4);
				p.smoothness = n % 2 ? 2 : 1.5;
				g->set_next_state(p);
				a.run_from_step(Step::DETECT_DIAG_ZONES);
			} else continue;
			o += "after " + l.text + "\n";
			if(w != "undo" && w != "collect") o += snapshot(a).text;
		}
	}
	a.run_from_step(Step::ADJUST_EDGE_TO_MATERIAL);
	o += "finally\n" + snapshot(a).text;
	auto const r = a.write();
	o += r.has_value() ? "saved\n" + *fs::get("/sim/out.csx") : "not saved: " + r.error();
	auto& board = const_cast<domain::Board&>(a.get_board());
	o += "\npretty\n" + SerializerToPrettyprint::run(board);
	if(how == 0) o += "\ndiagram\n" + SerializerToPlantuml::run(board);
	else o += "\n";
	return o;
}

Trace generate(Rng& rng, std::string const&, u64) {
	Trace t;
	t.add("world layout");
	doc::Options o;
	o.max_props = rng.range(2, 4);
	o.max_prims = rng.range(2, 8);
	doc::generate(rng, t, o, 0);
	if(rng.chance(30)) doc::generate(rng, t, o, 1);
	t.add(fmt("opt %d", rng.chance(50) ? 0 : (int) rng.below(128)));
	auto u = [&](int k) { return (int) rng.below((u64) k); };
	for(int k = rng.chance(50) ? 0 : rng.range(1, 5); k > 0; --k)
		switch(u(6)) {
		case 0: t.add("do all"); break;
		case 1: t.add(fmt("do steps %d", u(16))); break;
		case 2: t.add("do prev"); break;
		case 3: t.add("do undo"); break;
		case 4: t.add("do collect"); break;
		default: t.add(fmt("do edit %d", u(64))); break;
		}
	int const n = rng.range(2, 4);
	for(int i = 0; i < n; ++i)
		t.add(fmt("layout %d %d %d %d %d %d", i == 0 ? heap::UP : i == 1 ? heap::DOWN : 1 + u(4), u(3), u(5), u(1000000), u(3), rng.chance(75) ? 0 : 1 + u(3)));
	return t;
}

void execute(Trace const& t, std::string const&) {
	fs::mkdir_p("/sim");
	fs::put("/sim/in0.csx", doc::render(t, 0));
	fs::put("/sim/in1.csx", doc::render(t, 1));
	if(g_verbose) printf("document:\n%s\n", doc::render(t, 0).c_str());
	std::string first;
	int st = 0;
	auto run = [&](heap::Config const& c, int stack, int past, std::size_t i) {
		fs::Plan plan;
		auto r = ask_child([&] {
#ifdef SIM_PLAIN
			if(c.order != heap::PLAIN) heap::start(c);
#endif
			fs::active = false;
			soil_stack(c.seed, stack);
			auto o = work(t, past);
			heap::on = false;
			return o;
		}, st, i ? 60 : 8); // The allocator that replaces the ordinary one is slower.
		count("lives");
		return r;
	};
	first = run({}, 0, 0, 0);
	auto sane = [&](char const* what) {
		if(WIFSIGNALED(st) && (WTERMSIG(st) == SIGKILL || WTERMSIG(st) == SIGXCPU)) fail("hang", fmt("%s did not finish", what));
		if(!WIFEXITED(st) || WEXITSTATUS(st)) fail("crash", fmt("%s ended with status %x", what, st) + ": " + std::string(shm->errtext).substr(0, 400));
	};
	sane("the execution in an ordinary memory layout");
	state_seen(fnv(first));
	auto const diagram = first.find("\ndiagram\n");
	std::string const comparable = first.substr(0, diagram);
	for(std::size_t i = 0; i < t.lines.size(); ++i) {
		auto const& l = t.lines[i];
		if(!l.is("layout")) continue;
		at_step(i, l.text);
		heap::Config c;
		c.order = 1 + (int) ((std::labs(l.num(1)) + 3) % 4);
		c.reuse = (int) (std::labs(l.num(2)) % heap::REUSES);
		c.fill = (int) (std::labs(l.num(3)) % 5);
		c.seed = (u64) l.num(4);
		int const stack = (int) (std::labs(l.num(5)) % 3), past = (int) (std::labs(l.num(6)) % 4);
		auto const o = run(c, stack, past, i);
		sane("the execution in another memory layout");
		count(fmt("fault.order_%d", c.order).c_str());
		count(fmt("fault.fill_%d", c.fill).c_str());
		if(past) count("fault.process_with_a_past");
		if(!past && o != first)
			fail("differs", "the same project came out differently in another memory layout: " + snap_diff(first, o));
		if(past && o.substr(0, o.size() - 1) != comparable)
			fail("differs-after-past", "the same project came out differently in a process which did something before: " + snap_diff(comparable, o));
		event(l.text);
		count("steps");
	}
	event(fmt("result %016llx", (unsigned long long) fnv(first)));
	history_seen(fnv(t.str()));
	finish_ok();
}

} // namespace

World const layout_world { "layout", generate, execute };

} // namespace sim
