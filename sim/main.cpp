// sim gen   --prop P --seed S --index I          print the trace of a run
// sim exec  --prop P --trace F [--verbose]       execute one trace, one JSON line
// sim batch --prop P --seed S --from A --step K --count N [--wall SECONDS] [--double D]
//           execute runs A, A+K, ...; one JSON line per failing run, a summary line at the end
#include <chrono>
#include <cstring>
#include <fstream>
#include <iostream>
#include <sstream>

#include <fcntl.h>
#include <sys/mman.h>
#include <sys/personality.h>
#include <sys/wait.h>
#include <unistd.h>

#include "common.hpp"
#include "worlds.hpp"

using namespace sim;

#ifdef SIM_PLAIN
static char const* build_kind = "plain";
#else
static char const* build_kind = "asan+ubsan";
extern "C" char const* __asan_default_options() {
	return "detect_leaks=0:abort_on_error=0:exitcode=77:allocator_may_return_null=0:max_allocation_size_mb=3000:handle_segv=1:detect_stack_use_after_return=0:malloc_context_size=12:quarantine_size_mb=16:symbolize=0";
}
extern "C" char const* __ubsan_default_options() {
	return "halt_on_error=1:exitcode=77:print_stacktrace=0";
}
#endif

static std::string json(std::string_view s) {
	std::string o = "\"";
	for(unsigned char c : s) {
		if(c == '"' || c == '\\') { o += '\\'; o += (char) c; }
		else if(c == '\n') o += "\\n";
		else if(c < 0x20 || c >= 0x7f) o += fmt("\\u%04x", c);
		else o += (char) c;
	}
	return o + "\"";
}

namespace sim {
World const* world_of(std::string const& property, std::string const& trace_world) {
	std::string w = trace_world;
	if(w.empty()) {
		if(property == "P01" || property == "P02" || property == "P03") w = "state";
		else if(property == "P04" || property == "P05" || property == "P06" || property == "P07" || property == "P20" || property == "P21" || property == "P22" || property == "P23" || property == "P24" || property == "P25" || property == "P27") w = "session";
		else if(property == "P08" || property == "P09" || property == "P10" || property == "P12") w = "disk";
		else if(property == "P11") w = "cli";
		else if(property == "P13") w = "log";
		else if(property == "P14") w = "layout";
		else if(property == "P15" || property == "P26") w = "gui";
	}
	for(World const* x : std::initializer_list<World const*> {
#ifdef HAVE_STATE
		&state_world,
#endif
#ifdef HAVE_SESSION
		&session_world,
#endif
#ifdef HAVE_DISK
		&disk_world,
#endif
#ifdef HAVE_CLI
		&cli_world,
#endif
#ifdef HAVE_LOG
		&log_world,
#endif
#ifdef HAVE_LAYOUT
		&layout_world,
#endif
#ifdef HAVE_GUI
		&gui_world,
#endif
	})
		if(w == x->name) return x;
	std::cerr << "no world " << w << " for " << property << std::endl;
	exit(2);
}
} // namespace sim

static int devnull = -1, errfd = -1;

static std::string world_name(Trace const& t) {
	for(auto const& l : t.lines) if(l.is("world")) return l.at(1);
	return "";
}

// Executes one trace in a child; leaves the verdict in shm->result.
static void run_trace(Trace const& t, std::string const& property) {
	std::memset(&shm->result, 0, sizeof shm->result);
	shm->errtext[0] = 0;
	if(errfd >= 0) { if(ftruncate(errfd, 0)) {} lseek(errfd, 0, SEEK_SET); }
	World const* w = world_of(property, world_name(t));
	int const st = in_child([&] {
		if(errfd >= 0) dup2(errfd, 2);
		if(devnull >= 0) dup2(devnull, 0);
		w->execute(t, property);
		_exit(0);
	}, 90);
	auto& r = shm->result;
	if(errfd >= 0) {
		off_t const size = lseek(errfd, 0, SEEK_END);
		off_t const keep = (off_t) sizeof shm->errtext - 1;
		ssize_t n = pread(errfd, shm->errtext, (std::size_t) std::min(size, keep), 0);
		shm->errtext[n > 0 ? n : 0] = 0;
	}
	if(r.status == RUNNING) {
		r.status = FAIL;
		bool const cpu = WIFSIGNALED(st) && (WTERMSIG(st) == SIGXCPU || WTERMSIG(st) == SIGKILL);
		std::string what;
		if(cpu) { strcpy(r.cls, "hang"); what = "did not finish (processor time limit)"; }
		else if(WIFSIGNALED(st)) { strcpy(r.cls, "crash"); what = fmt("killed by signal %d", WTERMSIG(st)); }
		else { strcpy(r.cls, "crash"); what = fmt("exit status %d without a verdict", WEXITSTATUS(st)); }
		std::string err = shm->errtext;
		auto pos = err.find("ERROR: AddressSanitizer");
		if(pos == std::string::npos) pos = err.find("runtime error:");
		if(pos != std::string::npos) {
			auto b = err.rfind('\n', pos); b = b == std::string::npos ? 0 : b + 1;
			auto e = err.find('\n', pos);
			what += ": " + err.substr(b, (e == std::string::npos ? err.size() : e) - b);
		} else if((pos = err.find("terminate called")) != std::string::npos || (pos = err.find("Assertion")) != std::string::npos) {
			what += ": " + err.substr(pos, 300);
		}
		strncpy(r.msg, what.c_str(), sizeof r.msg - 1);
	}
}

static char const* status_name(int s) {
	return s == OK ? "ok" : s == FAIL ? "fail" : s == DISCARD ? "discard" : "?";
}

static std::string result_json(u64 seed, u64 index, std::string const& prop) {
	auto const& r = shm->result;
	return fmt("{\"prop\":\"%s\",\"seed\":%llu,\"index\":%llu,\"status\":\"%s\",\"class\":", prop.c_str(), (unsigned long long) seed, (unsigned long long) index, status_name(r.status))
		+ json(r.cls) + ",\"msg\":" + json(r.msg) + fmt(",\"step\":%d,\"step_text\":", r.step) + json(r.step_text)
		+ fmt(",\"hash\":\"%016llx\",\"events\":%llu", (unsigned long long) r.hash, (unsigned long long) r.events)
		+ (r.status == FAIL ? ",\"stderr\":" + json(std::string(shm->errtext).substr(0, 3000)) : "") + "}";
}

int main(int argc, char** argv) {
#ifdef SIM_NO_ASLR
	if(!getenv("SIM_REEXEC")) {
		int p = personality(0xffffffff);
		if(p != -1 && !(p & ADDR_NO_RANDOMIZE) && personality((unsigned long) p | ADDR_NO_RANDOMIZE) != -1) {
			setenv("SIM_REEXEC", "1", 1);
			execv("/proc/self/exe", argv);
		}
	}
#endif
	std::string mode = argc > 1 ? argv[1] : "";
	std::map<std::string, std::string> a;
	for(int i = 2; i < argc; ++i) {
		std::string k = argv[i];
		if(k.rfind("--", 0) == 0) {
			if(i + 1 < argc && std::strncmp(argv[i + 1], "--", 2) != 0) a[k.substr(2)] = argv[++i];
			else a[k.substr(2)] = "1";
		}
	}
	auto num = [&](char const* k, u64 d) -> u64 { return a.contains(k) ? std::stoull(a[k]) : d; };
	g_property = a["prop"];
	g_verbose = a.contains("verbose");
	shm = (Shared*) mmap(nullptr, sizeof(Shared), PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS | MAP_NORESERVE, -1, 0);
	if(shm == MAP_FAILED) { perror("mmap"); return 2; }
	devnull = open("/dev/null", O_RDWR);
	errfd = memfd_create("err", 0);

	u64 const seed = num("seed", 1);
	auto gen = [&](u64 index) {
		Rng rng(mix(mix(seed, fnv(g_property)), index));
		World const* w = world_of(g_property, a.contains("world") ? a["world"] : "");
		return w->generate(rng, g_property, index);
	};

	if(mode == "gen") {
		std::cout << gen(num("index", 0)).str();
		return 0;
	}
	if(mode == "exec") {
		std::ifstream in(a["trace"]);
		if(!in) { std::cerr << "cannot read " << a["trace"] << std::endl; return 2; }
		std::stringstream ss; ss << in.rdbuf();
		run_trace(Trace::parse(ss.str()), g_property);
		std::cout << result_json(seed, 0, g_property) << std::endl;
		return 0;
	}
	if(mode == "batch") {
		u64 const from = num("from", 0), step = num("step", 1), n = num("count", 1), dbl = num("double", 0), maxfail = num("maxfail", 8);
		double const wall = (double) num("wall", 600);
		auto const t0 = std::chrono::steady_clock::now();
		u64 ok = 0, fails = 0, disc = 0, runs = 0, doubled = 0, diverged = 0;
		u64 allhash = 0xcbf29ce484222325ull;
		std::string sample;
		bool out_of_time = false;
		std::map<std::string, int> per_class;
		for(u64 k = 0; k < n; ++k) {
			u64 const index = from + k * step;
			if(std::chrono::duration<double>(std::chrono::steady_clock::now() - t0).count() > wall) { out_of_time = true; break; }
			Trace const t = gen(index);
			run_trace(t, g_property);
			++runs;
			auto const first = shm->result;
			allhash = mix(allhash, first.hash ^ (u64) first.status);
			if(a.contains("hashes")) std::cout << fmt("{\"h\":\"%016llx\",\"index\":%llu,\"status\":\"%s\"}\n", (unsigned long long) first.hash, (unsigned long long) index, status_name(first.status));
			if(first.status == OK) {
				++ok;
				if(sample.empty() && t.lines.size() > 8) sample = t.str();
			} else if(first.status == DISCARD) { ++disc; count((std::string("discard.") + first.msg).substr(0, 54).c_str()); }
			else {
				++fails;
				if(per_class[first.cls]++ < 3)
					std::cout << result_json(seed, index, g_property) << std::endl;
				if(fails >= maxfail) break;
			}
			if(dbl && index % dbl == 0) {
				run_trace(t, g_property);
				++doubled;
				if(shm->result.hash != first.hash || shm->result.status != first.status) {
					++diverged;
					std::cout << fmt("{\"diverged\":%llu,\"a\":\"%016llx\",\"b\":\"%016llx\"}", (unsigned long long) index, (unsigned long long) first.hash, (unsigned long long) shm->result.hash) << std::endl;
				}
			}
		}
		if(a.contains("sets")) {
			std::ofstream f(a["sets"], std::ios::binary);
			auto dump = [&](u64 const* s, u64 c) {
				f.write((char const*) &c, 8);
				for(std::size_t i = 0; i < HSET; ++i) if(s[i]) f.write((char const*) &s[i], 8);
			};
			dump(shm->hset, shm->hset_count);
			dump(shm->iset, shm->iset_count);
		}
		std::string c = "{";
		for(std::size_t i = 0; i < MAX_COUNTERS && shm->counters[i].name[0]; ++i)
			c += (i ? "," : "") + json(shm->counters[i].name) + ":" + std::to_string(shm->counters[i].value);
		c += "}";
		double const secs = std::chrono::duration<double>(std::chrono::steady_clock::now() - t0).count();
		std::cout << fmt("{\"summary\":1,\"build\":\"%s\",\"runs\":%llu,\"ok\":%llu,\"fail\":%llu,\"discard\":%llu,\"doubled\":%llu,\"diverged\":%llu,\"secs\":%.3f,\"out_of_time\":%d,\"hash\":\"%016llx\",\"counters\":", build_kind,
			(unsigned long long) runs, (unsigned long long) ok, (unsigned long long) fails, (unsigned long long) disc, (unsigned long long) doubled, (unsigned long long) diverged, secs, out_of_time, (unsigned long long) allhash)
			<< c << ",\"sample\":" << json(sample) << "}" << std::endl;
		return 0;
	}
	std::cerr << "usage: sim gen|exec|batch ..." << std::endl;
	return 2;
}
