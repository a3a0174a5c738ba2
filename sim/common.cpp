#include <cstdarg>
#include <cstring>
#include <sstream>
#include <string>

#include <signal.h>
#include <sys/mman.h>
#include <sys/resource.h>
#include <sys/wait.h>
#include <unistd.h>

#include "common.hpp"

namespace sim {

Shared* shm = nullptr;
bool g_verbose = false;
std::string g_property;

//---------------------------------------------------------------------- trace
static Line make_line(std::string const& text) {
	Line l;
	l.text = text;
	std::istringstream in(text);
	std::string w;
	while(in >> w) l.w.push_back(w);
	return l;
}
void Trace::add(std::string const& text) { lines.push_back(make_line(text)); }
std::string Trace::str() const {
	std::string s;
	for(auto const& l : lines) s += l.text + "\n";
	return s;
}
Trace Trace::parse(std::string const& text) {
	Trace t;
	std::istringstream in(text);
	std::string line;
	while(std::getline(in, line)) {
		if(line.empty() || line[0] == '#') continue;
		t.add(line);
	}
	return t;
}

std::string fmt(char const* f, ...) {
	char buf[4096];
	va_list ap;
	va_start(ap, f);
	int n = vsnprintf(buf, sizeof buf, f, ap);
	va_end(ap);
	if(n < 0) n = 0;
	if((std::size_t) n >= sizeof buf) n = sizeof buf - 1;
	return std::string(buf, (std::size_t) n);
}

//----------------------------------------------------------------- statistics
void count(char const* name, u64 n) {
	for(std::size_t i = 0; i < MAX_COUNTERS; ++i) {
		auto& c = shm->counters[i];
		if(c.name[0] == 0) {
			strncpy(c.name, name, sizeof c.name - 1);
			c.value = n;
			return;
		}
		if(strncmp(c.name, name, sizeof c.name - 1) == 0) {
			c.value += n;
			return;
		}
	}
}

static void insert(u64* set, u64& cnt, u64 h) {
	if(!h) h = 1;
	if(cnt > HSET * 3 / 4) return;
	std::size_t i = h & (HSET - 1);
	while(set[i]) {
		if(set[i] == h) return;
		i = (i + 1) & (HSET - 1);
	}
	set[i] = h;
	++cnt;
}
void state_seen(u64 h) { insert(shm->hset, shm->hset_count, h); }
void history_seen(u64 h) { insert(shm->iset, shm->iset_count, h); }

void event(std::string const& text) {
	auto& r = shm->result;
	r.hash = fnv(text, r.hash ^ 0x9e37);
	++r.events;
	if(g_verbose) {
		fputs("  event ", stdout);
		fputs(text.c_str(), stdout);
		fputc('\n', stdout);
		fflush(stdout);
	}
}

void at_step(std::size_t i, std::string const& text) {
	auto& r = shm->result;
	r.step = (int) i;
	strncpy(r.step_text, text.c_str(), sizeof r.step_text - 1);
	r.step_text[sizeof r.step_text - 1] = 0;
}

static void done(int status, std::string const& cls, std::string const& msg) {
	auto& r = shm->result;
	strncpy(r.cls, cls.c_str(), sizeof r.cls - 1);
	strncpy(r.msg, msg.c_str(), sizeof r.msg - 1);
	r.status = status;
	fflush(stdout);
	_exit(0);
}
void fail(std::string const& cls, std::string const& msg) { done(FAIL, cls, msg); _exit(0); }
void discard(std::string const& why) { done(DISCARD, "discard", why); _exit(0); }
bool failed() { return shm && shm->result.status == FAIL; }
void finish_ok() { done(OK, "", ""); _exit(0); }

//------------------------------------------------------------------- children
static void limits(int cpu_seconds) {
	rlimit rl { (rlim_t) cpu_seconds, (rlim_t) cpu_seconds };
	setrlimit(RLIMIT_CPU, &rl);
	rlimit core { 0, 0 };
	setrlimit(RLIMIT_CORE, &core);
	rlimit fs { 256u << 20, 256u << 20 };
	setrlimit(RLIMIT_FSIZE, &fs);
}

int in_child(std::function<void()> const& f, int cpu_seconds) {
	fflush(stdout);
	fflush(stderr);
	pid_t pid = fork();
	if(pid < 0) { perror("fork"); exit(2); }
	if(pid == 0) {
		limits(cpu_seconds);
		f();
		_exit(0);
	}
	int st = 0;
	while(waitpid(pid, &st, 0) < 0 && errno == EINTR) {}
	return st;
}

std::string ask_child(std::function<std::string()> const& f, int& status, int cpu_seconds) {
	int p[2];
	if(pipe(p)) { perror("pipe"); exit(2); }
	fflush(stdout);
	fflush(stderr);
	pid_t pid = fork();
	if(pid < 0) { perror("fork"); exit(2); }
	if(pid == 0) {
		close(p[0]);
		limits(cpu_seconds);
		std::string out = f();
		std::size_t off = 0;
		while(off < out.size()) {
			ssize_t n = write(p[1], out.data() + off, out.size() - off);
			if(n <= 0) _exit(98);
			off += (std::size_t) n;
		}
		_exit(0);
	}
	close(p[1]);
	std::string ret;
	char buf[65536];
	for(;;) {
		ssize_t n = read(p[0], buf, sizeof buf);
		if(n < 0 && errno == EINTR) continue;
		if(n <= 0) break;
		ret.append(buf, (std::size_t) n);
	}
	close(p[0]);
	while(waitpid(pid, &status, 0) < 0 && errno == EINTR) {}
	return ret;
}

} // namespace sim
