// Simulated disk: everything below /sim/ is served from memory, through the
// libc symbols that the program, libstdc++ and pugixml call.  The simulator
// decides the outcome of every call.
#pragma once

#include <map>
#include <string>
#include <vector>

#include "common.hpp"

namespace sim::fs {

struct Inode {
	enum Kind { FILE_, DIR_, LINK_ } kind = FILE_;
	std::string data;      // Content, or target of a symbolic link.
	unsigned mode = 0644;
	bool operator==(Inode const&) const = default;
};

struct Disk {
	std::map<std::string, Inode> nodes; // Absolute normalised path -> node.
	std::string serialise() const;
	static Disk parse(std::string const& image);
};

extern Disk disk;

enum class Op { OPEN_R, OPEN_W, READ, WRITE, CLOSE, STAT, RENAME, UNLINK, SYNC, CHMOD, TRUNCATE, OTHER };
char const* name(Op op);

struct Fault {
	Op op;              // On the kth call of this kind...
	int k;
	enum What { ERR, SHORT, TORN, VANISH } what;
	int err;            // errno for ERR and TORN.
	int arg;            // SHORT, TORN: how many bytes (modulo the request).
	bool sticky = false; // The device stays dead from there on.
	bool fired = false;
};

// Configuration of the current life.
struct Plan {
	std::vector<Fault> faults;
	long capacity = -1;      // Bytes left on the disk, -1: unlimited.
	int chunk = 0;           // Reads and writes transfer at most that many bytes (0: no limit).
	long crash_at = -1;      // I/O point at which the process dies.
	int crash_arg = 0;       // Before, after or in the middle of the call.
	bool permissions = true; // Honour mode bits (the simulated user is not root).
};
extern Plan plan;
extern long points;          // I/O points passed in this life.
extern bool active;          // The life is running (else: harness access).
extern int fired;            // Faults that fired in this life.
extern int read_faults, write_faults; // ... by side.
extern bool record_points;   // Note each point in the event log.
extern std::vector<std::string> touched; // Paths that were created, changed or removed.

void start_life(Plan const& p);
void end_life();             // Image to shared memory.
extern std::function<void()> on_crash;

void put(std::string const& path, std::string const& data, unsigned mode = 0644);
void mkdir_p(std::string const& path);
bool exists(std::string const& path);
std::string resolve(std::string path);
std::string const* get(std::string const& path); // Follows links.

} // namespace sim::fs
