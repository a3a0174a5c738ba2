// Canonical text of everything observable in a session: objects named by
// position, numbers in full precision, no address and no internal identifier.
#pragma once
#include <string>
#include "app/openemsh.hpp"
namespace sim {
struct Snap {
	std::string text;
	std::string dangling; // First reference to an object that is not part of the project, if any.
};
Snap snapshot(app::OpenEMSH const& app);
std::string snap_diff(std::string const& a, std::string const& b, int max_lines = 6);
}
