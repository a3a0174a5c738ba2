// Small independent reader of XML, used by the oracles only.
#pragma once
#include <optional>
#include <string>
#include <utility>
#include <vector>
namespace sim::xml {
struct Node {
	std::string name;
	std::vector<std::pair<std::string, std::string>> attrs;
	std::string text;         // Trimmed, concatenated.
	std::vector<Node> children;
	Node const* child(std::string const& n) const;
	std::string const* attr(std::string const& n) const;
};
struct Doc {
	std::vector<Node> tops;
	bool complete = false;    // Every element is closed and there is at least one.
	std::string error;
};
Doc parse(std::string const& text);
std::string canonical(Node const& n, int depth = 0);
}
