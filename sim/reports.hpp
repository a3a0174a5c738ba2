// The diagram (PlantUML) and the printed report, read back and compared with
// the project (P27).
#pragma once
#include <cmath>
#include <map>
#include <optional>
#include <set>
#include <sstream>
#include <string>
#include <vector>

#include "domain/board.hpp"
#include "domain/conflicts/conflict_colinear_edges.hpp"
#include "domain/conflicts/conflict_edge_in_polygon.hpp"
#include "domain/conflicts/conflict_too_close_meshline_policies.hpp"
#include "domain/geometrics/edge.hpp"
#include "domain/geometrics/polygon.hpp"
#include "domain/mesh/interval.hpp"
#include "domain/mesh/meshline.hpp"
#include "domain/mesh/meshline_policy.hpp"

#include "common.hpp"

namespace sim::reports {

using namespace domain;

//----------------------------------------------------------------- vocabulary
inline char const* name(Plane p) { return p == YZ ? "YZ" : p == ZX ? "ZX" : "XY"; }
inline char const* name(Axis a) { return a == X ? "X" : a == Y ? "Y" : "Z"; }
inline char const* name(Normal n) {
	switch(n) {
	case Normal::XMIN: return "XMIN"; case Normal::XMAX: return "XMAX";
	case Normal::YMIN: return "YMIN"; case Normal::YMAX: return "YMAX";
	case Normal::ZMIN: return "ZMIN"; case Normal::ZMAX: return "ZMAX";
	default: return "NONE";
	}
}
inline char const* name(MeshlinePolicy::Normal n) { return n == MeshlinePolicy::Normal::MIN ? "MIN" : n == MeshlinePolicy::Normal::MAX ? "MAX" : "NONE"; }
inline char const* name(MeshlinePolicy::Policy p) { return p == MeshlinePolicy::Policy::ONELINE ? "ONELINE" : p == MeshlinePolicy::Policy::HALFS ? "HALFS" : "THIRDS"; }
inline char const* name(bool b) { return b ? "true" : "false"; }
inline char const* turn(Polygon const& p) { return p.rotation == Polygon::Rotation::CW ? "CW" : p.rotation == Polygon::Rotation::CCW ? "CCW" : "COLINEAR"; }
inline char const* name(Segment::Axis a) { return a == Segment::Axis::H ? "H" : a == Segment::Axis::V ? "V" : a == Segment::Axis::POINT ? "POINT" : "DIAGONAL"; }
inline char const* towards(Edge const& e) {
	using D = Edge::Direction;
	switch(e.direction) { case D::XMIN: return "XMIN"; case D::XMAX: return "XMAX"; case D::YMIN: return "YMIN"; case D::YMAX: return "YMAX"; default: return "NONE"; }
}

// A word of a report agrees with the expected one: numbers by value.
inline bool agree(std::string const& got, std::string const& want) {
	if(got == want) return true;
	char *e = nullptr, *f = nullptr;
	double const a = std::strtod(got.c_str(), &e), b = std::strtod(want.c_str(), &f);
	if(got.empty() || want.empty() || *e || *f) return false;
	return std::fabs(a - b) <= 6e-7 + 1e-6 * std::fabs(b);
}
inline std::string full(double v) { return fmt("%.17g", v); }

//-------------------------------------------------------------------- diagram
struct Block {
	std::string title, in;
	std::optional<bool> red; // Whether its colour warns, when that is said.
	std::multimap<std::string, std::string> rows;
};
using Arrows = std::multiset<std::pair<std::string, std::string>>;
struct Diagram {
	std::map<std::string, Block> blocks;
	Arrows arrows; // From block to block, whatever the pins.
	std::string error;
};

inline Diagram read_diagram(std::string const& text) {
	Diagram d;
	auto wrong = [&](std::string const& why) { if(d.error.empty()) d.error = why; };
	std::vector<std::string> open;
	std::map<std::string, std::string> pins; // To their block.
	std::vector<std::pair<std::string, std::string>> ends, rows;
	std::istringstream is(text);
	bool started = false, ended = false;
	for(std::string l; std::getline(is, l); ) {
		auto const b = l.find_first_not_of(" \t\r");
		if(b == std::string::npos) continue;
		l = l.substr(b, l.find_last_not_of(" \t\r") + 1 - b);
		if(l == "@startuml") { if(started) wrong("it starts twice"); started = true; continue; }
		if(!started || ended) { wrong("something is out of the diagram: " + l); continue; }
		if(l == "@enduml") { ended = true; if(!open.empty()) wrong("the block " + open.back() + " is not closed"); continue; }
		if(l == "}") { if(open.empty()) wrong("a block is closed that was not open"); else open.pop_back(); continue; }
		if(l.starts_with("state \"")) {
			auto const q = l.rfind("\" as ");
			if(q == std::string::npos || q < 6) { wrong("a state has no name: " + l); continue; }
			std::istringstream rest(l.substr(q + 5));
			std::string id, w;
			rest >> id;
			Block k;
			k.title = q > 7 ? l.substr(7, q - 7) : "";
			bool is_pin = false, opens = false;
			while(rest >> w) {
				if(w.starts_with("<<")) is_pin = true;
				else if(w == "{") opens = true;
				else if(w.starts_with("#")) k.red = w == "#red";
				else wrong("a state is followed by something else: " + l);
			}
			if(d.blocks.contains(id) || pins.contains(id)) wrong("there are several " + id);
			if(is_pin) {
				if(open.empty()) wrong("the pin " + id + " is out of any block");
				else pins[id] = open.back();
			} else {
				k.in = open.empty() ? "" : open.back();
				d.blocks[id] = k;
				if(opens) open.push_back(id);
			}
			continue;
		}
		if(auto const c = l.find(" : "); c != std::string::npos && l.find("->") == std::string::npos) {
			auto const id = l.substr(0, c);
			auto const e = l.find(" = ", c);
			if(e == std::string::npos) { wrong("a row has no value: " + l); continue; }
			if(!d.blocks.contains(id)) { wrong("a row is about no block: " + l); continue; }
			d.blocks[id].rows.emplace(l.substr(c + 3, e - c - 3), l.substr(e + 3));
			continue;
		}
		std::istringstream a(l);
		std::string from, arrow, to, more;
		a >> from >> arrow >> to;
		if(!arrow.starts_with("-") || !arrow.ends_with("->") || to.empty() || a >> more) { wrong("what is that: " + l); continue; }
		ends.emplace_back(from, to);
	}
	if(!ended) wrong("it does not end");
	for(auto const& [from, to] : ends) {
		std::string p[2] = { from, to };
		for(auto& x : p) {
			if(auto it = pins.find(x); it != pins.end()) x = it->second;
			if(!d.blocks.contains(x)) wrong("an arrow is between " + from + " and " + to + ", the block " + x + " does not exist");
		}
		d.arrows.emplace(p[0], p[1]);
	}
	return d;
}

inline Diagram expected_diagram(Board const& b) {
	Diagram d;
	auto id = [](auto const& x) { return std::to_string(x.id); };
	auto link = [&](auto const& from, auto const& to) { d.arrows.emplace(id(from), id(to)); };
	auto policy_of = [](auto* s) { return dynamic_cast<MeshlinePolicy const*>(s); };
	for(auto plane : AllPlane) {
		d.blocks[name(plane)].title = std::string("Plane ") + name(plane);
		for(auto const& p : b.get_polygons(plane)) {
			auto& k = d.blocks[id(*p)];
			k = { "Polygon " + p->name, name(plane), {}, { { "rotation", turn(*p) } } };
			for(auto const& e : p->edges) {
				bool const m = e->get_current_state().to_mesh;
				d.blocks[id(*e)] = { "Edge", id(*p), !m, { { "Normal", name(e->normal) }, { "To mesh", name(m) } } };
			}
		}
		for(auto const& c : b.get_conflicts_edge_in_polygons(plane)) {
			d.blocks[id(*c)] = { "Conflict EdgeInPolygon", name(plane), !c->edge->get_current_state().to_mesh, {} };
			link(*c->edge, *c);
			link(*c, *c->edge);
			for(auto const& [polygon, range, by] : c->get_current_state().overlaps) {
				link(*polygon, *c);
				if(by) link(**by, *c);
			}
		}
	}
	for(auto axis : AllAxis) {
		std::string const in = name(axis);
		d.blocks[in].title = "Axis " + in;
		for(auto const& m : b.get_meshline_policies(axis)) {
			auto const& s = m->get_current_state();
			d.blocks[id(*m)] = { "MeshlinePolicy", in, !s.is_enabled, { { "Normal", name(s.normal) }, { "Is enabled", name(s.is_enabled) }, { "Policy", name(s.policy) }, { "d", full(s.d) } } };
			if(s.origins.size() == 1)
				if(auto const* e = dynamic_cast<Edge const*>(s.origins.front())) link(*e, *m);
		}
		for(auto const& i : b.get_intervals(axis)) {
			auto const& s = i->get_current_state();
			d.blocks[id(*i)] = { "Interval", in, {}, { { "dmax", full(s.dmax) }, { "before.lmin", std::to_string(s.before.lmin) }, { "before.smoothness", full(s.before.smoothness) }, { "after.lmin", std::to_string(s.after.lmin) }, { "after.smoothness", full(s.after.smoothness) } } };
			link(*s.before.meshline_policy, *i);
			link(*s.after.meshline_policy, *i);
		}
		for(auto const& l : b.get_meshlines(axis)) {
			d.blocks[id(*l)] = { "Meshline", in, {}, { { "Coord", full(l->coord.value()) } } };
			if(l->interval) link(*l->interval, *l);
			if(l->policy) link(*l->policy, *l);
		}
		for(auto const& c : b.get_conflicts_colinear_edges(axis)) {
			auto const& s = c->get_current_state();
			auto& k = d.blocks[id(*c)];
			k = { "Conflict ColinearEdges", in, {}, {} };
			for(auto const* e : s.edges) {
				k.rows.emplace("Normal", std::string(name(e->normal)) + (e->get_current_state().to_mesh ? " enabled" : " disabled"));
				link(*e, *c);
			}
			if(auto const* m = policy_of(s.solution)) {
				k.rows.emplace("Solution.policy", name(m->get_current_state().policy));
				k.rows.emplace("Solution.normal", name(m->get_current_state().normal));
				link(*c, *m);
			}
		}
		for(auto const& c : b.get_conflicts_too_close_meshline_policies(axis)) {
			d.blocks[id(*c)] = { "Conflict TooCloseMeshlinePolicies", in, {}, {} };
			for(auto const* m : c->meshline_policies) link(*m, *c);
			if(auto const* m = policy_of(c->get_current_state().solution)) link(*c, *m);
		}
	}
	return d;
}

// What the diagram says that the project does not, or the other way; nothing
// when they agree.
inline std::pair<std::string, std::string> misdrawn(std::string const& text, Board const& b) {
	auto const got = read_diagram(text), want = expected_diagram(b);
	if(!got.error.empty()) return { "diagram-malformed", got.error };
	auto called = [&](std::string const& id) { auto const* k = want.blocks.contains(id) ? &want.blocks.at(id) : got.blocks.contains(id) ? &got.blocks.at(id) : nullptr; return (k ? k->title : "?") + (id.empty() ? "" : " in " + (k && !k->in.empty() ? k->in : "the diagram")); };
	for(auto const& [id, k] : want.blocks) {
		auto it = got.blocks.find(id);
		if(it == got.blocks.end()) return { "diagram-missing", "the diagram lacks " + called(id) };
		auto const& g = it->second;
		if(g.title != k.title) return { "diagram-title", "the diagram has " + g.title + " for " + called(id) };
		if(g.in != k.in) return { "diagram-place", "the diagram has " + called(id) + " in the block " + g.in };
		if(k.red && g.red && *g.red != *k.red) return { "diagram-colour", "the diagram has " + called(id) + (*g.red ? " red" : " not red") };
		auto rest = g.rows;
		for(auto const& [key, v] : k.rows) {
			bool found = false;
			std::string said;
			for(auto [i, e] = rest.equal_range(key); i != e; ++i) {
				if(agree(i->second, v)) { rest.erase(i); found = true; break; }
				said += " " + i->second;
			}
			if(!found) return { "diagram-value", "the diagram does not say that " + key + " is " + v + " for " + called(id) + ", but:" + said };
		}
		for(auto const& [key, v] : k.rows) if(auto r = rest.find(key); r != rest.end()) return { "diagram-value", "the diagram also says that " + key + " is " + r->second + " for " + called(id) };
	}
	for(auto const& [id, k] : got.blocks) if(!want.blocks.contains(id)) return { "diagram-foreign", "the diagram has " + k.title + ", which is not in the project" };
	for(auto const& [from, to] : want.arrows) if(got.arrows.count({ from, to }) != want.arrows.count({ from, to })) return { "diagram-arrow", fmt("the diagram has %zu arrows instead of %zu from ", got.arrows.count({ from, to }), want.arrows.count({ from, to })) + called(from) + " to " + called(to) };
	for(auto const& [from, to] : got.arrows) if(!want.arrows.contains({ from, to })) return { "diagram-arrow", "the diagram has an arrow for nothing from " + called(from) + " to " + called(to) };
	return {};
}

//--------------------------------------------------------------------- report
using Words = std::vector<std::string>;
// Words of a text without what is for the terminal only.
inline Words words(std::string const& text) {
	std::string plain;
	for(std::size_t i = 0; i < text.size(); ++i) {
		if(text[i] == '\033') {
			while(i < text.size() && text[i] != 'm') ++i;
			plain += ' ';
		} else plain += text[i] == ',' ? ' ' : text[i];
	}
	Words w;
	std::istringstream is(plain);
	for(std::string x; is >> x; ) w.push_back(x);
	return w;
}
inline std::string shown(Words const& w) { std::string r; for(auto const& x : w) r += (r.empty() ? "" : " ") + x; return r.size() > 600 ? r.substr(0, 600) + "..." : r; }

// The conflicts of each kind, in words.
inline std::map<std::string, std::vector<Words>> read_report(std::string const& text) {
	std::map<std::string, std::vector<Words>> r;
	auto const all = words(text);
	std::vector<Words>* into = nullptr;
	for(std::size_t i = 0; i < all.size(); ++i) {
		if(all[i] == "CONFLICT:") {
			std::string title;
			while(i + 1 < all.size() && all[i + 1] != "CONFLICT:" && all[i + 1] != "Conflict") title += (title.empty() ? "" : " ") + all[++i];
			into = &r[title];
		} else {
			if(!into) into = &r[""];
			if(all[i] == "Conflict" || into->empty()) into->emplace_back();
			into->back().push_back(all[i]);
		}
	}
	return r;
}

inline std::map<std::string, std::vector<Words>> expected_report(Board const& b) {
	std::map<std::string, std::vector<Words>> r;
	auto point = [](Point const& p) { return "{ " + full(p.x.value()) + " " + full(p.y.value()) + " } "; };
	auto edge = [&](Edge const& e) { return point(e.p0()) + "-> " + point(e.p1()) + name(e.axis) + " " + towards(e) + " " + name(e.normal) + (e.get_current_state().to_mesh ? " O " : " X "); };
	auto& eip = r["EDGE IN POLYGONS"];
	for(auto plane : AllPlane) for(auto const& c : b.get_conflicts_edge_in_polygons(plane)) {
		std::string t = std::string("Conflict EdgeInPolygon between: Plane: ") + name(plane) + " Edge: " + edge(*c->edge);
		for(auto const& [polygon, range, by] : c->get_current_state().overlaps) {
			t += "Polygon: " + polygon->name + " " + turn(*polygon) + " { ";
			for(auto const& e : polygon->edges) t += edge(*e);
			t += "} ";
			if(by) t += "by edge: " + edge(**by);
			t += "on range: " + point(range.p0()) + "-> " + point(range.p1()) + name(range.axis) + " ";
		}
		if(c->get_current_state().solution) t += std::string("Solution: ") + (c->edge->get_current_state().to_mesh ? "to mesh" : "don't mesh");
		eip.push_back(words(t));
	}
	auto& ce = r["COLINEAR EDGES"];
	for(auto axis : AllAxis) for(auto const& c : b.get_conflicts_colinear_edges(axis)) {
		std::string t = std::string("Conflict ColinearEdges between: Axis: ") + name(axis) + " ";
		for(auto const* e : c->get_current_state().edges) t += "Edge: " + edge(*e);
		if(auto const* m = dynamic_cast<MeshlinePolicy const*>(c->get_current_state().solution)) t += std::string("Solution: ") + name(m->get_current_state().policy);
		ce.push_back(words(t));
	}
	r["TOO CLOSE MESHLINE POLICIES"];
	return r;
}

inline std::pair<std::string, std::string> misreported(std::string const& text, Board const& b) {
	auto got = read_report(text);
	auto const want = expected_report(b);
	for(auto const& [title, list] : want) {
		if(!got.contains(title)) return { "report-section", "the report has no section " + title };
		auto& g = got[title];
		if(title.starts_with("TOO")) continue; // Only its title is documented.
		for(auto const& w : list) {
			std::size_t best = 0;
			std::string nearest = "nothing";
			bool found = false;
			for(std::size_t i = 0; i < g.size() && !found; ++i) {
				std::size_t k = 0;
				while(k < w.size() && k < g[i].size() && agree(g[i][k], w[k])) ++k;
				if(k == w.size() && k == g[i].size()) { g.erase(g.begin() + (long) i); found = true; }
				else if(k > best) {
					best = k;
					nearest = fmt("word %zu is %s instead of %s in ", k, k < g[i].size() ? g[i][k].c_str() : "missing", k < w.size() ? w[k].c_str() : "nothing") + shown(g[i]);
				}
			}
			if(!found) return { "report-conflict", "the report does not tell " + shown(w) + ", at best: " + nearest };
		}
		if(!g.empty()) return { "report-foreign", "the report also tells " + shown(g.front()) };
	}
	for(auto const& [title, list] : got) if(!want.contains(title)) return { "report-section", "the report has a section " + title };
	return {};
}

} // namespace sim::reports
