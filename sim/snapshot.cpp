#include <cmath>
#include <map>
#include <sstream>

#include "domain/board.hpp"
#include "domain/conflicts/conflict_colinear_edges.hpp"
#include "domain/conflicts/conflict_diagonal_or_circular_zone.hpp"
#include "domain/conflicts/conflict_edge_in_polygon.hpp"
#include "domain/conflicts/conflict_too_close_meshline_policies.hpp"
#include "domain/mesh/interval.hpp"
#include "domain/mesh/meshline.hpp"
#include "domain/mesh/meshline_policy.hpp"

#include "common.hpp"
#include "snapshot.hpp"

namespace sim {

using namespace domain;

namespace {

std::string num(double v) {
	char b[64];
	snprintf(b, sizeof b, "%a", v);
	return b;
}

struct Namer {
	// One table per static type through which objects are referred to: the
	// addresses of the sub-objects are compared, nothing unknown is ever read.
	std::map<void const*, std::string> names;
	std::string dangling;

	template<typename T, typename... Bases>
	void add(T const* t, std::string const& n) {
		names[(void const*) t] = n;
		((names[(void const*) static_cast<Bases const*>(t)] = n), ...);
	}
	std::string of(void const* p, char const* where) {
		if(!p) return "null";
		auto it = names.find(p);
		if(it != names.end()) return it->second;
		if(dangling.empty()) dangling = where;
		return "DANGLING";
	}
};

} // namespace

Snap snapshot(app::OpenEMSH const& a) {
	Board const& b = a.get_board();
	Namer n;
	std::string o;
	auto line = [&](std::string const& s) { o += s + "\n"; };
	char const* const PL[] = { "YZ", "ZX", "XY" };
	char const* const AX[] = { "X", "Y", "Z" };

	// Names first.
	for(auto p : AllPlane) {
		std::size_t i = 0;
		for(auto const& x : b.get_polygons(p)) {
			auto const pn = fmt("P%s%zu", PL[(int) p], i++);
			n.add<Polygon, IConflictOrigin, Entity>(x.get(), pn);
			std::size_t j = 0;
			for(auto const& e : x->edges)
				n.add<Edge, IConflictOrigin, IConflictSolution, IMeshLineOrigin, Entity, Segment>(e.get(), pn + fmt("e%zu", j++));
		}
		i = 0;
		for(auto const& x : b.get_angles(p))
			n.add<Angle, IConflictOrigin, IMeshLineOrigin, Entity>(x.get(), fmt("A%s%zu", PL[(int) p], i++));
		i = 0;
		for(auto const& x : b.get_conflicts_edge_in_polygons(p))
			n.add<ConflictEdgeInPolygon, Conflict, IMeshLineOrigin, Entity>(x.get(), fmt("CEIP%s%zu", PL[(int) p], i++));
	}
	for(auto ax : AllAxis) {
		auto const s = AX[(int) ax];
		std::size_t i = 0;
		for(auto const& x : b.get_conflicts_colinear_edges(ax)) n.add<ConflictColinearEdges, Conflict, IMeshLineOrigin, Entity>(x.get(), fmt("CCE%s%zu", s, i++));
		i = 0;
		for(auto const& x : b.get_conflicts_too_close_meshline_policies(ax)) n.add<ConflictTooCloseMeshlinePolicies, Conflict, IMeshLineOrigin, Entity>(x.get(), fmt("CTC%s%zu", s, i++));
		i = 0;
		for(auto const& x : b.get_conflicts_diagonal_or_circular_zones(ax)) n.add<ConflictDiagonalOrCircularZone, Conflict, IMeshLineOrigin, Entity>(x.get(), fmt("CDZ%s%zu", s, i++));
		i = 0;
		for(auto const& x : b.get_meshline_policies(ax)) n.add<MeshlinePolicy, IConflictOrigin, IConflictSolution, Entity>(x.get(), fmt("L%s%zu", s, i++));
		i = 0;
		for(auto const& x : b.get_intervals(ax)) n.add<Interval, Entity>(x.get(), fmt("I%s%zu", s, i++));
		i = 0;
		for(auto const& x : b.get_meshlines(ax)) n.add<Meshline, Entity>(x.get(), fmt("M%s%zu", s, i++));
	}
	auto conflicts = [&](std::vector<Conflict*> const& v, char const* where) {
		std::string s = " conflicts[";
		for(auto* c : v) s += n.of(c, where) + ",";
		return s + "]";
	};
	auto solution = [&](ConflictState const& s, char const* where) {
		return std::string(" solved ") + (s.is_solved ? "1" : "0") + " solution " + n.of(s.solution, where) + " mlp " + n.of(s.meshline_policy, where);
	};

	// Parameters.
	auto const& g = b.global_params->get_current_state();
	line("params grid " + std::to_string(g.has_grid_already) + " prox " + num(g.proximity_limit) + " smooth " + num(g.smoothness) + fmt(" lmin %zu", g.lmin) + " dmax " + num(g.dmax)
		+ fmt(" dlmin %zu", g.diagonal_lmin) + " ddmax " + num(g.diagonal_dmax) + " angle " + num(g.consecutive_diagonal_minimal_angle) + fmt(" fixed %zu", g.input_fixed_meshlines.size()));

	for(auto p : AllPlane) {
		for(auto const& x : b.get_polygons(p)) {
			auto const& s = x->get_current_state();
			line(n.of(x.get(), "") + " " + x->name + fmt(" prio %zu z ", x->priority) + num(x->z_placement.min.value()) + " " + num(x->z_placement.max.value())
				+ " mat " + (x->material ? x->material->name + fmt(" %d", (int) x->material->type) : "-") + conflicts(s.conflicts, "polygon conflicts"));
			for(auto const& e : x->edges) {
				auto const& es = e->get_current_state();
				line(n.of(e.get(), "") + " " + num(e->p0().x.value()) + "," + num(e->p0().y.value()) + " " + num(e->p1().x.value()) + "," + num(e->p1().y.value())
					+ fmt(" mesh %d rev %d", es.to_mesh, es.to_reverse) + conflicts(es.conflicts, "edge conflicts")
					+ " from " + n.of(es.conflict, "edge solved conflict") + " mlp " + n.of(es.meshline_policy, "edge line policy"));
			}
		}
		for(auto const& x : b.get_angles(p)) {
			auto const& s = x->get_current_state();
			line(n.of(x.get(), "") + " at " + num(x->p.x.value()) + "," + num(x->p.y.value()) + " " + n.of(x->e0, "angle edge") + " " + n.of(x->e1, "angle edge") + " angle " + num(x->angle.value())
				+ fmt(" mesh %d %d", (bool) s.to_mesh[H], (bool) s.to_mesh[V]) + conflicts(s.conflicts, "angle conflicts") + " mlp " + n.of(s.meshline_policy, "angle line policy"));
		}
		for(auto const& x : b.get_conflicts_edge_in_polygons(p)) {
			auto const& s = x->get_current_state();
			std::string t = n.of(x.get(), "") + " edge " + n.of(x->edge, "conflict edge") + solution(s, "edge in polygon solution") + " overlaps";
			for(auto const& [poly, r, e] : s.overlaps)
				t += " (" + n.of(poly, "overlapped polygon") + " " + num(r.p0().x.value()) + "," + num(r.p0().y.value()) + ">" + num(r.p1().x.value()) + "," + num(r.p1().y.value()) + " " + (e ? n.of(*e, "overlapped edge") : "-") + ")";
			line(t);
		}
	}
	for(auto ax : AllAxis) {
		auto const s = AX[(int) ax];
		for(auto const& x : b.get_conflicts_colinear_edges(ax)) {
			auto const& st = x->get_current_state();
			std::string t = n.of(x.get(), "") + solution(st, "colinear edges solution") + " edges";
			for(auto* e : st.edges) t += " " + n.of(e, "colinear edge");
			line(t);
		}
		for(auto const& x : b.get_conflicts_too_close_meshline_policies(ax)) {
			auto const& st = x->get_current_state();
			line(n.of(x.get(), "") + solution(st, "too close solution") + " between " + n.of(x->meshline_policies[0], "too close policy") + " " + n.of(x->meshline_policies[1], "too close policy"));
		}
		for(auto const& x : b.get_conflicts_diagonal_or_circular_zones(ax)) {
			auto const& st = x->get_current_state();
			std::string t = n.of(x.get(), "") + solution(st, "diagonal zone solution") + " dmax " + num(st.dmax) + fmt(" lmin %zu", st.lmin) + " angle " + num(st.minimal_angle) + " angles";
			for(auto* e : st.angles) t += " " + n.of(e, "diagonal zone angle");
			t += " intervals";
			for(auto* e : st.intervals) t += " " + n.of(e, "diagonal zone interval");
			line(t);
		}
		for(auto const& x : b.get_meshline_policies(ax)) {
			auto const& st = x->get_current_state();
			std::string t = n.of(x.get(), "") + " at " + num(x->coord.value()) + fmt(" policy %d normal %d on %d", (int) st.policy, (int) st.normal, st.is_enabled) + " d " + num(st.d)
				+ conflicts(st.conflicts, "line policy conflicts") + " from " + n.of(st.conflict, "line policy conflict") + " origins";
			for(auto* e : st.origins) t += " " + n.of(e, "line policy origin");
			t += " lines";
			for(auto* e : st.meshlines) t += " " + n.of(e, "line policy mesh line");
			line(t);
		}
		for(auto const& x : b.get_intervals(ax)) {
			auto const& st = x->get_current_state();
			std::string t = n.of(x.get(), "") + " h " + num(x->h.value()) + " m " + num(x->m.value()) + " dmax " + num(st.dmax) + conflicts(st.conflicts, "interval conflicts");
			for(auto const* side : { &st.before, &st.after }) {
				t += " side " + n.of(side->meshline_policy, "interval side") + fmt(" lmin %zu", side->lmin) + " smooth " + num(side->smoothness) + " ls";
				for(auto const& l : side->ls) t += " " + num(l.value());
			}
			line(t);
		}
		std::size_t i = 0;
		for(auto const& x : b.get_meshlines(ax))
			line(fmt("M%s%zu ", s, i++) + num(x->coord.value()) + " i " + n.of(x->interval, "mesh line interval") + " p " + n.of(x->policy, "mesh line policy"));
		auto const pml = b.get_meshline_policies_meshlines(ax);
		std::string t = fmt("PM%s", s);
		for(auto const& x : pml) t += " " + num(x->coord.value());
		line(t);
	}
	line(fmt("cells %zu", b.get_mesh_cell_number()));
	return { o, n.dangling };
}

std::string snap_diff(std::string const& a, std::string const& b, int max_lines) {
	std::istringstream x(a), y(b);
	std::string l, m, out;
	int n = 0;
	for(int i = 1;; ++i) {
		bool const p = (bool) std::getline(x, l), q = (bool) std::getline(y, m);
		if(!p && !q) break;
		if(!p) l = "(nothing)";
		if(!q) m = "(nothing)";
		if(l != m) {
			if(n++ < max_lines) out += fmt("\n  line %d: [", i) + l.substr(0, 400) + "]\n   versus [" + m.substr(0, 400) + "]";
		}
	}
	return fmt("%d lines differ", n) + out;
}

} // namespace sim
