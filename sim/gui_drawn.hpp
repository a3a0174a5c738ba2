// What the views of the main window draw and say (P26), judged from the project
// alone: painting is recorded primitive by primitive, texts and wires are read.
// Included by world_gui.cpp.
#pragma once

#include <QAbstractButton>
#include <QGraphicsView>
#include <QPaintDevice>
#include <QPaintEngine>
#include <QStyleOptionGraphicsItem>

#include "domain/geometrics/angle.hpp"
#include "domain/geometrics/edge.hpp"
#include "domain/geometrics/polygon.hpp"
#include "ui/qt/processing_view/processing_axis.hpp"
#include "ui/qt/processing_view/processing_plane.hpp"
#include "ui/qt/processing_view/processing_polygon.hpp"
#include "ui/qt/structure_view/structure_angle.hpp"
#include "ui/qt/structure_view/structure_meshline_policy.hpp"
#include "ui/qt/utils/nodegraph/container.hpp"
#include "ui/qt/utils/nodegraph/port.hpp"
#include "ui/qt/utils/nodegraph/text.hpp"
#include "ui/qt/utils/nodegraph/wire.hpp"

namespace sim {
namespace {

using namespace domain;

char const* const axis_names[] = { "X", "Y", "Z" };
char const* const plane_names[] = { "YZ", "ZX", "XY" };
// The axes drawn to the right and upwards.
int const plane_axes[3][2] = { { 1, 2 }, { 2, 0 }, { 0, 1 } };

struct Drawn {
	std::vector<QLineF> lines;
	std::vector<std::vector<QPointF>> polygons;
	std::vector<QRectF> rects, ellipses;
	std::vector<std::pair<std::string, QPointF>> texts;
};

struct Engine final : QPaintEngine {
	Drawn& to;
	explicit Engine(Drawn& d) : QPaintEngine(QPaintEngine::AllFeatures), to(d) {}
	bool begin(QPaintDevice*) override { return true; }
	bool end() override { return true; }
	void updateState(QPaintEngineState const&) override {}
	void drawPixmap(QRectF const&, QPixmap const&, QRectF const&) override {}
	Type type() const override { return QPaintEngine::User; }
	void drawLines(QLineF const* l, int n) override { to.lines.insert(to.lines.end(), l, l + n); }
	void drawRects(QRectF const* r, int n) override { to.rects.insert(to.rects.end(), r, r + n); }
	void drawEllipse(QRectF const& r) override { to.ellipses.push_back(r); }
	void drawPolygon(QPointF const* p, int n, PolygonDrawMode) override { to.polygons.emplace_back(p, p + n); }
	void drawTextItem(QPointF const& p, QTextItem const& t) override { to.texts.push_back({ t.text().toStdString(), p }); }
	void drawPath(QPainterPath const& p) override { for(auto const& x : p.toSubpathPolygons()) to.polygons.emplace_back(x.begin(), x.end()); }
	using QPaintEngine::drawEllipse, QPaintEngine::drawLines, QPaintEngine::drawPolygon, QPaintEngine::drawRects;
};

struct Paper final : QPaintDevice {
	Drawn drawn;
	mutable Engine engine { drawn };
	QPaintEngine* paintEngine() const override { return &engine; }
	int metric(PaintDeviceMetric m) const override {
		switch(m) {
		case PdmWidth: case PdmHeight: return 1000;
		case PdmWidthMM: case PdmHeightMM: return 264;
		case PdmNumColors: return 1 << 24;
		case PdmDepth: return 32;
		case PdmDpiX: case PdmDpiY: case PdmPhysicalDpiX: case PdmPhysicalDpiY: return 96;
		case PdmDevicePixelRatioScaled: return (int) QPaintDevice::devicePixelRatioFScale();
		default: return 1;
		}
	}
};

Drawn drawing_of(QGraphicsItem* i, bool selected) {
	Paper paper;
	{
		QPainter p(&paper);
		QStyleOptionGraphicsItem o;
		o.state = selected ? QStyle::State_Enabled | QStyle::State_Selected : QStyle::State_Enabled;
		i->paint(&p, &o, nullptr);
	}
	QPointF const at = i->scenePos();
	for(auto& x : paper.drawn.lines) x.translate(at);
	for(auto& x : paper.drawn.rects) x.translate(at);
	for(auto& x : paper.drawn.ellipses) x.translate(at);
	for(auto& x : paper.drawn.polygons) for(auto& y : x) y += at;
	return paper.drawn;
}

// The names of the axes in the corner of the view are those of the plane, the way it is turned.
std::string misnamed_axes(QGraphicsView* v, int plane) {
	static char const* const names[] = { "x", "y", "z" };
	Paper paper;
	{
		QPainter p(&paper);
		v->render(&p, QRectF(0, 0, 1, 1), QRect(0, 0, 1, 1));
	}
	std::string const right = names[plane_axes[plane][0]], up = names[plane_axes[plane][1]];
	std::optional<QPointF> r, u;
	std::string all;
	for(auto const& [text, at] : paper.drawn.texts) {
		all += " " + text;
		if(text == right) r = at;
		else if(text == up) u = at;
	}
	if(paper.drawn.texts.size() != 2 || !r || !u) return "are named" + all + " rather than " + right + " " + up;
	auto const m = v->viewportTransform();
	QPointF const o = m.map(QPointF(0, 0));
	auto unit = [](QPointF p) { double const n = std::hypot(p.x(), p.y()); return n > 0 ? p / n : p; };
	QPointF const d = unit(unit(m.map(QPointF(1, 0)) - o) - unit(m.map(QPointF(0, 1)) - o)), f = unit(*r - *u);
	if(d.x() * f.x() + d.y() * f.y() < 0.9) return fmt("are named in other directions (%.2f %.2f) than they are drawn (%.2f %.2f)", f.x(), f.y(), d.x(), d.y());
	return {};
}

bool near(double a, double b) { return a == b || std::abs(a - b) <= 1e-9 * (1 + std::abs(a) + std::abs(b)); }

// Distinct values, rounding aside.
std::vector<double> distinct(std::vector<double> v) {
	std::ranges::sort(v);
	v.erase(std::unique(v.begin(), v.end(), near), v.end());
	return v;
}
std::string list(std::vector<double> const& v) { std::string r; for(double x : v) r += fmt("%s%.9g", r.empty() ? "" : " ", x); return r; }

// The last digit displayed of a number may be rounded either way.
bool same_text(std::string const& a, std::string const& b) {
	if(a == b) return true;
	auto const i = a.find(": "), j = b.find(": ");
	if(i == std::string::npos || i != j || a.compare(0, i, b, 0, j) != 0) return false;
	char *x, *y;
	double const u = std::strtod(a.c_str() + i + 2, &x), v = std::strtod(b.c_str() + j + 2, &y);
	if(*x || *y) return false;
	return std::abs(u - v) <= (a.starts_with("Coord") ? 1.1e-6 : 1.1e-5 * std::abs(v));
}
std::string number(double d) { return fmt("%.6g", d); }
char const* yes(bool b) { return b ? "true" : "false"; }
char const* name_of(Normal n) {
	switch(n) {
	case Normal::XMIN: return "XMIN"; case Normal::XMAX: return "XMAX";
	case Normal::YMIN: return "YMIN"; case Normal::YMAX: return "YMAX";
	case Normal::ZMIN: return "ZMIN"; case Normal::ZMAX: return "ZMAX";
	default: return "NONE";
	}
}
char const* name_of(MeshlinePolicy::Normal n) { return n == MeshlinePolicy::Normal::MIN ? "MIN" : n == MeshlinePolicy::Normal::MAX ? "MAX" : "NONE"; }
char const* name_of(MeshlinePolicy::Policy p) { return p == MeshlinePolicy::Policy::ONELINE ? "ONELINE" : p == MeshlinePolicy::Policy::HALFS ? "HALFS" : "THIRDS"; }
char const* name_of(Material::Type t) {
	switch(t) {
	case Material::Type::PORT: return "PORT";
	case Material::Type::CONDUCTOR: return "CONDUCTOR";
	case Material::Type::DIELECTRIC: return "DIELECTRIC";
	default: return "AIR";
	}
}

struct Placed { char kind; Entity const* entity; void const* object; int place; Polygon const* in; }; // Place: plane or axis.

std::vector<Placed> placed_of(Board const& b) {
	std::vector<Placed> r;
	auto all = [&](char kind, auto const& v, int place) { for(auto const& x : v) r.push_back({ kind, static_cast<Entity const*>(x.get()), x.get(), place, nullptr }); };
	int n = 0;
	for(auto p : { YZ, ZX, XY }) {
		for(auto const& x : b.get_polygons(p)) {
			r.push_back({ 'P', static_cast<Entity const*>(x.get()), x.get(), n, nullptr });
			for(auto const& e : x->edges) r.push_back({ 'E', static_cast<Entity const*>(e.get()), e.get(), n, x.get() });
		}
		all('A', b.get_angles(p), n);
		all('X', b.get_conflicts_edge_in_polygons(p), n);
		++n;
	}
	n = 0;
	for(auto a : { X, Y, Z }) {
		all('C', b.get_conflicts_colinear_edges(a), n);
		all('T', b.get_conflicts_too_close_meshline_policies(a), n);
		all('Z', b.get_conflicts_diagonal_or_circular_zones(a), n);
		all('M', b.get_meshline_policies(a), n);
		all('I', b.get_intervals(a), n);
		all('L', b.get_meshlines(a), n);
		++n;
	}
	return r;
}
bool of_plane(char kind) { return kind == 'P' || kind == 'E' || kind == 'A' || kind == 'X'; }

template<typename T> Entity const* entity_of(T const* x) { return x ? dynamic_cast<Entity const*>(x) : nullptr; }

// What a node says, and the objects it comes from.
void told(Placed const& i, std::vector<std::string>& texts, std::vector<Entity const*>& from) {
	auto title = [&](char const* type) { texts.push_back(fmt("%s - %llu", type, (unsigned long long) i.entity->id)); };
	auto in = [&](auto const* x) { if(auto const* e = entity_of(x)) from.push_back(e); };
	switch(i.kind) {
	case 'P': {
		auto const& x = *static_cast<Polygon const*>(i.object);
		texts.push_back(fmt("Polygon - %llu - ", (unsigned long long) i.entity->id) + x.name);
		texts.push_back(std::string("Type: ") + (x.material ? name_of(x.material->type) : ""));
		texts.push_back("Priority: " + std::to_string(x.priority));
		break;
	}
	case 'E': {
		auto const& x = *static_cast<Edge const*>(i.object);
		title("Edge");
		texts.push_back(std::string("Normal: ") + name_of(x.normal));
		texts.push_back(std::string("To mesh: ") + yes(x.get_current_state().to_mesh));
		texts.push_back(std::string("To reverse: ") + yes(x.get_current_state().to_reverse));
		in(x.get_current_state().conflict);
		break;
	}
	case 'A': {
		auto const& x = *static_cast<Angle const*>(i.object);
		title("Angle");
		texts.push_back("Angle (°): " + number(x.angle.value()));
		texts.push_back(std::string("To mesh [H]: ") + yes(x.get_current_state().to_mesh[H]));
		texts.push_back(std::string("To mesh [V]: ") + yes(x.get_current_state().to_mesh[V]));
		in(x.e0);
		in(x.e1);
		break;
	}
	case 'X': {
		auto const& x = *static_cast<ConflictEdgeInPolygon const*>(i.object);
		title("ConflictEdgeInPolygon");
		in(x.edge);
		for(auto const& [polygon, range, edge] : x.get_current_state().overlaps) in(polygon);
		break;
	}
	case 'C': {
		auto const& x = *static_cast<ConflictColinearEdges const*>(i.object);
		title("ConflictColinearEdges");
		for(auto const* e : x.get_current_state().edges) in(e);
		break;
	}
	case 'T': {
		auto const& x = *static_cast<ConflictTooCloseMeshlinePolicies const*>(i.object);
		title("ConflictTooCloseMeshlinePolicies");
		for(auto const* p : x.meshline_policies) in(p);
		break;
	}
	case 'Z': {
		auto const& x = static_cast<ConflictDiagonalOrCircularZone const*>(i.object)->get_current_state();
		title("ConflictDiagonalOrCircularZone");
		texts.push_back("dmax: " + number(x.dmax));
		texts.push_back("lmin: " + number(x.lmin));
		texts.push_back("Minimal angle (°): " + number(x.minimal_angle));
		for(auto const* a : x.angles) in(a);
		break;
	}
	case 'M': {
		auto const& x = static_cast<MeshlinePolicy const*>(i.object)->get_current_state();
		title("MeshlinePolicy");
		texts.push_back(std::string("Normal: ") + name_of(x.normal));
		texts.push_back(std::string("Is enabled: ") + yes(x.is_enabled));
		texts.push_back(std::string("Policy: ") + name_of(x.policy));
		texts.push_back("d: " + number(x.d));
		for(auto const* o : x.origins) in(o);
		break;
	}
	case 'I': {
		auto const& x = static_cast<Interval const*>(i.object)->get_current_state();
		title("Interval");
		texts.push_back("dmax: " + number(x.dmax));
		texts.push_back("Before.lmin: " + number(x.before.lmin));
		texts.push_back("Before.Smoothness: " + number(x.before.smoothness));
		texts.push_back("After.lmin: " + number(x.after.lmin));
		texts.push_back("After.Smoothness: " + number(x.after.smoothness));
		in(x.before.meshline_policy);
		in(x.after.meshline_policy);
		for(auto const* c : x.conflicts) if(auto const* z = dynamic_cast<ConflictDiagonalOrCircularZone const*>(c)) in(z);
		break;
	}
	case 'L': {
		auto const& x = *static_cast<Meshline const*>(i.object);
		title("Meshline");
		texts.push_back(fmt("Coord: %.6f", x.coord.value()));
		in(x.interval);
		in(x.policy);
		break;
	}
	}
	std::ranges::sort(texts);
	std::ranges::sort(from);
	from.erase(std::unique(from.begin(), from.end()), from.end());
}

bool has_surface(Polygon const& p) {
	bool w = false, h = false;
	for(auto const& x : p.points) {
		if(x->x.value() != p.points.front()->x.value()) w = true;
		if(x->y.value() != p.points.front()->y.value()) h = true;
	}
	return w && h;
}

// Where an object of an axis is drawn: the coordinates of its lines, or its extent.
std::vector<double> coordinates_of(Placed const& i, bool& extent) {
	extent = false;
	auto at = [](MeshlinePolicy const* p) { return p->coord.value(); };
	switch(i.kind) {
	case 'L': return { static_cast<Meshline const*>(i.object)->coord.value() };
	case 'M': {
		auto const& x = *static_cast<MeshlinePolicy const*>(i.object);
		auto const& s = x.get_current_state();
		double const c = x.coord.value();
		if(s.policy == MeshlinePolicy::Policy::HALFS) return { c, c - s.d / 2, c + s.d / 2 };
		if(s.policy == MeshlinePolicy::Policy::THIRDS && s.normal == MeshlinePolicy::Normal::MAX) return { c, c + s.d * 2 / 3, c - s.d / 3 };
		if(s.policy == MeshlinePolicy::Policy::THIRDS && s.normal == MeshlinePolicy::Normal::MIN) return { c, c - s.d * 2 / 3, c + s.d / 3 };
		return { c };
	}
	case 'T': {
		auto const& x = *static_cast<ConflictTooCloseMeshlinePolicies const*>(i.object);
		std::vector<double> r { at(x.meshline_policies[0]), at(x.meshline_policies[1]) };
		if(auto const* p = dynamic_cast<MeshlinePolicy const*>(x.get_current_state().solution)) r.push_back(at(p));
		return r;
	}
	case 'C': {
		auto const* e = static_cast<ConflictColinearEdges const*>(i.object)->get_current_state().edges.front();
		// The coordinate both ends share; the plane of the edge tells which.
		bool const along_y = near(e->p0().x.value(), e->p1().x.value());
		return { along_y ? e->p0().x.value() : e->p0().y.value() };
	}
	case 'I': {
		extent = true;
		auto const& x = static_cast<Interval const*>(i.object)->get_current_state();
		return { at(x.before.meshline_policy), at(x.after.meshline_policy) };
	}
	case 'Z': {
		extent = true;
		auto const b = static_cast<ConflictDiagonalOrCircularZone const*>(i.object)->bounding();
		return { b[XMIN].value(), b[XMAX].value() };
	}
	}
	return {};
}

// Returns what is wrong, or nothing.
std::string misdrawn(Placed const& i, int plane, QGraphicsItem* item, QRectF const* drawing, bool selected) {
	auto const d = drawing_of(item, selected);
	switch(i.kind) {
	case 'E': {
		auto const& e = *static_cast<Edge const*>(i.object);
		QPointF const a(e.p0().x.value(), e.p0().y.value()), b(e.p1().x.value(), e.p1().y.value());
		auto same = [](QPointF const& x, QPointF const& y) { return near(x.x(), y.x()) && near(x.y(), y.y()); };
		if(d.lines.size() != 1 || !((same(d.lines[0].p1(), a) && same(d.lines[0].p2(), b)) || (same(d.lines[0].p1(), b) && same(d.lines[0].p2(), a))))
			return fmt("is not drawn from %.9g %.9g to %.9g %.9g", a.x(), a.y(), b.x(), b.y());
		return {};
	}
	case 'P': {
		auto const& p = *static_cast<Polygon const*>(i.object);
		auto sides = [](std::vector<QPointF> v) {
			while(v.size() > 1 && near(v.front().x(), v.back().x()) && near(v.front().y(), v.back().y())) v.pop_back();
			std::vector<std::array<double, 4>> r;
			for(std::size_t k = 0; k < v.size(); ++k) {
				auto a = v[k], b = v[(k + 1) % v.size()];
				if(std::pair(b.x(), b.y()) < std::pair(a.x(), a.y())) std::swap(a, b);
				r.push_back({ a.x(), a.y(), b.x(), b.y() });
			}
			std::ranges::sort(r);
			return r;
		};
		std::vector<QPointF> points;
		for(auto const& x : p.points) points.emplace_back(x->x.value(), x->y.value());
		if(d.polygons.size() != 1) return fmt("is drawn as %zu shapes", d.polygons.size());
		auto const a = sides(points), b = sides(d.polygons[0]);
		bool ok = a.size() == b.size();
		for(std::size_t k = 0; ok && k < a.size(); ++k) for(int j = 0; j < 4; ++j) ok = ok && near(a[k][j], b[k][j]);
		if(!ok) return fmt("(%zu sides) is not drawn with its sides (%zu)", a.size(), b.size());
		return {};
	}
	case 'A': {
		auto const& a = *static_cast<Angle const*>(i.object);
		QPointF const c(a.p.x.value(), a.p.y.value());
		if(d.ellipses.empty() && d.lines.empty()) return "is not drawn";
		for(auto const& r : d.ellipses) if(!near(r.center().x(), c.x()) || !near(r.center().y(), c.y())) return fmt("is drawn at %.9g %.9g rather than %.9g %.9g", r.center().x(), r.center().y(), c.x(), c.y());
		for(auto const& l : d.lines) if(!near(l.center().x(), c.x()) || !near(l.center().y(), c.y())) return fmt("is crossed at %.9g %.9g rather than %.9g %.9g", l.center().x(), l.center().y(), c.x(), c.y());
		return {};
	}
	}
	// Objects of an axis.
	bool const across = plane_axes[plane][0] == i.place; // Along the horizontal axis of the view: vertical lines.
	bool extent;
	auto const expected = distinct(coordinates_of(i, extent));
	double const low = !drawing ? 0 : across ? drawing->top() : drawing->left(), high = !drawing ? 0 : across ? drawing->bottom() : drawing->right();
	std::vector<double> found;
	bool spans = true;
	for(auto const& l : d.lines) {
		double const c0 = across ? l.x1() : l.y1(), c1 = across ? l.x2() : l.y2();
		double const s0 = across ? l.y1() : l.x1(), s1 = across ? l.y2() : l.x2();
		if(!near(c0, c1)) return "is drawn with a line that is not perpendicular to its axis";
		found.push_back(c0);
		if(std::min(s0, s1) > low || std::max(s0, s1) < high) spans = false;
	}
	for(auto const& r0 : d.rects) {
		auto const r = r0.normalized();
		found.push_back(across ? r.left() : r.top());
		found.push_back(across ? r.right() : r.bottom());
		if((across ? r.top() : r.left()) > low || (across ? r.bottom() : r.right()) < high) spans = false;
	}
	if(extent != d.lines.empty() || extent == d.rects.empty()) return fmt("is drawn with %zu lines and %zu rectangles", d.lines.size(), d.rects.size());
	found = distinct(found);
	if(found.size() != expected.size() || !std::ranges::equal(found, expected, near)) return fmt("is drawn at %s rather than %s", list(found).c_str(), list(expected).c_str());
	if(drawing && !spans) return "is not drawn across the whole drawing";
	return {};
}

} // namespace
} // namespace sim
