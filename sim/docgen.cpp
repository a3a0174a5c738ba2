#include "docgen.hpp"

namespace sim::doc {

namespace {

char const* const props[] = { "Metal", "Material", "LumpedElement", "Excitation", "ConductingSheet", "ProbeBox", "DumpBox", "DebyeMaterial", "Unknown", "ResBox", "DiscMaterial", "LorentzMaterial", "DispersiveMaterial" };
char const* const kinds[] = { "Box", "LinPoly", "Polygon", "Cylinder", "Point", "MultiBox", "Sphere", "Curve", "Wire", "BoxT", "Odd" };
char const* const odd_kinds[] = { "RotPoly", "Polyhedron", "PolyhedronReader", "SphericalShell", "CylindricalShell", "User-Defined" };
char const* const gparams[] = { "dmax", "lmin", "Smoothness", "ProximityLimit" };

// Halves of small integers, so that geometry is exact.
std::string co(long v) {
	long const h = ((v % 121) + 121) % 121; // 0..60 by 0.5
	return h % 2 ? fmt("%ld.5", h / 2) : fmt("%ld", h / 2);
}
thread_local long shift = 0; // Halves.
// A place: may be negative.
std::string at(long v) {
	long const h = ((v % 121) + 121) % 121 - shift, m = std::labs(h);
	return std::string(h < 0 ? "-" : "") + (m % 2 ? fmt("%ld.5", m / 2) : fmt("%ld", m / 2));
}
std::string p3(char const* tag, long x, long y, long z) {
	return fmt("<%s X=\"%s\" Y=\"%s\" Z=\"%s\"/>", tag, at(x).c_str(), at(y).c_str(), at(z).c_str());
}

} // namespace

void generate(Rng& rng, Trace& t, Options const& o, int id) {
	std::string const d = std::to_string(id) + " ";
	auto add = [&](char const* k, std::string const& rest) { t.add(std::string(k) + " " + d + rest); };
	add("docroot", fmt("%d %d", rng.chance(15) ? 1 : 0, rng.chance(20) ? 1 + (int) rng.below(2) : 0));
	if(rng.chance(25)) add("docshift", fmt("%d", rng.range(1, 80)));
	// Coordinates from a small palette, so that edges meet.
	std::vector<int> pal;
	int const n = rng.range(3, 8);
	for(int i = 0; i < n; ++i) pal.push_back(rng.chance(80) ? 4 * rng.range(0, 14) : rng.range(0, 60));
	auto c = [&] { return rng.pick(pal); };
	int const np = rng.range(1, o.max_props);
	int budget = rng.range(1, o.max_prims);
	bool const flat = rng.chance(10);
	bool const allow_diag = o.diagonals && rng.chance(o.outlines ? 90 : 60), allow_round = o.rounds && rng.chance(25), allow_multi = rng.chance(30);
	for(int p = 0; p < np; ++p) {
		add("prop", fmt("%d %d %d %d", (int) rng.weighted({ 16, 16, 6, 4, 2, 2, 2, 2, 2, 1, 1, 1, 1 }), (int) rng.below(8), (int) rng.weighted({ 8, 1, 1, 1, 2, 1, 1 }), (int) rng.below(3)));
		int k = rng.range(1, 3);
		while(k-- > 0 && budget-- > 0) {
			int kind = (int) rng.weighted({ 12, allow_diag ? o.outlines ? 14 : 7 : 1, allow_diag ? o.outlines ? 8 : 4 : 1, allow_round ? 3 : 0, 2, allow_multi ? 4 : 1, allow_round ? 1 : 0, 1, 1, 1, 1 });
			std::string s = fmt("%d", kind);
			int x1 = c(), x2 = c(), y1 = c(), y2 = c(), z1 = c(), z2 = c();
			if(flat && rng.chance(70)) z2 = z1;
			s += fmt(" %d %d %d %d %d %d %d %d", x1, y1, z1, x2, y2, z2, (int) rng.below(4), (int) rng.below(3));
			s += fmt(" %d", (int) rng.below(10)); // Shape variant.
			for(int v = 0; v < 6; ++v) s += fmt(" %d", c());
			if((o.degenerate || o.incomplete) && rng.chance(o.degenerate ? 20 : 6)) s += fmt(" d%d", (int) rng.below(8));
			add("prim", s);
		}
	}
	if(o.outlines && rng.chance(40)) { // A box across the notch of an outline.
		auto ramp = [&](int m) { std::vector<int> r{ 2 * rng.range(0, 6) }; while((int) r.size() < m) r.push_back(r.back() + 2 * rng.range(1, 4)); return r; };
		auto const u = ramp(6), v = ramp(5);
		int const nd = (int) rng.below(3), z1 = c(), z2 = z1 + 2 * rng.range(0, 4), hi = (int) rng.below(4), lo = (int) rng.below(4);
		bool const turned = rng.chance(50); // The notch on the other side.
		add("prop", fmt("%d %d", (int) rng.below(2), (int) rng.below(8)));
		add("prim", fmt("%d %d %d %d %d %d %d %d %d 7 %d %d %d 0 0 0", rng.chance(70) ? 1 : 2, u[0], turned ? v[4] : v[0], z1, u[5], turned ? v[0] : v[4], z2, hi, nd, u[2], u[3], v[2]));
		int lowest[3], highest[3];
		lowest[(nd + 1) % 3] = u[1], highest[(nd + 1) % 3] = u[4];
		lowest[(nd + 2) % 3] = turned ? v[1] : v[3], highest[(nd + 2) % 3] = turned ? (rng.chance(50) ? v[3] : v[2] + 8) : (rng.chance(50) ? v[3] + 9 : v[4]);
		lowest[nd] = z1 - (rng.chance(30) ? 2 : 0), highest[nd] = z2;
		add("prop", fmt("%d %d", (int) rng.below(2), (int) rng.below(8)));
		add("prim", fmt("0 %d %d %d %d %d %d %d 0 0 0 0 0 0 0 0", lowest[0], lowest[1], lowest[2], highest[0], highest[1], highest[2], lo));
	}
	if(o.outlines && rng.chance(25)) { // A box whose corner is in the middle of a diamond: corners of the diamond are straight ahead on every side.
		int const nd = (int) rng.below(3), cu = c(), cv = c(), ru = 2 * rng.range(1, 8), rv = 2 * rng.range(1, 8), z1 = c(), z2 = z1 + 2 * rng.range(0, 4);
		add("prop", fmt("%d %d", (int) rng.below(2), (int) rng.below(8)));
		add("prim", fmt("%d %d %d %d %d %d %d %d %d 4 0 0 0 0 0 0", rng.chance(70) ? 1 : 2, cu - ru, cv - rv, z1, cu + ru, cv + rv, z2, (int) rng.below(4), nd));
		int from[3], to[3];
		int const du = rng.range(1, ru + 3) * (rng.chance(50) ? 1 : -1), dv = rng.range(1, rv + 3) * (rng.chance(50) ? 1 : -1);
		from[(nd + 1) % 3] = cu, to[(nd + 1) % 3] = cu + du;
		from[(nd + 2) % 3] = cv, to[(nd + 2) % 3] = cv + dv;
		from[nd] = z1 - (rng.chance(30) ? 2 : 0), to[nd] = z2;
		add("prop", fmt("%d %d", (int) rng.below(2), (int) rng.below(8)));
		add("prim", fmt("0 %d %d %d %d %d %d %d 0 0 0 0 0 0 0 0", from[0], from[1], from[2], to[0], to[1], to[2], (int) rng.below(4)));
	}
	if(rng.chance(35)) {
		for(int a = 0; a < 3; ++a) if(rng.chance(70)) {
			std::string s = fmt("%d", a);
			int const m = rng.range(1, 4);
			for(int i = 0; i < m; ++i) s += fmt(" %d", c());
			add("docgrid", s);
		}
	}
	if(o.params && rng.chance(50)) {
		if(rng.chance(70)) add("docparam", fmt("0 %d", rng.range(2, 20)));
		if(rng.chance(50)) add("docparam", fmt("1 %d", rng.range(1, 5)));
		if(rng.chance(40)) add("docparam", fmt("2 %d", rng.range(11, 20)));
		if(rng.chance(50)) add("docparam", fmt("3 %d", rng.range(1, 8)));
	}
	if(o.params && rng.chance(30)) {
		int const m = rng.range(1, 4);
		for(int i = 0; i < m; ++i) add("docfix", fmt("%d %d", (int) rng.below(3), c()));
		if(rng.chance(50)) add("docunit", fmt("%d", rng.range(0, 3)));
	}
	if(o.extras) {
		int const m = rng.range(0, 4);
		for(int i = 0; i < m; ++i) add("docextra", fmt("%d %d", (int) rng.below(12), (int) rng.below(5)));
	}
}

std::string render(Trace const& t, int id) {
	std::string const want = std::to_string(id);
	int root = 0, bg = 0;
	shift = 0;
	long unit = 1; // 0: not told.
	std::string propsx, gp, extras_root, extras_csx, extras_top, extras_grid;
	std::vector<std::string> grid[3], fix[3];
	bool in_prop = false;
	std::string cur_open, cur_close;
	int count_props = 0;
	bool has_gp = false, has_fix = false;
	for(auto const& l : t.lines) {
		if(l.at(1) != want) continue;
		if(l.is("docroot")) { root = (int) l.num(2) % 3; bg = (int) l.num(3) % 3; }
		else if(l.is("docshift")) shift = std::labs(l.num(2)) % 121;
		else if(l.is("prop")) {
			if(in_prop) propsx += cur_close;
			auto const k = props[(std::size_t) l.num(2) % std::size(props)];
			std::string attrs = fmt(" ID=\"%d\" Name=\"n%ld\"", count_props++, l.num(3) % 8);
			std::string inner = "<FillColor R=\"255\" G=\"10\" B=\"" + std::to_string(l.num(3) % 256) + "\" a=\"255\"/>";
			if(l.num(5) % 3 == 1) inner += "<EdgeColor R=\"" + std::to_string(l.num(3) * 7 % 256) + "\" G=\"20\" B=\"30\" a=\"" + std::to_string(l.num(3) * 31 % 256) + "\"/>";
			if(l.num(5) % 3 == 2) inner.clear();
			if(std::string(k).ends_with("Material") && k != std::string("DiscMaterial")) switch(long const e = 1 + l.num(3) % 4; l.num(4) % 7) {
			case 0: inner += fmt("<Property Epsilon=\"%ld\" Mue=\"1\"/>", e); break;
			case 1: inner += fmt("<Property Epsilon=\"%ld\" Mue=\"2\"/>", e); break;
			case 2: inner += fmt("<Property Epsilon=\"%ld\" Mue=\"1\" Kappa=\"0.5\"/>", e); break;
			case 3: inner += "<Property Sigma=\"1\"/>"; break;
			case 4: inner += "<Property Epsilon=\"1\" Mue=\"1\" Kappa=\"56e6\" Sigma=\"0\"/>"; break;
			case 5: inner += fmt("<Property Epsilon=\"0.5\" Mue=\"%ld\"/>", e); break;
			}
			propsx += std::string("<") + k + attrs + ">" + inner + "<Primitives>";
			cur_close = std::string("</Primitives></") + k + ">\n";
			in_prop = true;
		} else if(l.is("prim")) {
			if(!in_prop) {
				propsx += "<Metal ID=\"99\" Name=\"implicit\"><Primitives>";
				cur_close = "</Primitives></Metal>\n";
				in_prop = true;
			}
			auto const kind = (std::size_t) l.num(2) % std::size(kinds);
			long v[8];
			for(int i = 0; i < 8; ++i) v[i] = l.num((std::size_t) (3 + i));
			long const shape = std::labs(l.num(11)) % 10;
			long e[6];
			for(int i = 0; i < 6; ++i) e[i] = l.num((std::size_t) (12 + i));
			int const deg = l.at(18).size() > 1 && l.at(18)[0] == 'd' ? std::atoi(l.at(18).c_str() + 1) : -1;
			std::string const prio = fmt("Priority=\"%ld\"", std::labs(v[6]) % 16);
			long const nd = std::labs(v[7]) % 3;
			std::string s;
			auto vertices = [&] { // A polygon in half units.
				long const a = v[0], b = v[1], cc = v[3], d = v[4];
				std::vector<std::pair<long, long>> p;
				switch(shape) {
				case 0: p = { { a, b }, { cc, b }, { cc, d } }; break;                            // Right triangle.
				case 1: p = { { a, b }, { cc, b }, { cc, d }, { a, d } }; break;                  // Rectangle.
				case 2: p = { { a, b }, { cc, b }, { cc, d }, { (a + cc) / 2, d }, { (a + cc) / 2, (b + d) / 2 }, { a, (b + d) / 2 } }; break; // L.
				case 3: p = { { a, b }, { e[0], e[1] }, { cc, d }, { e[2], e[3] } }; break;       // Anything.
				case 4: p = { { (a + cc) / 2, b }, { cc, (b + d) / 2 }, { (a + cc) / 2, d }, { a, (b + d) / 2 } }; break; // Diamond.
				case 6: { // U.
					long const q1 = (3 * a + cc) / 4, q3 = (a + 3 * cc) / 4, m = (b + d) / 2;
					p = { { a, b }, { cc, b }, { cc, d }, { q3, d }, { q3, m }, { q1, m }, { q1, d }, { a, d } };
					break;
				}
				case 7: // Notched at other coordinates: what is in the notch may have its ends in the polygon.
					p = { { a, b }, { cc, b }, { cc, d }, { e[1], d }, { e[1], e[2] }, { e[0], e[2] }, { e[0], d }, { a, d } };
					break;
				case 8: { // Octagon.
					long const x1 = (3 * a + cc) / 4, x2 = (a + 3 * cc) / 4, y1 = (3 * b + d) / 4, y2 = (b + 3 * d) / 4;
					p = { { x1, b }, { x2, b }, { cc, y1 }, { cc, y2 }, { x2, d }, { x1, d }, { a, y2 }, { a, y1 } };
					break;
				}
				case 9: // Trapezoid.
					p = { { a, b }, { cc, b }, { (a + 3 * cc) / 4, d }, { (3 * a + cc) / 4, d } };
					break;
				default: p = { { a, b }, { cc, d }, { e[0], e[1] } }; break;                      // Triangle.
				}
				if(deg == 0) p.clear();
				if(deg == 1) p.resize(1);
				if(deg == 2) p.resize(2);
				std::string x;
				for(auto const& [q, r] : p) x += fmt("<Vertex X1=\"%s\" X2=\"%s\"/>", at(q).c_str(), at(r).c_str());
				return x;
			};
			long const ndv = deg == 3 ? 7 : nd;
			switch(kind) {
			case 0: s = "<Box " + prio + ">" + p3("P1", v[0], v[1], v[2]) + (deg == 4 ? "" : p3("P2", v[3], v[4], v[5])) + "</Box>"; break;
			case 1: s = "<LinPoly " + prio + fmt(" Elevation=\"%s\" Length=\"%s%s\" NormDir=\"%ld\" CoordSystem=\"0\">", at(v[2]).c_str(), e[4] / 4 % 8 == 5 ? "-" : "", co(std::labs(v[5] - v[2]) + (shape % 2)).c_str(), ndv) + vertices() + "</LinPoly>"; break;
			case 2: s = "<Polygon " + prio + fmt(" Elevation=\"%s\" NormDir=\"%ld\" CoordSystem=\"0\">", at(v[2]).c_str(), ndv) + vertices() + "</Polygon>"; break;
			case 3: {
				long q[6] = { v[0], v[1], v[2], v[0], v[1], v[2] };
				q[3 + nd] = v[3 + nd];
				if(shape == 5) q[3 + (nd + 1) % 3] += 3; // Oblique: unsupported.
				s = "<Cylinder " + prio + fmt(" Radius=\"%s\">", deg == 5 ? "0" : co(2 + std::labs(e[0]) % 14).c_str()) + p3("P1", q[0], q[1], q[2]) + p3("P2", q[3], q[4], q[5]) + "</Cylinder>";
			} break;
			case 4: s = p3("Point", v[0], v[1], v[2]); break;
			case 5: s = "<MultiBox " + prio + ">" + p3("StartP", v[0], v[1], v[2]) + p3("EndP", v[3], v[4], v[5]) + p3("StartP", e[0], e[1], e[2]) + (deg == 4 ? "" : p3("EndP", e[3], e[4], e[5])) + "</MultiBox>"; break;
			case 6: s = "<Sphere " + prio + fmt(" Radius=\"%s\">", deg == 5 ? "0" : co(2 + std::labs(e[0]) % 14).c_str()) + p3("Center", v[0], v[1], v[2]) + "</Sphere>"; break;
			case 7: s = "<Curve " + prio + ">" + (deg == 0 ? "" : p3("Vertex", v[0], v[1], v[2])) + (deg == 0 || deg == 1 ? "" : p3("Vertex", v[3], v[4], v[5]) + (shape % 2 ? p3("Vertex", e[0], e[1], e[2]) : "")) + "</Curve>"; break;
			case 8: s = "<Wire " + prio + " WireRadius=\"1\">" + p3("Vertex", v[0], v[1], v[2]) + p3("Vertex", v[3], v[4], v[5]) + "</Wire>"; break;
			case 9: s = "<Box " + prio + ">" + p3("P1", v[0], v[1], v[2]) + p3("P2", v[3], v[4], v[5]) + (shape % 4 == 3 ? "<Transformation/></Box>" : "<Transformation><Translate Argument=\"1,2,3\"/></Transformation></Box>"); break;
			default: {
				std::string const k = odd_kinds[(std::size_t) shape % std::size(odd_kinds)];
				s = "<" + k + " " + prio + " Radius=\"2\" Elevation=\"1\" NormDir=\"0\">" + p3("P1", v[0], v[1], v[2]) + p3("P2", v[3], v[4], v[5]) + "<Vertex X1=\"1\" X2=\"2\"/></" + k + ">";
			} break;
			}
			if(deg == 6) { // Numbers that are none.
				auto q = s.find("=\"");
				q = s.find("=\"", q + 2);
				if(q != std::string::npos) s.insert(q + 2, "x");
			}
			if(deg == 7) { auto q = s.find(" Priority"); if(q != std::string::npos) s.insert(q, " Junk=\"1\""); }
			propsx += s;
		} else if(l.is("docgrid")) {
			auto& g = grid[(std::size_t) std::labs(l.num(2)) % 3];
			for(std::size_t i = 3; i < l.w.size(); ++i) g.push_back(at(l.num(i)));
		} else if(l.is("docfix")) {
			fix[(std::size_t) std::labs(l.num(2)) % 3].push_back(at(l.num(3)));
			has_fix = true;
		} else if(l.is("docunit")) {
			unit = std::labs(l.num(2)) % 4;
		} else if(l.is("docparam")) {
			long const w = std::labs(l.num(2)) % 4, x = std::labs(l.num(3));
			std::string val;
			switch(w) {
			case 0: val = fmt("%.1f", 0.5 * (double) (x < 2 ? 2 : x)); break;   // dmax 1..10
			case 1: val = fmt("%ld", x < 1 ? 1 : x); break;           // lmin
			case 2: val = fmt("%.1f", (x < 11 || x > 20) ? 2.0 : 0.1 * (double) x); break; // smoothness
			default: val = fmt("%.2f", 0.25 * (double) (x < 1 ? 1 : x)); // proximity
			}
			gp += fmt(" %s=\"%s\"", gparams[w], val.c_str());
			has_gp = true;
			(void) w;
		} else if(l.is("docextra")) {
			long const k = l.num(2) % 12, n = l.num(3);
			switch(k) {
			case 0: extras_root += fmt("<FDTD NumberOfTimesteps=\"%ld\" endCriteria=\"1e-05\"><BoundaryCond xmin=\"PML_8\"/></FDTD>\n", n); break;
			case 1: extras_csx += fmt("<ParameterSet><Parameter Name=\"a%ld\" value=\"&lt;&amp;&quot;\"/></ParameterSet>\n", n); break;
			case 2: extras_root += fmt("<Custom%ld>some text &amp; more</Custom%ld>\n", n, n); break;
			case 3: extras_csx += fmt("<Deep><A b=\"%ld\"><B/><B c=\"d\">t</B></A></Deep>\n", n); break;
			case 4: extras_grid += fmt(" Extra%ld=\"kept\"", n); break;
			case 5: extras_top += fmt("<Other%ld a=\"1\"/>\n", n); break;
			case 6: extras_csx += fmt("<Unicode v=\"\xc3\xa9%ld\">\xe2\x82\xac</Unicode>\n", n); break;
			case 7: extras_root += fmt("<Empty%ld/>\n", n); break;
			case 8: (n % 2 ? extras_root : extras_csx) += fmt("<Raw%ld><![CDATA[a < b && \"%ld\"]]></Raw%ld>\n", n, n, n); break;
			case 9: (n % 2 ? extras_root : extras_csx) += fmt("<!-- a remark <b> & %ld -->\n", n); break;
			case 10: (n % 2 ? extras_root : extras_csx) += fmt("<Mixed%ld>one <b>two</b> three<!-- x --> four<c/></Mixed%ld>\n", n, n); break;
			default: extras_csx += fmt("<Odd%ld a='single \"%ld\"' b=\"&#233;&gt;\" _x.y-z=\"\"><Odd%ld/></Odd%ld>\n", n, n, n, n); break;
			}
		}
	}
	if(in_prop) propsx += cur_close;
	auto join = [](std::vector<std::string> const& v) { std::string s; for(auto const& x : v) s += (s.empty() ? "" : ",") + x; return s; };
	std::string g = "<RectilinearGrid DeltaUnit=\"1\" CoordSystem=\"0\">\n<XLines>" + join(grid[0]) + "</XLines>\n<YLines>" + join(grid[1]) + "</YLines>\n<ZLines>" + join(grid[2]) + "</ZLines>\n</RectilinearGrid>\n";
	std::string csx = "<ContinuousStructure CoordSystem=\"0\"" + extras_grid + ">\n" + g;
	if(bg) csx += fmt("<BackgroundMaterial Epsilon=\"%d\" Mue=\"1\" Kappa=\"0\" Sigma=\"0\"/>\n", bg);
	csx += extras_csx + "<Properties>\n" + propsx + "</Properties>\n</ContinuousStructure>\n";
	std::string x = "<?xml version=\"1.0\" encoding=\"UTF-8\" standalone=\"yes\"?>\n";
	if(root == 1) x += csx;
	else x += "<openEMS>\n" + extras_root + csx + "</openEMS>\n";
	if(has_gp || has_fix) {
		x += "<OpenEMSH>\n";
		if(has_gp) x += "<GlobalParams" + gp + "/>\n";
		if(has_fix) {
			x += unit ? fmt("<FixedMeshlines DeltaUnit=\"%ld\">", unit) : std::string("<FixedMeshlines>");
			char const* n[] = { "XLines", "YLines", "ZLines" };
			for(int a = 0; a < 3; ++a) if(!fix[a].empty()) x += fmt("<%s>", n[a]) + join(fix[a]) + fmt("</%s>", n[a]);
			x += "</FixedMeshlines>\n";
		}
		x += "</OpenEMSH>\n";
	}
	x += extras_top;
	return x;
}

} // namespace sim::doc
