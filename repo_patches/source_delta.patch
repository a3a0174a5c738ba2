From 58d4af95eb1da92357866c721c1050108e9b4f0a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:27:54 +0000
Subject: [PATCH 01/32] fix: Caretaker::reset() forgets history root annotation

An annotation set on the history root survived a reset, so it leaked from one
project to the next one opened in the same process.
---
 src/utils/state_management.cpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/utils/state_management.cpp b/src/utils/state_management.cpp
index 42208e4..4000534 100644
--- a/src/utils/state_management.cpp
+++ b/src/utils/state_management.cpp
@@ -33,6 +33,7 @@ void Caretaker::reset() noexcept {
 	user_history.erase(next(begin(user_history)), end(user_history));
 	user_history_browser.reset();
 	originators.clear();
+	annotations.clear();
 	garbage_collector();
 }
 
-- 
2.43.0


From 33734fe8a3479015d1c55d16528513d9b598d134 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:28:00 +0000
Subject: [PATCH 02/32] fix: Remembering a timepoint while browsing history
 keeps undo/redo consistent

After an undo, remembering appended the current timepoint after the redoable
ones while the browser stayed in the middle of the list, so that following
undo/redo skipped or repeated timepoints.
---
 src/utils/state_management.cpp | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/src/utils/state_management.cpp b/src/utils/state_management.cpp
index 4000534..5ef1b5d 100644
--- a/src/utils/state_management.cpp
+++ b/src/utils/state_management.cpp
@@ -206,6 +206,13 @@ void Caretaker::pin_current_timepoint() noexcept {
 
 //******************************************************************************
 void Caretaker::remember_current_timepoint() noexcept {
+	if(user_history_browser.has_value()) {
+		if(**user_history_browser == current_timepoint)
+			return;
+		// Remembering elsewhere than where undo/redo led overwrites redoable history.
+		stop_browsing_user_history();
+	}
+
 	if(user_history.back() != current_timepoint)
 		user_history.emplace_back(current_timepoint);
 }
-- 
2.43.0


From b6a4e864d3fa82292b7781d83079411c48e784ef Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:57:38 +0000
Subject: [PATCH 03/32] fix: A step that changes nothing still makes its own
 timepoint

---
 src/app/openemsh.cpp | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/app/openemsh.cpp b/src/app/openemsh.cpp
index eedcea8..d205ab0 100644
--- a/src/app/openemsh.cpp
+++ b/src/app/openemsh.cpp
@@ -161,6 +161,8 @@ void OpenEMSH::run(std::set<Step> const& steps) const {
 	auto const handle = [&]<InvocableR<void> F>(Step step, F const& func) {
 		if(steps.contains(step)) {
 			Caretaker::singleton().annotate_current_timepoint(make_unique<Annotation>(step));
+			// Ensure the step owns a timepoint even if it happens to change nothing.
+			Caretaker::singleton().make_next_timepoint();
 			func();
 		}
 	};
-- 
2.43.0


From 02f87832451e61165b61e53e96d31577913c6c25 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:57:38 +0000
Subject: [PATCH 04/32] fix: Going before the step that is about to run stays
 there

---
 src/app/openemsh.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/app/openemsh.cpp b/src/app/openemsh.cpp
index d205ab0..f4ad711 100644
--- a/src/app/openemsh.cpp
+++ b/src/app/openemsh.cpp
@@ -233,7 +233,7 @@ void OpenEMSH::go_before(Step step) const {
 		c.find_first_ancestor_with_annotation_that(
 			[&step](IAnnotation const* annotation) {
 				return static_cast<Annotation const*>(annotation)->before_step == step;
-			}));
+			}, true));
 }
 
 //******************************************************************************
-- 
2.43.0


From 27fd6bbcbec198072fdb12ae7776f29ad3a3eeeb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:57:38 +0000
Subject: [PATCH 05/32] fix: Fixed meshline policies follow undo and redo

The timepoint was passed as the is_enabled argument, so these policies belonged
to no timepoint and were not managed. Each of them now gets its own timepoint.
---
 src/domain/board.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/domain/board.cpp b/src/domain/board.cpp
index b018913..19ec22c 100644
--- a/src/domain/board.cpp
+++ b/src/domain/board.cpp
@@ -94,6 +94,7 @@ void Board::Builder::add_fixed_meshline_policy(Axis const axis, Coord const coor
 					MeshlinePolicy::Policy::ONELINE,
 					MeshlinePolicy::Normal::NONE,
 					coord,
+					true,
 					t);
 	});
 }
@@ -611,9 +612,8 @@ void Board::add_fixed_meshline_policies(Axis axis) {
 		fixed_meshline_policy_creators[axis].size(),
 		"["s + to_string(axis) + "] Adding fixed Meshline Policies ");
 
-	auto* t = next_timepoint();
 	for(auto const& create_meshline_policy : fixed_meshline_policy_creators[axis]) {
-		create_meshline_policy(this, t);
+		create_meshline_policy(this, next_timepoint());
 		bar.tick(++i);
 	}
 	bar.complete();
-- 
2.43.0


From f2270fad5b7c1f568e63ac3dd3887c97be7ca333 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:57:38 +0000
Subject: [PATCH 06/32] fix: Board, Angles and diagonal zones follow undo and
 redo

---
 src/domain/board.cpp            | 10 +++++++---
 src/domain/conflict_manager.cpp |  1 +
 2 files changed, 8 insertions(+), 3 deletions(-)

diff --git a/src/domain/board.cpp b/src/domain/board.cpp
index 19ec22c..4968278 100644
--- a/src/domain/board.cpp
+++ b/src/domain/board.cpp
@@ -63,12 +63,14 @@ void sort_points_by_vector_orientation(vector<Point>& points, Point const& vecto
 
 //******************************************************************************
 shared_ptr<Board> Board::Builder::build(Params&& params) {
-	return make_shared<Board>(
+	auto board = make_shared<Board>(
 		std::move(polygons),
 		std::move(fixed_meshline_policy_creators),
 		std::move(material),
 		std::move(params),
 		Caretaker::singleton().get_history_root());
+	Caretaker::singleton().take_care_of(board);
+	return board;
 }
 
 //******************************************************************************
@@ -268,7 +270,8 @@ void Board::detect_diagonal_angles(Plane plane) {
 			if(polygon->edges[p]->axis == Segment::Axis::DIAGONAL
 			|| polygon->edges[i]->axis == Segment::Axis::DIAGONAL) {
 				++found;
-				state.angles[plane].emplace_back(make_shared<Angle>(*(polygon->points[p]), polygon->edges[p].get(), polygon->edges[i].get(), t));
+				auto const& angle = state.angles[plane].emplace_back(make_shared<Angle>(*(polygon->points[p]), polygon->edges[p].get(), polygon->edges[i].get(), t));
+				get_caretaker().take_care_of(angle);
 			}
 			p = i;
 		}
@@ -297,7 +300,8 @@ void Board::detect_diagonal_angles(Plane plane) {
 					if(rel == relation::SegmentSegment::CROSSING) {
 						if(optional<Point> p = intersection(*edge_a, *edge_b)) {
 							++found;
-							state.angles[plane].emplace_back(make_shared<Angle>(p.value(), edge_a.get(), edge_b.get(), t));
+							auto const& angle = state.angles[plane].emplace_back(make_shared<Angle>(p.value(), edge_a.get(), edge_b.get(), t));
+							get_caretaker().take_care_of(angle);
 						}
 					}
 				}
diff --git a/src/domain/conflict_manager.cpp b/src/domain/conflict_manager.cpp
index 3750d24..a6610bf 100644
--- a/src/domain/conflict_manager.cpp
+++ b/src/domain/conflict_manager.cpp
@@ -231,6 +231,7 @@ void ConflictManager::add_diagonal_or_circular_zone(Axis axis, vector<Angle*> co
 
 	auto const& conflict = state.all_diagonal_or_circular_zone[axis].emplace_back(
 		make_shared<ConflictDiagonalOrCircularZone>(axis, sorted_angles, global_params, t));
+	get_caretaker().take_care_of(conflict);
 
 	set_state(t, state);
 }
-- 
2.43.0


From e276b5311d5473f66134a391cdfdc27f1aaa2bcd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:22:42 +0000
Subject: [PATCH 07/32] fix: Stepping back before an edited step does not skip
 it afterwards

---
 src/app/openemsh.cpp | 31 ++++++++++++++++---------------
 1 file changed, 16 insertions(+), 15 deletions(-)

diff --git a/src/app/openemsh.cpp b/src/app/openemsh.cpp
index f4ad711..c4bdf2a 100644
--- a/src/app/openemsh.cpp
+++ b/src/app/openemsh.cpp
@@ -19,6 +19,19 @@ namespace app {
 
 using namespace std;
 
+/// The step that is about to run from the current timepoint: the one that
+/// already ran from there if any, else the one after the last that ran.
+///*****************************************************************************
+static optional<Step> find_next_step() {
+	auto& c = Caretaker::singleton();
+	if(auto const* a = c.get_annotation(c.get_current_timepoint()); a)
+		return static_cast<Annotation const*>(a)->before_step;
+	else if(auto const* a = c.get_annotation(c.find_first_ancestor_with_annotation()); a)
+		return next(static_cast<Annotation const*>(a)->before_step);
+	else
+		return Step::ADJUST_EDGE_TO_MATERIAL;
+}
+
 //******************************************************************************
 optional<Step> next(Step step) {
 	switch(step) {
@@ -210,15 +223,8 @@ void OpenEMSH::run_all_steps() const {
 
 //******************************************************************************
 void OpenEMSH::run_next_step() const {
-	auto& c = Caretaker::singleton();
-	auto* t = c.find_first_ancestor_with_annotation();
-	if(auto const* a = c.get_annotation(t); a) {
-		if(optional<Step> step = next(static_cast<Annotation const*>(a)->before_step)
-		; step)
-			run({ step.value() });
-	} else {
-		run({ Step::ADJUST_EDGE_TO_MATERIAL });
-	}
+	if(auto const step = find_next_step(); step)
+		run({ step.value() });
 }
 
 //******************************************************************************
@@ -244,12 +250,7 @@ void OpenEMSH::go_before_previous_step() const {
 
 //******************************************************************************
 bool OpenEMSH::can_run_a_next_step() const {
-	auto& c = Caretaker::singleton();
-	auto* t = c.find_first_ancestor_with_annotation();
-	if(auto const* a = c.get_annotation(t); a)
-		return next(static_cast<Annotation const*>(a)->before_step).has_value();
-	else
-		return true;
+	return find_next_step().has_value();
 }
 
 //******************************************************************************
-- 
2.43.0


From c0f5b814fd61bcefbd16355bb10c120f5b3c4d83 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:22:42 +0000
Subject: [PATCH 08/32] fix: Meshing ends when two policies at the same place
 are enabled

---
 src/domain/meshline_policy_manager.cpp | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/src/domain/meshline_policy_manager.cpp b/src/domain/meshline_policy_manager.cpp
index d97b8b9..d786eeb 100644
--- a/src/domain/meshline_policy_manager.cpp
+++ b/src/domain/meshline_policy_manager.cpp
@@ -149,6 +149,11 @@ void MeshlinePolicyManager::detect_intervals(Axis const axis) {
 		});
 
 	for(size_t i = 1; i < dimension.size(); ++i) {
+		// There is nothing to mesh between policies at the same place.
+		if(dimension[i-1]->coord == dimension[i]->coord) {
+			bar.tick(i);
+			continue;
+		}
 		auto const& interval = state.intervals[axis].emplace_back(make_shared<Interval>(
 			dimension[i-1], dimension[i], axis, global_params, t));
 		get_caretaker().take_care_of(interval);
-- 
2.43.0


From c9c140d3f98e5547441e3d14be9c92974c7be23e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:10:25 +0000
Subject: [PATCH 09/32] fix: A save is reported successful only if complete,
 and never destroys the output

The results of save_file() and of the output stream were ignored: full disks,
missing directories and I/O errors were reported as successes. Besides, the
output file was truncated before being written, so that a failure or a crash
in the middle of a save lost its previous content, including the input itself
when saving in place. The file is now written aside and replaces the output
once complete.
---
 src/app/openemsh.cpp                        |   5 +-
 src/infra/serializers/serializer_to_csx.cpp |   8 +-
 src/infra/utils/save_file.hpp               | 112 ++++++++++++++++++++
 3 files changed, 121 insertions(+), 4 deletions(-)
 create mode 100644 src/infra/utils/save_file.hpp

diff --git a/src/app/openemsh.cpp b/src/app/openemsh.cpp
index c4bdf2a..13531a5 100644
--- a/src/app/openemsh.cpp
+++ b/src/app/openemsh.cpp
@@ -4,11 +4,11 @@
 /// @author Thomas Lepoix <thomas.lepoix@protonmail.ch>
 ///*****************************************************************************
 
-#include <fstream>
 #include <iostream>
 
 #include "infra/serializers/serializer_to_plantuml.hpp"
 #include "infra/serializers/serializer_to_prettyprint.hpp"
+#include "infra/utils/save_file.hpp"
 #include "utils/concepts.hpp"
 #include "utils/expected_utils.hpp"
 #include "utils/unreachable.hpp"
@@ -157,8 +157,7 @@ expected<void, string> OpenEMSH::write() const {
 		break;
 	case Params::OutputFormat::PLANTUML: {
 //		SerializerToPlantuml::run(*board, static_cast<SerializerToPlantuml::Params const&>(params));
-		ofstream out(params.output);
-		out << SerializerToPlantuml::run(*board);
+		return save_file(params.output, SerializerToPlantuml::run(*board));
 	} break;
 	case Params::OutputFormat::PRETTYPRINT:
 		cerr << SerializerToPrettyprint::run(*board);
diff --git a/src/infra/serializers/serializer_to_csx.cpp b/src/infra/serializers/serializer_to_csx.cpp
index aee005f..a0b0cce 100644
--- a/src/infra/serializers/serializer_to_csx.cpp
+++ b/src/infra/serializers/serializer_to_csx.cpp
@@ -6,8 +6,11 @@
 
 #include <pugixml.hpp>
 
+#include <sstream>
+
 #include "domain/mesh/meshline.hpp"
 #include "domain/board.hpp"
+#include "infra/utils/save_file.hpp"
 #include "utils/unreachable.hpp"
 
 #include "serializer_to_csx.hpp"
@@ -127,5 +130,8 @@ void SerializerToCsx::visit(Board& board) {
 		doc.remove_child("OpenEMSH");
 	}
 
-	doc.save_file(output.native().c_str(), "  ");
+	ostringstream out;
+	doc.save(out, "  ");
+	if(auto const res = save_file(output, out.view()); !res)
+		error = res.error();
 }
diff --git a/src/infra/utils/save_file.hpp b/src/infra/utils/save_file.hpp
new file mode 100644
index 0000000..8cea32a
--- /dev/null
+++ b/src/infra/utils/save_file.hpp
@@ -0,0 +1,112 @@
+///*****************************************************************************
+/// @date Feb 2021
+/// @copyright GPL-3.0-or-later
+/// @author Thomas Lepoix <thomas.lepoix@protonmail.ch>
+///*****************************************************************************
+
+#pragma once
+
+#include <cerrno>
+#include <expected>
+#include <filesystem>
+#include <format>
+#include <fstream>
+#include <string>
+#include <string_view>
+#include <system_error>
+
+/// Write a whole file.
+/// The content goes to a temporary file aside, which replaces the requested one
+/// only once complete. So that whatever happens in between, the requested file
+/// holds either its previous content or the new one.
+///*****************************************************************************
+[[nodiscard]] inline std::expected<void, std::string> save_file(std::filesystem::path const& path, std::string_view content) {
+	using namespace std;
+
+	auto const last_error = [] {
+		return unexpected(errno
+			? error_code(errno, generic_category()).message()
+			: "Input/output error"s);
+	};
+
+	auto const write = [&content](ofstream& out) {
+		errno = 0;
+		out.write(content.data(), static_cast<streamsize>(content.size()));
+		out.close();
+		return !out.fail();
+	};
+
+	// Symbolic links are followed, not replaced.
+	error_code ec;
+	filesystem::path target(path);
+	filesystem::file_status status = filesystem::symlink_status(target, ec);
+	for(size_t i = 0; status.type() == filesystem::file_type::symlink; ++i) {
+		filesystem::path const link = filesystem::read_symlink(target, ec);
+		if(ec)
+			return unexpected(ec.message());
+		if(i == 40)
+			return unexpected(make_error_code(errc::too_many_symbolic_link_levels).message());
+		target = target.parent_path() / link;
+		status = filesystem::symlink_status(target, ec);
+	}
+
+	switch(status.type()) {
+	case filesystem::file_type::not_found:
+		break;
+	case filesystem::file_type::none:
+		return unexpected(ec.message());
+	case filesystem::file_type::directory:
+		return unexpected(make_error_code(errc::is_a_directory).message());
+	case filesystem::file_type::regular: {
+		// A write protected file is not to be replaced.
+		errno = 0;
+		ofstream out(target, ios::binary | ios::app);
+		if(!out)
+			return last_error();
+	} break;
+	default: {
+		// Devices, pipes...
+		errno = 0;
+		ofstream out(target, ios::binary);
+		if(!out || !write(out))
+			return last_error();
+		return {};
+	}
+	}
+
+	filesystem::path temporary;
+	ofstream out;
+	for(size_t i = 0; i < 100 && !out.is_open(); ++i) {
+		temporary = target;
+		temporary += format(".tmp{}", i);
+		errno = 0;
+		out.open(temporary, ios::binary | ios::noreplace);
+		if(!out.is_open() && errno != EEXIST)
+			break;
+	}
+	if(!out.is_open())
+		return last_error();
+
+	auto const clean = [&temporary] {
+		error_code ec;
+		filesystem::remove(temporary, ec);
+	};
+
+	if(!write(out)) {
+		auto const res = last_error();
+		clean();
+		return res;
+	}
+
+	if(status.type() == filesystem::file_type::regular)
+		filesystem::permissions(temporary, status.permissions(), ec);
+	else
+		ec.clear();
+	if(!ec)
+		filesystem::rename(temporary, target, ec);
+	if(ec) {
+		clean();
+		return unexpected(ec.message());
+	}
+	return {};
+}
-- 
2.43.0


From 7206feb536dcbb23f6dd1b51ccda69a674a3f567 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:14:15 +0000
Subject: [PATCH 10/32] fix: An invalid primitive is reported and skipped,
 never brings the program down

A polygon without vertices and coordinates that are not finite, or whose
products are not, had the meshing fall into unreachable code.
---
 src/infra/parsers/parser_from_csx.cpp | 38 ++++++++++++++++++++++++++-
 1 file changed, 37 insertions(+), 1 deletion(-)

diff --git a/src/infra/parsers/parser_from_csx.cpp b/src/infra/parsers/parser_from_csx.cpp
index 8099fb2..b2f41f3 100644
--- a/src/infra/parsers/parser_from_csx.cpp
+++ b/src/infra/parsers/parser_from_csx.cpp
@@ -4,7 +4,10 @@
 /// @author Thomas Lepoix <thomas.lepoix@protonmail.ch>
 ///*****************************************************************************
 
+#include <algorithm>
+#include <array>
 #include <charconv>
+#include <cmath>
 #include <format>
 #include <limits>
 #include <map>
@@ -53,12 +56,20 @@ constexpr optional<Plane> to_plane(size_t const normdir) {
 	}
 }
 
+// Not nan nor infinite, neither are the products of coordinates.
+//******************************************************************************
+bool is_valid_coordinate(double const coordinate) {
+	return abs(coordinate) < 1e100;
+}
+
 //******************************************************************************
 expected<double, string> str_to_double(string_view const& str) {
 	double res;
 	auto [_, e] = std::from_chars(str.data(), str.data() + str.size(), res);
-	if(e == std::errc {})
+	if(e == std::errc {} && is_valid_coordinate(res))
 		return res;
+	else if(e == std::errc {})
+		return unexpected(make_error_code(std::errc::result_out_of_range).message());
 	else
 		return unexpected(make_error_code(e).message());
 }
@@ -70,6 +81,26 @@ size_t parse_priority(pugi::xml_node const& node, shared_ptr<Material> const& ma
 	     : node.attribute("Priority").as_uint();
 }
 
+// Outlines need vertices.
+//******************************************************************************
+bool has_valid_geometry(pugi::xml_node const& node) {
+	auto const has_valid_coordinates = [](pugi::xml_node const& node) {
+		return ranges::all_of(
+			array { "X", "Y", "Z", "X1", "X2", "Elevation", "Length", "Radius" },
+			[&node](char const* const name) {
+				return is_valid_coordinate(node.attribute(name).as_double());
+			});
+	};
+
+	bool const needs_vertices = node.name() == "LinPoly"s
+	                         || node.name() == "Polygon"s
+	                         || node.name() == "Curve"s;
+
+	return has_valid_coordinates(node)
+	    && ranges::all_of(node.children(), has_valid_coordinates)
+	    && !(needs_vertices && node.child("Vertex").empty());
+}
+
 //******************************************************************************
 class ParserFromCsx::Pimpl {
 public:
@@ -257,6 +288,11 @@ bool ParserFromCsx::Pimpl::parse_primitive(pugi::xml_node const& node, shared_pt
 		return false;
 	}
 
+	if(!has_valid_geometry(node)) {
+		warn_unsupported_primitive(format("Invalid {}", node.name()), name);
+		return false;
+	}
+
 	using pugi::char_t;
 	if(node.name() == "Box"s) {
 		parse_primitive_box(node, material, name);
-- 
2.43.0


From a641fc2e7f78e1f5efb81ab036e11adf3d71b076 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:51:18 +0000
Subject: [PATCH 11/32] fix: A question on the command line accepts only
 offered answers and ends when nobody answers

---
 src/ui/cli/logger.cpp | 10 ++++++++--
 1 file changed, 8 insertions(+), 2 deletions(-)

diff --git a/src/ui/cli/logger.cpp b/src/ui/cli/logger.cpp
index d4ba9db..7130b6d 100644
--- a/src/ui/cli/logger.cpp
+++ b/src/ui/cli/logger.cpp
@@ -100,9 +100,15 @@ Logger::UserAction LoggerSink::log(Logger::LogEvent const& log) const {
 		do {
 			print(cerr, " {} ? ", to_string(log.user_actions));
 			string ln;
-			getline(cin, ln);
+			if(!getline(cin, ln)) {
+				// Nobody is there to answer.
+				println(cerr);
+				return log.user_actions.contains(Logger::UserAction::CANCEL)
+				     ? Logger::UserAction::CANCEL
+				     : Logger::UserAction::NOTHING;
+			}
 			res = from_string(ln);
-		} while(res == Logger::UserAction::NOTHING);
+		} while(!log.user_actions.contains(res));
 		return res;
 	} else {
 		if(!(log.level == Logger::Level::INFO && !verbose))
-- 
2.43.0


From f070456ab1fb54c01e20aba19c421526cc11dd38 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:17:44 +0000
Subject: [PATCH 12/32] fix: Never overwrite a file without --force, whatever
 the file format

---
 src/app/openemsh.cpp | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/src/app/openemsh.cpp b/src/app/openemsh.cpp
index 13531a5..e6b1258 100644
--- a/src/app/openemsh.cpp
+++ b/src/app/openemsh.cpp
@@ -141,9 +141,11 @@ expected<void, string> OpenEMSH::parse() {
 
 //******************************************************************************
 bool OpenEMSH::is_about_overwriting() const {
+	// When it cannot be known whether the file exists, assume that it does.
+	error_code ec;
 	return !params.force
-	&& params.output_format == Params::OutputFormat::CSX
-	&& (filesystem::exists(params.output)
+	&& params.output_format != Params::OutputFormat::PRETTYPRINT
+	&& (filesystem::status(params.output, ec).type() != filesystem::file_type::not_found
 		|| (params.input == params.output
 		&& board
 		&& board->global_params->get_current_state().has_grid_already));
-- 
2.43.0


From 017be41a00395af0c0ce9617f2f56a12d75b8943 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:17:44 +0000
Subject: [PATCH 13/32] fix: Report a result which could not be displayed

---
 src/app/openemsh.cpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/app/openemsh.cpp b/src/app/openemsh.cpp
index e6b1258..61f868b 100644
--- a/src/app/openemsh.cpp
+++ b/src/app/openemsh.cpp
@@ -162,7 +162,8 @@ expected<void, string> OpenEMSH::write() const {
 		return save_file(params.output, SerializerToPlantuml::run(*board));
 	} break;
 	case Params::OutputFormat::PRETTYPRINT:
-		cerr << SerializerToPrettyprint::run(*board);
+		if(!(cerr << SerializerToPrettyprint::run(*board)))
+			return unexpected("Cannot display the result");
 		break;
 	default:
 		::unreachable();
-- 
2.43.0


From 6ebf0a0d449b75a65ce42910f3a4f7fb4020fb4d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:49:49 +0000
Subject: [PATCH 14/32] fix: do not close the window when the save asked on
 closing did not happen

---
 src/ui/qt/main_window.cpp | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/src/ui/qt/main_window.cpp b/src/ui/qt/main_window.cpp
index 68fb4e0..6e9b6ea 100644
--- a/src/ui/qt/main_window.cpp
+++ b/src/ui/qt/main_window.cpp
@@ -753,6 +753,11 @@ void MainWindow::closeEvent(QCloseEvent* event) {
 			return;
 		} else if(res == Logger::UserAction::SAVE) {
 			on_a_file_save_triggered();
+			if(is_unsaved) {
+				// Cancelled or failed.
+				event->ignore();
+				return;
+			}
 		}
 	}
 	event->accept();
-- 
2.43.0


From 94cb10bdbf5a3e6d58724869c1f0328c386a7144 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:49:49 +0000
Subject: [PATCH 15/32] fix: do not allow to fit views that show nothing

---
 src/ui/qt/main_window.cpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/ui/qt/main_window.cpp b/src/ui/qt/main_window.cpp
index 6e9b6ea..49a4639 100644
--- a/src/ui/qt/main_window.cpp
+++ b/src/ui/qt/main_window.cpp
@@ -658,6 +658,7 @@ void MainWindow::update_board_dependant_buttons_visibility(bool are_enabled) {
 	ui->a_file_save->setEnabled(are_enabled);
 	ui->a_file_save_as->setEnabled(are_enabled);
 	ui->a_edit->setEnabled(are_enabled);
+	ui->a_fit->setEnabled(are_enabled);
 	ui->a_mesh_prev->setEnabled(are_enabled);
 	ui->a_mesh_next->setEnabled(are_enabled);
 	ui->a_undo->setEnabled(are_enabled);
-- 
2.43.0


From 9fab15cd65e1c9dadc7412b365ab7a78bde8f991 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:49:49 +0000
Subject: [PATCH 16/32] fix: keep the parameters that are not displayed when
 editing global parameters

---
 src/ui/qt/edit/edit_model_global.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/ui/qt/edit/edit_model_global.cpp b/src/ui/qt/edit/edit_model_global.cpp
index 52fa7f7..2ff1993 100644
--- a/src/ui/qt/edit/edit_model_global.cpp
+++ b/src/ui/qt/edit/edit_model_global.cpp
@@ -44,7 +44,7 @@ EditModelGlobal::EditModelGlobal(domain::GlobalParams* global, QObject* parent)
 
 //******************************************************************************
 void EditModelGlobal::commit() {
-	domain::Params params;
+	auto params = global->get_current_state();
 
 	std::array does_succeed = {
 		try_to_double(item(0, V)->text(), params.proximity_limit),
-- 
2.43.0


From 66c95e4915749bc498317939b62ab9aafe84f0fa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:52:22 +0000
Subject: [PATCH 17/32] fix: do not round the values that are not edited in
 edition dialogs

---
 ...edit_model_conflict_diagonal_or_circular_zone.cpp |  6 ++++--
 src/ui/qt/edit/edit_model_global.cpp                 | 12 +++++++-----
 src/ui/qt/edit/edit_model_interval.cpp               |  8 +++++---
 src/ui/qt/edit/edit_model_meshline_policy.cpp        |  4 +++-
 4 files changed, 19 insertions(+), 11 deletions(-)

diff --git a/src/ui/qt/edit/edit_model_conflict_diagonal_or_circular_zone.cpp b/src/ui/qt/edit/edit_model_conflict_diagonal_or_circular_zone.cpp
index d717f13..391e9ef 100644
--- a/src/ui/qt/edit/edit_model_conflict_diagonal_or_circular_zone.cpp
+++ b/src/ui/qt/edit/edit_model_conflict_diagonal_or_circular_zone.cpp
@@ -4,6 +4,8 @@
 /// @author Thomas Lepoix <thomas.lepoix@protonmail.ch>
 ///*****************************************************************************
 
+#include <QLocale>
+
 #include <algorithm>
 #include <array>
 
@@ -24,9 +26,9 @@ EditModelConflictDiagonalOrCircularZone::EditModelConflictDiagonalOrCircularZone
 
 	make_row(0, "lmin", QString::number(state.lmin),
 		"Minimum line number per Interval half, at extremities of the diagonal zone.");
-	make_row(1, "dmax", QString::number(state.dmax),
+	make_row(1, "dmax", QString::number(state.dmax, 'g', QLocale::FloatingPointShortest),
 		"Maximum distance between two adjacent lines.");
-	make_row(2, "Minimal angle", QString::number(state.minimal_angle),
+	make_row(2, "Minimal angle", QString::number(state.minimal_angle, 'g', QLocale::FloatingPointShortest),
 		"Angle threshold, above which angles between diagonal edges will generate MeshlinePolicies.");
 }
 
diff --git a/src/ui/qt/edit/edit_model_global.cpp b/src/ui/qt/edit/edit_model_global.cpp
index 2ff1993..4a23f61 100644
--- a/src/ui/qt/edit/edit_model_global.cpp
+++ b/src/ui/qt/edit/edit_model_global.cpp
@@ -4,6 +4,8 @@
 /// @author Thomas Lepoix <thomas.lepoix@protonmail.ch>
 ///*****************************************************************************
 
+#include <QLocale>
+
 #include <algorithm>
 #include <array>
 
@@ -26,17 +28,17 @@ EditModelGlobal::EditModelGlobal(domain::GlobalParams* global, QObject* parent)
 	auto const& params = global->get_current_state();
 	setRowCount(4);
 
-	make_row(0, "Proximity limit", QString::number(params.proximity_limit),
+	make_row(0, "Proximity limit", QString::number(params.proximity_limit, 'g', QLocale::FloatingPointShortest),
 		"Distance below which two MeshlinePolicies will be merged.");
-	make_row(1, "Smoothness", QString::number(params.smoothness),
+	make_row(1, "Smoothness", QString::number(params.smoothness, 'g', QLocale::FloatingPointShortest),
 		"Smoothness factor <b>]1;2]</b>. Meshing algorithm will decrease it, better to start high.");
 	make_row(2, "lmin", QString::number(params.lmin),
 		"Minimum line number per Interval half.");
-	make_row(3, "dmax", QString::number(params.dmax),
+	make_row(3, "dmax", QString::number(params.dmax, 'g', QLocale::FloatingPointShortest),
 		"Maximum distance between two adjacent lines.");
-	make_row(4, "Minimal angle", QString::number(params.consecutive_diagonal_minimal_angle),
+	make_row(4, "Minimal angle", QString::number(params.consecutive_diagonal_minimal_angle, 'g', QLocale::FloatingPointShortest),
 		"Angle threshold, above which angles between diagonal edges will generate MeshlinePolicies.");
-	make_row(5, "Diagonal dmax", QString::number(params.diagonal_dmax),
+	make_row(5, "Diagonal dmax", QString::number(params.diagonal_dmax, 'g', QLocale::FloatingPointShortest),
 		"Maximum distance between two adjacent lines in diagonal zones.");
 	make_row(6, "Diagonal lmin", QString::number(params.diagonal_lmin),
 		"Minimum line number per Interval half, at extremities of diagonal zones.");
diff --git a/src/ui/qt/edit/edit_model_interval.cpp b/src/ui/qt/edit/edit_model_interval.cpp
index 3115f59..4b16bc5 100644
--- a/src/ui/qt/edit/edit_model_interval.cpp
+++ b/src/ui/qt/edit/edit_model_interval.cpp
@@ -4,6 +4,8 @@
 /// @author Thomas Lepoix <thomas.lepoix@protonmail.ch>
 ///*****************************************************************************
 
+#include <QLocale>
+
 #include <algorithm>
 #include <array>
 
@@ -22,18 +24,18 @@ EditModelInterval::EditModelInterval(domain::Interval* interval, QObject* parent
 	auto const& state = interval->get_current_state();
 	setRowCount(5);
 
-	make_row(0, "dmax", QString::number(state.dmax),
+	make_row(0, "dmax", QString::number(state.dmax, 'g', QLocale::FloatingPointShortest),
 		"Maximum distance between two adjacent lines.");
 	make_row(1, "Before.lmin", QString::number(state.before.lmin),
 		"Minimum line number in the minimal interval half. "
 		"Note a line will always be placed at the interval center.");
-	make_row(2, "Before.Smoothness", QString::number(state.before.smoothness), QString("2"),
+	make_row(2, "Before.Smoothness", QString::number(state.before.smoothness, 'g', QLocale::FloatingPointShortest), QString("2"),
 		"Smoothness factor <b>]1;2]</b> around the minimal side. "
 		"Meshing algorithm will decrease it, better to start high.");
 	make_row(3, "After.lmin", QString::number(state.after.lmin),
 		"Minimum line number in the maximal interval half. "
 		"Note a line will always be placed at the interval center.");
-	make_row(4, "After.Smoothness", QString::number(state.after.smoothness), QString("2"),
+	make_row(4, "After.Smoothness", QString::number(state.after.smoothness, 'g', QLocale::FloatingPointShortest), QString("2"),
 		"Smoothness factor <b>]1;2]</b> around the maximal side. "
 		"Meshing algorithm will decrease it, better to start high.");
 }
diff --git a/src/ui/qt/edit/edit_model_meshline_policy.cpp b/src/ui/qt/edit/edit_model_meshline_policy.cpp
index 4edc10c..9883d09 100644
--- a/src/ui/qt/edit/edit_model_meshline_policy.cpp
+++ b/src/ui/qt/edit/edit_model_meshline_policy.cpp
@@ -4,6 +4,8 @@
 /// @author Thomas Lepoix <thomas.lepoix@protonmail.ch>
 ///*****************************************************************************
 
+#include <QLocale>
+
 #include <algorithm>
 #include <array>
 
@@ -39,7 +41,7 @@ EditModelMeshlinePolicy::EditModelMeshlinePolicy(domain::MeshlinePolicy* meshlin
 		"Direction associated with Policy.");
 	make_row(2, "Enabled", state.is_enabled,
 		"Take into account in the meshing process.");
-	make_row(3, "d", QString::number(state.d),
+	make_row(3, "d", QString::number(state.d, 'g', QLocale::FloatingPointShortest),
 		"Desired distance between policy lines (HALFS|THIRDS) or "
 		"between policy line and adjacent lines (ONELINE).<br/>"
 		"Can be decreased by the meshing algorithm.");
-- 
2.43.0


From 3711992cb87558986bbb959ebd21dfc8e0dc78d7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:52:29 +0000
Subject: [PATCH 18/32] fix: do not skip steps when editing after having
 stepped back

---
 src/app/openemsh.cpp      | 5 +++++
 src/app/openemsh.hpp      | 1 +
 src/ui/qt/main_window.cpp | 5 ++++-
 3 files changed, 10 insertions(+), 1 deletion(-)

diff --git a/src/app/openemsh.cpp b/src/app/openemsh.cpp
index 61f868b..3927242 100644
--- a/src/app/openemsh.cpp
+++ b/src/app/openemsh.cpp
@@ -255,6 +255,11 @@ bool OpenEMSH::can_run_a_next_step() const {
 	return find_next_step().has_value();
 }
 
+//******************************************************************************
+optional<Step> OpenEMSH::get_next_step() const {
+	return find_next_step();
+}
+
 //******************************************************************************
 bool OpenEMSH::can_go_before() const {
 	return Caretaker::singleton().find_first_ancestor_with_annotation();
diff --git a/src/app/openemsh.hpp b/src/app/openemsh.hpp
index a754ce2..969e57c 100644
--- a/src/app/openemsh.hpp
+++ b/src/app/openemsh.hpp
@@ -66,6 +66,7 @@ public:
 	bool is_about_overwriting() const;
 	std::expected<void, std::string> write() const;
 	bool can_run_a_next_step() const;
+	std::optional<Step> get_next_step() const;
 	bool can_go_before() const;
 	std::optional<Step> get_current_step() const;
 private:
diff --git a/src/ui/qt/main_window.cpp b/src/ui/qt/main_window.cpp
index 49a4639..6a1133a 100644
--- a/src/ui/qt/main_window.cpp
+++ b/src/ui/qt/main_window.cpp
@@ -13,6 +13,7 @@
 #include <QTemporaryFile>
 #include <QToolButton>
 
+#include <algorithm>
 #include <format>
 
 #include "domain/geometrics/space.hpp"
@@ -649,8 +650,10 @@ void MainWindow::run() {
 //******************************************************************************
 void MainWindow::handle_edition_from(app::Step from, std::function<void ()> const& edit) {
 	oemsh.go_before(from);
+	// There may be earlier steps still to run, after having stepped back.
+	auto const next_step = oemsh.get_next_step();
 	edit();
-	run(from);
+	run(next_step ? std::min(*next_step, from) : from);
 }
 
 //******************************************************************************
-- 
2.43.0


From 4579333a32166018bf84f0a5d66042d1642482df Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:13:33 +0000
Subject: [PATCH 19/32] fix: do not offer to save on closing when no document
 is open

After a failed opening, saving on closing wrote the mesh of the previous
document into the one which could not be opened.
---
 src/ui/qt/main_window.cpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/ui/qt/main_window.cpp b/src/ui/qt/main_window.cpp
index 6a1133a..9f408f7 100644
--- a/src/ui/qt/main_window.cpp
+++ b/src/ui/qt/main_window.cpp
@@ -137,6 +137,7 @@ bool MainWindow::parse_and_display() {
 	; !res.has_value()) {
 		QGuiApplication::restoreOverrideCursor();
 		update_board_dependant_buttons_visibility(false);
+		is_unsaved = false;
 		log({
 			.level = Logger::Level::ERROR,
 			.user_actions = { Logger::UserAction::OK },
-- 
2.43.0


From f850c042e63d1029ecb9a4e93414e72caabf265d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:31:43 +0000
Subject: [PATCH 20/32] fix: mesh intervals once their line policies are
 completely solved

A line policy reduced by a later interval left the lines of an earlier one
where they were: the halfs and thirds rules and the smoothness were broken.
---
 src/domain/meshline_policy_manager.cpp | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/domain/meshline_policy_manager.cpp b/src/domain/meshline_policy_manager.cpp
index d786eeb..1562610 100644
--- a/src/domain/meshline_policy_manager.cpp
+++ b/src/domain/meshline_policy_manager.cpp
@@ -213,8 +213,11 @@ void MeshlinePolicyManager::mesh(Axis const axis) {
 	size_t new_size = state.meshlines[axis].size();
 	vector<vector<shared_ptr<Meshline>>> interval_meshlines;
 
-	for(auto* interval : dimension_view) {
+	for(auto interval : dimension_view)
 		interval->auto_solve_d();
+
+	// Not before policies are solved for the intervals on both sides.
+	for(auto* interval : dimension_view) {
 		interval->auto_solve_smoothness();
 		interval_meshlines.emplace_back(interval->mesh());
 
-- 
2.43.0


From d96e21311d82dc687cec139988461f1cadb1a3ac Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:33:06 +0000
Subject: [PATCH 21/32] fix: no line at a rounding error from the middle of an
 interval

---
 src/domain/mesh/interval.cpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/domain/mesh/interval.cpp b/src/domain/mesh/interval.cpp
index 70db3ab..fdac8d1 100644
--- a/src/domain/mesh/interval.cpp
+++ b/src/domain/mesh/interval.cpp
@@ -138,7 +138,8 @@ vector<Coord> find_ls(double d, double smoothness, double dmax, Coord s) {
 	double current_d = min(d, dmax);
 	double current_s = 0;
 	vector<Coord> ls;
-	while(current_s < s) {
+	// Rounding errors should not produce a line beside the middle one.
+	while(current_s < s - equality_tolerance) {
 		if(current_d < dmax) {
 			current_d *= smoothness;
 			if(current_d > dmax)
-- 
2.43.0


From 975daa83b5172dad4e62a32c1126d00c6671959c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:33:06 +0000
Subject: [PATCH 22/32] fix: no several mesh lines at the same place

Several enabled line policies may be at the same place.
---
 src/domain/meshline_policy_manager.cpp | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/src/domain/meshline_policy_manager.cpp b/src/domain/meshline_policy_manager.cpp
index 1562610..959c1fb 100644
--- a/src/domain/meshline_policy_manager.cpp
+++ b/src/domain/meshline_policy_manager.cpp
@@ -245,6 +245,12 @@ void MeshlinePolicyManager::mesh(Axis const axis) {
 			return *a < *b;
 		});
 
+	auto const duplicates = ranges::unique(state.meshlines[axis],
+		[](auto const& a, auto const& b) {
+			return a->coord == b->coord;
+		});
+	state.meshlines[axis].erase(begin(duplicates), end(duplicates));
+
 	set_state(t, state);
 	bar.complete();
 }
-- 
2.43.0


From e12450452ed263d1e5a4d9a90b0408c2c2a41f5e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:24:16 +0000
Subject: [PATCH 23/32] fix: find the vertices on a ray despite rounding errors

---
 src/domain/geometrics/segment.cpp | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/src/domain/geometrics/segment.cpp b/src/domain/geometrics/segment.cpp
index 534e0d2..95fafb7 100644
--- a/src/domain/geometrics/segment.cpp
+++ b/src/domain/geometrics/segment.cpp
@@ -4,6 +4,7 @@
 /// @author Thomas Lepoix <thomas.lepoix@protonmail.ch>
 ///*****************************************************************************
 
+#include "domain/global.hpp"
 #include "utils/unreachable.hpp"
 #include "point.hpp"
 #include "polygon.hpp"
@@ -65,8 +66,8 @@ relation::SegmentSegment Segment::relation_to(Segment const& segment) const {
 relation::SegmentPoint Segment::relation_to(Point const& point) const {
 	vector<Point const*> v({ &p0(), &p1(), &point });
 	return detect_rotation(v) == Polygon::Rotation::COLINEAR
-		&& (point.x <= max(p0().x, p1().x) && point.x >= min(p0().x, p1().x)
-		&&  point.y <= max(p0().y, p1().y) && point.y >= min(p0().y, p1().y))
+		&& (point.x <= max(p0().x, p1().x) + equality_tolerance && point.x >= min(p0().x, p1().x) - equality_tolerance
+		&&  point.y <= max(p0().y, p1().y) + equality_tolerance && point.y >= min(p0().y, p1().y) - equality_tolerance)
 		? relation::SegmentPoint::ON
 		: relation::SegmentPoint::OUT;
 }
-- 
2.43.0


From e9450e79deeda461fa8f86c3681bb5c3902b0f43 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:27:55 +0000
Subject: [PATCH 24/32] fix: an edge that another one has in common does not
 hide it

---
 .../conflicts/conflict_edge_in_polygon.cpp    | 22 ++++++++++---------
 1 file changed, 12 insertions(+), 10 deletions(-)

diff --git a/src/domain/conflicts/conflict_edge_in_polygon.cpp b/src/domain/conflicts/conflict_edge_in_polygon.cpp
index 7ddfa0f..612857c 100644
--- a/src/domain/conflicts/conflict_edge_in_polygon.cpp
+++ b/src/domain/conflicts/conflict_edge_in_polygon.cpp
@@ -81,22 +81,24 @@ void ConflictEdgeInPolygon::auto_solve(MeshlinePolicyManager& /*line_policy_mana
 	auto [t, state] = make_next_state();
 
 	sort_overlaps_by_p0_by_vector_orientation(state.overlaps, edge->vec);
-	Range merged_range(get<RANGE>(state.overlaps.front()));
+	optional<Range> merged_range;
 
 	for(Overlap const& overlap : state.overlaps) {
-		if(!get<EDGE>(overlap).has_value()
-		|| get<EDGE>(overlap).value()->normal != edge->normal) {
-			if(optional<Range> r = merge(get<RANGE>(overlap), merged_range); r)
-				merged_range = r.value();
-			else
-				break;
-		} else {
+		// An edge is not hidden by another one that has the same normal.
+		if(get<EDGE>(overlap).has_value()
+		&& get<EDGE>(overlap).value()->normal == edge->normal)
+			continue;
+
+		optional<Range> r = merged_range
+		                  ? merge(get<RANGE>(overlap), merged_range.value())
+		                  : get<RANGE>(overlap);
+		if(!r)
 			break;
-		}
+		merged_range.emplace(r.value());
 	}
 
 	auto state_e = edge->get_current_state();
-	state_e.to_mesh = !(merged_range == *edge);
+	state_e.to_mesh = !(merged_range && merged_range.value() == *edge);
 	state_e.conflict = this;
 	state.solution = edge;
 	state.is_solved = true;
-- 
2.43.0


From 1297087b87c532f05400b4cf6f8f262c32d2493c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:33:33 +0000
Subject: [PATCH 25/32] fix: hide an edge whatever the order of what covers it

---
 .../conflicts/conflict_edge_in_polygon.cpp    | 24 ++++++++++++-------
 1 file changed, 16 insertions(+), 8 deletions(-)

diff --git a/src/domain/conflicts/conflict_edge_in_polygon.cpp b/src/domain/conflicts/conflict_edge_in_polygon.cpp
index 612857c..c84045f 100644
--- a/src/domain/conflicts/conflict_edge_in_polygon.cpp
+++ b/src/domain/conflicts/conflict_edge_in_polygon.cpp
@@ -81,24 +81,32 @@ void ConflictEdgeInPolygon::auto_solve(MeshlinePolicyManager& /*line_policy_mana
 	auto [t, state] = make_next_state();
 
 	sort_overlaps_by_p0_by_vector_orientation(state.overlaps, edge->vec);
-	optional<Range> merged_range;
 
+	vector<Range> merged_ranges;
 	for(Overlap const& overlap : state.overlaps) {
 		// An edge is not hidden by another one that has the same normal.
 		if(get<EDGE>(overlap).has_value()
 		&& get<EDGE>(overlap).value()->normal == edge->normal)
 			continue;
 
-		optional<Range> r = merged_range
-		                  ? merge(get<RANGE>(overlap), merged_range.value())
-		                  : get<RANGE>(overlap);
-		if(!r)
-			break;
-		merged_range.emplace(r.value());
+		// A range may join several ones that are not in contact with each other.
+		optional<Range> range(get<RANGE>(overlap));
+		for(bool is_merged = true; is_merged;) {
+			is_merged = false;
+			for(auto it = begin(merged_ranges); it != end(merged_ranges); ++it) {
+				if(optional<Range> const r = merge(*it, range.value())) {
+					range.emplace(r.value());
+					merged_ranges.erase(it);
+					is_merged = true;
+					break;
+				}
+			}
+		}
+		merged_ranges.push_back(range.value());
 	}
 
 	auto state_e = edge->get_current_state();
-	state_e.to_mesh = !(merged_range && merged_range.value() == *edge);
+	state_e.to_mesh = ranges::none_of(merged_ranges, [this](Range const& range) { return range == *edge; });
 	state_e.conflict = this;
 	state.solution = edge;
 	state.is_solved = true;
-- 
2.43.0


From ba3a01cf33a712560306a85e4e7623fefe5607e3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:45:14 +0000
Subject: [PATCH 26/32] fix: a cylinder has its whole radius seen from the side

---
 src/infra/parsers/parser_from_csx.cpp | 36 +++++++++++++--------------
 1 file changed, 18 insertions(+), 18 deletions(-)

diff --git a/src/infra/parsers/parser_from_csx.cpp b/src/infra/parsers/parser_from_csx.cpp
index b2f41f3..8f9059d 100644
--- a/src/infra/parsers/parser_from_csx.cpp
+++ b/src/infra/parsers/parser_from_csx.cpp
@@ -518,45 +518,45 @@ void ParserFromCsx::Pimpl::parse_primitive_cylinder(pugi::xml_node const& node,
 		if(params.with_zx)
 			// TODO Z placement here is the bounding box
 			board.add_polygon_from_box(ZX, material, name, priority,
-				{ p1.y, p2.y },
-				{ p1.z - radius/2, p1.x },
-				{ p2.z + radius/2, p2.x });
+				{ p1.y - radius, p2.y + radius },
+				{ p1.z - radius, p1.x },
+				{ p2.z + radius, p2.x });
 		if(params.with_xy)
 			// TODO Z placement here is the bounding box
 			board.add_polygon_from_box(XY, material, name, priority,
-				{ p1.z, p2.z },
-				{ p1.x, p1.y - radius/2 },
-				{ p2.x, p2.y + radius/2 });
+				{ p1.z - radius, p2.z + radius },
+				{ p1.x, p1.y - radius },
+				{ p2.x, p2.y + radius });
 	} else if(p1.z == p2.z && p1.x == p2.x) {
 		if(params.with_zx)
 			board.add_polygon(ZX, material, name, priority, { p1.y, p2.y }, circle_to_points({ p1.z, p1.x }, radius));
 		if(params.with_xy)
 			// TODO Z placement here is the bounding box
 			board.add_polygon_from_box(XY, material, name, priority,
-				{ p1.z, p2.z },
-				{ p1.x - radius/2, p1.y },
-				{ p2.x + radius/2, p2.y });
+				{ p1.z - radius, p2.z + radius },
+				{ p1.x - radius, p1.y },
+				{ p2.x + radius, p2.y });
 		if(params.with_yz)
 			// TODO Z placement here is the bounding box
 			board.add_polygon_from_box(YZ, material, name, priority,
-				{ p1.x, p2.x },
-				{ p1.y, p1.z - radius/2 },
-				{ p2.y, p2.z + radius/2 });
+				{ p1.x - radius, p2.x + radius },
+				{ p1.y, p1.z - radius },
+				{ p2.y, p2.z + radius });
 	} else if(p1.x == p2.x && p1.y == p2.y) {
 		if(params.with_xy)
 			board.add_polygon(XY, material, name, priority, { p1.z, p2.z }, circle_to_points({ p1.x, p1.y }, radius));
 		if(params.with_yz)
 			// TODO Z placement here is the bounding box
 			board.add_polygon_from_box(YZ, material, name, priority,
-				{ p1.x, p2.x },
-				{ p1.y - radius/2, p1.z },
-				{ p2.y + radius/2, p2.z });
+				{ p1.x - radius, p2.x + radius },
+				{ p1.y - radius, p1.z },
+				{ p2.y + radius, p2.z });
 		if(params.with_zx)
 			// TODO Z placement here is the bounding box
 			board.add_polygon_from_box(ZX, material, name, priority,
-				{ p1.y, p2.y },
-				{ p1.z, p1.x - radius/2 },
-				{ p2.z, p2.x + radius/2 });
+				{ p1.y - radius, p2.y + radius },
+				{ p1.z, p1.x - radius },
+				{ p2.z, p2.x + radius });
 	} else {
 		warn_unsupported_primitive(format("{} (with diagonal axis)", node.name()), name);
 	}
-- 
2.43.0


From 67532572f42dc9e137923d8968291d0549c18cca Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:45:14 +0000
Subject: [PATCH 27/32] fix: a curve reaches to its highest vertex

---
 src/infra/parsers/parser_from_csx.cpp | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/infra/parsers/parser_from_csx.cpp b/src/infra/parsers/parser_from_csx.cpp
index 8f9059d..4ab2b68 100644
--- a/src/infra/parsers/parser_from_csx.cpp
+++ b/src/infra/parsers/parser_from_csx.cpp
@@ -604,7 +604,7 @@ void ParserFromCsx::Pimpl::parse_primitive_curve(pugi::xml_node const& node, sha
 		// TODO Z placement here is the bounding box
 		Polygon::RangeZ z_placement {
 			ranges::min(vertices, [&](Point3D const& a, Point3D const& b) { return a.x < b.x; }).x,
-			ranges::max(vertices, [&](Point3D const& a, Point3D const& b) { return a.x > b.x; }).x
+			ranges::max(vertices, [&](Point3D const& a, Point3D const& b) { return a.x < b.x; }).x
 		};
 		vector<unique_ptr<Point const>> points;
 		for(auto const& vertex : vertices)
@@ -622,7 +622,7 @@ void ParserFromCsx::Pimpl::parse_primitive_curve(pugi::xml_node const& node, sha
 		// TODO Z placement here is the bounding box
 		Polygon::RangeZ z_placement {
 			ranges::min(vertices, [&](Point3D const& a, Point3D const& b) { return a.y < b.y; }).y,
-			ranges::max(vertices, [&](Point3D const& a, Point3D const& b) { return a.y > b.y; }).y
+			ranges::max(vertices, [&](Point3D const& a, Point3D const& b) { return a.y < b.y; }).y
 		};
 		vector<unique_ptr<Point const>> points;
 		for(auto const& vertex : vertices)
@@ -640,7 +640,7 @@ void ParserFromCsx::Pimpl::parse_primitive_curve(pugi::xml_node const& node, sha
 		// TODO Z placement here is the bounding box
 		Polygon::RangeZ z_placement {
 			ranges::min(vertices, [&](Point3D const& a, Point3D const& b) { return a.z < b.z; }).z,
-			ranges::max(vertices, [&](Point3D const& a, Point3D const& b) { return a.z > b.z; }).z
+			ranges::max(vertices, [&](Point3D const& a, Point3D const& b) { return a.z < b.z; }).z
 		};
 		vector<unique_ptr<Point const>> points;
 		for(auto const& vertex : vertices)
-- 
2.43.0


From b2e9489786f734d0e708bbfe32a0513405d1c0d4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:46:43 +0000
Subject: [PATCH 28/32] fix: outlines on a plane that is disabled are left out

---
 src/infra/parsers/parser_from_csx.cpp | 17 +++++++++++++++--
 1 file changed, 15 insertions(+), 2 deletions(-)

diff --git a/src/infra/parsers/parser_from_csx.cpp b/src/infra/parsers/parser_from_csx.cpp
index 4ab2b68..821aca0 100644
--- a/src/infra/parsers/parser_from_csx.cpp
+++ b/src/infra/parsers/parser_from_csx.cpp
@@ -132,6 +132,7 @@ public:
 	void parse_primitive_curve(pugi::xml_node const& node, shared_ptr<Material> const& material, std::string name);
 
 private:
+	bool is_enabled(Plane plane) const;
 	void warn_unsupported_property(string const& property_type, string const& property_name);
 	void warn_unsupported_primitive(string const& primitive_type, string const& primitive_name);
 };
@@ -141,6 +142,16 @@ ParserFromCsx::Pimpl::Pimpl(ParserFromCsx::Params const& params)
 : params(params)
 {}
 
+//******************************************************************************
+bool ParserFromCsx::Pimpl::is_enabled(Plane const plane) const {
+	switch(plane) {
+	case YZ: return params.with_yz;
+	case ZX: return params.with_zx;
+	case XY: return params.with_xy;
+	default: ::unreachable();
+	}
+}
+
 //******************************************************************************
 void ParserFromCsx::Pimpl::warn_unsupported_property(string const& primitive_type, string const& primitive_name) {
 	warning_unsupported_properties_types.emplace(primitive_type);
@@ -392,7 +403,8 @@ void ParserFromCsx::Pimpl::parse_primitive_linpoly(pugi::xml_node const& node, s
 
 	Bounding2D bounding(detect_bounding(points));
 
-	board.add_polygon(plane.value(), material, name, priority, { elevation, elevation + length }, std::move(points));
+	if(is_enabled(plane.value()))
+		board.add_polygon(plane.value(), material, name, priority, { elevation, elevation + length }, std::move(points));
 	if(length == 0) {
 //		board.add_fixed_meshline_policy(normal.value(), elevation);
 //		switch(plane.value()) {
@@ -473,7 +485,8 @@ void ParserFromCsx::Pimpl::parse_primitive_polygon(pugi::xml_node const& node, s
 
 	Bounding2D bounding(detect_bounding(points));
 
-	board.add_polygon(plane.value(), material, name, priority, { elevation, elevation }, std::move(points));
+	if(is_enabled(plane.value()))
+		board.add_polygon(plane.value(), material, name, priority, { elevation, elevation }, std::move(points));
 	board.add_fixed_meshline_policy(normal.value(), elevation);
 }
 
-- 
2.43.0


From 611d064c6532a0df42972059e3261f7dc803729c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 06:17:44 +0000
Subject: [PATCH 29/32] fix: draw conflicts of colinear edges of another plane
 where they are

---
 .../structure_conflict_colinear_edges.cpp          | 14 ++++++++++----
 1 file changed, 10 insertions(+), 4 deletions(-)

diff --git a/src/ui/qt/structure_view/structure_conflict_colinear_edges.cpp b/src/ui/qt/structure_view/structure_conflict_colinear_edges.cpp
index fda9918..90d161a 100644
--- a/src/ui/qt/structure_view/structure_conflict_colinear_edges.cpp
+++ b/src/ui/qt/structure_view/structure_conflict_colinear_edges.cpp
@@ -22,15 +22,21 @@ static QLineF convert(domain::ViewAxis axis, domain::ConflictColinearEdges const
 	qreal side = qMax(scene_rect.width(), scene_rect.height());
 	scene_rect += QMarginsF(side, side, side, side) * 2;
 
+	// The edges may belong to another plane than the displayed one.
+	auto const* edge = conflict->get_current_state().edges[0];
+	auto const coord = domain::coord(edge->p0(), edge->axis);
+	if(!coord)
+		return QLineF();
+
 	switch(axis) {
 	case domain::ViewAxis::H:
 		return QLineF(
-			scene_rect.left(), conflict->get_current_state().edges[0]->p0().y.value(),
-			scene_rect.right(), conflict->get_current_state().edges[0]->p0().y.value());
+			scene_rect.left(), coord->value(),
+			scene_rect.right(), coord->value());
 	case domain::ViewAxis::V:
 		return QLineF(
-			conflict->get_current_state().edges[0]->p0().x.value(), scene_rect.bottom(),
-			conflict->get_current_state().edges[0]->p0().x.value(), scene_rect.top());
+			coord->value(), scene_rect.bottom(),
+			coord->value(), scene_rect.top());
 	default:
 		unreachable();
 	}
-- 
2.43.0


From 04639cfd8a6b074607432e7ff1a53fdcf7495c6f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 06:17:44 +0000
Subject: [PATCH 30/32] fix: show the displayed plane in the processing view
 when going back to a kept state

---
 src/ui/qt/processing_view/processing_view.cpp | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/ui/qt/processing_view/processing_view.cpp b/src/ui/qt/processing_view/processing_view.cpp
index eb21e23..458e22f 100644
--- a/src/ui/qt/processing_view/processing_view.cpp
+++ b/src/ui/qt/processing_view/processing_view.cpp
@@ -134,7 +134,10 @@ void ProcessingView::go_to_current_state() {
 	if(current_timepoint != t) {
 		if(states.contains(t)) {
 			current_timepoint = t;
-			setScene(states.at(t).scene);
+			auto* scene = states.at(t).scene;
+			setScene(scene);
+			// The plane may have been changed since this scene was left.
+			scene->set_display_plane(plane_displayed_on_structure_view);
 		} else {
 			make_current_state();
 		}
-- 
2.43.0


From cb08f122d51b48dc69eba948a2f6bf6bd9941420 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 06:17:44 +0000
Subject: [PATCH 31/32] fix: keep the display buttons and what is displayed in
 agreement

---
 src/ui/qt/main_window.cpp | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/src/ui/qt/main_window.cpp b/src/ui/qt/main_window.cpp
index 9f408f7..33db225 100644
--- a/src/ui/qt/main_window.cpp
+++ b/src/ui/qt/main_window.cpp
@@ -632,6 +632,7 @@ void MainWindow::make_current_state_view() {
 
 	update_navigation_buttons_visibility();
 	update_cell_number();
+	update_show_buttons_pressing();
 }
 
 //******************************************************************************
@@ -706,6 +707,10 @@ void MainWindow::update_show_buttons_pressing() {
 	case MeshVisibility::FULL: ui->tb_show_all_mesh->setChecked(true); break;
 	default: unreachable();
 	}
+	// The processing view has to stick to the mesh that is shown too.
+	ui->processing_view->set_display_view_axes({
+		ui->tb_show_all_mesh->isChecked() || ui->tb_show_horizontal_mesh->isChecked(),
+		ui->tb_show_all_mesh->isChecked() || ui->tb_show_vertical_mesh->isChecked() });
 
 	switch(ui->processing_view->get_display_mode()) {
 	case DisplayMode::EVERYTHING: ui->tb_show_everything->setChecked(true); break;
-- 
2.43.0


From 3b7cc2a3bbfc712a1c14b3178fb1c9768ebb9c78 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 07:02:33 +0000
Subject: [PATCH 32/32] fix: crossings of diagonal edges with orthogonal ones
 are angles too

Bounding boxes of orthogonal edges have no extent along an axis, so the strict
overlap test dismissed every pair of a diagonal edge and an orthogonal one.
---
 src/domain/board.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/domain/board.cpp b/src/domain/board.cpp
index 4968278..904f634 100644
--- a/src/domain/board.cpp
+++ b/src/domain/board.cpp
@@ -293,7 +293,7 @@ void Board::detect_diagonal_angles(Plane plane) {
 					&& edge_b->axis != Segment::Axis::DIAGONAL)
 						continue;
 
-					if(!does_overlap_strict(bounding(*edge_a), bounding(*edge_b)))
+					if(!does_overlap(bounding(*edge_a), bounding(*edge_b)))
 						continue;
 
 					relation::SegmentSegment rel = edge_a->relation_to(*edge_b);
-- 
2.43.0

