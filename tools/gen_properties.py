#!/usr/bin/env python3
"""Writes /verif/properties.jsonl (kept as a script so that the text stays reviewable)."""
import json, os
P = []
def p(id, title, statement, over, q, why, files, mech, state=(), observe=(), hook=None):
    P.append(dict(id=id, title=title, statement=statement,
        quantifier=dict(over=over, text=q), why_tests_cant=why,
        anchors=dict(files=files,
            state=[dict(name=a, meaning=b, where=c) for a, b, c in state],
            mechanism=[dict(name=a, where=b) for a, b in mech],
            observe_at=list(observe), hook_needed=hook)))

SM = "src/utils/state_management.cpp"
SMH = "src/utils/state_management.hpp"
APP = "src/app/openemsh.cpp"

p("P01", "Time travel gives back every object's exact recorded state",
  "After any sequence of creating objects, changing them, branching, moving between timepoints, undoing, redoing and collecting garbage, each managed object reads exactly the state that was last recorded for it on the branch of the current timepoint, at or before that timepoint. A state recorded at one timepoint is never changed by work done at another timepoint, and annotations stay attached to the timepoint they were put on and are found from its descendants.",
  ["histories"], "Every finite sequence of state-management operations, over any number of objects born at different timepoints and any branching of the history.",
  "The unit tests drive one or two originators through a dozen hand written steps on fixed small trees; the branching histories, late-born objects, lazily refreshed objects and garbage collections are only sampled one at a time.",
  [SM, SMH, "src/utils/tree_node.cpp"],
  [("lazy refresh: pending_timepoint, go()/lazy_go()", SMH), ("ancestor search of the recorded state", SMH), ("branching in next_timepoint/make_next_timepoint", SM)],
  [("current_timepoint", "where the caretaker is", SMH), ("Originator::states", "recorded states per timepoint", SMH), ("annotations", "notes per timepoint", SMH)],
  ["Originator::get_current_state", "Originator::get_available_states", "Caretaker::get_annotation", "Caretaker::find_first_ancestor_with_annotation"])

p("P02", "Undo and redo walk exactly the remembered history, in order",
  "Undo and redo move the current timepoint along the list of remembered timepoints, one remembered timepoint per step and in the order they were remembered, and the queries telling whether a number of undo or redo steps is possible are always truthful. An impossible undo or redo leaves everything as it was, and starting new work (or remembering another timepoint) after an undo drops exactly the timepoints that had been undone.",
  ["histories"], "Every interleaving of remember, undo(n), redo(n), direct time travel and new work.",
  "Tests check a few literal undo/redo ladders; the interaction of undo, redo, remembering again in the middle, pinning and garbage collection is a history property.",
  [SM, SMH], [("user_history / browser cursor", SM), ("undo, redo, can_undo, can_redo", SM), ("make_next_timepoint discards undone entries", SM)],
  [("user_history", "remembered timepoints", SMH)],
  ["Caretaker::undo", "Caretaker::redo", "Caretaker::can_undo", "Caretaker::can_redo", "Caretaker::get_current_timepoint"])

p("P03", "Garbage collection keeps what can still be reached and nothing else",
  "Collecting garbage at any moment never removes, and never changes the states or annotations of, the current, remembered and pinned timepoints or any of their ancestors, so every later undo, redo or jump to a pinned timepoint still works. Every other timepoint is removed, together with the states recorded on it, and nothing keeps referring to a removed timepoint.",
  ["histories"], "Every history, with garbage collections placed anywhere in it, by hand or automatically on undo discard.",
  "The tests collect on a handful of fixed trees; dangling references only show up when a collection is placed between a lazy move and its use, or with objects born on discarded branches.",
  [SM, SMH, "src/utils/tree_node.cpp"], [("garbage_collector: in-use set, subtree deletion, state erasure", SM), ("IOriginator::erase", SMH)],
  [("pinned_timepoints", "timepoints protected by the user interface", SMH), ("user_history", "remembered timepoints", SMH)],
  ["Caretaker::garbage_collector", "TreeNode::cluster", "Originator::get_available_states"])

p("P04", "Undo, redo and previous step restore the whole project exactly",
  "In a meshing session, after any mix of steps, edits, undo, redo and stepping back, the complete observable project - mesh lines, intervals, line policies, conflicts with their solutions, edges, angles and parameters on all axes and planes - is exactly what it was when that point of the history was first reached. Nothing observable refers to an object which no longer exists or belongs to an undone part of the history.",
  ["histories"], "Every interleaving of opening, stepping, editing, undo, redo, pinning and garbage collection, on every generated structure.",
  "Tests of the meshing domain build each class once with its own caretaker and never undo a whole session; objects that are not registered for time travel, or registered partially, are only wrong after a history of moves.",
  [APP, "src/domain/board.cpp", "src/domain/conflict_manager.cpp", "src/domain/meshline_policy_manager.cpp", "src/domain/mesh/interval.cpp", SM],
  [("every domain object is an originator registered with the caretaker", "src/domain/board.cpp"), ("steps set annotated timepoints", APP)],
  [("BoardState, EdgeState, ... IntervalState", "everything shown to the user", "src/domain")],
  ["Board::get_meshlines", "Board::get_intervals", "Board::get_meshline_policies", "Board conflict getters", "OpenEMSH::get_current_step"])

p("P05", "The mesh depends on the effective edits, not on the way there",
  "After any history of steps, edits, undo, redo, stepping back and running again, the project equals the one obtained in a fresh program by opening the same input with the same parameters and applying only the steps and edits still in effect. Work that was undone or superseded leaves no trace in the mesh, in the conflicts and policies or in what is saved.",
  ["histories"], "Every history of session operations against the detour-free replay of its effective steps and edits.",
  "There is no test that compares a session with detours with a fresh one; the tests sample single forward runs.",
  [APP, "src/domain/board.cpp", "src/domain/conflict_manager.cpp", "src/domain/meshline_policy_manager.cpp", "src/domain/mesh/interval.cpp"],
  [("go_before + run_from_step", APP), ("new timepoints branch from the current one", SM)],
  [], ["Board getters", "OpenEMSH::write"])

p("P06", "Step navigation is truthful, ordered and always able to finish",
  "Running the next step runs exactly the next meshing step in order, stepping back returns to the state before the last run step, and going before a step lands where that step has not run yet and can be run again. While a step runs and right after it, that step is the current one, and the queries for whether one can move forward or back are truthful. Moving forward always reaches the finished mesh within the number of steps there are, and running step by step gives the same project as running everything at once.",
  ["histories"], "Every sequence of next, all, previous, go-before, edit, undo and redo commands on every generated structure, including structures on which some steps have nothing to do.",
  "The step machinery is not unit tested at all; steps that create no new timepoint are input dependent.",
  [APP, "src/app/steps.hpp"], [("annotations carrying the step", APP), ("run/run_next_step/go_before/go_before_previous_step/can_*", APP)],
  [("Annotation{before_step, after_step}", "marks which step a timepoint precedes or ends", APP)],
  ["OpenEMSH::get_current_step", "OpenEMSH::can_run_a_next_step", "OpenEMSH::can_go_before"])

p("P07", "Opening a project starts from a clean slate",
  "Whatever was done before in the same program, including failed openings, opening a project gives the same session as opening it in a fresh program: same structure, same mesh, same step, an empty undo history and no effect of the previous project. Undo can never lead back before the opening.",
  ["histories", "fault_sequences"], "Every history of sessions and failed openings followed by an opening of any project.",
  "Tests open one file per process; the process wide state (caretaker, progress, identifiers) is reset by hand in them.",
  [APP, SM], [("Caretaker::reset in parse", APP), ("singletons", SM)],
  [("Caretaker singleton", "history of the process", SM)], ["OpenEMSH::parse", "Caretaker::can_undo", "Board getters"])

p("P08", "Unreadable or damaged input is reported and never brings the program down",
  "Opening a file that is missing, unreadable, truncated, corrupted, structurally incomplete or whose reading fails half way ends with an error or a usable project, never with a crash, a hang or an endless allocation. A file whose reading failed, or which is cut before its end, is never taken for a complete project, and short reads change nothing.",
  ["fault_sequences", "inputs"], "Every damage of a document (truncation, lost, flipped or repeated bytes, dropped elements) and every failure of the reading system calls.",
  "Tests only parse well formed files from a healthy disk, plus one missing file.",
  ["src/infra/parsers/parser_from_csx.cpp", "src/infra/parsers/csxcad_layer/point_3d.cpp", "src/domain/geometrics/polygon.cpp", APP],
  [("pugi::xml_document::load_file status", "src/infra/parsers/parser_from_csx.cpp"), ("std::expected error path", APP)],
  [], ["OpenEMSH::parse return value", "process status"])

p("P09", "A reported save is a complete, correct file; a failed one is reported",
  "Saving reports success only if the output file holds the complete result: for the model format the mesh lines of the current mesh on every requested axis to the printed precision, with all other elements, attributes and text of the input document left as they were (the grid element belongs to the program, and so do the saved meshing parameters). Any failure to create, write or finish the file - missing directory, no permission, full disk, I/O error - is reported as an error and the program keeps running.",
  ["fault_sequences", "histories"], "Every schedule of I/O faults during a save, for each output format, from every session state.",
  "Tests write once to a healthy disk; none makes a system call fail.",
  [APP, "src/infra/serializers/serializer_to_csx.cpp", "src/infra/serializers/serializer_to_plantuml.cpp"],
  [("OpenEMSH::write return value", APP), ("save_file", "src/infra/serializers/serializer_to_csx.cpp")],
  [], ["OpenEMSH::write", "content of the output file"])

p("P10", "A crash or failure while saving never destroys the user's file",
  "If the program is killed at any point of a save, or the save fails, the output path afterwards holds either its complete previous content or the complete new content. No other file of the user is ever changed, and after a restart the same save can be done again.",
  ["crash_points", "fault_sequences"], "Every point at which the process can be killed and every I/O failure inside a save, saving over the input or over another file. (Completed system calls survive: a process crash, not a power loss.)",
  "No test crashes the program or fails a write; the guarantee quantifies over all intermediate points of a save.",
  ["src/infra/serializers/serializer_to_csx.cpp", "src/infra/serializers/serializer_to_plantuml.cpp", APP],
  [("replacement of the output file", "src/infra/serializers")],
  [], ["the disk image after the crash"])

p("P11", "The command line never overwrites silently and its exit status is true",
  "Run from the command line without the force option, the program never modifies or replaces an existing output file, the input included, in any file output format. It exits with success if and only if what was asked for was completely done, and with failure and an explanation otherwise.",
  ["configurations", "fault_sequences"], "Every combination of command line options, pre-existing files and I/O failures.",
  "The command line front end has no test; its outcome depends on the state of the file system.",
  ["src/main.cpp", "src/ui/cli/cli.cpp", APP], [("is_about_overwriting", APP), ("exit codes", "src/main.cpp"), ("option parsing", "src/ui/cli/cli.cpp")],
  [], ["exit status", "file system after the run", "standard error"])

p("P12", "Save and reload cycles lose nothing",
  "A project saved and opened again in a new run of the program gives the same structure, and with saved meshing parameters (proximity limit, smoothness, maximum distance and minimum number of lines, with the fixed lines of the input) the same parameters and the same mesh; meshing the saved file again under the same options and saving again produces the same file. The kept old mesh lines of a reopened file are exactly the lines that were saved.",
  ["histories", "configurations"], "Every chain of open, mesh, edit parameters, save, restart, reopen runs under every option set.",
  "Tests parse or serialise fixed documents separately, never a chain of program runs.",
  ["src/infra/parsers/parser_from_csx.cpp", "src/infra/serializers/serializer_to_csx.cpp", APP, "src/domain/board.cpp"],
  [("OpenEMSH/GlobalParams element", "src/infra/serializers/serializer_to_csx.cpp"), ("parse_oemsh_params, parse_grid", "src/infra/parsers/parser_from_csx.cpp")],
  [], ["the saved file", "Board getters after reopening"])

p("P13", "Log messages and progress reach the current listeners, never a dead one",
  "Every log message is delivered exactly once and in order to each registered listener it is meant for, and to no other; a question is put to the interactive listener and always comes back with one of the answers that were offered, or with a refusal when the user gives none or is gone - it never hangs. Every progress job reaches each registered reporter as one bar which sees each advance in order, its completion at most once, and is released exactly once, whatever ends the job.",
  ["histories", "fault_sequences"], "Every sequence of listener registrations, messages, questions and progress jobs, with the terminal failing or ending at any point.",
  "Tests cover one or two listeners in fixed orders and never an end of input.",
  ["src/utils/logger.cpp", "src/utils/progress.cpp", "src/ui/cli/logger.cpp", "src/ui/cli/progress.cpp"],
  [("sink registration", "src/utils/logger.cpp"), ("Bar ownership", "src/utils/progress.cpp")],
  [], ["sink callbacks", "Logger::log return value"])

p("P14", "The same input always gives the same mesh",
  "Running the program twice on the same input with the same options gives the same mesh, the same conflicts and policies and the same saved file, independently of where objects are placed in memory, of what uninitialised memory holds and of what ran before in the process.",
  ["schedules", "configurations"], "Every memory layout and every content of fresh memory.",
  "A test process sees one memory layout with mostly zeroed fresh memory.",
  ["src/domain/board.cpp", "src/domain/conflict_manager.cpp", "src/domain/meshline_policy_manager.cpp", "src/utils/map_utils.hpp"],
  [("ordered containers keyed by value, not by address", "src/domain"), ("initialisation of all state members", "src/domain")],
  [], ["OpenEMSH::write output", "Board getters"])

p("P15", "The main window's actions are truthful and closing it never loses work silently",
  "Whatever the user does in the main window - open, next, previous, undo, redo, select, edit, save, save as, display in the viewer, close, in any order and with any dialog outcome or I/O failure - the project is the one that the same operations of the library give: an accepted edition gives the project obtained by changing these values, and no others, before the first step they matter for and running every step from there; a disabled or cancelled action changes nothing. The enabled actions are exactly those that can be done, the views and the number of cells show the current project, and selecting in a view selects the same objects in the other. An existing file is only replaced after asking (unless --force), the saved file is what the library writes, and a failure to open, save or display is shown. Closing a window with unsaved work ends only after the work was saved or the user chose to discard it.",
  ["histories", "fault_sequences"], "Every sequence of user actions and dialog answers, with I/O faults during open and save.",
  "The graphical interface has no tests.",
  ["src/ui/qt/main_window.cpp", "src/ui/qt/edit/edit_model_global.cpp", "src/ui/qt/processing_view/processing_view.cpp"],
  [("update_* of action states", "src/ui/qt/main_window.cpp"), ("closeEvent", "src/ui/qt/main_window.cpp")],
  [("is_saved / title", "unsaved work marker", "src/ui/qt/main_window.cpp")],
  ["QAction::isEnabled", "models of the views", "QCloseEvent::isAccepted"])

p("P20", "Mesh lines are strictly ordered and honour every fixed line",
  "Whatever history of steps, edits, undo and redo led there, whenever meshing is finished the mesh lines of every axis are at finite places in strictly increasing order, without duplicates, between the first and the last enabled line policy. There is a line at each enabled policy which asks for one line, at the first place that each other enabled policy prescribes on its sides (half of the spacing for the halfs rule; one and two thirds for the thirds rule), and at each fixed line asked for by the user - fixed lines of the document, old mesh lines when they are kept - unless another policy within the proximity limit took its place.",
  ["histories", "configurations"], "Every history of session operations, over every generated structure, parameter and option set.",
  "Tests mesh a few literal structures and never one that was edited, undone and meshed again.",
  ["src/domain/board.cpp", "src/domain/mesh/interval.cpp", "src/domain/meshline_policy_manager.cpp", APP],
  [("Interval::mesh, MeshlinePolicy::mesh", "src/domain/mesh"), ("MeshlinePolicyManager::mesh", "src/domain/meshline_policy_manager.cpp")],
  [], ["Board::get_meshlines", "Board::get_meshline_policies"])

p("P21", "Line spacing respects the maximum cell size and the smoothness ratio",
  "Whatever history of steps, edits, undo and redo led there, whenever meshing is finished the spacing between two consecutive enabled line policies never exceeds the maximum in effect (that of the diagonal or circular zone the middle of the interval lies in, of the edited interval, or the global one). From each policy to the middle of the interval each cell is at most smoothness times the previous one, and each half has at least the minimum number of lines.",
  ["histories", "configurations"], "Every history of session operations, over every generated structure and parameter set.",
  "Tests solve literal intervals, never those of an edited, undone and re-run session.",
  ["src/domain/mesh/interval.cpp", "src/domain/meshline_policy_manager.cpp", "src/domain/conflict_manager.cpp"],
  [("Interval::auto_solve_d, auto_solve_smoothness, auto_solve_lmin", "src/domain/mesh/interval.cpp")],
  [], ["Board::get_intervals", "Board::get_meshlines"])

p("P23", "Close or colinear edges give one line policy, by priority",
  "Whatever history of steps, edits, undo and redo led there, whenever line policies were made: the colinear edges of a plane (edges along an axis at the same place) give together one policy at their place - none if none of them is to mesh, one line if one of those to mesh has no normal (it is no side of a material), the halfs rule if their normals point both ways, the thirds rule toward their common direction otherwise; every other edge to mesh which has a normal gives a thirds policy of its own toward this normal, and each angle a halfs policy on each axis, enabled where the angle is to mesh. Merging joins the two closest enabled policies of an axis which are not farther apart than the proximity limit, both get disabled and one enabled policy replaces them: a one-line policy prevails and keeps its place (the middle of two), two thirds policies of the same direction give thirds in the middle, any other pair halfs in the middle. When merging is finished no two enabled policies of an axis are within the limit.",
  ["histories", "configurations"], "Every history of session operations, over every generated structure, parameter and option set.",
  "Tests cover a few literal arrangements of edges, made once.",
  ["src/domain/board.cpp", "src/domain/conflict_manager.cpp", "src/domain/meshline_policy_manager.cpp"],
  [("solve_all_colinear_edges, solve_all_edge_in_polygon, solve_all_too_close_meshline_policies", "src/domain/conflict_manager.cpp"), ("MeshlinePolicyManager", "src/domain/meshline_policy_manager.cpp")],
  [], ["Board::get_meshline_policies", "Polygon::get_points, Edge"])

p("P24", "Diagonal and circular zones, and only they, get a finer mesh",
  "Whatever history of steps, edits, undo and redo led there, whenever zones were detected: the angle points of each plane are exactly the vertices of polygons where a diagonal side meets another side and the points where a diagonal edge crosses an edge of another polygon (orthogonal or not), each with the angle of its edges; the zones of each axis are exactly the maximal runs of consecutive angle points (of one plane, in order along the axis) between which, at every middle, a diagonal edge to mesh spans. The extreme angles of a zone ask for mesh, its inner ones exactly when their angle is at least the minimal angle asked for. Every interval whose middle lies in a zone has the maximum cell size of (one of) its zones, every other one the global maximum. (Angles and intervals edited by the user are his.)",
  ["histories", "configurations"], "Every history of session operations, over every generated structure, parameter and option set.",
  "Tests cover a few literal outlines, made once.",
  ["src/domain/conflict_manager.cpp", "src/domain/conflicts/conflict_diagonal_or_circular_zone.cpp", "src/domain/meshline_policy_manager.cpp"],
  [("detect/solve diagonal zones", "src/domain/conflict_manager.cpp"), ("detect_intervals_per_diagonal_zones", "src/domain/meshline_policy_manager.cpp")],
  [], ["Board::get_diagonal_zones", "Board::get_intervals"])

p("P22", "Edges hidden by other material ask for no mesh, and better conductors turn edges",
  "Whatever history of steps, edits, undo and redo led there, once the edges covered by other polygons were solved: an edge along an axis is left out of the mesh exactly when each of its places is inside a polygon of at least its own priority whose extent along the normal overlaps or touches that of its polygon, or along a side of such a polygon which is turned the other way; sharing a side that is turned the same way does not hide it. Once edges were adjusted to materials, an edge is turned toward the other side exactly when the material immediately beside it (of the highest priority there) is a better conductor - in the order port, conductor, dielectric, air - than its own. (Edges edited by the user are his.)",
  ["histories", "configurations"], "Every history of session operations, over every generated arrangement of overlapping primitives, priorities and materials.",
  "Tests cover literal overlaps of a few rectangles, solved once.",
  ["src/domain/board.cpp", "src/domain/conflict_manager.cpp", "src/domain/conflicts/conflict_edge_in_polygon.cpp", "src/domain/geometrics"],
  [("detect_edges_in_polygons, adjust_edges_to_materials", "src/domain/board.cpp"), ("ConflictEdgeInPolygon::auto_solve", "src/domain/conflicts/conflict_edge_in_polygon.cpp"), ("Polygon::relation_to, Segment::relation_to", "src/domain/geometrics")],
  [], ["Board::get_edges", "Board::get_polygons"])

p("P25", "Each primitive becomes the right polygons on the right planes",
  "At any point of any session over any number of documents, the polygons of the project are exactly those of the document that is open: every supported primitive is seen along each axis whose plane is enabled, and on no other, with its real outline, heights, priority (the highest one for ports and curves), name and rank, material (deduced from what its property says) and colours - boxes (each of those of a multibox) as rectangles; polygons along their normal only, at their elevation; linear polygons as their outline along their normal, from their elevation over their length (either way), and as their bounding rectangle along the other axes when they have a length; spheres as circles reaching their radius; cylinders along an axis as a circle and, from the sides, rectangles of their whole radius; curves there and back between their extreme heights. Sides join successive vertices and bounds are the extreme ones. Once fixed lines were added, policies without an origin are exactly at the elevations of polygons, the coordinates of points seen on enabled planes, the saved fixed lines (in their unit, unless they are not to be read) and the old grid (if it is to be kept). Properties and primitives that are not supported (or transformed, or without vertices, or cylinders along no axis) are skipped and each told by its type and name in a single warning per opening.",
  ["inputs", "histories", "configurations"], "Every well formed document, every combination of disabled planes and reading options, read in pieces of any size, after any earlier openings (failed ones included), at every point of every session.",
  "Tests parse literal documents, with every plane enabled, and count polygons.",
  ["src/infra/parsers/parser_from_csx.cpp", "src/infra/utils", "src/domain/geometrics/polygon.cpp", "src/domain/board.cpp"],
  [("primitive parsers", "src/infra/parsers/parser_from_csx.cpp"), ("Polygon, circle_to_points", "src/domain/geometrics/polygon.cpp"), ("Board::Builder", "src/domain/board.cpp")],
  [], ["Board::get_polygons", "Board::get_meshline_policies", "Logger"])

p("P26", "The main window draws and tells each object of the project as it is",
  "Whatever was opened, run, stepped back, undone, redone, edited and looked at before, the structure view of each plane draws each polygon of that plane with its points, each edge from end to end, each angle at its vertex and, across all the shapes and perpendicular to the axis they belong to, the mesh lines, line policies (with the places of the lines they ask for), intervals, zones and conflicts of the two axes of that plane at their coordinates - each once, identified by its number and name, enabled or not as it is, and nothing else; the letters in the corner name the axes of that plane in the directions they are drawn, however the view is turned. The processing view has one node for each object, in the frame of its plane, axis or polygon, which tells its kind, number, name and present values, and is wired to exactly the objects it was made from, with wires from port to port in the chosen style. Both views show what the pressed buttons say: mesh lines of the chosen directions; everything, what the structure view displays (its plane and the axes whose lines are shown), or the selected objects and all they are linked with.",
  ["histories", "configurations"], "Every sequence of openings (failed ones included), steps, undo, redo, editions, selections and display choices in the window, over every generated project.",
  "The graphical interface has no tests.",
  ["src/ui/qt/structure_view/structure_scene.cpp", "src/ui/qt/structure_view/structure_view.cpp", "src/ui/qt/processing_view/processing_scene.cpp", "src/ui/qt/processing_view/processing_view.cpp", "src/ui/qt/main_window.cpp"],
  [("StructureView::populate", "src/ui/qt/structure_view/structure_view.cpp"), ("ProcessingView::populate", "src/ui/qt/processing_view/processing_view.cpp"), ("update_show_buttons_pressing", "src/ui/qt/main_window.cpp")],
  [("states", "kept views of each point of the history", "src/ui/qt/structure_view/structure_view.hpp")],
  ["painting of the views", "texts, ports and wires of nodes", "visibility of items"])

p("P27", "The diagram and the printed report tell the project as it is",
  "At any point of any session, the PlantUML diagram is a well formed one (blocks closed, no name used twice, every arrow and row about a declared block) and has exactly one block for each object of the project, in the block of its plane, axis or polygon: polygons with their name and turn, edges with their normal and whether they are meshed, line policies with their normal, policy, distance and whether they are enabled, intervals with their spacing, least numbers of lines and smoothness on each side, mesh lines with their coordinate, and conflicts; with an arrow for each relation and no other: from the edges and polygons of a conflict to it, from a conflict to the edge or policy it decides, from the policies around an interval to it, from a policy or interval to each of its mesh lines, from an edge to the policy made from it alone. The printed report has, for every conflict of an edge within polygons, its plane, its edge, each polygon that covers it with all its sides, the range that is covered and by which side, and what was decided; and for every conflict of colinear edges, its axis, its edges and the policy decided. Telling it does not change the project.",
  ["inputs", "histories", "configurations"], "Every point of every session over every generated document: before any step, after any of them, after stepping back, undo, redo, editions, pinning, collections and opening again.",
  "No test runs the serializers on more than one literal board, nor after the history moved.",
  ["src/infra/serializers/serializer_to_plantuml.cpp", "src/infra/serializers/serializer_to_prettyprint.cpp", "src/infra/utils/to_string.cpp"],
  [("SerializerToPlantuml", "src/infra/serializers/serializer_to_plantuml.cpp"), ("SerializerToPrettyprint", "src/infra/serializers/serializer_to_prettyprint.cpp"), ("Board::accept", "src/domain/board.cpp")],
  [], ["SerializerToPlantuml::run", "SerializerToPrettyprint::run"])

with open(os.path.join(os.path.dirname(__file__), "..", "properties.jsonl"), "w") as f:
    for x in P: f.write(json.dumps(x) + "\n")
