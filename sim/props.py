"""What each check runs, and what its evidence says about it."""
CORE = ["src/utils/state_management", "src/utils/tree_node"]
DOMAIN = CORE + ["src/app/openemsh", "src/domain/**", "src/infra/parsers", "src/infra/serializers", "pugixml"]

STATE = dict(
    passes=[("asan", 0.4), ("plain", 0.6)], wall_share=dict(asan=0.6, plain=0.4),
    rule="seeded random history of Caretaker/Originator operations (swarm weighted); non-trivial: at least 5 operations took effect; distinct by the sequence of effective operation kinds",
    states="hash of (timepoint tree shape, recorded state positions, user history, cursor, pins, current)",
    real=CORE, stubs=[],
    assumptions=["objects record states on timepoints that have no successor yet, as the program does",
                 "undo/redo is not exercised between a move made without remembering in the middle of a browsed history and the next new work",
                 "gcc's AddressSanitizer/UBSan build of the code behaves like the shipped build"],
)

PROPS = {
    "P01": dict(STATE, runs=(40000, 800000)),
    "P02": dict(STATE, runs=(40000, 800000), must_hit=["probe.undo_browsing", "probe.remember_while_browsing"]),
    "P03": dict(STATE, runs=(40000, 800000), must_hit=["probe.collected_timepoints"]),
}

SESSION = dict(
    passes=[("asan", 0.1), ("plain", 0.9)], wall_share=dict(asan=0.3, plain=0.7),
    rule="seeded random session (swarm weighted) over generated documents: steps, run all, run from, edits of every kind with re-run, undo, redo, previous, pin, collection, save, opening again, failed opening; non-trivial: at least 4 operations took effect; distinct by the sequence of effective operations with the depth reached",
    states="hash of the complete canonical text of the project after each operation",
    real=DOMAIN, stubs=["disk (in memory)", "user interface (operations and edition rules of the main window, progress reporter)"],
    assumptions=["edits are the ones the edition dialogs accept, applied like the main window does (go before the step, change, run from the step)",
                 "line policies, intervals and zones are edited only when the step that uses them has run, like the views offer them"],
)
PROPS.update({
    "P04": dict(SESSION, runs=(4500, 60000), must_hit=["probe.revisit"]),
    "P05": dict(SESSION, runs=(4500, 60000), must_hit=["probe.compared_with_pristine"]),
    "P06": dict(SESSION, runs=(4500, 60000), must_hit=["probe.looked_while_running"]),
    "P07": dict(SESSION, runs=(4500, 60000), must_hit=["probe.reopen", "probe.failed_open"]),
    "P20": dict(SESSION, runs=(4500, 60000), must_hit=["probe.mesh_judged", "probe.asked_line"]),
    "P21": dict(SESSION, runs=(4500, 60000), must_hit=["probe.mesh_judged", "probe.interval_in_zone"]),
    "P22": dict(SESSION, runs=(4500, 60000), must_hit=["probe.edges_judged", "probe.edge_above_all", "probe.edge_open", "probe.edge_alongside", "probe.edge_hidden_by_one", "probe.edge_hidden_by_several", "probe.edge_across_notch", "probe.edge_reversed", "probe.edge_not_reversed"]),
    "P23": dict(SESSION, runs=(4500, 60000), must_hit=["probe.policies_judged", "probe.merge_judged", "probe.colinear_edges_judged", "probe.single_edge_judged"]),
    "P24": dict(SESSION, runs=(4500, 60000), must_hit=["probe.zones_judged", "probe.zone", "probe.angle_of_sides", "probe.angle_of_crossing", "probe.angle_of_diagonals", "probe.angle_judged", "probe.interval_in_zone", "probe.interval_out_of_zones"]),
    "P25": dict(SESSION, runs=(4500, 60000), must_hit=["probe.polygons_judged", "probe.outline", "probe.circle", "probe.line_of_primitive", "probe.unsupported_told", "fault.short_reads"]),
    "P27": dict(SESSION, runs=(3500, 60000), must_hit=["probe.reports_judged", "probe.hidden_edge_told", "probe.colinear_edges_told", "probe.close_policies_told", "probe.mesh_told"]),
})

DISK = dict(
    passes=[("asan", 0.05), ("plain", 0.95)], wall_share=dict(asan=0.3, plain=0.7),
    states="hash of the project or error text that came out and of the disk image left behind",
    real=DOMAIN, stubs=["disk (in memory, behind libc's open/read/write/stdio/stat/rename/... symbols)", "user interface (operations of the main window)"],
    assumptions=["a killed process leaves what its completed system calls wrote (page cache survives); losing the machine's power is not simulated",
                 "the simulated user is not root: mode bits are honoured",
                 "a process's memory ends with it: each life runs in its own process on the disk left by the previous one"],
)
PROPS.update({
    "P08": dict(DISK, runs=(40000, 600000), rule="seeded document, damaged (cut, bytes flipped, elements or attributes dropped, duplicated, nested, replaced by odd values) or with an unusual input path, opened under seeded read faults, then again from a healthy disk and meshed and saved if what was damaged is structural; non-trivial: opened or refused under at least one damage or fault; distinct by the kinds of damage and the sequence of I/O, faults and outcomes", must_hit=["probe.opened", "probe.refused"]),
    "P09": dict(DISK, runs=(30000, 400000), rule="seeded document, session and output layout, saved under seeded I/O faults (errors, short and torn writes, full disk, dead device), then saved again from a healthy disk; the saved file is compared element by element with the input and line by line with the mesh; distinct by layout, session and the sequence of I/O, faults and outcomes", must_hit=["probe.saved", "probe.failed_by_fault"]),
    "P10": dict(DISK, runs=(20000, 300000), rule="seeded document, session and output layout, the process killed at a seeded I/O point of the save (before, in the middle of, or after the call), or the save failing; every file of the disk is compared afterwards, and a new process saves again; distinct by layout, session and the sequence of I/O, faults and outcomes", must_hit=["probe.killed_in_save"]),
    "P12": dict(DISK, runs=(8000, 120000), rule="seeded document and session, saved, reopened in new processes for 2 to 4 lives, in place or along a chain of files; structure, parameters, mesh and saved files compared between lives; distinct by options and session", must_hit=["probe.reopened", "probe.kept_mesh"]),
})

UTILS = ["src/utils/logger", "src/utils/progress", "src/ui/cli/logger", "src/ui/cli/progress"]
PROPS["P13"] = dict(group="ui", runs=(60000, 800000), passes=[("asan", 0.25), ("plain", 0.75)], wall_share=dict(asan=0.6, plain=0.4),
    rule="seeded history of listener registrations, interactive changes, messages and questions, typed lines, progress jobs of several reporters and whole projects, with the terminal ending or failing at any point; non-trivial: at least 4 operations took effect; distinct by the sequence of effective operations",
    states="hash of (listeners, interactive one, reporters, running jobs, terminal)",
    real=UTILS + ["src/app/openemsh", "src/domain/**", "src/infra/parsers"], stubs=["terminal (stream buffers)", "progress bar library (indicators)", "recording listeners and reporters", "disk (in memory)"],
    must_hit=["probe.answered", "probe.refusal", "probe.job", "probe.project", "probe.warning", "fault.screen_breaks", "fault.keyboard_breaks", "fault.reporter_throws"],
    assumptions=["a name is registered again while its first listener lives: either of them may stay, never both", "listeners do not register others while they are called"])

PROPS["P11"] = dict(group="ui", runs=(10000, 120000), passes=[("asan", 0.1), ("plain", 0.9)], wall_share=dict(asan=0.4, plain=0.6),
    rule="seeded sequence of 1 to 4 commands (inputs and outputs of every kind, every option, wrong options, help, window) on a disk with existing files, links, folders and files that refuse, under seeded I/O faults, full disk and failing standard error; each command's status, files and messages are compared with the library used directly on a healthy disk; non-trivial: every run executes at least one command; distinct by the kinds of arguments, outcomes and I/O",
    states="hash of (output content, status, format)",
    real=["src/main", "src/ui/cli/**", "CLI11"] + DOMAIN, stubs=["disk (in memory)", "standard streams (stream buffers)", "QApplication and main window (only counted)", "progress bar library"],
    must_hit=["probe.saved", "probe.displayed", "probe.refused_overwriting", "probe.failed_by_fault", "probe.help", "probe.window"],
    assumptions=["no other program changes the disk while a command runs", "a file in a folder where nothing can be created cannot be replaced"])

PROPS["P14"] = dict(group="layout", runs=(3000, 60000), passes=[("plain", 1.0)],
    rule="seeded document, options and short session, executed in one ordinary process and in 2 to 4 processes with another memory layout; non-trivial: every run opens and meshes the project at least three times; distinct by document, session and layouts",
    states="hash of everything that came out (project after each operation, saved file, printed results)",
    real=DOMAIN, stubs=["disk (in memory)", "memory allocator (order of addresses, reuse, content of fresh and released memory)", "content of the stack below main"],
    must_hit=["fault.order_1", "fault.order_2", "fault.order_3", "fault.order_4", "fault.fill_0", "fault.fill_2", "fault.process_with_a_past"],
    assumptions=["the compiler and the processor are the same in all executions", "diagrams (plantuml) number objects and are only compared between processes without a past"])

PROPS["P15"] = dict(group="gui", runs=(4000, 60000), passes=[("asan", 0.1), ("plain", 0.9)], wall_share=dict(asan=0.4, plain=0.6),
    rule="seeded sequence of user actions on the main window (open, step, undo, redo, select, edit, save, save as, viewer, view buttons, keys, clicks, close) with the answers given in each dialog, on a disk whose files others remove, replace or protect in between, under seeded I/O faults and failing viewer; before each action a copy of the process is set aside which performs the corresponding operation of the library instead, and both results must be the same; kept views are compared with newly made ones; non-trivial: at least 3 actions took effect; distinct by the sequence of effective actions",
    states="hash of the project after each action",
    real=["src/ui/qt/**", "Qt widgets, scenes and event dispatching (offscreen platform)"] + DOMAIN,
    stubs=["user (answers of message boxes, file dialogs, menus and edition dialogs)", "disk (in memory)", "viewer process", "temporary files", "screen (offscreen)", "process start-up"],
    must_hit=["op.edited_G", "op.edited_E", "op.edited_M", "op.edited_I", "probe.compared_with_new_views", "probe.saved", "probe.save_failed", "probe.opened", "probe.open_refused", "probe.closed", "probe.not_closed", "probe.edit_cancelled", "fault.file_replaced"],
    assumptions=["numbers typed in edition dialogs are meaningful for a mesh or not numbers at all", "the desktop does not end the program without closing the window"])

PROPS["P26"] = dict(PROPS["P15"], runs=(3000, 60000),
    rule="seeded sequence of user actions on the main window, mostly openings, steps, undo, redo, editions, selections and display choices, under seeded I/O faults; after each one everything the views paint is recorded primitive by primitive, and everything they tell and show is read, and judged from the project and the pressed buttons; non-trivial: at least 3 actions took effect; distinct by the sequence of effective actions",
    must_hit=["probe.drawn", "probe.told", "probe.wires", "probe.everything", "probe.displayed", "probe.chain", "probe.opened", "op.edited_G", "op.edited_E", "op.undo"],
    assumptions=["a line across the shapes is judged against shapes that have a surface", "the last displayed digit of a number may be rounded either way"])
