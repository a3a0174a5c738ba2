// Main window world (P15): the real window, views, dialogs, edition models and
// the whole program behind them, with a simulated user (message boxes, menus,
// file dialogs, edition dialogs), a simulated disk and a simulated external
// viewer.
//
// Oracles: before each action a copy of the process is set aside; it performs
// what the action stands for with the library alone, and its project must be
// the one the window ends with.  Actions must be enabled exactly when they can
// be done, views must be those of a new window on the same project, and what
// happens to files and to unsaved work must follow from the user's answers.
#include <algorithm>
#include <cmath>
#include <cstring>
#include <limits>
#include <memory>
#include <optional>
#include <set>

#include <sys/wait.h>
#include <unistd.h>

#include <QAction>
#include <QActionGroup>
#include <QApplication>
#include <QCheckBox>
#include <QComboBox>
#include <QDialog>
#include <QDialogButtonBox>
#include <QFileDialog>
#include <QGraphicsSceneMouseEvent>
#include <QHeaderView>
#include <QImage>
#include <QLabel>
#include <QLineEdit>
#include <QMenu>
#include <QMessageBox>
#include <QPainter>
#include <QProcess>
#include <QPushButton>
#include <QStandardItemModel>
#include <QStatusBar>
#include <QStyledItemDelegate>
#include <QTableView>
#include <QTemporaryFile>
#include <QToolButton>
#include <QWheelEvent>

#include "app/openemsh.hpp"
#include "domain/board.hpp"
#include "domain/conflicts/conflict_colinear_edges.hpp"
#include "domain/conflicts/conflict_diagonal_or_circular_zone.hpp"
#include "domain/conflicts/conflict_edge_in_polygon.hpp"
#include "domain/conflicts/conflict_too_close_meshline_policies.hpp"
#include "domain/mesh/interval.hpp"
#include "domain/mesh/meshline.hpp"
#include "domain/mesh/meshline_policy.hpp"
#include "infra/utils/to_string.hpp"
#include "utils/logger.hpp"
#include "utils/state_management.hpp"
#include "ui/qt/data_keys.hpp"
#include "ui/qt/main_window.hpp"
#include "ui/qt/processing_view/processing_view.hpp"
#include "ui/qt/structure_view/structure_view.hpp"
#include "ui/qt/utils/nodegraph/node.hpp"

#include "docgen.hpp"
#include "simfs.hpp"
#include "snapshot.hpp"
#include "worlds.hpp"
#include "gui_drawn.hpp"

#undef ERROR

Q_DECLARE_METATYPE(domain::MeshlinePolicy::Policy)
Q_DECLARE_METATYPE(domain::MeshlinePolicy::Normal)

namespace sim {
namespace {

using app::OpenEMSH;
using app::Step;
using namespace domain;
using ui::qt::MainWindow;
using ui::qt::ProcessingScene;
using ui::qt::ProcessingView;
using ui::qt::StructureScene;
using ui::qt::StructureView;
namespace DataKeys = ui::qt::DataKeys;

char const* const paths[] = { "/sim/in0.csx", "/sim/in1.csx", "/sim/bad.csx", "/sim/missing.csx", "/sim/out.csx", "/sim/old.csx", "/sim/dir/out.csx", "/sim/nodir/out.csx" };
constexpr int PATHS = 8;

QApplication* ensure_app() {
	static QApplication* app = [] {
		setenv("QT_QPA_PLATFORM", "offscreen", 1);
		setenv("QT_HASH_SEED", "0", 1);
		setenv("QT_NO_GLIB", "1", 1);
		setenv("QT_ACCESSIBILITY", "0", 1);
		setenv("QT_LOGGING_RULES", "*=false", 1);
		setenv("LC_ALL", "C.UTF-8", 1);
		unsetenv("DBUS_SESSION_BUS_ADDRESS");
		static int argc = 1;
		static char name[] = "openemsh", *argv[] = { name, nullptr };
		auto* a = new QApplication(argc, argv);
		a->setQuitOnLastWindowClosed(false);
		setlocale(LC_NUMERIC, "C");
		return a;
	}();
	return app;
}

//---------------------------------------------------------------- entities
struct Item { char kind; Entity const* entity; void const* object; };

// Everything that can be shown, in the order of the project.
std::vector<Item> items_of(Board const& b) {
	std::vector<Item> r;
	auto all = [&](char kind, auto const& v) { for(auto const& x : v) r.push_back({ kind, static_cast<Entity const*>(x.get()), x.get() }); };
	for(auto p : AllPlane) {
		for(auto const& x : b.get_polygons(p)) {
			r.push_back({ 'P', static_cast<Entity const*>(x.get()), x.get() });
			all('E', x->edges);
		}
		all('A', b.get_angles(p));
		all('X', b.get_conflicts_edge_in_polygons(p));
	}
	for(auto a : AllAxis) {
		all('C', b.get_conflicts_colinear_edges(a));
		all('T', b.get_conflicts_too_close_meshline_policies(a));
		all('Z', b.get_conflicts_diagonal_or_circular_zones(a));
		all('M', b.get_meshline_policies(a));
		all('I', b.get_intervals(a));
		all('L', b.get_meshlines(a));
	}
	return r;
}

//--------------------------------------------------------- the simulated user
struct Box { std::string text; int buttons; int answer; };
struct Cell { std::string label, value; }; // Value: t<text>, b<0|1>, p<policy>, n<normal>
struct User {
	std::vector<long> answers;
	std::size_t next = 0;
	std::vector<Box> boxes;
	std::string file_choice; // Of the file dialog, empty: cancelled.
	bool file_dialog = false, file_existing_only = false, file_saving = false;
	std::string edit_title, menu_choice;
	std::vector<Cell> cells;
	std::string displayed_wrong;
	bool edited = false, validated = false, menu = false;
	int dialogs = 0;
	std::vector<std::string> launched;
	long ask() { return next < answers.size() ? std::labs(answers[next++]) : (next++, 0); }
	void start(std::vector<long> a) { *this = {}; answers = std::move(a); }
};
User user;
int temp_fault = 0, process_fault = 0;
struct Seen { Logger::Level level; std::string message; };
std::vector<Seen> logged;

int answer_box(QMessageBox* box) {
	auto const set = box->standardButtons();
	std::vector<QMessageBox::StandardButton> all;
	for(int b = QMessageBox::FirstButton; b <= QMessageBox::LastButton; b <<= 1)
		if(set.testFlag((QMessageBox::StandardButton) b)) all.push_back((QMessageBox::StandardButton) b);
	std::size_t const c = (std::size_t) user.ask() % (all.size() + 1);
	QMessageBox::StandardButton choice = QMessageBox::NoButton;
	if(c < all.size()) choice = all[c];
	else {
		// The escape key: cancel, or the only button; otherwise the dialog stays.
		if(set.testFlag(QMessageBox::Cancel)) choice = QMessageBox::Cancel;
		else if(!all.empty()) choice = all.front();
	}
	user.boxes.push_back({ box->text().toStdString(), (int) set, (int) choice });
	event(fmt("box '%s' buttons %x answer %x", box->text().toStdString().c_str(), (int) set, (int) choice));
	count("user.message_box");
	if(auto* b = box->button(choice)) b->click();
	return box->result();
}

std::string cell_text(QStandardItemModel const* m, int row, int column) {
	auto* i = m->item(row, column);
	return i ? i->text().toStdString() : "";
}

void answer_edit(QDialog* d, QTableView* table) {
	auto* model = dynamic_cast<QStandardItemModel*>(table->model());
	auto* delegate = table->itemDelegate();
	user.edited = true;
	user.edit_title = d->windowTitle().toStdString();
	count("user.edit_dialog");
	d->show();
	d->grab();
	int const rows = model->rowCount(), V = model->columnCount() - 1;
	int const n = (int) (user.ask() % 4);
	// Values may be suggested beside the present ones: the user validates what is displayed.
	for(int r = 0; r < rows; ++r)
		if(V == 2 && model->item(r, 1) && model->item(r, V) && !model->item(r, V)->isCheckable() && cell_text(model, r, 1) != cell_text(model, r, V))
			user.cells.push_back({ cell_text(model, r, 0), "t" + cell_text(model, r, V) });
	static char const* const reals[] = { "1", "1.5", "2", "2.5", "4", "8", "1.25", "0.5", "1.8e0", "1.23456789", "0.87654321098", "abc", "", "3,5" };
	static char const* const naturals[] = { "1", "2", "3", "4", "5", "2.5", "x", "-3", "" };
	static char const* const smooths[] = { "1.2", "1.5", "1.8", "2", "1.35", "1.3456789", "one" };
	static char const* const angles[] = { "10", "20", "30", "45", "12.5", "22.3456789", "right" };
	for(int k = 0; k < n; ++k) {
		int const row = (int) (user.ask() % rows);
		long const v = user.ask();
		auto* item = model->item(row, V);
		if(!item) continue;
		std::string const label = cell_text(model, row, 0);
		auto const index = item->index();
		if(item->isCheckable()) {
			bool const b = v & 1;
			model->setData(index, b ? Qt::Checked : Qt::Unchecked, Qt::CheckStateRole);
			user.cells.push_back({ label, fmt("b%d", (int) b) });
			continue;
		}
		if(!(item->flags() & Qt::ItemIsEditable)) continue;
		auto const type = index.data(Qt::UserRole + 1).typeId();
		QStyleOptionViewItem option;
		option.rect = QRect(0, 0, 100, 20);
		std::unique_ptr<QWidget> editor(delegate->createEditor(table->viewport(), option, index));
		if(!editor) continue;
		delegate->setEditorData(editor.get(), index);
		if(auto* cb = qobject_cast<QComboBox*>(editor.get())) {
			std::vector<int> can;
			for(int i = 0; i < cb->count(); ++i) {
				auto* m = dynamic_cast<QStandardItemModel*>(cb->model());
				if(!m || m->item(i)->isEnabled()) can.push_back(i);
			}
			if(can.empty()) continue;
			int const i = can[(std::size_t) v % can.size()];
			cb->setCurrentIndex(i);
			user.cells.push_back({ label, (type == qMetaTypeId<MeshlinePolicy::Policy>() ? "p" : "n") + cb->itemText(i).toStdString() });
		} else if(auto* le = qobject_cast<QLineEdit*>(editor.get())) {
			bool const natural = label.find("lmin") != std::string::npos;
			bool const smooth = label.find("moothness") != std::string::npos;
			bool const angle = label.find("ngle") != std::string::npos;
			std::string const text = natural ? naturals[v % std::size(naturals)] : smooth ? smooths[v % std::size(smooths)] : angle ? angles[v % std::size(angles)] : reals[v % std::size(reals)];
			le->setText(QString::fromStdString(text));
			user.cells.push_back({ label, "t" + text });
		}
		delegate->setModelData(editor.get(), model, index);
	}
	d->grab();
	bool const ok = user.ask() % 4 != 0;
	user.validated = ok;
	auto* box = d->findChild<QDialogButtonBox*>();
	event(fmt("edit dialog '%s', %d values, %s", user.edit_title.c_str(), (int) user.cells.size(), ok ? "ok" : "cancel"));
	for(auto const& c : user.cells) event("  " + c.label + " = " + c.value);
	if(auto* b = box ? box->button(ok ? QDialogButtonBox::Ok : QDialogButtonBox::Cancel) : nullptr) b->click();
	else d->reject();
}

} // namespace
} // namespace sim

// The user sits in front of every modal dialog and menu.
int QDialog::exec() {
	using namespace sim;
	++user.dialogs;
	if(auto* box = qobject_cast<QMessageBox*>(this)) return answer_box(box);
	if(auto* table = findChild<QTableView*>()) { answer_edit(this, table); return result(); }
	show();
	grab();
	reject();
	return result();
}

QAction* QMenu::exec(QPoint const&, QAction*) {
	using namespace sim;
	user.menu = true;
	count("user.menu");
	auto list = actions();
	std::vector<QAction*> v(list.begin(), list.end());
	std::stable_sort(v.begin(), v.end(), [](auto* a, auto* b) { return a->text() < b->text(); });
	std::size_t const c = (std::size_t) user.ask() % (v.size() + 1);
	if(c >= v.size()) return nullptr;
	user.menu_choice = v[c]->text().toStdString();
	sim::event("menu choice " + user.menu_choice);
	v[c]->trigger();
	return v[c];
}

int SimFileDialog::exec() {
	using namespace sim;
	user.file_dialog = true;
	user.file_saving = mode == AcceptSave;
	count("user.file_dialog");
	long const cancel = user.ask() % 5;
	std::string const path = paths[user.ask() % PATHS];
	bool const impossible = file_mode == ExistingFile && !fs::exists(path) && user.ask() % 4; // The file may vanish afterwards.
	event("file dialog " + path + (cancel == 0 || impossible ? " cancelled" : ""));
	if(cancel == 0 || impossible) return result_ = 0;
	user.file_choice = path;
	selected = { QString::fromStdString(path) };
	return result_ = 1;
}

void SimProcess::start() {
	using namespace sim;
	user.launched.push_back(program_.toStdString() + " " + arguments_.join(' ').toStdString());
	sim::event("launch " + user.launched.back());
	if(process_fault == 1) { count("fault.process"); fail(); }
	else if(process_fault == 2) { count("fault.process_late"); QMetaObject::invokeMethod(this, [this] { fail(); }, Qt::QueuedConnection); }
}

bool SimTemporaryFile::open() {
	using namespace sim;
	if(temp_fault) { count("fault.temporary_file"); return false; }
	static int serial = 0;
	name = QString("/sim/tmp/%1").arg(pattern.section('/', -1)).replace("XXXXXX", QString("%1").arg(++serial, 6, 10, QChar('0')));
	bool const was = fs::active;
	fs::active = false;
	fs::put(name.toStdString(), "", 0600);
	fs::active = was;
	return true;
}
SimTemporaryFile::~SimTemporaryFile() {
	if(auto_remove) sim::fs::disk.nodes.erase(name.toStdString());
}

namespace sim {
namespace {

//------------------------------------------------------------- the reference
// What the actions stand for, with the library alone.
bool to_real(std::string const& s, double& out) {
	if(s.empty()) return false;
	char* e = nullptr;
	double const d = std::strtod(s.c_str(), &e);
	if(*e) return false;
	out = d;
	return true;
}
bool to_natural(std::string const& s, std::size_t& out) {
	if(s.empty()) return false;
	for(char c : s) if(c < '0' || c > '9') return false;
	out = std::strtoul(s.c_str(), nullptr, 10);
	return true;
}

template<typename T, typename F>
bool change(OpenEMSH& a, void const* o, F const& f) {
	auto* x = const_cast<T*>(static_cast<T const*>(o));
	std::remove_cvref_t<decltype(x->get_current_state())> const old = x->get_current_state();
	std::remove_const_t<std::remove_cvref_t<decltype(x->get_current_state())>> s = old;
	std::optional<Step> const from = f(s);
	if(!from) return false;
	// The steps which were stepped back over are performed again as well.
	auto& c = Caretaker::singleton();
	a.go_before(*from);
	std::optional<Step> pending;
	if(auto const* n = c.get_annotation(c.get_current_timepoint())) pending = static_cast<app::Annotation const*>(n)->before_step;
	else if(auto const* n = c.get_annotation(c.find_first_ancestor_with_annotation())) pending = app::next(static_cast<app::Annotation const*>(n)->before_step);
	x->set_next_state(s);
	a.run_from_step(pending ? std::min(*pending, *from) : *from);
	return true;
}

struct Edition { char kind; void const* object; std::vector<Cell> cells; };

bool reference_edit(OpenEMSH& a, Edition const& e) {
	bool ok = true;
	auto real = [&](char const* label, double& d) { for(auto const& c : e.cells) if(c.label == label) ok = (to_real(c.value.substr(1), d)) && ok; };
	auto natural = [&](char const* label, std::size_t& d) { for(auto const& c : e.cells) if(c.label == label) ok = to_natural(c.value.substr(1), d) && ok; };
	auto flag = [&](char const* label, bool& b) { for(auto const& c : e.cells) if(c.label == label) b = c.value == "b1"; };
	// Only the last value of each cell is there when the dialog is validated.
	std::vector<Cell> last;
	for(auto const& c : e.cells) {
		std::erase_if(last, [&](Cell const& x) { return x.label == c.label && c.value[0] != 'p' && c.value[0] != 'n'; });
		last.push_back(c);
	}
	const_cast<std::vector<Cell>&>(e.cells) = last;
	using R = std::optional<Step>;
	switch(e.kind) {
	case 'E': return change<Edge>(a, e.object, [&](auto& s) -> R { flag("To mesh", s.to_mesh); flag("To reverse", s.to_reverse); return Step::DETECT_CONFLICT_EIP; });
	case 'A': return change<Angle>(a, e.object, [&](auto& s) -> R { flag("To mesh[H]", s.to_mesh[H]); flag("To mesh[V]", s.to_mesh[V]); return Step::DETECT_CONFLICT_EIP; });
	case 'T': return change<ConflictTooCloseMeshlinePolicies>(a, e.object, [&](auto& s) -> R { flag("Enabled", s.is_enabled); return Step::DETECT_AND_SOLVE_TCMLP; });
	case 'G': return change<GlobalParams>(a, e.object, [&](auto& s) -> R {
		real("Proximity limit", s.proximity_limit);
		real("Smoothness", s.smoothness);
		natural("lmin", s.lmin);
		real("dmax", s.dmax);
		real("Minimal angle", s.consecutive_diagonal_minimal_angle);
		real("Diagonal dmax", s.diagonal_dmax);
		natural("Diagonal lmin", s.diagonal_lmin);
		return ok ? R(Step::DETECT_DIAG_ZONES) : R();
	});
	case 'I': return change<Interval>(a, e.object, [&](auto& s) -> R {
		real("dmax", s.dmax);
		natural("Before.lmin", s.before.lmin);
		real("Before.Smoothness", s.before.smoothness);
		natural("After.lmin", s.after.lmin);
		real("After.Smoothness", s.after.smoothness);
		return ok ? R(Step::MESH) : R();
	});
	case 'Z': return change<ConflictDiagonalOrCircularZone>(a, e.object, [&](auto& s) -> R {
		auto const angle = s.minimal_angle;
		natural("lmin", s.lmin);
		real("dmax", s.dmax);
		real("Minimal angle", s.minimal_angle);
		return ok ? R(s.minimal_angle != angle ? Step::SOLVE_DIAG_ZONES_ANGLES : Step::SOLVE_DIAG_ZONES_INTERVALS) : R();
	});
	case 'M': return change<MeshlinePolicy>(a, e.object, [&](auto& s) -> R {
		using Policy = MeshlinePolicy::Policy;
		using Normal = MeshlinePolicy::Normal;
		for(auto const& c : e.cells) {
			if(c.value[0] == 'p') {
				for(auto p : { Policy::ONELINE, Policy::HALFS, Policy::THIRDS }) if(to_string(p) == c.value.substr(1)) s.policy = p;
				if(s.policy == Policy::THIRDS) { if(s.normal == Normal::NONE) s.normal = Normal::MIN; }
				else s.normal = Normal::NONE;
			} else if(c.value[0] == 'n') {
				for(auto n : { Normal::NONE, Normal::MIN, Normal::MAX }) if(to_string(n) == c.value.substr(1)) s.normal = n;
			}
		}
		flag("Enabled", s.is_enabled);
		real("d", s.d);
		if((s.policy == Policy::THIRDS) == (s.normal == Normal::NONE)) return {};
		return ok ? R(Step::DETECT_INTERVALS) : R();
	});
	}
	return false;
}

//---------------------------------------------------------------- a session
struct Session {
	std::unique_ptr<OpenEMSH> app;
	std::unique_ptr<MainWindow> w;
	bool loaded = false;
	int unsaved = 0;            // 2: unknown.
	std::string how;
	std::size_t effective = 0;
	u64 history = 0;
	bool drawn = false;         // What is drawn is judged (P26), rather than what actions do (P15).

	QAction* action(char const* n) {
		auto* a = w->findChild<QAction*>(n);
		if(!a) fail("no-action", std::string("the window has no action ") + n);
		return a;
	}
	template<typename T> T* child(char const* n) {
		auto* a = w->findChild<T*>(n);
		if(!a) fail("no-widget", std::string("the window has no widget ") + n);
		return a;
	}
	ProcessingView* processing() { return child<ProcessingView>("processing_view"); }
	StructureView* structure() { return child<StructureView>("structure_view"); }
	Board const& board() { return app->get_board(); }

	[[noreturn]] void bad(char const* cls, std::string const& m) {
		if(drawn) discard("judged-by-P15");
		fail(cls, how + ": " + m);
	}
	[[noreturn]] void misshown(char const* cls, std::string const& m) { fail(cls, how + ": " + m); }

	//------------------------------------------------------ the copy set aside
	int to = -1;
	pid_t pid = -1;
	std::string prior; // The project before the action.
	void set_aside() {
		prior = project(loaded);
		int p[2];
		if(pipe(p)) { perror("pipe"); _exit(2); }
		fflush(stdout);
		fflush(stderr);
		pid = fork();
		if(pid == 0) {
			::close(p[1]);
			std::string cmd;
			char b[4096];
			for(ssize_t n; (n = ::read(p[0], b, sizeof b)) > 0; ) cmd.append(b, (std::size_t) n);
			std::string const r = perform(cmd).substr(0, sizeof shm->scratch - 16);
			u64 const size = r.size();
			std::memcpy(shm->scratch, &size, 8);
			std::memcpy(shm->scratch + 8, r.data(), r.size());
			_exit(0);
		}
		::close(p[0]);
		to = p[1];
	}
	std::string what_if(std::string const& cmd) {
		u64 const none = ~0ull;
		std::memcpy(shm->scratch, &none, 8);
		if(::write(to, cmd.data(), cmd.size()) != (ssize_t) cmd.size()) { perror("write"); _exit(2); }
		::close(to);
		to = -1;
		int status = 0;
		while(waitpid(pid, &status, 0) < 0 && errno == EINTR) {}
		pid = -1;
		u64 size;
		std::memcpy(&size, shm->scratch, 8);
		if(size == none) bad("library-crash", fmt("the operation itself ends with status %d: ", status) + cmd);
		return std::string(shm->scratch + 8, size);
	}
	void forget() { // The copy is not needed.
		if(to >= 0) ::close(to);
		to = -1;
		if(pid > 0) { kill(pid, SIGKILL); int s; while(waitpid(pid, &s, 0) < 0 && errno == EINTR) {} }
		pid = -1;
	}
	std::string project(bool is_loaded) { return is_loaded ? snapshot(*app).text : "nothing"; }

	std::string perform(std::string const& cmd) {
		fs::Plan rights;
		rights.permissions = true;
		fs::start_life(rights);
		Trace const t = Trace::parse(cmd);
		Edition e {};
		for(auto const& l : t.lines) {
			if(l.is("nothing")) return project(loaded);
			if(l.is("undo")) Caretaker::singleton().undo();
			else if(l.is("redo")) Caretaker::singleton().redo();
			else if(l.is("next")) app->run_next_step();
			else if(l.is("prev")) app->go_before_previous_step();
			else if(l.is("open")) {
				app->set_input(l.at(1));
				if(auto r = app->parse(); !r) return "refused: " + r.error();
				app->run_all_steps();
				loaded = true;
			} else if(l.is("save")) {
				app->set_output(l.at(1));
				app->set_output_format(OpenEMSH::Params::OutputFormat::CSX);
				if(auto r = app->write(); !r) return "refused: " + r.error();
				auto* f = fs::get(l.at(1));
				return "F" + (f ? *f : "");
			} else if(l.is("edit")) {
				if(l.at(1) == "G") e = { 'G', board().global_params.get(), {} };
				else { auto const v = items_of(board()); auto const& i = v[(std::size_t) l.num(2)]; e = { i.kind, i.object, {} }; }
			} else if(l.is("cell")) {
				auto const bar = l.text.find('|');
				e.cells.push_back({ l.text.substr(5, bar - 5), l.text.substr(bar + 1) });
			} else if(l.is("commit")) reference_edit(*app, e);
		}
		return project(true);
	}

	//------------------------------------------------------------------ checks
	void same(std::string const& expected, char const* cls, char const* text) {
		std::string const now = project(loaded);
		if(now != expected) bad(cls, std::string(text) + " (expected versus window): " + snap_diff(expected, now));
		state_seen(fnv(now));
	}

	void check_actions() {
		auto& c = Caretaker::singleton();
		std::pair<char const*, bool> const expected[] = {
			{ "a_undo", loaded && c.can_undo() }, { "a_redo", loaded && c.can_redo() },
			{ "a_mesh_prev", loaded && app->can_go_before() }, { "a_mesh_next", loaded && app->can_run_a_next_step() },
			{ "a_file_save", loaded }, { "a_file_save_as", loaded }, { "a_edit", loaded }, { "a_appcsxcad", loaded }, { "a_fit", loaded },
			{ "a_file_open", true },
		};
		for(auto const& [n, can] : expected)
			if(action(n)->isEnabled() != can) bad("enabled", fmt("action %s is %s but it %s be done", n, can ? "disabled" : "enabled", can ? "can" : "cannot"));
		for(char const* n : { "tb_plane_xy", "tb_plane_yz", "tb_plane_zx", "tb_show_all_mesh", "tb_show_no_mesh", "tb_show_horizontal_mesh", "tb_show_vertical_mesh", "tb_show_selected", "tb_show_displayed", "tb_show_everything", "tb_curved_wires", "tb_direct_wires" })
			if(child<QToolButton>(n)->isEnabled() != loaded) bad("enabled", fmt("button %s is %s while %s project is open", n, loaded ? "disabled" : "enabled", loaded ? "a" : "no"));
	}

	// Each view shows all of the project that it is meant to show and nothing else.
	void check_views() {
		if(QGuiApplication::overrideCursor()) bad("busy-cursor", "the window is left with its busy cursor");
		if(!loaded) return;
		auto const items = items_of(board());
		auto& p = *processing();
		auto& s = *structure();
		auto* t = Caretaker::singleton().get_current_timepoint();
		if(!p.states.contains(t)) bad("view", "the processing view has no scene for the current point of the history");
		if(!s.states.contains(t)) bad("view", "the structure view has no scene for the current point of the history");
		auto* scene = p.states.at(t).scene;
		if(p.scene() != scene) bad("view", "the processing view does not show the scene of the current point of the history");
		if(std::ranges::none_of(s.states.at(t).scenes, [&](auto* x) { return s.scene() == x; })) bad("view", "the structure view does not show a scene of the current point of the history");
		int const plane = child<QToolButton>("tb_plane_yz")->isChecked() ? 0 : child<QToolButton>("tb_plane_zx")->isChecked() ? 1 : 2;
		if(s.scene() != s.states.at(t).scenes[AllPlane[(std::size_t) plane]]) bad("view", fmt("the structure view does not show plane %d whose button is pressed", plane));
		std::size_t n = 0;
		for(auto const& i : items) {
			++n;
			if(!scene->index.contains(i.entity)) bad("view", fmt("an object of the project (%c %zu) is not in the processing view", i.kind, i.entity->id));
		}
		if(scene->index.size() != n) bad("view", fmt("the processing view shows %zu objects, the project has %zu", scene->index.size(), n));
		// Cells.
		auto const label = child<QLabel>("l_cell_number")->text().toStdString();
		auto const cells = std::to_string(board().get_mesh_cell_number());
		if(!label.ends_with(cells) || (label.size() > cells.size() && isdigit((unsigned char) label[label.size() - cells.size() - 1])))
			bad("cell-number", "the number of cells displayed is '" + label + "', the project has " + cells);
	}

	static std::string text_of(QGraphicsItem const* i) {
		auto const r = i->sceneBoundingRect();
		return fmt("type %d z %.6g rect %.9g %.9g %.9g %.9g tip '%s' name '%s'", i->type(), i->zValue(), r.x(), r.y(), r.width(), r.height(), i->toolTip().toStdString().c_str(), i->data(DataKeys::NAME).toString().toStdString().c_str());
	}
	static u64 image_of(QGraphicsScene* s, QRectF const& r) {
		QImage i(160, 120, QImage::Format_RGB32);
		i.fill(Qt::white);
		{ QPainter p(&i); s->render(&p, QRectF(0, 0, 160, 120), r, Qt::IgnoreAspectRatio); }
		return fnv(std::string_view((char const*) i.constBits(), (std::size_t) i.sizeInBytes()));
	}
	// In a copy of the process: scenes that were kept are those that would be made now.
	void check_against_new_views() {
		if(!loaded) return;
		int status = 0;
		std::string const r = ask_child([&]() -> std::string {
			fs::active = false;
			auto const items = items_of(board());
			auto* t = Caretaker::singleton().get_current_timepoint();
			auto& p = *processing();
			auto& s = *structure();
			auto* kept = p.states.at(t).scene;
			auto kept_s = s.states.at(t).scenes;
			std::map<Entity const*, std::size_t> rank;
			for(auto const& i : items) rank.emplace(i.entity, rank.size());
			auto describe = [&](ProcessingScene* scene, auto& scenes, bool images) {
				std::vector<std::string> out;
				auto entity = [&](QGraphicsItem const* i) { auto const* e = DataKeys::get_entity(i->data(DataKeys::ENTITY)); return e && rank.contains(e) ? (int) rank.at(e) : -1; };
				for(auto const& i : items) {
					auto it = scene->index.find(i.entity);
					std::string l = fmt("processing %c %zu: ", i.kind, rank.at(i.entity));
					if(it == scene->index.end()) l += "absent";
					else {
						auto* node = it->second;
						l += fmt("type %d tip '%s' name '%s' id %llu in [", node->type(), node->toolTip().toStdString().c_str(), node->data(DataKeys::NAME).toString().toStdString().c_str(), (unsigned long long) node->data(DataKeys::ID).toULongLong());
						std::multiset<int> in, o;
						for(auto* x : node->get_input_nodes()) in.insert(entity((QGraphicsItem*) x));
						for(auto* x : node->get_output_nodes()) o.insert(entity((QGraphicsItem*) x));
						for(int x : in) l += fmt(" %d", x);
						l += " ] out [";
						for(int x : o) l += fmt(" %d", x);
						l += " ]";
					}
					out.push_back(l);
					for(auto plane : AllPlane) {
						auto jt = scenes[plane]->index.find(i.entity);
						if(jt == scenes[plane]->index.end()) continue;
						out.push_back(fmt("structure %d %c %zu: ", (int) plane, i.kind, rank.at(i.entity)) + text_of(jt->second));
					}
				}
				for(auto plane : AllPlane) {
					out.push_back(fmt("structure %d: %zu objects", (int) plane, scenes[plane]->index.size()));
					if(images) {
						scenes[plane]->clearSelection();
						scenes[plane]->set_mesh_visibility(StructureScene::MeshVisibility::FULL);
						out.push_back(fmt("structure %d: image %016llx", (int) plane, (unsigned long long) image_of(scenes[plane], scenes[plane]->polygons->childrenBoundingRect() + QMarginsF(3, 3, 3, 3))));
					}
				}
				out.push_back(fmt("processing: %zu objects", scene->index.size()));
				return out;
			};
			kept->clearSelection();
			for(auto plane : AllPlane) kept_s[plane]->clearSelection();
			auto const a = describe(kept, kept_s, true);
			p.states.clear();
			s.states.clear();
			p.make_current_state();
			s.make_current_state();
			auto const b = describe(p.states.at(t).scene, s.states.at(t).scenes, true);
			for(std::size_t i = 0; i < std::max(a.size(), b.size()); ++i) {
				std::string const x = i < a.size() ? a[i] : "absent", y = i < b.size() ? b[i] : "absent";
				if(x != y) return "D" + y + " | shown: " + x;
			}
			return "S";
		}, status, 10);
		count("probe.compared_with_new_views");
		if(r.empty()) bad("view-crash", fmt("making the views of the same project anew ends with status %d", status));
		if(r[0] == 'D') bad("view-differs", "the views do not show the project as it is, new ones show " + r.substr(1));
	}

	void check(long salt) {
		check_actions();
		check_views();
		if(drawn) check_drawn(false);
		else if(salt % 3 == 0) check_against_new_views();
	}

	bool pressed(char const* n) { return child<QToolButton>(n)->isChecked(); }
	int shown_plane() { return pressed("tb_plane_yz") ? 0 : pressed("tb_plane_zx") ? 1 : 2; }

	// The views draw and say what the project is, and show what the buttons say.
	void check_drawn(bool just_chosen) {
		if(!loaded) return;
		auto const placed = placed_of(board());
		auto* t = Caretaker::singleton().get_current_timepoint();
		auto* p = processing()->states.at(t).scene;
		auto& scenes = structure()->states.at(t).scenes;
		auto who = [](Placed const& i) { return fmt("object %c %zu", i.kind, i.entity->id); };
		// Structure views.
		for(int plane = 0; plane < 3; ++plane) {
			auto* s = scenes[AllPlane[(std::size_t) plane]];
			bool any = false;
			double l = 0, r = 0, b = 0, e = 0;
			for(auto const& i : placed) if(i.kind == 'P' && i.place == plane && has_surface(*static_cast<Polygon const*>(i.object))) for(auto const& x : static_cast<Polygon const*>(i.object)->points) {
				double const px = x->x.value(), py = x->y.value();
				if(!any) { l = r = px; b = e = py; any = true; }
				l = std::min(l, px), r = std::max(r, px), b = std::min(b, py), e = std::max(e, py);
			}
			QRectF const drawing(QPointF(l, b), QPointF(r, e));
			std::map<Entity const*, QGraphicsItem*> items;
			for(auto* x : s->items()) if(auto const* e2 = DataKeys::get_entity(x->data(DataKeys::ENTITY)))
				if(!items.emplace(e2, x).second) misshown("drawn-twice", fmt("an object is drawn twice in plane %s", plane_names[plane]));
			for(auto const& i : placed) {
				bool const here = of_plane(i.kind) ? i.kind != 'X' && i.place == plane : plane_axes[plane][0] == i.place || plane_axes[plane][1] == i.place;
				auto const it = items.find(i.entity);
				if(here != (it != items.end())) misshown("drawn-missing", who(i) + fmt(" is %s in plane %s", here ? "not drawn" : "drawn", plane_names[plane]));
				if(!here) continue;
				auto* item = it->second;
				items.erase(it);
				for(bool chosen : { true, false })
					if(auto const m = misdrawn(i, plane, item, any ? &drawing : nullptr, chosen); !m.empty()) misshown("drawn-wrong", who(i) + fmt(" of plane %s ", plane_names[plane]) + m);
				if(item->data(DataKeys::ID).toULongLong() != i.entity->id) misshown("drawn-name", who(i) + " is identified as " + item->data(DataKeys::ID).toString().toStdString());
				if(i.kind == 'P' && item->data(DataKeys::NAME).toString().toStdString() != static_cast<Polygon const*>(i.object)->name) misshown("drawn-name", who(i) + " is named " + item->data(DataKeys::NAME).toString().toStdString());
				if(i.kind == 'M') {
					auto* x = static_cast<ui::qt::StructureMeshlinePolicy*>(item);
					auto const enabled = static_cast<MeshlinePolicy const*>(i.object)->get_current_state().is_enabled;
					if(&x->locate_structure_meshline_policy_params() != &(enabled ? s->style_selector.get_meshline_policy_enabled() : s->style_selector.get_meshline_policy_disabled()))
						misshown("drawn-style", who(i) + fmt(" is %s but drawn as if it were not", enabled ? "enabled" : "disabled"));
				}
				if(i.kind == 'A') {
					auto* x = static_cast<ui::qt::StructureAngle*>(item);
					auto const& m = static_cast<Angle const*>(i.object)->get_current_state().to_mesh;
					auto const& style = m[H] ? m[V] ? s->style_selector.get_angle_hv_enabled() : s->style_selector.get_angle_h_enabled() : m[V] ? s->style_selector.get_angle_v_enabled() : s->style_selector.get_angle_hv_disabled();
					if(&x->locate_structure_angle_params() != &style) misshown("drawn-style", who(i) + " is drawn as one to mesh differently");
				}
				if(i.kind == 'L' && plane == shown_plane()) {
					bool const vertical = plane_axes[plane][0] == i.place;
					bool const expected = pressed("tb_show_all_mesh") || pressed(vertical ? "tb_show_vertical_mesh" : "tb_show_horizontal_mesh");
					if(item->isVisible() != expected) misshown("drawn-visibility", who(i) + fmt(" (%s) is %s while the mesh shown is: %s", vertical ? "vertical" : "horizontal", expected ? "hidden" : "visible", pressed("tb_show_all_mesh") ? "all" : pressed("tb_show_vertical_mesh") ? "vertical" : pressed("tb_show_horizontal_mesh") ? "horizontal" : "none"));
				} else if(!item->isVisible() && i.kind != 'L') misshown("drawn-visibility", who(i) + " is hidden");
				count("probe.drawn");
			}
			if(!items.empty()) misshown("drawn-stale", fmt("plane %s draws %zu objects that are not in the project", plane_names[plane], items.size()));
		}
		if(auto const m = misnamed_axes(structure(), shown_plane()); !m.empty()) misshown("drawn-axes", fmt("the axes of plane %s ", plane_names[shown_plane()]) + m);
		// Processing view.
		std::map<Entity const*, std::vector<Entity const*>> inputs, outputs;
		std::map<Entity const*, ui::qt::nodegraph::Node*> nodes;
		for(auto* x : p->items()) if(auto const* e = DataKeys::get_entity(x->data(DataKeys::ENTITY)))
			if(auto* n = dynamic_cast<ui::qt::nodegraph::Node*>(x)) if(!nodes.emplace(e, n).second) misshown("told-twice", "an object has two nodes");
		for(auto const& i : placed) if(!nodes.contains(i.entity)) misshown("told-missing", who(i) + " has no node");
		if(nodes.size() != placed.size()) misshown("told-stale", "there are nodes of objects that are not in the project");
		auto entities = [](QList<ui::qt::nodegraph::Node*> const& v) {
			std::vector<Entity const*> r;
			for(auto* x : v) r.push_back(DataKeys::get_entity(x->data(DataKeys::ENTITY)));
			std::ranges::sort(r);
			r.erase(std::unique(r.begin(), r.end()), r.end());
			return r;
		};
		for(auto const& i : placed) {
			auto* n = nodes.at(i.entity);
			std::vector<std::string> expected, said;
			std::vector<Entity const*> from;
			told(i, expected, from);
			for(auto* c : n->childItems()) if(auto* x = dynamic_cast<ui::qt::nodegraph::Text*>(c)) said.push_back(x->text().toStdString());
			std::ranges::sort(said);
			if(!std::ranges::equal(said, expected, same_text)) {
				std::string a, b;
				for(auto const& x : expected) if(std::ranges::find(said, x) == said.end()) a += " '" + x + "'";
				for(auto const& x : said) if(std::ranges::find(expected, x) == expected.end()) b += " '" + x + "'";
				misshown("told-wrong", who(i) + " is told to be" + b + " rather than" + a);
			}
			std::erase_if(from, [&](auto const* e) { return !nodes.contains(e); });
			auto const wired = entities(n->get_input_nodes());
			if(wired != from) {
				auto ids = [](std::vector<Entity const*> const& v) { std::string r; for(auto const* e : v) r += fmt(" %zu", e ? e->id : 0); return r; };
				misshown("wired-wrong", who(i) + " is wired to" + ids(wired) + " rather than to" + ids(from));
			}
			for(auto const* e : from) outputs[e].push_back(i.entity);
			inputs[i.entity] = from;
			if(i.kind == 'C') { // What its ports say of the edges.
				std::vector<std::string> ports, should;
				for(auto const* x : n->input_ports) ports.push_back(x->text().toStdString());
				for(auto const* e : static_cast<ConflictColinearEdges const*>(i.object)->get_current_state().edges) should.push_back(std::string("Normal: ") + name_of(e->normal) + (e->get_current_state().to_mesh ? " enabled" : " disabled"));
				std::ranges::sort(ports);
				std::ranges::sort(should);
				if(ports != should) misshown("told-wrong", who(i) + " does not tell the state of its edges");
			}
			auto* around = n->get_surrounding_container();
			ui::qt::nodegraph::Node* const parent = i.kind == 'E' ? nodes.at(entity_of(i.in)) : of_plane(i.kind) ? (ui::qt::nodegraph::Node*) p->planes[AllPlane[(std::size_t) i.place]] : p->axes[AllAxis[(std::size_t) i.place]];
			if(around != parent) misshown("told-place", who(i) + " is not in the frame it belongs to");
			count("probe.told");
		}
		for(auto const& i : placed) {
			auto& o = outputs[i.entity];
			std::ranges::sort(o);
			if(entities(nodes.at(i.entity)->get_output_nodes()) != o) misshown("wired-wrong", who(i) + " is not wired to the objects made from it");
		}
		for(int k = 0; k < 3; ++k) {
			auto said = [](ui::qt::nodegraph::Node* n) { std::string r; if(n) for(auto* c : n->childItems()) if(auto* x = dynamic_cast<ui::qt::nodegraph::Text*>(c)) r += x->text().toStdString() + ";"; return r; };
			if(said(p->planes[AllPlane[(std::size_t) k]]) != std::string("Plane ") + plane_names[k] + ";") misshown("told-wrong", std::string("plane ") + plane_names[k] + " is told to be " + said(p->planes[AllPlane[(std::size_t) k]]));
			if(said(p->axes[AllAxis[(std::size_t) k]]) != std::string("Axis ") + axis_names[k] + ";") misshown("told-wrong", std::string("axis ") + axis_names[k] + " is told to be " + said(p->axes[AllAxis[(std::size_t) k]]));
		}
		// What is shown of it.
		auto const mode = pressed("tb_show_everything") ? 'e' : pressed("tb_show_displayed") ? 'd' : 's';
		std::set<QGraphicsItem const*> must;
		if(mode == 's') {
			// All that selected objects were made from, and all that was made from them.
			for(auto const& [e, n] : nodes) if(n->isSelected()) for(auto* links : { &inputs, &outputs }) {
				std::set<Entity const*> seen { e };
				std::vector<Entity const*> next { e };
				while(!next.empty()) {
					auto const* x = next.back();
					next.pop_back();
					must.insert(nodes.at(x));
					for(auto const* y : (*links)[x]) if(seen.insert(y).second) next.push_back(y);
				}
			}
			for(auto const* x : std::vector<QGraphicsItem const*>(must.begin(), must.end())) for(auto const* q = x->parentItem(); q; q = q->parentItem()) must.insert(q);
		}
		for(auto const& i : placed) {
			auto* n = nodes.at(i.entity);
			bool const visible = n->isVisible();
			if(mode == 'e') {
				if(!visible) misshown("shown-hidden", who(i) + " is not shown while everything is to be");
			} else if(mode == 'd') {
				int const plane = shown_plane();
				bool expected;
				if(of_plane(i.kind)) expected = i.place == plane;
				else if(plane_axes[plane][0] == i.place) expected = pressed("tb_show_all_mesh") || pressed("tb_show_vertical_mesh");
				else if(plane_axes[plane][1] == i.place) expected = pressed("tb_show_all_mesh") || pressed("tb_show_horizontal_mesh");
				else expected = false;
				if(expected ? !visible : visible && just_chosen) misshown("shown-displayed", who(i) + fmt(" is %s in the processing view, which is to show what the structure view displays: plane %s", visible ? "shown" : "hidden", plane_names[plane]));
			} else {
				if(must.contains(n) && !visible) misshown("shown-chain", who(i) + " is hidden while it is selected or linked to what is");
				if(just_chosen && visible && !must.contains(n)) misshown("shown-chain", who(i) + " is shown while it is neither selected nor linked to what is");
			}
		}
		auto const style = pressed("tb_curved_wires") ? ui::qt::nodegraph::Wire::Style::CURVED : ui::qt::nodegraph::Wire::Style::DIRECT;
		std::map<ui::qt::nodegraph::Wire const*, std::vector<ui::qt::nodegraph::Port*>> ends;
		for(auto const& [e, n] : nodes) for(auto const* ports : { &n->input_ports, &n->output_ports }) for(auto* x : *ports) for(auto const* y : x->get_wires()) ends[y].push_back(x);
		for(auto const* x : p->wires) {
			if(x->style != style) misshown("shown-wires", "a wire is not drawn in the style chosen");
			auto const& v = ends[x];
			if(v.size() != 2) misshown("shown-wires", fmt("a wire links %zu ports", v.size()));
			if(!v[0]->isVisible() || !v[1]->isVisible()) continue;
			auto const path = x->path();
			if(path.isEmpty()) misshown("shown-wires", "a wire between two visible ports is not drawn");
			auto at = [](ui::qt::nodegraph::Port* y) { return y->mapToScene(y->attach_pos()); };
			auto same = [](QPointF const& a, QPointF const& b) { return std::abs(a.x() - b.x()) < 0.1 && std::abs(a.y() - b.y()) < 0.1; };
			QPointF const a = x->mapToScene(path.pointAtPercent(0)), b = x->mapToScene(path.pointAtPercent(1));
			if(!(same(a, at(v[0])) && same(b, at(v[1]))) && !(same(a, at(v[1])) && same(b, at(v[0]))))
				misshown("shown-wires", fmt("a wire is drawn from %g %g to %g %g rather than from %g %g to %g %g", a.x(), a.y(), b.x(), b.y(), at(v[0]).x(), at(v[0]).y(), at(v[1]).x(), at(v[1]).y()));
			count("probe.wires");
		}
		count(mode == 'e' ? "probe.everything" : mode == 'd' ? "probe.displayed" : "probe.chain");
	}

	void settle() {
		QCoreApplication::sendPostedEvents();
		QCoreApplication::sendPostedEvents(nullptr, QEvent::DeferredDelete);
	}

	//---------------------------------------------------------------- selection
	Item const* pick(std::vector<Item> const& v, std::vector<char> const& kinds, long i) {
		std::vector<Item const*> can;
		for(auto const& x : v) if(std::ranges::find(kinds, x.kind) != kinds.end()) can.push_back(&x);
		return can.empty() ? nullptr : can[(std::size_t) std::labs(i) % can.size()];
	}
	static std::vector<char> kinds_of(long k) {
		switch(std::labs(k) % 8) {
		case 0: return { 'E' };
		case 1: return { 'M' };
		case 2: return { 'I' };
		case 3: return { 'Z' };
		case 4: return { 'A' };
		case 5: return { 'T', 'C' };
		case 6: return { 'P', 'X', 'L' };
		default: return { 'E', 'M', 'I', 'Z', 'A', 'T', 'C', 'P', 'X', 'L' };
		}
	}
	std::set<Entity const*> selected(QGraphicsScene* s) {
		std::set<Entity const*> r;
		for(auto* i : s->selectedItems()) if(auto const* e = DataKeys::get_entity(i->data(DataKeys::ENTITY))) r.insert(e);
		return r;
	}
	void check_selection(bool from_structure) {
		auto& p = *processing()->get_current_state().scene;
		auto& st = structure()->get_current_state();
		auto const here = from_structure ? selected(structure()->scene()) : selected(&p);
		if(from_structure) {
			auto const there = selected(&p);
			for(auto* e : here) if(p.index.contains(e) && !there.contains(e)) bad("selection", fmt("an object selected in the structure view (%zu) is not selected in the processing view", e->id));
			for(auto* e : there) if(!here.contains(e)) bad("selection", fmt("an object that is not selected in the structure view (%zu) is selected in the processing view", e->id));
		} else {
			for(auto plane : AllPlane) {
				auto* s = st.scenes[plane];
				auto const there = selected(s);
				for(auto* e : here) if(s->index.contains(e) && s->index.at(e)->isVisible() && !there.contains(e)) bad("selection", fmt("an object selected in the processing view (%zu) is not selected in the structure view", e->id));
				for(auto* e : there) if(!here.contains(e)) bad("selection", fmt("an object that is not selected in the processing view (%zu) is selected in the structure view", e->id));
			}
		}
	}

	//------------------------------------------------------------------- files
	std::map<std::string, fs::Inode> files() {
		std::map<std::string, fs::Inode> r;
		for(auto const& [path, i] : fs::disk.nodes) if(!path.starts_with("/sim/tmp/")) r.emplace(path, i);
		return r;
	}
	static bool has(std::map<std::string, fs::Inode> const& m, std::string const& p) { return m.contains(p); }

	bool any_error() {
		for(auto const& l : logged) if(l.level == Logger::Level::ERROR) return true;
		return false;
	}
	bool declined() {
		for(auto const& b : user.boxes) if((b.buttons & QMessageBox::Save) && b.answer != QMessageBox::Save) return true;
		return false;
	}
	bool agreed() {
		for(auto const& b : user.boxes) if((b.buttons & QMessageBox::Save) && b.answer == QMessageBox::Save) return true;
		return false;
	}

	// Common to everything that may save.  Returns whether the work is on disk.
	bool judge_save(std::map<std::string, fs::Inode> const& before, bool attempted, bool force) {
		auto const after = files();
		std::string const out = app->get_params().output.generic_string();
		bool const no = declined();
		if(!attempted || no) {
			for(auto const& [p, i] : before) if(!after.contains(p) || after.at(p).data != i.data) bad("declined-changed", "file " + p + " changed though the user declined");
			for(auto const& [p, i] : after) if(!before.contains(p)) bad("declined-changed", "file " + p + " appeared though the user declined");
			forget();
			return false;
		}
		for(auto const& [p, i] : before)
			if(!after.contains(p) || after.at(p).data != i.data) {
				if(fs::resolve(p) != fs::resolve(out)) bad("other-file", "saving to " + out + " changed " + p);
				if(i.kind == fs::Inode::FILE_ && !force && !agreed()) bad("overwritten", "file " + p + " was replaced without asking");
			}
		bool const error = any_error();
		std::string const r = what_if("save " + out);
		bool const should = r.starts_with("F");
		auto const* f = fs::get(out);
		if(error) {
			count("probe.save_failed");
			if(should && !fs::fired) bad("save-refused", "saving was reported as failed while it can be done");
			if(has(before, fs::resolve(out)) && (!f || (*f != before.at(fs::resolve(out)).data && *f != r.substr(1)))) bad("failed-save-damaged", "the failed save damaged " + out);
			return false;
		}
		if(!should && !fs::fired) bad("save-silent", "saving cannot be done (" + r + ") but no error was shown");
		if(!f) bad("save-lost", "saving reported no error but " + out + " does not exist");
		if(should && *f != r.substr(1)) bad("save-differs", "the saved file " + out + " differs from what the library writes (library versus window): " + snap_diff(r.substr(1), *f));
		count("probe.saved");
		return true;
	}

	//---------------------------------------------------------------- operations
	bool op(Line const& l, fs::Plan const& plan) {
		std::string const& k = l.w[0];
		how = l.text;
		std::vector<long> answers;
		logged.clear();
		auto take = [&](std::size_t from) { for(std::size_t i = from; i < l.w.size(); ++i) answers.push_back(l.num(i)); user.start(answers); };
		long const salt = (long) (fnv(l.text) % 1000);
		auto begin = [&] { w->statusBar()->clearMessage(); fs::start_life(plan); };
		auto end = [&] { settle(); fs::end_life(); };

		if(k == "open") {
			take(1);
			auto const before = files();
			set_aside();
			begin();
			action("a_file_open")->trigger();
			end();
			if(files() != before_same(before)) bad("open-changed-disk", "opening changed the disk");
			if(user.file_choice.empty()) {
				same(what_if("nothing"), "cancelled-changed", "a cancelled dialog changed the project");
				count("probe.open_cancelled");
			} else after_open(what_if("open " + user.file_choice));
		} else if(k == "next" || k == "prev" || k == "undo" || k == "redo") {
			take(1);
			static std::map<std::string, char const*> const names { { "next", "a_mesh_next" }, { "prev", "a_mesh_prev" }, { "undo", "a_undo" }, { "redo", "a_redo" } };
			set_aside();
			auto* a = action(names.at(k));
			bool const can = a->isEnabled();
			begin();
			a->trigger();
			end();
			same(what_if(can ? k : "nothing"), can ? "action-differs" : "disabled-changed", can ? "the project is not what the action makes of it" : "a disabled action changed the project");
			if(can) { unsaved = 1; done(k); }
		} else if(k == "select" || k == "press" || k == "dblclick") {
			if(!loaded) return true;
			take(3);
			auto const items = items_of(board());
			set_aside();
			auto const* i = pick(items, kinds_of(l.num(1)), l.num(2));
			auto* p = processing()->get_current_state().scene;
			auto* s = static_cast<StructureScene*>(structure()->scene());
			begin();
			if(k == "select") {
				if(l.num(3) % 3 == 0) p->clearSelection();
				if(i && p->index.contains(i->entity)) { auto* g = p->index.at(i->entity); g->setSelected(true); count(g->isSelected() ? "user.selected" : g->isVisible() ? "user.unselectable" : "user.invisible"); }
				end();
				if(drawn && pressed("tb_show_selected")) check_drawn(true);
				check_selection(false);
			} else if(k == "press") {
				QPointF at(1e6, 1e6);
				bool changed = false;
				auto const watch = QObject::connect(s, &QGraphicsScene::selectionChanged, [&] { changed = true; });
				if(l.num(3) % 3 == 0) s->clearSelection();
				if(i && s->index.contains(i->entity)) at = s->index.at(i->entity)->sceneBoundingRect().center();
				QGraphicsSceneMouseEvent e(QEvent::GraphicsSceneMousePress);
				e.setScenePos(at);
				e.setButton(Qt::LeftButton);
				e.setButtons(Qt::LeftButton);
				QCoreApplication::sendEvent(s, &e);
				end();
				QObject::disconnect(watch);
				if(drawn && changed && pressed("tb_show_selected")) check_drawn(true);
				if(changed) check_selection(true);
			} else {
				QPointF at(1e6, 1e6);
				if(i && p->index.contains(i->entity)) at = p->index.at(i->entity)->sceneBoundingRect().center();
				QGraphicsSceneMouseEvent e(QEvent::GraphicsSceneMouseDoubleClick);
				e.setScenePos(at);
				e.setButton(Qt::LeftButton);
				QCoreApplication::sendEvent(p, &e);
				end();
				after_edit(items);
				done(k);
				check(salt);
				return true;
			}
			same(what_if("nothing"), "selecting-changed", "selecting objects changed the project");
			done(k);
		} else if(k == "edit") {
			if(!loaded) { action("a_edit")->trigger(); return true; }
			take(1);
			auto const items = items_of(board());
			auto const chosen = selected(processing()->get_current_state().scene);
			set_aside();
			begin();
			action("a_edit")->trigger();
			end();
			after_edit(items, &chosen);
			done(k);
		} else if(k == "save" || k == "saveas") {
			take(1);
			auto const before = files();
			auto const force = app->get_params().force;
			std::string const text = project(loaded);
			set_aside();
			auto* a = action(k == "save" ? "a_file_save" : "a_file_save_as");
			bool const can = a->isEnabled();
			begin();
			a->trigger();
			end();
			bool const attempted = can && (k == "save" || !user.file_choice.empty());
			bool const saved = judge_save(before, attempted, force);
			if(saved) unsaved = 0;
			if(saved && k == "saveas" && app->get_params().output.generic_string() != user.file_choice) bad("save-elsewhere", "saved to " + app->get_params().output.generic_string() + " instead of " + user.file_choice);
			same(text, "saving-changed", "saving changed the project");
			if(attempted) done(k);
		} else if(k == "csxcad") {
			take(2);
			auto const before = files();
			auto const out = app->get_params().output;
			auto const format = app->get_params().output_format;
			std::string const text = project(loaded);
			temp_fault = l.num(1) % 5 == 1;
			process_fault = l.num(1) % 5 == 2 ? 1 : l.num(1) % 5 == 3 ? 2 : 0;
			set_aside();
			auto* a = action("a_appcsxcad");
			bool const can = a->isEnabled();
			begin();
			a->trigger();
			settle();
			end();
			if(app->get_params().output != out || app->get_params().output_format != format) bad("viewer-changed", "displaying the project in the viewer changed where it is saved");
			if(files() != before) bad("viewer-changed", "displaying the project in the viewer changed files");
			if(user.launched.empty()) {
				forget();
				if(can && !any_error()) bad("viewer-silent", "the viewer was not launched and no error was shown");
				if(can && !temp_fault && !fs::fired) { /* The project may be impossible to write. */ }
			} else {
				if(!can) bad("disabled-changed", "a disabled action launched the viewer");
				auto const f = user.launched.back().substr(user.launched.back().rfind(' ') + 1);
				auto const r = what_if("save /sim/tmp/reference.csx");
				auto const* g = fs::get(f);
				if(!g || r != "F" + *g) bad("viewer-differs", "the viewer is not given the project (library versus viewer): " + snap_diff(r, g ? "F" + *g : ""));
				if(process_fault && !any_error()) bad("viewer-silent", "the viewer failed to start and no error was shown");
			}
			same(text, "viewer-changed", "displaying the project in the viewer changed it");
			temp_fault = process_fault = 0;
			if(can) done(k);
		} else if(k == "view") {
			user.start({});
			std::string const text = project(loaded);
			begin();
			static char const* const buttons[] = { "tb_plane_xy", "tb_plane_yz", "tb_plane_zx", "tb_show_all_mesh", "tb_show_horizontal_mesh", "tb_show_vertical_mesh", "tb_show_no_mesh", "tb_show_selected", "tb_show_displayed", "tb_show_everything", "tb_curved_wires", "tb_direct_wires", "tb_structure_rotate_cw", "tb_structure_rotate_ccw", "tb_structure_zoom_in", "tb_structure_zoom_out", "tb_processing_zoom_in", "tb_processing_zoom_out", "tb_anchor" };
			static char const* const actions_[] = { "a_fit", "a_horizontal_layout", "a_vertical_layout", "a_does_use_csx_properties_color", "a_about" };
			long const b = std::labs(l.num(1)) % 34;
			if(b < 19) { child<QToolButton>(buttons[b])->click(); count("user.button"); }
			else if(b < 24) { action(actions_[b - 19])->trigger(); count("user.action"); }
			else if(b < 28) {
				static int const keys[] = { Qt::Key_PageUp, Qt::Key_PageDown, Qt::Key_Escape, Qt::Key_A };
				QKeyEvent e(QEvent::KeyPress, keys[b - 24], Qt::NoModifier);
				QCoreApplication::sendEvent(w.get(), &e);
				count("user.key");
			} else if(b < 32) {
				QGraphicsView* v = b & 1 ? (QGraphicsView*) processing() : (QGraphicsView*) structure();
				static Qt::KeyboardModifier const m[] = { Qt::NoModifier, Qt::ControlModifier, Qt::ShiftModifier, Qt::AltModifier };
				QWheelEvent e(QPointF(5, 5), QPointF(5, 5), QPoint(), QPoint(120, l.num(2) & 1 ? 120 : -120), Qt::NoButton, m[std::labs(l.num(2)) / 2 % 4], Qt::NoScrollPhase, false);
				QCoreApplication::sendEvent(v->viewport(), &e);
				count("user.wheel");
			} else if(b == 32) {
				if(auto* g = w->findChild<QActionGroup*>("ag_styles"); g && !g->actions().isEmpty()) g->actions()[std::labs(l.num(2)) % g->actions().size()]->trigger();
			} else { w->grab(); count("user.paint"); }
			end();
			same(text, "view-changed", "looking at the project changed it");
			if(drawn && b < 10) check_drawn(true);
			done(k);
		} else if(k == "close") {
			take(1);
			auto const before = files();
			auto const force = app->get_params().force;
			set_aside();
			begin();
			bool const closed = w->close();
			end();
			bool const asked = !user.boxes.empty();
			bool discard_ = false, cancel = false;
			if(asked) {
				discard_ = user.boxes.front().answer == QMessageBox::Close || user.boxes.front().answer == QMessageBox::Discard;
				cancel = user.boxes.front().answer == QMessageBox::Cancel;
			}
			count(closed ? "probe.closed" : "probe.not_closed");
			if(unsaved == 1 && !asked) bad("closed-silently", "the window was closed without asking about the unsaved work");
			bool saved = false;
			if(asked && !discard_ && !cancel && loaded) {
				saved = judge_save(before, true, force);
				if(saved) unsaved = 0;
			} else {
				forget();
				if(files() != before) bad("close-changed-disk", "closing without saving changed the disk");
			}
			if(asked && cancel && closed) bad("close-cancelled", "the window was closed though the user cancelled");
			if(asked && discard_ && !closed) bad("close-refused", "the window was not closed though the user chose to discard the work");
			if(closed && unsaved == 1 && !discard_ && !saved) bad("work-lost", "the window was closed while the work was neither saved nor discarded");
			if(!closed && !asked) bad("close-refused", "the window does not close and asks nothing");
			if(!closed && saved) bad("close-refused", "the window does not close though the work was saved");
			done(k);
			if(closed) return false;
		} else if(k == "ext") {
			// Somebody else changes files between two actions.
			std::string const path = paths[std::labs(l.num(1)) % PATHS];
			switch(std::labs(l.num(2)) % 4) {
			case 0: fs::disk.nodes.erase(path); count("fault.file_removed"); break;
			case 1: if(!path.starts_with("/sim/nodir")) { fs::put(path, "somebody else's file\n"); count("fault.file_replaced"); } break;
			case 2: if(auto i = fs::disk.nodes.find(path); i != fs::disk.nodes.end()) { i->second.mode = 0444; count("fault.file_read_only"); } break;
			default: if(auto* f = fs::get("/sim/in1.csx"); f && !path.starts_with("/sim/nodir")) { auto const c = *f; fs::put(path, c); count("fault.file_replaced"); } break;
			}
			return true;
		} else return true;
		check(salt);
		return true;
	}
	std::map<std::string, fs::Inode> before_same(std::map<std::string, fs::Inode> const& m) { return m; }

	void after_open(std::string const& expected) {
		bool const now = action("a_file_save")->isEnabled();
		bool const should = !expected.starts_with("refused: ");
		if(fs::fired) count("probe.open_with_fault");
		else if(now != should) bad("open", now ? "a document which cannot be opened was opened: " + expected : "a document which can be opened was not");
		if(!now && !any_error()) bad("open-silent", "a document was not opened and no error was shown");
		if(now && any_error()) bad("open-error", "a document was opened and an error was shown");
		loaded = now;
		if(loaded) { same(expected, "open-differs", "the project is not the one of the document"); unsaved = 1; count("probe.opened"); }
		else { if(unsaved) unsaved = 2; count("probe.open_refused"); }
		done("open");
	}

	void after_edit(std::vector<Item> const& items, std::set<Entity const*> const* chosen = nullptr) {
		if(!user.edited || !user.validated) {
			same(what_if("nothing"), "cancelled-changed", "a cancelled edition changed the project");
			count("probe.edit_cancelled");
			return;
		}
		std::string cmd;
		std::string const& title = user.edit_title;
		std::vector<std::size_t> match;
		static std::map<char, char const*> const types { { 'E', "Edge" }, { 'A', "Angle" }, { 'I', "Interval" }, { 'M', "MeshlinePolicy" }, { 'Z', "ConflictDiagonalOrCircularZone" }, { 'T', "ConflictTooCloseMeshlinePolicies" } };
		for(std::size_t i = 0; i < items.size(); ++i)
			if(types.contains(items[i].kind) && title.ends_with(std::string(" ") + types.at(items[i].kind) + " - " + std::to_string(items[i].entity->id))) match.push_back(i);
		if(match.size() > 1) { forget(); discard("two objects have the same name"); }
		if(match.empty()) {
			if(title.find("lobal") == std::string::npos) bad("edit-title", "the edition dialog is about '" + title + "' which is not in the project");
			if(chosen) for(auto* e : *chosen) for(auto const& i : items) if(i.entity == e && types.contains(i.kind)) bad("edit-other", "an object is selected but the dialog is about the global parameters");
			cmd = "edit G\n";
		} else {
			if(chosen && !chosen->contains(items[match[0]].entity)) bad("edit-other", "the edition dialog is about '" + title + "' which is not selected");
			cmd = fmt("edit %c %zu\n", items[match[0]].kind, match[0]);
		}
		for(auto const& c : user.cells) cmd += "cell " + c.label + "|" + c.value + "\n";
		cmd += "commit\n";
		auto const text = what_if(cmd);
		same(text, "edit-differs", "the project is not the one that the validated values make");
		// An edition with refused values changes nothing.
		unsaved = text != prior ? 1 : unsaved ? unsaved : 2;
		count((std::string("op.edited_") + (match.empty() ? 'G' : items[match[0]].kind)).c_str());
	}

	void done(std::string const& k) {
		count(("op." + k).c_str());
		history = mix(history, fnv(k));
		++effective;
	}
};

struct Sink final : Logger::ISink {
	Logger::UserAction log(Logger::LogEvent const& e) const override {
		logged.push_back({ e.level, e.message });
		event("log: " + e.message);
		return Logger::UserAction::NOTHING;
	}
};

Trace generate(Rng& rng, std::string const& prop, u64) {
	ensure_app(); // Before any run is forked.
	Trace t;
	t.add("world gui");
	doc::Options o;
	o.max_props = 2;
	o.max_prims = rng.range(1, 4);
	doc::generate(rng, t, o, 0);
	if(rng.chance(40)) doc::generate(rng, t, o, 1);
	t.add(fmt("start %d %d %d", rng.chance(80) ? 0 : rng.range(1, 4), rng.chance(30) ? rng.range(1, 3) : 0, rng.chance(15) ? 1 : 0));
	auto a = [&] { return (int) rng.below(60); };
	auto answers = [&](int n) { std::string s; for(int i = 0; i < n; ++i) s += fmt(" %d", a()); return s; };
	//                       open step undo select press dbl edit save saveas csx view close ext fault
	std::vector<int> w = { 2, 8, 8, 8, 3, 4, 10, 5, 4, 1, 10, 4, 2, 2 };
	for(auto& x : w) if(rng.chance(15)) x *= 4; else if(rng.chance(15)) x = 0;
	bool const drawn = prop == "P26";
	if(drawn) w[10] *= 3, w[0] *= 2, w[7] = w[8] = w[9] = 0;
	int const n = rng.range(5, rng.chance(15) ? 30 : 14);
	for(int i = 0; i < n; ++i) {
		switch(rng.weighted(w)) {
		case 0: t.add("open" + answers(3)); break;
		case 1: if(rng.chance(30)) t.add("next"); else for(int j = rng.chance(30) ? rng.range(2, 14) : 1; j > 0; --j) t.add("prev"); break;
		case 2: t.add(rng.chance(60) ? "undo" : "redo"); break;
		case 3: t.add(fmt("select %d %d %d", (int) rng.below(8), a(), (int) rng.below(3))); break;
		case 4: t.add(fmt("press %d %d %d", (int) rng.below(8), a(), (int) rng.below(3)) + answers(1)); break;
		case 5: if(rng.chance(60)) t.add(fmt("view 9 %d", a())); t.add(fmt("dblclick %d %d", (int) rng.below(8), a()) + answers(9)); break;
		case 6:
			if(rng.chance(70)) {
				if(rng.chance(85)) t.add(fmt("view 9 %d", a())); // Everything is shown.
				int const k = (int) rng.below(6);
				for(int j = rng.chance(20) ? 2 : 1; j > 0; --j) t.add(fmt("select %d %d %d", k, a(), rng.chance(80) ? 0 : 1));
			}
			t.add("edit" + answers(9));
			break;
		case 7: t.add("save" + answers(3)); break;
		case 8: t.add("saveas" + answers(5)); break;
		case 9: t.add(fmt("csxcad %d", (int) rng.below(5)) + answers(2)); break;
		case 10: t.add(fmt("view %d %d", (int) rng.below(drawn && rng.chance(70) ? 12 : 34), a())); break;
		case 11: t.add("close" + answers(4)); break;
		case 12: t.add(fmt("ext %d %d", (int) rng.below(PATHS), (int) rng.below(4))); break;
		case 13:
			t.add(fmt("fault %d %d %d", (int) rng.below(6), (int) rng.below(4), (int) rng.below(3)));
			t.add(rng.chance(60) ? "save" + answers(3) : rng.chance(50) ? "saveas" + answers(5) : rng.chance(50) ? "close" + answers(4) : "open" + answers(3));
			break;
		}
	}
	if(rng.chance(70)) t.add("close" + answers(4));
	return t;
}

void execute(Trace const& t, std::string const& prop) {
	ensure_app();
	fs::mkdir_p("/sim");
	fs::mkdir_p("/sim/dir");
	fs::mkdir_p("/sim/tmp");
	std::string const d0 = doc::render(t, 0), d1 = doc::render(t, 1);
	if(g_verbose) printf("document 0:\n%s\ndocument 1:\n%s\n", d0.c_str(), d1.c_str());
	fs::put("/sim/in0.csx", d0);
	fs::put("/sim/in1.csx", d1);
	fs::put("/sim/bad.csx", d0.substr(0, d0.size() / 2));
	fs::put("/sim/old.csx", "an older result\n");
	long in = 0, out = 0, force = 0;
	for(auto const& l : t.lines) if(l.is("start")) { in = std::labs(l.num(1)); out = std::labs(l.num(2)); force = l.num(3); }
	OpenEMSH::Params p;
	static char const* const ins[] = { "/sim/in0.csx", "", "/sim/in1.csx", "/sim/bad.csx", "/sim/missing.csx" };
	static char const* const outs[] = { "", "/sim/out.csx", "/sim/old.csx", "/sim/in0.csx" };
	p.input = ins[in % 5];
	p.output = outs[out % 4];
	p.force = force & 1;
	p.gui = true;
	p.override_from_cli = [](Params&) {};
	Session s;
	s.drawn = prop == "P26";
	s.app = std::make_unique<OpenEMSH>(p);
	Logger::singleton().register_sink(Logger::id("Cli"), std::make_unique<Sink>());
	s.how = "start";
	at_step(0, "start");
	s.w = std::make_unique<MainWindow>(*s.app);
	s.w->show();
	s.settle();
	s.set_aside();
	user.start({});
	fs::start_life({});
	bool const shown = s.w->parse_and_display();
	s.settle();
	fs::end_life();
	if(p.input.empty()) {
		s.forget();
		if(shown) fail("open", "a project is displayed though no file was given");
	} else s.after_open(s.what_if("open " + p.input.generic_string()));
	s.check(0);
	fs::Plan plan;
	for(std::size_t i = 0; i < t.lines.size(); ++i) {
		auto const& l = t.lines[i];
		if(l.w.empty() || l.is("world") || l.is("start")) continue;
		if(l.is("prop") || l.is("prim") || l.w[0].starts_with("doc")) continue;
		at_step(i, l.text);
		if(l.is("fault")) {
			static fs::Op const ops[] = { fs::Op::OPEN_W, fs::Op::WRITE, fs::Op::RENAME, fs::Op::SYNC, fs::Op::OPEN_R, fs::Op::READ };
			static int const errs[] = { EIO, ENOSPC, EACCES };
			plan.faults = { { ops[std::labs(l.num(1)) % 6], (int) (std::labs(l.num(2)) % 4), fs::Fault::ERR, errs[std::labs(l.num(3)) % 3], 0, false, false } };
			continue;
		}
		event("> " + l.text);
		bool const go_on = s.op(l, plan);
		if(fs::fired) count("fault.disk");
		plan = {};
		count("steps");
		if(!go_on) break;
	}
	history_seen(s.history);
	s.w.reset();
	s.settle();
	if(s.effective < 3) discard("short");
	finish_ok();
}

} // namespace

World const gui_world { "gui", generate, execute };

} // namespace sim
