// State world (P01, P02, P03): the real Caretaker / Originator / TreeNode code
// under random histories, against a model made of plain maps.
#include <algorithm>
#include <memory>
#include <optional>
#include <set>

#include "utils/state_management.hpp"

#include "worlds.hpp"

namespace sim {
namespace {

struct Val { int v; };
struct Note final : IAnnotation {
	static inline long living = 0;
	int v;
	explicit Note(int v) : v(v) { ++living; }
	~Note() override { --living; }
};

// Two kinds of objects, as in the program: immutable and mutable states.
struct Obj {
	std::shared_ptr<Originator<Val const>> c;
	std::shared_ptr<Originator<Val>> m;
	std::size_t init;             // Model node.
	std::map<std::size_t, int> states;
	bool alive() const { return c || m; }
	int read() const { return c ? c->get_current_state().v : m->get_current_state().v; }
	void set(Timepoint* t, int v) { if(c) c->set_state(t, Val{v}); else m->set_state(t, Val{v}); }
	void set_next(int v) { if(c) c->set_next_state(Val{v}); else m->set_next_state(Val{v}); }
	Timepoint* make_next() const { return c ? std::get<0>(c->make_next_state()) : std::get<0>(m->make_next_state()); }
	std::vector<std::pair<Timepoint*, int>> avail() const {
		std::vector<std::pair<Timepoint*, int>> r;
		if(c) for(auto const& [t, s] : c->get_available_states()) r.emplace_back(t, s.v);
		else  for(auto const& [t, s] : m->get_available_states()) r.emplace_back(t, s.v);
		return r;
	}
	void release() { c.reset(); m.reset(); }
};

struct Node {
	std::size_t parent;
	Timepoint* real;
	std::size_t id;
	bool alive = true;
	int children = 0;
	std::optional<int> note;
};

struct Run {
	std::string prop;
	Caretaker ct;
	std::vector<Node> nodes;
	std::vector<Obj> objs;
	std::size_t cur = 0;
	std::vector<std::size_t> hist { 0 };
	std::optional<std::size_t> cursor;
	std::vector<std::size_t> pinned;
	bool auto_gc = true;
	int next_val = 1;
	bool detached = false; // Moved without remembering while browsing.
	bool diverged = false;

	explicit Run(std::string prop) : prop(std::move(prop)) {
		auto* r = ct.get_history_root();
		nodes.push_back(Node{ 0, r, r->id });
	}

	bool is_anc(std::size_t a, std::size_t b) const { // a ancestor of or equal to b.
		for(;;) {
			if(a == b) return true;
			if(b == 0) return false;
			b = nodes[b].parent;
		}
	}
	std::size_t add_node(Timepoint* real, std::size_t parent) {
		nodes.push_back(Node{ parent, real, real->id });
		nodes[parent].children++;
		return nodes.size() - 1;
	}
	std::set<std::size_t> kept() const {
		std::set<std::size_t> k;
		auto add = [&](std::size_t n) { for(;;) { k.insert(n); if(n == 0) break; n = nodes[n].parent; } };
		for(auto n : hist) add(n);
		for(auto n : pinned) add(n);
		add(cur);
		return k;
	}

	void check_cur(char const* what) {
		auto* t = ct.get_current_timepoint();
		if(t == nodes[cur].real && t->id == nodes[cur].id) return;
		if(prop == "P02")
			fail("wrong-timepoint", fmt("%s: current timepoint is node #%zu, the remembered history says #%zu", what, name_of(t), cur));
		diverged = true;
	}
	std::size_t name_of(Timepoint* t) const {
		for(std::size_t i = 0; i < nodes.size(); ++i)
			if(nodes[i].real == t && nodes[i].alive) return i;
		return 99999;
	}

	void drop_undone() { // New work after an undo.
		if(!cursor) return;
		hist.resize(*cursor + 1);
		cursor.reset();
		detached = false;
		count("probe.redo_dropped");
	}

	// Model of a collection; compares with the tree that is really there.
	void collected(bool expected, char const* what) {
		std::set<std::size_t> real_ids;
		for(auto* t : ct.get_history_root()->cluster(true)) real_ids.insert(t->id);
		auto const k = kept();
		std::size_t removed = 0;
		for(std::size_t i = 0; i < nodes.size(); ++i) {
			auto& n = nodes[i];
			if(!n.alive) {
				if(real_ids.contains(n.id) && prop == "P03")
					fail("gc-resurrected", fmt("%s: removed timepoint #%zu is in the tree again", what, i));
				continue;
			}
			bool const there = real_ids.contains(n.id);
			bool const keep = k.contains(i);
			if(!there && keep) {
				if(prop == "P03" || prop == "P02")
					fail("gc-lost", fmt("%s: timepoint #%zu is current, remembered, pinned or an ancestor of one, and was removed", what, i));
				diverged = true;
			}
			if(there && !keep && expected && prop == "P03")
				fail("gc-leak", fmt("%s: timepoint #%zu cannot be reached any more and was not collected", what, i));
			if(!there && !expected && prop == "P03")
				fail("gc-unasked", fmt("%s: timepoint #%zu removed although nothing asked for a collection", what, i));
			if(!there) {
				n.alive = false;
				n.real = nullptr;
				n.note.reset();
				++removed;
			}
		}
		if(removed) {
			count("probe.collected_timepoints", removed);
			for(auto& o : objs) {
				if(!o.alive()) continue;
				if(!nodes[o.init].alive) { o.release(); count("probe.object_of_collected_branch"); continue; }
				std::erase_if(o.states, [&](auto const& s) { return !nodes[s.first].alive; });
			}
		}
	}

	void check_available(char const* what) {
		for(std::size_t i = 0; i < objs.size(); ++i) {
			auto const& o = objs[i];
			if(!o.alive()) continue;
			std::map<std::size_t, int> got;
			for(auto const& [t, v] : o.avail()) {
				auto const n = name_of(t);
				if(n == 99999) fail("gc-dangling", fmt("%s: object %zu still holds a state for a removed timepoint", what, i));
				got[n] = v;
			}
			if(got != o.states) {
				std::string s;
				for(auto const& [n, v] : o.states)
					if(!got.contains(n)) s += fmt(" lost #%zu", n);
					else if(got[n] != v) s += fmt(" changed #%zu", n);
				for(auto const& [n, v] : got) if(!o.states.contains(n)) s += fmt(" unexpected #%zu", n);
				fail("gc-states", fmt("%s: recorded states of object %zu differ:%s", what, i, s.c_str()));
			}
		}
	}

	void check_can() {
		if(prop != "P02" || detached) return;
		std::size_t u, r;
		if(cursor) { u = *cursor; r = hist.size() - 1 - *cursor; }
		else { u = hist.back() == cur ? hist.size() - 1 : hist.size(); r = 0; }
		for(std::size_t n = 0; n <= hist.size() + 2; ++n) {
			if(ct.can_undo(n) != (n > 0 && n <= u))
				fail("can-undo", fmt("can_undo(%zu) is %d but %zu undo steps are possible", n, ct.can_undo(n), u));
			if(ct.can_redo(n) != (n > 0 && n <= r))
				fail("can-redo", fmt("can_redo(%zu) is %d but %zu redo steps are possible", n, ct.can_redo(n), r));
		}
	}

	std::optional<int> expected(Obj const& o) const {
		if(!is_anc(o.init, cur)) return std::nullopt; // Not born here.
		for(std::size_t n = cur;; n = nodes[n].parent) {
			auto it = o.states.find(n);
			if(it != o.states.end()) return it->second;
			if(n == 0) return std::nullopt;
		}
	}
	void check_value(std::size_t i, char const* what) {
		auto const& o = objs[i];
		if(!o.alive()) return;
		auto const e = expected(o);
		if(!e) { count("probe.read_unborn_skipped"); return; }
		int const got = o.read();
		if(got != *e && prop != "P02")
			fail("wrong-state", fmt("%s: object %zu reads %d at timepoint #%zu, recorded %d", what, i, got, cur, *e));
	}
	void check_notes(char const* what) {
		if(prop != "P01" && prop != "P03") return;
		if(prop == "P03") {
			auto const n = std::ranges::count_if(nodes, [](Node const& n) { return n.alive && n.note; });
			if(Note::living != n)
				fail("gc-annotations", fmt("%s: %ld annotations are kept, %ld timepoints that exist are annotated", what, Note::living, (long) n));
		}
		for(std::size_t i = 0; i < nodes.size(); ++i) {
			if(!nodes[i].alive) continue;
			auto* a = static_cast<Note*>(ct.get_annotation(nodes[i].real));
			if(bool(a) != nodes[i].note.has_value() || (a && a->v != *nodes[i].note))
				fail("annotation", fmt("%s: annotation of timepoint #%zu is %s, expected %s", what, i, a ? "there" : "missing", nodes[i].note ? "one" : "none"));
		}
		for(bool incl : { false, true }) {
			std::size_t e = 99999;
			for(std::size_t n = cur;; n = nodes[n].parent) {
				if((incl || n != cur) && nodes[n].note) { e = n; break; }
				if(n == 0) break;
			}
			auto* t = ct.find_first_ancestor_with_annotation(incl);
			if((t ? name_of(t) : 99999) != e)
				fail("annotation-search", fmt("%s: nearest annotated ancestor (include itself %d) is not #%zu", what, incl, e));
			if(e != 99999) {
				int const wanted = *nodes[e].note;
				auto* t2 = ct.find_first_ancestor_with_annotation_that([wanted](IAnnotation const* a) { return static_cast<Note const*>(a)->v == wanted; }, incl);
				if((t2 ? name_of(t2) : 99999) != e)
					fail("annotation-search", fmt("%s: nearest ancestor with a given annotation is not #%zu", what, e));
			}
		}
	}

	std::vector<std::size_t> alive_nodes() const {
		std::vector<std::size_t> r;
		for(std::size_t i = 0; i < nodes.size(); ++i) if(nodes[i].alive) r.push_back(i);
		return r;
	}
	std::vector<std::size_t> usable_objs() const {
		std::vector<std::size_t> r;
		for(std::size_t i = 0; i < objs.size(); ++i)
			if(objs[i].alive() && is_anc(objs[i].init, cur)) r.push_back(i);
		return r;
	}
	std::size_t branched(char const* what) { // After the code made a next timepoint.
		bool const browsing = cursor.has_value();
		drop_undone();
		auto* t = ct.get_current_timepoint();
		if(t->parent() != nodes[cur].real) {
			if(prop == "P02" || prop == "P01") fail("wrong-branch", fmt("%s: new timepoint does not follow the current one", what));
			diverged = true;
			return cur;
		}
		cur = add_node(t, cur);
		collected(browsing && auto_gc, what);
		return cur;
	}

	bool step(Line const& l) {
		auto const& op = l.at(1);
		auto const a = (std::size_t) l.num(2);
		auto const b = (std::size_t) l.num(3);
		char const* w = l.text.c_str();
		if(op == "new") {
			if(objs.size() > 24) return false;
			std::size_t n = cur;
			Timepoint* t = nodes[cur].real;
			if(a % 2) {
				t = ct.make_next_timepoint();
				n = branched(w);
				if(diverged) return true;
			}
			Obj o;
			o.init = n;
			int const v = next_val++;
			if(b % 2) { o.c = std::make_shared<Originator<Val const>>(t, Val{v}, ct); ct.take_care_of(o.c); }
			else { o.m = std::make_shared<Originator<Val>>(t, Val{v}, ct); ct.take_care_of(o.m); }
			o.states[n] = v;
			objs.push_back(std::move(o));
		} else if(op == "set" || op == "mset" || op == "setcur") {
			auto const us = usable_objs();
			if(us.empty()) return false;
			int const v = next_val++;
			if(op == "set") {
				auto& o = objs[us[a % us.size()]];
				if(b % 2) o.set_next(v);
				else { auto* t = o.make_next(); o.set(t, v); }
				auto n = branched(w);
				if(diverged) return true;
				o.states[n] = v;
			} else if(op == "mset") { // Several objects change at one timepoint.
				auto* t = ct.make_next_timepoint();
				auto n = branched(w);
				if(diverged) return true;
				for(std::size_t k = 0; k <= b % 3; ++k) {
					auto& o = objs[us[(a + k) % us.size()]];
					if(!o.alive() || o.states.contains(n)) continue;
					int const vv = next_val++;
					o.set(t, vv);
					o.states[n] = vv;
				}
			} else { // At the current timepoint, as long as nothing was built on it.
				auto& o = objs[us[a % us.size()]];
				if(nodes[cur].children || (o.c && o.states.contains(cur))) return false;
				o.set(nodes[cur].real, v);
				o.states[cur] = v;
			}
		} else if(op == "tick") {
			ct.make_next_timepoint();
			branched(w);
		} else if(op == "remember") {
			if(detached) { // Remembering elsewhere is new work: undone points go.
				ct.remember_current_timepoint();
				drop_undone();
				hist.push_back(cur);
				collected(auto_gc, w);
			} else {
				ct.remember_current_timepoint();
				if(!cursor && hist.back() != cur) hist.push_back(cur);
			}
		} else if(op == "pin") {
			ct.pin_current_timepoint();
			if(std::ranges::find(pinned, cur) == pinned.end()) pinned.push_back(cur);
			if(prop == "P03") {
				auto const& p = ct.get_pinned_timepoints();
				if(std::ranges::count(p, nodes[cur].real) != 1) fail("pin", "current timepoint is not pinned once");
			}
		} else if(op == "unpin") {
			if(pinned.empty()) return false;
			auto const n = pinned[a % pinned.size()];
			ct.unpin(nodes[n].real);
			std::erase(pinned, n);
			collected(auto_gc, w);
		} else if(op == "annotate") {
			int const v = next_val++;
			ct.annotate_current_timepoint(std::make_unique<Note>(v));
			if(!nodes[cur].note) nodes[cur].note = v;
		} else if(op == "undo" || op == "redo") {
			if(detached) return false;
			std::size_t const n = a % 4;
			if(op == "undo") {
				ct.undo(n);
				if(cursor) { if(n && n <= *cursor) { *cursor -= n; cur = hist[*cursor]; count("probe.undo_browsing"); } }
				else {
					bool const at = hist.back() == cur;
					std::size_t const max = at ? hist.size() - 1 : hist.size();
					if(n && n <= max) {
						std::size_t const k = hist.size() - (at ? 1 : 0) - n;
						cursor = k;
						cur = hist[k];
						count(at ? "probe.undo" : "probe.undo_unremembered");
					} else if(n) count("probe.undo_refused");
				}
			} else {
				ct.redo(n);
				if(cursor && n && *cursor + n < hist.size()) { *cursor += n; cur = hist[*cursor]; count("probe.redo"); }
				else if(n) count("probe.redo_refused");
			}
			if(cursor && *cursor == hist.size() - 1) cursor.reset();
			collected(false, w);
		} else if(op == "go" || op == "goR") {
			auto const al = alive_nodes();
			auto const n = al[a % al.size()];
			if(op == "go") {
				if(!ct.go_without_remembering(nodes[n].real)) {
					if(prop == "P01" || prop == "P02") fail("go-refused", fmt("%s: cannot go to the existing timepoint #%zu", w, n));
					diverged = true; return true;
				}
				cur = n;
				if(cursor) { detached = hist[*cursor] != cur; count("probe.go_while_browsing"); }
				else detached = false;
			} else {
				bool const browsing = cursor.has_value();
				ct.go_and_remember(nodes[n].real);
				cur = n;
				detached = false;
				if(cursor) {
					if(hist[*cursor] != n) { drop_undone(); hist.push_back(n); count("probe.remember_while_browsing"); collected(auto_gc, w); }
				} else if(hist.back() != n) hist.push_back(n);
				(void) browsing;
			}
		} else if(op == "gobad") {
			Timepoint foreign;
			auto* before = ct.get_current_timepoint();
			if(ct.go_without_remembering(nullptr) || ct.go_and_remember(&foreign) || ct.get_current_timepoint() != before)
				if(prop == "P01" || prop == "P02") fail("go-foreign", "went to a timepoint of no history");
		} else if(op == "gc") {
			ct.garbage_collector();
			collected(true, w);
		} else if(op == "autogc") {
			auto_gc = a % 2;
			ct.set_auto_gc(auto_gc);
		} else if(op == "expire") {
			if(objs.empty()) return false;
			auto& o = objs[a % objs.size()];
			if(!o.alive()) return false;
			o.release();
		} else if(op == "reset") {
			for(auto& o : objs) o.release();
			ct.reset();
			cur = 0;
			hist = { 0 };
			cursor.reset();
			detached = false;
			pinned.clear();
			nodes[0].children = 0;
			nodes[0].note.reset();
			collected(true, w);
			check_cur(w);
			count("probe.reset");
		} else if(op == "peek") {
			if(objs.empty()) return false;
			check_value(a % objs.size(), w);
		} else if(op == "peekall") {
			for(std::size_t i = 0; i < objs.size(); ++i) check_value(i, w);
		} else return false;
		return true;
	}

	void settle(char const* w) {
		check_cur(w);
		if(diverged) { count("probe.diverged"); finish_ok(); }
		check_can();
		check_notes(w);
		if(prop == "P03") check_available(w);
	}

	void sweep() {
		// Everything recorded is still there, from everywhere.
		if(prop == "P02") { // Walk the whole remembered history.
			if(detached) return;
			while(true) {
				std::size_t u = cursor ? *cursor : (hist.back() == cur ? hist.size() - 1 : hist.size());
				if(!u) break;
				step(Line{ "op undo 1", { "op", "undo", "1" } });
				settle("final undo");
			}
			while(cursor) {
				step(Line{ "op redo 1", { "op", "redo", "1" } });
				settle("final redo");
			}
			return;
		}
		for(auto n : alive_nodes()) {
			if(!ct.go_without_remembering(nodes[n].real)) fail("go-refused", "final sweep");
			cur = n;
			for(std::size_t i = 0; i < objs.size(); ++i) check_value(i, "final sweep");
			check_notes("final sweep");
		}
		check_available_final();
	}
	void check_available_final() {
		if(prop == "P01" || prop == "P03") check_available("final sweep");
	}

	u64 state_hash() const {
		std::string s;
		std::map<std::size_t, std::size_t> order;
		for(std::size_t i = 0; i < nodes.size(); ++i) if(nodes[i].alive) {
			order.emplace(i, order.size());
			s += fmt("%zu,%d;", order[nodes[i].parent], nodes[i].note.has_value());
		}
		s += "|";
		for(auto h : hist) s += fmt("%zu,", order[h]);
		s += fmt("|%zu|%d|", order[cur], cursor ? (int) *cursor : -1);
		for(auto h : pinned) s += fmt("%zu,", order[h]);
		for(auto const& o : objs) if(o.alive()) {
			s += "o";
			for(auto const& [n, v] : o.states) s += fmt("%zu,", order[n]);
		}
		return fnv(s);
	}
};

Trace generate(Rng& rng, std::string const& property, u64) {
	Trace t;
	t.add("world state");
	// Swarm: each run favours its own mix.
	std::vector<std::string> names { "new", "set", "mset", "setcur", "tick", "remember", "pin", "unpin", "annotate", "undo", "redo", "go", "goR", "gobad", "gc", "autogc", "expire", "peek", "peekall", "reset" };
	std::vector<int> base          {  8,     12,    5,      4,        4,      12,         4,     3,       4,          12,     9,      6,    6,     1,       4,    1,        2,        8,      3,         0 };
	if(property == "P03") { base[6] = 8; base[7] = 6; base[14] = 9; base[15] = 3; }
	for(auto& x : base) if(x && rng.chance(20)) x = 0;
	base[0] += 2; base[1] += 3;
	for(auto& x : base) x *= rng.range(1, 4);
	if(rng.chance(15)) base[19] = 2;
	int const n = rng.range(6, rng.chance(15) ? 120 : 45);
	t.add("op new 0 " + std::to_string(rng.below(2)));
	auto arg = [&] { return std::to_string(rng.below(64)) + " " + std::to_string(rng.below(16)); };
	int const works = rng.range(0, 30), bursts = rng.range(0, 18);
	for(int i = 0; i < n; ++i) {
		if(rng.chance(works)) { // Work which is remembered.
			t.add("op " + rng.pick(std::vector<std::string> { "set", "mset", "new", "tick", "set" }) + " " + arg());
			if(rng.chance(30)) t.add("op annotate 0 0");
			t.add("op remember 0 0");
			continue;
		}
		if(rng.chance(bursts)) { // Walk back and forth.
			int const k = rng.range(2, 5);
			for(int j = 0; j < k; ++j) {
				t.add(std::string("op ") + (rng.chance(65) ? "undo" : "redo") + " 1 0");
				if(rng.chance(15)) t.add("op peek " + arg());
				if(rng.chance(8)) t.add("op gc 0 0");
				if(rng.chance(8)) t.add("op pin 0 0");
			}
			continue;
		}
		auto const& op = names[rng.weighted(base)];
		t.add("op " + op + " " + std::to_string(op == "undo" || op == "redo" ? (rng.chance(70) ? 1 : rng.below(4)) : rng.below(64)) + " " + std::to_string(rng.below(16)));
	}
	return t;
}

void execute(Trace const& t, std::string const& property) {
	Run run(property);
	std::string shape;
	std::size_t done = 0;
	for(std::size_t i = 0; i < t.lines.size(); ++i) {
		auto const& l = t.lines[i];
		if(!l.is("op")) continue;
		at_step(i, l.text);
		if(!run.step(l)) continue;
		++done;
		count("steps");
		run.settle(l.text.c_str());
		auto const h = run.state_hash();
		state_seen(h);
		shape += l.at(1) + ",";
		event(l.text + fmt(" -> #%zu n%zu h%zu", run.cur, run.alive_nodes().size(), run.hist.size()));
	}
	at_step(t.lines.size(), "final sweep");
	run.sweep();
	if(done >= 5) history_seen(fnv(shape));
	finish_ok();
}

} // namespace

World const state_world { "state", generate, execute };

} // namespace sim
