// Drives the real Caretaker/Originator through its public interface and records what can be seen.
// usage: h_history SEED NSCENARIOS MAXLEN PROFILE   or   h_history enum LEN
#include <cstdlib>
#include <map>
#include <memory>
#include <random>
#include <set>
#include "json.hpp"
#include "utils/state_management.hpp"

struct Note : IAnnotation { long v; explicit Note(long v) : v(v) {} };
using ObjC = Originator<long const>;
using ObjM = Originator<long>;

struct World {
	Caretaker c;
	std::map<Timepoint*, long> ids;
	std::map<long, Timepoint*> nodes; // every point ever made; liveness is looked up in the tree
	long next_id = 1;
	struct Obj { std::shared_ptr<ObjC> k; std::shared_ptr<ObjM> m; bool alive = true; long init = 0; };
	std::vector<Obj> objs;
	TreeNode foreign;
	bool have_logs = true;

	World() { ids[c.get_history_root()] = 0; nodes[0] = c.get_history_root(); }
	void fresh() { auto* t = c.get_current_timepoint(); ids[t] = next_id; nodes[next_id] = t; ++next_id; }
	std::vector<Timepoint*> live() { return c.get_history_root()->cluster(true); }

	// An object first recorded at a point that has been collected belonged to that point: its owner lets go of it.
	void drop_orphans() {
		auto all = live();
		for(auto& o : objs) if(o.alive) {
			auto* t = o.k ? o.k->get_init_timepoint() : o.m->get_init_timepoint();
			bool found = false; for(auto* q : all) found |= q == t && ids.at(q) == o.init; // addresses are reused
			if(!found) { o.k.reset(); o.m.reset(); o.alive = false; }
		}
	}
	void emit(J& j, bool look) {
		auto const id = [&](Timepoint* t) { auto it = ids.find(t); return it == ids.end() ? -9L : it->second; };
		j.num("cur", id(c.get_current_timepoint()));
		auto all = live();
		j.raw("nodes", jarr(all, [&](Timepoint* t) { return "[" + std::to_string(id(t)) + "," + std::to_string(t->parent() ? id(t->parent()) : -1) + "]"; }));
		std::string cu = "[", cr = "[";
		for(std::size_t n = 0; n <= 7; ++n) {
			if(n) { cu += ','; cr += ','; }
			cu += c.can_undo(n) ? "true" : "false";
			cr += c.can_redo(n) ? "true" : "false";
		}
		j.raw("cu", cu + "]").raw("cr", cr + "]");
		j.raw("pins", jarr(c.get_pinned_timepoints(), [&](Timepoint* t) { return std::to_string(id(t)); }));
		std::string an = "[";
		for(auto* t : all)
			if(auto* a = c.get_annotation(t)) { if(an.size() > 1) an += ','; an += "[" + std::to_string(id(t)) + "," + std::to_string(static_cast<Note*>(a)->v) + "]"; }
		j.raw("ann", an + "]");
		std::string lg = "[", sh = "[";
		for(std::size_t i = 0; i < objs.size(); ++i) {
			auto& o = objs[i];
			if(!o.alive) continue;
			std::vector<long> ns;
			if(o.k) for(auto const& p : o.k->get_available_states()) ns.push_back(id(p.first));
			if(o.m) for(auto const& p : o.m->get_available_states()) ns.push_back(id(p.first));
			if(lg.size() > 1) lg += ',';
			lg += "[" + std::to_string(i + 1) + "," + jnums(ns) + "]";
			if(look) {
				long n = o.k ? id(o.k->get_current_timepoint()) : id(o.m->get_current_timepoint());
				long v = o.k ? o.k->get_current_state() : o.m->get_current_state();
				if(sh.size() > 1) sh += ',';
				sh += "[" + std::to_string(i + 1) + "," + std::to_string(n) + "," + std::to_string(v) + "]";
			}
		}
		j.raw("logs", lg + "]").raw("shown", sh + "]");
		puts(j.done().c_str());
	}
};

static std::mt19937_64 rng;
static long rnd(long n) { return n <= 0 ? 0 : (long) (rng() % (unsigned long) n); }

struct Runner {
	std::unique_ptr<World> w;
	long val = 1;
	bool always_look = false;
	void begin() { w = std::make_unique<World>(); val = 1; J j; j.str("op", "begin"); w->emit(j, true); }
	Timepoint* some_live() { auto a = w->live(); return a[rnd((long) a.size())]; }
	long id(Timepoint* t) { return w->ids.at(t); }
	bool step(std::string const& op, long a = 0, long b = 0) {
		doing(op + " " + std::to_string(a) + " " + std::to_string(b));
		J j; j.str("op", op);
		bool look = always_look;
		auto& c = w->c;
		if(op == "mk") { c.make_next_timepoint(); w->fresh(); }
		else if(op == "recnext" || op == "rechere") {
			if((std::size_t) a >= w->objs.size() || !w->objs[a].alive) return false;
			auto& o = w->objs[a];
			if(op == "rechere" && !c.get_current_timepoint()->is_leaf()) return false;
			long v = ++val;
			if(op == "recnext") {
				if(b == 0) { if(o.k) o.k->set_next_state(v); else o.m->set_next_state(v); }
				else if(b == 1) { if(o.k) o.k->set_given_or_next_state(v); else o.m->set_given_or_next_state(v); }
				else if(o.k) { auto [t, s] = o.k->make_next_state(); o.k->set_state(t, v); }
				else { auto [t, s] = o.m->make_next_state(); o.m->set_state(t, v); }
				w->fresh();
			} else {
				auto* t = c.get_current_timepoint();
				if(b == 1) { if(o.k) o.k->set_given_or_next_state(v, t); else o.m->set_given_or_next_state(v, t); }
				else { if(o.k) o.k->set_state(t, v); else o.m->set_state(t, v); }
			}
			j.num("x", a + 1).num("v", v);
		}
		else if(op == "create") {
			World::Obj o; long v = ++val; o.init = id(c.get_current_timepoint());
			if(b) { o.m = std::make_shared<ObjM>(c.get_current_timepoint(), v, c); c.take_care_of(o.m); }
			else { o.k = std::make_shared<ObjC>(c.get_current_timepoint(), v, c); c.take_care_of(o.k); }
			w->objs.push_back(o);
			j.num("x", (long) w->objs.size()).num("v", v).boolean("mut", b);
		}
		else if(op == "release") {
			if((std::size_t) a >= w->objs.size() || !w->objs[a].alive) return false;
			w->objs[a].k.reset(); w->objs[a].m.reset(); w->objs[a].alive = false;
			j.num("x", a + 1);
		}
		else if(op == "go" || op == "gorem") {
			Timepoint* t; long n;
			if(a == -1) { t = nullptr; n = -1; } else if(a == -2) { t = &w->foreign; n = -1; }
			else { t = a >= 0 && w->nodes.count(a) ? w->nodes[a] : nullptr; n = a;
				bool ok = false; for(auto* q : w->live()) if(q == t && id(q) == a) ok = true; if(!ok) return false; }
			bool r = op == "go" ? c.go_without_remembering(t) : c.go_and_remember(t);
			j.num("t", n).boolean("ok", r);
		}
		else if(op == "rem") c.remember_current_timepoint();
		else if(op == "undo") { if(a == 1 && b) c.undo(); else c.undo((std::size_t) a); j.num("n", a); }
		else if(op == "redo") { if(a == 1 && b) c.redo(); else c.redo((std::size_t) a); j.num("n", a); }
		else if(op == "pin") c.pin_current_timepoint();
		else if(op == "unpin") {
			auto const& p = c.get_pinned_timepoints(); if(p.empty()) return false;
			auto* t = p[(std::size_t) a % p.size()]; j.num("t", id(t)); c.unpin(t);
		}
		else if(op == "ann") { long v = ++val; c.annotate_current_timepoint(std::make_unique<Note>(v)); j.num("v", v); }
		else if(op == "gc") c.garbage_collector();
		else if(op == "autogc") { c.set_auto_gc(a); j.boolean("v", a); }
		else if(op == "reset") { w->objs.clear(); c.reset(); }
		else if(op == "look") look = true;
		else return false;
		w->drop_orphans();
		w->emit(j, look);
		return true;
	}
	bool random(int profile) {
		long r = rnd(100);
		auto live = [&] { auto a = w->live(); return id(a[rnd((long) a.size())]); };
		auto x = [&] { return rnd((long) w->objs.size()); };
		bool const resets = profile == 3;
		switch(profile == 3 ? 2 : profile) {
		case 0: // navigation
			if(r < 22) return step("mk");
			if(r < 40) return step("rem");
			if(r < 50) return step("gorem", live());
			if(r < 53) return step("go", live());
			if(r < 72) return step("undo", 1, rnd(2));
			if(r < 78) return step("undo", rnd(6));
			if(r < 93) return step("redo", 1, rnd(2));
			if(r < 98) return step("redo", rnd(6));
			return step("look");
		case 1: // objects
			if(r < 6) return step("create", 0, rnd(2));
			if(r < 28) return step("recnext", x(), rnd(3));
			if(r < 36) return step("rechere", x(), rnd(2));
			if(r < 42) return step("mk");
			if(r < 50) return step("rem");
			if(r < 60) return step("gorem", live());
			if(r < 68) return step("go", live());
			if(r < 76) return step("undo", 1 + rnd(3));
			if(r < 82) return step("redo", 1 + rnd(3));
			if(r < 84) return step("gc");
			if(r < 86) return step("pin");
			if(r < 87) return step("unpin", rnd(4));
			if(r < 88) return step("release", x());
			return step("look");
		case 2: // collection
			if(r < 5) return step("create", 0, rnd(2));
			if(r < 18) return step("recnext", x(), rnd(3));
			if(r < 24) return step("rechere", x(), rnd(2));
			if(r < 32) return step("mk");
			if(r < 40) return step("rem");
			if(r < 46) return step("gorem", live());
			if(r < 54) return step("go", live());
			if(r < 62) return step("undo", 1 + rnd(3));
			if(r < 66) return step("redo", 1 + rnd(3));
			if(r < 72) return step("gc");
			if(r < 78) return step("pin");
			if(r < 83) return step("unpin", rnd(4));
			if(r < 90) return step("ann");
			if(r < 93) return step("autogc", rnd(2));
			if(r < 94) return step("release", x());
			if(r < 95) return step("go", -1 - rnd(2));
			if(r < 96) return step("gorem", -1 - rnd(2));
			if(resets && r < 98) return step("reset");
			return step("look");
		}
		return false;
	}
};

int main(int argc, char** argv) {
	install_crash_handler();
	setvbuf(stdout, nullptr, _IOFBF, 1 << 20);
	Runner r;
	if(argc > 2 && std::string(argv[1]) == "enum") {
		// every sequence of LEN navigation commands
		int len = atoi(argv[2]);
		struct C { char const* op; long a; };
		std::vector<C> al = { { "mk", 0 }, { "rem", 0 }, { "gorem", 0 }, { "undo", 1 }, { "undo", 2 }, { "redo", 1 }, { "recnext", 0 } };
		std::vector<int> k(len, 0);
		while(true) {
			r.begin(); r.step("create", 0, 0);
			for(int i : k) r.step(al[i].op, al[i].a);
			r.step("look");
			int p = len - 1;
			while(p >= 0 && ++k[p] == (int) al.size()) k[p--] = 0;
			if(p < 0) break;
		}
		return 0;
	}
	rng.seed(strtoul(argv[1], nullptr, 10));
	long n = atol(argv[2]), maxlen = atol(argv[3]);
	int profile = atoi(argv[4]);
	for(long i = 0; i < n; ++i) {
		r.begin();
		long len = 5 + rnd(maxlen);
		for(long k = 0; k < len; ++k) r.random(profile);
		r.step("look");
	}
}
