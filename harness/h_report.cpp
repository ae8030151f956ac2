// Has the application report on the model in the middle of a session, through what -f plantuml and -f prettyprint do.
//   load PATH | next | prev | undo N | redo N | all | edit E... | report
#include <fstream>
#include <iostream>
#include "json.hpp"
#include "edits.hpp"
using std::string;
using namespace domain;
static string six(double v) { char b[400]; snprintf(b, sizeof b, "%f", v); return b; }
static char const* const PLANES[] = { "YZ", "ZX", "XY" }; static char const* const AXES[] = { "X", "Y", "Z" };
static string pt(Point const& p) { return jarr(std::vector<string>{ six(p.x.value()), six(p.y.value()) }, jstr); }
static string nm(Normal n) { switch(n) { case Normal::XMIN: return "XMIN"; case Normal::XMAX: return "XMAX"; case Normal::YMIN: return "YMIN"; case Normal::YMAX: return "YMAX"; case Normal::ZMIN: return "ZMIN"; case Normal::ZMAX: return "ZMAX"; default: return "NONE"; } }
static string sx(Segment::Axis a) { switch(a) { case Segment::Axis::H: return "H"; case Segment::Axis::V: return "V"; case Segment::Axis::DIAGONAL: return "DIAGONAL"; default: return "POINT"; } }
static string dr(Edge::Direction d) { switch(d) { case Edge::Direction::XMIN: return "XMIN"; case Edge::Direction::XMAX: return "XMAX"; case Edge::Direction::YMIN: return "YMIN"; case Edge::Direction::YMAX: return "YMAX"; default: return "NONE"; } }
static string po(MeshlinePolicy::Policy p) { switch(p) { case MeshlinePolicy::Policy::ONELINE: return "ONELINE"; case MeshlinePolicy::Policy::HALFS: return "HALFS"; default: return "THIRDS"; } }
static string pn(MeshlinePolicy::Normal n) { switch(n) { case MeshlinePolicy::Normal::MIN: return "MIN"; case MeshlinePolicy::Normal::MAX: return "MAX"; default: return "NONE"; } }
static string ro(Polygon::Rotation r) { switch(r) { case Polygon::Rotation::CW: return "CW"; case Polygon::Rotation::CCW: return "CCW"; default: return "COLINEAR"; } }
static string id(std::size_t i) { return std::to_string(i); }
template<class T> static string sol(T* s) { auto* p = dynamic_cast<MeshlinePolicy*>(s); return p ? id(p->id) : ""; }
static string board(Board const& b) {
	J o;
	o.raw("polygons", jarr(AllPlane, [&](auto pl) { return jarr(b.get_polygons(pl), [&](auto const& g) { J j;
		j.str("id", id(g->id)).str("name", g->name).str("rot", ro(g->rotation));
		j.raw("edges", jarr(g->edges, [&](auto const& e) { auto const& s = e->get_current_state(); J k; k.str("id", id(e->id)).raw("p0", pt(e->p0())).raw("p1", pt(e->p1())).str("axis", sx(e->axis)).str("dir", dr(e->direction)).str("normal", nm(e->normal)).boolean("mesh", s.to_mesh).boolean("free", s.conflicts.empty()); return k.done(); }));
		return j.done(); }); }));
	o.raw("eip", jarr(AllPlane, [&](auto pl) { return jarr(b.get_conflicts_edge_in_polygons(pl), [&](auto const& c) { auto const& s = c->get_current_state(); J j;
		j.str("id", id(c->id)).str("edge", id(c->edge->id)).boolean("solved", s.solution != nullptr);
		j.raw("overlaps", jarr(s.overlaps, [&](auto const& x) { auto const& r = std::get<RANGE>(x); auto e = std::get<EDGE>(x); J k; k.str("polygon", id(std::get<POLYGON>(x)->id)).str("by", e ? id((*e)->id) : "").raw("p0", pt(r.p0())).raw("p1", pt(r.p1())).str("axis", sx(r.axis)); return k.done(); }));
		return j.done(); }); }));
	o.raw("colinear", jarr(AllAxis, [&](auto ax) { return jarr(b.get_conflicts_colinear_edges(ax), [&](auto const& c) { auto const& s = c->get_current_state(); J j;
		j.str("id", id(c->id)).str("axis", AXES[c->axis]).raw("edges", jarr(s.edges, [](auto const* e) { return jstr(id(e->id)); })).str("sol", sol(s.solution)); return j.done(); }); }));
	o.raw("close", jarr(AllAxis, [&](auto ax) { return jarr(b.get_conflicts_too_close_meshline_policies(ax), [&](auto const& c) { auto const& s = c->get_current_state(); J j;
		j.str("id", id(c->id)).raw("policies", jarr(c->meshline_policies, [](auto const* p) { return jstr(id(p->id)); })).str("sol", sol(s.solution)); return j.done(); }); }));
	o.raw("policies", jarr(AllAxis, [&](auto ax) { return jarr(b.get_meshline_policies(ax), [&](auto const& p) { auto const& s = p->get_current_state(); J j; string e;
		if(s.origins.size() == 1) if(auto* x = dynamic_cast<Edge*>(s.origins.front())) e = id(x->id);
		j.str("id", id(p->id)).str("policy", po(s.policy)).str("normal", pn(s.normal)).boolean("on", s.is_enabled).str("d", six(s.d)).str("edge", e); return j.done(); }); }));
	o.raw("intervals", jarr(AllAxis, [&](auto ax) { return jarr(b.get_intervals(ax), [&](auto const& i) { auto const& s = i->get_current_state(); J j;
		j.str("id", id(i->id)).str("dmax", six(s.dmax)).str("bl", std::to_string(s.before.lmin)).str("bs", six(s.before.smoothness)).str("al", std::to_string(s.after.lmin)).str("as", six(s.after.smoothness)).str("before", id(s.before.meshline_policy->id)).str("after", id(s.after.meshline_policy->id)); return j.done(); }); }));
	o.raw("lines", jarr(AllAxis, [&](auto ax) { return jarr(b.get_meshlines(ax), [&](auto const& m) { J j; j.str("id", id(m->id)).str("coord", six(m->coord.value())).str("interval", m->interval ? id(m->interval->id) : "").str("policy", m->policy ? id(m->policy->id) : ""); return j.done(); }); }));
	return o.done();
}
int main(int, char** argv) {
	install_crash_handler();
	app::OpenEMSH::Params prm; prm.force = true; prm.override_from_cli = [](domain::Params&) {};
	app::OpenEMSH oe(prm); auto& c = Caretaker::singleton();
	string const out = argv[1]; oe.set_output(out);
	string line;
	while(std::getline(std::cin, line)) {
		std::istringstream in(line); string op; in >> op; doing(line);
		if(op == "load") { string p; in >> p; oe.set_input(p); if(!oe.parse().has_value()) { fprintf(stderr, "cannot read %s\n", p.c_str()); return 3; } }
		else if(op == "next") { if(oe.can_run_a_next_step()) oe.run_next_step(); }
		else if(op == "prev") { if(oe.can_go_before()) oe.go_before_previous_step(); }
		else if(op == "undo") { std::size_t n = 1; in >> n; c.undo(n); }
		else if(op == "redo") { std::size_t n = 1; in >> n; c.redo(n); }
		else if(op == "all") { if(auto nx = oe.get_next_step(); nx && oe.can_run_a_next_step()) oe.run_from_step(nx.value()); }
		else if(op == "edit") {
			string rest; std::getline(in, rest); rest.erase(0, 1);
			auto e = make_edit(unconst(oe.get_board()), rest); if(!e) continue;
			oe.go_before(e->from); auto nx = oe.get_next_step(); e->apply(); oe.run_from_step(nx ? std::min(e->from, nx.value()) : e->from);
		} else if(op == "report") {
			J j; j.str("op", "report").raw("board", board(oe.get_board()));
			auto const before = dg::dump(oe.get_board()); auto const at = c.get_current_timepoint(); auto const points = c.get_history_root()->cluster(true).size();
			oe.set_output_format(app::OpenEMSH::Params::OutputFormat::PLANTUML);
			bool ok = oe.write().has_value();
			std::ifstream f(out); std::stringstream u; u << f.rdbuf(); std::remove(out.c_str());
			oe.set_output_format(app::OpenEMSH::Params::OutputFormat::PRETTYPRINT);
			std::ostringstream t; auto* old = std::cerr.rdbuf(t.rdbuf()); ok = oe.write().has_value() && ok; std::cerr.rdbuf(old);
			j.boolean("ok", ok).boolean("intact", before == dg::dump(oe.get_board()) && at == c.get_current_timepoint() && points == c.get_history_root()->cluster(true).size());
			j.str("uml", u.str()).str("txt", t.str()); puts(j.done().c_str());
		}
	}
}
