// Runs the real mesher step by step on random boards and records what it did.
// usage: h_mesher SEED COUNT FOCUS FLAVOUR     (FLAVOUR: mixed | rect | dense | diag | policies)
#include <map>
#include <memory>
#include <set>
#include "json.hpp"
#include "geo.hpp"
#include "domain/board.hpp"
#include "domain/conflicts/conflict_colinear_edges.hpp"
#include "domain/conflicts/conflict_diagonal_or_circular_zone.hpp"
#include "domain/conflicts/conflict_edge_in_polygon.hpp"
#include "domain/conflicts/conflict_too_close_meshline_policies.hpp"
#include "domain/geometrics/angle.hpp"
#include "domain/geometrics/edge.hpp"
#include "domain/geometrics/polygon.hpp"
#include "domain/mesh/interval.hpp"
#include "domain/mesh/meshline.hpp"
#include "domain/mesh/meshline_policy.hpp"
#include "utils/state_management.hpp"
using namespace domain;
using std::string;
static double unit = 1;
static long const S = 1024, W = 65536;
static bool exact = true;
static long sc(double v, long k) { double w = v / unit * double(k); if(!std::isfinite(w) || std::fabs(w) > 2e9) return 1999999999L; return std::lround(w); }
static long s(Coord c) { return sc(c.value(), S); }
static long w(Coord c) { double v = c.value() / unit * double(W); if(v != std::round(v)) exact = false; return sc(c.value(), W); }
static char const* name(Normal n) { switch(n) { case Normal::XMIN: return "XMIN"; case Normal::XMAX: return "XMAX"; case Normal::YMIN: return "YMIN"; case Normal::YMAX: return "YMAX"; case Normal::NONE: return "NONE"; default: return "?"; } }
static char const* name(MeshlinePolicy::Policy p) { switch(p) { case MeshlinePolicy::Policy::ONELINE: return "ONELINE"; case MeshlinePolicy::Policy::HALFS: return "HALFS"; default: return "THIRDS"; } }
static char const* name(MeshlinePolicy::Normal p) { switch(p) { case MeshlinePolicy::Normal::NONE: return "NONE"; case MeshlinePolicy::Normal::MIN: return "MIN"; default: return "MAX"; } }
static string l(std::vector<string> const& v) { string o = "["; for(auto& x : v) { if(o.size() > 1) o += ','; o += x; } return o + "]"; }
static string q(char const* c) { return string("\"") + c + "\""; }
static string n(long v) { return std::to_string(v); }
static string b(bool v) { return v ? "true" : "false"; }

struct PolyIn { std::vector<P2> pts; long z0, z1, prio, mat; bool flat; };
static PlaneSpace<std::vector<PolyIn>> in;
static std::set<string> parts; // components of the state to be recorded

static string state(Board const& bd) {
	exact = true;
	J j;
	std::map<void const*, std::pair<long,long>> E; // edge -> plane, flat index
	std::map<void const*, std::pair<long,long>> A, P, C, T, I;
	std::map<void const*, long> G;
	for(auto pl : AllPlane) { long i = 0, k = 0; for(auto const& pg : bd.get_polygons(pl)) { G[pg.get()] = ++k; for(auto const& e : pg->edges) E[e.get()] = { long(pl)+1, ++i }; }
		i = 0; for(auto const& a : bd.get_angles(pl)) A[a.get()] = { long(pl)+1, ++i }; }
	for(auto ax : AllAxis) {
		long i = 0; for(auto const& p : bd.get_meshline_policies(ax)) P[p.get()] = { long(ax)+1, ++i };
		i = 0; for(auto const& c : bd.get_conflicts_colinear_edges(ax)) C[static_cast<IMeshLineOrigin const*>(c.get())] = { long(ax)+1, ++i };
		i = 0; for(auto const& c : bd.get_conflicts_too_close_meshline_policies(ax)) T[static_cast<IMeshLineOrigin const*>(c.get())] = { long(ax)+1, ++i };
		i = 0; for(auto const& c : bd.get_intervals(ax)) I[c.get()] = { long(ax)+1, ++i };
	}
	std::map<void const*, std::pair<char,std::pair<long,long>>> O; // origins
	for(auto pl : AllPlane) { for(auto const& pg : bd.get_polygons(pl)) for(auto const& e : pg->edges) O[static_cast<IMeshLineOrigin const*>(e.get())] = { 'E', E[e.get()] };
		for(auto const& a : bd.get_angles(pl)) O[static_cast<IMeshLineOrigin const*>(a.get())] = { 'A', A[a.get()] }; }
	for(auto const& [c, x] : C) O[c] = { 'C', x };
	for(auto const& [c, x] : T) O[c] = { 'T', x };
	auto pol = [&](MeshlinePolicy const* p) { return p && P.contains(p) ? l({ n(P[p].first), n(P[p].second) }) : l({ n(0), n(p ? -1 : 0) }); };
	auto part = [&](char const* k, auto f) { if(parts.contains(k)) j.raw(k, f()); };
	auto planes = [&](auto f) { std::vector<string> v; for(auto pl : AllPlane) v.push_back(f(pl)); return l(v); };
	auto axes = [&](auto f) { std::vector<string> v; for(auto ax : AllAxis) v.push_back(f(ax)); return l(v); };
	part("ed", [&] { return planes([&](Plane pl) { std::vector<string> v; for(auto const& pg : bd.get_polygons(pl)) for(auto const& e : pg->edges) { auto const& st = e->get_current_state(); v.push_back(l({ b(st.to_mesh), b(st.to_reverse) })); } return l(v); }); });
	part("an", [&] { return planes([&](Plane pl) { return jarr(bd.get_angles(pl), [&](auto const& a) { auto const& st = a->get_current_state(); return l({ l({ n(s(a->p.x)), n(s(a->p.y)) }), n(E[a->e0].second), n(E[a->e1].second), n(std::lround(a->angle.value() * 1000)), l({ b(st.to_mesh[H]), b(st.to_mesh[V]) }), l({ n(w(a->p.x)), n(w(a->p.y)) }), n(E[a->e0].first), n(E[a->e1].first), n(long(a->plane) + 1) }); }); }); });
	part("zo", [&] { return axes([&](Axis ax) { return jarr(bd.get_conflicts_diagonal_or_circular_zones(ax), [&](auto const& z) { auto const& st = z->get_current_state();
		auto bo = z->bounding();
		return l({ jarr(st.angles, [&](auto const* a) { return l({ n(A[a].first), n(A[a].second) }); }), n(sc(st.dmax, W)), n(long(st.lmin)), n(std::lround(st.minimal_angle * 1000)),
			l({ n(w(bo[XMIN])), n(w(bo[XMAX])) }), jarr(st.intervals, [&](auto const* i) { return n(I[i].second); }), n(long(z->axis) + 1) }); }); }); });
	part("ei", [&] { return planes([&](Plane pl) { return jarr(bd.get_conflicts_edge_in_polygons(pl), [&](auto const& c) { auto const& st = c->get_current_state();
		return l({ n(E[c->edge].second), jarr(st.overlaps, [&](Overlap const& o) { auto const& r = std::get<RANGE>(o); auto e = std::get<EDGE>(o);
			return l({ n(G[std::get<POLYGON>(o)]), l({ n(s(r.p0().x)), n(s(r.p0().y)) }), l({ n(s(r.p1().x)), n(s(r.p1().y)) }), n(e ? E[*e].second : 0) }); }), b(st.is_solved) }); }); }); });
	part("ce", [&] { return axes([&](Axis ax) { return jarr(bd.get_conflicts_colinear_edges(ax), [&](auto const& c) { auto const& st = c->get_current_state();
		return l({ jarr(st.edges, [&](auto const* e) { return l({ n(E[e].first), n(E[e].second) }); }), pol(st.meshline_policy), b(st.is_solved), n(long(c->axis) + 1) }); }); }); });
	part("tc", [&] { return axes([&](Axis ax) { return jarr(bd.get_conflicts_too_close_meshline_policies(ax), [&](auto const& c) { auto const& st = c->get_current_state();
		return l({ n(P[c->meshline_policies[0]].second), n(P[c->meshline_policies[1]].second), n(P[st.meshline_policy].second), b(st.is_solved) }); }); }); });
	part("po", [&] { return axes([&](Axis ax) { return jarr(bd.get_meshline_policies(ax), [&](auto const& p) { auto const& st = p->get_current_state();
		string o = l({ q("F"), n(0), n(0) });
		if(st.origins.size() == 1) { auto it = O.find(st.origins[0]); o = it == O.end() ? l({ q("?"), n(0), n(0) }) : l({ string("\"") + it->second.first + "\"", n(it->second.second.first), n(it->second.second.second) }); }
		else if(st.origins.size() > 1) o = l({ q("M"), n(0), n(0) });
		return l({ q(name(st.policy)), q(name(st.normal)), n(w(p->coord)), b(st.is_enabled), n(sc(st.d, W)), o, n(long(p->axis) + 1) }); }); }); });
	part("iv", [&] { return axes([&](Axis ax) { return jarr(bd.get_intervals(ax), [&](auto const& i) { auto const& st = i->get_current_state();
		return l({ n(P[st.before.meshline_policy].second), n(P[st.after.meshline_policy].second), n(sc(2 * i->h.value(), W)), n(sc(2 * i->m.value(), W)), n(sc(st.dmax, W)), l({ n(long(st.before.lmin)), n(long(st.after.lmin)) }), l({ n(std::lround(st.before.smoothness * 1e6)), n(std::lround(st.after.smoothness * 1e6)) }),
			jarr(st.conflicts, [&](Conflict const* c) { long k = 0, r = 0; for(auto const& z : bd.get_conflicts_diagonal_or_circular_zones(ax)) { ++k; if(static_cast<Conflict const*>(z.get()) == c) r = k; } return n(r); }), n(long(i->axis) + 1) }); }); }); });
	part("li", [&] { return axes([&](Axis ax) { return jarr(bd.get_meshlines(ax), [&](auto const& m) { return l({ n(sc(m->coord.value(), W)), n(m->interval ? I[m->interval].second : 0), n(m->policy ? P[m->policy].second : 0) }); }); }); });
	part("pm", [&] { return axes([&](Axis ax) { return jarr(bd.get_meshline_policies_meshlines(ax), [&](auto const& m) { return n(sc(m->coord.value(), W)); }); }); });
	part("mg", [&] { return axes([&](Axis ax) { double g = 0.1; auto const& v = bd.get_meshlines(ax); for(std::size_t i = 1; i < v.size(); ++i) g = std::min(g, v[i]->coord.value() - v[i-1]->coord.value()); return n(std::lround(g * 1e10)); }); });
	if(parts.contains("nc")) j.num("nc", long(bd.get_mesh_cell_number()));
	j.boolean("x", exact);
	return j.done();
}

static string begin(Params const& p, long bg, AxisSpace<std::vector<long>> const& fixed, PlaneSpace<std::vector<std::vector<string>>> const& normals, string const& flavour) {
	J j; j.str("op", "begin").str("fl", flavour);
	std::vector<string> pls;
	for(auto pl : AllPlane) { std::vector<string> v; std::size_t k = 0;
		for(auto const& g : in[pl]) { J o; o.raw("p", jarr(g.pts, [](P2 p) { return jnums({p[0],p[1]}); })).raw("z", jnums({g.z0,g.z1})).num("pr", g.prio).num("m", g.mat).boolean("f", g.flat).raw("n", l(normals[pl][k++])); v.push_back(o.done()); }
		pls.push_back(l(v)); }
	j.raw("pl", l(pls)).num("bg", bg);
	std::vector<string> f; for(auto ax : AllAxis) f.push_back(jarr(fixed[ax], [](long x) { return n(x * (W/2)); }));
	j.raw("fx", l(f));
	J o; o.num("prox", sc(p.proximity_limit, W)).num("sm16", std::lround(p.smoothness * 16)).num("sm", std::lround(p.smoothness * 1e6)).num("lmin", long(p.lmin)).num("dmax", sc(p.dmax, W)).num("ddmax", sc(p.diagonal_dmax, W)).num("dlmin", long(p.diagonal_lmin)).num("mina", std::lround(p.consecutive_diagonal_minimal_angle * 1000));
	j.raw("par", o.done());
	return j.done();
}

int main(int argc, char** argv) {
	install_crash_handler();
	std::uint64_t seed = std::strtoull(argv[1], nullptr, 10); long count = atol(argv[2]); string focus = argc > 3 ? argv[3] : "ALL", flavour0 = argc > 4 ? argv[4] : "mixed";
	// per property: the steps after which the state is recorded, and the components recorded
	struct Plan { std::vector<string> steps; std::set<string> parts; };
	std::map<string, Plan> plans {
		{ "C15", {{ "ADJUST" }, { "ed" }} },
		{ "C16", {{ "ANGLES", "ZONES", "SOLVE_ANGLES", "INDIV", "INTERVALS_ZONES", "SOLVE_ZONES" }, { "ed", "an", "zo", "po", "iv" }} },
		{ "C09", {{ "EIP", "SOLVE_EIP" }, { "ed", "ei", "po" }} },
		{ "C08", {{ "CE", "SOLVE_CE" }, { "ed", "ce", "po" }} },
		{ "C10", {{ "FIXED", "SOLVE_CE", "INDIV" }, { "ed", "ce", "po", "an" }} },
		{ "C11", {{ "TCMLP" }, { "po", "tc" }} },
		{ "C12", {{ "INTERVALS" }, { "po", "iv" }} },
		{ "C13", {{ "MESH" }, { "po", "iv", "li", "pm", "nc", "mg" }} },
	};
	Plan plan = plans.contains(focus) ? plans[focus] : Plan{ { "ADJUST","ANGLES","ZONES","SOLVE_ANGLES","EIP","CE","FIXED","SOLVE_EIP","SOLVE_CE","INDIV","TCMLP","INTERVALS","INTERVALS_ZONES","SOLVE_ZONES","MESH" }, { "ed","an","zo","ei","ce","tc","po","iv","li","pm","nc","mg" } };
	parts = plan.parts;
	std::vector<string> const order { "ADJUST","ANGLES","ZONES","SOLVE_ANGLES","EIP","CE","FIXED","SOLVE_EIP","SOLVE_CE","INDIV","TCMLP","INTERVALS","INTERVALS_ZONES","SOLVE_ZONES","MESH" };
	for(long k = 0; k < count; ++k) {
		Rng r(seed * 1000003ULL + std::uint64_t(k));
		string flavour = flavour0;
		if(flavour == "mixed") { char const* f[] = { "rect", "dense", "diag", "any" }; flavour = f[rnd(r,0,3)]; }
		doing("building board seed " + std::to_string(seed) + " number " + std::to_string(k));
		Caretaker::singleton().reset();
		unit = std::ldexp(1.0, int(rnd(r, -3, 3)));
		Board::Builder builder;
		Material::Type const types[] = { Material::Type::AIR, Material::Type::DIELECTRIC, Material::Type::CONDUCTOR, Material::Type::PORT };
		long M = flavour == "dense" ? rnd(r, 4, 7) : rnd(r, 6, 14);
		bool small_z = chance(r, 50);
		for(auto pl : AllPlane) {
			in[pl].clear();
			long np = flavour == "policies" ? 0 : flavour == "dense" ? rnd(r, 2, 5) : rnd(r, 0, 4);
			if(chance(r, 15)) np = 0;
			for(long i = 0; i < np; ++i) {
				PolyIn g; g.flat = false;
				if(i && chance(r, 18)) { // shares its outline, or part of it, with another one
					g.pts = in[pl][std::size_t(rnd(r, 0, i-1))].pts; g.flat = in[pl].back().flat && false;
					auto [lox, hix] = std::minmax_element(g.pts.begin(), g.pts.end(), [](P2 a, P2 c) { return a[0] < c[0]; });
					auto [loy, hiy] = std::minmax_element(g.pts.begin(), g.pts.end(), [](P2 a, P2 c) { return a[1] < c[1]; });
					long x0 = (*lox)[0], x1 = (*hix)[0], y0 = (*loy)[1], y1 = (*hiy)[1];
					if(x0 == x1 || y0 == y1) { g.flat = true; }
					if(chance(r, 60) && !g.flat) { // a box on one of its sides
						switch(rnd(r, 0, 3)) { case 0: x0 = x1; x1 = std::min(M, x0 + rnd(r,1,3)); break; case 1: x1 = x0; x0 = std::max(0L, x1 - rnd(r,1,3)); break;
							case 2: y0 = y1; y1 = std::min(M, y0 + rnd(r,1,3)); break; default: y1 = y0; y0 = std::max(0L, y1 - rnd(r,1,3)); }
						if(x0 < x1 && y0 < y1) { if(chance(r,40)) { if(chance(r,50)) y0 = std::max(0L, y0-1); else y1 = std::min(M, y1+1); }
							g.pts = {{x0,y0},{x1,y0},{x1,y1},{x0,y1}}; }
					}
					if(chance(r, 50)) std::reverse(g.pts.begin(), g.pts.end());
				} else if(chance(r, flavour == "diag" ? 3 : 10)) { // flat box
					long a = rnd(r, 0, M-1), c = rnd(r, a+1, M), f = rnd(r, 0, M);
					if(chance(r, 50)) g.pts = {{a,f},{a,f},{c,f},{c,f}}; else g.pts = {{f,a},{f,c},{f,c},{f,a}};
					g.flat = true;
				} else g.pts = shape(r, M, flavour == "rect" || (flavour == "dense" && chance(r, 70)), flavour == "diag" && chance(r, 70) ? int(rnd(r, 4, 6)) : -1);
				g.z0 = rnd(r, 0, small_z ? 2 : 6); g.z1 = chance(r, 20) ? g.z0 : rnd(r, 0, small_z ? 2 : 6);
				g.prio = rnd(r, 0, chance(r, 50) ? 1 : 4); g.mat = rnd(r, 0, 3);
				in[pl].push_back(g);
			}
			for(auto const& g : in[pl]) {
				std::vector<std::unique_ptr<Point const>> ps;
				for(auto p : g.pts) ps.push_back(std::make_unique<Point const>(double(p[0]) * unit, double(p[1]) * unit));
				builder.add_polygon(pl, std::make_shared<Material>(types[g.mat], "m"), "p", std::size_t(g.prio), Polygon::RangeZ(double(g.z0) * unit, double(g.z1) * unit), std::move(ps));
			}
			for(auto& g : in[pl]) if(g.z0 > g.z1) std::swap(g.z0, g.z1);
		}
		long bg = rnd(r, -1, 3);
		if(bg >= 0) builder.set_background_material(std::make_shared<Material>(types[bg], "bg"));
		AxisSpace<std::vector<long>> fixed;
		for(auto ax : AllAxis) { long nf = flavour == "policies" ? rnd(r, 0, 12) : chance(r, 30) ? rnd(r, 1, 4) : 0; for(long i = 0; i < nf; ++i) { long c = rnd(r, 0, 2*M); fixed[ax].push_back(c); builder.add_fixed_meshline_policy(ax, double(c) * unit / 2); } }
		Params p;
		double const proxs[] = { 0, 0.25, 0.5, 1, 1, 2, 3 }, dmaxs[] = { 0.5, 1, 2, 2.5, 4, 8 }, ddmaxs[] = { 0.25, 0.5, 1, 3 }, angles[] = { 0, 20, 45, 60, 90, 135, 180 };
		p.proximity_limit = proxs[rnd(r,0,6)] * unit; if(p.proximity_limit == 0 && flavour != "rect" && flavour != "policies") p.proximity_limit = unit / 16; p.smoothness = double(rnd(r, 17, 32)) / 16; p.lmin = std::size_t(rnd(r, 0, 5)); p.dmax = dmaxs[rnd(r,0,5)] * unit;
		p.diagonal_dmax = ddmaxs[rnd(r,0,3)] * unit; p.diagonal_lmin = std::size_t(rnd(r, 0, 4)); p.consecutive_diagonal_minimal_angle = angles[rnd(r,0,6)];
		auto board = builder.build(Params(p));
		PlaneSpace<std::vector<std::vector<string>>> normals;
		for(auto pl : AllPlane) for(auto const& pg : board->get_polygons(pl)) { std::vector<string> v; for(auto const& e : pg->edges) v.push_back(q(name(e->normal))); normals[pl].push_back(v); }
		puts(begin(p, bg, fixed, normals, flavour).c_str());
		std::map<string, std::function<void()>> run {
			{ "ADJUST", [&] { board->adjust_edges_to_materials(); } }, { "ANGLES", [&] { board->detect_diagonal_angles(); } }, { "ZONES", [&] { board->detect_diagonal_zones(); } },
			{ "SOLVE_ANGLES", [&] { board->solve_diagonal_zones_angles(); } }, { "EIP", [&] { board->detect_edges_in_polygons(); } }, { "CE", [&] { board->detect_colinear_edges(); } },
			{ "FIXED", [&] { board->add_fixed_meshline_policies(); } }, { "SOLVE_EIP", [&] { board->auto_solve_all_edge_in_polygon(); } }, { "SOLVE_CE", [&] { board->auto_solve_all_colinear_edges(); } },
			{ "INDIV", [&] { board->detect_individual_edges(); } }, { "TCMLP", [&] { board->detect_and_solve_too_close_meshline_policies(); } }, { "INTERVALS", [&] { board->detect_intervals(); } },
			{ "INTERVALS_ZONES", [&] { board->detect_intervals_per_diagonal_zones(); } }, { "SOLVE_ZONES", [&] { board->solve_diagonal_zones_intervals(); } }, { "MESH", [&] { board->mesh(); } } };
		bool superimpose = chance(r, 15), ed_edges = chance(r, 40), ed_pol = chance(r, 30) || flavour == "policies", ed_int = chance(r, 25), ed_zone = chance(r, 30), ed_early = chance(r, 10);
		auto edit_edges = [&](int pc) { for(auto pl : AllPlane) for(auto const& pg : board->get_polygons(pl)) for(auto const& e : pg->edges) if(chance(r, pc)) { auto st = e->get_current_state(); if(chance(r, 50)) st.to_mesh = !st.to_mesh; else st.to_reverse = !st.to_reverse; e->set_next_state(st); } };
		bool fresh = false; // is the last recorded state still current
		string last_needed; for(auto const& st : order) if(std::find(plan.steps.begin(), plan.steps.end(), st) != plan.steps.end()) last_needed = st;
		for(auto const& step : order) {
			doing("step " + step + " of board seed " + std::to_string(seed) + " number " + std::to_string(k) + " flavour " + flavour0);
			// what a user may change before a step
			if(step == "ZONES" && ed_early) { edit_edges(25); fresh = false; }
			if(step == "SOLVE_ANGLES" || step == "SOLVE_ZONES") if(ed_zone) for(auto ax : AllAxis) for(auto const& z : board->get_conflicts_diagonal_or_circular_zones(ax)) if(chance(r, 60)) { auto st = z->get_current_state(); st.dmax = ddmaxs[rnd(r,0,3)] * unit; st.minimal_angle = angles[rnd(r,0,6)]; z->set_next_state(st); fresh = false; }
			if(step == "EIP" && ed_edges) { edit_edges(15); fresh = false; }
			if(step == "SOLVE_CE" && ed_edges && chance(r, 50)) { edit_edges(10); fresh = false; }
			if(step == "TCMLP" && flavour == "policies") { fresh = false; for(auto ax : AllAxis) for(auto const& po : board->get_meshline_policies(ax)) { auto st = po->get_current_state(); long c = rnd(r,0,3); st.policy = c == 0 ? MeshlinePolicy::Policy::ONELINE : c == 1 ? MeshlinePolicy::Policy::HALFS : MeshlinePolicy::Policy::THIRDS; st.normal = c == 2 ? MeshlinePolicy::Normal::MIN : c == 3 ? MeshlinePolicy::Normal::MAX : MeshlinePolicy::Normal::NONE; st.is_enabled = chance(r, 80); po->set_next_state(st); } }
			if(step == "INTERVALS" && ed_pol) { fresh = false; for(auto ax : AllAxis) { std::set<double> used; for(auto const& po : board->get_meshline_policies(ax)) if(po->get_current_state().is_enabled) used.insert(std::round(po->coord.value() * 1e6));
				for(auto const& po : board->get_meshline_policies(ax)) if(chance(r, 25)) { auto st = po->get_current_state();
					if(chance(r, 40)) { if(superimpose || st.is_enabled || !used.contains(std::round(po->coord.value() * 1e6))) { st.is_enabled = !st.is_enabled; if(st.is_enabled) used.insert(std::round(po->coord.value() * 1e6)); } }
					else { long c = rnd(r,0,3); st.policy = c == 0 ? MeshlinePolicy::Policy::ONELINE : c == 1 ? MeshlinePolicy::Policy::HALFS : MeshlinePolicy::Policy::THIRDS; st.normal = c == 2 ? MeshlinePolicy::Normal::MIN : c == 3 ? MeshlinePolicy::Normal::MAX : MeshlinePolicy::Normal::NONE; }
					if(chance(r, 10)) st.d = dmaxs[rnd(r,0,5)] * unit;
					po->set_next_state(st); } } }
			if(step == "MESH" && ed_int) { fresh = false; for(auto ax : AllAxis) for(auto const& i : board->get_intervals(ax)) if(chance(r, 30)) { auto const& st0 = i->get_current_state(); IntervalState st = { st0, st0.dmax, st0.before, st0.after }; if(chance(r,50)) st.dmax = dmaxs[rnd(r,0,5)] * unit; else if(chance(r,50)) { st.before.lmin = std::size_t(rnd(r,0,8)); st.after.smoothness = double(rnd(r,17,32))/16; } else { st.after.lmin = std::size_t(rnd(r,0,8)); st.before.smoothness = double(rnd(r,17,32))/16; } i->set_next_state(st); } }
			bool wanted = std::find(plan.steps.begin(), plan.steps.end(), step) != plan.steps.end();
			if(wanted && !fresh) { J j; j.str("op", "obs").raw("s", state(*board)); puts(j.done().c_str()); }
			run[step]();
			fresh = false;
			if(wanted) { J j; j.str("op", step).raw("s", state(*board)); puts(j.done().c_str()); fresh = true; }
			if(step == last_needed) break;
		}
	}
	return 0;
}
