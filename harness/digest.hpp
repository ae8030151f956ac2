// A full projection of the model through its getters, independent of addresses.
#pragma once
#include <algorithm>
#include <cstdint>
#include <map>
#include <sstream>
#include <string>
#include <vector>
#include "domain/board.hpp"
#include "domain/material.hpp"
#include "domain/conflicts/conflict_colinear_edges.hpp"
#include "domain/conflicts/conflict_diagonal_or_circular_zone.hpp"
#include "domain/conflicts/conflict_edge_in_polygon.hpp"
#include "domain/conflicts/conflict_too_close_meshline_policies.hpp"
#include "domain/geometrics/angle.hpp"
#include "domain/geometrics/edge.hpp"
#include "domain/geometrics/polygon.hpp"
#include "domain/mesh/interval.hpp"
#include "domain/mesh/meshline.hpp"
#include "domain/mesh/meshline_policy.hpp"
#include "utils/state_management.hpp"
#include "utils/unconst.hpp"
namespace dg {
using namespace domain;
inline std::string num(double v) { char b[40]; snprintf(b, sizeof b, "%.17g", v); return b; }
template<class A> std::string join(std::vector<A> v, bool sorted = false) { if(sorted) std::sort(v.begin(), v.end()); std::string o = "("; for(auto& x : v) { o += x; o += ' '; } return o + ")"; }

inline std::string dump(Board const& bd) {
	std::map<void const*, std::string> N; // every address an object may be referred to by -> its canonical name
	auto name = [&](char const* k, long a, long i) { return std::string(k) + std::to_string(a) + "." + std::to_string(i); };
	for(auto pl : AllPlane) {
		long i = 0, k = 0;
		for(auto const& pg : bd.get_polygons(pl)) { N[pg.get()] = name("G", pl, k++);
			for(auto const& e : pg->edges) { auto n = name("E", pl, i++); N[e.get()] = n; N[static_cast<IMeshLineOrigin*>(e.get())] = n; N[static_cast<IConflictSolution*>(e.get())] = n; } }
		i = 0; for(auto const& a : bd.get_angles(pl)) { auto n = name("A", pl, i++); N[a.get()] = n; N[static_cast<IMeshLineOrigin*>(a.get())] = n; }
		i = 0; for(auto const& c : bd.get_conflicts_edge_in_polygons(pl)) { auto n = name("X", pl, i++); N[c.get()] = n; N[static_cast<Conflict*>(c.get())] = n; N[static_cast<IMeshLineOrigin*>(c.get())] = n; }
	}
	for(auto ax : AllAxis) {
		auto add = [&](char const* k, auto const& v) { long i = 0; for(auto const& p : v) { auto n = name(k, ax, i++); N[p.get()] = n;
			using T = std::remove_reference_t<decltype(*p)>;
			if constexpr(std::is_base_of_v<Conflict, T>) N[static_cast<Conflict*>(p.get())] = n;
			if constexpr(std::is_base_of_v<IMeshLineOrigin, T>) N[static_cast<IMeshLineOrigin*>(p.get())] = n;
			if constexpr(std::is_base_of_v<IConflictSolution, T>) N[static_cast<IConflictSolution*>(p.get())] = n; } };
		add("P", bd.get_meshline_policies(ax)); add("C", bd.get_conflicts_colinear_edges(ax)); add("T", bd.get_conflicts_too_close_meshline_policies(ax));
		add("Z", bd.get_conflicts_diagonal_or_circular_zones(ax)); add("I", bd.get_intervals(ax)); add("L", bd.get_meshlines(ax));
	}
	auto ref = [&](void const* p) { if(!p) return std::string("-"); auto it = N.find(p); return it == N.end() ? std::string("?") : it->second; };
	auto refs = [&](auto const& v) { std::vector<std::string> o; for(auto const* p : v) o.push_back(ref(p)); return join(o, true); };
	std::ostringstream o;
	auto const& g = bd.global_params->get_current_state();
	o << "G " << num(g.proximity_limit) << ' ' << num(g.smoothness) << ' ' << g.lmin << ' ' << num(g.dmax) << ' ' << g.diagonal_lmin << ' ' << num(g.diagonal_dmax) << ' ' << num(g.consecutive_diagonal_minimal_angle) << ' ' << g.has_grid_already << '\n';
	o << "bg " << (bd.material ? int(bd.material->type) : -1) << '\n';
	for(auto pl : AllPlane) o << "fx" << bd.fixed_meshline_policy_creators[Axis(int(pl))].size();
	for(auto pl : AllPlane) {
		for(auto const& pg : bd.get_polygons(pl)) { o << "\n" << ref(pg.get()) << ' ' << pg->name << ' ' << pg->priority << ' ' << int(pg->material->type) << ' ' << num(pg->z_placement.min.value()) << ' ' << num(pg->z_placement.max.value());
			for(auto const& e : pg->edges) { auto const& s = e->get_current_state();
				o << "\n " << ref(e.get()) << ' ' << num(e->p0().x.value()) << ' ' << num(e->p0().y.value()) << ' ' << num(e->p1().x.value()) << ' ' << num(e->p1().y.value()) << ' ' << int(e->normal) << " m" << s.to_mesh << " r" << s.to_reverse << ' ' << ref(s.meshline_policy) << ' ' << refs(s.conflicts) << ' ' << ref(s.conflict); } }
		for(auto const& a : bd.get_angles(pl)) { auto const& s = a->get_current_state();
			o << "\n" << ref(a.get()) << ' ' << num(a->p.x.value()) << ' ' << num(a->p.y.value()) << ' ' << num(a->angle.value()) << ' ' << ref(a->e0) << ref(a->e1) << " m" << s.to_mesh[H] << s.to_mesh[V] << ' ' << ref(s.meshline_policy) << ' ' << refs(s.conflicts); }
		for(auto const& c : bd.get_conflicts_edge_in_polygons(pl)) { auto const& s = c->get_current_state();
			std::vector<std::string> ov; for(auto const& x : s.overlaps) { auto const& r = std::get<RANGE>(x); auto e = std::get<EDGE>(x); ov.push_back(ref(std::get<POLYGON>(x)) + ":" + num(r.p0().x.value()) + ":" + num(r.p0().y.value()) + ":" + num(r.p1().x.value()) + ":" + num(r.p1().y.value()) + ":" + (e ? ref(*e) : "-")); }
			o << "\n" << ref(c.get()) << ' ' << ref(c->edge) << ' ' << join(ov, true) << ' ' << s.is_solved << ' ' << ref(s.solution) << ref(s.meshline_policy); }
	}
	for(auto ax : AllAxis) {
		for(auto const& c : bd.get_conflicts_colinear_edges(ax)) { auto const& s = c->get_current_state(); o << "\n" << ref(c.get()) << ' ' << refs(s.edges) << ' ' << s.is_solved << ' ' << ref(s.solution) << ' ' << ref(s.meshline_policy); }
		for(auto const& c : bd.get_conflicts_too_close_meshline_policies(ax)) { auto const& s = c->get_current_state(); o << "\n" << ref(c.get()) << ' ' << ref(c->meshline_policies[0]) << ref(c->meshline_policies[1]) << ' ' << s.is_solved << s.is_enabled << ' ' << ref(s.solution) << ' ' << ref(s.meshline_policy); }
		for(auto const& c : bd.get_conflicts_diagonal_or_circular_zones(ax)) { auto const& s = c->get_current_state(); o << "\n" << ref(c.get()) << ' ' << num(s.dmax) << ' ' << s.lmin << ' ' << num(s.minimal_angle) << ' ' << refs(s.angles) << ' ' << refs(s.intervals) << ' ' << s.is_solved << ' ' << ref(s.solution) << ref(s.meshline_policy); }
		for(auto const& p : bd.get_meshline_policies(ax)) { auto const& s = p->get_current_state(); o << "\n" << ref(p.get()) << ' ' << num(p->coord.value()) << ' ' << int(s.policy) << int(s.normal) << s.is_enabled << ' ' << num(s.d) << ' ' << refs(s.origins) << ' ' << s.meshlines.size() << ' ' << refs(s.conflicts) << ' ' << ref(s.conflict); }
		for(auto const& i : bd.get_intervals(ax)) { auto const& s = i->get_current_state(); auto side = [&](auto const& d) { std::string x = ref(d.meshline_policy) + " " + std::to_string(d.lmin) + " " + num(d.smoothness); for(auto l : d.ls) x += " " + num(l.value()); return x; };
			o << "\n" << ref(i.get()) << ' ' << num(i->h.value()) << ' ' << num(i->m.value()) << ' ' << num(s.dmax) << " [" << side(s.before) << "] [" << side(s.after) << "] " << refs(s.conflicts); }
		for(auto const& m : bd.get_meshlines(ax)) o << "\n" << ref(m.get()) << ' ' << num(m->coord.value()) << ' ' << ref(m->interval) << ' ' << ref(m->policy);
		o << "\nF"; for(auto const& m : bd.get_meshline_policies_meshlines(ax)) o << ' ' << num(m->coord.value());
	}
	o << "\ncells " << bd.get_mesh_cell_number() << '\n';
	return o.str();
}
inline std::string hash(std::string const& s) {
	std::uint64_t a = 1469598103934665603ULL, b = 7809847782465536322ULL;
	for(unsigned char c : s) { a = (a ^ c) * 1099511628211ULL; b = (b + c) * 6364136223846793005ULL + 1442695040888963407ULL; }
	char t[40]; snprintf(t, sizeof t, "%016llx%08llx", (unsigned long long) a, (unsigned long long)(b >> 32)); return t;
}
} // namespace dg
