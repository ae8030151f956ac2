// Editable items of the model: what the interface lets a user change, as text commands.
//   global PROX SMOOTH LMIN DMAX ANGLE DDMAX DLMIN | edge PLANE I MESH REVERSE | angle PLANE I H V
//   policy AXIS I POLICY NORMAL ENABLED D | interval AXIS I DMAX BL BS AL AS | zone AXIS I LMIN DMAX ANGLE
// I is taken modulo the number of items; NORMAL is ignored when the policy has no direction.
#pragma once
#include <cmath>
#include <functional>
#include <optional>
#include <sstream>
#include "digest.hpp"
#include "app/openemsh.hpp"
struct Edit { std::string target, key; app::Step from; std::function<void()> apply; std::function<bool()> in_effect; bool global = false; std::vector<std::string> fields; Entity const* entity = nullptr; };
inline bool same(double a, double b) { return a == b || std::fabs(a - b) <= 1e-9 * std::max(std::fabs(a), std::fabs(b)); }
inline void set_globals(domain::Params& p, std::istream& in) { in >> p.proximity_limit >> p.smoothness >> p.lmin >> p.dmax >> p.consecutive_diagonal_minimal_angle >> p.diagonal_dmax >> p.diagonal_lmin; }
inline std::optional<Edit> make_edit(domain::Board& bd, std::string const& text) {
	using namespace domain;
	std::istringstream in(text); std::string kind; in >> kind;
	Edit e; std::string w;
	if(kind == "global") {
		while(in >> w) e.fields.push_back(w);
		e.target = "global"; e.key = text; e.from = app::Step::DETECT_DIAG_ZONES; e.global = true; 
		auto* g = bd.global_params.get(); std::string rest = text.substr(6);
		e.apply = [g, rest] { auto p = g->get_current_state(); std::istringstream i(rest); set_globals(p, i); g->set_next_state(p); };
		e.in_effect = [g, rest] { auto const& c = g->get_current_state(); Params p = c; std::istringstream i(rest); set_globals(p, i);
			return same(p.proximity_limit, c.proximity_limit) && same(p.smoothness, c.smoothness) && p.lmin == c.lmin && same(p.dmax, c.dmax) && same(p.consecutive_diagonal_minimal_angle, c.consecutive_diagonal_minimal_angle) && same(p.diagonal_dmax, c.diagonal_dmax) && p.diagonal_lmin == c.diagonal_lmin; };
		return e;
	}
	long a = 0; std::size_t i = 0; in >> a >> i; while(in >> w) e.fields.push_back(w);
	auto D = [f = e.fields](std::size_t k) { return std::stod(f[k]); }; auto U = [f = e.fields](std::size_t k) { return std::size_t(std::stoul(f[k])); }; auto B = [f = e.fields](std::size_t k) { return f[k] != "0"; };
	auto fin = [&](std::size_t n) { e.target = kind + " " + std::to_string(a) + " " + std::to_string(i % n); e.key = e.target; for(auto& f : e.fields) e.key += " " + f; };
	if(kind == "edge") {
		std::vector<Edge*> v; for(auto const& pg : bd.get_polygons(Plane(a))) for(auto const& x : pg->edges) v.push_back(x.get());
		if(v.empty()) return std::nullopt; auto* x = v[i % v.size()]; fin(v.size()); e.entity = static_cast<Entity const*>(x); e.from = app::Step::DETECT_CONFLICT_EIP;
		e.apply = [x, B] { auto s = x->get_current_state(); s.to_mesh = B(0); s.to_reverse = B(1); x->set_next_state(s); };
		e.in_effect = [x, B] { auto const& s = x->get_current_state(); return (B(0) || !s.to_mesh) && s.to_reverse == B(1); };
	} else if(kind == "angle") {
		auto const& v = bd.get_angles(Plane(a)); if(v.empty()) return std::nullopt; auto* x = v[i % v.size()].get(); fin(v.size()); e.entity = static_cast<Entity const*>(x); e.from = app::Step::DETECT_CONFLICT_EIP;
		e.apply = [x, B] { auto s = x->get_current_state(); s.to_mesh[H] = B(0); s.to_mesh[V] = B(1); x->set_next_state(s); };
		e.in_effect = [x, B] { auto const& s = x->get_current_state(); return s.to_mesh[H] == B(0) && s.to_mesh[V] == B(1); };
	} else if(kind == "policy") {
		auto const& v = bd.get_meshline_policies(Axis(a)); if(v.empty()) return std::nullopt; auto* x = v[i % v.size()].get(); e.entity = static_cast<Entity const*>(x); e.from = app::Step::DETECT_INTERVALS;
		auto P = MeshlinePolicy::Policy(U(0) % 3); auto N = P == MeshlinePolicy::Policy::THIRDS ? (U(1) % 2 ? MeshlinePolicy::Normal::MIN : MeshlinePolicy::Normal::MAX) : MeshlinePolicy::Normal::NONE;
		e.fields[0] = std::to_string(int(P)); e.fields[1] = std::to_string(int(N)); fin(v.size());
		e.apply = [x, P, N, B, D] { auto s = x->get_current_state(); s.policy = P; s.normal = N; s.is_enabled = B(2); s.d = D(3); x->set_next_state(s); };
		e.in_effect = [x, P, N, B] { auto const& s = x->get_current_state(); return s.policy == P && s.normal == N && s.is_enabled == B(2); };
	} else if(kind == "interval") {
		auto const& v = bd.get_intervals(Axis(a)); if(v.empty()) return std::nullopt; auto* x = v[i % v.size()].get(); fin(v.size()); e.entity = static_cast<Entity const*>(x); e.from = app::Step::MESH;
		e.apply = [x, U, D] { auto s = x->get_current_state(); s.dmax = D(0); s.before.lmin = U(1); s.before.smoothness = D(2); s.after.lmin = U(3); s.after.smoothness = D(4); x->set_next_state(s); };
		e.in_effect = [x, U, D] { auto const& s = x->get_current_state(); return s.dmax <= D(0) * (1 + 1e-9) && s.before.lmin == U(1) && s.after.lmin == U(3) && s.before.smoothness <= D(2) + 1e-9 && s.after.smoothness <= D(4) + 1e-9; };
	} else if(kind == "zone") {
		auto const& v = bd.get_conflicts_diagonal_or_circular_zones(Axis(a)); if(v.empty()) return std::nullopt; auto* x = v[i % v.size()].get(); fin(v.size()); e.entity = static_cast<Entity const*>(x);
		e.from = x->get_current_state().minimal_angle != D(2) ? app::Step::SOLVE_DIAG_ZONES_ANGLES : app::Step::SOLVE_DIAG_ZONES_INTERVALS;
		e.apply = [x, U, D] { auto s = x->get_current_state(); s.lmin = U(0); s.dmax = D(1); s.minimal_angle = D(2); x->set_next_state(s); };
		e.in_effect = [x, U, D] { auto const& s = x->get_current_state(); return s.lmin == U(0) && same(s.dmax, D(1)) && same(s.minimal_angle, D(2)); };
	} else return std::nullopt;
	return e;
}
inline char const* const step_names[] = { "", "ADJUST_EDGE_TO_MATERIAL" };
inline void direct_step(domain::Board& b, int k) {
	switch(k) {
	case 1: b.adjust_edges_to_materials(); break; case 2: b.detect_diagonal_angles(); break; case 3: b.detect_diagonal_zones(); break; case 4: b.solve_diagonal_zones_angles(); break;
	case 5: b.detect_edges_in_polygons(); break; case 6: b.detect_colinear_edges(); break; case 7: b.add_fixed_meshline_policies(); break; case 8: b.auto_solve_all_edge_in_polygon(); break;
	case 9: b.auto_solve_all_colinear_edges(); break; case 10: b.detect_individual_edges(); break; case 11: b.detect_and_solve_too_close_meshline_policies(); break; case 12: b.detect_intervals(); break;
	case 13: b.detect_intervals_per_diagonal_zones(); break; case 14: b.solve_diagonal_zones_intervals(); break; case 15: b.mesh(); break;
	}
}
