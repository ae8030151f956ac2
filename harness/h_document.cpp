// Reads documents with the application's own session object, as asked on stdin, one command per line, and prints what came out of them.
//   parse PATH yz zx xy readparams keepgrid [key=value ...] | mesh PATH yz zx xy readparams keepgrid [key=value ...]
#include <cmath>
#include <iostream>
#include <set>
#include "json.hpp"
#include "digest.hpp"
#include "app/openemsh.hpp"
#include "domain/mesh/meshline.hpp"
#include "utils/logger.hpp"
using std::string; using std::vector; using namespace domain;
static vector<Logger::LogEvent> logged;
struct Sink : Logger::ISink { Logger::UserAction log(Logger::LogEvent const& e) const override { logged.push_back(e); return Logger::UserAction::NOTHING; } };
static bool exact = true;
static long milli(Coord c) { double v = c.value() * 1000, r = std::round(v); if(std::abs(v - r) > 1e-6) exact = false; if(!(std::abs(r) < 2e9)) { exact = false; return 2000000000; } return long(r); }
static char const* kind(Material::Type t) { switch(t) { case Material::Type::PORT: return "port"; case Material::Type::CONDUCTOR: return "conductor"; case Material::Type::DIELECTRIC: return "dielectric"; case Material::Type::AIR: return "air"; } return "?"; }
static string colour(std::optional<Material::Color> const& c) { return c ? jnums({ c->r, c->g, c->b, c->a }) : "[]"; }
static string words(string const& s) { // "a, b, c" as a sorted list
	std::set<string> o; std::size_t i = 0; while(i <= s.size() && !s.empty()) { auto k = s.find(", ", i); if(k == string::npos) k = s.size(); o.insert(s.substr(i, k - i)); i = k + 2; }
	return jarr(o, [](string const& x) { return jstr(x); });
}
int main() {
	install_crash_handler();
	Logger::singleton().register_sink(Logger::id("Check"), std::make_unique<Sink>());
	string line;
	while(std::getline(std::cin, line)) {
		std::istringstream in(line); string op, path, kv; int yz, zx, xy, rp, kg; in >> op >> path >> yz >> zx >> xy >> rp >> kg; doing(line); logged.clear();
		vector<std::pair<string, string>> over; while(in >> kv) over.emplace_back(kv.substr(0, kv.find('=')), kv.substr(kv.find('=') + 1));
		app::OpenEMSH::Params p; p.input = path; p.with_yz = yz; p.with_zx = zx; p.with_xy = xy; p.read_oemsh_params = rp; p.keep_old_mesh = kg;
		p.override_from_cli = [&](domain::Params& q) { for(auto const& [k, v] : over) {
			if(k == "pl") q.proximity_limit = std::stod(v); else if(k == "sm") q.smoothness = std::stod(v); else if(k == "dm") q.dmax = std::stod(v); else if(k == "lm") q.lmin = std::stoul(v);
			else if(k == "dd") q.diagonal_dmax = std::stod(v); else if(k == "dl") q.diagonal_lmin = std::stoul(v); else if(k == "da") q.consecutive_diagonal_minimal_angle = std::stod(v);
			else if(k == "f") q.input_fixed_meshlines.emplace_back(v[0] == 'x' ? X : v[0] == 'y' ? Y : Z, std::stod(v.substr(2))); } };
		app::OpenEMSH oe(p);
		auto r = oe.parse(); J j;
		j.boolean("ok", r.has_value());
		if(!r.has_value()) { puts(j.boolean("why", !r.error().empty()).done().c_str()); fflush(stdout); continue; }
		auto const& b = oe.get_board();
		if(op == "parse") {
			j.raw("planes", jarr(AllPlane, [&](Plane pl) { return jarr(b.get_polygons(pl), [&](auto const& g) {
				J o; exact = true; string pts = jarr(g->points, [](auto const& q) { return jnums({ milli(q->x), milli(q->y) }); }); bool ex = exact; exact = true;
				long lo = milli(g->z_placement.min), hi = milli(g->z_placement.max);
				return o.str("name", g->name).str("pr", g->priority == std::numeric_limits<std::size_t>::max() ? "max" : std::to_string(g->priority)).str("mt", kind(g->material->type)).str("mn", g->material->name).raw("fc", colour(g->material->fill_color)).raw("ec", colour(g->material->edge_color)).raw("z", jnums({ lo, hi })).boolean("ex", ex).boolean("zx", exact).raw("pts", pts).done(); }); }));
			auto const& g = b.global_params->get_current_state();
			J q; q.str("pl", dg::num(g.proximity_limit)).str("sm", dg::num(g.smoothness)).str("dm", dg::num(g.dmax)).str("lm", std::to_string(g.lmin)).str("dd", dg::num(g.diagonal_dmax)).str("dl", std::to_string(g.diagonal_lmin)).str("da", dg::num(g.consecutive_diagonal_minimal_angle));
			j.raw("params", q.done()).boolean("grid", g.has_grid_already);
			j.str("bg", b.material ? kind(b.material->type) : "");
			j.raw("warn", jarr(logged, [](auto const& e) { J w; return w.boolean("w", e.level == Logger::Level::WARNING).str("m", e.message).raw("types", words(e.informative)).raw("names", words(e.details)).done(); }));
			unconst(oe.get_board()).add_fixed_meshline_policies(); exact = true;
			j.raw("fixed", jarr(AllAxis, [&](Axis a) { std::set<long> s; for(auto const& m : b.get_meshline_policies(a)) s.insert(milli(m->coord)); return jnums(vector<long>(s.begin(), s.end())); })).boolean("fx", exact);
		} else {
			oe.run_all_steps();
			j.raw("ml", jarr(AllAxis, [&](Axis a) { return jarr(b.get_meshlines(a), [](auto const& m) { return jstr(dg::num(m->coord.value())); }); }));
			j.raw("pol", jarr(AllAxis, [&](Axis a) { return jarr(b.get_meshline_policies_meshlines(a), [](auto const& m) { return jstr(dg::num(m->coord.value())); }); }));
		}
		puts(j.done().c_str()); fflush(stdout);
	}
	return 0;
}
