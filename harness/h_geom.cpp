// Records what the real geometry code says about segments, points and polygons.
// usage: h_geom SEED NSEG NPOLY GRID | h_geom enum N
#include <memory>
#include "json.hpp"
#include "geo.hpp"
#include "domain/geometrics/edge.hpp"
#include "domain/geometrics/point.hpp"
#include "domain/geometrics/polygon.hpp"
#include "domain/geometrics/range.hpp"
#include "domain/geometrics/segment.hpp"
#include "utils/state_management.hpp"
using namespace domain;
static long const S = 1024;
struct Map { double off[2]; double unit; Point at(P2 p) const { return Point(off[0] + unit * double(p[0]), off[1] + unit * double(p[1])); }
	long back(double v, int i) const { double w = (v - off[i]) / unit * double(S); return std::isfinite(w) && std::fabs(w) < 1e8 ? std::lround(w) : 99999999L; } };
static char const* name(relation::SegmentSegment r) {
	switch(r) { case relation::SegmentSegment::APART: return "APART"; case relation::SegmentSegment::CROSSING: return "CROSSING";
	case relation::SegmentSegment::COLINEAR: return "COLINEAR"; default: return "OVERLAPPING"; } }
static char const* name(relation::PolygonPoint r) { switch(r) { case relation::PolygonPoint::IN: return "IN"; case relation::PolygonPoint::ON: return "ON"; default: return "OUT"; } }
static char const* name(Normal n) { switch(n) { case Normal::XMIN: return "XMIN"; case Normal::XMAX: return "XMAX"; case Normal::YMIN: return "YMIN"; case Normal::YMAX: return "YMAX"; case Normal::NONE: return "NONE"; default: return "?"; } }
static char const* name(Segment::Axis a) { switch(a) { case Segment::Axis::H: return "H"; case Segment::Axis::V: return "V"; case Segment::Axis::DIAGONAL: return "D"; default: return "P"; } }
static char const* name(Edge::Direction n) { switch(n) { case Edge::Direction::XMIN: return "XMIN"; case Edge::Direction::XMAX: return "XMAX"; case Edge::Direction::YMIN: return "YMIN"; case Edge::Direction::YMAX: return "YMAX"; default: return "NONE"; } }
static std::string jp(P2 p) { return jnums({p[0], p[1]}); }
static std::string jp(Map const& m, Point const& p) { return jnums({ m.back(p.x.value(), 0), m.back(p.y.value(), 1) }); }
static std::string jr(Map const& m, std::optional<Range> const& r) { return r ? "[" + jp(m, r->p0()) + "," + jp(m, r->p1()) + "]" : "[]"; }

static void seg(Map const& m, P2 a, P2 b, P2 c, P2 d, bool edges, std::vector<P2> const& pts) {
	doing("segments");
	Point pa(m.at(a)), pb(m.at(b)), pc(m.at(c)), pd(m.at(d));
	Caretaker ct;
	std::unique_ptr<Segment> s, t;
	if(edges) { s = std::make_unique<Edge>(XY, &pa, &pb, ct.get_current_timepoint()); t = std::make_unique<Edge>(XY, &pc, &pd, ct.get_current_timepoint()); }
	else { s = std::make_unique<Range>(pa, pb); t = std::make_unique<Range>(pc, pd); }
	J j;
	j.str("op", "begin").str("k", "seg").raw("s", "[" + jp(a) + "," + jp(b) + "]").raw("t", "[" + jp(c) + "," + jp(d) + "]");
	j.str("rel", name(s->relation_to(*t))).str("rev", name(t->relation_to(*s)));
	j.str("as", name(s->axis)).str("at", name(t->axis));
	auto i = intersection(*s, *t), i2 = intersection(*t, *s);
	j.raw("int", i ? jp(m, *i) : "[]").raw("int2", i2 ? jp(m, *i2) : "[]");
	j.raw("ov", jr(m, overlap(*s, *t))).raw("ov2", jr(m, overlap(*t, *s)));
	j.raw("mg", jr(m, merge(*s, *t))).raw("mg2", jr(m, merge(*t, *s)));
	j.raw("mid", jp(m, mid(*s)));
	j.raw("pts", jarr(pts, [&](P2 p) { return "[" + jp(p) + "," + (s->relation_to(m.at(p)) == relation::SegmentPoint::ON ? "true" : "false") + "]"; }));
	puts(j.done().c_str());
}
static void poly(Map const& m, std::vector<P2> const& v, std::vector<P2> const& pts, Plane plane, double z0, double z1) {
	doing("polygon");
	Caretaker ct;
	std::vector<std::unique_ptr<Point const>> ps;
	for(auto p : v) ps.push_back(std::make_unique<Point const>(m.at(p)));
	auto pg = std::make_shared<Polygon>(plane, std::make_shared<Material>(Material::Type::CONDUCTOR, "m"), "p", 1, Polygon::RangeZ(z0, z1), std::move(ps), ct.get_current_timepoint());
	J j;
	j.str("op", "begin").str("k", "poly").raw("poly", jarr(v, [](P2 p) { return jp(p); }));
	j.str("rot", pg->rotation == Polygon::Rotation::CW ? "CW" : pg->rotation == Polygon::Rotation::CCW ? "CCW" : "COLINEAR");
	j.raw("box", jnums({ m.back(pg->bounding[XMIN].value(), 0), m.back(pg->bounding[XMAX].value(), 0), m.back(pg->bounding[YMIN].value(), 1), m.back(pg->bounding[YMAX].value(), 1) }));
	j.raw("edges", jarr(pg->edges, [&](auto const& e) { return "[" + jp(m, e->p0()) + "," + jp(m, e->p1()) + ",\"" + name(e->axis) + "\",\"" + name(e->direction) + "\",\"" + name(e->normal) + "\"]"; }));
	j.raw("pts", jarr(pts, [&](P2 p) { return "[" + jp(p) + ",\"" + name(pg->relation_to(m.at(p))) + "\"]"; }));
	puts(j.done().c_str());
}
int main(int argc, char** argv) {
	install_crash_handler();
	std::string a1 = argc > 1 ? argv[1] : "1";
	Map unit{{0,0},1};
	if(a1 == "enum") {
		long N = atol(argv[2]);
		std::vector<P2> g; for(long x = 0; x <= N; ++x) for(long y = 0; y <= N; ++y) g.push_back({x,y});
		for(auto a : g) for(auto b : g) if(a != b) for(auto c : g) for(auto d : g) if(c != d) seg(unit, a, b, c, d, false, g);
		return 0;
	}
	Rng r(std::strtoull(a1.c_str(), nullptr, 10));
	long nseg = atol(argv[2]), npoly = atol(argv[3]), G = atol(argv[4]);
	auto map = [&] { Map m; m.unit = std::ldexp(1.0, int(rnd(r, -5, 4))); m.off[0] = double(rnd(r, -200, 200)) * m.unit; m.off[1] = double(rnd(r, -200, 200)) * m.unit; return m; };
	auto pt = [&] { return P2{rnd(r,0,G), rnd(r,0,G)}; };
	for(long i = 0; i < nseg; ++i) {
		P2 a = pt(), b = pt(); if(a == b) continue;
		P2 c = pt(), d = pt();
		if(chance(r, 50)) { // colinear or parallel
			long dx = b[0]-a[0], dy = b[1]-a[1]; long g = std::gcd(std::labs(dx), std::labs(dy)); dx /= g; dy /= g;
			long k = rnd(r, -3, 4), l = rnd(r, -3, 4); c = {a[0]+k*dx, a[1]+k*dy}; d = {a[0]+l*dx, a[1]+l*dy};
			if(chance(r, 25)) { P2 sh{rnd(r,-1,1), rnd(r,-1,1)}; for(int q : {0,1}) { c[q] += sh[q]; d[q] += sh[q]; } }
		} else if(chance(r, 30)) c = chance(r, 50) ? a : b;
		if(c == d) continue;
		std::vector<P2> pts; for(int q = 0; q < 6; ++q) pts.push_back(pt());
		pts.push_back(a); pts.push_back(c); pts.push_back({(a[0]+b[0])/2,(a[1]+b[1])/2}); pts.push_back({2*b[0]-a[0],2*b[1]-a[1]});
		seg(map(), a, b, c, d, chance(r, 50), pts);
	}
	for(long i = 0; i < npoly; ++i) {
		long M = rnd(r, 3, G);
		auto v = shape(r, M, chance(r, 30));
		if(chance(r, 50)) { for(auto& p : v) { p[0] *= 2; p[1] *= 2; } M *= 2; }
		std::vector<P2> pts;
		for(long x = -1; x <= M + 1; ++x) for(long y = -1; y <= M + 1; ++y) if(M <= 7 || chance(r, 40)) pts.push_back({x,y});
		poly(map(), v, pts, std::array{YZ, ZX, XY}[std::size_t(rnd(r,0,2))], double(rnd(r,-5,5)), double(rnd(r,-5,5)));
	}
}
