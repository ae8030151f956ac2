// Random integer shapes for the harnesses (independent of the code under test).
#pragma once
#include <algorithm>
#include <array>
#include <cmath>
#include <random>
#include <vector>
using P2 = std::array<long, 2>;
using Rng = std::mt19937_64;
inline long rnd(Rng& r, long a, long b) { return a + long(r() % std::uint64_t(b - a + 1)); }
inline bool chance(Rng& r, int percent) { return rnd(r, 0, 99) < percent; }
inline long cross(P2 a, P2 b, P2 c) { return (b[0]-a[0])*(c[1]-a[1]) - (b[1]-a[1])*(c[0]-a[0]); }
inline int sgn(long x) { return (x > 0) - (x < 0); }
inline bool on_seg(P2 p, P2 a, P2 b) {
	return cross(a, b, p) == 0 && std::min(a[0],b[0]) <= p[0] && p[0] <= std::max(a[0],b[0]) && std::min(a[1],b[1]) <= p[1] && p[1] <= std::max(a[1],b[1]);
}
inline bool touch(P2 a, P2 b, P2 c, P2 d) {
	int s1 = sgn(cross(a,b,c)), s2 = sgn(cross(a,b,d)), s3 = sgn(cross(c,d,a)), s4 = sgn(cross(c,d,b));
	if(s1 * s2 < 0 && s3 * s4 < 0) return true;
	return on_seg(c,a,b) || on_seg(d,a,b) || on_seg(a,c,d) || on_seg(b,c,d);
}
inline bool simple(std::vector<P2> const& v) {
	int n = int(v.size());
	if(n < 3) return false;
	for(int i = 0; i < n; ++i) for(int j = i + 1; j < n; ++j) {
		P2 a = v[i], b = v[(i+1)%n], c = v[j], d = v[(j+1)%n];
		if(a == b || c == d) return false;
		if(j == i + 1) { if(on_seg(d, a, b) || on_seg(a, c, d)) return false; }
		else if((j + 1) % n == i) { if(on_seg(c, a, b) || on_seg(b, c, d)) return false; }
		else if(touch(a, b, c, d)) return false;
	}
	return true;
}
// M: coordinates stay within 0..M. rect_only: only axis aligned edges.
inline std::vector<P2> shape(Rng& r, long M, bool rect_only, int kind = -1) {
	for(;;) {
		std::vector<P2> v;
		int k = kind >= 0 ? kind : int(rnd(r, 0, rect_only ? 3 : 7));
		long x0 = rnd(r, 0, M-2), y0 = rnd(r, 0, M-2), x1 = rnd(r, x0+1, M), y1 = rnd(r, y0+1, M);
		switch(k) {
		case 0: v = {{x0,y0},{x1,y0},{x1,y1},{x0,y1}}; break;
		case 1: { // L
			if(x1-x0 < 2 || y1-y0 < 2) continue;
			long xm = rnd(r, x0+1, x1-1), ym = rnd(r, y0+1, y1-1);
			v = {{x0,y0},{x1,y0},{x1,ym},{xm,ym},{xm,y1},{x0,y1}};
			break; }
		case 2: { // T / U / plus-like: histogram on a base line
			int n = int(rnd(r, 2, 4)); long x = x0;
			if(x1 - x0 < n) continue;
			std::vector<long> cuts; for(int i = 1; i < n; ++i) cuts.push_back(rnd(r, x0+1, x1-1));
			std::sort(cuts.begin(), cuts.end()); cuts.erase(std::unique(cuts.begin(), cuts.end()), cuts.end()); cuts.push_back(x1);
			v.push_back({x0,y0}); 
			std::vector<P2> top; long prev = -1;
			for(long c : cuts) { long h = rnd(r, y0+1, std::max(y0+1,y1)); if(h == prev) h = h > y0+1 ? h-1 : h+1; top.push_back({x,h}); top.push_back({c,h}); x = c; prev = h; }
			for(auto& p : top) if(p[1] > M) p[1] = M;
			v.push_back({x1,y0});
			for(auto it = top.rbegin(); it != top.rend(); ++it) v.push_back(*it);
			break; }
		case 3: { // S / Z
			if(x1-x0 < 3 || y1-y0 < 2) continue;
			long xa = rnd(r, x0+1, x1-2), xb = rnd(r, xa+1, x1-1), ym = rnd(r, y0+1, y1-1);
			v = {{x0,y0},{xb,y0},{xb,ym},{x1,ym},{x1,y1},{xa,y1},{xa,ym},{x0,ym}};
			break; }
		case 4: { // triangle
			v = {{rnd(r,0,M),rnd(r,0,M)},{rnd(r,0,M),rnd(r,0,M)},{rnd(r,0,M),rnd(r,0,M)}}; break; }
		case 5: { // right triangle or cut rectangle
			v = {{x0,y0},{x1,y0},{x1,y1},{x0,y1}};
			int i = int(rnd(r,0,3));
			if(chance(r,50)) v.erase(v.begin()+i);
			else { P2 a = v[i], b = v[(i+3)%4], c = v[(i+1)%4];
				P2 u{(a[0]+b[0])/2,(a[1]+b[1])/2}, w{(a[0]+c[0])/2,(a[1]+c[1])/2}; v[i] = u; v.insert(v.begin()+i+1, w); }
			break; }
		case 6: { // star shaped
			int n = int(rnd(r, 4, 8)); P2 c{rnd(r,1,M-1),rnd(r,1,M-1)};
			std::vector<std::pair<double,P2>> q;
			for(int i = 0; i < n; ++i) { P2 p{rnd(r,0,M),rnd(r,0,M)}; if(p != c) q.push_back({std::atan2(double(p[1]-c[1]),double(p[0]-c[0])),p}); }
			std::sort(q.begin(), q.end()); for(auto& e : q) v.push_back(e.second);
			break; }
		default: { int n = int(rnd(r, 3, 7)); for(int i = 0; i < n; ++i) v.push_back({rnd(r,0,M),rnd(r,0,M)}); }
		}
		if(chance(r, 12)) { // a vertex in the middle of an edge
			std::size_t i = std::size_t(rnd(r, 0, long(v.size())-1)); P2 a = v[i], b = v[(i+1)%v.size()];
			if((a[0]+b[0])%2 == 0 && (a[1]+b[1])%2 == 0) v.insert(v.begin()+long(i)+1, P2{(a[0]+b[0])/2,(a[1]+b[1])/2});
		}
		if(chance(r, 50)) for(auto& p : v) std::swap(p[0], p[1]);
		if(chance(r, 50)) for(auto& p : v) p[0] = M - p[0];
		if(chance(r, 50)) for(auto& p : v) p[1] = M - p[1];
		if(chance(r, 50)) std::reverse(v.begin(), v.end());
		std::rotate(v.begin(), v.begin() + rnd(r, 0, long(v.size())-1), v.end());
		if(simple(v)) return v;
	}
}
