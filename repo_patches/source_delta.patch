From db42bf01706ee13bd85b34a11b915c1d6a4f7e70 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:01:53 +0000
Subject: [PATCH 01/43] fix: remembering a timepoint while browsing the history
 discards the undone ones

Caretaker::remember_current_timepoint (so also go_and_remember) appended the
timepoint behind the undone ones while the browser still pointed before them:
the next undo then landed on the point preceding the browser instead of the
one that was current before.
---
 src/utils/state_management.cpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/utils/state_management.cpp b/src/utils/state_management.cpp
index 42208e4..076f188 100644
--- a/src/utils/state_management.cpp
+++ b/src/utils/state_management.cpp
@@ -205,6 +205,7 @@ void Caretaker::pin_current_timepoint() noexcept {
 
 //******************************************************************************
 void Caretaker::remember_current_timepoint() noexcept {
+	stop_browsing_user_history();
 	if(user_history.back() != current_timepoint)
 		user_history.emplace_back(current_timepoint);
 }
-- 
2.43.0


From dd3632e7e34f914f4a631156e8a01442b8000e41 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:17:29 +0000
Subject: [PATCH 02/43] fix: resetting the history also drops the annotation of
 its root

Caretaker::reset kept the annotations attached to the root timepoint: after
loading another document, the step recorded by the previous one at the root
was still found.
---
 src/utils/state_management.cpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/utils/state_management.cpp b/src/utils/state_management.cpp
index 076f188..588e537 100644
--- a/src/utils/state_management.cpp
+++ b/src/utils/state_management.cpp
@@ -33,6 +33,7 @@ void Caretaker::reset() noexcept {
 	user_history.erase(next(begin(user_history)), end(user_history));
 	user_history_browser.reset();
 	originators.clear();
+	annotations.clear();
 	garbage_collector();
 }
 
-- 
2.43.0


From e81e6efa92bd0e1af7e5a1b064ff4398a76111fc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:42:45 +0000
Subject: [PATCH 03/43] fix: common part and union of overlapping falling
 diagonals lie on them

overlap() and merge() always returned the rising diagonal of the bounding
box, which is off the segments when these have a negative slope.
---
 src/domain/geometrics/segment.cpp | 14 ++++++++++++--
 1 file changed, 12 insertions(+), 2 deletions(-)

diff --git a/src/domain/geometrics/segment.cpp b/src/domain/geometrics/segment.cpp
index 534e0d2..61f6e35 100644
--- a/src/domain/geometrics/segment.cpp
+++ b/src/domain/geometrics/segment.cpp
@@ -24,6 +24,16 @@ static bool are_parallel(Segment const& a, Segment const& b) noexcept {
 		|| (a_vec.y / a_vec.x == b_vec.y / b_vec.x);
 }
 
+/// Diagonal of the given bounding that follows the slope of the segment.
+///*****************************************************************************
+static Range range_along(Segment const& a, Coord const& xmin, Coord const& xmax, Coord const& ymin, Coord const& ymax) noexcept {
+	Point const vec(a.p1() - a.p0());
+	if((vec.x > 0 && vec.y < 0) || (vec.x < 0 && vec.y > 0))
+		return Range(Point(xmin, ymax), Point(xmax, ymin));
+	else
+		return Range(Point(xmin, ymin), Point(xmax, ymax));
+}
+
 //******************************************************************************
 Segment::Segment(Axis const axis) noexcept
 : axis(axis)
@@ -163,7 +173,7 @@ optional<Range> merge(Segment const& a, Segment const& b) {
 		else if(b_bnd[YMAX] >= a_bnd[YMIN] && b_bnd[YMAX] <= a_bnd[YMAX])
 			ymax = a_bnd[YMAX];
 
-		return Range(Point(xmin, ymin), Point(xmax, ymax));
+		return range_along(a, xmin, xmax, ymin, ymax);
 	}
 	return nullopt;
 }
@@ -210,7 +220,7 @@ optional<Range> overlap(Segment const& a, Segment const& b) {
 		else if(b_bnd[YMAX] >= a_bnd[YMIN] && b_bnd[YMAX] <= a_bnd[YMAX])
 			ymax = b_bnd[YMAX];
 
-		return Range(Point(xmin, ymin), Point(xmax, ymax));
+		return range_along(a, xmin, xmax, ymin, ymax);
 	}
 	return nullopt;
 }
-- 
2.43.0


From 9085992a2d89793f74463e7bd6c653250b688725 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:48:15 +0000
Subject: [PATCH 04/43] fix: an edge covered piecewise by several shapes is not
 meshed

Solving an edge in polygon conflict started from the first overlap even when
it faces the same direction as the edge, stopped at the first overlap facing
the same direction or not touching the previous ones, and sorted ranges along
the edge by their first point whatever their orientation. So covered edges
stayed meshed and uncovered ones could be dismissed, depending on the order
and orientation of shapes.
---
 .../conflicts/conflict_edge_in_polygon.cpp    | 36 +++++++++++++------
 1 file changed, 26 insertions(+), 10 deletions(-)

diff --git a/src/domain/conflicts/conflict_edge_in_polygon.cpp b/src/domain/conflicts/conflict_edge_in_polygon.cpp
index 7ddfa0f..ef57ad7 100644
--- a/src/domain/conflicts/conflict_edge_in_polygon.cpp
+++ b/src/domain/conflicts/conflict_edge_in_polygon.cpp
@@ -8,6 +8,8 @@
 #include "domain/geometrics/space.hpp"
 
 #include <algorithm>
+#include <cmath>
+#include <utility>
 
 #include "utils/signum.hpp"
 #include "domain/geometrics/edge.hpp"
@@ -81,22 +83,36 @@ void ConflictEdgeInPolygon::auto_solve(MeshlinePolicyManager& /*line_policy_mana
 	auto [t, state] = make_next_state();
 
 	sort_overlaps_by_p0_by_vector_orientation(state.overlaps, edge->vec);
-	Range merged_range(get<RANGE>(state.overlaps.front()));
+	// Extents of the overlaps along the edge.
+	double const vec_x = double(edge->vec.x);
+	double const vec_y = double(edge->vec.y);
+	double const length = hypot(vec_x, vec_y);
+	auto const position = [&, this](Point const& p) -> Coord {
+		Point const from_p0(p - edge->p0());
+		return (double(from_p0.x) * vec_x + double(from_p0.y) * vec_y) / length;
+	};
 
+	vector<pair<Coord, Coord>> covered;
 	for(Overlap const& overlap : state.overlaps) {
-		if(!get<EDGE>(overlap).has_value()
-		|| get<EDGE>(overlap).value()->normal != edge->normal) {
-			if(optional<Range> r = merge(get<RANGE>(overlap), merged_range); r)
-				merged_range = r.value();
-			else
-				break;
-		} else {
+		if(get<EDGE>(overlap).has_value()
+		&& get<EDGE>(overlap).value()->normal == edge->normal)
+			continue;
+
+		Coord const a = position(get<RANGE>(overlap).p0());
+		Coord const b = position(get<RANGE>(overlap).p1());
+		covered.emplace_back(min(a, b), max(a, b));
+	}
+	ranges::sort(covered, {}, [](auto const& range) { return range.first.value(); });
+
+	Coord covered_until = 0;
+	for(auto const& [from, to] : covered) {
+		if(from > covered_until && from != covered_until)
 			break;
-		}
+		covered_until = max(covered_until, to);
 	}
 
 	auto state_e = edge->get_current_state();
-	state_e.to_mesh = !(merged_range == *edge);
+	state_e.to_mesh = covered_until < length && covered_until != Coord(length);
 	state_e.conflict = this;
 	state.solution = edge;
 	state.is_solved = true;
-- 
2.43.0


From 08826c144a56e7c9bd01a996d5753288d9736bb1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:48:59 +0000
Subject: [PATCH 05/43] fix: crossings of diagonal edges with axis aligned
 edges are detected

The bounding of an axis aligned edge is flat, hence never strictly overlaps
any other, so these crossings were always dismissed.
---
 src/domain/board.cpp | 13 ++++++++++++-
 1 file changed, 12 insertions(+), 1 deletion(-)

diff --git a/src/domain/board.cpp b/src/domain/board.cpp
index b018913..f12fe0e 100644
--- a/src/domain/board.cpp
+++ b/src/domain/board.cpp
@@ -249,6 +249,17 @@ void Board::adjust_edges_to_materials(Plane const plane) {
 	bar.complete();
 }
 
+/// Check if two bounding boxes overlap, one possibly being flat and crossing the other.
+///*****************************************************************************
+static bool does_overlap_or_cross(Bounding2D const& a, Bounding2D const& b) noexcept {
+	auto const check = [&](auto const min_, auto const max_) {
+		return min(a[max_], b[max_]) > max(a[min_], b[min_])
+		    || (a[min_] < b[min_] && b[max_] < a[max_])
+		    || (b[min_] < a[min_] && a[max_] < b[max_]);
+	};
+	return check(XMIN, XMAX) && check(YMIN, YMAX);
+}
+
 //******************************************************************************
 void Board::detect_diagonal_angles(Plane plane) {
 	auto [t, state] = make_next_state();
@@ -289,7 +300,7 @@ void Board::detect_diagonal_angles(Plane plane) {
 					&& edge_b->axis != Segment::Axis::DIAGONAL)
 						continue;
 
-					if(!does_overlap_strict(bounding(*edge_a), bounding(*edge_b)))
+					if(!does_overlap_or_cross(bounding(*edge_a), bounding(*edge_b)))
 						continue;
 
 					relation::SegmentSegment rel = edge_a->relation_to(*edge_b);
-- 
2.43.0


From 2c9ebda1dba3c98b7a5a704ac7118305be4de746 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:49:31 +0000
Subject: [PATCH 06/43] fix: an edge dismissed by the user is not meshed again
 by its overlaps

Solving an edge in polygon conflict on a partially covered edge enabled it
whatever the user had asked for when editing that edge.
---
 src/domain/conflicts/conflict_edge_in_polygon.cpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/domain/conflicts/conflict_edge_in_polygon.cpp b/src/domain/conflicts/conflict_edge_in_polygon.cpp
index ef57ad7..5ff4c42 100644
--- a/src/domain/conflicts/conflict_edge_in_polygon.cpp
+++ b/src/domain/conflicts/conflict_edge_in_polygon.cpp
@@ -112,7 +112,8 @@ void ConflictEdgeInPolygon::auto_solve(MeshlinePolicyManager& /*line_policy_mana
 	}
 
 	auto state_e = edge->get_current_state();
-	state_e.to_mesh = covered_until < length && covered_until != Coord(length);
+	bool const is_covered = covered_until >= length || covered_until == Coord(length);
+	state_e.to_mesh = state_e.to_mesh && !is_covered;
 	state_e.conflict = this;
 	state.solution = edge;
 	state.is_solved = true;
-- 
2.43.0


From f4187d9b18b35ab9ba7040317f7b19602c2d068d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:50:39 +0000
Subject: [PATCH 07/43] fix: the board, its angles and its diagonal zones
 follow the history

They were never handed to the caretaker, hence kept their last state on undo
and rewind, so that running again duplicated angles and zones.
---
 src/domain/board.cpp            | 8 +++++---
 src/domain/conflict_manager.cpp | 1 +
 2 files changed, 6 insertions(+), 3 deletions(-)

diff --git a/src/domain/board.cpp b/src/domain/board.cpp
index f12fe0e..afaabef 100644
--- a/src/domain/board.cpp
+++ b/src/domain/board.cpp
@@ -63,12 +63,14 @@ void sort_points_by_vector_orientation(vector<Point>& points, Point const& vecto
 
 //******************************************************************************
 shared_ptr<Board> Board::Builder::build(Params&& params) {
-	return make_shared<Board>(
+	auto board = make_shared<Board>(
 		std::move(polygons),
 		std::move(fixed_meshline_policy_creators),
 		std::move(material),
 		std::move(params),
 		Caretaker::singleton().get_history_root());
+	Caretaker::singleton().take_care_of(board);
+	return board;
 }
 
 //******************************************************************************
@@ -278,7 +280,7 @@ void Board::detect_diagonal_angles(Plane plane) {
 			if(polygon->edges[p]->axis == Segment::Axis::DIAGONAL
 			|| polygon->edges[i]->axis == Segment::Axis::DIAGONAL) {
 				++found;
-				state.angles[plane].emplace_back(make_shared<Angle>(*(polygon->points[p]), polygon->edges[p].get(), polygon->edges[i].get(), t));
+				get_caretaker().take_care_of(state.angles[plane].emplace_back(make_shared<Angle>(*(polygon->points[p]), polygon->edges[p].get(), polygon->edges[i].get(), t)));
 			}
 			p = i;
 		}
@@ -307,7 +309,7 @@ void Board::detect_diagonal_angles(Plane plane) {
 					if(rel == relation::SegmentSegment::CROSSING) {
 						if(optional<Point> p = intersection(*edge_a, *edge_b)) {
 							++found;
-							state.angles[plane].emplace_back(make_shared<Angle>(p.value(), edge_a.get(), edge_b.get(), t));
+							get_caretaker().take_care_of(state.angles[plane].emplace_back(make_shared<Angle>(p.value(), edge_a.get(), edge_b.get(), t)));
 						}
 					}
 				}
diff --git a/src/domain/conflict_manager.cpp b/src/domain/conflict_manager.cpp
index 3750d24..a6610bf 100644
--- a/src/domain/conflict_manager.cpp
+++ b/src/domain/conflict_manager.cpp
@@ -231,6 +231,7 @@ void ConflictManager::add_diagonal_or_circular_zone(Axis axis, vector<Angle*> co
 
 	auto const& conflict = state.all_diagonal_or_circular_zone[axis].emplace_back(
 		make_shared<ConflictDiagonalOrCircularZone>(axis, sorted_angles, global_params, t));
+	get_caretaker().take_care_of(conflict);
 
 	set_state(t, state);
 }
-- 
2.43.0


From 090ac68b39aa543eaac5f0bf9ffac16716533c1b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:50:52 +0000
Subject: [PATCH 08/43] fix: fixed meshline policies follow the history

Their timepoint was passed as the enabled flag, so they had none, were refused
by the caretaker and ignored undo, rewind and edit navigation.
---
 src/domain/board.cpp                   | 5 ++---
 src/domain/meshline_policy_manager.cpp | 5 ++++-
 2 files changed, 6 insertions(+), 4 deletions(-)

diff --git a/src/domain/board.cpp b/src/domain/board.cpp
index afaabef..fda780e 100644
--- a/src/domain/board.cpp
+++ b/src/domain/board.cpp
@@ -81,7 +81,7 @@ void Board::Builder::set_background_material(shared_ptr<Material> background) {
 // TODO should be in meshline manager?
 //******************************************************************************
 void Board::Builder::add_fixed_meshline_policy(Axis const axis, Coord const coord) {
-	fixed_meshline_policy_creators[axis].emplace_back([=](Board const* board, Timepoint* t) {
+	fixed_meshline_policy_creators[axis].emplace_back([=](Board const* board, Timepoint* /*t*/) {
 		if(!contains_that(board->line_policy_manager->get_current_state().line_policies[axis],
 			[&coord](shared_ptr<MeshlinePolicy> const& policy) {
 				if(policy->get_current_state().policy == MeshlinePolicy::Policy::ONELINE
@@ -95,8 +95,7 @@ void Board::Builder::add_fixed_meshline_policy(Axis const axis, Coord const coor
 					axis,
 					MeshlinePolicy::Policy::ONELINE,
 					MeshlinePolicy::Normal::NONE,
-					coord,
-					t);
+					coord);
 	});
 }
 
diff --git a/src/domain/meshline_policy_manager.cpp b/src/domain/meshline_policy_manager.cpp
index d97b8b9..838f845 100644
--- a/src/domain/meshline_policy_manager.cpp
+++ b/src/domain/meshline_policy_manager.cpp
@@ -60,13 +60,16 @@ MeshlinePolicy* MeshlinePolicyManager::add_meshline_policy(
 	|| (policy != MeshlinePolicy::Policy::THIRDS && normal != MeshlinePolicy::Normal::NONE))
 		return nullptr;
 
+	if(!t)
+		t = next_timepoint();
+
 	auto state = get_current_state();
 
 	auto const& line_policy = state.line_policies[axis].emplace_back(make_shared<MeshlinePolicy>(
 		axis, policy, normal, global_params, coord, t, origins, is_enabled));
 	get_caretaker().take_care_of(line_policy);
 
-	set_given_or_next_state(state, t);
+	set_state(t, state);
 	return line_policy.get();
 }
 
-- 
2.43.0


From 0b9a6687c1556b650c9e8bc64bff192cbfc953ab Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:00:22 +0000
Subject: [PATCH 09/43] fix: intervals sharing a meshline policy are meshed
 with the same spacing

---
 src/domain/meshline_policy_manager.cpp | 20 +++++++++++++++++---
 1 file changed, 17 insertions(+), 3 deletions(-)

diff --git a/src/domain/meshline_policy_manager.cpp b/src/domain/meshline_policy_manager.cpp
index 838f845..7f78a20 100644
--- a/src/domain/meshline_policy_manager.cpp
+++ b/src/domain/meshline_policy_manager.cpp
@@ -205,14 +205,28 @@ void MeshlinePolicyManager::mesh(Axis const axis) {
 			return a->h < b->h;
 		});
 
-	for(auto interval : dimension_view)
-		interval->auto_solve_d();
+	// Adjacent Intervals share a MeshlinePolicy, so solve until they agree on its d.
+	auto const get_solution = [&dimension_view] {
+		vector<double> solution;
+		for(auto const* interval : dimension_view) {
+			auto const& state_i = interval->get_current_state();
+			solution.push_back(state_i.dmax);
+			solution.push_back(state_i.before.meshline_policy->get_current_state().d);
+			solution.push_back(state_i.after.meshline_policy->get_current_state().d);
+		}
+		return solution;
+	};
+
+	for(vector<double> solution; solution != get_solution();) {
+		solution = get_solution();
+		for(auto* interval : dimension_view)
+			interval->auto_solve_d();
+	}
 
 	size_t new_size = state.meshlines[axis].size();
 	vector<vector<shared_ptr<Meshline>>> interval_meshlines;
 
 	for(auto* interval : dimension_view) {
-		interval->auto_solve_d();
 		interval->auto_solve_smoothness();
 		interval_meshlines.emplace_back(interval->mesh());
 
-- 
2.43.0


From 0ceaf3239fe0e5a02e04f13dd8c21374c3e93dfc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:01:29 +0000
Subject: [PATCH 10/43] fix: no mesh line duplicated next to the middle of an
 interval

---
 src/domain/mesh/interval.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/domain/mesh/interval.cpp b/src/domain/mesh/interval.cpp
index 70db3ab..fba5e06 100644
--- a/src/domain/mesh/interval.cpp
+++ b/src/domain/mesh/interval.cpp
@@ -138,7 +138,7 @@ vector<Coord> find_ls(double d, double smoothness, double dmax, Coord s) {
 	double current_d = min(d, dmax);
 	double current_s = 0;
 	vector<Coord> ls;
-	while(current_s < s) {
+	while(current_s < s && (ls.empty() || current_s != s)) { // No line next to the middle one due to rounding.
 		if(current_d < dmax) {
 			current_d *= smoothness;
 			if(current_d > dmax)
-- 
2.43.0


From 040165ebc53432d50345d42e8e7b3f44de22ae9f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:05:24 +0000
Subject: [PATCH 11/43] fix: no interval between superimposed meshline policies

---
 src/domain/meshline_policy_manager.cpp | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/domain/meshline_policy_manager.cpp b/src/domain/meshline_policy_manager.cpp
index 7f78a20..bd88c2a 100644
--- a/src/domain/meshline_policy_manager.cpp
+++ b/src/domain/meshline_policy_manager.cpp
@@ -152,6 +152,10 @@ void MeshlinePolicyManager::detect_intervals(Axis const axis) {
 		});
 
 	for(size_t i = 1; i < dimension.size(); ++i) {
+		// No space to mesh between superimposed policies.
+		if(dimension[i-1]->coord == dimension[i]->coord)
+			continue;
+
 		auto const& interval = state.intervals[axis].emplace_back(make_shared<Interval>(
 			dimension[i-1], dimension[i], axis, global_params, t));
 		get_caretaker().take_care_of(interval);
-- 
2.43.0


From 99078a6fed89ec78e9771fcd22b19bc1c4f0755a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:08:12 +0000
Subject: [PATCH 12/43] fix: the minimal angle of a diagonal zone applies to
 its angles

The value set on the zone was ignored in favor of the global one.
---
 src/domain/conflicts/conflict_diagonal_or_circular_zone.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/domain/conflicts/conflict_diagonal_or_circular_zone.cpp b/src/domain/conflicts/conflict_diagonal_or_circular_zone.cpp
index 07a8902..b84c890 100644
--- a/src/domain/conflicts/conflict_diagonal_or_circular_zone.cpp
+++ b/src/domain/conflicts/conflict_diagonal_or_circular_zone.cpp
@@ -74,7 +74,7 @@ void ConflictDiagonalOrCircularZone::solve_angles() {
 		if(auto view_axis = transpose(angle->plane, axis)
 		; view_axis.has_value()) {
 			auto state_a = angle->get_current_state();
-			state_a.to_mesh[view_axis.value()] = angle->angle >= global_params->get_current_state().consecutive_diagonal_minimal_angle;
+			state_a.to_mesh[view_axis.value()] = angle->angle >= state.minimal_angle;
 			angle->set_state(t, state_a);
 		}
 	}
-- 
2.43.0


From 356ea847928e6e0810b7ea72b466450d30e217ae Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:15:03 +0000
Subject: [PATCH 13/43] fix: an interval belonging to several diagonal zones
 refers to all of them

---
 src/domain/meshline_policy_manager.cpp | 14 +++++++++++---
 1 file changed, 11 insertions(+), 3 deletions(-)

diff --git a/src/domain/meshline_policy_manager.cpp b/src/domain/meshline_policy_manager.cpp
index bd88c2a..fbc66c1 100644
--- a/src/domain/meshline_policy_manager.cpp
+++ b/src/domain/meshline_policy_manager.cpp
@@ -183,14 +183,22 @@ void MeshlinePolicyManager::detect_intervals_per_diagonal_zones(Axis const axis)
 			if(does_overlap(bounding, interval->m)) {
 				++found;
 				intervals.emplace_back(interval.get());
-				auto state_i = interval->get_current_state();
-				state_i.conflicts.emplace_back(conflict.get());
-				interval->set_state(t, state_i);
 			}
 		}
 		conflict->append(intervals, t);
 		bar.tick(found, i);
 	}
+
+	// An Interval may belong to several zones but its state is set only once per Timepoint.
+	for(auto const& interval : state.intervals[axis]) {
+		auto state_i = interval->get_current_state();
+		auto const size = state_i.conflicts.size();
+		for(auto& conflict : conflict_manager->get_diagonal_or_circular_zones(axis))
+			if(does_overlap(conflict->bounding(), interval->m))
+				state_i.conflicts.emplace_back(conflict.get());
+		if(state_i.conflicts.size() != size)
+			interval->set_state(t, state_i);
+	}
 	bar.complete();
 }
 
-- 
2.43.0


From 8d3ae8e1ade220d94182b097d83d84301fdadaef Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:27:06 +0000
Subject: [PATCH 14/43] fix: a step that has nothing to do must not block step
 by step processing

---
 src/app/openemsh.cpp | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/app/openemsh.cpp b/src/app/openemsh.cpp
index eedcea8..2148526 100644
--- a/src/app/openemsh.cpp
+++ b/src/app/openemsh.cpp
@@ -160,8 +160,12 @@ expected<void, string> OpenEMSH::write() const {
 void OpenEMSH::run(std::set<Step> const& steps) const {
 	auto const handle = [&]<InvocableR<void> F>(Step step, F const& func) {
 		if(steps.contains(step)) {
+			auto const* const t = Caretaker::singleton().get_current_timepoint();
 			Caretaker::singleton().annotate_current_timepoint(make_unique<Annotation>(step));
 			func();
+			// Each step needs its own timepoint, even those that have nothing to do.
+			if(Caretaker::singleton().get_current_timepoint() == t)
+				Caretaker::singleton().make_next_timepoint();
 		}
 	};
 
-- 
2.43.0


From 5439c49327c19ab0af26cc5660bf4db859c60f6c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:27:46 +0000
Subject: [PATCH 15/43] fix: a step must not be skipped once gone back to the
 point it was edited from

---
 src/app/openemsh.cpp | 46 +++++++++++++++++++++++++++-----------------
 src/app/openemsh.hpp |  3 +++
 2 files changed, 31 insertions(+), 18 deletions(-)

diff --git a/src/app/openemsh.cpp b/src/app/openemsh.cpp
index 2148526..999f7e2 100644
--- a/src/app/openemsh.cpp
+++ b/src/app/openemsh.cpp
@@ -212,15 +212,9 @@ void OpenEMSH::run_all_steps() const {
 
 //******************************************************************************
 void OpenEMSH::run_next_step() const {
-	auto& c = Caretaker::singleton();
-	auto* t = c.find_first_ancestor_with_annotation();
-	if(auto const* a = c.get_annotation(t); a) {
-		if(optional<Step> step = next(static_cast<Annotation const*>(a)->before_step)
-		; step)
-			run({ step.value() });
-	} else {
-		run({ Step::ADJUST_EDGE_TO_MATERIAL });
-	}
+	if(optional<Step> step = get_next_step()
+	; step)
+		run({ step.value() });
 }
 
 //******************************************************************************
@@ -240,23 +234,17 @@ void OpenEMSH::go_before(Step step) const {
 
 //******************************************************************************
 void OpenEMSH::go_before_previous_step() const {
-	auto& c = Caretaker::singleton();
-	c.go_and_remember(c.find_first_ancestor_with_annotation());
+	Caretaker::singleton().go_and_remember(find_before_previous_step());
 }
 
 //******************************************************************************
 bool OpenEMSH::can_run_a_next_step() const {
-	auto& c = Caretaker::singleton();
-	auto* t = c.find_first_ancestor_with_annotation();
-	if(auto const* a = c.get_annotation(t); a)
-		return next(static_cast<Annotation const*>(a)->before_step).has_value();
-	else
-		return true;
+	return get_next_step().has_value();
 }
 
 //******************************************************************************
 bool OpenEMSH::can_go_before() const {
-	return Caretaker::singleton().find_first_ancestor_with_annotation();
+	return find_before_previous_step();
 }
 
 //******************************************************************************
@@ -269,6 +257,28 @@ optional<Step> OpenEMSH::get_current_step() const {
 		return nullopt;
 }
 
+//******************************************************************************
+optional<Step> OpenEMSH::get_next_step() const {
+	auto& c = Caretaker::singleton();
+	auto* t = c.find_first_ancestor_with_annotation(true);
+	if(auto const* a = static_cast<Annotation const*>(c.get_annotation(t)); a)
+		return t == c.get_current_timepoint()
+		     ? a->before_step
+		     : next(a->before_step);
+	else
+		return Step::ADJUST_EDGE_TO_MATERIAL;
+}
+
+// An edited timepoint descends from the one it was edited from, both being
+// annotated with the step that is still to run.
+//******************************************************************************
+Timepoint* OpenEMSH::find_before_previous_step() const {
+	return Caretaker::singleton().find_first_ancestor_with_annotation_that(
+		[step = get_next_step()](IAnnotation const* annotation) {
+			return !step || static_cast<Annotation const*>(annotation)->before_step < step.value();
+		});
+}
+
 //******************************************************************************
 Annotation::Annotation(Step before_step)
 : before_step(before_step)
diff --git a/src/app/openemsh.hpp b/src/app/openemsh.hpp
index a754ce2..dcb58e9 100644
--- a/src/app/openemsh.hpp
+++ b/src/app/openemsh.hpp
@@ -68,7 +68,10 @@ public:
 	bool can_run_a_next_step() const;
 	bool can_go_before() const;
 	std::optional<Step> get_current_step() const;
+	std::optional<Step> get_next_step() const;
 private:
+	Timepoint* find_before_previous_step() const;
+
 	Params params;
 	std::shared_ptr<domain::Board> board;
 };
-- 
2.43.0


From 6548690be889cb69f94cd0b301d728bc0a544026 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:27:46 +0000
Subject: [PATCH 16/43] fix: rewinding before a step when already there must
 not drop a previous edition

---
 src/app/openemsh.cpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/app/openemsh.cpp b/src/app/openemsh.cpp
index 999f7e2..d1ce214 100644
--- a/src/app/openemsh.cpp
+++ b/src/app/openemsh.cpp
@@ -229,7 +229,8 @@ void OpenEMSH::go_before(Step step) const {
 		c.find_first_ancestor_with_annotation_that(
 			[&step](IAnnotation const* annotation) {
 				return static_cast<Annotation const*>(annotation)->before_step == step;
-			}));
+			},
+			true));
 }
 
 //******************************************************************************
-- 
2.43.0


From a8d65c85daf1cf18d25de2ae70aee3e78c69356c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:27:47 +0000
Subject: [PATCH 17/43] fix: an edition done before some steps must not skip
 those

---
 src/ui/qt/main_window.cpp | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/ui/qt/main_window.cpp b/src/ui/qt/main_window.cpp
index 68fb4e0..d64742c 100644
--- a/src/ui/qt/main_window.cpp
+++ b/src/ui/qt/main_window.cpp
@@ -649,8 +649,10 @@ void MainWindow::run() {
 //******************************************************************************
 void MainWindow::handle_edition_from(app::Step from, std::function<void ()> const& edit) {
 	oemsh.go_before(from);
+	// Steps in between are still to run if the edition occurs before them.
+	auto const next = oemsh.get_next_step();
 	edit();
-	run(from);
+	run(next ? std::min(from, next.value()) : from);
 }
 
 //******************************************************************************
-- 
2.43.0


From 6a929e4f1454f2ba22d2ac8f2f879b68e30b3533 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:30:30 +0000
Subject: [PATCH 18/43] fix: edits must apply to the rewound state and not
 bring back what was computed after it

---
 src/ui/qt/edit/edit_model_angle.cpp                       | 4 +++-
 .../edit_model_conflict_diagonal_or_circular_zone.cpp     | 6 +++++-
 src/ui/qt/edit/edit_model_edge.cpp                        | 5 ++++-
 src/ui/qt/edit/edit_model_interval.cpp                    | 8 +++++++-
 src/ui/qt/edit/edit_model_meshline_policy.cpp             | 7 ++++++-
 5 files changed, 25 insertions(+), 5 deletions(-)

diff --git a/src/ui/qt/edit/edit_model_angle.cpp b/src/ui/qt/edit/edit_model_angle.cpp
index 92feb1a..0436051 100644
--- a/src/ui/qt/edit/edit_model_angle.cpp
+++ b/src/ui/qt/edit/edit_model_angle.cpp
@@ -37,7 +37,9 @@ void EditModelAngle::commit() {
 
 	if(std::ranges::all_of(does_succeed, is_true)) {
 		emit edit_from(app::Step::DETECT_CONFLICT_EIP, [&]() {
-			angle->set_next_state(state);
+			auto rewound = angle->get_current_state();
+			rewound.to_mesh = state.to_mesh;
+			angle->set_next_state(rewound);
 		});
 	}
 }
diff --git a/src/ui/qt/edit/edit_model_conflict_diagonal_or_circular_zone.cpp b/src/ui/qt/edit/edit_model_conflict_diagonal_or_circular_zone.cpp
index d717f13..f0e81c7 100644
--- a/src/ui/qt/edit/edit_model_conflict_diagonal_or_circular_zone.cpp
+++ b/src/ui/qt/edit/edit_model_conflict_diagonal_or_circular_zone.cpp
@@ -44,7 +44,11 @@ void EditModelConflictDiagonalOrCircularZone::commit() {
 		emit edit_from((state.minimal_angle != conflict->get_current_state().minimal_angle
 		               ? app::Step::SOLVE_DIAG_ZONES_ANGLES
 		               : app::Step::SOLVE_DIAG_ZONES_INTERVALS), [&]() {
-			conflict->set_next_state(state);
+			auto rewound = conflict->get_current_state();
+			rewound.lmin = state.lmin;
+			rewound.dmax = state.dmax;
+			rewound.minimal_angle = state.minimal_angle;
+			conflict->set_next_state(rewound);
 		});
 	}
 }
diff --git a/src/ui/qt/edit/edit_model_edge.cpp b/src/ui/qt/edit/edit_model_edge.cpp
index bf29a63..68b40d6 100644
--- a/src/ui/qt/edit/edit_model_edge.cpp
+++ b/src/ui/qt/edit/edit_model_edge.cpp
@@ -37,7 +37,10 @@ void EditModelEdge::commit() {
 
 	if(std::ranges::all_of(does_succeed, is_true)) {
 		emit edit_from(app::Step::DETECT_CONFLICT_EIP, [&]() {
-			edge->set_next_state(state);
+			auto rewound = edge->get_current_state();
+			rewound.to_mesh = state.to_mesh;
+			rewound.to_reverse = state.to_reverse;
+			edge->set_next_state(rewound);
 		});
 	}
 }
diff --git a/src/ui/qt/edit/edit_model_interval.cpp b/src/ui/qt/edit/edit_model_interval.cpp
index 3115f59..5fd1d0b 100644
--- a/src/ui/qt/edit/edit_model_interval.cpp
+++ b/src/ui/qt/edit/edit_model_interval.cpp
@@ -52,7 +52,13 @@ void EditModelInterval::commit() {
 
 	if(std::ranges::all_of(does_succeed, is_true)) {
 		emit edit_from(app::Step::MESH, [&] {
-			interval->set_next_state(state);
+			auto rewound = interval->get_current_state();
+			rewound.dmax = state.dmax;
+			rewound.before.lmin = state.before.lmin;
+			rewound.before.smoothness = state.before.smoothness;
+			rewound.after.lmin = state.after.lmin;
+			rewound.after.smoothness = state.after.smoothness;
+			interval->set_next_state(rewound);
 		});
 	}
 }
diff --git a/src/ui/qt/edit/edit_model_meshline_policy.cpp b/src/ui/qt/edit/edit_model_meshline_policy.cpp
index 4edc10c..3851492 100644
--- a/src/ui/qt/edit/edit_model_meshline_policy.cpp
+++ b/src/ui/qt/edit/edit_model_meshline_policy.cpp
@@ -81,7 +81,12 @@ void EditModelMeshlinePolicy::commit() {
 
 	if(std::ranges::all_of(does_succeed, is_true)) {
 		emit edit_from(app::Step::DETECT_INTERVALS, [&]() {
-			meshline_policy->set_next_state(state);
+			auto rewound = meshline_policy->get_current_state();
+			rewound.policy = state.policy;
+			rewound.normal = state.normal;
+			rewound.is_enabled = state.is_enabled;
+			rewound.d = state.d;
+			meshline_policy->set_next_state(rewound);
 		});
 	}
 }
-- 
2.43.0


From c3c5d7f1421e86436e18e8a9cbf75914a55fdd65 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:30:30 +0000
Subject: [PATCH 19/43] fix: editing the global parameters must not reset the
 ones that are not edited

---
 src/ui/qt/edit/edit_model_global.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/ui/qt/edit/edit_model_global.cpp b/src/ui/qt/edit/edit_model_global.cpp
index 52fa7f7..2ff1993 100644
--- a/src/ui/qt/edit/edit_model_global.cpp
+++ b/src/ui/qt/edit/edit_model_global.cpp
@@ -44,7 +44,7 @@ EditModelGlobal::EditModelGlobal(domain::GlobalParams* global, QObject* parent)
 
 //******************************************************************************
 void EditModelGlobal::commit() {
-	domain::Params params;
+	auto params = global->get_current_state();
 
 	std::array does_succeed = {
 		try_to_double(item(0, V)->text(), params.proximity_limit),
-- 
2.43.0


From ed2b7af36d3fbf0c5c7a0c076251f1cc6ff6946c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:17:26 +0000
Subject: [PATCH 20/43] fix: fitting the views must not be possible before any
 document is loaded

---
 src/ui/qt/main_window.cpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/ui/qt/main_window.cpp b/src/ui/qt/main_window.cpp
index d64742c..977e056 100644
--- a/src/ui/qt/main_window.cpp
+++ b/src/ui/qt/main_window.cpp
@@ -665,6 +665,7 @@ void MainWindow::update_board_dependant_buttons_visibility(bool are_enabled) {
 	ui->a_undo->setEnabled(are_enabled);
 	ui->a_redo->setEnabled(are_enabled);
 	ui->a_appcsxcad->setEnabled(are_enabled);
+	ui->a_fit->setEnabled(are_enabled);
 	ui->tb_show_all_mesh->setEnabled(are_enabled);
 	ui->tb_show_horizontal_mesh->setEnabled(are_enabled);
 	ui->tb_show_vertical_mesh->setEnabled(are_enabled);
-- 
2.43.0


From e43582084f90edf7b36c23f826386b77b435f43f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:17:26 +0000
Subject: [PATCH 21/43] fix: mode buttons must follow the views made for a new
 point of history

---
 src/ui/qt/main_window.cpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/ui/qt/main_window.cpp b/src/ui/qt/main_window.cpp
index 977e056..50d2cfa 100644
--- a/src/ui/qt/main_window.cpp
+++ b/src/ui/qt/main_window.cpp
@@ -630,6 +630,7 @@ void MainWindow::make_current_state_view() {
 
 	update_navigation_buttons_visibility();
 	update_cell_number();
+	update_show_buttons_pressing();
 }
 
 //******************************************************************************
-- 
2.43.0


From 6d20b9d29f327da3b17ce516a5855a683ca08a4b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:17:26 +0000
Subject: [PATCH 22/43] fix: processing view filter must follow the plane and
 axes currently displayed

---
 src/ui/qt/processing_view/processing_scene.cpp | 5 +++++
 src/ui/qt/processing_view/processing_scene.hpp | 1 +
 src/ui/qt/processing_view/processing_view.cpp  | 7 ++++++-
 3 files changed, 12 insertions(+), 1 deletion(-)

diff --git a/src/ui/qt/processing_view/processing_scene.cpp b/src/ui/qt/processing_view/processing_scene.cpp
index da1199b..bdaaffb 100644
--- a/src/ui/qt/processing_view/processing_scene.cpp
+++ b/src/ui/qt/processing_view/processing_scene.cpp
@@ -353,6 +353,11 @@ void ProcessingScene::reset_visibility(bool are_visible) const {
 		}
 	}
 }
+//******************************************************************************
+domain::ViewAxisSpace<bool> const& ProcessingScene::get_display_view_axes() const {
+	return axes_displayed_on_structure_view;
+}
+
 //******************************************************************************
 void ProcessingScene::set_display_view_axes(domain::ViewAxisSpace<bool> const& axes) {
 	axes_displayed_on_structure_view = axes;
diff --git a/src/ui/qt/processing_view/processing_scene.hpp b/src/ui/qt/processing_view/processing_scene.hpp
index 8e3d1b2..8c25bac 100644
--- a/src/ui/qt/processing_view/processing_scene.hpp
+++ b/src/ui/qt/processing_view/processing_scene.hpp
@@ -93,6 +93,7 @@ public:
 	void reset_visibility(bool are_visible = true) const;
 	DisplayMode get_display_mode() const;
 	void set_display_mode(DisplayMode mode);
+	domain::ViewAxisSpace<bool> const& get_display_view_axes() const;
 	void set_display_view_axes(domain::ViewAxisSpace<bool> const& axes);
 	void set_display_plane(domain::Plane plane);
 
diff --git a/src/ui/qt/processing_view/processing_view.cpp b/src/ui/qt/processing_view/processing_view.cpp
index eb21e23..efbbf5a 100644
--- a/src/ui/qt/processing_view/processing_view.cpp
+++ b/src/ui/qt/processing_view/processing_view.cpp
@@ -44,6 +44,7 @@ void ProcessingView::clear() {
 	states.clear();
 	board = nullptr;
 	current_timepoint = nullptr;
+	axes_displayed_on_structure_view = { true, true };
 }
 
 //******************************************************************************
@@ -134,7 +135,11 @@ void ProcessingView::go_to_current_state() {
 	if(current_timepoint != t) {
 		if(states.contains(t)) {
 			current_timepoint = t;
-			setScene(states.at(t).scene);
+			auto* scene = states.at(t).scene;
+			setScene(scene);
+			// The plane is common to every state, displayed axes are proper to each one.
+			scene->set_display_plane(plane_displayed_on_structure_view);
+			axes_displayed_on_structure_view = scene->get_display_view_axes();
 		} else {
 			make_current_state();
 		}
-- 
2.43.0


From 63aa595c20d3f10208e68f9e4202430882d99eb3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:17:26 +0000
Subject: [PATCH 23/43] fix: values left untouched in an edit dialog must not
 be rounded

---
 src/ui/qt/edit/edit_model.cpp                          |  8 ++++++++
 src/ui/qt/edit/edit_model.hpp                          |  1 +
 .../edit_model_conflict_diagonal_or_circular_zone.cpp  |  4 ++--
 src/ui/qt/edit/edit_model_global.cpp                   | 10 +++++-----
 src/ui/qt/edit/edit_model_interval.cpp                 |  6 +++---
 src/ui/qt/edit/edit_model_meshline_policy.cpp          |  2 +-
 6 files changed, 20 insertions(+), 11 deletions(-)

diff --git a/src/ui/qt/edit/edit_model.cpp b/src/ui/qt/edit/edit_model.cpp
index 5363dfd..3fe6564 100644
--- a/src/ui/qt/edit/edit_model.cpp
+++ b/src/ui/qt/edit/edit_model.cpp
@@ -4,6 +4,8 @@
 /// @author Thomas Lepoix <thomas.lepoix@protonmail.ch>
 ///*****************************************************************************
 
+#include <QLocale>
+
 #include "edit_model_angle.hpp"
 #include "edit_model_conflict_diagonal_or_circular_zone.hpp"
 #include "edit_model_conflict_too_close_meshline_policies.hpp"
@@ -23,6 +25,12 @@
 
 namespace ui::qt {
 
+// Exact, so that committing an untouched value does not alter it.
+//******************************************************************************
+QString EditModel::from_double(double in) {
+	return QString::number(in, 'g', QLocale::FloatingPointShortest);
+}
+
 //******************************************************************************
 bool EditModel::try_to_double(QString const& in, double& out) {
 	bool does_succeed = false;
diff --git a/src/ui/qt/edit/edit_model.hpp b/src/ui/qt/edit/edit_model.hpp
index 20b298c..37c2e4c 100644
--- a/src/ui/qt/edit/edit_model.hpp
+++ b/src/ui/qt/edit/edit_model.hpp
@@ -35,6 +35,7 @@ protected:
 	void make_row(int row, QString const& property, T const& old_value, T const& new_value, QString const& tool_tip);
 	void make_row(int row, QString const& property, auto const& value, QString const& tool_tip);
 	static bool is_true(bool const val) { return val; }
+	static QString from_double(double in);
 	static bool try_to_double(QString const& in, double& out);
 	static bool try_to_ulong(QString const& in, std::size_t& out);
 	static bool try_to_bool(Qt::CheckState const in, bool& out);
diff --git a/src/ui/qt/edit/edit_model_conflict_diagonal_or_circular_zone.cpp b/src/ui/qt/edit/edit_model_conflict_diagonal_or_circular_zone.cpp
index f0e81c7..74ae1da 100644
--- a/src/ui/qt/edit/edit_model_conflict_diagonal_or_circular_zone.cpp
+++ b/src/ui/qt/edit/edit_model_conflict_diagonal_or_circular_zone.cpp
@@ -24,9 +24,9 @@ EditModelConflictDiagonalOrCircularZone::EditModelConflictDiagonalOrCircularZone
 
 	make_row(0, "lmin", QString::number(state.lmin),
 		"Minimum line number per Interval half, at extremities of the diagonal zone.");
-	make_row(1, "dmax", QString::number(state.dmax),
+	make_row(1, "dmax", from_double(state.dmax),
 		"Maximum distance between two adjacent lines.");
-	make_row(2, "Minimal angle", QString::number(state.minimal_angle),
+	make_row(2, "Minimal angle", from_double(state.minimal_angle),
 		"Angle threshold, above which angles between diagonal edges will generate MeshlinePolicies.");
 }
 
diff --git a/src/ui/qt/edit/edit_model_global.cpp b/src/ui/qt/edit/edit_model_global.cpp
index 2ff1993..dc2a0e2 100644
--- a/src/ui/qt/edit/edit_model_global.cpp
+++ b/src/ui/qt/edit/edit_model_global.cpp
@@ -26,17 +26,17 @@ EditModelGlobal::EditModelGlobal(domain::GlobalParams* global, QObject* parent)
 	auto const& params = global->get_current_state();
 	setRowCount(4);
 
-	make_row(0, "Proximity limit", QString::number(params.proximity_limit),
+	make_row(0, "Proximity limit", from_double(params.proximity_limit),
 		"Distance below which two MeshlinePolicies will be merged.");
-	make_row(1, "Smoothness", QString::number(params.smoothness),
+	make_row(1, "Smoothness", from_double(params.smoothness),
 		"Smoothness factor <b>]1;2]</b>. Meshing algorithm will decrease it, better to start high.");
 	make_row(2, "lmin", QString::number(params.lmin),
 		"Minimum line number per Interval half.");
-	make_row(3, "dmax", QString::number(params.dmax),
+	make_row(3, "dmax", from_double(params.dmax),
 		"Maximum distance between two adjacent lines.");
-	make_row(4, "Minimal angle", QString::number(params.consecutive_diagonal_minimal_angle),
+	make_row(4, "Minimal angle", from_double(params.consecutive_diagonal_minimal_angle),
 		"Angle threshold, above which angles between diagonal edges will generate MeshlinePolicies.");
-	make_row(5, "Diagonal dmax", QString::number(params.diagonal_dmax),
+	make_row(5, "Diagonal dmax", from_double(params.diagonal_dmax),
 		"Maximum distance between two adjacent lines in diagonal zones.");
 	make_row(6, "Diagonal lmin", QString::number(params.diagonal_lmin),
 		"Minimum line number per Interval half, at extremities of diagonal zones.");
diff --git a/src/ui/qt/edit/edit_model_interval.cpp b/src/ui/qt/edit/edit_model_interval.cpp
index 5fd1d0b..ae84d92 100644
--- a/src/ui/qt/edit/edit_model_interval.cpp
+++ b/src/ui/qt/edit/edit_model_interval.cpp
@@ -22,18 +22,18 @@ EditModelInterval::EditModelInterval(domain::Interval* interval, QObject* parent
 	auto const& state = interval->get_current_state();
 	setRowCount(5);
 
-	make_row(0, "dmax", QString::number(state.dmax),
+	make_row(0, "dmax", from_double(state.dmax),
 		"Maximum distance between two adjacent lines.");
 	make_row(1, "Before.lmin", QString::number(state.before.lmin),
 		"Minimum line number in the minimal interval half. "
 		"Note a line will always be placed at the interval center.");
-	make_row(2, "Before.Smoothness", QString::number(state.before.smoothness), QString("2"),
+	make_row(2, "Before.Smoothness", from_double(state.before.smoothness), QString("2"),
 		"Smoothness factor <b>]1;2]</b> around the minimal side. "
 		"Meshing algorithm will decrease it, better to start high.");
 	make_row(3, "After.lmin", QString::number(state.after.lmin),
 		"Minimum line number in the maximal interval half. "
 		"Note a line will always be placed at the interval center.");
-	make_row(4, "After.Smoothness", QString::number(state.after.smoothness), QString("2"),
+	make_row(4, "After.Smoothness", from_double(state.after.smoothness), QString("2"),
 		"Smoothness factor <b>]1;2]</b> around the maximal side. "
 		"Meshing algorithm will decrease it, better to start high.");
 }
diff --git a/src/ui/qt/edit/edit_model_meshline_policy.cpp b/src/ui/qt/edit/edit_model_meshline_policy.cpp
index 3851492..8f908e0 100644
--- a/src/ui/qt/edit/edit_model_meshline_policy.cpp
+++ b/src/ui/qt/edit/edit_model_meshline_policy.cpp
@@ -39,7 +39,7 @@ EditModelMeshlinePolicy::EditModelMeshlinePolicy(domain::MeshlinePolicy* meshlin
 		"Direction associated with Policy.");
 	make_row(2, "Enabled", state.is_enabled,
 		"Take into account in the meshing process.");
-	make_row(3, "d", QString::number(state.d),
+	make_row(3, "d", from_double(state.d),
 		"Desired distance between policy lines (HALFS|THIRDS) or "
 		"between policy line and adjacent lines (ONELINE).<br/>"
 		"Can be decreased by the meshing algorithm.");
-- 
2.43.0


From cce3d497cf7f391977611637a1fbe266457e2e5f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:44:21 +0000
Subject: [PATCH 24/43] fix: a curve extends up to its farthest vertex

---
 src/infra/parsers/parser_from_csx.cpp | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/infra/parsers/parser_from_csx.cpp b/src/infra/parsers/parser_from_csx.cpp
index 8099fb2..e7e9351 100644
--- a/src/infra/parsers/parser_from_csx.cpp
+++ b/src/infra/parsers/parser_from_csx.cpp
@@ -568,7 +568,7 @@ void ParserFromCsx::Pimpl::parse_primitive_curve(pugi::xml_node const& node, sha
 		// TODO Z placement here is the bounding box
 		Polygon::RangeZ z_placement {
 			ranges::min(vertices, [&](Point3D const& a, Point3D const& b) { return a.x < b.x; }).x,
-			ranges::max(vertices, [&](Point3D const& a, Point3D const& b) { return a.x > b.x; }).x
+			ranges::max(vertices, [&](Point3D const& a, Point3D const& b) { return a.x < b.x; }).x
 		};
 		vector<unique_ptr<Point const>> points;
 		for(auto const& vertex : vertices)
@@ -586,7 +586,7 @@ void ParserFromCsx::Pimpl::parse_primitive_curve(pugi::xml_node const& node, sha
 		// TODO Z placement here is the bounding box
 		Polygon::RangeZ z_placement {
 			ranges::min(vertices, [&](Point3D const& a, Point3D const& b) { return a.y < b.y; }).y,
-			ranges::max(vertices, [&](Point3D const& a, Point3D const& b) { return a.y > b.y; }).y
+			ranges::max(vertices, [&](Point3D const& a, Point3D const& b) { return a.y < b.y; }).y
 		};
 		vector<unique_ptr<Point const>> points;
 		for(auto const& vertex : vertices)
@@ -604,7 +604,7 @@ void ParserFromCsx::Pimpl::parse_primitive_curve(pugi::xml_node const& node, sha
 		// TODO Z placement here is the bounding box
 		Polygon::RangeZ z_placement {
 			ranges::min(vertices, [&](Point3D const& a, Point3D const& b) { return a.z < b.z; }).z,
-			ranges::max(vertices, [&](Point3D const& a, Point3D const& b) { return a.z > b.z; }).z
+			ranges::max(vertices, [&](Point3D const& a, Point3D const& b) { return a.z < b.z; }).z
 		};
 		vector<unique_ptr<Point const>> points;
 		for(auto const& vertex : vertices)
-- 
2.43.0


From 5b340a09474855fc89d91371479e4ea38f93d377 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:44:21 +0000
Subject: [PATCH 25/43] fix: primitives without any vertex must not crash the
 parser

---
 src/infra/parsers/parser_from_csx.cpp | 9 +++++++++
 1 file changed, 9 insertions(+)

diff --git a/src/infra/parsers/parser_from_csx.cpp b/src/infra/parsers/parser_from_csx.cpp
index e7e9351..5cb66f6 100644
--- a/src/infra/parsers/parser_from_csx.cpp
+++ b/src/infra/parsers/parser_from_csx.cpp
@@ -354,6 +354,9 @@ void ParserFromCsx::Pimpl::parse_primitive_linpoly(pugi::xml_node const& node, s
 			vertex.attribute("X1").as_double(),
 			vertex.attribute("X2").as_double()));
 
+	if(points.empty())
+		return;
+
 	Bounding2D bounding(detect_bounding(points));
 
 	board.add_polygon(plane.value(), material, name, priority, { elevation, elevation + length }, std::move(points));
@@ -435,6 +438,9 @@ void ParserFromCsx::Pimpl::parse_primitive_polygon(pugi::xml_node const& node, s
 			vertex.attribute("X1").as_double(),
 			vertex.attribute("X2").as_double()));
 
+	if(points.empty())
+		return;
+
 	Bounding2D bounding(detect_bounding(points));
 
 	board.add_polygon(plane.value(), material, name, priority, { elevation, elevation }, std::move(points));
@@ -563,6 +569,9 @@ void ParserFromCsx::Pimpl::parse_primitive_curve(pugi::xml_node const& node, sha
 			vertex.attribute("Z").as_double());
 	}
 
+	if(vertices.empty())
+		return;
+
 	// TODO support onepoint polygon and open polygons (not to double points, edges & angles)
 	if(params.with_yz) {
 		// TODO Z placement here is the bounding box
-- 
2.43.0


From 6802445bdd65a5e8adf2eb5a520c1e45941b5506 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:44:32 +0000
Subject: [PATCH 26/43] fix: polygons and linpolys of a plane that is not
 processed are ignored

---
 src/infra/parsers/parser_from_csx.cpp | 16 ++++++++++++++--
 1 file changed, 14 insertions(+), 2 deletions(-)

diff --git a/src/infra/parsers/parser_from_csx.cpp b/src/infra/parsers/parser_from_csx.cpp
index 5cb66f6..38b01b2 100644
--- a/src/infra/parsers/parser_from_csx.cpp
+++ b/src/infra/parsers/parser_from_csx.cpp
@@ -53,6 +53,16 @@ constexpr optional<Plane> to_plane(size_t const normdir) {
 	}
 }
 
+//******************************************************************************
+bool is_included(Plane const plane, ParserFromCsx::Params const& params) {
+	switch(plane) {
+	case YZ: return params.with_yz;
+	case ZX: return params.with_zx;
+	case XY: return params.with_xy;
+	default: ::unreachable();
+	}
+}
+
 //******************************************************************************
 expected<double, string> str_to_double(string_view const& str) {
 	double res;
@@ -359,7 +369,8 @@ void ParserFromCsx::Pimpl::parse_primitive_linpoly(pugi::xml_node const& node, s
 
 	Bounding2D bounding(detect_bounding(points));
 
-	board.add_polygon(plane.value(), material, name, priority, { elevation, elevation + length }, std::move(points));
+	if(is_included(plane.value(), params))
+		board.add_polygon(plane.value(), material, name, priority, { elevation, elevation + length }, std::move(points));
 	if(length == 0) {
 //		board.add_fixed_meshline_policy(normal.value(), elevation);
 //		switch(plane.value()) {
@@ -443,7 +454,8 @@ void ParserFromCsx::Pimpl::parse_primitive_polygon(pugi::xml_node const& node, s
 
 	Bounding2D bounding(detect_bounding(points));
 
-	board.add_polygon(plane.value(), material, name, priority, { elevation, elevation }, std::move(points));
+	if(is_included(plane.value(), params))
+		board.add_polygon(plane.value(), material, name, priority, { elevation, elevation }, std::move(points));
 	board.add_fixed_meshline_policy(normal.value(), elevation);
 }
 
-- 
2.43.0


From dae68ac1ba4853fe5fabf832220a4a645feeb8cd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:44:42 +0000
Subject: [PATCH 27/43] fix: a cylinder spans its whole diameter in the planes
 along its axis

---
 src/infra/parsers/parser_from_csx.cpp | 36 +++++++++++++--------------
 1 file changed, 18 insertions(+), 18 deletions(-)

diff --git a/src/infra/parsers/parser_from_csx.cpp b/src/infra/parsers/parser_from_csx.cpp
index 38b01b2..2e4aad2 100644
--- a/src/infra/parsers/parser_from_csx.cpp
+++ b/src/infra/parsers/parser_from_csx.cpp
@@ -500,45 +500,45 @@ void ParserFromCsx::Pimpl::parse_primitive_cylinder(pugi::xml_node const& node,
 		if(params.with_zx)
 			// TODO Z placement here is the bounding box
 			board.add_polygon_from_box(ZX, material, name, priority,
-				{ p1.y, p2.y },
-				{ p1.z - radius/2, p1.x },
-				{ p2.z + radius/2, p2.x });
+				{ p1.y - radius, p2.y + radius },
+				{ p1.z - radius, p1.x },
+				{ p2.z + radius, p2.x });
 		if(params.with_xy)
 			// TODO Z placement here is the bounding box
 			board.add_polygon_from_box(XY, material, name, priority,
-				{ p1.z, p2.z },
-				{ p1.x, p1.y - radius/2 },
-				{ p2.x, p2.y + radius/2 });
+				{ p1.z - radius, p2.z + radius },
+				{ p1.x, p1.y - radius },
+				{ p2.x, p2.y + radius });
 	} else if(p1.z == p2.z && p1.x == p2.x) {
 		if(params.with_zx)
 			board.add_polygon(ZX, material, name, priority, { p1.y, p2.y }, circle_to_points({ p1.z, p1.x }, radius));
 		if(params.with_xy)
 			// TODO Z placement here is the bounding box
 			board.add_polygon_from_box(XY, material, name, priority,
-				{ p1.z, p2.z },
-				{ p1.x - radius/2, p1.y },
-				{ p2.x + radius/2, p2.y });
+				{ p1.z - radius, p2.z + radius },
+				{ p1.x - radius, p1.y },
+				{ p2.x + radius, p2.y });
 		if(params.with_yz)
 			// TODO Z placement here is the bounding box
 			board.add_polygon_from_box(YZ, material, name, priority,
-				{ p1.x, p2.x },
-				{ p1.y, p1.z - radius/2 },
-				{ p2.y, p2.z + radius/2 });
+				{ p1.x - radius, p2.x + radius },
+				{ p1.y, p1.z - radius },
+				{ p2.y, p2.z + radius });
 	} else if(p1.x == p2.x && p1.y == p2.y) {
 		if(params.with_xy)
 			board.add_polygon(XY, material, name, priority, { p1.z, p2.z }, circle_to_points({ p1.x, p1.y }, radius));
 		if(params.with_yz)
 			// TODO Z placement here is the bounding box
 			board.add_polygon_from_box(YZ, material, name, priority,
-				{ p1.x, p2.x },
-				{ p1.y - radius/2, p1.z },
-				{ p2.y + radius/2, p2.z });
+				{ p1.x - radius, p2.x + radius },
+				{ p1.y - radius, p1.z },
+				{ p2.y + radius, p2.z });
 		if(params.with_zx)
 			// TODO Z placement here is the bounding box
 			board.add_polygon_from_box(ZX, material, name, priority,
-				{ p1.y, p2.y },
-				{ p1.z, p1.x - radius/2 },
-				{ p2.z, p2.x + radius/2 });
+				{ p1.y - radius, p2.y + radius },
+				{ p1.z, p1.x - radius },
+				{ p2.z, p2.x + radius });
 	} else {
 		warn_unsupported_primitive(format("{} (with diagonal axis)", node.name()), name);
 	}
-- 
2.43.0


From b87f8be7069da1265f67cd681cee5cc7e846c2f9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:45:21 +0000
Subject: [PATCH 28/43] fix: saved mesh lines keep their whole precision

---
 src/infra/serializers/serializer_to_csx.cpp | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/src/infra/serializers/serializer_to_csx.cpp b/src/infra/serializers/serializer_to_csx.cpp
index aee005f..1a9c7bc 100644
--- a/src/infra/serializers/serializer_to_csx.cpp
+++ b/src/infra/serializers/serializer_to_csx.cpp
@@ -4,6 +4,8 @@
 /// @author Thomas Lepoix <thomas.lepoix@protonmail.ch>
 ///*****************************************************************************
 
+#include <format>
+
 #include <pugixml.hpp>
 
 #include "domain/mesh/meshline.hpp"
@@ -96,10 +98,10 @@ void SerializerToCsx::visit(Board& board) {
 		string out;
 		if(params.with_meshlines)
 			for(auto const& meshline : board.get_meshlines(axis))
-				out += to_string(meshline->coord.value()) + ",";
+				out += format("{},", meshline->coord.value());
 		if(params.with_meshline_policies)
 			for(auto const& meshline : board.get_meshline_policies_meshlines(axis))
-				out += to_string(meshline->coord.value()) + ",";
+				out += format("{},", meshline->coord.value());
 
 		if(!out.empty())
 			out.pop_back();
-- 
2.43.0


From 3239e685386f25144fb471d9f6936d5ddd295a99 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:45:21 +0000
Subject: [PATCH 29/43] fix: saving both regular and policy mesh lines must
 list each of them once, in order

---
 src/infra/serializers/serializer_to_csx.cpp | 16 +++++++++++++---
 1 file changed, 13 insertions(+), 3 deletions(-)

diff --git a/src/infra/serializers/serializer_to_csx.cpp b/src/infra/serializers/serializer_to_csx.cpp
index 1a9c7bc..fbf2f20 100644
--- a/src/infra/serializers/serializer_to_csx.cpp
+++ b/src/infra/serializers/serializer_to_csx.cpp
@@ -4,7 +4,9 @@
 /// @author Thomas Lepoix <thomas.lepoix@protonmail.ch>
 ///*****************************************************************************
 
+#include <algorithm>
 #include <format>
+#include <vector>
 
 #include <pugixml.hpp>
 
@@ -95,13 +97,21 @@ void SerializerToCsx::visit(Board& board) {
 	grid.remove_children();
 
 	auto const add_meshlines_to_xml_doc = [this, &grid, &board](Axis const axis) {
-		string out;
+		vector<Coord> coords;
 		if(params.with_meshlines)
 			for(auto const& meshline : board.get_meshlines(axis))
-				out += format("{},", meshline->coord.value());
+				coords.push_back(meshline->coord);
 		if(params.with_meshline_policies)
 			for(auto const& meshline : board.get_meshline_policies_meshlines(axis))
-				out += format("{},", meshline->coord.value());
+				coords.push_back(meshline->coord);
+
+		ranges::sort(coords, {}, &Coord::value);
+		auto const [redundant, end] = ranges::unique(coords);
+		coords.erase(redundant, end);
+
+		string out;
+		for(Coord const& coord : coords)
+			out += format("{},", coord.value());
 
 		if(!out.empty())
 			out.pop_back();
-- 
2.43.0


From bd38e8afa147fb12fd4348ed1e1936d8f2df6e8f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:45:21 +0000
Subject: [PATCH 30/43] fix: failing to write the output file must be reported

---
 src/app/openemsh.cpp                        | 3 +++
 src/infra/serializers/serializer_to_csx.cpp | 7 ++++++-
 2 files changed, 9 insertions(+), 1 deletion(-)

diff --git a/src/app/openemsh.cpp b/src/app/openemsh.cpp
index d1ce214..ec0724a 100644
--- a/src/app/openemsh.cpp
+++ b/src/app/openemsh.cpp
@@ -146,6 +146,9 @@ expected<void, string> OpenEMSH::write() const {
 //		SerializerToPlantuml::run(*board, static_cast<SerializerToPlantuml::Params const&>(params));
 		ofstream out(params.output);
 		out << SerializerToPlantuml::run(*board);
+		out.close();
+		if(!out)
+			return unexpected("Cannot write file");
 	} break;
 	case Params::OutputFormat::PRETTYPRINT:
 		cerr << SerializerToPrettyprint::run(*board);
diff --git a/src/infra/serializers/serializer_to_csx.cpp b/src/infra/serializers/serializer_to_csx.cpp
index fbf2f20..b8c4ca1 100644
--- a/src/infra/serializers/serializer_to_csx.cpp
+++ b/src/infra/serializers/serializer_to_csx.cpp
@@ -6,6 +6,7 @@
 
 #include <algorithm>
 #include <format>
+#include <fstream>
 #include <vector>
 
 #include <pugixml.hpp>
@@ -139,5 +140,9 @@ void SerializerToCsx::visit(Board& board) {
 		doc.remove_child("OpenEMSH");
 	}
 
-	doc.save_file(output.native().c_str(), "  ");
+	ofstream file(output, ios::binary);
+	doc.save(file, "  ");
+	file.close();
+	if(!file)
+		error = "Cannot write file";
 }
-- 
2.43.0


From 461a5b5f6ef3272842c3729d8a3e335ede00152a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:45:21 +0000
Subject: [PATCH 31/43] fix: no output file of any format is overwritten
 without being forced to

---
 src/app/openemsh.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/app/openemsh.cpp b/src/app/openemsh.cpp
index ec0724a..c553b8f 100644
--- a/src/app/openemsh.cpp
+++ b/src/app/openemsh.cpp
@@ -129,7 +129,7 @@ expected<void, string> OpenEMSH::parse() {
 //******************************************************************************
 bool OpenEMSH::is_about_overwriting() const {
 	return !params.force
-	&& params.output_format == Params::OutputFormat::CSX
+	&& params.output_format != Params::OutputFormat::PRETTYPRINT
 	&& (filesystem::exists(params.output)
 		|| (params.input == params.output
 		&& board
-- 
2.43.0


From ce1dde1d277473b479e531fcef02efd645b657f9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:45:21 +0000
Subject: [PATCH 32/43] fix: the parameters of diagonal zones are saved and
 read with the other ones

---
 src/infra/parsers/parser_from_csx.cpp       | 3 +++
 src/infra/serializers/serializer_to_csx.cpp | 3 +++
 2 files changed, 6 insertions(+)

diff --git a/src/infra/parsers/parser_from_csx.cpp b/src/infra/parsers/parser_from_csx.cpp
index 2e4aad2..6887204 100644
--- a/src/infra/parsers/parser_from_csx.cpp
+++ b/src/infra/parsers/parser_from_csx.cpp
@@ -139,6 +139,9 @@ expected<void, string> ParserFromCsx::Pimpl::parse_oemsh(pugi::xml_node const& n
 	if(auto a = global_params.attribute("Smoothness"); a) domain_params.smoothness = a.as_double();
 	if(auto a = global_params.attribute("dmax"); a) domain_params.dmax = a.as_double();
 	if(auto a = global_params.attribute("lmin"); a) domain_params.lmin = a.as_uint();
+	if(auto a = global_params.attribute("DiagonalDmax"); a) domain_params.diagonal_dmax = a.as_double();
+	if(auto a = global_params.attribute("DiagonalLmin"); a) domain_params.diagonal_lmin = a.as_uint();
+	if(auto a = global_params.attribute("DiagonalMinimalAngle"); a) domain_params.consecutive_diagonal_minimal_angle = a.as_double();
 
 	pugi::xml_node fixed_meshlines = node.child("FixedMeshlines");
 	size_t delta_unit = fixed_meshlines.attribute("DeltaUnit").as_uint(1);
diff --git a/src/infra/serializers/serializer_to_csx.cpp b/src/infra/serializers/serializer_to_csx.cpp
index b8c4ca1..452b17b 100644
--- a/src/infra/serializers/serializer_to_csx.cpp
+++ b/src/infra/serializers/serializer_to_csx.cpp
@@ -136,6 +136,9 @@ void SerializerToCsx::visit(Board& board) {
 		global_params.append_attribute("Smoothness").set_value(p.smoothness);
 		global_params.append_attribute("dmax").set_value(p.dmax);
 		global_params.append_attribute("lmin").set_value(p.lmin);
+		global_params.append_attribute("DiagonalDmax").set_value(p.diagonal_dmax);
+		global_params.append_attribute("DiagonalLmin").set_value(p.diagonal_lmin);
+		global_params.append_attribute("DiagonalMinimalAngle").set_value(p.consecutive_diagonal_minimal_angle);
 	} else {
 		doc.remove_child("OpenEMSH");
 	}
-- 
2.43.0


From 8b1ad7beb9048b976ac00a5f7126854a146a9042 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:54:09 +0000
Subject: [PATCH 33/43] fix: mesher options with which meshing cannot end are
 refused

---
 src/ui/cli/cli.cpp | 41 +++++++++++++++++++++++++++++++++++++----
 1 file changed, 37 insertions(+), 4 deletions(-)

diff --git a/src/ui/cli/cli.cpp b/src/ui/cli/cli.cpp
index ca0afeb..8abb84d 100644
--- a/src/ui/cli/cli.cpp
+++ b/src/ui/cli/cli.cpp
@@ -9,9 +9,11 @@
 //#include <CLI/Formatter.hpp>
 //#include <CLI/Validators.hpp>
 
+#include <cmath>
 #include <cstdlib>
 #include <format>
 #include <functional>
+#include <limits>
 #include <map>
 #include <string>
 
@@ -54,7 +56,7 @@ struct BoundExclusiveInclusive : CLI::Validator {
 			using CLI::detail::lexical_cast;
 			double val;
 			bool converted = lexical_cast(input, val);
-			if((!converted) || (val <= min || val > max)) {
+			if((!converted) || !(val > min && val <= max)) {
 				stringstream out;
 				out << "Value " << input << " not in range ]"
 				    << min << " - " << max << "]";
@@ -70,6 +72,36 @@ struct BoundExclusiveInclusive : CLI::Validator {
 	}
 };
 
+//******************************************************************************
+struct GreaterThan : CLI::Validator {
+	explicit GreaterThan(double min) {
+		name_ = "Greater than";
+		func_ = [min](string const& input) {
+			using CLI::detail::lexical_cast;
+			double val;
+			if(!lexical_cast(input, val) || !(val > min))
+				return format("Value {} not greater than {}", input, min);
+			return std::string();
+		};
+		desc_function_ = [min]() { return format("> {}", min); };
+	}
+};
+
+//******************************************************************************
+struct Finite : CLI::Validator {
+	explicit Finite(double min = numeric_limits<double>::lowest()) {
+		name_ = "Finite";
+		func_ = [min](string const& input) {
+			using CLI::detail::lexical_cast;
+			double val;
+			if(!lexical_cast(input, val) || !isfinite(val) || val < min)
+				return format("Value {} not a finite number not less than {}", input, min);
+			return std::string();
+		};
+		desc_function_ = []() { return std::string(); };
+	}
+};
+
 //******************************************************************************
 struct FutureConditional : CLI::Validator {
 	FutureConditional(bool const& cond, string const& error_message) {
@@ -159,6 +191,7 @@ app::OpenEMSH::Params cli(int const argc, char* argv[]) {
 	->take_all()
 	->delimiter(',')
 	->transform(CLI::CheckedTransformer(axes, CLI::ignore_case).application_index(0).description(""))
+	->check(Finite().application_index(1))
 	->type_name("["s
 		+ CLI::detail::type_name<decltype(domain::Params::input_fixed_meshlines)::value_type::first_type>() + ":"
 		+ CLI::detail::generate_map(CLI::detail::smart_deref(axes), true) + ","
@@ -168,12 +201,12 @@ app::OpenEMSH::Params cli(int const argc, char* argv[]) {
 	app.add_option_function<decltype(domain::Params::proximity_limit)>("--proximity-limit",
 		make_overrider<&domain::Params::proximity_limit>(domain_overrides),
 		"Distance under which two adjacent lines trigger a conflict."
-	)->group("Mesher options");
+	)->group("Mesher options")->check(Finite(0));
 
 	app.add_option_function<decltype(domain::Params::dmax)>("--dmax",
 		make_overrider<&domain::Params::dmax>(domain_overrides),
 		"Maximum distance between two adjacent lines."
-	)->group("Mesher options"); // TODO is in fact mres / sres / ares
+	)->group("Mesher options")->check(GreaterThan(0)); // TODO is in fact mres / sres / ares
 
 	app.add_option_function<decltype(domain::Params::lmin)>("--lmin",
 		make_overrider<&domain::Params::lmin>(domain_overrides),
@@ -188,7 +221,7 @@ app::OpenEMSH::Params cli(int const argc, char* argv[]) {
 	app.add_option_function<decltype(domain::Params::diagonal_dmax)>("--diag-dmax",
 		make_overrider<&domain::Params::diagonal_dmax>(domain_overrides),
 		"Maximum distance between two adjacent lines in diagonal zones."
-	)->group("Mesher options");
+	)->group("Mesher options")->check(GreaterThan(0));
 
 	app.add_option_function<decltype(domain::Params::diagonal_lmin)>("--diag-lmin",
 		make_overrider<&domain::Params::diagonal_lmin>(domain_overrides),
-- 
2.43.0


From 337e24f7ec165bb0ec88f032ba5c6bf15930e219 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:54:09 +0000
Subject: [PATCH 34/43] fix: documents whose parameters or fixed lines cannot
 be meshed with are refused

---
 src/infra/parsers/parser_from_csx.cpp | 11 +++++++++--
 1 file changed, 9 insertions(+), 2 deletions(-)

diff --git a/src/infra/parsers/parser_from_csx.cpp b/src/infra/parsers/parser_from_csx.cpp
index 6887204..e16cd76 100644
--- a/src/infra/parsers/parser_from_csx.cpp
+++ b/src/infra/parsers/parser_from_csx.cpp
@@ -5,6 +5,7 @@
 ///*****************************************************************************
 
 #include <charconv>
+#include <cmath>
 #include <format>
 #include <limits>
 #include <map>
@@ -67,10 +68,10 @@ bool is_included(Plane const plane, ParserFromCsx::Params const& params) {
 expected<double, string> str_to_double(string_view const& str) {
 	double res;
 	auto [_, e] = std::from_chars(str.data(), str.data() + str.size(), res);
-	if(e == std::errc {})
+	if(e == std::errc {} && isfinite(res))
 		return res;
 	else
-		return unexpected(make_error_code(e).message());
+		return unexpected(make_error_code(e == std::errc {} ? std::errc::argument_out_of_domain : e).message());
 }
 
 //******************************************************************************
@@ -143,6 +144,12 @@ expected<void, string> ParserFromCsx::Pimpl::parse_oemsh(pugi::xml_node const& n
 	if(auto a = global_params.attribute("DiagonalLmin"); a) domain_params.diagonal_lmin = a.as_uint();
 	if(auto a = global_params.attribute("DiagonalMinimalAngle"); a) domain_params.consecutive_diagonal_minimal_angle = a.as_double();
 
+	if(!(isfinite(domain_params.proximity_limit) && domain_params.proximity_limit >= 0)
+	|| !(isfinite(domain_params.smoothness) && domain_params.smoothness >= 1)
+	|| !(domain_params.dmax > 0)
+	|| !(domain_params.diagonal_dmax > 0))
+		return unexpected("Invalid OpenEMSH parameters");
+
 	pugi::xml_node fixed_meshlines = node.child("FixedMeshlines");
 	size_t delta_unit = fixed_meshlines.attribute("DeltaUnit").as_uint(1);
 	AxisSpace<string_view> lines = {
-- 
2.43.0


From 40504da043c562e5ff220fc11eb8237298375f6d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:54:09 +0000
Subject: [PATCH 35/43] fix: spaces before the meshlines of a document do not
 make it invalid

---
 src/infra/parsers/parser_from_csx.cpp | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/infra/parsers/parser_from_csx.cpp b/src/infra/parsers/parser_from_csx.cpp
index e16cd76..6936e6a 100644
--- a/src/infra/parsers/parser_from_csx.cpp
+++ b/src/infra/parsers/parser_from_csx.cpp
@@ -4,6 +4,7 @@
 /// @author Thomas Lepoix <thomas.lepoix@protonmail.ch>
 ///*****************************************************************************
 
+#include <algorithm>
 #include <charconv>
 #include <cmath>
 #include <format>
@@ -65,7 +66,8 @@ bool is_included(Plane const plane, ParserFromCsx::Params const& params) {
 }
 
 //******************************************************************************
-expected<double, string> str_to_double(string_view const& str) {
+expected<double, string> str_to_double(string_view str) {
+	str.remove_prefix(min(str.find_first_not_of(" \t\r\n"), str.size()));
 	double res;
 	auto [_, e] = std::from_chars(str.data(), str.data() + str.size(), res);
 	if(e == std::errc {} && isfinite(res))
-- 
2.43.0


From 74be11a17f0cbd46a9c1c2e8075bbb675ae9af3d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:13:06 +0000
Subject: [PATCH 36/43] fix: saving a document keeps its comments and
 processing instructions

---
 src/infra/serializers/serializer_to_csx.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/infra/serializers/serializer_to_csx.cpp b/src/infra/serializers/serializer_to_csx.cpp
index 452b17b..cff3b27 100644
--- a/src/infra/serializers/serializer_to_csx.cpp
+++ b/src/infra/serializers/serializer_to_csx.cpp
@@ -80,7 +80,7 @@ pugi::xml_node find_or_append_child(pugi::xml_node& node, char const* child) {
 //******************************************************************************
 void SerializerToCsx::visit(Board& board) {
 	pugi::xml_document doc;
-	pugi::xml_parse_result const res = doc.load_file(input.native().c_str());
+	pugi::xml_parse_result const res = doc.load_file(input.native().c_str(), pugi::parse_default | pugi::parse_comments | pugi::parse_pi);
 
 	if(res.status != pugi::status_ok) {
 		error = res.description();
-- 
2.43.0


From 03584e67d8a6212702cc6918ded055e58da7d25a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:45:38 +0000
Subject: [PATCH 37/43] fix: do not close the window when the save asked for
 did not happen

---
 src/ui/qt/main_window.cpp | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/src/ui/qt/main_window.cpp b/src/ui/qt/main_window.cpp
index 50d2cfa..b614fea 100644
--- a/src/ui/qt/main_window.cpp
+++ b/src/ui/qt/main_window.cpp
@@ -757,6 +757,11 @@ void MainWindow::closeEvent(QCloseEvent* event) {
 			return;
 		} else if(res == Logger::UserAction::SAVE) {
 			on_a_file_save_triggered();
+			// Saving could have been cancelled or could have failed.
+			if(is_unsaved) {
+				event->ignore();
+				return;
+			}
 		}
 	}
 	event->accept();
-- 
2.43.0


From a7775d5943e7b4bc7853ff1f966a489901915f46 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:45:39 +0000
Subject: [PATCH 38/43] fix: do not offer to save a document that failed to
 open

---
 src/ui/qt/main_window.cpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/ui/qt/main_window.cpp b/src/ui/qt/main_window.cpp
index b614fea..87d56b2 100644
--- a/src/ui/qt/main_window.cpp
+++ b/src/ui/qt/main_window.cpp
@@ -136,6 +136,7 @@ bool MainWindow::parse_and_display() {
 	; !res.has_value()) {
 		QGuiApplication::restoreOverrideCursor();
 		update_board_dependant_buttons_visibility(false);
+		is_unsaved = false;
 		log({
 			.level = Logger::Level::ERROR,
 			.user_actions = { Logger::UserAction::OK },
-- 
2.43.0


From ec04b0c274f7474c43905995e5d269cf9881ff44 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 07:26:11 +0000
Subject: [PATCH 39/43] fix: the unit of fixed lines may be fractional

DeltaUnit of FixedMeshlines was read as an unsigned integer, so that a unit
of 0.5 put every line at 0. One that is not finite is refused.
---
 src/infra/parsers/parser_from_csx.cpp | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/infra/parsers/parser_from_csx.cpp b/src/infra/parsers/parser_from_csx.cpp
index 6936e6a..ef02a12 100644
--- a/src/infra/parsers/parser_from_csx.cpp
+++ b/src/infra/parsers/parser_from_csx.cpp
@@ -153,7 +153,10 @@ expected<void, string> ParserFromCsx::Pimpl::parse_oemsh(pugi::xml_node const& n
 		return unexpected("Invalid OpenEMSH parameters");
 
 	pugi::xml_node fixed_meshlines = node.child("FixedMeshlines");
-	size_t delta_unit = fixed_meshlines.attribute("DeltaUnit").as_uint(1);
+	double delta_unit = fixed_meshlines.attribute("DeltaUnit").as_double(1);
+	if(!isfinite(delta_unit))
+		return unexpected("Invalid FixedMeshlines DeltaUnit");
+
 	AxisSpace<string_view> lines = {
 		fixed_meshlines.child_value("XLines"),
 		fixed_meshlines.child_value("YLines"),
-- 
2.43.0


From ed4b642da67f4e0a976dca2571d0d15e3ffbc371 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 07:26:11 +0000
Subject: [PATCH 40/43] fix: the command line sink only takes the answers it
 offers

It accepted answers that were not among those offered, and kept asking for
ever once its input had ended.
---
 src/ui/cli/logger.cpp | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/src/ui/cli/logger.cpp b/src/ui/cli/logger.cpp
index d4ba9db..0646855 100644
--- a/src/ui/cli/logger.cpp
+++ b/src/ui/cli/logger.cpp
@@ -100,9 +100,10 @@ Logger::UserAction LoggerSink::log(Logger::LogEvent const& log) const {
 		do {
 			print(cerr, " {} ? ", to_string(log.user_actions));
 			string ln;
-			getline(cin, ln);
+			if(!getline(cin, ln))
+				return Logger::UserAction::NOTHING;
 			res = from_string(ln);
-		} while(res == Logger::UserAction::NOTHING);
+		} while(res == Logger::UserAction::NOTHING || !log.user_actions.contains(res));
 		return res;
 	} else {
 		if(!(log.level == Logger::Level::INFO && !verbose))
-- 
2.43.0


From 77ebfdd6cdf77ee7f122ab39c3cecbc68939069f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 07:53:05 +0000
Subject: [PATCH 41/43] fix: edit dialogs refuse values nothing can be meshed
 with

A maximum distance of zero or less, a smoothness below one, a negative
proximity limit or a value that is not a number was accepted by the dialogs:
the next steps then never ended, or filled the memory with meshlines.
---
 .../edit/edit_model_conflict_diagonal_or_circular_zone.cpp | 3 ++-
 src/ui/qt/edit/edit_model_global.cpp                       | 7 ++++++-
 src/ui/qt/edit/edit_model_interval.cpp                     | 6 +++++-
 src/ui/qt/edit/edit_model_meshline_policy.cpp              | 3 ++-
 4 files changed, 15 insertions(+), 4 deletions(-)

diff --git a/src/ui/qt/edit/edit_model_conflict_diagonal_or_circular_zone.cpp b/src/ui/qt/edit/edit_model_conflict_diagonal_or_circular_zone.cpp
index 74ae1da..68b2440 100644
--- a/src/ui/qt/edit/edit_model_conflict_diagonal_or_circular_zone.cpp
+++ b/src/ui/qt/edit/edit_model_conflict_diagonal_or_circular_zone.cpp
@@ -37,7 +37,8 @@ void EditModelConflictDiagonalOrCircularZone::commit() {
 	std::array does_succeed = {
 		try_to_ulong(item(0, V)->text(), state.lmin),
 		try_to_double(item(1, V)->text(), state.dmax),
-		try_to_double(item(2, V)->text(), state.minimal_angle)
+		try_to_double(item(2, V)->text(), state.minimal_angle),
+		state.dmax > 0
 	};
 
 	if(std::ranges::all_of(does_succeed, is_true)) {
diff --git a/src/ui/qt/edit/edit_model_global.cpp b/src/ui/qt/edit/edit_model_global.cpp
index dc2a0e2..9220be1 100644
--- a/src/ui/qt/edit/edit_model_global.cpp
+++ b/src/ui/qt/edit/edit_model_global.cpp
@@ -6,6 +6,7 @@
 
 #include <algorithm>
 #include <array>
+#include <cmath>
 
 #include "app/steps.hpp"
 #include "domain/global.hpp"
@@ -53,7 +54,11 @@ void EditModelGlobal::commit() {
 		try_to_double(item(3, V)->text(), params.dmax),
 		try_to_double(item(4, V)->text(), params.consecutive_diagonal_minimal_angle),
 		try_to_double(item(5, V)->text(), params.diagonal_dmax),
-		try_to_ulong(item(6, V)->text(), params.diagonal_lmin)
+		try_to_ulong(item(6, V)->text(), params.diagonal_lmin),
+		std::isfinite(params.proximity_limit) && params.proximity_limit >= 0,
+		std::isfinite(params.smoothness) && params.smoothness >= 1,
+		params.dmax > 0,
+		params.diagonal_dmax > 0
 	};
 
 	if(std::ranges::all_of(does_succeed, is_true)) {
diff --git a/src/ui/qt/edit/edit_model_interval.cpp b/src/ui/qt/edit/edit_model_interval.cpp
index ae84d92..d2aee9f 100644
--- a/src/ui/qt/edit/edit_model_interval.cpp
+++ b/src/ui/qt/edit/edit_model_interval.cpp
@@ -6,6 +6,7 @@
 
 #include <algorithm>
 #include <array>
+#include <cmath>
 
 #include "app/steps.hpp"
 #include "domain/mesh/interval.hpp"
@@ -47,7 +48,10 @@ void EditModelInterval::commit() {
 		try_to_ulong(item(1, V)->text(), state.before.lmin),
 		try_to_double(item(2, V)->text(), state.before.smoothness),
 		try_to_ulong(item(3, V)->text(), state.after.lmin),
-		try_to_double(item(4, V)->text(), state.after.smoothness)
+		try_to_double(item(4, V)->text(), state.after.smoothness),
+		state.dmax > 0,
+		std::isfinite(state.before.smoothness) && state.before.smoothness >= 1,
+		std::isfinite(state.after.smoothness) && state.after.smoothness >= 1
 	};
 
 	if(std::ranges::all_of(does_succeed, is_true)) {
diff --git a/src/ui/qt/edit/edit_model_meshline_policy.cpp b/src/ui/qt/edit/edit_model_meshline_policy.cpp
index 8f908e0..d087668 100644
--- a/src/ui/qt/edit/edit_model_meshline_policy.cpp
+++ b/src/ui/qt/edit/edit_model_meshline_policy.cpp
@@ -76,7 +76,8 @@ void EditModelMeshlinePolicy::commit() {
 	std::array does_succeed = {
 		are_policy_and_normal_compatible(),
 		try_to_bool(item(2, V)->checkState(), state.is_enabled),
-		try_to_double(item(3, V)->text(), state.d)
+		try_to_double(item(3, V)->text(), state.d),
+		state.d > 0
 	};
 
 	if(std::ranges::all_of(does_succeed, is_true)) {
-- 
2.43.0


From 6be0264747865cfd9a4be60e313c55e425c927e0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 08:12:48 +0000
Subject: [PATCH 42/43] fix: progress of fixed meshline policies counts them
 once

The count shown went one past the number of policies to add.
---
 src/domain/board.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/domain/board.cpp b/src/domain/board.cpp
index fda780e..a0ae1c8 100644
--- a/src/domain/board.cpp
+++ b/src/domain/board.cpp
@@ -626,7 +626,7 @@ void Board::add_fixed_meshline_policies(Axis axis) {
 	auto* t = next_timepoint();
 	for(auto const& create_meshline_policy : fixed_meshline_policy_creators[axis]) {
 		create_meshline_policy(this, t);
-		bar.tick(++i);
+		bar.tick(i++);
 	}
 	bar.complete();
 }
-- 
2.43.0


From 8d3f523bf416d0a133d0e285ed865323e50b997e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 08:12:48 +0000
Subject: [PATCH 43/43] fix: the progress bar of the status bar shows the count
 it is given

The two-argument tick, already counting from one as the command line shows
it, was shifted by one: the last one was out of range and so ignored.
---
 src/ui/qt/progress.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/ui/qt/progress.cpp b/src/ui/qt/progress.cpp
index 185aba0..b40953b 100644
--- a/src/ui/qt/progress.cpp
+++ b/src/ui/qt/progress.cpp
@@ -40,7 +40,7 @@ void ProgressBar::tick(size_t i) {
 
 //******************************************************************************
 void ProgressBar::tick(size_t /*i*/, size_t j) {
-	bar->setValue((int) ++j);
+	bar->setValue((int) j);
 }
 
 //******************************************************************************
-- 
2.43.0

