From d4169a554f20ca770eacefc014300e9d71ca5783 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:20:34 +0000
Subject: [PATCH 01/54] fix: A* tree search drops a cheaper duplicate state
 because the frontier rejects equal states

---
 planner/src/algo/a_star.h | 10 ++++++++--
 1 file changed, 8 insertions(+), 2 deletions(-)

diff --git a/planner/src/algo/a_star.h b/planner/src/algo/a_star.h
index 9cbd016..437ac92 100644
--- a/planner/src/algo/a_star.h
+++ b/planner/src/algo/a_star.h
@@ -233,14 +233,20 @@ namespace Planner {
 		struct HashNode {
 			std::size_t operator()(Node* node) const
 			{
-				return HashState()((*node)->state);
+				if constexpr (GraphSearch)
+					return HashState()((*node)->state);
+				else
+					return std::hash<Node*>()(node);
 			}
 		};
 
 		struct EqualNode {
 			bool operator()(Node* lhs, Node* rhs) const
 			{
-				return EqualState()((*lhs)->state, (*rhs)->state);
+				if constexpr (GraphSearch)
+					return EqualState()((*lhs)->state, (*rhs)->state);
+				else
+					return lhs == rhs;
 			}
 		};
 
-- 
2.43.0


From e7cba2ce1649f8d598a7c64c6b86840b478be5cf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:20:34 +0000
Subject: [PATCH 02/54] fix: bidirectional A* path contains the meeting state
 twice

---
 planner/src/algo/bidirectional_a_star.h | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/planner/src/algo/bidirectional_a_star.h b/planner/src/algo/bidirectional_a_star.h
index 8de8e8e..f681529 100644
--- a/planner/src/algo/bidirectional_a_star.h
+++ b/planner/src/algo/bidirectional_a_star.h
@@ -67,7 +67,9 @@ namespace Planner {
 		{
 			auto fPath = m_fSearch.GetPath();
 			auto rPath = m_rSearch.GetPath();
-			fPath.insert(fPath.end(), rPath.rbegin(), rPath.rend());
+			// The meeting state is the last state of both partial paths
+			if (!rPath.empty())
+				fPath.insert(fPath.end(), rPath.rbegin() + 1, rPath.rend());
 			return fPath;
 		}
 
-- 
2.43.0


From b1b3afafb8a50eb5466fc921ce02df0d8f4bb531 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:20:34 +0000
Subject: [PATCH 03/54] fix: averaged heuristic pair never passes the goals to
 the heuristics it combines

---
 planner/src/algo/a_star.h               | 2 ++
 planner/src/algo/bidirectional_a_star.h | 2 ++
 2 files changed, 4 insertions(+)

diff --git a/planner/src/algo/a_star.h b/planner/src/algo/a_star.h
index 437ac92..a1cd5b6 100644
--- a/planner/src/algo/a_star.h
+++ b/planner/src/algo/a_star.h
@@ -33,6 +33,8 @@ namespace Planner {
 		friend class AStarCombinedHeuristic;
 		template <typename S1, typename S2, typename Func>
 		friend class AStarHeuristicAdapter;
+		template <typename S>
+		friend class AverageHeuristic;
 		template <typename S, typename A, typename HashState, typename EqualState, bool GraphSearch, typename ExploredContainer>
 		friend class AStar;
 
diff --git a/planner/src/algo/bidirectional_a_star.h b/planner/src/algo/bidirectional_a_star.h
index f681529..1a01eab 100644
--- a/planner/src/algo/bidirectional_a_star.h
+++ b/planner/src/algo/bidirectional_a_star.h
@@ -29,6 +29,8 @@ namespace Planner {
 		{
 			m_init = init;
 			this->m_goal = goal;
+			m_toGoalHeuristic->SetGoal(goal);
+			m_toInitHeuristic->SetGoal(init);
 			m_constant = m_toInitHeuristic->GetHeuristicValue(goal) / 2.0;
 		}
 
-- 
2.43.0


From 0fa633c2d3d2081c91ad4868555968289ed0e417 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:20:34 +0000
Subject: [PATCH 04/54] fix: bidirectional A* stops before the shortest path is
 known

---
 planner/src/algo/bidirectional_a_star.h | 14 ++++++++++----
 1 file changed, 10 insertions(+), 4 deletions(-)

diff --git a/planner/src/algo/bidirectional_a_star.h b/planner/src/algo/bidirectional_a_star.h
index 1a01eab..05eac4b 100644
--- a/planner/src/algo/bidirectional_a_star.h
+++ b/planner/src/algo/bidirectional_a_star.h
@@ -170,8 +170,8 @@ namespace Planner {
 					if (m_fSearch.m_frontier.Empty() || m_rSearch.m_frontier.Empty())
 						return Status::Success;
 
-					double fTopCost = (*m_fSearch.m_frontier.Top())->pathCost;
-					double rTopCost = (*m_rSearch.m_frontier.Top())->pathCost;
+					double fTopCost = (*m_fSearch.m_frontier.Top())->totalCost;
+					double rTopCost = (*m_rSearch.m_frontier.Top())->totalCost;
 
 					// Check the stopping criterion
 					if (fTopCost + rTopCost >= bestCost + costOffset)
@@ -184,9 +184,15 @@ namespace Planner {
 	protected:
 		void FindIntersection(AStarNode<State, Action>* nodeA, UnidirectionalAStar& searchA, UnidirectionalAStar& searchB, double& bestPathCost)
 		{
+			// The other search may have expanded the state, or only reached it
+			AStarNode<State, Action>* nodeB = nullptr;
 			auto it = searchB.m_explored.find((*nodeA)->state);
-			if (it != searchB.m_explored.end()) {
-				auto nodeB = it->second;
+			if (it != searchB.m_explored.end())
+				nodeB = it->second;
+			else if (auto inFrontier = searchB.m_frontier.Find(nodeA))
+				nodeB = *inFrontier;
+
+			if (nodeB) {
 
 				// Check the path of the new candidate path
 				double candidatePathCost = (*nodeA)->pathCost + (*nodeB)->pathCost;
-- 
2.43.0


From c0fcc7dd7ea64132639fcdb3214ed4a2e18da4ad Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:27:19 +0000
Subject: [PATCH 05/54] fix: RRT and RRT* exceed the iteration and tree size
 budgets by one

---
 planner/src/algo/rrt.h      | 4 ++--
 planner/src/algo/rrt_star.h | 4 ++--
 2 files changed, 4 insertions(+), 4 deletions(-)

diff --git a/planner/src/algo/rrt.h b/planner/src/algo/rrt.h
index 52206a7..bf0fbf1 100644
--- a/planner/src/algo/rrt.h
+++ b/planner/src/algo/rrt.h
@@ -61,10 +61,10 @@ namespace Planner {
 			int count = -1;
 			while (true) {
 				count++;
-				if (count > m_parameters.maxIteration) {
+				if (count >= m_parameters.maxIteration) {
 					return Status::Failure;
 				}
-				if (m_tree.Size() > m_parameters.maxNumberTreeNode) {
+				if (m_tree.Size() >= m_parameters.maxNumberTreeNode) {
 					return Status::Failure;
 				}
 
diff --git a/planner/src/algo/rrt_star.h b/planner/src/algo/rrt_star.h
index 8b21024..35c706f 100644
--- a/planner/src/algo/rrt_star.h
+++ b/planner/src/algo/rrt_star.h
@@ -59,10 +59,10 @@ namespace Planner {
 			int count = -1;
 			while (true) {
 				count++;
-				if (count > m_parameters.maxIteration) {
+				if (count >= m_parameters.maxIteration) {
 					return Status::Failure;
 				}
-				if (m_tree.Size() > m_parameters.maxNumberTreeNode) {
+				if (m_tree.Size() >= m_parameters.maxNumberTreeNode) {
 					return Status::Failure;
 				}
 
-- 
2.43.0


From a73597f728c9879f21a5433488f3372fa2fffda2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:30:57 +0000
Subject: [PATCH 06/54] fix: RRT* overwrites the cost of a state that is
 already in the tree without moving it

---
 planner/src/algo/rrt_star.h | 10 +++++++---
 1 file changed, 7 insertions(+), 3 deletions(-)

diff --git a/planner/src/algo/rrt_star.h b/planner/src/algo/rrt_star.h
index 35c706f..b5350bc 100644
--- a/planner/src/algo/rrt_star.h
+++ b/planner/src/algo/rrt_star.h
@@ -96,10 +96,14 @@ namespace Planner {
 					}
 				}
 
-				// Add the node to the tree
+				// Add the node to the tree. If the state is already in the
+				// tree, its parent does not change and neither does its cost.
+				const auto treeSize = m_tree.Size();
 				auto newNode = m_tree.Extend(newState, bestParentNode);
-				(*newNode)->info.costFromGoal = bestCost;
-				(*newNode)->info.path = std::move(bestPath);
+				if (m_tree.Size() > treeSize) {
+					(*newNode)->info.costFromGoal = bestCost;
+					(*newNode)->info.path = std::move(bestPath);
+				}
 
 				// Check solution
 				if (IsSolution(newState)) {
-- 
2.43.0


From 25ca79d06b694c7aa2f7980f7913178a13f93a1a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:40:07 +0000
Subject: [PATCH 07/54] fix: Reeds-Shepp shortest distance is not scaled by the
 turning radius

---
 planner/src/geometry/reeds_shepp.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/planner/src/geometry/reeds_shepp.cpp b/planner/src/geometry/reeds_shepp.cpp
index 79d532a..5769594 100644
--- a/planner/src/geometry/reeds_shepp.cpp
+++ b/planner/src/geometry/reeds_shepp.cpp
@@ -633,7 +633,7 @@ namespace Planner {
 			if (out)
 				*out = { t, u, v };
 
-			return smallestLength;
+			return smallestLength * minTurningRadius;
 		}
 
 		PathSegment Solver::GetShortestPath(const Pose2d& start, const Pose2d& goal, double minTurningRadius, PathWords* word)
-- 
2.43.0


From e6905248ebdc38210a74c9e4a5e02f3961bf8af7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:40:07 +0000
Subject: [PATCH 08/54] fix: Reeds-Shepp LfSfRf word continues with a NaN
 length when it has no solution

---
 planner/src/geometry/reeds_shepp.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/planner/src/geometry/reeds_shepp.cpp b/planner/src/geometry/reeds_shepp.cpp
index 5769594..999e5e6 100644
--- a/planner/src/geometry/reeds_shepp.cpp
+++ b/planner/src/geometry/reeds_shepp.cpp
@@ -44,7 +44,7 @@ namespace Planner {
 				double t1 = std::atan2(y, x);
 
 				if (u1squared < 4)
-					std::numeric_limits<double>::infinity();
+					return std::numeric_limits<double>::infinity();
 
 				u = sqrt(u1squared - 4);
 				double phi = atan2(2, u);
-- 
2.43.0


From a230c2425faa43df0f25013b721221db1c765f95 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:40:07 +0000
Subject: [PATCH 09/54] fix: Reeds-Shepp cost ignores the forward multiplier
 when the other costs are neutral

---
 planner/src/geometry/reeds_shepp.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/planner/src/geometry/reeds_shepp.cpp b/planner/src/geometry/reeds_shepp.cpp
index 999e5e6..52632ee 100644
--- a/planner/src/geometry/reeds_shepp.cpp
+++ b/planner/src/geometry/reeds_shepp.cpp
@@ -468,7 +468,7 @@ namespace Planner {
 			if (!m_motions[0].IsValid())
 				return std::numeric_limits<float>::infinity();
 
-			if (reverseCostMultiplier == 1.0f && directionSwitchingCost == 0.0f)
+			if (reverseCostMultiplier == 1.0f && forwardCostMultiplier == 1.0f && directionSwitchingCost == 0.0f)
 				return m_length * minTurningRadius;
 
 			float cost = 0;
-- 
2.43.0


From a0267658d64b92328813519b63a065b5706757e5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:44:38 +0000
Subject: [PATCH 10/54] fix: Reeds-Shepp words are lost when a vanishing arc
 rounds to a negative angle

---
 planner/src/geometry/reeds_shepp.cpp | 68 +++++++++++++++++-----------
 1 file changed, 41 insertions(+), 27 deletions(-)

diff --git a/planner/src/geometry/reeds_shepp.cpp b/planner/src/geometry/reeds_shepp.cpp
index 52632ee..1d3d48c 100644
--- a/planner/src/geometry/reeds_shepp.cpp
+++ b/planner/src/geometry/reeds_shepp.cpp
@@ -8,11 +8,25 @@
 namespace Planner {
 	namespace ReedsShepp {
 		namespace Private {
-			static bool IsAngleInvalid(double theta)
+			/// Angles closer to zero than this are zero up to rounding errors
+			static constexpr double angleTolerance = 1e-10;
+
+			static bool IsAngleInvalid(double& theta)
 			{
+				// A motion that vanishes may come out as a slightly negative angle
+				if (theta < 0 && theta > -angleTolerance)
+					theta = 0;
 				return theta < 0 || theta > M_PI;
 			}
 
+			/// @brief Wrap an angle to [0, 2 pi)
+			static double WrapPositiveAngle(double theta)
+			{
+				// A motion that vanishes may come out as an almost full turn
+				double out = Maths::Modulo(theta, 2 * M_PI);
+				return out > 2 * M_PI - angleTolerance ? 0 : out;
+			}
+
 			static double WrapAngle(double theta)
 			{
 				return Maths::Modulo(theta + M_PI, 2 * M_PI) - M_PI;
@@ -71,9 +85,9 @@ namespace Planner {
 
 				double phi = atan2(eta, xi);
 				double alpha = acos(u1 / 4.0);
-				t = Maths::Modulo(M_PI_2 + alpha + phi, 2 * M_PI);
-				u = Maths::Modulo(M_PI - 2 * alpha, 2 * M_PI);
-				v = Maths::Modulo(goal.theta - t - u, 2 * M_PI);
+				t = WrapPositiveAngle(M_PI_2 + alpha + phi);
+				u = WrapPositiveAngle(M_PI - 2 * alpha);
+				v = WrapPositiveAngle(goal.theta - t - u);
 
 				if (IsAngleInvalid(t) || IsAngleInvalid(u) || IsAngleInvalid(v))
 					return std::numeric_limits<double>::infinity();
@@ -95,9 +109,9 @@ namespace Planner {
 
 				double phi = atan2(eta, xi);
 				double alpha = acos(u1 / 4.0);
-				t = Maths::Modulo(M_PI_2 + alpha + phi, 2 * M_PI);
-				u = Maths::Modulo(M_PI - 2 * alpha, 2 * M_PI);
-				v = Maths::Modulo(t + u - goal.theta, 2 * M_PI);
+				t = WrapPositiveAngle(M_PI_2 + alpha + phi);
+				u = WrapPositiveAngle(M_PI - 2 * alpha);
+				v = WrapPositiveAngle(t + u - goal.theta);
 
 				return t + u + v;
 			}
@@ -118,8 +132,8 @@ namespace Planner {
 				u = acos((8 - u1 * u1) / 8.0);
 				double va = sin(u);
 				double alpha = asin(2 * va / u1);
-				t = Maths::Modulo(M_PI_2 - alpha + phi, 2 * M_PI);
-				v = Maths::Modulo(t - u - goal.theta, 2 * M_PI);
+				t = WrapPositiveAngle(M_PI_2 - alpha + phi);
+				v = WrapPositiveAngle(t - u - goal.theta);
 
 				return t + u + v;
 			}
@@ -140,14 +154,14 @@ namespace Planner {
 
 				if (u1 > 2) {
 					double alpha = acos(u1 / 4 - 0.5);
-					t = Maths::Modulo(M_PI_2 + phi - alpha, 2 * M_PI);
-					u = Maths::Modulo(M_PI - alpha, 2 * M_PI);
-					v = Maths::Modulo(goal.theta - t + 2 * u, 2 * M_PI);
+					t = WrapPositiveAngle(M_PI_2 + phi - alpha);
+					u = WrapPositiveAngle(M_PI - alpha);
+					v = WrapPositiveAngle(goal.theta - t + 2 * u);
 				} else {
 					double alpha = acos(u1 / 4 + 0.5);
-					t = Maths::Modulo(M_PI_2 + phi + alpha, 2 * M_PI);
-					u = Maths::Modulo(alpha, 2 * M_PI);
-					v = Maths::Modulo(goal.theta - t + 2 * u, 2 * M_PI);
+					t = WrapPositiveAngle(M_PI_2 + phi + alpha);
+					u = WrapPositiveAngle(alpha);
+					v = WrapPositiveAngle(goal.theta - t + 2 * u);
 				}
 
 				return t + u + u + v;
@@ -173,8 +187,8 @@ namespace Planner {
 				u = acos(va1);
 				double va2 = sin(u);
 				double alpha = asin(2 * va2 / u1);
-				t = Maths::Modulo(M_PI_2 + phi + alpha, 2 * M_PI);
-				v = Maths::Modulo(t - goal.theta, 2 * M_PI);
+				t = WrapPositiveAngle(M_PI_2 + phi + alpha);
+				v = WrapPositiveAngle(t - goal.theta);
 
 				return t + u + u + v;
 			}
@@ -198,8 +212,8 @@ namespace Planner {
 					return std::numeric_limits<double>::infinity();
 
 				double alpha = atan2(2, u + 2);
-				t = Maths::Modulo(M_PI_2 + phi + alpha, 2 * M_PI);
-				v = Maths::Modulo(t + M_PI_2 - goal.theta, 2 * M_PI);
+				t = WrapPositiveAngle(M_PI_2 + phi + alpha);
+				v = WrapPositiveAngle(t + M_PI_2 - goal.theta);
 
 				return t + M_PI_2 + u + v;
 			}
@@ -218,9 +232,9 @@ namespace Planner {
 
 				double phi = atan2(eta, xi);
 
-				t = Maths::Modulo(M_PI_2 + phi, 2 * M_PI);
+				t = WrapPositiveAngle(M_PI_2 + phi);
 				u = u1 - 2;
-				v = Maths::Modulo(goal.theta - t - M_PI_2, 2 * M_PI);
+				v = WrapPositiveAngle(goal.theta - t - M_PI_2);
 
 				return t + M_PI_2 + u + v;
 			}
@@ -244,8 +258,8 @@ namespace Planner {
 					return std::numeric_limits<double>::infinity();
 
 				double alpha = atan2(u + 2, 2);
-				t = Maths::Modulo(M_PI_2 + phi - alpha, 2 * M_PI);
-				v = Maths::Modulo(t - M_PI_2 - goal.theta, 2 * M_PI);
+				t = WrapPositiveAngle(M_PI_2 + phi - alpha);
+				v = WrapPositiveAngle(t - M_PI_2 - goal.theta);
 
 				return t + u + M_PI_2 + v;
 			}
@@ -264,9 +278,9 @@ namespace Planner {
 
 				double phi = atan2(eta, xi);
 
-				t = Maths::Modulo(phi, 2 * M_PI);
+				t = WrapPositiveAngle(phi);
 				u = u1 - 2;
-				v = Maths::Modulo(-t - M_PI_2 + goal.theta, 2 * M_PI);
+				v = WrapPositiveAngle(-t - M_PI_2 + goal.theta);
 
 				return t + u + M_PI_2 + v;
 			}
@@ -290,8 +304,8 @@ namespace Planner {
 					return std::numeric_limits<double>::infinity();
 
 				double alpha = atan2(2, u + 4);
-				t = Maths::Modulo(M_PI_2 + phi + alpha, 2 * M_PI);
-				v = Maths::Modulo(t - goal.theta, 2 * M_PI);
+				t = WrapPositiveAngle(M_PI_2 + phi + alpha);
+				v = WrapPositiveAngle(t - goal.theta);
 
 				return t + u + v + M_PI;
 			}
-- 
2.43.0


From b2567b100e48791f3a93abe91865336ca62cac98 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:02:06 +0000
Subject: [PATCH 11/54] fix: truncating a Reeds-Shepp path keeps the motions
 beyond the cut

---
 planner/src/paths/path_reeds_shepp.cpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/planner/src/paths/path_reeds_shepp.cpp b/planner/src/paths/path_reeds_shepp.cpp
index 1cc32f8..a7d8fc5 100644
--- a/planner/src/paths/path_reeds_shepp.cpp
+++ b/planner/src/paths/path_reeds_shepp.cpp
@@ -81,7 +81,7 @@ namespace Planner {
 				if (length >= ratio * totalLength) {
 					m_pathSegment.m_motions[i].length *= motionRatio;
 					for (int ii = i + 1; ii < ReedsShepp::PathSegment::numMotion; ii++) {
-						m_pathSegment.m_motions[i] = ReedsShepp::Motion();
+						m_pathSegment.m_motions[ii] = ReedsShepp::Motion();
 					}
 					break;
 				}
@@ -91,6 +91,7 @@ namespace Planner {
 
 		// Update the path length
 		m_length *= ratio;
+		m_pathSegment.m_length *= ratio;
 	}
 
 	std::set<double> PathReedsShepp::GetCuspPointRatios() const
-- 
2.43.0


From 7cd92d8a4c9a22b9c48bce7659a0a6ea0e386a5f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:02:06 +0000
Subject: [PATCH 12/54] fix: Reeds-Shepp path has no direction at its end when
 the lengths do not sum up exactly

---
 planner/src/paths/path_reeds_shepp.cpp | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/planner/src/paths/path_reeds_shepp.cpp b/planner/src/paths/path_reeds_shepp.cpp
index a7d8fc5..a3451c5 100644
--- a/planner/src/paths/path_reeds_shepp.cpp
+++ b/planner/src/paths/path_reeds_shepp.cpp
@@ -157,14 +157,16 @@ namespace Planner {
 			return Direction::NoMotion;
 
 		double length = 0;
+		Direction direction = Direction::NoMotion;
 		for (const auto& motion : m_pathSegment.m_motions) {
 			if (!motion.IsValid())
 				break;
+			direction = motion.direction;
 			length += motion.length * m_minTurningRadius;
 			if (ratio * m_length <= length)
-				return motion.direction;
+				break;
 		}
-		return Direction::NoMotion;
+		return direction;
 	}
 
 	double PathReedsShepp::ComputeCost(double directionSwitchingCost, double reverseCostMultiplier, double forwardCostMultiplier) const
-- 
2.43.0


From 54d65a677f414eb7fc59df5da1210ad112bd5974 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:02:06 +0000
Subject: [PATCH 13/54] fix: composite path never sets its initial state

---
 planner/src/paths/path_composite.h | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/planner/src/paths/path_composite.h b/planner/src/paths/path_composite.h
index 82673ad..bb15e96 100644
--- a/planner/src/paths/path_composite.h
+++ b/planner/src/paths/path_composite.h
@@ -33,6 +33,8 @@ namespace Planner {
 		/// @brief Append the path to the container
 		void PushBack(const Ref<BasePath>& path)
 		{
+			if (m_paths.empty())
+				this->m_init = path->GetInitialState();
 			double pathLength = path->GetLength();
 			m_paths.push_back({ PathInfo(this->m_length, this->m_length + pathLength), path });
 			this->m_final = path->GetFinalState();
-- 
2.43.0


From 6093c666335b1ff0b8668d8b687e507bdfe094a9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:02:06 +0000
Subject: [PATCH 14/54] fix: composite path keeps the extent of a part that has
 been truncated

---
 planner/src/paths/path_composite.h | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/planner/src/paths/path_composite.h b/planner/src/paths/path_composite.h
index bb15e96..6360311 100644
--- a/planner/src/paths/path_composite.h
+++ b/planner/src/paths/path_composite.h
@@ -1,6 +1,7 @@
 #pragma once
 
 #include "paths/path.h"
+#include <algorithm>
 
 namespace Planner {
 
@@ -66,6 +67,7 @@ namespace Planner {
 			it->second->Truncate(pathRatio);
 			this->m_final = it->second->GetFinalState();
 			this->m_length = it->first.initLength + it->second->GetLength();
+			m_paths[it - m_paths.begin()].first.finalLength = this->m_length;
 			m_paths.erase(std::next(it), m_paths.end());
 		}
 
@@ -84,7 +86,7 @@ namespace Planner {
 			if (pathLength == 0.0)
 				return { it, 0.0 };
 			double pathRatio = (length - it->first.initLength) / pathLength;
-			return { it, pathRatio };
+			return { it, std::clamp(pathRatio, 0.0, 1.0) };
 		}
 
 	protected:
-- 
2.43.0


From f436d8ba92dea929e9aca1c2e94e4ae26422caf1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:02:06 +0000
Subject: [PATCH 15/54] fix: composite path reports the cusps of its parts at
 the wrong ratio

---
 planner/src/paths/path_composite.cpp | 14 +++++++++-----
 1 file changed, 9 insertions(+), 5 deletions(-)

diff --git a/planner/src/paths/path_composite.cpp b/planner/src/paths/path_composite.cpp
index 59d3545..c3104cd 100644
--- a/planner/src/paths/path_composite.cpp
+++ b/planner/src/paths/path_composite.cpp
@@ -9,18 +9,22 @@ namespace Planner {
 			return ratios;
 
 		double length = 0.0;
-		Direction prevDirection = m_paths[0].second->GetDirection(0.0);
+		Direction prevDirection = Direction::NoMotion;
 		for (auto& path : m_paths) {
+			double pathLength = path.second->GetLength();
+			if (pathLength == 0.0)
+				continue;
+
 			// Check if the path starts with same direction as the previous ends
-			if (path.second->GetDirection(0.0) != prevDirection)
+			if (prevDirection != Direction::NoMotion && path.second->GetDirection(0.0) != prevDirection)
 				ratios.insert(length / this->m_length);
 
 			// Check for cusp point in the path
-			auto cusps = path.second->GetCuspPointRatios();
-			ratios.insert(cusps.begin(), cusps.end());
+			for (double ratio : path.second->GetCuspPointRatios())
+				ratios.insert((length + ratio * pathLength) / this->m_length);
 
 			prevDirection = path.second->GetDirection(1.0);
-			length += path.second->GetLength();
+			length += pathLength;
 		}
 
 		return ratios;
-- 
2.43.0


From cf6965cb86b8cfa0680cb7f93914dd226da93496 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:02:06 +0000
Subject: [PATCH 16/54] fix: composite path reads past its last part to get its
 final direction

---
 planner/src/paths/path_composite.cpp | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/planner/src/paths/path_composite.cpp b/planner/src/paths/path_composite.cpp
index c3104cd..e6dea2d 100644
--- a/planner/src/paths/path_composite.cpp
+++ b/planner/src/paths/path_composite.cpp
@@ -32,7 +32,12 @@ namespace Planner {
 
 	Direction PathSE2CompositeNonHolonomic::GetDirection(double ratio) const
 	{
+		if (m_paths.empty())
+			return Direction::NoMotion;
+
 		auto [it, pathRatio] = FindSegment(ratio);
+		if (it == m_paths.end())
+			it--;
 		return it->second->GetDirection(pathRatio);
 	}
 }
-- 
2.43.0


From 9fa6c4c70b07de7e0526081bf254c72b6fe2b2f8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:15:24 +0000
Subject: [PATCH 17/54] fix: sampling several states at once returns an empty
 list

---
 planner/src/state_space/state_space.h | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/planner/src/state_space/state_space.h b/planner/src/state_space/state_space.h
index cbd0a2e..b64b2d4 100644
--- a/planner/src/state_space/state_space.h
+++ b/planner/src/state_space/state_space.h
@@ -38,7 +38,7 @@ namespace Planner {
 			std::vector<State> states;
 			states.reserve(numSamples);
 			for (unsigned int i = 0; i < numSamples; i++) {
-				states[i] = SampleUniform();
+				states.push_back(SampleUniform());
 			}
 			return states;
 		}
@@ -51,7 +51,7 @@ namespace Planner {
 			std::vector<State> states;
 			states.reserve(numSamples);
 			for (unsigned int i = 0; i < numSamples; i++) {
-				states[i] = SampleGuassian(meanState, stdDev);
+				states.push_back(SampleGaussian(meanState, stdDev));
 			}
 			return states;
 		}
-- 
2.43.0


From 0c6c83337385b03a724768787c23b4881f53cbf7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:23:32 +0000
Subject: [PATCH 18/54] fix: positions up to one cell outside the occupancy map
 are found in its border cells

---
 planner/src/state_validator/occupancy_map.h | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/planner/src/state_validator/occupancy_map.h b/planner/src/state_validator/occupancy_map.h
index 336fa6b..21c6e56 100644
--- a/planner/src/state_validator/occupancy_map.h
+++ b/planner/src/state_validator/occupancy_map.h
@@ -105,8 +105,8 @@ namespace Planner {
 
 		inline GridCellPosition GridPositionToGridCell(double x, double y, bool bounded) const
 		{
-			int row = static_cast<int>(x / resolution);
-			int col = static_cast<int>(y / resolution);
+			int row = static_cast<int>(std::floor(x / resolution));
+			int col = static_cast<int>(std::floor(y / resolution));
 
 			if (!bounded)
 				return GridCellPosition(row, col);
-- 
2.43.0


From c12760b145986a0db889baaa4b4bebec07071b61 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:23:32 +0000
Subject: [PATCH 19/54] fix: moving an occupancy map that has a size does not
 move its grid

---
 planner/src/state_validator/occupancy_map.h | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/planner/src/state_validator/occupancy_map.h b/planner/src/state_validator/occupancy_map.h
index 21c6e56..212d33a 100644
--- a/planner/src/state_validator/occupancy_map.h
+++ b/planner/src/state_validator/occupancy_map.h
@@ -37,7 +37,11 @@ namespace Planner {
 		virtual void Update();
 
 		/// @brief Set the position of the bottom left corner of the map.
-		void SetPosition(const Point2d& position) { m_localOrigin = position; }
+		void SetPosition(const Point2d& position)
+		{
+			m_localOrigin = position;
+			m_worldGridOrigin = m_localOrigin + m_localGridOrigin;
+		}
 		/// @brief Return the position of the bottom left corner of the map in
 		/// the world coordinates.
 		const Point2d& GetPosition() const { return m_localOrigin; }
@@ -125,7 +129,7 @@ namespace Planner {
 		// Position of the origin of the local frame in the world frame
 		Point2d m_localOrigin = { 0.0, 0.0 };
 		// Position of the origin of the grid frame in the local frame
-		Point2d m_localGridOrigin, m_worldGridOrigin;
+		Point2d m_localGridOrigin = { 0.0, 0.0 }, m_worldGridOrigin = { 0.0, 0.0 };
 		// Matrix of cell occupancy (positive or zero value means occupied)
 		Ref<Grid<int>> m_occupancyMatrix;
 		// Distance map to nearest obstacle
-- 
2.43.0


From 98f9b95819c69978fd0cbd88d0b95c992581ec17 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:27:08 +0000
Subject: [PATCH 20/54] fix: path validation never checks the final state of
 the path

---
 .../src/state_validator/state_validator_occupancy_map.cpp  | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/planner/src/state_validator/state_validator_occupancy_map.cpp b/planner/src/state_validator/state_validator_occupancy_map.cpp
index 69d0096..658baaa 100644
--- a/planner/src/state_validator/state_validator_occupancy_map.cpp
+++ b/planner/src/state_validator/state_validator_occupancy_map.cpp
@@ -65,6 +65,13 @@ namespace Planner {
 			length += std::max(deltaLength, minPathInterpolationDistance);
 		}
 
+		// Check final state
+		if (!IsStateValid(path.GetFinalState())) {
+			if (last)
+				*last = lastValidLength / pathLength;
+			return false;
+		}
+
 		if (last)
 			*last = 1.0f;
 		return true;
-- 
2.43.0


From 6eb035000dbd31bfa5799d6be21c4556bcdb3253 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:27:08 +0000
Subject: [PATCH 21/54] fix: path validation measures the distance to the map
 border in the wrong frame

---
 .../state_validator/state_validator_occupancy_map.cpp    | 9 +++++----
 1 file changed, 5 insertions(+), 4 deletions(-)

diff --git a/planner/src/state_validator/state_validator_occupancy_map.cpp b/planner/src/state_validator/state_validator_occupancy_map.cpp
index 658baaa..b21068d 100644
--- a/planner/src/state_validator/state_validator_occupancy_map.cpp
+++ b/planner/src/state_validator/state_validator_occupancy_map.cpp
@@ -51,11 +51,12 @@ namespace Planner {
 			lastValidLength = length;
 
 			// Update length
+			Point2d localPosition = m_map->WorldPositionToLocalPosition(state.position);
 			float distToMapBorder = std::min({
-				state.x() - bounds[0].x(),
-				bounds[1].x() - state.x(),
-				state.y() - bounds[0].y(),
-				bounds[1].y() - state.y(),
+				localPosition.x() - bounds[0].x(),
+				bounds[1].x() - localPosition.x(),
+				localPosition.y() - bounds[0].y(),
+				bounds[1].y() - localPosition.y(),
 			});
 			// TODO add offset
 			GridCellPosition cell = m_map->WorldPositionToGridCell(state.position);
-- 
2.43.0


From 8dedb40e87b40eeb8f5f2421ecd71af5d3c0267a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:27:54 +0000
Subject: [PATCH 22/54] fix: path validation that returns the last valid state
 does not compile

---
 planner/src/state_validator/state_validator.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/planner/src/state_validator/state_validator.h b/planner/src/state_validator/state_validator.h
index f25bcf4..6433001 100644
--- a/planner/src/state_validator/state_validator.h
+++ b/planner/src/state_validator/state_validator.h
@@ -30,7 +30,7 @@ namespace Planner {
 		bool IsPathValid(const Path<State>& path, State* last)
 		{
 			float ratio;
-			bool validated = IsPathValid(path, ratio);
+			bool validated = IsPathValid(path, &ratio);
 			if (last)
 				*last = path.Interpolate(ratio);
 			return validated;
-- 
2.43.0


From 9b3605122207c49df124ce5e848b1ccc42864508 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:31:21 +0000
Subject: [PATCH 23/54] fix: obstacle heuristic overestimates the straight line
 cost when driving costs less than the distance

---
 planner/src/algo/heuristics.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/planner/src/algo/heuristics.cpp b/planner/src/algo/heuristics.cpp
index 76cbf29..db3da0c 100644
--- a/planner/src/algo/heuristics.cpp
+++ b/planner/src/algo/heuristics.cpp
@@ -154,7 +154,7 @@ namespace Planner {
 
 	double ObstaclesHeuristic::GetHeuristicValue(const Pose2d& state)
 	{
-		auto euclidean = (m_goal.position - state.position).norm();
+		double euclidean = costMultiplier / m_map->resolution * (m_goal.position - state.position).norm();
 		auto cell = m_map->WorldPositionToGridCell(state.position);
 		if (!cell.IsValid())
 			return euclidean;
-- 
2.43.0


From 01128f5032b1e052475740cfd05e108f2ef20c8a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:31:21 +0000
Subject: [PATCH 24/54] fix: obstacle heuristic keeps the first path cost found
 for a cell instead of the lowest

---
 planner/src/algo/heuristics.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/planner/src/algo/heuristics.cpp b/planner/src/algo/heuristics.cpp
index db3da0c..39f2bd7 100644
--- a/planner/src/algo/heuristics.cpp
+++ b/planner/src/algo/heuristics.cpp
@@ -142,7 +142,7 @@ namespace Planner {
 				} else if (inFrontier) {
 					// Check if the node in frontier has a higher cost than the
 					// current path, and if so replace it by child
-					if (inFrontier->value > m_cost[n.row][n.col]) {
+					if (inFrontier->value > pathCost) {
 						frontier.Remove({ n, 0.0f });
 						frontier.Push({ n, pathCost });
 						m_cost[n.row][n.col] = pathCost;
-- 
2.43.0


From 0046be86fdf1031c6c9251b43dc939e37b3776ad Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:31:21 +0000
Subject: [PATCH 25/54] fix: non-holonomic heuristic reads outside of its table
 when the goal is turned clockwise

---
 planner/src/algo/heuristics.cpp | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/planner/src/algo/heuristics.cpp b/planner/src/algo/heuristics.cpp
index 39f2bd7..b6de800 100644
--- a/planner/src/algo/heuristics.cpp
+++ b/planner/src/algo/heuristics.cpp
@@ -1,6 +1,7 @@
 #include "algo/heuristics.h"
 #include "state_validator/occupancy_map.h"
 #include "utils/make_ref_enabler.h"
+#include "utils/maths.h"
 #include "geometry/reeds_shepp.h"
 
 namespace Planner {
@@ -81,8 +82,8 @@ namespace Planner {
 
 		int i = (int)round((delta.x() + offsetX) / spatialResolution);
 		int j = (int)round((delta.y() + offsetY) / spatialResolution);
-		int k = (int)round(delta.theta / angularResolution);
-		if (k == numAngular)
+		int k = (int)round(Maths::Modulo(delta.theta, 2 * M_PI) / angularResolution);
+		if (k >= numAngular)
 			k = 0;
 
 		if (i < 0 || i >= numSpatialX || j < 0 || j >= numSpatialY) {
-- 
2.43.0


From 7a4d46c1d27c74c3c22d9be8d8551c2f44306e73 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:31:54 +0000
Subject: [PATCH 26/54] fix: non-holonomic heuristic stores the cost of driving
 from the goal to the state

---
 planner/src/algo/heuristics.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/planner/src/algo/heuristics.cpp b/planner/src/algo/heuristics.cpp
index b6de800..383cdf9 100644
--- a/planner/src/algo/heuristics.cpp
+++ b/planner/src/algo/heuristics.cpp
@@ -61,12 +61,12 @@ namespace Planner {
 		const unsigned int& numSpatialY = heuristic->numSpatialY;
 		const unsigned int& numAngular = heuristic->numAngular;
 
-		const Pose2d goal(0.0, 0.0, 0.0);
+		const Pose2d start(0.0, 0.0, 0.0);
 		for (int i = 0; i < numSpatialX; i++) {
 			for (int j = 0; j < numSpatialY; j++) {
 				for (int k = 0; k < numAngular; k++) {
 					Pose2d pose(i * spatialResolution - offsetX, j * spatialResolution - offsetY, k * angularResolution);
-					auto path = ReedsShepp::Solver::GetOptimalPath(pose, goal, minTurningRadius, reverseCostMultiplier, forwardCostMultiplier, directionSwitchingCost);
+					auto path = ReedsShepp::Solver::GetOptimalPath(start, pose, minTurningRadius, reverseCostMultiplier, forwardCostMultiplier, directionSwitchingCost);
 					values[i][j][k] = path.ComputeCost(minTurningRadius, reverseCostMultiplier, forwardCostMultiplier, directionSwitchingCost);
 				}
 			}
-- 
2.43.0


From bead3fc4344fa143c738d994627786611e3fa502 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:36:55 +0000
Subject: [PATCH 27/54] fix: removing an obstacle frees cells of other
 obstacles and leaves its own when it has moved

---
 .../obstacle_list_occupancy_map.cpp           | 29 +++++++++++++++----
 .../obstacle_list_occupancy_map.h             | 10 ++++++-
 2 files changed, 32 insertions(+), 7 deletions(-)

diff --git a/planner/src/state_validator/obstacle_list_occupancy_map.cpp b/planner/src/state_validator/obstacle_list_occupancy_map.cpp
index 35b6b49..485503c 100644
--- a/planner/src/state_validator/obstacle_list_occupancy_map.cpp
+++ b/planner/src/state_validator/obstacle_list_occupancy_map.cpp
@@ -32,9 +32,12 @@ namespace Planner {
 			throw std::runtime_error("The size of the occupancy matrix has not been initialized");
 
 		auto id = FindSmallestIDAvailable(m_obstacleIDs);
-		if (m_obstacles.insert({ obstacle, id }).second) {
+		auto [it, inserted] = m_obstacles.insert({ obstacle, { id, {} } });
+		if (inserted) {
 			m_obstacleIDs.insert(id);
-			for (auto& cell : obstacle->GetBoundaryGridCellPosition(*this)) {
+			it->second.cells = obstacle->GetBoundaryGridCellPosition(*this);
+			for (auto& cell : it->second.cells) {
+				m_cellIDs[cell].insert(id);
 				(*m_occupancyMatrix)[cell.row][cell.col] = id;
 				m_obstacleDistanceMap->SetObstacle(cell);
 			}
@@ -51,11 +54,25 @@ namespace Planner {
 		auto it = m_obstacles.find(obstacle);
 		if (it == m_obstacles.end())
 			return false;
-		m_obstacleIDs.erase(it->second);
+		const auto [id, cells] = std::move(it->second);
+		m_obstacleIDs.erase(id);
 		m_obstacles.erase(it);
-		for (auto& cell : obstacle->GetBoundaryGridCellPosition(*this)) {
-			(*m_occupancyMatrix)[cell.row][cell.col] = -1;
-			m_obstacleDistanceMap->UnsetObstacle(cell);
+		for (auto& cell : cells) {
+			auto covering = m_cellIDs.find(cell);
+			if (covering == m_cellIDs.end())
+				continue;
+			auto& ids = covering->second;
+			ids.erase(id);
+			if (ids.empty()) {
+				m_cellIDs.erase(covering);
+				if (!IsInsideMap(cell))
+					continue;
+				(*m_occupancyMatrix)[cell.row][cell.col] = -1;
+				m_obstacleDistanceMap->UnsetObstacle(cell);
+			} else if (IsInsideMap(cell)) {
+				// The cell is still occupied by another obstacle
+				(*m_occupancyMatrix)[cell.row][cell.col] = *ids.rbegin();
+			}
 		}
 		return true;
 	}
diff --git a/planner/src/state_validator/obstacle_list_occupancy_map.h b/planner/src/state_validator/obstacle_list_occupancy_map.h
index 22a4552..0ce4f4d 100644
--- a/planner/src/state_validator/obstacle_list_occupancy_map.h
+++ b/planner/src/state_validator/obstacle_list_occupancy_map.h
@@ -23,7 +23,15 @@ namespace Planner {
 		virtual bool IsOccupied(const GridCellPosition& cell) override;
 
 	private:
-		std::unordered_map<Ref<Obstacle>, unsigned int> m_obstacles;
+		struct Footprint {
+			unsigned int id;
+			std::vector<GridCellPosition> cells;
+		};
+
+		/// Obstacles with the cells they occupied when they were added
+		std::unordered_map<Ref<Obstacle>, Footprint> m_obstacles;
+		/// IDs of the obstacles covering each occupied cell
+		std::unordered_map<GridCellPosition, std::set<unsigned int>> m_cellIDs;
 		std::set<unsigned int> m_obstacleIDs;
 	};
 }
-- 
2.43.0


From dd5aded0afffc10c0db3ff212e501f32eb50463d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:42:07 +0000
Subject: [PATCH 28/54] fix: distances to a removed obstacle survive in cells
 that are not connected to it

---
 planner/src/state_validator/gvd.cpp | 13 +++++++++++++
 planner/src/state_validator/gvd.h   |  1 +
 2 files changed, 14 insertions(+)

diff --git a/planner/src/state_validator/gvd.cpp b/planner/src/state_validator/gvd.cpp
index 31226ba..993104d 100644
--- a/planner/src/state_validator/gvd.cpp
+++ b/planner/src/state_validator/gvd.cpp
@@ -31,6 +31,18 @@ namespace Planner {
 	{
 		PP_PROFILE_FUNCTION();
 
+		// The cells of a removed obstacle are not always connected to it, the
+		// raise wave alone does not reach them all
+		if (m_obstacleRemoved) {
+			for (int r = 0; r < rows; r++) {
+				for (int c = 0; c < columns; c++) {
+					if (m_obstacle[r][c].IsValid() && !IsOccupied(m_obstacle[r][c]))
+						UnsetObstacle({ r, c });
+				}
+			}
+			m_obstacleRemoved = false;
+		}
+
 		while (!m_open.empty()) {
 			const auto s = m_open.top().position;
 			m_open.pop();
@@ -81,6 +93,7 @@ namespace Planner {
 
 	void GVD::ObstacleDistanceMap::UnsetObstacle(const GridCellPosition& s)
 	{
+		m_obstacleRemoved = true;
 		m_distance[s.row][s.col] = std::numeric_limits<int>::max();
 		m_obstacle[s.row][s.col] = GridCellPosition(-1, -1);
 		m_toRaise[s.row][s.col] = true;
diff --git a/planner/src/state_validator/gvd.h b/planner/src/state_validator/gvd.h
index 64cec7a..857af6a 100644
--- a/planner/src/state_validator/gvd.h
+++ b/planner/src/state_validator/gvd.h
@@ -58,6 +58,7 @@ namespace Planner {
 			Grid<bool> m_toProcess;
 			Grid<bool> m_voro;
 			PriorityQueue m_open;
+			bool m_obstacleRemoved = false;
 			PriorityQueue m_voroQ;
 
 			Ref<Grid<int>> m_occupancy;
-- 
2.43.0


From 969f736b628b21221a02eb29340f42fb672965f2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:44:45 +0000
Subject: [PATCH 29/54] fix: Voronoi diagram created after the obstacles have
 been processed has no edges

---
 planner/src/state_validator/gvd.cpp | 9 +++++++++
 1 file changed, 9 insertions(+)

diff --git a/planner/src/state_validator/gvd.cpp b/planner/src/state_validator/gvd.cpp
index 993104d..c295d1b 100644
--- a/planner/src/state_validator/gvd.cpp
+++ b/planner/src/state_validator/gvd.cpp
@@ -107,6 +107,15 @@ namespace Planner {
 			return m_voronoiMap;
 
 		m_voronoiMap = makeRef<MakeRefEnabler<VoronoiDistanceMap>>(rows, columns, resolution);
+		// The obstacles already known have not been checked for Voronoi edges
+		for (int r = 0; r < rows; r++) {
+			for (int c = 0; c < columns; c++) {
+				if (m_obstacle[r][c].IsValid()) {
+					m_open.push({ { r, c }, m_distance[r][c] });
+					m_toProcess[r][c] = true;
+				}
+			}
+		}
 		return m_voronoiMap;
 	}
 
-- 
2.43.0


From a5dcce958edff3d013cbcb7f9815002f468d5098 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:45:06 +0000
Subject: [PATCH 30/54] fix: Voronoi edges remain where no obstacle is left

---
 planner/src/state_validator/gvd.cpp | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/planner/src/state_validator/gvd.cpp b/planner/src/state_validator/gvd.cpp
index c295d1b..a68c112 100644
--- a/planner/src/state_validator/gvd.cpp
+++ b/planner/src/state_validator/gvd.cpp
@@ -49,6 +49,9 @@ namespace Planner {
 			if (!m_toProcess[s.row][s.col])
 				continue;
 			if (m_toRaise[s.row][s.col]) {
+				m_voro[s.row][s.col] = false;
+				if (m_voronoiMap)
+					m_voronoiMap->UnsetEdge(s);
 				for (auto& n : s.GetNeighbors(rows, columns)) {
 					if (m_obstacle[n.row][n.col].IsValid() && !m_toRaise[n.row][n.col]) {
 						if (!IsOccupied(m_obstacle[n.row][n.col])) {
-- 
2.43.0


From 426fec273a60149ce1ac0d74b051c38870fd10a8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:51:02 +0000
Subject: [PATCH 31/54] fix: Voronoi edges set while removed obstacles are
 being cleared are left inside a region

---
 planner/src/state_validator/gvd.cpp | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/planner/src/state_validator/gvd.cpp b/planner/src/state_validator/gvd.cpp
index a68c112..c95b9a5 100644
--- a/planner/src/state_validator/gvd.cpp
+++ b/planner/src/state_validator/gvd.cpp
@@ -44,7 +44,7 @@ namespace Planner {
 		}
 
 		while (!m_open.empty()) {
-			const auto s = m_open.top().position;
+			const auto [s, distance] = m_open.top();
 			m_open.pop();
 			if (!m_toProcess[s.row][s.col])
 				continue;
@@ -64,7 +64,7 @@ namespace Planner {
 					}
 				}
 				m_toRaise[s.row][s.col] = false;
-			} else if (IsOccupied(m_obstacle[s.row][s.col])) {
+			} else if (distance == m_distance[s.row][s.col] && IsOccupied(m_obstacle[s.row][s.col])) {
 				m_voro[s.row][s.col] = false;
 				if (m_voronoiMap)
 					m_voronoiMap->UnsetEdge(s);
@@ -100,7 +100,7 @@ namespace Planner {
 		m_distance[s.row][s.col] = std::numeric_limits<int>::max();
 		m_obstacle[s.row][s.col] = GridCellPosition(-1, -1);
 		m_toRaise[s.row][s.col] = true;
-		m_open.push({ s, std::numeric_limits<int>::max() });
+		m_open.push({ s, 0 });
 		m_toProcess[s.row][s.col] = true;
 	}
 
-- 
2.43.0


From aa9a816d2e679dc1d1765a16c200eb3ed1638a1e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:56:03 +0000
Subject: [PATCH 32/54] fix: distances to a removed Voronoi edge survive in
 cells that are not connected to it

---
 planner/src/state_validator/gvd.cpp | 13 +++++++++++++
 planner/src/state_validator/gvd.h   |  1 +
 2 files changed, 14 insertions(+)

diff --git a/planner/src/state_validator/gvd.cpp b/planner/src/state_validator/gvd.cpp
index c95b9a5..e30d639 100644
--- a/planner/src/state_validator/gvd.cpp
+++ b/planner/src/state_validator/gvd.cpp
@@ -226,6 +226,18 @@ namespace Planner {
 	{
 		PP_PROFILE_FUNCTION();
 
+		// The cells of a removed edge are not always connected to it, the
+		// raise wave alone does not reach them all
+		if (m_edgeRemoved) {
+			for (int r = 0; r < rows; r++) {
+				for (int c = 0; c < columns; c++) {
+					if (m_edge[r][c].IsValid() && !IsOccupied(m_edge[r][c]))
+						UnsetEdge({ r, c });
+				}
+			}
+			m_edgeRemoved = false;
+		}
+
 		while (!m_open.empty()) {
 			const auto s = m_open.top().position;
 			m_open.pop();
@@ -271,6 +283,7 @@ namespace Planner {
 
 	void GVD::VoronoiDistanceMap::UnsetEdge(const GridCellPosition& s)
 	{
+		m_edgeRemoved = true;
 		m_distance[s.row][s.col] = std::numeric_limits<int>::max();
 		m_edge[s.row][s.col] = GridCellPosition(-1, -1);
 		m_toRaise[s.row][s.col] = true;
diff --git a/planner/src/state_validator/gvd.h b/planner/src/state_validator/gvd.h
index 857af6a..3c544df 100644
--- a/planner/src/state_validator/gvd.h
+++ b/planner/src/state_validator/gvd.h
@@ -96,6 +96,7 @@ namespace Planner {
 			Grid<bool> m_toRaise;
 			Grid<bool> m_toProcess;
 			PriorityQueue m_open;
+			bool m_edgeRemoved = false;
 		};
 
 	private:
-- 
2.43.0


From cbd37b4c04878c2b01146ab802a7d4ea85e03472 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:07:57 +0000
Subject: [PATCH 33/54] fix: smoother moves the path away from the original one
 instead of towards it

---
 planner/src/algo/smoother.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/planner/src/algo/smoother.cpp b/planner/src/algo/smoother.cpp
index 877b74a..7db81fc 100644
--- a/planner/src/algo/smoother.cpp
+++ b/planner/src/algo/smoother.cpp
@@ -105,7 +105,7 @@ namespace Planner {
 				const Point2d& curr = m_currentPath[i].position;
 
 				// Original path term
-				gradients[i] += m_param.pathWeight * (path[i].position - curr);
+				gradients[i] += m_param.pathWeight * (curr - path[i].position);
 
 				if (m_map->IsInsideMap(curr)) {
 					// Collision term
-- 
2.43.0


From 20420b9d3a294af04adf3bf0baaac42789bc96bf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:07:57 +0000
Subject: [PATCH 34/54] fix: smoother pushes the path away from an obstacle or
 Voronoi edge that does not exist

---
 planner/src/algo/smoother.cpp | 9 +++++----
 1 file changed, 5 insertions(+), 4 deletions(-)

diff --git a/planner/src/algo/smoother.cpp b/planner/src/algo/smoother.cpp
index 7db81fc..cfbc14c 100644
--- a/planner/src/algo/smoother.cpp
+++ b/planner/src/algo/smoother.cpp
@@ -107,9 +107,10 @@ namespace Planner {
 				// Original path term
 				gradients[i] += m_param.pathWeight * (curr - path[i].position);
 
-				if (m_map->IsInsideMap(curr)) {
+				const GridCellPosition cell = m_map->WorldPositionToGridCell(curr);
+				if (cell.IsValid() && m_gvd->GetNearestObstacleCell(cell).IsValid()) {
 					// Collision term
-					Point2d dirToClosestObs = curr - m_map->GridCellToWorldPosition(m_gvd->GetNearestObstacleCell(m_map->WorldPositionToGridCell(curr)));
+					Point2d dirToClosestObs = curr - m_map->GridCellToWorldPosition(m_gvd->GetNearestObstacleCell(cell));
 					float obstDist = dirToClosestObs.norm();
 					if (obstDist < unsafeRadius)
 						gradients[i] += m_param.collisionWeight * (obstDist - unsafeRadius) * dirToClosestObs / obstDist;
@@ -117,8 +118,8 @@ namespace Planner {
 					// Voronoi term
 					const auto& alpha = m_gvd->alpha;
 					const auto& dMax = m_gvd->dMax;
-					if (obstDist < dMax && m_param.voronoiWeight > 0.0f) {
-						Point2d dirToClosestVoroEdge = curr - m_map->GridCellToWorldPosition(m_gvd->GetNearestVoronoiEdgeCell(m_map->WorldPositionToGridCell(curr)));
+					if (obstDist < dMax && m_param.voronoiWeight > 0.0f && m_gvd->GetNearestVoronoiEdgeCell(cell).IsValid()) {
+						Point2d dirToClosestVoroEdge = curr - m_map->GridCellToWorldPosition(m_gvd->GetNearestVoronoiEdgeCell(cell));
 						float voroDist = dirToClosestVoroEdge.norm();
 
 						if (voroDist > 0.0f) {
-- 
2.43.0


From 2bb4153a269b4c3f51dd7111c72a0a031d240103 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:14:22 +0000
Subject: [PATCH 35/54] fix: Hybrid A* counts the Voronoi cost of one point of
 a path only

---
 planner/src/algo/hybrid_a_star.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/planner/src/algo/hybrid_a_star.cpp b/planner/src/algo/hybrid_a_star.cpp
index fb4b68c..245d609 100644
--- a/planner/src/algo/hybrid_a_star.cpp
+++ b/planner/src/algo/hybrid_a_star.cpp
@@ -101,7 +101,7 @@ namespace Planner {
 			auto position = path.Interpolate(length / pathLength).position;
 			auto cell = m_occupancyMap->WorldPositionToGridCell(position, false);
 			PP_ASSERT(m_occupancyMap->IsInsideMap(cell), "The cell is not inside the occupancy map");
-			voronoiCost = m_gvd->GetPathCost(cell);
+			voronoiCost += m_gvd->GetPathCost(cell);
 		}
 
 		voronoiCost *= interpLength;
-- 
2.43.0


From d72921f3feaa4bfd2dc1b07d633cd74b9f6b5cd3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:14:22 +0000
Subject: [PATCH 36/54] fix: Hybrid A* traps when a valid path grazes the
 border of the map

---
 planner/src/algo/hybrid_a_star.cpp | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/planner/src/algo/hybrid_a_star.cpp b/planner/src/algo/hybrid_a_star.cpp
index 245d609..fe6f389 100644
--- a/planner/src/algo/hybrid_a_star.cpp
+++ b/planner/src/algo/hybrid_a_star.cpp
@@ -100,7 +100,10 @@ namespace Planner {
 		for (double length = 0.0; length < pathLength; length += interpLength) {
 			auto position = path.Interpolate(length / pathLength).position;
 			auto cell = m_occupancyMap->WorldPositionToGridCell(position, false);
-			PP_ASSERT(m_occupancyMap->IsInsideMap(cell), "The cell is not inside the occupancy map");
+			// The validation of a path tolerates points up to the interpolation
+			// distance outside of the map
+			if (!m_occupancyMap->IsInsideMap(cell))
+				continue;
 			voronoiCost += m_gvd->GetPathCost(cell);
 		}
 
-- 
2.43.0


From 2fb08eaf3a30a034cdc91849f536cb59f5ef9621 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:14:22 +0000
Subject: [PATCH 37/54] fix: Hybrid A* never charges the direction switching
 cost between motions

---
 planner/src/algo/hybrid_a_star.cpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/planner/src/algo/hybrid_a_star.cpp b/planner/src/algo/hybrid_a_star.cpp
index fe6f389..d9d18c9 100644
--- a/planner/src/algo/hybrid_a_star.cpp
+++ b/planner/src/algo/hybrid_a_star.cpp
@@ -142,7 +142,8 @@ namespace Planner {
 		default:
 			pathCost = 0.0;
 		}
-		double switchingCost = action.path->GetDirection(1.0) == action.path->GetDirection(1.0) ? 0.0 : m_param.directionSwitchingCost;
+		bool isSwitching = state.direction != Direction::NoMotion && state.direction != direction;
+		double switchingCost = isSwitching ? m_param.directionSwitchingCost : 0.0;
 		double voronoiCost = GetVoronoiCost(*action.path);
 		cost = pathCost + switchingCost + voronoiCost;
 
-- 
2.43.0


From 0a9748b48f49fb5cd8969cdc1e057b5a9e6dedfc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:14:22 +0000
Subject: [PATCH 38/54] fix: Hybrid A* steers beyond the minimum turning radius
 when more than five motions are generated

---
 planner/src/algo/hybrid_a_star.cpp | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/planner/src/algo/hybrid_a_star.cpp b/planner/src/algo/hybrid_a_star.cpp
index d9d18c9..e5005b0 100644
--- a/planner/src/algo/hybrid_a_star.cpp
+++ b/planner/src/algo/hybrid_a_star.cpp
@@ -21,8 +21,9 @@ namespace Planner {
 		m_deltas.reserve(m_param.numGeneratedMotion);
 		const double deltaMax = m_model->GetSteeringAngleFromTurningRadius(m_param.minTurningRadius);
 		m_deltas.push_back(0.0);
-		for (unsigned int i = 0; i < m_param.numGeneratedMotion / 2; i++) {
-			double delta = (i + 1) / 2.0 * deltaMax;
+		const unsigned int numDeltas = m_param.numGeneratedMotion / 2;
+		for (unsigned int i = 0; i < numDeltas; i++) {
+			double delta = (i + 1) / static_cast<double>(numDeltas) * deltaMax;
 			m_deltas.push_back(delta);
 			m_deltas.push_back(-delta);
 		}
-- 
2.43.0


From f3cc90ee8af630e5a858a9cf34957f670470bf99 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:14:22 +0000
Subject: [PATCH 39/54] fix: Hybrid A* does not recognize the goal when its
 heading is half a turn

---
 planner/src/algo/hybrid_a_star.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/planner/src/algo/hybrid_a_star.h b/planner/src/algo/hybrid_a_star.h
index 3aac712..6cb2f4a 100644
--- a/planner/src/algo/hybrid_a_star.h
+++ b/planner/src/algo/hybrid_a_star.h
@@ -207,7 +207,7 @@ namespace Planner {
 		private:
 			inline bool IdenticalPoses(const Pose2d& lhs, const Pose2d& rhs, double tol = 1e-3)
 			{
-				return (lhs.position - rhs.position).norm() < tol && abs(lhs.theta - rhs.theta) < tol * M_PI / 180.0;
+				return (lhs.position - rhs.position).norm() < tol && std::abs((lhs - rhs).theta) < tol * M_PI / 180.0;
 			}
 		};
 
-- 
2.43.0


From a5522ae5a16a7439582a99944c060760f920aa48 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:14:22 +0000
Subject: [PATCH 40/54] fix: Hybrid A* returns the path of the previous search
 when the search fails

---
 planner/src/algo/hybrid_a_star.cpp | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/planner/src/algo/hybrid_a_star.cpp b/planner/src/algo/hybrid_a_star.cpp
index e5005b0..b4c8b3f 100644
--- a/planner/src/algo/hybrid_a_star.cpp
+++ b/planner/src/algo/hybrid_a_star.cpp
@@ -250,6 +250,10 @@ namespace Planner {
 			return Status::Failure;
 		}
 
+		// Forget the previous search
+		m_path.clear();
+		m_stats = Stats();
+
 		// Update members
 		m_obstacleHeuristic->Update(this->m_goal);
 		m_gvd->Update();
-- 
2.43.0


From 719daad6d30e1c5d0a248dc756fd80f5518bd3f0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:14:22 +0000
Subject: [PATCH 41/54] fix: Hybrid A* path does not always contain the goal
 and the cusps

---
 planner/src/algo/hybrid_a_star.cpp | 21 ++++++++++-----------
 1 file changed, 10 insertions(+), 11 deletions(-)

diff --git a/planner/src/algo/hybrid_a_star.cpp b/planner/src/algo/hybrid_a_star.cpp
index b4c8b3f..a780843 100644
--- a/planner/src/algo/hybrid_a_star.cpp
+++ b/planner/src/algo/hybrid_a_star.cpp
@@ -281,18 +281,17 @@ namespace Planner {
 			cuspRatios.insert(0.0);
 			cuspRatios.insert(1.0);
 			ratios.reserve(pathLength / pathInterpolation + cuspRatios.size());
-			auto cuspRatioIt = cuspRatios.begin();
-			for (double length = 0.0; length <= pathLength; length += pathInterpolation) {
-				// Sample cusp point
-				double cuspLength = *cuspRatioIt * pathLength;
-				if (length >= cuspLength - pathInterpolation / 2 && length < cuspLength + pathInterpolation / 2) {
-					cuspIndices.insert(ratios.size());
-					ratios.push_back(*cuspRatioIt);
-					cuspRatioIt++;
-				} else {
-					// Sample at regular interval
+			double length = 0.0;
+			for (double cuspRatio : cuspRatios) {
+				double cuspLength = cuspRatio * pathLength;
+				// Sample at regular interval
+				for (; length < cuspLength - pathInterpolation / 2; length += pathInterpolation)
 					ratios.push_back(length / pathLength);
-				}
+				// Sample cusp point
+				cuspIndices.insert(ratios.size());
+				ratios.push_back(cuspRatio);
+				while (length < cuspLength + pathInterpolation / 2)
+					length += pathInterpolation;
 			}
 
 			// Sample points
-- 
2.43.0


From d77bbb141c163cf9ab15620ff56706d61c7f7947 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:14:22 +0000
Subject: [PATCH 42/54] fix: Hybrid A* throws when the initial state is the
 goal

---
 planner/src/algo/hybrid_a_star.cpp | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/planner/src/algo/hybrid_a_star.cpp b/planner/src/algo/hybrid_a_star.cpp
index a780843..a5efe80 100644
--- a/planner/src/algo/hybrid_a_star.cpp
+++ b/planner/src/algo/hybrid_a_star.cpp
@@ -295,7 +295,10 @@ namespace Planner {
 			}
 
 			// Sample points
-			graphSearchPath = path->Interpolate(ratios);
+			if (m_graphSearch.GetActions().empty())
+				graphSearchPath = { this->m_init };
+			else
+				graphSearchPath = path->Interpolate(ratios);
 		}
 
 		// Smooth the path
-- 
2.43.0


From faa0ee46cb112b3d2c68da849ef767e1caa73b08 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:18:58 +0000
Subject: [PATCH 43/54] fix: Hybrid A* drops the goal when another state of its
 cell has been visited

---
 planner/src/algo/hybrid_a_star.cpp | 1 +
 planner/src/algo/hybrid_a_star.h   | 6 +++++-
 2 files changed, 6 insertions(+), 1 deletion(-)

diff --git a/planner/src/algo/hybrid_a_star.cpp b/planner/src/algo/hybrid_a_star.cpp
index a5efe80..33d0a61 100644
--- a/planner/src/algo/hybrid_a_star.cpp
+++ b/planner/src/algo/hybrid_a_star.cpp
@@ -168,6 +168,7 @@ namespace Planner {
 		double pathAndSwitchingCosts = path->ComputeCost(m_param.directionSwitchingCost,
 			m_param.reverseCostMultiplier, m_param.forwardCostMultiplier);
 		child = CreateStateFromPath(path);
+		child.isGoal = true;
 		action.path = std::move(path);
 
 		// Compute transition cost
diff --git a/planner/src/algo/hybrid_a_star.h b/planner/src/algo/hybrid_a_star.h
index 6cb2f4a..cad24ee 100644
--- a/planner/src/algo/hybrid_a_star.h
+++ b/planner/src/algo/hybrid_a_star.h
@@ -63,6 +63,8 @@ namespace Planner {
 			Pose2i discretePose;
 			/// @brief Pose
 			Pose2d continuousPose;
+			/// @brief Indicate that the pose is the goal.
+			bool isGoal = false;
 
 			/// @brief Hasher for the discretized configuration space.
 			/// @details Two states are considered equal if they correspond to the
@@ -78,10 +80,12 @@ namespace Planner {
 			};
 
 			/// @brief Check if two states correspond to the same cell.
+			/// @details The goal is distinguished from the other states of its
+			/// cell, they are not solutions.
 			struct Equal {
 				bool operator()(const State& lhs, const State& rhs) const
 				{
-					return lhs.discretePose == rhs.discretePose;
+					return lhs.discretePose == rhs.discretePose && lhs.isGoal == rhs.isGoal;
 				}
 			};
 		};
-- 
2.43.0


From 084009918a2fe50391570afb3e8617d032339c30 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:31:14 +0000
Subject: [PATCH 44/54] fix: adding and subtracting points in Python raises a
 TypeError

---
 interfaces/python/src/pyplanning.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/interfaces/python/src/pyplanning.cpp b/interfaces/python/src/pyplanning.cpp
index dc43dcb..11c5908 100644
--- a/interfaces/python/src/pyplanning.cpp
+++ b/interfaces/python/src/pyplanning.cpp
@@ -209,8 +209,8 @@ PYBIND11_MODULE(pyplanning, m)
 		.def(init<double, double>())
 		.def<double& (Point2d::*)()>("x", &Point2d::x)
 		.def<double& (Point2d::*)()>("y", &Point2d::y)
-		.def(self + self)
-		.def(self - self)
+		.def("__add__", [](const Point2d& lhs, const Point2d& rhs) -> Point2d { return lhs + rhs; }, is_operator())
+		.def("__sub__", [](const Point2d& lhs, const Point2d& rhs) -> Point2d { return lhs - rhs; }, is_operator())
 		.def(self == self)
 		.def(self != self);
 
-- 
2.43.0


From 25aa19096493bfcbbafa9a8a19c1877772c531a2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:31:14 +0000
Subject: [PATCH 45/54] fix: Python occupancy map has no is_occupied method

---
 interfaces/python/src/pyplanning.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/interfaces/python/src/pyplanning.cpp b/interfaces/python/src/pyplanning.cpp
index 11c5908..297303c 100644
--- a/interfaces/python/src/pyplanning.cpp
+++ b/interfaces/python/src/pyplanning.cpp
@@ -348,7 +348,7 @@ PYBIND11_MODULE(pyplanning, m)
 		.def("update", &OccupancyMap::Update)
 		.def("set_position", &OccupancyMap::SetPosition)
 		.def("get_position", &OccupancyMap::GetPosition)
-		.def("is_occupied)", &OccupancyMap::IsOccupied)
+		.def("is_occupied", &OccupancyMap::IsOccupied)
 		.def<int (OccupancyMap::*)(const GridCellPosition&)>("get_occupancy_value", &OccupancyMap::GetOccupancyValue)
 		.def<int (OccupancyMap::*)(int, int)>("get_occupancy_value", &OccupancyMap::GetOccupancyValue)
 		.def<Ref<GVD::ObstacleDistanceMap>& (OccupancyMap::*)()>("get_obstacle_map", &OccupancyMap::GetObstacleDistanceMap)
-- 
2.43.0


From eddda7b19a6ed866381c46bf830bc6f00b5346c8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:31:14 +0000
Subject: [PATCH 46/54] fix: path validation of a validator implemented in
 Python calls its state validation

---
 interfaces/python/src/pyplanning.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/interfaces/python/src/pyplanning.cpp b/interfaces/python/src/pyplanning.cpp
index 297303c..1fbe441 100644
--- a/interfaces/python/src/pyplanning.cpp
+++ b/interfaces/python/src/pyplanning.cpp
@@ -402,7 +402,7 @@ PYBIND11_MODULE(pyplanning, m)
 	struct StateValidatorSE2BaseWrapper : StateValidatorSE2Base {
 		using StateValidatorSE2Base::StateValidatorSE2Base;
 		virtual bool IsStateValid(const Pose2d& a) override { PYBIND11_OVERRIDE_PURE(bool, StateValidatorSE2Base, IsStateValid, a); }
-		virtual bool IsPathValid(const Path<Pose2d>& a, float* b) override { PYBIND11_OVERRIDE_PURE(bool, StateValidatorSE2Base, IsStateValid, a, b); }
+		virtual bool IsPathValid(const Path<Pose2d>& a, float* b) override { PYBIND11_OVERRIDE_PURE(bool, StateValidatorSE2Base, IsPathValid, &a, b); }
 	};
 
 	class_<StateValidatorSE2Base, Ref<StateValidatorSE2Base>, StateValidatorSE2BaseWrapper>(m, "StateValidatorSE2Base")
-- 
2.43.0


From 35bb49dba89ff37dcfd75a73f2644fb9379d3d72 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:31:14 +0000
Subject: [PATCH 47/54] fix: path validation cannot be called from Python with
 a path only

---
 interfaces/python/src/pyplanning.cpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/interfaces/python/src/pyplanning.cpp b/interfaces/python/src/pyplanning.cpp
index 1fbe441..f92912c 100644
--- a/interfaces/python/src/pyplanning.cpp
+++ b/interfaces/python/src/pyplanning.cpp
@@ -409,6 +409,7 @@ PYBIND11_MODULE(pyplanning, m)
 		.def(init<const Ref<StateSpaceSE2>&>())
 		.def("is_state_valid", &StateValidatorSE2Base::IsStateValid)
 		.def<bool (StateValidatorSE2Base::*)(const PathSE2Base&, float*)>("is_path_valid", &StateValidatorSE2Base::IsPathValid)
+		.def("is_path_valid", [](StateValidatorSE2Base& validator, const PathSE2Base& path) { return validator.IsPathValid(path); })
 		.def_property("state_space", &StateValidatorSE2Base::GetStateSpace, nullptr);
 
 	class_<StateValidatorSE2Free, Ref<StateValidatorSE2Free>, StateValidatorSE2Base>(m, "StateValidatorSE2Free")
-- 
2.43.0


From 03df6a710c40480f22f7e2e14b94a2a7185f20cf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:31:15 +0000
Subject: [PATCH 48/54] fix: distances and cost of a position are lost in
 Python

---
 interfaces/python/src/pyplanning.cpp | 18 +++++++++++++++---
 1 file changed, 15 insertions(+), 3 deletions(-)

diff --git a/interfaces/python/src/pyplanning.cpp b/interfaces/python/src/pyplanning.cpp
index f92912c..d82453c 100644
--- a/interfaces/python/src/pyplanning.cpp
+++ b/interfaces/python/src/pyplanning.cpp
@@ -426,12 +426,24 @@ PYBIND11_MODULE(pyplanning, m)
 		.def("update", &GVD::Update)
 		.def<float (GVD::*)(int, int) const>("get_distance_to_nearest_obstacle", &GVD::GetDistanceToNearestObstacle)
 		.def<float (GVD::*)(const GridCellPosition&) const>("get_distance_to_nearest_obstacle", &GVD::GetDistanceToNearestObstacle)
-		.def<bool (GVD::*)(const Point2d&, float&) const>("get_distance_to_nearest_obstacle", &GVD::GetDistanceToNearestObstacle)
+		.def("get_distance_to_nearest_obstacle", [](const GVD& gvd, const Point2d& position) {
+			float value = 0.0f;
+			bool isInside = gvd.GetDistanceToNearestObstacle(position, value);
+			return std::make_tuple(isInside, value);
+		})
 		.def<float (GVD::*)(int, int) const>("get_distance_to_nearest_voronoi_edge", &GVD::GetDistanceToNearestVoronoiEdge)
 		.def<float (GVD::*)(const GridCellPosition&) const>("get_distance_to_nearest_voronoi_edge", &GVD::GetDistanceToNearestVoronoiEdge)
-		.def<bool (GVD::*)(const Point2d&, float&) const>("get_distance_to_nearest_voronoi_edge", &GVD::GetDistanceToNearestVoronoiEdge)
+		.def("get_distance_to_nearest_voronoi_edge", [](const GVD& gvd, const Point2d& position) {
+			float value = 0.0f;
+			bool isInside = gvd.GetDistanceToNearestVoronoiEdge(position, value);
+			return std::make_tuple(isInside, value);
+		})
 		.def<float (GVD::*)(int, int) const>("get_path_cost", &GVD::GetPathCost)
 		.def<float (GVD::*)(const GridCellPosition&) const>("get_path_cost", &GVD::GetPathCost)
-		.def<bool (GVD::*)(const Point2d&, float&) const>("get_path_cost", &GVD::GetPathCost)
+		.def("get_path_cost", [](const GVD& gvd, const Point2d& position) {
+			float value = 0.0f;
+			bool isInside = gvd.GetPathCost(position, value);
+			return std::make_tuple(isInside, value);
+		})
 		.def("visualize", &GVD::Visualize);
 }
-- 
2.43.0


From 7e0c32c1703f443eb5c3ca105b22927060005a13 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:31:15 +0000
Subject: [PATCH 49/54] fix: obstacle distance map cannot be returned to Python

---
 interfaces/python/src/pyplanning.cpp | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/interfaces/python/src/pyplanning.cpp b/interfaces/python/src/pyplanning.cpp
index d82453c..21f8a95 100644
--- a/interfaces/python/src/pyplanning.cpp
+++ b/interfaces/python/src/pyplanning.cpp
@@ -340,6 +340,10 @@ PYBIND11_MODULE(pyplanning, m)
 		virtual bool IsOccupied(const GridCellPosition& a) override { PYBIND11_OVERRIDE_PURE(bool, OccupancyMap, IsOccupied, a); }
 	};
 
+	class_<GVD::ObstacleDistanceMap, Ref<GVD::ObstacleDistanceMap>>(m, "ObstacleDistanceMap")
+		.def<float (GVD::ObstacleDistanceMap::*)(int, int) const>("get_distance_to_nearest_obstacle", &GVD::ObstacleDistanceMap::GetDistanceToNearestObstacle)
+		.def<float (GVD::ObstacleDistanceMap::*)(const GridCellPosition&) const>("get_distance_to_nearest_obstacle", &GVD::ObstacleDistanceMap::GetDistanceToNearestObstacle);
+
 	class_<OccupancyMap, Ref<OccupancyMap>, OccupancyMapWrapper>(m, "OccupancyMap")
 		.def(init<float>())
 		.def("initialize_size", &OccupancyMap::InitializeSize)
-- 
2.43.0


From 7c3c37c88c169e86884db539fb9883290d3cfaf5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:31:15 +0000
Subject: [PATCH 50/54] fix: state propagator implemented in Python cannot
 return its transitions

---
 interfaces/python/src/pyplanning.cpp | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/interfaces/python/src/pyplanning.cpp b/interfaces/python/src/pyplanning.cpp
index 21f8a95..d218bdf 100644
--- a/interfaces/python/src/pyplanning.cpp
+++ b/interfaces/python/src/pyplanning.cpp
@@ -140,6 +140,9 @@ PYBIND11_MODULE(pyplanning, m)
 	class_<AStarHeuristicFcnN2, Ref<AStarHeuristicFcnN2>, AStarHeuristicN2>(m, "AStarHeuristicFcnN2")
 		.def(init<std::function<double(const GridCellPosition&, const GridCellPosition&)>>());
 
+	class_<NullAction>(m, "NullAction")
+		.def(init<>());
+
 	using AStarStatePropagatorN2 = AStarStatePropagator<GridCellPosition>;
 	struct AStarStatePropagatorN2Wrapper : AStarStatePropagatorN2 {
 		using AStarStatePropagatorN2::AStarStatePropagatorN2;
-- 
2.43.0


From 25dd98c360dd1ed45ef1f7af44c92a3a5b7b3bc8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:31:15 +0000
Subject: [PATCH 51/54] fix: cells and vertices of a shape implemented in
 Python are lost

---
 interfaces/python/src/pyplanning.cpp | 12 ++++++++++--
 1 file changed, 10 insertions(+), 2 deletions(-)

diff --git a/interfaces/python/src/pyplanning.cpp b/interfaces/python/src/pyplanning.cpp
index d218bdf..6e0ebbe 100644
--- a/interfaces/python/src/pyplanning.cpp
+++ b/interfaces/python/src/pyplanning.cpp
@@ -385,11 +385,19 @@ PYBIND11_MODULE(pyplanning, m)
 		using Shape::Shape;
 		virtual void GetGridCellsPosition(const OccupancyMap& a, const Pose2d& b, std::vector<GridCellPosition>& c) override
 		{
-			PYBIND11_OVERRIDE_PURE(void, Shape, GetGridCellsPosition, a, b, c);
+			// Pass the output as a list that the override extends
+			list cells = cast(c);
+			auto call = [&]() { PYBIND11_OVERRIDE_PURE(void, Shape, GetGridCellsPosition, &a, b, cells); };
+			call();
+			c = cells.cast<std::vector<GridCellPosition>>();
 		}
 		virtual void GetVerticesPosition(const Pose2d& a, std::vector<Point2d>& b) override
 		{
-			PYBIND11_OVERRIDE_PURE(void, Shape, GetVerticesPosition, a, b);
+			// Pass the output as a list that the override extends
+			list points = cast(b);
+			auto call = [&]() { PYBIND11_OVERRIDE_PURE(void, Shape, GetVerticesPosition, a, points); };
+			call();
+			b = points.cast<std::vector<Point2d>>();
 		}
 	};
 	class_<Shape, Ref<Shape>, ShapeWrapper>(m, "Shape")
-- 
2.43.0


From b2ded25316151e569c46b4a2158dfb1382543081 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:25:37 +0000
Subject: [PATCH 52/54] fix: deleting a deep search tree overflows the stack

---
 planner/src/utils/node.h | 13 ++++++++++++-
 1 file changed, 12 insertions(+), 1 deletion(-)

diff --git a/planner/src/utils/node.h b/planner/src/utils/node.h
index 5d77e09..8773c92 100644
--- a/planner/src/utils/node.h
+++ b/planner/src/utils/node.h
@@ -19,7 +19,18 @@ namespace Planner {
 		template <typename... Args>
 		Node(Args&&... args) :
 			m_data(T(std::forward<Args>(args)...)) { }
-		~Node() = default;
+		~Node()
+		{
+			// Delete the descendants iteratively, a deep tree would overflow the stack
+			std::vector<Scope<Node>> nodes = std::move(m_children);
+			while (!nodes.empty()) {
+				Scope<Node> node = std::move(nodes.back());
+				nodes.pop_back();
+				for (auto& child : node->m_children)
+					nodes.push_back(std::move(child));
+				node->m_children.clear();
+			}
+		}
 
 		/// @brief Perform a pre-order traversal of the tree whose root node
 		/// is *this.
-- 
2.43.0


From 4442a3dd5cb4ba0cf49efc0c65dc944e7c8992ee Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:51:54 +0000
Subject: [PATCH 53/54] fix: RRT* attaches a state by a path that has not been
 validated

---
 planner/src/algo/rrt_star.h | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/planner/src/algo/rrt_star.h b/planner/src/algo/rrt_star.h
index b5350bc..d4c8680 100644
--- a/planner/src/algo/rrt_star.h
+++ b/planner/src/algo/rrt_star.h
@@ -96,6 +96,14 @@ namespace Planner {
 					}
 				}
 
+				// None of them can be connected to the new state, use the path
+				// that has been validated
+				if (!bestParentNode) {
+					bestParentNode = nearestNode;
+					bestCost = (*nearestNode)->info.costFromGoal + pathNearToNew->GetLength();
+					bestPath = pathNearToNew;
+				}
+
 				// Add the node to the tree. If the state is already in the
 				// tree, its parent does not change and neither does its cost.
 				const auto treeSize = m_tree.Size();
-- 
2.43.0


From 9f2eb7414e01450afaefe0dac461123e3296469c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 08:15:55 +0000
Subject: [PATCH 54/54] fix: declare the integer specialisation of
 Pose2::WrapTheta in the header

Without the declaration the generic version was instantiated, and inlined by
optimising builds, wherever an integer pose is built: heading indices wrapped
modulo a turn and different discrete states compared equal.
---
 planner/src/geometry/2dplane.h | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/planner/src/geometry/2dplane.h b/planner/src/geometry/2dplane.h
index cd8023f..ceb1932 100644
--- a/planner/src/geometry/2dplane.h
+++ b/planner/src/geometry/2dplane.h
@@ -44,6 +44,10 @@ namespace Planner {
 		return t;
 	}
 
+	/// @brief The heading of an integer pose is an index, it does not wrap.
+	template <>
+	int Pose2<int>::WrapTheta() const;
+
 	/// @brief Add the Pose @rhs after @lhs.
 	/// @warning This operation is not commutative.
 	template <typename T>
-- 
2.43.0

