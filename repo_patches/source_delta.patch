From 948ea7777fd4e5ffad044e17beead9638d5abe5f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:41:11 +0000
Subject: [PATCH 01/25] fix: keep the robot lock for the whole operation
 instead of locking a discarded temporary

---
 VirtualRobot/Nodes/RobotNode.cpp |  1 +
 VirtualRobot/Robot.cpp           | 12 ++++++------
 2 files changed, 7 insertions(+), 6 deletions(-)

diff --git a/VirtualRobot/Nodes/RobotNode.cpp b/VirtualRobot/Nodes/RobotNode.cpp
index 4287337..f5f484e 100644
--- a/VirtualRobot/Nodes/RobotNode.cpp
+++ b/VirtualRobot/Nodes/RobotNode.cpp
@@ -618,6 +618,7 @@ namespace VirtualRobot
 
     float RobotNode::getDelta(float target)
     {
+        ReadLockPtr lock = getRobot()->getReadLock();
         float delta = 0.0f;
 
         /*if (nodeType != Joint)
diff --git a/VirtualRobot/Robot.cpp b/VirtualRobot/Robot.cpp
index b8e226a..d76cb1a 100644
--- a/VirtualRobot/Robot.cpp
+++ b/VirtualRobot/Robot.cpp
@@ -418,7 +418,7 @@ namespace VirtualRobot
      */
     void Robot::applyJointValues()
     {
-        WriteLock(mutex, use_mutex);
+        WriteLock lock(mutex, use_mutex);
         this->getRootNode()->updatePose(this->getGlobalPose());
     }
 
@@ -667,7 +667,7 @@ namespace VirtualRobot
 
     void LocalRobot::setGlobalPose(const Eigen::Matrix4f& globalPose, bool applyJointValues /*= true*/)
     {
-        WriteLock(mutex, use_mutex);
+        WriteLock lock(mutex, use_mutex);
         this->globalPose = globalPose;
 
         if (applyJointValues)
@@ -678,7 +678,7 @@ namespace VirtualRobot
 
     Eigen::Matrix4f LocalRobot::getGlobalPose() const
     {
-        ReadLock(mutex, use_mutex);
+        ReadLock lock(mutex, use_mutex);
         return globalPose;
     }
 
@@ -992,7 +992,7 @@ namespace VirtualRobot
 
     void Robot::setJointValues(const std::map< std::string, float >& jointValues)
     {
-        WriteLock(mutex, use_mutex);
+        WriteLock lock(mutex, use_mutex);
 
         std::map< std::string, float >::const_iterator it = jointValues.begin();
 
@@ -1014,7 +1014,7 @@ namespace VirtualRobot
 
     void Robot::setJointValues(const std::map<RobotNodePtr, float>& jointValues)
     {
-        WriteLock(mutex, use_mutex);
+        WriteLock lock(mutex, use_mutex);
 
         std::map< RobotNodePtr, float >::const_iterator it = jointValues.begin();
 
@@ -1064,7 +1064,7 @@ namespace VirtualRobot
     void Robot::setJointValues(const std::vector<RobotNodePtr> rn, const std::vector<float>& jointValues)
     {
         VR_ASSERT(rn.size() == jointValues.size());
-        WriteLock(mutex, use_mutex);
+        WriteLock lock(mutex, use_mutex);
 
         for (size_t i = 0; i < rn.size(); i++)
         {
-- 
2.43.0


From 62503b6d2891c20665bb62de9c74038657338964 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:53:39 +0000
Subject: [PATCH 02/25] fix: take the engine lock in the physics accessors that
 read or write shared state without it

---
 SimDynamics/DynamicsEngine/BulletEngine/BulletEngine.cpp | 1 +
 SimDynamics/DynamicsEngine/BulletEngine/BulletObject.cpp | 1 +
 SimDynamics/DynamicsEngine/BulletEngine/BulletRobot.cpp  | 1 +
 SimDynamics/DynamicsEngine/DynamicsEngine.cpp            | 1 +
 SimDynamics/DynamicsEngine/DynamicsEngine.h              | 1 +
 SimDynamics/DynamicsEngine/DynamicsRobot.cpp             | 1 +
 6 files changed, 6 insertions(+)

diff --git a/SimDynamics/DynamicsEngine/BulletEngine/BulletEngine.cpp b/SimDynamics/DynamicsEngine/BulletEngine/BulletEngine.cpp
index 7fa7948..72e4c9e 100644
--- a/SimDynamics/DynamicsEngine/BulletEngine/BulletEngine.cpp
+++ b/SimDynamics/DynamicsEngine/BulletEngine/BulletEngine.cpp
@@ -648,6 +648,7 @@ namespace SimDynamics
 
     double BulletEngine::getSimTime()
     {
+        MutexLockPtr lock = getScopedLock();
         return simTime;
     }
 
diff --git a/SimDynamics/DynamicsEngine/BulletEngine/BulletObject.cpp b/SimDynamics/DynamicsEngine/BulletEngine/BulletObject.cpp
index 95a6633..62a8d64 100644
--- a/SimDynamics/DynamicsEngine/BulletEngine/BulletObject.cpp
+++ b/SimDynamics/DynamicsEngine/BulletEngine/BulletObject.cpp
@@ -394,6 +394,7 @@ namespace SimDynamics
 
     void BulletObject::setSimType(VirtualRobot::SceneObject::Physics::SimulationType s)
     {
+        MutexLockPtr lock = getScopedLock();
         btVector3 localInertia;
         localInertia.setZero();
         CollisionModelPtr colModel = sceneObject->getCollisionModel();
diff --git a/SimDynamics/DynamicsEngine/BulletEngine/BulletRobot.cpp b/SimDynamics/DynamicsEngine/BulletEngine/BulletRobot.cpp
index 1e65be5..5fe958b 100644
--- a/SimDynamics/DynamicsEngine/BulletEngine/BulletRobot.cpp
+++ b/SimDynamics/DynamicsEngine/BulletEngine/BulletRobot.cpp
@@ -467,6 +467,7 @@ namespace SimDynamics
 
     std::vector<BulletRobot::LinkInfo> BulletRobot::getLinks()
     {
+        MutexLockPtr lock = getScopedLock();
         return links;
     }
 
diff --git a/SimDynamics/DynamicsEngine/DynamicsEngine.cpp b/SimDynamics/DynamicsEngine/DynamicsEngine.cpp
index 9318f44..1fd21bb 100644
--- a/SimDynamics/DynamicsEngine/DynamicsEngine.cpp
+++ b/SimDynamics/DynamicsEngine/DynamicsEngine.cpp
@@ -252,6 +252,7 @@ namespace SimDynamics
 
     void DynamicsEngine::getFloorInfo(Eigen::Vector3f& floorPos, Eigen::Vector3f& floorUp, double& floorExtendMM, double& floorDepthMM)
     {
+        MutexLockPtr lock = getScopedLock();
         floorPos = this->floorPos;
         floorUp = this->floorUp;
         floorExtendMM = this->floorExtendMM;
diff --git a/SimDynamics/DynamicsEngine/DynamicsEngine.h b/SimDynamics/DynamicsEngine/DynamicsEngine.h
index 414719b..26b3ab8 100644
--- a/SimDynamics/DynamicsEngine/DynamicsEngine.h
+++ b/SimDynamics/DynamicsEngine/DynamicsEngine.h
@@ -141,6 +141,7 @@ namespace SimDynamics
 
         DynamicsObjectPtr getFloor()
         {
+            MutexLockPtr lock = getScopedLock();
             return floor;
         }
 
diff --git a/SimDynamics/DynamicsEngine/DynamicsRobot.cpp b/SimDynamics/DynamicsEngine/DynamicsRobot.cpp
index ad3ac8b..8d57015 100644
--- a/SimDynamics/DynamicsEngine/DynamicsRobot.cpp
+++ b/SimDynamics/DynamicsEngine/DynamicsRobot.cpp
@@ -441,6 +441,7 @@ namespace SimDynamics
 
     void DynamicsRobot::setPIDParameters(float p, float i, float d)
     {
+        MutexLockPtr lock = getScopedLock();
         PID_p = p;
         PID_i = i;
         PID_d = d;
-- 
2.43.0


From a9405bdc6277da3e7a75532379bbe8ebb7d42163 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:57:42 +0000
Subject: [PATCH 03/25] fix: access the planning thread state, the processed
 path and the grasp list only with their mutex held

---
 MotionPlanning/Planner/GraspRrt.cpp                    | 2 ++
 MotionPlanning/Planner/PlanningThread.cpp              | 2 +-
 MotionPlanning/PostProcessing/PathProcessingThread.cpp | 6 ++++--
 3 files changed, 7 insertions(+), 3 deletions(-)

diff --git a/MotionPlanning/Planner/GraspRrt.cpp b/MotionPlanning/Planner/GraspRrt.cpp
index 48b6a1d..345c6cf 100644
--- a/MotionPlanning/Planner/GraspRrt.cpp
+++ b/MotionPlanning/Planner/GraspRrt.cpp
@@ -133,7 +133,9 @@ namespace Saba
 
         workSpaceSamplingCount = 0;
 
+        graspInfoMutex.lock();
         grasps.clear();
+        graspInfoMutex.unlock();
 
         poseSphere.reset(new ApproachDiscretization());
 
diff --git a/MotionPlanning/Planner/PlanningThread.cpp b/MotionPlanning/Planner/PlanningThread.cpp
index 18365c3..9dcc0a1 100644
--- a/MotionPlanning/Planner/PlanningThread.cpp
+++ b/MotionPlanning/Planner/PlanningThread.cpp
@@ -83,7 +83,7 @@ namespace Saba
 
     void PlanningThread::workingMethod()
     {
-        if (!threadStarted)
+        if (!isRunning())
         {
             VR_WARNING << "Thread should be in started mode?!" << endl;
         }
diff --git a/MotionPlanning/PostProcessing/PathProcessingThread.cpp b/MotionPlanning/PostProcessing/PathProcessingThread.cpp
index 2417168..d298a4a 100644
--- a/MotionPlanning/PostProcessing/PathProcessingThread.cpp
+++ b/MotionPlanning/PostProcessing/PathProcessingThread.cpp
@@ -88,7 +88,7 @@ namespace Saba
 
     void PathProcessingThread::workingMethod()
     {
-        if (!threadStarted)
+        if (!isRunning())
         {
             VR_WARNING << "Thread should be in started mode?!" << endl;
         }
@@ -117,7 +117,9 @@ namespace Saba
 
     Saba::CSpacePathPtr PathProcessingThread::getProcessedPath()
     {
-        if (isRunning())
+        boost::lock_guard<boost::mutex> lock(mutex);
+
+        if (threadStarted)
         {
             return Saba::CSpacePathPtr();    // no results yet
         }
-- 
2.43.0


From 8f21273f00054bf9db863deb55f9e00f6193387e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:06:09 +0000
Subject: [PATCH 04/25] fix: draw every random decision from the library's
 seeded generator instead of rand() or a private engine

---
 GraspPlanning/ApproachMovementSurfaceNormal.cpp     | 11 ++++++-----
 GraspPlanning/ApproachMovementSurfaceNormal.h       |  3 ---
 GraspPlanning/GraspQuality/GraspQualityMeasure.cpp  |  3 ++-
 MotionPlanning/ApproachDiscretization.cpp           |  5 +++--
 MotionPlanning/PostProcessing/ShortcutProcessor.cpp |  5 +++--
 VirtualRobot/IK/AdvancedIKSolver.cpp                |  3 ++-
 VirtualRobot/IK/ConstrainedOptimizationIK.cpp       |  3 ++-
 VirtualRobot/MathTools.cpp                          |  7 ++++++-
 VirtualRobot/Workspace/WorkspaceGrid.cpp            | 13 +++++++------
 VirtualRobot/Workspace/WorkspaceRepresentation.cpp  |  2 +-
 10 files changed, 32 insertions(+), 23 deletions(-)

diff --git a/GraspPlanning/ApproachMovementSurfaceNormal.cpp b/GraspPlanning/ApproachMovementSurfaceNormal.cpp
index d5264e9..c5f46ea 100644
--- a/GraspPlanning/ApproachMovementSurfaceNormal.cpp
+++ b/GraspPlanning/ApproachMovementSurfaceNormal.cpp
@@ -2,6 +2,7 @@
 
 #include <VirtualRobot/VirtualRobot.h>
 #include <VirtualRobot/Robot.h>
+#include <VirtualRobot/Random.h>
 #include <VirtualRobot/RobotConfig.h>
 #include <VirtualRobot/MathTools.h>
 #include <VirtualRobot/SceneObjectSet.h>
@@ -43,8 +44,8 @@ namespace GraspStudio
             return false;
         }
 
-        std::size_t faceIndex = useFaceAreasDistrib ? distribFaceAreas(randomEngine)
-                                                    : distribUniform(randomEngine);
+        std::size_t faceIndex = useFaceAreasDistrib ? distribFaceAreas(PRNG64Bit())
+                                                    : distribUniform(PRNG64Bit());
 
         std::size_t nVert1 = (objectModel->faces[faceIndex]).id1;
         std::size_t nVert2 = (objectModel->faces[faceIndex]).id2;
@@ -99,7 +100,7 @@ namespace GraspStudio
         // check if a random distance is wanted
         if (distribRetreatDistance.max() > 0)
         {
-            float distance = distribRetreatDistance(randomEngine);
+            float distance = distribRetreatDistance(PRNG64Bit());
             Eigen::Vector3f delta = approachDir * distance;
             updateEEFPose(delta);
 
@@ -134,7 +135,7 @@ namespace GraspStudio
 
         while (z.norm() < 1e-10f)
         {
-            z.setRandom();
+            z = Eigen::Vector3f(RandomFloat(-1.0f, 1.0f), RandomFloat(-1.0f, 1.0f), RandomFloat(-1.0f, 1.0f));
         }
 
         z.normalize();
@@ -158,7 +159,7 @@ namespace GraspStudio
             }
 
             //random y dir vector
-            y.setRandom();
+            y = Eigen::Vector3f(RandomFloat(-1.0f, 1.0f), RandomFloat(-1.0f, 1.0f), RandomFloat(-1.0f, 1.0f));
 
             if (y.norm() < 1e-8f)
             {
diff --git a/GraspPlanning/ApproachMovementSurfaceNormal.h b/GraspPlanning/ApproachMovementSurfaceNormal.h
index e8ccd32..b0a0468 100644
--- a/GraspPlanning/ApproachMovementSurfaceNormal.h
+++ b/GraspPlanning/ApproachMovementSurfaceNormal.h
@@ -85,9 +85,6 @@ namespace GraspStudio
 
     protected:
         
-        /// The random engine.
-        std::default_random_engine randomEngine { std::random_device{}() };
-        
         /// Uniform distribiton over face indices.
         std::uniform_int_distribution<std::size_t> distribUniform;
         
diff --git a/GraspPlanning/GraspQuality/GraspQualityMeasure.cpp b/GraspPlanning/GraspQuality/GraspQualityMeasure.cpp
index 6abbfee..97a9387 100644
--- a/GraspPlanning/GraspQuality/GraspQualityMeasure.cpp
+++ b/GraspPlanning/GraspQuality/GraspQualityMeasure.cpp
@@ -12,6 +12,7 @@
 
 #include "GraspQualityMeasure.h"
 #include <VirtualRobot/VirtualRobotException.h>
+#include <VirtualRobot/Random.h>
 #include <VirtualRobot/SceneObject.h>
 #include <VirtualRobot/CollisionDetection/CollisionModel.h>
 #include <VirtualRobot/Visualization/TriMeshModel.h>
@@ -59,7 +60,7 @@ namespace GraspStudio
 
         while (nLoopCount < nFaces && vFaceCopy.size() > 0)
         {
-            int nRnd = rand() % vFaceCopy.size();
+            int nRnd = VirtualRobot::RandomNumber() % vFaceCopy.size();
             iFaceIter = vFaceCopy.begin();
             iFaceIter += nRnd;
 
diff --git a/MotionPlanning/ApproachDiscretization.cpp b/MotionPlanning/ApproachDiscretization.cpp
index e3d399c..90ca112 100644
--- a/MotionPlanning/ApproachDiscretization.cpp
+++ b/MotionPlanning/ApproachDiscretization.cpp
@@ -1,4 +1,5 @@
 #include "ApproachDiscretization.h"
+#include <VirtualRobot/Random.h>
 #include <iostream>
 #include <ctime>
 #include <algorithm>
@@ -211,7 +212,7 @@ namespace Saba
 
         while (nLoopCount < loops)
         {
-            nRandFaceId = activeFaces[(rand() % nSize)];
+            nRandFaceId = activeFaces[(VirtualRobot::RandomNumber() % nSize)];
 
             if (faceIdToCSpaceNodesMapping[nRandFaceId].count < nBestRanking && faceIdToCSpaceNodesMapping[nRandFaceId].cspaceNodes.size() > 0)
             {
@@ -243,7 +244,7 @@ namespace Saba
             return CSpaceNodePtr();
         }
 
-        int nRandNode = rand() % nNodes;
+        int nRandNode = VirtualRobot::RandomNumber() % nNodes;
         CSpaceNodePtr node = faceIdToCSpaceNodesMapping[nBestFace].cspaceNodes[nRandNode];
 
         // remove node from list
diff --git a/MotionPlanning/PostProcessing/ShortcutProcessor.cpp b/MotionPlanning/PostProcessing/ShortcutProcessor.cpp
index 665932f..ac8b27e 100644
--- a/MotionPlanning/PostProcessing/ShortcutProcessor.cpp
+++ b/MotionPlanning/PostProcessing/ShortcutProcessor.cpp
@@ -2,6 +2,7 @@
 #include "ShortcutProcessor.h"
 #include "MotionPlanning/CSpace/CSpaceSampled.h"
 #include "MotionPlanning/CSpace/CSpacePath.h"
+#include <VirtualRobot/Random.h>
 #include <vector>
 #include <ctime>
 #include <cmath>
@@ -241,7 +242,7 @@ namespace Saba
             maxSolutionPathDist = 2;
         }
 
-        storeStartIndex = (int)(rand() % (optimizedPath->getNrOfPoints() - 2));
+        storeStartIndex = (int)(VirtualRobot::RandomNumber() % (optimizedPath->getNrOfPoints() - 2));
 
         int remainig = optimizedPath->getNrOfPoints() - 2 - storeStartIndex;
 
@@ -255,7 +256,7 @@ namespace Saba
             return false;
         }
 
-        int dist = 2 + rand() % (remainig);
+        int dist = 2 + VirtualRobot::RandomNumber() % (remainig);
         storeEndIndex = storeStartIndex + dist;
 
         if (storeStartIndex < 0 || storeEndIndex < 0)
diff --git a/VirtualRobot/IK/AdvancedIKSolver.cpp b/VirtualRobot/IK/AdvancedIKSolver.cpp
index a91953e..1f558cc 100644
--- a/VirtualRobot/IK/AdvancedIKSolver.cpp
+++ b/VirtualRobot/IK/AdvancedIKSolver.cpp
@@ -1,6 +1,7 @@
 #include <Eigen/Geometry>
 #include "AdvancedIKSolver.h"
 #include "../Robot.h"
+#include "../Random.h"
 #include "../VirtualRobotException.h"
 #include "../Nodes/RobotNodePrismatic.h"
 #include "../Nodes/RobotNodeRevolute.h"
@@ -198,7 +199,7 @@ namespace VirtualRobot
         std::vector<float> v;
         rns->getJointValues(v);
 
-        int pos = rand() % graspSet->getSize();
+        int pos = RandomNumber() % graspSet->getSize();
         GraspPtr g = graspSet->getGrasp(pos);
         Eigen::Matrix4f m = g->getTcpPoseGlobal(object->getGlobalPose());
 
diff --git a/VirtualRobot/IK/ConstrainedOptimizationIK.cpp b/VirtualRobot/IK/ConstrainedOptimizationIK.cpp
index a04bbcc..600c9d9 100644
--- a/VirtualRobot/IK/ConstrainedOptimizationIK.cpp
+++ b/VirtualRobot/IK/ConstrainedOptimizationIK.cpp
@@ -23,6 +23,7 @@
 */
 
 #include "ConstrainedOptimizationIK.h"
+#include "../Random.h"
 
 #include <nlopt.hpp>
 
@@ -126,7 +127,7 @@ bool ConstrainedOptimizationIK::solve(bool stepwise)
             // Try random configurations sampled around initial config
             for(int i = 0; i < size; i++)
             {
-                float t = (rand()%1001) / 1000.0;
+                float t = (RandomNumber() % 1001) / 1000.0;
                 x[i] = initialConfig(i) + randomSamplingDisplacementFactor * (nodeSet->getNode(i)->getJointLimitLo() + t * (nodeSet->getNode(i)->getJointLimitHi() - nodeSet->getNode(i)->getJointLimitLo()) - initialConfig(i));
             }
         }
diff --git a/VirtualRobot/MathTools.cpp b/VirtualRobot/MathTools.cpp
index 8fe6837..8242024 100644
--- a/VirtualRobot/MathTools.cpp
+++ b/VirtualRobot/MathTools.cpp
@@ -1200,7 +1200,12 @@ namespace VirtualRobot
 
         while (true)
         {
-            storeResult = Eigen::VectorXf::Random(dim);
+            storeResult.resize(dim);
+
+            for (int i = 0; i < dim; i++)
+            {
+                storeResult[i] = RandomFloat(-1.0f, 1.0f);
+            }
 
             if (storeResult.norm() > 1e-8f)
             {
diff --git a/VirtualRobot/Workspace/WorkspaceGrid.cpp b/VirtualRobot/Workspace/WorkspaceGrid.cpp
index d322e38..a9d4123 100644
--- a/VirtualRobot/Workspace/WorkspaceGrid.cpp
+++ b/VirtualRobot/Workspace/WorkspaceGrid.cpp
@@ -4,6 +4,7 @@
 #include "../ManipulationObject.h"
 #include "../Nodes/RobotNode.h"
 #include "../Robot.h"
+#include "../Random.h"
 #include <iostream>
 #include <algorithm>
 using namespace std;
@@ -98,7 +99,7 @@ namespace VirtualRobot
 
         if (nLinks > 0)
         {
-            storeGrasp = graspLink[getDataPos(nPosX, nPosY)][rand() % nLinks];    // get random grasp
+            storeGrasp = graspLink[getDataPos(nPosX, nPosY)][RandomNumber() % nLinks];    // get random grasp
         }
         else
         {
@@ -163,7 +164,7 @@ namespace VirtualRobot
 
         if (nLinks > 0)
         {
-            storeGrasp = graspLink[getDataPos(cellX, cellY)][rand() % nLinks];
+            storeGrasp = graspLink[getDataPos(cellX, cellY)][RandomNumber() % nLinks];
         }
         else
         {
@@ -373,8 +374,8 @@ namespace VirtualRobot
 
         do
         {
-            x = rand() % gridSizeX;
-            y = rand() % gridSizeY;
+            x = RandomNumber() % gridSizeX;
+            y = RandomNumber() % gridSizeY;
             getCellEntry(x, y, nEntry, storeGrasp);
             if(entries)
                 *entries = nEntry;
@@ -407,8 +408,8 @@ namespace VirtualRobot
 
         do
         {
-            x = rand() % gridSizeX;
-            y = rand() % gridSizeY;
+            x = RandomNumber() % gridSizeX;
+            y = RandomNumber() % gridSizeY;
             getCellEntry(x, y, nEntry, storeGrasps);
             if(entries)
                 *entries = nEntry;
diff --git a/VirtualRobot/Workspace/WorkspaceRepresentation.cpp b/VirtualRobot/Workspace/WorkspaceRepresentation.cpp
index 99f3d32..068f437 100644
--- a/VirtualRobot/Workspace/WorkspaceRepresentation.cpp
+++ b/VirtualRobot/Workspace/WorkspaceRepresentation.cpp
@@ -1347,7 +1347,7 @@ namespace VirtualRobot
         {
             for (int j = 0; j < 6; j++)
             {
-                nV[j] = rand() % numVoxels[j];
+                nV[j] = RandomNumber() % numVoxels[j];
             }
 
             if (isCovered(nV))
-- 
2.43.0


From df6446d79072c8f839bf75bd3777c9b567137fe5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:06:39 +0000
Subject: [PATCH 05/25] fix: CSpaceSampled::clone uses the new robot's joints
 and no longer passes the random seed as the number of configurations

---
 MotionPlanning/CSpace/CSpaceSampled.cpp | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/MotionPlanning/CSpace/CSpaceSampled.cpp b/MotionPlanning/CSpace/CSpaceSampled.cpp
index 3ec0733..83649ce 100644
--- a/MotionPlanning/CSpace/CSpaceSampled.cpp
+++ b/MotionPlanning/CSpace/CSpaceSampled.cpp
@@ -51,7 +51,10 @@ namespace Saba
             return CSpaceSampledPtr();
         }
 
-        CSpaceSampledPtr result(new CSpaceSampled(newRobot, newCDM, robotNodes, newRandomSeed));
+        // the cloned cspace must move the joints of the new robot
+        VirtualRobot::RobotNodeSetPtr newRobotNodes = newRobot->hasRobotNodeSet(robotNodes->getName()) ? newRobot->getRobotNodeSet(robotNodes->getName()) : robotNodes->clone(newRobot);
+
+        CSpaceSampledPtr result(new CSpaceSampled(newRobot, newCDM, newRobotNodes, maxNodes, newRandomSeed));
         result->setBoundaries(boundaryMin, boundaryMax);
 
         if (useMetricWeights)
-- 
2.43.0


From 06759135de1a92b1399946c7f1b773100343e5ac Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:24:57 +0000
Subject: [PATCH 06/25] fix: restore the update switches and the probed state
 on every exit

Planner timeouts, GraspRrt, ElasticBandProcessor, ConstrainedOptimizationIK (error
path) left the robot's visualization update switched off, and
GraspEvaluationPoseUncertainty::evaluateGrasp returned early with moved joints/poses.
---
 .../GraspEvaluationPoseUncertainty.cpp             | 14 ++++++++++----
 MotionPlanning/Planner/BiRrt.cpp                   |  6 ++++++
 MotionPlanning/Planner/GraspIkRrt.cpp              |  6 ++++++
 MotionPlanning/Planner/GraspRrt.cpp                |  3 ++-
 MotionPlanning/Planner/Rrt.cpp                     |  6 ++++++
 .../PostProcessing/ElasticBandProcessor.cpp        |  3 ++-
 VirtualRobot/IK/ConstrainedOptimizationIK.cpp      |  2 ++
 7 files changed, 34 insertions(+), 6 deletions(-)

diff --git a/GraspPlanning/GraspQuality/GraspEvaluationPoseUncertainty.cpp b/GraspPlanning/GraspQuality/GraspEvaluationPoseUncertainty.cpp
index 5d960bc..2f1017d 100644
--- a/GraspPlanning/GraspQuality/GraspEvaluationPoseUncertainty.cpp
+++ b/GraspPlanning/GraspQuality/GraspEvaluationPoseUncertainty.cpp
@@ -333,6 +333,13 @@ GraspEvaluationPoseUncertainty::PoseEvalResults GraspEvaluationPoseUncertainty::
     Eigen::Matrix4f objectPoseInit = object->getGlobalPose();
     VirtualRobot::RobotConfigPtr initialConf = eef->getConfiguration();
 
+    auto restoreSetup = [&]()
+    {
+        eef->getRobot()->setGlobalPose(eefRobotPoseInit);
+        object->setGlobalPose(objectPoseInit);
+        eef->getRobot()->setConfig(initialConf);
+    };
+
     std::string graspPreshapeName = grasp->getPreshapeName();
     VirtualRobot::RobotConfigPtr graspPS;
     if (eef->hasPreshape(graspPreshapeName))
@@ -358,6 +365,7 @@ GraspEvaluationPoseUncertainty::PoseEvalResults GraspEvaluationPoseUncertainty::
     if (contacts.empty())
     {
         VR_INFO << "No contacts for grasp " << grasp->getName() << " found" << std::endl;
+        restoreSetup();
         return res;
     }
     
@@ -365,14 +373,12 @@ GraspEvaluationPoseUncertainty::PoseEvalResults GraspEvaluationPoseUncertainty::
     if (poses.empty())
     {
         VR_INFO << "No poses for grasp found" << std::endl;
+        restoreSetup();
         return res;
     }
     res = evaluatePoses(eef, object, poses, qm, graspPS);
 
-    // restore setup
-    eef->getRobot()->setGlobalPose(eefRobotPoseInit);
-    object->setGlobalPose(objectPoseInit);
-    eef->getRobot()->setConfig(initialConf);
+    restoreSetup();
 
     return res;
 }
diff --git a/MotionPlanning/Planner/BiRrt.cpp b/MotionPlanning/Planner/BiRrt.cpp
index aa666c2..0a55a0b 100644
--- a/MotionPlanning/Planner/BiRrt.cpp
+++ b/MotionPlanning/Planner/BiRrt.cpp
@@ -224,6 +224,12 @@ namespace Saba
             if(diffClock > planningTimeout)
             {
                 std::cout << "Encountered timeout of " << planningTimeout << " ms - aborting" << std::endl;
+
+                if (robot && bVisStatus)
+                {
+                    robot->setUpdateVisualization(bVisStatus);
+                }
+
                 return false;
             }
 
diff --git a/MotionPlanning/Planner/GraspIkRrt.cpp b/MotionPlanning/Planner/GraspIkRrt.cpp
index 2c6b1fd..3d00faf 100644
--- a/MotionPlanning/Planner/GraspIkRrt.cpp
+++ b/MotionPlanning/Planner/GraspIkRrt.cpp
@@ -233,6 +233,12 @@ namespace Saba
             if(diffClock > planningTimeout)
             {
                 std::cout << "Encountered timeout of " << planningTimeout << " ms - aborting" << std::endl;
+
+                if (robot && bVisStatus)
+                {
+                    robot->setUpdateVisualization(bVisStatus);
+                }
+
                 return false;
             }
         }
diff --git a/MotionPlanning/Planner/GraspRrt.cpp b/MotionPlanning/Planner/GraspRrt.cpp
index 345c6cf..ef91197 100644
--- a/MotionPlanning/Planner/GraspRrt.cpp
+++ b/MotionPlanning/Planner/GraspRrt.cpp
@@ -272,6 +272,7 @@ namespace Saba
                 return false;
             }
 
+        bool bVisStatus = cspace->getRobot()->getUpdateVisualizationStatus();
         cspace->getRobot()->setUpdateVisualization(false);
 
         clock_t startClock = clock();
@@ -323,7 +324,7 @@ namespace Saba
             printPerformanceResults();
         }
 
-        cspace->getRobot()->setUpdateVisualization(true);
+        cspace->getRobot()->setUpdateVisualization(bVisStatus);
 
         if (foundSolution)
         {
diff --git a/MotionPlanning/Planner/Rrt.cpp b/MotionPlanning/Planner/Rrt.cpp
index 1c5ab1e..dbf5430 100644
--- a/MotionPlanning/Planner/Rrt.cpp
+++ b/MotionPlanning/Planner/Rrt.cpp
@@ -191,6 +191,12 @@ namespace Saba
             if(diffClock > planningTimeout)
             {
                 std::cout << "Encountered timeout of " << planningTimeout << " ms - aborting" << std::endl;
+
+                if (robot && bVisStatus)
+                {
+                    robot->setUpdateVisualization(bVisStatus);
+                }
+
                 return false;
             }
 
diff --git a/MotionPlanning/PostProcessing/ElasticBandProcessor.cpp b/MotionPlanning/PostProcessing/ElasticBandProcessor.cpp
index 1596a84..89a489c 100644
--- a/MotionPlanning/PostProcessing/ElasticBandProcessor.cpp
+++ b/MotionPlanning/PostProcessing/ElasticBandProcessor.cpp
@@ -304,6 +304,7 @@ using namespace VirtualRobot;
     {
         initSolution();
 
+        bool visStatus = rns->getRobot()->getUpdateVisualizationStatus();
         rns->getRobot()->setUpdateVisualization(false);
 
         for (int i=0;i<optimizeSteps;i++)
@@ -325,7 +326,7 @@ using namespace VirtualRobot;
             }
         }
 
-        rns->getRobot()->setUpdateVisualization(true);
+        rns->getRobot()->setUpdateVisualization(visStatus);
 
 
         return optimizedPath;
diff --git a/VirtualRobot/IK/ConstrainedOptimizationIK.cpp b/VirtualRobot/IK/ConstrainedOptimizationIK.cpp
index 600c9d9..28d44ab 100644
--- a/VirtualRobot/IK/ConstrainedOptimizationIK.cpp
+++ b/VirtualRobot/IK/ConstrainedOptimizationIK.cpp
@@ -166,6 +166,8 @@ bool ConstrainedOptimizationIK::solve(bool stepwise)
             {
                 if(x[i] < nodeSet->getNode(i)->getJointLimitLo() || x[i] > nodeSet->getNode(i)->getJointLimitHi())
                 {
+                    robot->setUpdateVisualization(updateVisualization);
+                    robot->setUpdateCollisionModel(updateCollisionModel);
                     THROW_VR_EXCEPTION("Initial configuration outside of joint limits: joints['" << nodeSet->getNode(i)->getName() << "'] = " << x[i] << ", Limits = [" << nodeSet->getNode(i)->getJointLimitLo() << ", " << nodeSet->getNode(i)->getJointLimitHi() << "]");
                 }
             }
-- 
2.43.0


From 3580e13817600d3bbef134a68eb8f1f8bce1c908 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:45:32 +0000
Subject: [PATCH 07/25] fix: CDManager::addCollisionModel iterates over a copy
 of the registered models

---
 VirtualRobot/CollisionDetection/CDManager.cpp | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/VirtualRobot/CollisionDetection/CDManager.cpp b/VirtualRobot/CollisionDetection/CDManager.cpp
index aa854b6..4cff788 100644
--- a/VirtualRobot/CollisionDetection/CDManager.cpp
+++ b/VirtualRobot/CollisionDetection/CDManager.cpp
@@ -38,7 +38,10 @@ namespace VirtualRobot
                 VR_WARNING << "CollisionModel of SceneObjectSet '" << m->getName() << "' is linked to a different instance of collision checker than this CollisionManager..." << endl;
             }
 
-            for (const auto & colModel : colModels)
+            // addCollisionModelPair may extend colModels, hence iterate over a copy
+            const std::vector<SceneObjectSetPtr> registeredModels = colModels;
+
+            for (const auto & colModel : registeredModels)
             {
                 if (m != colModel)
                 {
-- 
2.43.0


From d38b9123a1254c8ab5039e1c247f0cc4c3f25c65 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:04:47 +0000
Subject: [PATCH 08/25] fix: processLimitsNode sets the upper limit when the
 translational 'hi' attribute is missing

---
 VirtualRobot/XML/RobotIO.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/VirtualRobot/XML/RobotIO.cpp b/VirtualRobot/XML/RobotIO.cpp
index 825ce02..db900a8 100644
--- a/VirtualRobot/XML/RobotIO.cpp
+++ b/VirtualRobot/XML/RobotIO.cpp
@@ -124,7 +124,7 @@ namespace VirtualRobot
             if (unit.isLength())
             {
                 VR_WARNING << "No 'hi' attribute in <Limits> tag. Assuming 1000 [mm]." << endl;
-                jointLimitLo = 1000.0f;
+                jointLimitHi = 1000.0f;
                 unit = Units("mm");
             }
             else
-- 
2.43.0


From f5556cda95046ffb1394b15c2715d08a8c311995 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:42:25 +0000
Subject: [PATCH 09/25] fix: give a rebuilt collision model the current pose

CollisionModel::inflateModel and scale rebuild the internal collision model,
but it did not receive the model's pose before the next setGlobalPose, so
collision queries in between used an undefined or identity pose.
---
 VirtualRobot/CollisionDetection/CollisionModel.cpp | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/VirtualRobot/CollisionDetection/CollisionModel.cpp b/VirtualRobot/CollisionDetection/CollisionModel.cpp
index 762d47d..55ea777 100644
--- a/VirtualRobot/CollisionDetection/CollisionModel.cpp
+++ b/VirtualRobot/CollisionDetection/CollisionModel.cpp
@@ -97,6 +97,7 @@ namespace VirtualRobot
 #else
             collisionModelImplementation.reset(new CollisionModelDummy(colChecker));
 #endif
+            collisionModelImplementation->setGlobalPose(globalPose);
         }
         if(!origVisualization)
             margin = 0.0;
@@ -398,6 +399,7 @@ namespace VirtualRobot
 #else
             collisionModelImplementation.reset(new CollisionModelDummy(colChecker));
 #endif
+            collisionModelImplementation->setGlobalPose(globalPose);
         }
 
         if (visualization)
-- 
2.43.0


From d9439819c09a685b183deb83386f247d58dc19a5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:55:14 +0000
Subject: [PATCH 10/25] fix: let setContactPoints use the contact points it is
 given

BasicGraspQualityMeasure::setContactPoints(const std::vector<ContactPoint>&)
cleared its own list and then iterated over that list instead of over its
argument, appending to it inside the loop; contact points passed in were
ignored and a grasp evaluation under pose uncertainty had no contacts.
---
 VirtualRobot/Grasping/BasicGraspQualityMeasure.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/VirtualRobot/Grasping/BasicGraspQualityMeasure.cpp b/VirtualRobot/Grasping/BasicGraspQualityMeasure.cpp
index 8abfe98..6297085 100644
--- a/VirtualRobot/Grasping/BasicGraspQualityMeasure.cpp
+++ b/VirtualRobot/Grasping/BasicGraspQualityMeasure.cpp
@@ -70,13 +70,13 @@ namespace VirtualRobot
     BasicGraspQualityMeasure::~BasicGraspQualityMeasure()
     = default;
 
-    void BasicGraspQualityMeasure::setContactPoints(const std::vector<VirtualRobot::MathTools::ContactPoint>& /*contactPoints6d*/)
+    void BasicGraspQualityMeasure::setContactPoints(const std::vector<VirtualRobot::MathTools::ContactPoint>& contactPoints6d)
     {
         this->contactPoints.clear();
         this->contactPointsM.clear();
         std::vector<MathTools::ContactPoint>::const_iterator objPointsIter;
 
-        for (objPointsIter = contactPoints.begin(); objPointsIter != contactPoints.end(); objPointsIter++)
+        for (objPointsIter = contactPoints6d.begin(); objPointsIter != contactPoints6d.end(); objPointsIter++)
         {
             MathTools::ContactPoint point = (*objPointsIter);
             point.p -= centerOfModel;
-- 
2.43.0


From bb05e2e1aedcec1063b2e117f5475fbcd8a34e32 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:58:12 +0000
Subject: [PATCH 11/25] fix: actuateNodeVel read the old target of a node that
 had none

With a (nearly) zero velocity as the first command for a node,
DynamicsRobot::actuateNodeVel dereferenced actuationTargets.end().
---
 SimDynamics/DynamicsEngine/DynamicsRobot.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/SimDynamics/DynamicsEngine/DynamicsRobot.cpp b/SimDynamics/DynamicsEngine/DynamicsRobot.cpp
index 8d57015..82fa44f 100644
--- a/SimDynamics/DynamicsEngine/DynamicsRobot.cpp
+++ b/SimDynamics/DynamicsEngine/DynamicsRobot.cpp
@@ -210,7 +210,7 @@ namespace SimDynamics
 //            target.jointValueTarget = oldTargetIt->second.jointValueTarget;
 //        }
 //        else
-        if(std::abs(jointVelocity) < 1e-10)
+        if(oldTargetIt != actuationTargets.end() && std::abs(jointVelocity) < 1e-10)
         {
             //do not move
             target.jointValueTarget = oldTargetIt->second.jointValueTarget;
-- 
2.43.0


From ca3942be76256e860f2479c151f7b0db4d18a6b6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:04:29 +0000
Subject: [PATCH 12/25] fix: PositionConstraint accepts a single coordinate
 only within its tolerance in both directions

checkTolerances compared the signed offset with the tolerance, so any
target far on the positive side counted as reached.
---
 VirtualRobot/IK/constraints/PositionConstraint.cpp | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/VirtualRobot/IK/constraints/PositionConstraint.cpp b/VirtualRobot/IK/constraints/PositionConstraint.cpp
index 12d1e7e..8ab819b 100644
--- a/VirtualRobot/IK/constraints/PositionConstraint.cpp
+++ b/VirtualRobot/IK/constraints/PositionConstraint.cpp
@@ -105,13 +105,13 @@ bool PositionConstraint::checkTolerances()
     switch(cartesianSelection)
     {
         case IKSolver::CartesianSelection::X:
-            return d.x() <= tolerance;
+            return fabs(d.x()) <= tolerance;
 
         case IKSolver::CartesianSelection::Y:
-            return d.y() <= tolerance;
+            return fabs(d.y()) <= tolerance;
 
         case IKSolver::CartesianSelection::Z:
-            return d.z() <= tolerance;
+            return fabs(d.z()) <= tolerance;
 
         case IKSolver::CartesianSelection::Position:
         case IKSolver::CartesianSelection::All:
-- 
2.43.0


From 5944fee997737895fb246985d6672bbf986e16fb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:00:42 +0000
Subject: [PATCH 13/25] fix: RobotNodeSet chain queries wrap around on an empty
 set

isKinematicChain and getMaximumExtension compared against size()-1, which
wraps around for an empty set and reads behind the end.
---
 VirtualRobot/RobotNodeSet.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/VirtualRobot/RobotNodeSet.cpp b/VirtualRobot/RobotNodeSet.cpp
index 38cc155..c46b2cd 100644
--- a/VirtualRobot/RobotNodeSet.cpp
+++ b/VirtualRobot/RobotNodeSet.cpp
@@ -501,7 +501,7 @@ namespace VirtualRobot
 
     bool RobotNodeSet::isKinematicChain()
     {
-        for (unsigned int i = 0; i < this->robotNodes.size() - 1; i++)
+        for (unsigned int i = 0; i + 1 < this->robotNodes.size(); i++)
         {
             if (!this->robotNodes[i]->hasChild(this->robotNodes[i + 1], true))
             {
@@ -560,7 +560,7 @@ namespace VirtualRobot
             result += v.norm();
         }
 
-        for (size_t i = 0; i < this->robotNodes.size() - 1; i++)
+        for (size_t i = 0; i + 1 < this->robotNodes.size(); i++)
         {
             t = robotNodes[i]->getTransformationTo(robotNodes[i + 1]);
             v = MathTools::getTranslation(t);
-- 
2.43.0


From b0bdb4008ba9d3e76fb5ac07e015cf0467ac7254 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:00:42 +0000
Subject: [PATCH 14/25] fix: Histogram reads outside its bins near the borders
 and without data

applyMedianFilter computed a wrapped start index for bins closer to the
border than the filter size; insert and setMinMax accessed elements of empty
containers.
---
 VirtualRobot/math/Histogram.cpp | 13 ++++++++++++-
 1 file changed, 12 insertions(+), 1 deletion(-)

diff --git a/VirtualRobot/math/Histogram.cpp b/VirtualRobot/math/Histogram.cpp
index 3ec3cd1..3300569 100644
--- a/VirtualRobot/math/Histogram.cpp
+++ b/VirtualRobot/math/Histogram.cpp
@@ -48,6 +48,11 @@ float Histogram::indexToValue(std::size_t index) const
 
 void Histogram::insert(float value)
 {
+    if (bins.empty())
+    {
+        return;
+    }
+
     bins[valueToIndex(value)]++;
 }
 
@@ -67,6 +72,12 @@ void Histogram::setMinMax(float min, float max)
 
 void Histogram::setMinMax(const std::vector<float>& data)
 {
+    if (data.empty())
+    {
+        setMinMax(0, 0);
+        return;
+    }
+
     float min = data.front();
     float max = data.front();
 
@@ -128,7 +139,7 @@ void Histogram::applyMedianFilter(std::size_t size)
     for (std::size_t index = 0; index < bins.size(); index++)
     {
         // handle cases at borders
-        std::size_t beginIndex = std::max(index - size, std::size_t(0));
+        std::size_t beginIndex = index > size ? index - size : 0;
         std::size_t endIndex   = std::min(index + size + 1, bins.size());
         std::size_t num = endIndex - beginIndex; // common case: num == 2*size+1
 
-- 
2.43.0


From 35cec7909fe6ef1b89a4e52ed0370dd00b92d318 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:02:47 +0000
Subject: [PATCH 15/25] fix: WorkspaceGrid search reports an indeterminate
 score for positions outside the grid

---
 VirtualRobot/Workspace/WorkspaceGrid.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/VirtualRobot/Workspace/WorkspaceGrid.cpp b/VirtualRobot/Workspace/WorkspaceGrid.cpp
index a9d4123..e109262 100644
--- a/VirtualRobot/Workspace/WorkspaceGrid.cpp
+++ b/VirtualRobot/Workspace/WorkspaceGrid.cpp
@@ -530,7 +530,7 @@ namespace VirtualRobot
                 GraspPtr grasp;
                 for(auto& grid : grids)
                 {
-                    int score;
+                    int score = 0; // stays 0 if the grid does not cover this position
                     GraspPtr tmpGrasp;
                     if(grid->getEntry(x, y, score, tmpGrasp))
                     {
-- 
2.43.0


From 5b2eba416e4898432a252dfb0fa400960d68053f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:02:47 +0000
Subject: [PATCH 16/25] fix: planner nodes and planners start with
 indeterminate members

---
 MotionPlanning/CSpace/CSpaceNode.cpp | 4 +++-
 MotionPlanning/Planner/GraspRrt.h    | 2 +-
 MotionPlanning/Planner/Rrt.h         | 2 +-
 3 files changed, 5 insertions(+), 3 deletions(-)

diff --git a/MotionPlanning/CSpace/CSpaceNode.cpp b/MotionPlanning/CSpace/CSpaceNode.cpp
index faab447..9aea2ff 100644
--- a/MotionPlanning/CSpace/CSpaceNode.cpp
+++ b/MotionPlanning/CSpace/CSpaceNode.cpp
@@ -5,7 +5,9 @@ namespace Saba
 {
 
     CSpaceNode::CSpaceNode()
-    = default;
+        : parentID(-1), ID(0), allocated(false), status(0), obstacleDistance(-1.0f), dynDomRadius(0.0f)
+    {
+    }
 
     CSpaceNode::~CSpaceNode()
     = default;
diff --git a/MotionPlanning/Planner/GraspRrt.h b/MotionPlanning/Planner/GraspRrt.h
index 7c9d37d..b3d9839 100644
--- a/MotionPlanning/Planner/GraspRrt.h
+++ b/MotionPlanning/Planner/GraspRrt.h
@@ -255,7 +255,7 @@ namespace Saba
 
         //bool m_bEndlessMode;
 
-        int colChecksOverall;
+        int colChecksOverall = 0;
         bool foundSolution;
         boost::mutex graspInfoMutex;
 
diff --git a/MotionPlanning/Planner/Rrt.h b/MotionPlanning/Planner/Rrt.h
index 953e1e3..8508dc9 100644
--- a/MotionPlanning/Planner/Rrt.h
+++ b/MotionPlanning/Planner/Rrt.h
@@ -112,7 +112,7 @@ namespace Saba
 
         float extendGoToGoal;           //!< the probability that the goal config is used instead of a randomly created configuration
 
-        float extendStepSize;           //!< step size for one rrt extend (copied from cspace)
+        float extendStepSize = 0.0f;         //!< step size for one rrt extend (copied from cspace)
         int lastAddedID;                //!< ID of last added node
 
         RrtMethod rrtMode;
-- 
2.43.0


From 8ed13c40e67dd00de2a24e8ffbf9cb37bf46b4b5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:02:47 +0000
Subject: [PATCH 17/25] fix: physics engine and PID controller start with
 indeterminate members

---
 SimDynamics/DynamicsEngine/BulletEngine/BulletEngine.h | 2 +-
 SimDynamics/DynamicsEngine/DynamicsUtils.h             | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/SimDynamics/DynamicsEngine/BulletEngine/BulletEngine.h b/SimDynamics/DynamicsEngine/BulletEngine/BulletEngine.h
index 95b44f2..39c7f74 100644
--- a/SimDynamics/DynamicsEngine/BulletEngine/BulletEngine.h
+++ b/SimDynamics/DynamicsEngine/BulletEngine/BulletEngine.h
@@ -187,7 +187,7 @@ namespace SimDynamics
         btCollisionDispatcher* dispatcher;
         btDefaultCollisionConfiguration* collision_config;
 
-        btOverlapFilterCallback* collisionFilterCallback;
+        btOverlapFilterCallback* collisionFilterCallback = nullptr;
 
         VirtualRobot::ObstaclePtr groundObject;
 
diff --git a/SimDynamics/DynamicsEngine/DynamicsUtils.h b/SimDynamics/DynamicsEngine/DynamicsUtils.h
index 96f2027..614ec4e 100644
--- a/SimDynamics/DynamicsEngine/DynamicsUtils.h
+++ b/SimDynamics/DynamicsEngine/DynamicsUtils.h
@@ -25,7 +25,7 @@ namespace SimDynamics
         double gainD;
         double errorSum;
         double lastError;
-        double lastOutput;
+        double lastOutput = 0.0;
     };
 
     // use bit field because enums are a pain
-- 
2.43.0


From e3fb1e2de2c33a947920aed16285b8eff63d1965 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:02:47 +0000
Subject: [PATCH 18/25] fix: histogram, implicit surfaces, triangle faces and
 primitives start with indeterminate members

---
 VirtualRobot/MathTools.h                              | 2 +-
 VirtualRobot/Primitive.h                              | 6 +++---
 VirtualRobot/math/GaussianImplicitSurface3D.h         | 2 +-
 VirtualRobot/math/GaussianImplicitSurface3DCombined.h | 4 ++--
 VirtualRobot/math/GaussianImplicitSurface3DNormals.h  | 4 ++--
 VirtualRobot/math/Histogram.h                         | 4 ++--
 6 files changed, 11 insertions(+), 11 deletions(-)

diff --git a/VirtualRobot/MathTools.h b/VirtualRobot/MathTools.h
index 0a41d8c..2e32923 100644
--- a/VirtualRobot/MathTools.h
+++ b/VirtualRobot/MathTools.h
@@ -455,7 +455,7 @@ namespace VirtualRobot
             unsigned int idMaterial;
 
             // per face normal (used when no idNormals are given)
-            Eigen::Vector3f normal;
+            Eigen::Vector3f normal = Eigen::Vector3f::Zero();
         };
         struct TriangleFace6D
         {
diff --git a/VirtualRobot/Primitive.h b/VirtualRobot/Primitive.h
index 53097a7..89fe92c 100644
--- a/VirtualRobot/Primitive.h
+++ b/VirtualRobot/Primitive.h
@@ -31,7 +31,7 @@ namespace VirtualRobot
         {
         public:
             static const int TYPE = 1;
-            Box() : Primitive(TYPE) {}
+            Box() : Primitive(TYPE), width(0), height(0), depth(0) {}
             Box(float width, float height, float depth) : Primitive(TYPE), width(width), height(height), depth(depth) {}
             float width;
             float height;
@@ -43,7 +43,7 @@ namespace VirtualRobot
         {
         public:
             static const int TYPE = 2;
-            Sphere() : Primitive(TYPE) {}
+            Sphere() : Primitive(TYPE), radius(0) {}
             Sphere(float radius) : Primitive(TYPE), radius(radius) {}
             float radius;
             std::string toXMLString(int tabs = 0) override;
@@ -53,7 +53,7 @@ namespace VirtualRobot
         {
         public:
             static const int TYPE = 3;
-            Cylinder() : Primitive(TYPE) {}
+            Cylinder() : Primitive(TYPE), radius(0), height(0) {}
             Cylinder(float radius, float height) : Primitive(TYPE), radius(radius), height(height) {}
             float radius;
             float height;
diff --git a/VirtualRobot/math/GaussianImplicitSurface3D.h b/VirtualRobot/math/GaussianImplicitSurface3D.h
index da3a2fa..748f147 100644
--- a/VirtualRobot/math/GaussianImplicitSurface3D.h
+++ b/VirtualRobot/math/GaussianImplicitSurface3D.h
@@ -47,7 +47,7 @@ private:
     Eigen::MatrixXd covariance_inv;
     Eigen::VectorXd alpha;
     std::vector<DataR3R2> samples;
-    float R;
+    float R = 0.0f;
     
     std::unique_ptr<KernelWithDerivatives> kernel;
 
diff --git a/VirtualRobot/math/GaussianImplicitSurface3DCombined.h b/VirtualRobot/math/GaussianImplicitSurface3DCombined.h
index 1d3fbd6..bb41b84 100644
--- a/VirtualRobot/math/GaussianImplicitSurface3DCombined.h
+++ b/VirtualRobot/math/GaussianImplicitSurface3DCombined.h
@@ -50,8 +50,8 @@ private:
     ContactList normalSamples;
     std::vector<DataR3R2> samples;
 
-    float R;
-    float R3;
+    float R = 0.0f;
+    float R3 = 0.0f;
     std::unique_ptr<KernelWithDerivatives> kernel;
 
     float Predict(const Eigen::Vector3f& pos);
diff --git a/VirtualRobot/math/GaussianImplicitSurface3DNormals.h b/VirtualRobot/math/GaussianImplicitSurface3DNormals.h
index 93bf473..c96a9df 100644
--- a/VirtualRobot/math/GaussianImplicitSurface3DNormals.h
+++ b/VirtualRobot/math/GaussianImplicitSurface3DNormals.h
@@ -47,8 +47,8 @@ private:
     Eigen::VectorXd alpha;
 
     ContactList samples;
-    float R;
-    float R3;
+    float R = 0.0f;
+    float R3 = 0.0f;
     std::unique_ptr<KernelWithDerivatives> kernel;
 
     float Predict(const Eigen::Vector3f& pos);
diff --git a/VirtualRobot/math/Histogram.h b/VirtualRobot/math/Histogram.h
index a4b7415..c7859fa 100644
--- a/VirtualRobot/math/Histogram.h
+++ b/VirtualRobot/math/Histogram.h
@@ -86,9 +86,9 @@ namespace VirtualRobot
     private:
         
         /// The minimum mapped value.
-        float min;
+        float min = 0.0f;
         /// The maximum mapped value.
-        float max;
+        float max = 0.0f;
         
         /// The bins.
         std::vector<std::size_t> bins;
-- 
2.43.0


From c7c52ecfabc5ace9b7c230100baf624503853933 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:02:47 +0000
Subject: [PATCH 19/25] fix: IK, quality, collision, workspace and
 visualization members used before they are set

---
 .../CollisionDetection/CollisionModelImplementation.h         | 1 +
 VirtualRobot/IK/CoMIK.h                                       | 2 +-
 VirtualRobot/IK/DifferentialIK.cpp                            | 1 +
 VirtualRobot/IK/GenericIKSolver.h                             | 2 +-
 VirtualRobot/IK/PoseQualityManipulability.h                   | 2 +-
 VirtualRobot/IK/PoseQualityMeasurement.cpp                    | 1 +
 VirtualRobot/Nodes/RobotNodePrismatic.h                       | 4 ++--
 .../Visualization/CoinVisualization/CoinVisualization.h       | 2 +-
 VirtualRobot/Visualization/VisualizationFactory.h             | 2 +-
 VirtualRobot/Workspace/WorkspaceRepresentation.h              | 2 +-
 10 files changed, 11 insertions(+), 8 deletions(-)

diff --git a/VirtualRobot/CollisionDetection/CollisionModelImplementation.h b/VirtualRobot/CollisionDetection/CollisionModelImplementation.h
index 85bb588..cde16dd 100644
--- a/VirtualRobot/CollisionDetection/CollisionModelImplementation.h
+++ b/VirtualRobot/CollisionDetection/CollisionModelImplementation.h
@@ -51,6 +51,7 @@ namespace VirtualRobot
         {
             this->modelData = modelData;
             this->id = id;
+            globalPose.setIdentity();
         };
 
         /*!Standard Destructor
diff --git a/VirtualRobot/IK/CoMIK.h b/VirtualRobot/IK/CoMIK.h
index 2011f44..df58219 100644
--- a/VirtualRobot/IK/CoMIK.h
+++ b/VirtualRobot/IK/CoMIK.h
@@ -73,7 +73,7 @@ namespace VirtualRobot
         std::vector< RobotNodePtr > bodyNodes;
         std::map< VirtualRobot::RobotNodePtr, std::vector<VirtualRobot::RobotNodePtr> > bodyNodeParents;
 
-        float tolerance;
+        float tolerance = 1.0f;
         bool checkImprovement;
         Eigen::VectorXf target;
 
diff --git a/VirtualRobot/IK/DifferentialIK.cpp b/VirtualRobot/IK/DifferentialIK.cpp
index 4cb382d..21a00e8 100644
--- a/VirtualRobot/IK/DifferentialIK.cpp
+++ b/VirtualRobot/IK/DifferentialIK.cpp
@@ -29,6 +29,7 @@ namespace VirtualRobot
 
         checkImprovement = false;
         nodes =  rns->getAllRobotNodes();
+        nDoF = nodes.size();
 
         for (auto & node : nodes)
         {
diff --git a/VirtualRobot/IK/GenericIKSolver.h b/VirtualRobot/IK/GenericIKSolver.h
index 27cad39..6ae8770 100644
--- a/VirtualRobot/IK/GenericIKSolver.h
+++ b/VirtualRobot/IK/GenericIKSolver.h
@@ -87,7 +87,7 @@ namespace VirtualRobot
         int jacobianMaxLoops;
 
         RobotNodePtr translationalJoint;
-        float initialTranslationalJointValue;
+        float initialTranslationalJointValue = 0.0f;
     };
 
     typedef boost::shared_ptr<GenericIKSolver> GenericIKSolverPtr;
diff --git a/VirtualRobot/IK/PoseQualityManipulability.h b/VirtualRobot/IK/PoseQualityManipulability.h
index 2af2cb5..56adef6 100644
--- a/VirtualRobot/IK/PoseQualityManipulability.h
+++ b/VirtualRobot/IK/PoseQualityManipulability.h
@@ -108,7 +108,7 @@ namespace VirtualRobot
         ManipulabilityIndexType manipulabilityType;
 
         bool penJointLimits;
-        float penJointLimits_k;
+        float penJointLimits_k = 50.0f;
 
         float penalizeRotationFactor; // to align translational and rotational components
 
diff --git a/VirtualRobot/IK/PoseQualityMeasurement.cpp b/VirtualRobot/IK/PoseQualityMeasurement.cpp
index fa1d011..f61823c 100644
--- a/VirtualRobot/IK/PoseQualityMeasurement.cpp
+++ b/VirtualRobot/IK/PoseQualityMeasurement.cpp
@@ -16,6 +16,7 @@ namespace VirtualRobot
         THROW_VR_EXCEPTION_IF((!rns || !rns->getTCP()), "NULL data");
         name = "PoseQualityMeasurement";
         considerObstacle = false;
+        obstacleDir.setZero();
         verbose = false;
     }
 
diff --git a/VirtualRobot/Nodes/RobotNodePrismatic.h b/VirtualRobot/Nodes/RobotNodePrismatic.h
index b239d3d..ec0b1a3 100644
--- a/VirtualRobot/Nodes/RobotNodePrismatic.h
+++ b/VirtualRobot/Nodes/RobotNodePrismatic.h
@@ -128,8 +128,8 @@ namespace VirtualRobot
         */
         std::string _toXML(const std::string& modelPath) override;
 
-        bool visuScaling;
-        Eigen::Vector3f visuScaleFactor;
+        bool visuScaling = false;
+        Eigen::Vector3f visuScaleFactor = Eigen::Vector3f::Ones();
         Eigen::Vector3f unscaledLocalCoM;
 
     };
diff --git a/VirtualRobot/Visualization/CoinVisualization/CoinVisualization.h b/VirtualRobot/Visualization/CoinVisualization/CoinVisualization.h
index 924d524..f454b95 100644
--- a/VirtualRobot/Visualization/CoinVisualization/CoinVisualization.h
+++ b/VirtualRobot/Visualization/CoinVisualization/CoinVisualization.h
@@ -71,7 +71,7 @@ namespace VirtualRobot
     protected:
         bool buildVisualization();
 
-        bool isSelectable;
+        bool isSelectable = true;
         SoSelection* selection;
         SoSeparator* visuRoot;
 
diff --git a/VirtualRobot/Visualization/VisualizationFactory.h b/VirtualRobot/Visualization/VisualizationFactory.h
index cd416a0..ee3a1f9 100644
--- a/VirtualRobot/Visualization/VisualizationFactory.h
+++ b/VirtualRobot/Visualization/VisualizationFactory.h
@@ -82,7 +82,7 @@ namespace VirtualRobot
 
         struct PhongMaterial
         {
-            PhongMaterial() {}
+            PhongMaterial() : shininess(0), reflectivity(0), transparency(0), refractionIndex(1) {}
             Color emission;
             Color ambient;
             Color diffuse;
diff --git a/VirtualRobot/Workspace/WorkspaceRepresentation.h b/VirtualRobot/Workspace/WorkspaceRepresentation.h
index f486dc6..a8b6959 100644
--- a/VirtualRobot/Workspace/WorkspaceRepresentation.h
+++ b/VirtualRobot/Workspace/WorkspaceRepresentation.h
@@ -482,7 +482,7 @@ namespace VirtualRobot
 
         WorkspaceDataPtr data;
 
-        bool adjustOnOverflow;
+        bool adjustOnOverflow = true;
 
         std::string type;
 
-- 
2.43.0


From 3a30a7701ed218e27c2dd7e92be1204670827b40 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:08:56 +0000
Subject: [PATCH 20/25] fix: sizes of empty models and distances between empty
 sets were read uninitialised

---
 .../Grasping/BasicGraspQualityMeasure.cpp       |  2 +-
 VirtualRobot/SceneObject.cpp                    | 12 ++++++------
 VirtualRobot/Workspace/Manipulability.cpp       | 17 ++++++++++++-----
 3 files changed, 19 insertions(+), 12 deletions(-)

diff --git a/VirtualRobot/Grasping/BasicGraspQualityMeasure.cpp b/VirtualRobot/Grasping/BasicGraspQualityMeasure.cpp
index 6297085..336f198 100644
--- a/VirtualRobot/Grasping/BasicGraspQualityMeasure.cpp
+++ b/VirtualRobot/Grasping/BasicGraspQualityMeasure.cpp
@@ -30,7 +30,7 @@ namespace VirtualRobot
 
         centerOfModel = object->getCollisionModel()->getTriMeshModel()->getCOM();
 
-        Eigen::Vector3f minS, maxS;
+        Eigen::Vector3f minS = Eigen::Vector3f::Zero(), maxS = Eigen::Vector3f::Zero(); // an empty model has no size
         object->getCollisionModel()->getTriMeshModel()->getSize(minS, maxS);
         maxS = maxS - minS;
         objectLength = maxS(0);
diff --git a/VirtualRobot/SceneObject.cpp b/VirtualRobot/SceneObject.cpp
index 3e6ac76..174b955 100644
--- a/VirtualRobot/SceneObject.cpp
+++ b/VirtualRobot/SceneObject.cpp
@@ -713,14 +713,14 @@ namespace VirtualRobot
                     posVisu = visualizationModel->getGlobalPose();
                 }
 
-                if (!tm)
+                Eigen::Vector3f minS, maxS;
+
+                if (!tm || !tm->getSize(minS, maxS))
                 {
                     VR_WARNING << "Could not create trimeshmodel for CoM computation, setting CoM to local position (0/0/0)" << endl;
                 }
                 else
                 {
-                    Eigen::Vector3f minS, maxS;
-                    tm->getSize(minS, maxS);
                     physics.localCoM = minS + (maxS - minS) * 0.5f;
 
                     // trimeshmodel is without any pose transformations, so apply visu global pose
@@ -761,7 +761,9 @@ namespace VirtualRobot
                     posVisu = visualizationModel->getGlobalPose();
                 }
 
-                if (!tm)
+                Eigen::Vector3f minS, maxS;
+
+                if (!tm || !tm->getSize(minS, maxS))
                 {
                     // standard box
                     physics.inertiaMatrix.setIdentity();
@@ -770,8 +772,6 @@ namespace VirtualRobot
                 }
                 else
                 {
-                    Eigen::Vector3f minS, maxS;
-                    tm->getSize(minS, maxS);
                     MathTools::OOBB bbox(minS, maxS, posVisu);
 
                     Eigen::Matrix4f coordCOM = getGlobalPose();
diff --git a/VirtualRobot/Workspace/Manipulability.cpp b/VirtualRobot/Workspace/Manipulability.cpp
index 721129f..45d7fb8 100644
--- a/VirtualRobot/Workspace/Manipulability.cpp
+++ b/VirtualRobot/Workspace/Manipulability.cpp
@@ -131,9 +131,9 @@ namespace VirtualRobot
         {
             int id1;
             int id2;
-            Eigen::Vector3f p1;
-            Eigen::Vector3f p2;
-            /*float d =*/ selfDistStatic->getCollisionChecker()->calculateDistance(selfDistStatic, selfDistDynamic, p1, p2, &id1, &id2);
+            Eigen::Vector3f p1 = Eigen::Vector3f::Zero();
+            Eigen::Vector3f p2 = Eigen::Vector3f::Zero();
+            float d = selfDistStatic->getCollisionChecker()->calculateDistance(selfDistStatic, selfDistDynamic, p1, p2, &id1, &id2);
             //cout << "#### dist:" << d << ", ";
             Eigen::Matrix4f obstDistPos1 = Eigen::Matrix4f::Identity();
             Eigen::Matrix4f obstDistPos2 = Eigen::Matrix4f::Identity();
@@ -145,8 +145,15 @@ namespace VirtualRobot
             Eigen::Matrix4f p2_tcp = tcpNode->toLocalCoordinateSystem(obstDistPos2);
             Eigen::Vector3f minDistVector = p1_tcp.block(0, 3, 3, 1) - p2_tcp.block(0, 3, 3, 1);
 
-            qualMeasure->setObstacleDistanceVector(minDistVector);
-
+            if (d >= 0)
+            {
+                qualMeasure->setObstacleDistanceVector(minDistVector);
+            }
+            else
+            {
+                // there are no models between which a distance could be measured
+                qualMeasure->disableObstacleDistance();
+            }
         }
 
 #ifdef MANIPULABILITY_USE_UPRIGHT_DIRECTION
-- 
2.43.0


From d2d8fd2c2c8729ca83249020b57793d9c9d5868f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:55:07 +0000
Subject: [PATCH 21/25] fix: RobotIO::loadRobot must not use the robot it
 failed to parse

---
 VirtualRobot/XML/RobotIO.cpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/VirtualRobot/XML/RobotIO.cpp b/VirtualRobot/XML/RobotIO.cpp
index db900a8..218beb8 100644
--- a/VirtualRobot/XML/RobotIO.cpp
+++ b/VirtualRobot/XML/RobotIO.cpp
@@ -1454,6 +1454,7 @@ namespace VirtualRobot
         if (!res)
         {
             VR_ERROR << "Error while parsing file " << fullFile << endl;
+            return res;
         }
 
         res->applyJointValues();
-- 
2.43.0


From bab604ff68a241f936e7256074679bee6bfd12ff Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:55:07 +0000
Subject: [PATCH 22/25] fix: do not dereference missing visualizations when
 saving models and showing the CoM

---
 VirtualRobot/SceneObject.cpp | 35 +++++++++++++++++++++--------------
 1 file changed, 21 insertions(+), 14 deletions(-)

diff --git a/VirtualRobot/SceneObject.cpp b/VirtualRobot/SceneObject.cpp
index 174b955..968ce6a 100644
--- a/VirtualRobot/SceneObject.cpp
+++ b/VirtualRobot/SceneObject.cpp
@@ -333,23 +333,26 @@ namespace VirtualRobot
                 comModel = visualizationFactory->createUnitedVisualization(v);
             }
 
-            VisualizationNodePtr comModelClone = comModel->clone();
-            Eigen::Vector3f l = getCoMLocal();
-            //cout << "COM:" << l << endl;
-            Eigen::Matrix4f m = Eigen::Matrix4f::Identity();
-            m.block(0, 3, 3, 1) = l;
+            if (comModel)
+            {
+                VisualizationNodePtr comModelClone = comModel->clone();
+                Eigen::Vector3f l = getCoMLocal();
+                //cout << "COM:" << l << endl;
+                Eigen::Matrix4f m = Eigen::Matrix4f::Identity();
+                m.block(0, 3, 3, 1) = l;
 
-            // now we have transformation in RobotNode (end) coordsystem
-            // we need to transform to RobotNode's visualization system
-            // -> not needed here, since we don't use postr joint transformations any more
-            //m = getGlobalPoseVisualization().inverse() * getGlobalPose() * m;
+                // now we have transformation in RobotNode (end) coordsystem
+                // we need to transform to RobotNode's visualization system
+                // -> not needed here, since we don't use postr joint transformations any more
+                //m = getGlobalPoseVisualization().inverse() * getGlobalPose() * m;
 
-            // convert mm to m
-            //m.block(0, 3, 3, 1) *= 0.001f;
+                // convert mm to m
+                //m.block(0, 3, 3, 1) *= 0.001f;
 
-            visualizationFactory->applyDisplacement(comModelClone, m);
+                visualizationFactory->applyDisplacement(comModelClone, m);
 
-            visualizationModel->attachVisualization("__CoMLocation", comModelClone);
+                visualizationModel->attachVisualization("__CoMLocation", comModelClone);
+            }
         }
 
         if (enableInertial && visualizationFactory)
@@ -1239,7 +1242,11 @@ namespace VirtualRobot
             if (replaceFilenames || !collisionModel->getVisualization())
             {
                 newFilename = getFilenameReplacementColModel();
-                collisionModel->getVisualization()->setFilename(newFilename, false);
+
+                if (collisionModel->getVisualization())
+                {
+                    collisionModel->getVisualization()->setFilename(newFilename, false);
+                }
             }
             else
             {
-- 
2.43.0


From 79f5ba075f5f4f9102936751d71c5f6e5cb439b1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:55:07 +0000
Subject: [PATCH 23/25] fix: CollisionModel constructor cloned the internal
 model it had found to be null

---
 VirtualRobot/CollisionDetection/CollisionModel.cpp | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/VirtualRobot/CollisionDetection/CollisionModel.cpp b/VirtualRobot/CollisionDetection/CollisionModel.cpp
index 55ea777..cb0d403 100644
--- a/VirtualRobot/CollisionDetection/CollisionModel.cpp
+++ b/VirtualRobot/CollisionDetection/CollisionModel.cpp
@@ -56,9 +56,14 @@ namespace VirtualRobot
 
         updateVisualization = true;
         if(!collisionModel)
+        {
             VR_WARNING << "internal collision model is NULL for " << name << endl;
-        collisionModelImplementation = boost::dynamic_pointer_cast<InternalCollisionModel>(collisionModel->clone(false));
-        VR_ASSERT(collisionModelImplementation->getPQPModel());
+        }
+        else
+        {
+            collisionModelImplementation = boost::dynamic_pointer_cast<InternalCollisionModel>(collisionModel->clone(false));
+            VR_ASSERT(collisionModelImplementation->getPQPModel());
+        }
         setVisualization(visu);
     }
 
-- 
2.43.0


From 298e797566f78aa59d3ccdd49d139e5ccf629dd2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:55:07 +0000
Subject: [PATCH 24/25] fix: SimoxMotionState read the CoM of a missing scene
 object

---
 .../DynamicsEngine/BulletEngine/SimoxMotionState.cpp      | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/SimDynamics/DynamicsEngine/BulletEngine/SimoxMotionState.cpp b/SimDynamics/DynamicsEngine/BulletEngine/SimoxMotionState.cpp
index ce9f4a0..96a4c61 100644
--- a/SimDynamics/DynamicsEngine/BulletEngine/SimoxMotionState.cpp
+++ b/SimDynamics/DynamicsEngine/BulletEngine/SimoxMotionState.cpp
@@ -26,7 +26,13 @@ namespace SimDynamics
         _transform.setIdentity();
         _graphicsTransfrom.setIdentity();
         _comOffset.setIdentity();
-        Eigen::Vector3f com = sceneObject->getCoMLocal();
+        Eigen::Vector3f com = Eigen::Vector3f::Zero();
+
+        if (sceneObject)
+        {
+            com = sceneObject->getCoMLocal();
+        }
+
         RobotNodePtr rn = boost::dynamic_pointer_cast<RobotNode>(sceneObject);
 
         if (rn)
-- 
2.43.0


From 71afdb7868830db9d65e5fccb762524d62568cb6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:27:41 +0000
Subject: [PATCH 25/25] fix: clones keep obstacle consideration, self distance
 weights and joint limit enforcement

---
 VirtualRobot/IK/PoseQualityExtendedManipulability.cpp | 1 +
 VirtualRobot/IK/PoseQualityManipulability.cpp         | 2 ++
 VirtualRobot/IK/PoseQualityMeasurement.cpp            | 2 ++
 VirtualRobot/Nodes/RobotNode.cpp                      | 1 +
 VirtualRobot/Workspace/Manipulability.cpp             | 2 ++
 5 files changed, 8 insertions(+)

diff --git a/VirtualRobot/IK/PoseQualityExtendedManipulability.cpp b/VirtualRobot/IK/PoseQualityExtendedManipulability.cpp
index e886a5c..c05279d 100644
--- a/VirtualRobot/IK/PoseQualityExtendedManipulability.cpp
+++ b/VirtualRobot/IK/PoseQualityExtendedManipulability.cpp
@@ -831,6 +831,7 @@ namespace VirtualRobot
         PoseQualityExtendedManipulabilityPtr m(new PoseQualityExtendedManipulability(newRobot->getRobotNodeSet(rns->getName()), this->manipulabilityType));
         m->penalizeJointLimits(this->penJointLimits, this->penJointLimits_k);
         m->considerObstacles(this->considerObstacle, this->obstacle_alpha, this->obstacle_beta);
+        m->obstacleDir = this->obstacleDir;
         return m;
     }
 
diff --git a/VirtualRobot/IK/PoseQualityManipulability.cpp b/VirtualRobot/IK/PoseQualityManipulability.cpp
index 5b9cbbd..6d49855 100644
--- a/VirtualRobot/IK/PoseQualityManipulability.cpp
+++ b/VirtualRobot/IK/PoseQualityManipulability.cpp
@@ -247,6 +247,8 @@ namespace VirtualRobot
 
         PoseQualityManipulabilityPtr m(new PoseQualityManipulability(newRobot->getRobotNodeSet(rns->getName()), this->manipulabilityType));
         m->penalizeJointLimits(this->penJointLimits, this->penJointLimits_k);
+        m->considerObstacle = this->considerObstacle;
+        m->obstacleDir = this->obstacleDir;
         return m;
     }
 
diff --git a/VirtualRobot/IK/PoseQualityMeasurement.cpp b/VirtualRobot/IK/PoseQualityMeasurement.cpp
index f61823c..6aef4d1 100644
--- a/VirtualRobot/IK/PoseQualityMeasurement.cpp
+++ b/VirtualRobot/IK/PoseQualityMeasurement.cpp
@@ -75,6 +75,8 @@ namespace VirtualRobot
         VR_ASSERT(newRobot->getRobotNodeSet(rns->getName())->getSize() == rns->getSize());
 
         PoseQualityMeasurementPtr m(new PoseQualityMeasurement(newRobot->getRobotNodeSet(rns->getName())));
+        m->considerObstacle = this->considerObstacle;
+        m->obstacleDir = this->obstacleDir;
         return m;
     }
 
diff --git a/VirtualRobot/Nodes/RobotNode.cpp b/VirtualRobot/Nodes/RobotNode.cpp
index f5f484e..d3e0020 100644
--- a/VirtualRobot/Nodes/RobotNode.cpp
+++ b/VirtualRobot/Nodes/RobotNode.cpp
@@ -563,6 +563,7 @@ namespace VirtualRobot
         result->setMaxAcceleration(maxAcceleration);
         result->setMaxTorque(maxTorque);
         result->setLimitless(limitless);
+        result->setEnforceJointLimits(enforceJointLimits);
 
         std::map< std::string, float>::iterator it = propagatedJointValues.begin();
 
diff --git a/VirtualRobot/Workspace/Manipulability.cpp b/VirtualRobot/Workspace/Manipulability.cpp
index 45d7fb8..062d4bc 100644
--- a/VirtualRobot/Workspace/Manipulability.cpp
+++ b/VirtualRobot/Workspace/Manipulability.cpp
@@ -738,6 +738,8 @@ namespace VirtualRobot
         res->considerSelfDist = this->considerSelfDist;
         res->selfDistStatic = this->selfDistStatic;
         res->selfDistDynamic = this->selfDistDynamic;
+        res->selfDistAlpha = this->selfDistAlpha;
+        res->selfDistBeta = this->selfDistBeta;
 
         return res;
     }
-- 
2.43.0

