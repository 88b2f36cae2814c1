From 2441ee48b3d37489a0bd3599331283a7262d2aa0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:25:19 +0000
Subject: [PATCH 01/53] fix: DistributedFullGrid::getLocalLinearIndex of a
 global linear index for multi-dimensional decompositions

---
 src/fullgrid/DistributedFullGrid.hpp | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/src/fullgrid/DistributedFullGrid.hpp b/src/fullgrid/DistributedFullGrid.hpp
index ecf061a..6e9473f 100644
--- a/src/fullgrid/DistributedFullGrid.hpp
+++ b/src/fullgrid/DistributedFullGrid.hpp
@@ -811,9 +811,11 @@ IndexType DistributedFullGrid<FG_ELEMENT>::getLocalLinearIndex(IndexType globLin
   globAxisIndex.resize(dim_);
   getGlobalVectorIndex(globLinIndex, globAxisIndex);
 
-  if (this->isGlobalIndexHere(globAxisIndex)) {
+  static thread_local IndexVector locAxisIndex(dim_);
+  locAxisIndex.resize(dim_);
+  if (this->getLocalVectorIndex(globAxisIndex, locAxisIndex)) {
     // convert to local linear index
-    return getLocalLinearIndex(globAxisIndex) - this->myPartitionsFirstGlobalIndex_;
+    return getLocalLinearIndex(locAxisIndex);
   } else {
     return -1;
   }
-- 
2.43.0


From dc64ecaa0cede30dcd409dd356b2599f8ef78573 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:29:17 +0000
Subject: [PATCH 02/53] fix: use the biorthogonal kernels for
 BiorthogonalBasisFunction

---
 src/hierarchization/DistributedHierarchization.hpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/hierarchization/DistributedHierarchization.hpp b/src/hierarchization/DistributedHierarchization.hpp
index fb4f719..0234385 100644
--- a/src/hierarchization/DistributedHierarchization.hpp
+++ b/src/hierarchization/DistributedHierarchization.hpp
@@ -1165,7 +1165,7 @@ class DistributedHierarchization {
               dfg, remoteData, dim, lmin[dim]);
         } else if (dynamic_cast<BiorthogonalBasisFunction*>(hierarchicalBases[dim]) != nullptr) {
           hierarchizeWithBoundary<FG_ELEMENT,
-                                  hierarchize_full_weighting_boundary_kernel<FG_ELEMENT, false>>(
+                                  hierarchize_biorthogonal_boundary_kernel<FG_ELEMENT, false>>(
               dfg, remoteData, dim, lmin[dim]);
         } else if (dynamic_cast<BiorthogonalPeriodicBasisFunction*>(hierarchicalBases[dim]) !=
                    nullptr) {
@@ -1247,7 +1247,7 @@ class DistributedHierarchization {
               dfg, remoteData, dim, lmin[dim]);
         } else if (dynamic_cast<BiorthogonalBasisFunction*>(hierarchicalBases[dim]) != nullptr) {
           hierarchizeWithBoundary<FG_ELEMENT,
-                                  dehierarchize_full_weighting_boundary_kernel<FG_ELEMENT, false>>(
+                                  dehierarchize_biorthogonal_boundary_kernel<FG_ELEMENT, false>>(
               dfg, remoteData, dim, lmin[dim]);
         } else if (dynamic_cast<BiorthogonalPeriodicBasisFunction*>(hierarchicalBases[dim]) !=
                    nullptr) {
-- 
2.43.0


From 611f71a735927c211a62ef39f6e6c9f5c235b5e7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:52:52 +0000
Subject: [PATCH 03/53] fix: receive the status of a process group before
 sending its next command

The status receive buffer was read while its request was still pending, so
requests were never completed, and commands that return without waiting
(norms, interpolation) let the next command overwrite a pending request.
---
 src/manager/ProcessGroupManager.cpp | 4 +++-
 src/manager/ProcessGroupManager.hpp | 5 +++++
 2 files changed, 8 insertions(+), 1 deletion(-)

diff --git a/src/manager/ProcessGroupManager.cpp b/src/manager/ProcessGroupManager.cpp
index ee6a6c5..778f886 100644
--- a/src/manager/ProcessGroupManager.cpp
+++ b/src/manager/ProcessGroupManager.cpp
@@ -60,6 +60,8 @@ void ProcessGroupManager<CombiDataType>::sendSignalAndReceive(SignalType signal)
 
 template <typename CombiDataType>
 void ProcessGroupManager<CombiDataType>::sendSignalToProcessGroup(SignalType signal) {
+  // the status of the previous command has to be received before the next command is sent
+  waitStatus();
   MPI_Send(&signal, 1, MPI_INT, pgroupRootID_, TRANSFER_SIGNAL_TAG,
            theMPISystem()->getGlobalComm());
 }
@@ -761,7 +763,7 @@ void ProcessGroupManager<CombiDataType>::recvStatus() {
     simft::Sim_FT_MPI_Irecv(&status_, 1, MPI_INT, pgroupRootID_, TRANSFER_STATUS_TAG,
                             theMPISystem()->getGlobalCommFT(), &statusRequestFT_);
   } else {
-    MPI_Irecv(&status_, 1, MPI_INT, pgroupRootID_, TRANSFER_STATUS_TAG,
+    MPI_Irecv(&receivedStatus_, 1, MPI_INT, pgroupRootID_, TRANSFER_STATUS_TAG,
               theMPISystem()->getGlobalComm(), &statusRequest_);
   }
 }
diff --git a/src/manager/ProcessGroupManager.hpp b/src/manager/ProcessGroupManager.hpp
index c74222e..3c89987 100644
--- a/src/manager/ProcessGroupManager.hpp
+++ b/src/manager/ProcessGroupManager.hpp
@@ -303,6 +303,9 @@ class ProcessGroupManager {
 
   StatusType status_;
 
+  // receive buffer of statusRequest_, only valid once the request is completed
+  StatusType receivedStatus_ = PROCESS_GROUP_BUSY;
+
   MPI_Request statusRequest_;
 
   simft::Sim_FT_MPI_Request statusRequestFT_;
@@ -387,6 +390,7 @@ inline StatusType ProcessGroupManager<CombiDataType>::getStatus() {
        */
       int flag;
       MPI_Test(&statusRequest_, &flag, MPI_STATUS_IGNORE);
+      if (flag) status_ = receivedStatus_;
     }
   }
   //  std::cout << "status is " << status_ << " \n";
@@ -417,6 +421,7 @@ inline StatusType ProcessGroupManager<CombiDataType>::waitStatus() {
        * call which enables the OS to switch to the MPI system.
        */
       MPI_Wait(&statusRequest_, MPI_STATUS_IGNORE);
+      status_ = receivedStatus_;
     }
   }
   assert(status_ >= 0);  // check for invalid values
-- 
2.43.0


From b51f86a45f04d02d51982b57d6db2358622028f7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:52:52 +0000
Subject: [PATCH 04/53] fix: receive the status of a process group after
 diagnostics

The worker reports its status after DO_DIAGNOSTICS, too; without a posted
receive this deadlocks unless the message is buffered, and otherwise the
status is taken for the one of the next command.
---
 src/manager/ProcessGroupManager.cpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/manager/ProcessGroupManager.cpp b/src/manager/ProcessGroupManager.cpp
index 778f886..bca0cac 100644
--- a/src/manager/ProcessGroupManager.cpp
+++ b/src/manager/ProcessGroupManager.cpp
@@ -634,6 +634,7 @@ void ProcessGroupManager<CombiDataType>::doDiagnostics(size_t taskID) {
       MPI_Send(&taskID, 1,
                abstraction::getMPIDatatype(abstraction::getabstractionDataType<decltype(taskID)>()),
                this->pgroupRootID_, 0, theMPISystem()->getGlobalComm());
+      setProcessGroupBusyAndReceive();
       return;
     }
   }
-- 
2.43.0


From 36e45d82c1d9423a003021200ea60c2a76aadd63 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:52:52 +0000
Subject: [PATCH 05/53] fix: let all groups write the min/max coefficients

The workers reduce over the group and then across all groups, so signalling
only the last group deadlocks with more than one group.
---
 src/manager/ProcessManager.cpp | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/manager/ProcessManager.cpp b/src/manager/ProcessManager.cpp
index e358af8..0f95c4c 100644
--- a/src/manager/ProcessManager.cpp
+++ b/src/manager/ProcessManager.cpp
@@ -576,7 +576,10 @@ void ProcessManager<CombiDataType>::monteCarloThirdLevel(
 
 template <typename CombiDataType>
 void ProcessManager<CombiDataType>::writeSparseGridMinMaxCoefficients(const std::string& filename) {
-  pgroups_.back()->writeSparseGridMinMaxCoefficients(filename);
+  // the coefficients are reduced across all groups
+  for (auto& pg : pgroups_) {
+    pg->writeSparseGridMinMaxCoefficients(filename);
+  }
 }
 
 template <typename CombiDataType>
-- 
2.43.0


From 27581dab284a03a271dd9ca8a2153b0d8192fdc8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:53:01 +0000
Subject: [PATCH 06/53] fix: receive command arguments in the order in which
 the manager sends them

The receives were arguments of one call, whose evaluation order is
unspecified: file and token names were swapped with GCC.
---
 src/manager/ProcessGroupWorker.cpp | 35 ++++++++++++++++++------------
 1 file changed, 21 insertions(+), 14 deletions(-)

diff --git a/src/manager/ProcessGroupWorker.cpp b/src/manager/ProcessGroupWorker.cpp
index bb58c70..88623e5 100644
--- a/src/manager/ProcessGroupWorker.cpp
+++ b/src/manager/ProcessGroupWorker.cpp
@@ -205,22 +205,27 @@ SignalType ProcessGroupWorker<CombiDataType>::wait() {
     } break;
     case COMBINE_WRITE_DSGS: {
       Stats::startEvent("combine third level write");
-      combineThirdLevelFileBasedWrite(receiveStringFromManagerAndBroadcastToGroup(),
-                                      receiveStringFromManagerAndBroadcastToGroup());
+      // receive in the order in which the manager sends
+      const auto filenamePrefixToWrite = receiveStringFromManagerAndBroadcastToGroup();
+      const auto writeCompleteTokenFileName = receiveStringFromManagerAndBroadcastToGroup();
+      combineThirdLevelFileBasedWrite(filenamePrefixToWrite, writeCompleteTokenFileName);
       Stats::stopEvent("combine third level write");
     } break;
     case COMBINE_READ_DSGS_AND_REDUCE: {
       Stats::startEvent("combine third level read");
-      combineThirdLevelFileBasedReadReduce({receiveStringFromManagerAndBroadcastToGroup()},
-                                           {receiveStringFromManagerAndBroadcastToGroup()});
+      const auto filenamePrefixToRead = receiveStringFromManagerAndBroadcastToGroup();
+      const auto startReadingTokenFileName = receiveStringFromManagerAndBroadcastToGroup();
+      combineThirdLevelFileBasedReadReduce({filenamePrefixToRead}, {startReadingTokenFileName});
       Stats::stopEvent("combine third level read");
     } break;
     case COMBINE_THIRD_LEVEL_FILE: {
       Stats::startEvent("combine third level file");
-      combineThirdLevelFileBased(receiveStringFromManagerAndBroadcastToGroup(),
-                                 receiveStringFromManagerAndBroadcastToGroup(),
-                                 {receiveStringFromManagerAndBroadcastToGroup()},
-                                 {receiveStringFromManagerAndBroadcastToGroup()});
+      const auto filenamePrefixToWrite = receiveStringFromManagerAndBroadcastToGroup();
+      const auto writeCompleteTokenFileName = receiveStringFromManagerAndBroadcastToGroup();
+      const auto filenamePrefixToRead = receiveStringFromManagerAndBroadcastToGroup();
+      const auto startReadingTokenFileName = receiveStringFromManagerAndBroadcastToGroup();
+      combineThirdLevelFileBased(filenamePrefixToWrite, writeCompleteTokenFileName,
+                                 {filenamePrefixToRead}, {startReadingTokenFileName});
       Stats::stopEvent("combine third level file");
     } break;
     case WAIT_FOR_TL_COMBI_RESULT: {
@@ -352,17 +357,17 @@ SignalType ProcessGroupWorker<CombiDataType>::wait() {
     } break;
     case INTERPOLATE_VALUES_AND_WRITE_SINGLE_FILE: {
       Stats::startEvent("interpolate values");
+      const auto filenamePrefix = receiveStringFromManagerAndBroadcastToGroup();
       writeInterpolatedValuesSingleFile(
-          receiveAndBroadcastInterpolationCoords(combiParameters_.getDim()),
-          receiveStringFromManagerAndBroadcastToGroup());
+          receiveAndBroadcastInterpolationCoords(combiParameters_.getDim()), filenamePrefix);
       Stats::stopEvent("interpolate values");
     } break;
     case WRITE_INTERPOLATED_VALUES_PER_GRID: {  // interpolate values on given coordinates and write
                                                 // values to .h5
       Stats::startEvent("write interpolated values");
+      const auto filenamePrefix = receiveStringFromManagerAndBroadcastToGroup();
       writeInterpolatedValuesPerGrid(
-          receiveAndBroadcastInterpolationCoords(combiParameters_.getDim()),
-          receiveStringFromManagerAndBroadcastToGroup());
+          receiveAndBroadcastInterpolationCoords(combiParameters_.getDim()), filenamePrefix);
       Stats::stopEvent("write interpolated values");
     } break;
     case RESCHEDULE_ADD_TASK: {
@@ -565,8 +570,10 @@ void ProcessGroupWorker<CombiDataType>::combineAtOnce(bool collectMinMaxCoeffici
 
 template <typename CombiDataType>
 void ProcessGroupWorker<CombiDataType>::parallelEval() {
-  parallelEvalUniform(receiveStringFromManagerAndBroadcastToGroup(),
-                      receiveLevalAndBroadcast(combiParameters_.getDim()));
+  // receive in the order in which the manager sends
+  const auto leval = receiveLevalAndBroadcast(combiParameters_.getDim());
+  const auto filename = receiveStringFromManagerAndBroadcastToGroup();
+  parallelEvalUniform(filename, leval);
 }
 
 template <typename CombiDataType>
-- 
2.43.0


From ec88cfb8a49ec4e2544440895074e94aae0001f7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:53:43 +0000
Subject: [PATCH 07/53] fix: keep the local communicator when updated
 parameters do not change it

Every update of the parameters replaced and freed the communicator which the
existing tasks still use.
---
 src/manager/ProcessGroupWorker.cpp | 17 +++++++++++++++++
 1 file changed, 17 insertions(+)

diff --git a/src/manager/ProcessGroupWorker.cpp b/src/manager/ProcessGroupWorker.cpp
index 88623e5..51628ca 100644
--- a/src/manager/ProcessGroupWorker.cpp
+++ b/src/manager/ProcessGroupWorker.cpp
@@ -702,6 +702,23 @@ void ProcessGroupWorker<CombiDataType>::setCombiParameters(CombiParameters&& com
     assert(combiParameters_.getDim() == static_cast<DimType>(periods.size()));
     assert(periods.size() == dims.size());
 
+    // the existing tasks use the current communicator, so keep it if it already fits
+    int topology = MPI_UNDEFINED;
+    MPI_Topo_test(theMPISystem()->getLocalComm(), &topology);
+    if (topology == MPI_CART) {
+      int currentDim = 0;
+      MPI_Cartdim_get(theMPISystem()->getLocalComm(), &currentDim);
+      if (static_cast<size_t>(currentDim) == dims.size()) {
+        std::vector<int> currentDims(currentDim), currentPeriods(currentDim), coords(currentDim);
+        MPI_Cart_get(theMPISystem()->getLocalComm(), currentDim, currentDims.data(),
+                     currentPeriods.data(), coords.data());
+        if (std::equal(dims.begin(), dims.end(), currentDims.begin()) &&
+            currentPeriods == periods) {
+          return;
+        }
+      }
+    }
+
     // don't let MPI assign arbitrary ranks
     int reorder = false;
 
-- 
2.43.0


From 4b0e185d7971c7f2c2366e1492a423d1aadfcd89 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:54:33 +0000
Subject: [PATCH 08/53] fix: give every process group at least one task in
 runfirst

A fast group could take all tasks before another group got one; the
outgroup combination variants then deadlock.
---
 src/manager/ProcessManager.cpp | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/src/manager/ProcessManager.cpp b/src/manager/ProcessManager.cpp
index 0f95c4c..f9dfe1b 100644
--- a/src/manager/ProcessManager.cpp
+++ b/src/manager/ProcessManager.cpp
@@ -38,8 +38,10 @@ bool ProcessManager<CombiDataType>::runfirst(bool doInitDSGUs) {
   }
 
   for (size_t i = 0; i < tasks_.size(); ++i) {
-    // wait for available process group
-    ProcessGroupManagerID<CombiDataType> g = wait();
+    // every process group gets one of the first tasks, such that no group remains without a task;
+    // for the other tasks, wait for available process group
+    ProcessGroupManagerID<CombiDataType> g = i < pgroups_.size() ? pgroups_[i] : wait();
+    waitForPG(g);
 
     // assign instance to group
     g->runfirst(tasks_[i]);
-- 
2.43.0


From 6613d7ae8556a0cb13d937f4f4c9e42797c20397 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:23:55 +0000
Subject: [PATCH 09/53] fix: evaluate one-sided boundaries at the upper end of
 the domain

---
 src/fullgrid/DistributedFullGrid.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/fullgrid/DistributedFullGrid.hpp b/src/fullgrid/DistributedFullGrid.hpp
index 6e9473f..751889c 100644
--- a/src/fullgrid/DistributedFullGrid.hpp
+++ b/src/fullgrid/DistributedFullGrid.hpp
@@ -1120,7 +1120,7 @@ FG_ELEMENT DistributedFullGrid<FG_ELEMENT>::evalIndexAndAllUpperNeighbors(
       if (iterateIndexInThisDimension < 0) {
         phi_c = 0.;
         break;
-      } else if (isUpperInDim && this->hasBoundaryPoints_[d] == 1 &&
+      } else if (this->hasBoundaryPoints_[d] == 1 &&
                  //  this->getCartesianUtils().isOnLowerBoundaryInDimension(d) &&
                  iterateIndexInThisDimension == this->getGlobalSizes()[d]) {
         // if we have a wrap-around AND are on the lowest cartesian process in this dimension
-- 
2.43.0


From 5db0c3a60992e01aed0f677f7f46c8f058559277 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:28:19 +0000
Subject: [PATCH 10/53] fix: split the output into exactly the requested number
 of file parts

---
 src/mpi/MPISystem.cpp | 12 +++++++++---
 src/mpi/MPISystem.hpp |  6 +++---
 2 files changed, 12 insertions(+), 6 deletions(-)

diff --git a/src/mpi/MPISystem.cpp b/src/mpi/MPISystem.cpp
index 5640016..cd2e8d8 100644
--- a/src/mpi/MPISystem.cpp
+++ b/src/mpi/MPISystem.cpp
@@ -438,6 +438,11 @@ std::vector<int>& getDiagonalRanks(size_t nprocs, size_t ngroup) {
 
 void MPISystem::initOutputGroupComm(uint16_t numFileParts) {
   assert(numFileParts > 0);
+  if (numFileParts > nprocs_) {
+    throw std::invalid_argument("Cannot distribute the output of " + std::to_string(nprocs_) +
+                                " processes across " + std::to_string(numFileParts) +
+                                " file parts.");
+  }
   if (outputComm_ != MPI_COMM_NULL && outputComm_ != outputGroupComm_) {
     MPI_Comm_free(&outputComm_);
     outputComm_ = MPI_COMM_NULL;
@@ -463,10 +468,11 @@ void MPISystem::initOutputGroupComm(uint16_t numFileParts) {
     MPI_Comm_rank(newComm, &outputGroupRank_);
     if (numFileParts == 1) {
       outputComm_ = outputGroupComm_;
+      filePartNumber_ = 0;
     } else {
-      auto outputCommSize = nprocs_ / numFileParts;
-      MPI_Comm_split(outputGroupComm_, static_cast<int>(outputGroupRank_ / outputCommSize),
-                     static_cast<int>(outputGroupRank_ % outputCommSize), &outputComm_);
+      // consecutive ranks share a part; part sizes differ by at most one
+      filePartNumber_ = static_cast<RankType>(outputGroupRank_ * numFileParts / nprocs_);
+      MPI_Comm_split(outputGroupComm_, filePartNumber_, outputGroupRank_, &outputComm_);
     }
   }
   MPI_Group_free(&newGroup);
diff --git a/src/mpi/MPISystem.hpp b/src/mpi/MPISystem.hpp
index 746e115..14ed554 100644
--- a/src/mpi/MPISystem.hpp
+++ b/src/mpi/MPISystem.hpp
@@ -528,6 +528,8 @@ class MPISystem {
 
   RankType outputGroupRank_;
 
+  RankType filePartNumber_ = -1;  // part of the output files that this rank writes to
+
   size_t ngroup_;  // number of process groups
 
   size_t nprocs_;  // number of processes per process group
@@ -610,9 +612,7 @@ inline RankType MPISystem::getFilePartNumber() const {
   int filePart = -1;
   OUTPUT_GROUP_EXCLUSIVE_SECTION {
     if (combigrid::theMPISystem()->getOutputComm() != MPI_COMM_NULL) {
-      auto comm = theMPISystem()->getOutputComm();
-      auto outputGroupSize = combigrid::getCommSize(comm);
-      filePart = theMPISystem()->getOutputGroupRank() / outputGroupSize;
+      filePart = filePartNumber_;
     }
   }
   else {
-- 
2.43.0


From 54bce42e0992495039d069b9fa365995eeb7683f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:34:07 +0000
Subject: [PATCH 11/53] fix: enumerate the whole down set of levels with
 different entries

---
 src/utils/LevelSetUtils.hpp | 5 +----
 1 file changed, 1 insertion(+), 4 deletions(-)

diff --git a/src/utils/LevelSetUtils.hpp b/src/utils/LevelSetUtils.hpp
index caaf01b..1870fd4 100644
--- a/src/utils/LevelSetUtils.hpp
+++ b/src/utils/LevelSetUtils.hpp
@@ -129,10 +129,7 @@ class HypercubeDownSetGenerator {
   }
 
  private:
-  bool isFinished() {
-    return std::all_of(currentLevel_.begin(), currentLevel_.end(),
-                       [this](const LevelType& l) { return l == levelUpTo_[0]; });
-  }
+  bool isFinished() { return currentLevel_ == levelUpTo_; }
 
   const LevelVector levelUpTo_;
   LevelVector currentLevel_;
-- 
2.43.0


From 07bc38b9fde409092df90f71ea681cf88866bfb8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:34:07 +0000
Subject: [PATCH 12/53] fix: classical schemes with more than 255 component
 grids

---
 src/combischeme/CombiMinMaxScheme.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/combischeme/CombiMinMaxScheme.cpp b/src/combischeme/CombiMinMaxScheme.cpp
index 35ebc4b..5ba4e2d 100644
--- a/src/combischeme/CombiMinMaxScheme.cpp
+++ b/src/combischeme/CombiMinMaxScheme.cpp
@@ -138,7 +138,7 @@ void CombiMinMaxScheme::computeCombiCoeffsAdaptive() {
 }
 
 void CombiMinMaxScheme::computeCombiCoeffsClassical() {
-  for (DimType i = 0; i < combiSpaces_.size(); ++i) {
+  for (size_t i = 0; i < combiSpaces_.size(); ++i) {
     LevelType l1 = combigrid::levelSum(combiSpaces_[i]);
     auto p = static_cast<LevelType>(n_ - l1);
     // Classical combination coefficients
-- 
2.43.0


From 8c3fb1581692456103eb856379fac7c8aba3308d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:34:07 +0000
Subject: [PATCH 13/53] fix: use the level of the dummy dimension itself in
 classical combination schemes

---
 src/combischeme/CombiMinMaxScheme.cpp | 11 ++++++++---
 1 file changed, 8 insertions(+), 3 deletions(-)

diff --git a/src/combischeme/CombiMinMaxScheme.cpp b/src/combischeme/CombiMinMaxScheme.cpp
index 5ba4e2d..b6db005 100644
--- a/src/combischeme/CombiMinMaxScheme.cpp
+++ b/src/combischeme/CombiMinMaxScheme.cpp
@@ -22,8 +22,9 @@ void CombiMinMaxScheme::createClassicalCombischeme() {
   }
   if (lmintmp.empty()) {
     assert(lmin_ == lmax_);
-    levels_.push_back(lmin_);
+    combiSpaces_.push_back(lmin_);
     coefficients_.push_back(1.0);
+    createDownSet();
     return;
   }
   // compute c which fulfills lmax - c*1  >= lmin
@@ -44,9 +45,9 @@ void CombiMinMaxScheme::createClassicalCombischeme() {
   // re-insert dummy dimensions left out
   for (size_t i = 0; i < dummyDims.size(); ++i) {
     for (size_t j = 0; j < levels_.size(); ++j) {
-      levels_[j].insert(levels_[j].begin() + dummyDims[i], lmax_[i]);
+      levels_[j].insert(levels_[j].begin() + dummyDims[i], lmax_[dummyDims[i]]);
     }
-    lmin_[dummyDims[i]] = lmax_[i];
+    lmin_[dummyDims[i]] = lmax_[dummyDims[i]];
   }
   n_ = static_cast<LevelType>(combigrid::levelSum(lmin_) + c);
   // create combi spaces
@@ -57,6 +58,10 @@ void CombiMinMaxScheme::createClassicalCombischeme() {
     }
   }
   computeCombiCoeffsClassical();
+  if (!dummyDims.empty()) {
+    // the levels so far contain only the maximum level in the dummy dimensions
+    createDownSet();
+  }
 
   if (levels_.empty()) {
     throw std::runtime_error("No combination levels!");
-- 
2.43.0


From 1fa8dde2c18c0ab45f4dd93a1156c31d040e0a8c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:34:07 +0000
Subject: [PATCH 14/53] fix: do not add grids twice when making a scheme fault
 tolerant

---
 src/combischeme/CombiMinMaxScheme.cpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/combischeme/CombiMinMaxScheme.cpp b/src/combischeme/CombiMinMaxScheme.cpp
index b6db005..f7b9036 100644
--- a/src/combischeme/CombiMinMaxScheme.cpp
+++ b/src/combischeme/CombiMinMaxScheme.cpp
@@ -112,7 +112,8 @@ void CombiMinMaxScheme::makeFaultTolerant() {
   for (size_t i = 0; i < levels_.size(); ++i) {
     LevelVector& l = levels_[i];
     for (LevelType p = LevelType(effDim_); p < LevelType(effDim_) + extraDiags; ++p) {
-      if (l >= lmin_ && combigrid::levelSum(l) == n_ - p) {
+      if (l >= lmin_ && combigrid::levelSum(l) == n_ - p &&
+          std::find(combiSpaces_.begin(), combiSpaces_.end(), l) == combiSpaces_.end()) {
         combiSpaces_.push_back(l);
         coefficients_.push_back(0.0);
       }
-- 
2.43.0


From 5b4acceceb2355ab36010a1fb01a0a5e085318c2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:34:07 +0000
Subject: [PATCH 15/53] fix: report adaptive schemes without any component grid

---
 src/combischeme/CombiMinMaxScheme.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/combischeme/CombiMinMaxScheme.cpp b/src/combischeme/CombiMinMaxScheme.cpp
index f7b9036..0f847d3 100644
--- a/src/combischeme/CombiMinMaxScheme.cpp
+++ b/src/combischeme/CombiMinMaxScheme.cpp
@@ -96,7 +96,7 @@ void CombiMinMaxScheme::createAdaptiveCombischeme() {
   }
 
   computeCombiCoeffsAdaptive();
-  if (levels_.empty()) {
+  if (combiSpaces_.empty()) {
     throw std::runtime_error("No combination levels!");
   }
 }
-- 
2.43.0


From 48fc30fdaa235568ab35e35e6d45f7e82de2f58e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:38:09 +0000
Subject: [PATCH 16/53] fix: measure the load inbalance relative to the average
 of the process groups

---
 src/rescheduler/RebalancingTaskRescheduler.cpp | 13 +++++++++++--
 1 file changed, 11 insertions(+), 2 deletions(-)

diff --git a/src/rescheduler/RebalancingTaskRescheduler.cpp b/src/rescheduler/RebalancingTaskRescheduler.cpp
index 6f9f3c8..c6260e3 100644
--- a/src/rescheduler/RebalancingTaskRescheduler.cpp
+++ b/src/rescheduler/RebalancingTaskRescheduler.cpp
@@ -3,6 +3,7 @@
 #include <algorithm>
 #include <numeric>
 #include <map>
+#include <set>
 
 namespace combigrid {
 
@@ -24,7 +25,14 @@ std::vector<std::pair<LevelVector, int>> RebalancingTaskRescheduler::eval(
   // variable containing the result
   std::vector<std::pair<LevelVector, int>> moveTasks{};
 
-  const auto numberOfProcessGroups = levelVectorToProcessGroupIndex.size();
+  std::set<int> processGroupIndices;
+  for (const auto& t : levelVectorToProcessGroupIndex) {
+    processGroupIndices.insert(t.second);
+  }
+  const auto numberOfProcessGroups = processGroupIndices.size();
+  if (numberOfProcessGroups == 0) {
+    return {};
+  }
 
   // we need to mutate this map for multiple iterations
   auto levelVectorToProcessGroupIndexMutCopy = levelVectorToProcessGroupIndex;
@@ -66,7 +74,8 @@ std::vector<std::pair<LevelVector, int>> RebalancingTaskRescheduler::eval(
       slowestGroup = *minmaxGroup.second;
     }
 
-    if (slowestGroup.second / averageProcessGroupDuration < this->min_inbalance_) {
+    if (static_cast<double>(slowestGroup.second) <
+        this->min_inbalance_ * static_cast<double>(averageProcessGroupDuration)) {
       return moveTasks;
     }
 
-- 
2.43.0


From 5bec466d93de9fa2b7c67e07772d39775bb311a2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:38:09 +0000
Subject: [PATCH 17/53] fix: track tasks that the rescheduler moves more than
 once

---
 src/rescheduler/RebalancingTaskRescheduler.cpp | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/src/rescheduler/RebalancingTaskRescheduler.cpp b/src/rescheduler/RebalancingTaskRescheduler.cpp
index c6260e3..b0d82d4 100644
--- a/src/rescheduler/RebalancingTaskRescheduler.cpp
+++ b/src/rescheduler/RebalancingTaskRescheduler.cpp
@@ -112,12 +112,17 @@ std::vector<std::pair<LevelVector, int>> RebalancingTaskRescheduler::eval(
       for (size_t i = 0; i < moveTasks.size(); ++i) {
         if (moveTasks[i].first == moveTask.first) {
           alreadyMoved = true;
-          moveTasks[i].second = fastestGroup.first;
+          if (levelVectorToProcessGroupIndex.at(moveTask.first) == fastestGroup.first) {
+            // back in its original group: nothing to move
+            moveTasks.erase(moveTasks.begin() + i);
+          } else {
+            moveTasks[i].second = fastestGroup.first;
+          }
           break;
         }
       } 
+      levelVectorToProcessGroupIndexMutCopy[moveTask.first] = fastestGroup.first;
       if (!alreadyMoved) {
-        levelVectorToProcessGroupIndexMutCopy[moveTask.first] = fastestGroup.first;
         moveTasks.push_back({moveTask.first, fastestGroup.first});
       }
 
-- 
2.43.0


From 54f26e4607f3f3b34df4977625623434b7600456 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:38:09 +0000
Subject: [PATCH 18/53] fix: ignore measurements of tasks that are not
 scheduled in the rescheduler

---
 src/rescheduler/RebalancingTaskRescheduler.cpp | 12 +++++++-----
 1 file changed, 7 insertions(+), 5 deletions(-)

diff --git a/src/rescheduler/RebalancingTaskRescheduler.cpp b/src/rescheduler/RebalancingTaskRescheduler.cpp
index b0d82d4..1a62eeb 100644
--- a/src/rescheduler/RebalancingTaskRescheduler.cpp
+++ b/src/rescheduler/RebalancingTaskRescheduler.cpp
@@ -42,9 +42,9 @@ std::vector<std::pair<LevelVector, int>> RebalancingTaskRescheduler::eval(
         begin(levelVectorToTaskDuration), 
         end(levelVectorToTaskDuration), 
         0ul, 
-        [](const unsigned long& a, 
-           const std::pair<LevelVector, unsigned long>& b) {
-          return a + b.second;
+        [&levelVectorToProcessGroupIndex](const unsigned long& a, 
+           const std::pair<const LevelVector, unsigned long>& b) {
+          return levelVectorToProcessGroupIndex.count(b.first) > 0 ? a + b.second : a;
         }
       ) / numberOfProcessGroups;
 
@@ -55,8 +55,10 @@ std::vector<std::pair<LevelVector, int>> RebalancingTaskRescheduler::eval(
       processGroupIndexToDuration.insert({t.second, 0}); // init process group durations with zero
     }
     for (const auto& t : levelVectorToTaskDuration) { // add up task durations for every process group
-      const auto& processGroupIndex = levelVectorToProcessGroupIndexMutCopy[t.first];
-      processGroupIndexToDuration[processGroupIndex] += t.second; 
+      const auto task = levelVectorToProcessGroupIndexMutCopy.find(t.first);
+      if (task != levelVectorToProcessGroupIndexMutCopy.end()) {
+        processGroupIndexToDuration[task->second] += t.second;
+      }
     }
 
     std::pair<int, unsigned long> fastestGroup;
-- 
2.43.0


From d72b64c07688bd48de548fa4b228a09ffd408d90 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:38:09 +0000
Subject: [PATCH 19/53] fix: never move the last task of a process group

---
 src/rescheduler/RebalancingTaskRescheduler.cpp | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/src/rescheduler/RebalancingTaskRescheduler.cpp b/src/rescheduler/RebalancingTaskRescheduler.cpp
index 1a62eeb..2b5dfa4 100644
--- a/src/rescheduler/RebalancingTaskRescheduler.cpp
+++ b/src/rescheduler/RebalancingTaskRescheduler.cpp
@@ -89,6 +89,11 @@ std::vector<std::pair<LevelVector, int>> RebalancingTaskRescheduler::eval(
       }
     }
 
+    if (levelVectorToPrognosisOfTaskDurationsOfSlowestProcessGroup.size() < 2) {
+      // never leave a process group without tasks
+      return moveTasks;
+    }
+
     auto moveTask = *std::min_element(
         std::begin(levelVectorToPrognosisOfTaskDurationsOfSlowestProcessGroup), 
         std::end(levelVectorToPrognosisOfTaskDurationsOfSlowestProcessGroup), 
-- 
2.43.0


From ce9203851fd1595b12d08643c890e355c833d882 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:38:09 +0000
Subject: [PATCH 20/53] fix: average durations of any length, also without
 history

---
 src/loadmodel/AverageOfLastNLoadModel.cpp | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/loadmodel/AverageOfLastNLoadModel.cpp b/src/loadmodel/AverageOfLastNLoadModel.cpp
index 9b33904..cdf146c 100644
--- a/src/loadmodel/AverageOfLastNLoadModel.cpp
+++ b/src/loadmodel/AverageOfLastNLoadModel.cpp
@@ -28,8 +28,11 @@ std::chrono::microseconds AverageOfLastNLoadModel::evalSpecificUOT(
     const LevelVector& lvlVec) {
 
   const auto& durations = this->levelVectorToLastNDurations_[lvlVec];
+  if (durations.empty()) {
+    return std::chrono::microseconds{0};
+  }
   const auto average = (static_cast<real>(std::accumulate(durations.begin(), 
-                                                          durations.end(), 0)) 
+                                                          durations.end(), 0ul)) 
                         / static_cast<real>(durations.size()));
   return std::chrono::microseconds{static_cast<long>(average)};
 }
-- 
2.43.0


From 643f6a910d65e743dffadd2a00aae7517de92597 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:42:45 +0000
Subject: [PATCH 21/53] fix: announce failed tasks when only grids on lower
 diagonals failed

---
 src/manager/ProcessManager.hpp | 18 ++++++++++++------
 1 file changed, 12 insertions(+), 6 deletions(-)

diff --git a/src/manager/ProcessManager.hpp b/src/manager/ProcessManager.hpp
index a83fa3a..daee493 100644
--- a/src/manager/ProcessManager.hpp
+++ b/src/manager/ProcessManager.hpp
@@ -778,14 +778,20 @@ inline void ProcessManager<CombiDataType>::recomputeOptimumCoefficients(
     for (auto l : recomputeLevelVectors) {
       recomputeFaultsID.push_back(LevelsToIDs[l]);
     }
+  } else {
+    // only grids on the lower diagonals failed: the coefficients stay the same, and those failed
+    // grids that are used in the combination need to be recomputed
+    for (auto id : faultsID) {
+      if (given_dict[IDsToLevels[id]] != 0.) recomputeFaultsID.push_back(id);
+    }
+  }
 
-    std::sort(faultsID.begin(), faultsID.end());
-    std::sort(recomputeFaultsID.begin(), recomputeFaultsID.end());
+  std::sort(faultsID.begin(), faultsID.end());
+  std::sort(recomputeFaultsID.begin(), recomputeFaultsID.end());
 
-    std::set_difference(faultsID.begin(), faultsID.end(), recomputeFaultsID.begin(),
-                        recomputeFaultsID.end(),
-                        std::inserter(redistributeFaultsID, redistributeFaultsID.begin()));
-  }
+  std::set_difference(faultsID.begin(), faultsID.end(), recomputeFaultsID.begin(),
+                      recomputeFaultsID.end(),
+                      std::inserter(redistributeFaultsID, redistributeFaultsID.begin()));
 }
 
 template <typename CombiDataType>
-- 
2.43.0


From d0179231174938654e50c1793b83b30c60903cda Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:42:45 +0000
Subject: [PATCH 22/53] fix: read the recombination weights from the integer
 solution, not from the LP relaxation

---
 src/fault_tolerance/LPOptimizationInterpolation.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/fault_tolerance/LPOptimizationInterpolation.cpp b/src/fault_tolerance/LPOptimizationInterpolation.cpp
index 077ed85..61880cf 100644
--- a/src/fault_tolerance/LPOptimizationInterpolation.cpp
+++ b/src/fault_tolerance/LPOptimizationInterpolation.cpp
@@ -215,7 +215,7 @@ CombigridDict LP_OPT_INTERP::get_results(LevelVectorList& recomp_faults) const {
 
   if (status == GLP_OPT) {
     for (int i = 0; i < size_downset; ++i) {
-      w_i = glp_get_col_prim(i_lp_prob, i + 1);
+      w_i = glp_mip_col_val(i_lp_prob, i + 1);
       w.push_back(w_i);
     }
 
-- 
2.43.0


From da7700cc0f03915ada255b350aca3b9f062f3a9c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:42:45 +0000
Subject: [PATCH 23/53] fix: zero exactly the Kahan buffer for all element
 types

---
 src/sparsegrid/DistributedSparseGridUniform.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/sparsegrid/DistributedSparseGridUniform.hpp b/src/sparsegrid/DistributedSparseGridUniform.hpp
index bbb52db..889e824 100644
--- a/src/sparsegrid/DistributedSparseGridUniform.hpp
+++ b/src/sparsegrid/DistributedSparseGridUniform.hpp
@@ -84,7 +84,7 @@ class DistributedSparseGridDataContainer {
     size_t numDataPoints = dsgu_.getAccumulatedDataSize(subspacesWithData_);
     kahanData_.resize(numDataPoints, 0.);
     kahanDataBegin_.resize(dsgu_.getSubspaceDataSizes().size());
-    std::memset(kahanData_.data(), 0, kahanData_.size() * sizeof(FG_ELEMENT*));
+    std::memset(kahanData_.data(), 0, kahanData_.size() * sizeof(FG_ELEMENT));
     std::memset(kahanDataBegin_.data(), 0, kahanDataBegin_.size() * sizeof(FG_ELEMENT*));
 
     // update pointers for begin of subspacen in kahan buffer
-- 
2.43.0


From a4af209aff7e2c8bd6ec606fadad4057d2572ab2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:42:45 +0000
Subject: [PATCH 24/53] fix: count the middle and upper boundary points on the
 process that owns them in getPartitionedNumDOFSG

---
 src/combischeme/CombiMinMaxScheme.hpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/combischeme/CombiMinMaxScheme.hpp b/src/combischeme/CombiMinMaxScheme.hpp
index c1ace2c..c7b3bc5 100644
--- a/src/combischeme/CombiMinMaxScheme.hpp
+++ b/src/combischeme/CombiMinMaxScheme.hpp
@@ -302,9 +302,9 @@ inline IndexType getHighestIndexInHierarchicalSubspaceLowerThanNodalIndexOnLref(
     }
   } else if (hierarchicalSubspaceLevel == 1) {
     if (nodalIndex > 0) {
-      if (nodalIndex >= (powerOfTwo[referenceLevel])) {
+      if (nodalIndex > (powerOfTwo[referenceLevel])) {
         index = 2;
-      } else if (nodalIndex >= (powerOfTwo[referenceLevel] / 2)) {
+      } else if (nodalIndex > (powerOfTwo[referenceLevel] / 2)) {
         index = 1;
       } else {
         index = 0;
-- 
2.43.0


From b6b332bd5d1b4c078c30be83ca397e19c890e63c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 08:13:37 +0000
Subject: [PATCH 25/53] fix: call the collective reads of reducing readers
 equally often on all ranks

---
 src/io/MPIInputOutput.hpp | 23 +++++++++++++++++++----
 1 file changed, 19 insertions(+), 4 deletions(-)

diff --git a/src/io/MPIInputOutput.hpp b/src/io/MPIInputOutput.hpp
index bab216a..8d3e7d8 100644
--- a/src/io/MPIInputOutput.hpp
+++ b/src/io/MPIInputOutput.hpp
@@ -50,6 +50,15 @@ inline MPI_Offset getPositionFromNumValues(MPI_Offset numValues, combigrid::Comm
   return position;
 }
 
+// collective reads and writes need to be called equally often on all ranks of the communicator
+inline MPI_Offset getNumCollectiveRounds(MPI_Offset numValues, MPI_Offset numElementsToBuffer,
+                                         combigrid::CommunicatorType comm) {
+  MPI_Offset numRounds =
+      numValues > 0 ? (numValues + numElementsToBuffer - 1) / numElementsToBuffer : 0;
+  MPI_Allreduce(MPI_IN_PLACE, &numRounds, 1, MPI_OFFSET, MPI_MAX, comm);
+  return numRounds;
+}
+
 template <typename T>
 class [[nodiscard]] MPIFileConsecutive {
  public:
@@ -248,7 +257,8 @@ int readReduceValuesConsecutive(T* valuesStart, MPI_Offset numValues, const std:
   int readcount = 0;
   std::vector<T> buffer(numElementsToBuffer);
   auto writePointer = valuesStart;
-  while (readcount < numValues) {
+  const auto numRounds = getNumCollectiveRounds(numValues, numElementsToBuffer, comm);
+  for (MPI_Offset round = 0; round < numRounds; ++round) {
     // if there is less to read than the buffer length, overwrite numElementsToBuffer
     if (numValues - readcount < numElementsToBuffer) {
       numElementsToBuffer = static_cast<int>(numValues - readcount);
@@ -256,7 +266,9 @@ int readReduceValuesConsecutive(T* valuesStart, MPI_Offset numValues, const std:
     }
     auto readcountIncrement =
         file.readValuesFromFileAtPosition(buffer.data(), numElementsToBuffer, position);
-    assert(readcountIncrement > 0);
+    if (readcountIncrement != numElementsToBuffer) {
+      throw std::runtime_error("could not read all values from " + fileName);
+    }
     // reduce with present sparse grid data
     std::transform(buffer.cbegin(), buffer.cend(), writePointer, writePointer, reduceFunction);
     readcount += readcountIncrement;
@@ -294,7 +306,8 @@ int readMultipleReduceValuesConsecutive(T* valuesStart, MPI_Offset numValues,
   MPI_Offset position = getPositionFromNumValues(numValues, comm);
   std::vector<std::vector<T>> buffers(fileNames.size(), std::vector<T>(numElementsToBuffer));
   auto writePointer = valuesStart;
-  while (readcount < numValues) {
+  const auto numRounds = getNumCollectiveRounds(numValues, numElementsToBuffer, comm);
+  for (MPI_Offset round = 0; round < numRounds; ++round) {
     // if there is less to read than the buffer length, overwrite numElementsToBuffer
     if (numValues - readcount < numElementsToBuffer) {
       numElementsToBuffer = static_cast<int>(numValues - readcount);
@@ -306,7 +319,9 @@ int readMultipleReduceValuesConsecutive(T* valuesStart, MPI_Offset numValues,
     for (size_t i = 0; i < buffers.size(); ++i) {
       readcountIncrement =
           files[i].readValuesFromFileAtPosition(buffers[i].data(), numElementsToBuffer, position);
-      assert(readcountIncrement > 0);
+      if (readcountIncrement != numElementsToBuffer) {
+        throw std::runtime_error("could not read all values from " + fileNames[i]);
+      }
     }
     // reduce with present sparse grid data
     // todo is there a variadic way of doing this?
-- 
2.43.0


From 4c0a94f6922870bb1c277b34da7aa2372a868221 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 08:15:02 +0000
Subject: [PATCH 26/53] fix: decompress frames of ranks without values, report
 frames with another number of values

---
 src/io/MPICompression.hpp | 20 ++++++++++----------
 1 file changed, 10 insertions(+), 10 deletions(-)

diff --git a/src/io/MPICompression.hpp b/src/io/MPICompression.hpp
index 0c0fdf3..a445f89 100644
--- a/src/io/MPICompression.hpp
+++ b/src/io/MPICompression.hpp
@@ -162,19 +162,21 @@ class [[nodiscard]] FrameDecompressor {
   size_t decompressNextBlocks(size_t numValues) {
     size_t decompressedSize = numValues * sizeof(T);
     auto sourceSize = compressedString_.size() - readCompressedByNow_;
-    [[maybe_unused]] auto hintNextBufferSize =
-        LZ4F_decompress(dctx_, decompressValuesStart_, &decompressedSize, compressedString_.data(),
+    auto hintNextBufferSize =
+        LZ4F_decompress(dctx_, reinterpret_cast<char*>(decompressValuesStart_) + decompressedByNow_,
+                        &decompressedSize, compressedString_.data() + readCompressedByNow_,
                         &sourceSize, &opts_);
-    if (LZ4F_isError(decompressedSize)) {
+    if (LZ4F_isError(hintNextBufferSize)) {
       throw std::runtime_error("LZ4 decompression failed: " +
-                               std::string(LZ4F_getErrorName(decompressedSize)));
+                               std::string(LZ4F_getErrorName(hintNextBufferSize)));
     }
     decompressedByNow_ += decompressedSize;
-    decompressValuesStart_ += decompressedSize;
     readCompressedByNow_ += sourceSize;
     return decompressedSize / sizeof(T);
   }
 
+  bool isFinished() const { return readCompressedByNow_ == compressedString_.size(); }
+
  private:
   const std::vector<char>& compressedString_;
   T* decompressValuesStart_;
@@ -192,16 +194,14 @@ size_t decompressLZ4FrameToBuffer(const std::vector<char>& compressedString,
 #ifdef DISCOTEC_USE_LZ4
   auto decompressor = FrameDecompressor(compressedString, decompressValuesStart);
   size_t decompressedSize = 0;
-  int numRounds = 0;
   do {
     decompressedSize = decompressor.decompressNextBlocks(numValues);
     numValues -= decompressedSize;
     decompressedByNow += decompressedSize;
-    ++numRounds;
   } while (decompressedSize > 0);
-  assert(numValues == 0);
-  if (numRounds != 2) {
-    throw std::runtime_error("LZ4 decompression failed: " + std::to_string(numRounds) + " rounds");
+  // there may be no values at all, but neither too few nor too many
+  if (numValues != 0 || !decompressor.isFinished()) {
+    throw std::runtime_error("LZ4 decompression failed: frame does not match number of values");
   }
 #else
   throw std::runtime_error("LZ4 compression not available");
-- 
2.43.0


From c7985a0abab30b3740c5dfdcf684010c09dd1468 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 08:15:02 +0000
Subject: [PATCH 27/53] fix: report compressed files of another number of
 processes on all ranks

---
 src/io/MPICompression.hpp | 17 ++++++++++++++---
 1 file changed, 14 insertions(+), 3 deletions(-)

diff --git a/src/io/MPICompression.hpp b/src/io/MPICompression.hpp
index a445f89..72075bf 100644
--- a/src/io/MPICompression.hpp
+++ b/src/io/MPICompression.hpp
@@ -311,6 +311,11 @@ inline void getFrameSizeAndPosFromHeader(const MPIFileConsecutive<char>& file,
                                          MPI_Offset& frameSize, MPI_Offset& position,
                                          combigrid::CommunicatorType comm) {
   auto rank = getCommRank(comm);
+  auto throwIfInvalid = [&frameSize]() {
+    if (frameSize < 0) {
+      throw std::runtime_error("header of compressed file does not match number of processes");
+    }
+  };
   // rank 0 scatters positions read from header frame
   if (rank == 0) {
     auto commSize = getCommSize(comm);
@@ -322,13 +327,18 @@ inline void getFrameSizeAndPosFromHeader(const MPIFileConsecutive<char>& file,
     std::vector<char> headerFrame(compressedHeaderSize);
     auto numCharsRead =
         file.readValuesFromFileAtPositionSingleRank(headerFrame.data(), headerFrame.size(), 0);
-    assert(numCharsRead == static_cast<int>(compressedHeaderSize));
     headerFrame.resize(numCharsRead);
 
     std::vector<MPI_Offset> frameSizes(commSize);
-    [[maybe_unused]] auto numCharsInFirstFrame =
-        decompressLZ4FrameToBuffer(headerFrame, frameSizes);
+    try {
+      decompressLZ4FrameToBuffer(headerFrame, frameSizes);
+    } catch (const std::runtime_error& e) {
+      // let all ranks know, they are waiting for their sizes
+      std::cerr << e.what() << std::endl;
+      frameSizes.assign(commSize, -1);
+    }
     MPI_Scatter(frameSizes.data(), 1, MPI_OFFSET, &frameSize, 1, MPI_OFFSET, 0, comm);
+    throwIfInvalid();
     assert(frameSize >= numCharsRead);
     file.checkFileSizeConsecutive(frameSize, comm);
     position = mpiio::getPositionFromNumValues(frameSize, comm);
@@ -339,6 +349,7 @@ inline void getFrameSizeAndPosFromHeader(const MPIFileConsecutive<char>& file,
     position += compressedHeaderSize;
   } else {
     MPI_Scatter(nullptr, 0, MPI_OFFSET, &frameSize, 1, MPI_OFFSET, 0, comm);
+    throwIfInvalid();
     file.checkFileSizeConsecutive(frameSize, comm);
     position = mpiio::getPositionFromNumValues(frameSize, comm);
   }
-- 
2.43.0


From 009cff5f404a039c1dde1c9eed2e321d2abf6818 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 08:15:02 +0000
Subject: [PATCH 28/53] fix: stay within the buffers when reducing compressed
 files

---
 src/io/MPICompression.hpp | 18 ++++++++++++------
 1 file changed, 12 insertions(+), 6 deletions(-)

diff --git a/src/io/MPICompression.hpp b/src/io/MPICompression.hpp
index 72075bf..19d1760 100644
--- a/src/io/MPICompression.hpp
+++ b/src/io/MPICompression.hpp
@@ -72,7 +72,8 @@ class VectorStream : public std::basic_streambuf<char, std::char_traits<char>> {
   void reset(size_t afterNumChars = 0) {
     setg(vec_.data(), vec_.data() + afterNumChars, vec_.data() + vec_.size());
   }
-  size_t size() const { return vec_.size(); }
+  // number of chars that still fit behind front()
+  size_t capacity() const { return egptr() - gptr(); }
 
   char* front() { return gptr(); }
 
@@ -106,14 +107,14 @@ class [[nodiscard]] StreamingFrameDecompressor {
   }
 
   size_t decompressNextBlock() {
-    size_t decompressedSize = sink_.size();
+    size_t decompressedSize = sink_.capacity();
     auto sourceSize = compressedString_.size() - readCompressedByNow_;
-    [[maybe_unused]] auto hintNextBufferSize =
+    auto hintNextBufferSize =
         LZ4F_decompress(dctx_, sink_.front(), &decompressedSize,
                         compressedString_.data() + readCompressedByNow_, &sourceSize, &opts_);
-    if (LZ4F_isError(decompressedSize)) {
+    if (LZ4F_isError(hintNextBufferSize)) {
       throw std::runtime_error("LZ4 decompression failed: " +
-                               std::string(LZ4F_getErrorName(decompressedSize)));
+                               std::string(LZ4F_getErrorName(hintNextBufferSize)));
     }
     decompressedByNow_ += decompressedSize;
     readCompressedByNow_ += sourceSize;
@@ -407,6 +408,9 @@ int readReduceCompressedValuesConsecutive(
     decompressedSize += bufferRemainderToRemember;
     const auto fullNumValues = decompressedSize / sizeof(T);
     const auto bufferRemainder = decompressedSize % sizeof(T);
+    if (static_cast<MPI_Offset>(numValuesDecompressed + fullNumValues) > numValues) {
+      throw std::runtime_error("LZ4 decompression failed: too many values");
+    }
 
     auto bufferBeginAsTPointer = reinterpret_cast<const T*>(decompressedString.data());
     std::transform(bufferBeginAsTPointer, bufferBeginAsTPointer + fullNumValues, writePointer,
@@ -421,7 +425,9 @@ int readReduceCompressedValuesConsecutive(
     buffer.reset(bufferRemainder);
     bufferRemainderToRemember = bufferRemainder;
   } while (!decompressor.isFinished());
-  assert(numValuesDecompressed == numValues);
+  if (numValuesDecompressed != numValues || bufferRemainderToRemember != 0) {
+    throw std::runtime_error("LZ4 decompression failed: too few values");
+  }
 
   return numValuesDecompressed;
 #else
-- 
2.43.0


From cd6e2ad0dddbd92253faf77a8115ba992d5af553 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 08:19:51 +0000
Subject: [PATCH 29/53] fix: write the resolution of all dimensions to the plot
 file header

---
 src/fullgrid/DistributedFullGrid.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/fullgrid/DistributedFullGrid.hpp b/src/fullgrid/DistributedFullGrid.hpp
index 751889c..17ccc27 100644
--- a/src/fullgrid/DistributedFullGrid.hpp
+++ b/src/fullgrid/DistributedFullGrid.hpp
@@ -1453,7 +1453,7 @@ void DistributedFullGrid<FG_ELEMENT>::writePlotFile(const char* filename) const
       MPI_File_write(fh, &dim, 1, MPI_UNSIGNED_CHAR, MPI_STATUS_IGNORE);
 
       std::vector<int> res(csizes.begin(), csizes.end());
-      MPI_File_write(fh, &res[0], 6, MPI_INT, MPI_STATUS_IGNORE);
+      MPI_File_write(fh, res.data(), static_cast<int>(res.size()), MPI_INT, MPI_STATUS_IGNORE);
     }
 
     // set file view to right offset (in bytes)
-- 
2.43.0


From 98992c57a927b4474d1d614fcfe6bd3bae0df83e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 08:19:51 +0000
Subject: [PATCH 30/53] fix: maximum coefficient of subspaces with only
 negative coefficients

---
 src/sparsegrid/DistributedSparseGridUniform.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/sparsegrid/DistributedSparseGridUniform.hpp b/src/sparsegrid/DistributedSparseGridUniform.hpp
index 889e824..d091182 100644
--- a/src/sparsegrid/DistributedSparseGridUniform.hpp
+++ b/src/sparsegrid/DistributedSparseGridUniform.hpp
@@ -732,7 +732,7 @@ template <typename FG_ELEMENT>
 void DistributedSparseGridUniform<FG_ELEMENT>::accumulateMinMaxCoefficients() {
   if (maxCoefficientPerSubspace_.empty()) {
     maxCoefficientPerSubspace_.resize(this->getNumSubspaces(),
-                                      std::numeric_limits<combigrid::real>::min());
+                                      std::numeric_limits<combigrid::real>::lowest());
     minCoefficientPerSubspace_.resize(this->getNumSubspaces(),
                                       std::numeric_limits<combigrid::real>::max());
   }
-- 
2.43.0


From e336746323564270bc8d4545e7ee1b2ab6efc2fe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 08:19:51 +0000
Subject: [PATCH 31/53] fix: report sparse grid files of wrong size in
 readFromDiskChunked

---
 src/sparsegrid/DistributedSparseGridIO.hpp | 9 ++++++---
 1 file changed, 6 insertions(+), 3 deletions(-)

diff --git a/src/sparsegrid/DistributedSparseGridIO.hpp b/src/sparsegrid/DistributedSparseGridIO.hpp
index 58cd3ff..9aeeb98 100644
--- a/src/sparsegrid/DistributedSparseGridIO.hpp
+++ b/src/sparsegrid/DistributedSparseGridIO.hpp
@@ -83,9 +83,12 @@ void writeToDiskChunked(const SparseGridType& dsg, const std::string& filePrefix
 template <typename SparseGridType>
 void readFromDiskChunked(SparseGridType& dsg, const std::string& filePrefix) {
   std::string myFilename = filePrefix + std::to_string(dsg.getRank());
-  // assert that file is large enough
-  [[maybe_unused]] size_t fileSize = std::filesystem::file_size(myFilename);
-  assert(fileSize == dsg.getRawDataSize() * sizeof(typename SparseGridType::ElementType));
+  // make sure that file has the right size
+  size_t fileSize = std::filesystem::file_size(myFilename);
+  if (fileSize != dsg.getRawDataSize() * sizeof(typename SparseGridType::ElementType)) {
+    throw std::runtime_error("file size of " + myFilename +
+                             " does not match the sparse grid: " + std::to_string(fileSize));
+  }
   std::ifstream ifp(myFilename, std::ios::in | std::ios::binary);
   ifp.read(reinterpret_cast<char*>(dsg.getRawData()),
            dsg.getRawDataSize() * sizeof(typename SparseGridType::ElementType));
-- 
2.43.0


From 1a23ca4f9a975b9588e1b54be95ea4f8bb0751f8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 08:20:34 +0000
Subject: [PATCH 32/53] fix: number the files of unevenly sized file parts like
 their tokens

---
 src/sparsegrid/DistributedSparseGridIO.hpp | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/src/sparsegrid/DistributedSparseGridIO.hpp b/src/sparsegrid/DistributedSparseGridIO.hpp
index 9aeeb98..9b7af04 100644
--- a/src/sparsegrid/DistributedSparseGridIO.hpp
+++ b/src/sparsegrid/DistributedSparseGridIO.hpp
@@ -159,8 +159,7 @@ template <typename SparseGridType>
 int writeSomeFiles(const SparseGridType& dsg, const std::string& fileName,
                    bool deleteExistingFile = false) {
   auto comm = theMPISystem()->getOutputComm();
-  auto outputGroupSize = getCommSize(comm);
-  auto filePart = theMPISystem()->getOutputGroupRank() / outputGroupSize;
+  auto filePart = theMPISystem()->getFilePartNumber();
   std::string filePartName = fileName + ".part" + std::to_string(filePart);
 
   MPI_Offset len = dsg.getRawDataSize();
-- 
2.43.0


From 2b8b297c889438c5ac38bb8976fca7ade6e8b912 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 08:21:35 +0000
Subject: [PATCH 33/53] fix: remove exactly the sparse grid files that were
 read

---
 src/manager/SparseGridWorker.hpp | 9 ++-------
 1 file changed, 2 insertions(+), 7 deletions(-)

diff --git a/src/manager/SparseGridWorker.hpp b/src/manager/SparseGridWorker.hpp
index 5ea2401..897930e 100644
--- a/src/manager/SparseGridWorker.hpp
+++ b/src/manager/SparseGridWorker.hpp
@@ -1070,13 +1070,8 @@ void SparseGridWorker<CombiDataType>::removeReadingFiles(
       // remove sparse grid file(s)
       if (!keepSparseGridFiles) {
         std::filesystem::remove(filenamePrefixesToRead[i] + "_" + std::to_string(0));
-        for (const auto& entry : std::filesystem::directory_iterator(".")) {
-          if (entry.path().string().find(filenamePrefixesToRead[i] + "_" + std::to_string(0) +
-                                         ".part" + std::to_string(filePart)) != std::string::npos) {
-            assert(entry.is_regular_file());
-            std::filesystem::remove(entry.path());
-          }
-        }
+        std::filesystem::remove(filenamePrefixesToRead[i] + "_" + std::to_string(0) + ".part" +
+                                std::to_string(filePart));
       }
     }
   }
-- 
2.43.0


From a0399950ca2248d0ba8180ceda990a43d977476e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 08:34:16 +0000
Subject: [PATCH 34/53] fix: reverse the byte order of network data correctly
 (off by one)

---
 src/third_level/NetworkUtils.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/third_level/NetworkUtils.hpp b/src/third_level/NetworkUtils.hpp
index 0794a37..c6261d2 100644
--- a/src/third_level/NetworkUtils.hpp
+++ b/src/third_level/NetworkUtils.hpp
@@ -163,7 +163,7 @@ class NetworkUtils {
 
       // reverse bytes
       for (size_t j = 0; j < sizeof(T); j++)
-          rawRet[j] = rawValue[sizeof(T)-j];
+          rawRet[j] = rawValue[sizeof(T)-1-j];
 
       return retValue;
     }
-- 
2.43.0


From 4b58dd50c6966a3e57673d5560c510efa44d2d66 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 08:34:16 +0000
Subject: [PATCH 35/53] fix: do not exchange real and imaginary part when
 reversing the byte order

---
 src/third_level/NetworkUtils.hpp | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/src/third_level/NetworkUtils.hpp b/src/third_level/NetworkUtils.hpp
index c6261d2..1ce5552 100644
--- a/src/third_level/NetworkUtils.hpp
+++ b/src/third_level/NetworkUtils.hpp
@@ -14,6 +14,7 @@
 #include <errno.h>
 #include <unistd.h>
 #include <assert.h>
+#include <complex>
 #include <arpa/inet.h>
 #include <iostream>
 #include <vector>
@@ -167,6 +168,13 @@ class NetworkUtils {
 
       return retValue;
     }
+
+    // the parts of a complex number are separate numbers
+    template<typename T>
+    inline static std::complex<T> reverseEndianness(const std::complex<T>& value)
+    {
+      return {reverseEndianness(value.real()), reverseEndianness(value.imag())};
+    }
 };
 
 /* Receives buffSize elements of type FG_ELEMENT and corrects the endianness of
-- 
2.43.0


From 55f5488d170920f38f2baaa865c0ec6bbaea9be3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 08:34:16 +0000
Subject: [PATCH 36/53] fix: receive elements that arrive in more than two
 pieces

---
 src/third_level/NetworkUtils.hpp | 15 +++++----------
 1 file changed, 5 insertions(+), 10 deletions(-)

diff --git a/src/third_level/NetworkUtils.hpp b/src/third_level/NetworkUtils.hpp
index 1ce5552..85192f2 100644
--- a/src/third_level/NetworkUtils.hpp
+++ b/src/third_level/NetworkUtils.hpp
@@ -16,6 +16,7 @@
 #include <assert.h>
 #include <complex>
 #include <arpa/inet.h>
+#include <algorithm>
 #include <iostream>
 #include <vector>
 #include <fstream>
@@ -211,7 +212,6 @@ bool ClientSocket::recvallBinaryAndCorrectInPlace(FG_ELEMENT* buff,
   // for oddly received data
   std::vector<char> remaining;
   remaining.reserve(sizeof(FG_ELEMENT));
-  ssize_t head_k1 = 0;
   ssize_t head_k = 0;
   ssize_t tail_k = 0;
   ssize_t numAppended = 0;
@@ -231,7 +231,8 @@ bool ClientSocket::recvallBinaryAndCorrectInPlace(FG_ELEMENT* buff,
     //  [ oo|xxxx|...|xxxx|o ] -> [ ooo|xxxx|...|xxxx|oo ]
     //                              0                  recvd-1
 
-    tail_k = (sizeof(FG_ELEMENT) - head_k1) % sizeof(FG_ELEMENT);
+    // the received bytes may not suffice to complete the element begun before
+    tail_k = std::min(recvd, ssize_t((sizeof(FG_ELEMENT) - remaining.size()) % sizeof(FG_ELEMENT)));
     head_k = (recvd - tail_k) % sizeof(FG_ELEMENT);
 
     // push tail into remaining
@@ -265,9 +266,6 @@ bool ClientSocket::recvallBinaryAndCorrectInPlace(FG_ELEMENT* buff,
     for (ssize_t i = recvd-head_k; i < recvd; ++i)
       remaining.push_back(recvBuff[size_t(i)]);
 
-    // overwrite old head
-    head_k1 = head_k;
-
     totalRecvd += (size_t)recvd;
   }
   if ( recvd == -1) {
@@ -322,7 +320,6 @@ bool ClientSocket::recvallBinaryAndReduceInPlace(FG_ELEMENT* buff,
   // for oddly received data
   std::vector<char> remaining;
   remaining.reserve(sizeof(FG_ELEMENT));
-  ssize_t head_k1 = 0;
   ssize_t head_k = 0;
   ssize_t tail_k = 0;
   ssize_t numReduced = 0;
@@ -342,7 +339,8 @@ bool ClientSocket::recvallBinaryAndReduceInPlace(FG_ELEMENT* buff,
     //  [ oo|xxxx|...|xxxx|o ] -> [ ooo|xxxx|...|xxxx|oo ]
     //                              0                  recvd-1
 
-    tail_k = (sizeof(FG_ELEMENT) - head_k1) % sizeof(FG_ELEMENT);
+    // the received bytes may not suffice to complete the element begun before
+    tail_k = std::min(recvd, ssize_t((sizeof(FG_ELEMENT) - remaining.size()) % sizeof(FG_ELEMENT)));
     head_k = (recvd-tail_k) % sizeof(FG_ELEMENT);
 
     // push tail into remaining
@@ -384,9 +382,6 @@ bool ClientSocket::recvallBinaryAndReduceInPlace(FG_ELEMENT* buff,
     for (ssize_t i = recvd-head_k; i < recvd; ++i)
       remaining.push_back(recvBuff[size_t(i)]);
 
-    // overwrite old head
-    head_k1 = head_k;
-
     totalRecvd += (size_t)recvd;
   }
 
-- 
2.43.0


From a516439b051b72751fa884519746d0050aef90b4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 08:34:16 +0000
Subject: [PATCH 37/53] fix: report a connection that breaks before the byte
 order flag

---
 src/third_level/NetworkUtils.hpp | 12 ++++++++----
 1 file changed, 8 insertions(+), 4 deletions(-)

diff --git a/src/third_level/NetworkUtils.hpp b/src/third_level/NetworkUtils.hpp
index 85192f2..64c357d 100644
--- a/src/third_level/NetworkUtils.hpp
+++ b/src/third_level/NetworkUtils.hpp
@@ -198,8 +198,10 @@ bool ClientSocket::recvallBinaryAndCorrectInPlace(FG_ELEMENT* buff,
   assert(isInitialized() && "Client Socket not initialized");
   // receive endianness
   char temp = ' ';
-  [[maybe_unused]] auto recvAllSuccess = recvall(&temp, 1);
-  assert(recvAllSuccess && "Receiving Endianess failed");
+  if (!recvall(&temp, 1)) {
+    std::cerr << "Receiving Endianess failed" << std::endl;
+    return false;
+  }
   bool hasSameEndianness = bool(temp) == NetworkUtils::isLittleEndian();
 
   // for recv()
@@ -306,8 +308,10 @@ bool ClientSocket::recvallBinaryAndReduceInPlace(FG_ELEMENT* buff,
   assert(isInitialized() && "Client Socket not initialized");
   // receive endianness
   char temp = ' ';
-  [[maybe_unused]] auto recvSuccess = recvall(&temp, 1);
-  assert(recvSuccess && "Receiving Endianess failed");
+  if (!recvall(&temp, 1)) {
+    std::cerr << "Receiving Endianess failed" << std::endl;
+    return false;
+  }
   bool hasSameEndianness = bool(temp) == NetworkUtils::isLittleEndian();
 
   // for recv()
-- 
2.43.0


From 025af15be7bc81570e7efe66dee855b9017b0515 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 08:34:16 +0000
Subject: [PATCH 38/53] fix: do not write the bytes of the next message to the
 received file

---
 src/third_level/NetworkUtils.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/third_level/NetworkUtils.cpp b/src/third_level/NetworkUtils.cpp
index 1c744fc..a870653 100644
--- a/src/third_level/NetworkUtils.cpp
+++ b/src/third_level/NetworkUtils.cpp
@@ -121,7 +121,7 @@ bool ClientSocket::recvallBinaryToFile(const std::string& filename, size_t len,
   size_t total = 0;
   std::unique_ptr<char[]> buff(new char[chunksize]);
   while (total < len) {
-    recvd = recv(sockfd_, buff.get(), chunksize, 0);
+    recvd = recv(sockfd_, buff.get(), std::min(len - total, chunksize), 0);
     if (recvd <= 0)
       break;
     total += static_cast<size_t>(recvd);
-- 
2.43.0


From 5feb86c20697a96c2b9826144b52460b9ffc7c22 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 08:34:16 +0000
Subject: [PATCH 39/53] fix: reject malformed message lengths and accept
 lengths beyond 2^31

---
 src/third_level/NetworkUtils.cpp | 18 +++++++++++++++---
 1 file changed, 15 insertions(+), 3 deletions(-)

diff --git a/src/third_level/NetworkUtils.cpp b/src/third_level/NetworkUtils.cpp
index a870653..7ad0ca4 100644
--- a/src/third_level/NetworkUtils.cpp
+++ b/src/third_level/NetworkUtils.cpp
@@ -1,4 +1,5 @@
 #include "NetworkUtils.hpp"
+#include <stdexcept>
 
 namespace combigrid{
 
@@ -190,9 +191,20 @@ bool ClientSocket::recvLength(size_t & length, int flags) const {
       return false;
     default:
       lenstr.pop_back();
-      assert(NetworkUtils::isInteger(lenstr) && "Received length is not a number");
-      length = (size_t) std::stoi(lenstr);
-      assert(length > 0);
+      // only digits: neither sign nor white space, as accepted by std::stoull
+      if (lenstr.empty() || lenstr.find_first_not_of("0123456789") != std::string::npos) {
+        std::cerr << "ClientSocket::recvLength() failed, received length is not a number" << std::endl;
+        return false;
+      }
+      try {
+        length = std::stoull(lenstr);
+      } catch (const std::out_of_range&) {
+        length = 0;
+      }
+      if (length == 0) {
+        std::cerr << "ClientSocket::recvLength() failed, received length is out of range" << std::endl;
+        return false;
+      }
       return true;
   }
 }
-- 
2.43.0


From 93ecb3d28fc4d0afe8ab9e4f48ff106cb555d8f6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 08:37:17 +0000
Subject: [PATCH 40/53] fix: report failed exchanges with the third level
 manager

---
 src/third_level/ThirdLevelUtils.cpp | 21 +++++++++++++++++----
 src/third_level/ThirdLevelUtils.hpp | 26 ++++++++++++++++----------
 2 files changed, 33 insertions(+), 14 deletions(-)

diff --git a/src/third_level/ThirdLevelUtils.cpp b/src/third_level/ThirdLevelUtils.cpp
index ff696b3..0f848fb 100644
--- a/src/third_level/ThirdLevelUtils.cpp
+++ b/src/third_level/ThirdLevelUtils.cpp
@@ -11,7 +11,11 @@ ThirdLevelUtils::ThirdLevelUtils(const std::string& host, int port)
 
 ThirdLevelUtils::~ThirdLevelUtils(){
   if (isConnected_) {
-    signalFinalize();
+    try {
+      signalFinalize();
+    } catch (const std::exception& e) {
+      std::cerr << "ThirdLevelUtils: " << e.what() << std::endl;
+    }
     isConnected_ = false;
   }
 }
@@ -81,12 +85,16 @@ void ThirdLevelUtils::signalFinalize() const
 
 void ThirdLevelUtils::sendMessage(const std::string& message) const
 {
-  connection_->sendallPrefixed(message);
+  if (!connection_->sendallPrefixed(message)) {
+    throw std::runtime_error("Sending message to third level manager failed");
+  }
 }
 
 void ThirdLevelUtils::receiveMessage(std::string& message) const
 {
-  connection_->recvallPrefixed(message);
+  if (!connection_->recvallPrefixed(message)) {
+    throw std::runtime_error("Receiving message from third level manager failed");
+  }
 }
 
 void ThirdLevelUtils::signalizeSendData() const
@@ -104,9 +112,14 @@ size_t ThirdLevelUtils::receiveSize() const
   std::string sizeStr;
   receiveMessage(sizeStr);
 
+  if (sizeStr.find_first_not_of("0123456789") != std::string::npos) {
+    throw std::runtime_error("Received size is not a number: " + sizeStr);
+  }
   std::stringstream ss(sizeStr);
   size_t size;
-  ss >> size;
+  if (!(ss >> size)) {
+    throw std::runtime_error("Received size is not a number: " + sizeStr);
+  }
   return size;
 }
 }
diff --git a/src/third_level/ThirdLevelUtils.hpp b/src/third_level/ThirdLevelUtils.hpp
index b5212e0..99a0070 100644
--- a/src/third_level/ThirdLevelUtils.hpp
+++ b/src/third_level/ThirdLevelUtils.hpp
@@ -86,7 +86,9 @@ namespace combigrid {
     signalizeSendData();
     size_t rawSize = size * sizeof(FG_ELEMENT) + 1; // + 1 due to endianness
     sendSize(rawSize);
-    connection_->sendallBinary(data, size);
+    if (!connection_->sendallBinary(data, size)) {
+      throw std::runtime_error("sending dsgu data failed");
+    }
   }
 
   template <typename FG_ELEMENT>
@@ -94,10 +96,12 @@ namespace combigrid {
   {
     assert(isConnected_);
     size_t rawSize = receiveSize();
-    [[maybe_unused]] size_t recvSize = (rawSize - 1) / sizeof(FG_ELEMENT); // - 1 due to endianness
-    assert(recvSize == size && "Size mismatch receiving data size does not match expected");
-    [[maybe_unused]] bool success = connection_->recvallBinaryAndCorrectInPlace(data, size);
-    assert(success && "receiving dsgu data failed");
+    if (rawSize != size * sizeof(FG_ELEMENT) + 1) { // + 1 due to endianness
+      throw std::runtime_error("Size mismatch receiving data size does not match expected");
+    }
+    if (!connection_->recvallBinaryAndCorrectInPlace(data, size)) {
+      throw std::runtime_error("receiving dsgu data failed");
+    }
   }
 
 
@@ -106,11 +110,13 @@ namespace combigrid {
   {
     assert(isConnected_);
     size_t rawSize = receiveSize();
-    [[maybe_unused]] size_t recvSize = (rawSize - 1) / sizeof(FG_ELEMENT); // - 1 due to endianness
-    assert(recvSize == size && "Size mismatch cannot add vectors of different size");
-    [[maybe_unused]] bool success = connection_->recvallBinaryAndReduceInPlace<FG_ELEMENT>(data, size,
-        [](const FG_ELEMENT& lhs, const FG_ELEMENT& rhs) -> FG_ELEMENT {return lhs + rhs;});
-    assert(success && "receiving dsgu data failed");
+    if (rawSize != size * sizeof(FG_ELEMENT) + 1) { // + 1 due to endianness
+      throw std::runtime_error("Size mismatch cannot add vectors of different size");
+    }
+    if (!connection_->recvallBinaryAndReduceInPlace<FG_ELEMENT>(data, size,
+        [](const FG_ELEMENT& lhs, const FG_ELEMENT& rhs) -> FG_ELEMENT {return lhs + rhs;})) {
+      throw std::runtime_error("receiving dsgu data failed");
+    }
   }
 }
 #endif
-- 
2.43.0


From 423d137f7db08689283d72c0901a0e23c0dce21a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 08:37:17 +0000
Subject: [PATCH 41/53] fix: statistics of the third level manager without any
 combination

---
 third_level_manager/thirdLevelManager.cpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/third_level_manager/thirdLevelManager.cpp b/third_level_manager/thirdLevelManager.cpp
index 88562cf..d1cecd6 100644
--- a/third_level_manager/thirdLevelManager.cpp
+++ b/third_level_manager/thirdLevelManager.cpp
@@ -297,7 +297,8 @@ void ThirdLevelManager::writeStatistics(const std::string& filename)
   size_t walltime = stats_.getWallTime();
   size_t numCombinations = stats_.getNumCombinations();
   size_t totalBytesTransferredInCombination = stats_.getTotalBytesTransferredInCombination();
-  size_t numBytesTransferredPerCombination = totalBytesTransferredInCombination / numCombinations;
+  size_t numBytesTransferredPerCombination =
+      numCombinations > 0 ? totalBytesTransferredInCombination / numCombinations : 0;
   size_t totalBytesTransferredInSizeExchange = stats_.getTotalBytesTransferredInSizeExchange();
   if (filename != "")
   {
-- 
2.43.0


From 881062bad530b196eb491c9d754740a04c870ea5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 08:39:30 +0000
Subject: [PATCH 42/53] fix: third level manager stops on broken connections
 and unexpected messages

---
 third_level_manager/System.cpp            |  7 +-
 third_level_manager/thirdLevelManager.cpp | 87 ++++++++++++-----------
 2 files changed, 49 insertions(+), 45 deletions(-)

diff --git a/third_level_manager/System.cpp b/third_level_manager/System.cpp
index 962bf32..88d9809 100644
--- a/third_level_manager/System.cpp
+++ b/third_level_manager/System.cpp
@@ -1,4 +1,5 @@
 #include "System.hpp"
+#include <stdexcept>
 
 namespace combigrid {
 
@@ -9,7 +10,8 @@ System::System(std::shared_ptr<ClientSocket>& connection, size_t id)
 
 void System::sendMessage(const std::string& message) const
 {
-  connection_->sendallPrefixed(message);
+  if (!connection_->sendallPrefixed(message))
+    throw std::runtime_error("System::sendMessage(): Sending message failed!");
 }
 
 bool System::receiveMessage(std::string& message, int timeout) const
@@ -22,7 +24,8 @@ bool System::receivePosNumber(size_t& number) const
   std::string message;
   if (receiveMessage(message))
   {
-    assert(NetworkUtils::isInteger(message));
+    if (message.find_first_not_of("0123456789") != std::string::npos)
+      return false;
     number = std::stoul(message);
     return true;
   }
diff --git a/third_level_manager/thirdLevelManager.cpp b/third_level_manager/thirdLevelManager.cpp
index d1cecd6..5487ed8 100644
--- a/third_level_manager/thirdLevelManager.cpp
+++ b/third_level_manager/thirdLevelManager.cpp
@@ -137,6 +137,23 @@ void ThirdLevelManager::processMessage(const std::string& message, size_t sysInd
     processFinished(sysIndex);
 }
 
+/** Receives the next message of a system. A broken connection is an error. */
+static std::string receiveFrom(const System& system)
+{
+  std::string message;
+  if (!system.receiveMessage(message))
+    throw std::runtime_error("ThirdLevelManager: Receiving message failed!");
+  return message;
+}
+
+/** Receives the next message of a system, which has to be the expected one. */
+static void expectFrom(const System& system, const std::string& expected)
+{
+  std::string message = receiveFrom(system);
+  if (message != expected)
+    throw std::runtime_error("Unexpected message: " + message);
+}
+
 /** Processes and manages the third level combination, initiated by a system
  *  which signals ready after its local and global combination.
  *  ATTENTION: Implemented only for 2 systems
@@ -151,28 +168,26 @@ void ThirdLevelManager::processCombination(size_t initiatorIndex)
   size_t otherIndex = (initiatorIndex + 1) % systems_.size();
   System& other = systems_[otherIndex];
 
-  std::string message;
   initiator.sendMessage("send_first");
-  other.receiveMessage(message);
-  assert(message == "ready_to_combine");
+  expectFrom(other, "ready_to_combine");
   other.sendMessage("recv_first");
 
   // transfer grids between the systems
-  while (initiator.receiveMessage(message) && message != "ready")
+  std::string message;
+  while ((message = receiveFrom(initiator)) != "ready")
   {
-    assert(message == "sending_data");
+    if (message != "sending_data")
+      throw std::runtime_error("Unexpected message: " + message);
     size_t dataSize = forwardData(initiator, other);
     stats_.addToBytesTransferredInCombination(dataSize);
 
-    other.receiveMessage(message);
-    assert(message == "sending_data");
+    expectFrom(other, "sending_data");
     dataSize = forwardData(other, initiator);
     stats_.addToBytesTransferredInCombination(dataSize);
   }
 
   // wait for other system to finish receiving
-  other.receiveMessage(message);
-  assert(message == "ready");
+  expectFrom(other, "ready");
 }
 
 
@@ -184,16 +199,12 @@ void ThirdLevelManager::processCombinationFile(size_t initiatorIndex)
   size_t otherIndex = (initiatorIndex + 1) % systems_.size();
   System& other = systems_[otherIndex];
 
-  std::string message;
   initiator.sendMessage("write_ok");
-  other.receiveMessage(message);
-  assert(message == "ready_to_combine_file");
+  expectFrom(other, "ready_to_combine_file");
   other.sendMessage("write_ok");
 
-  initiator.receiveMessage(message);
-  assert(message == "ready");
-  other.receiveMessage(message);
-  assert(message == "ready");
+  expectFrom(initiator, "ready");
+  expectFrom(other, "ready");
 }
 
 /* TODO optimization: forward both directions at the same time
@@ -206,30 +217,24 @@ void ThirdLevelManager::processUnifySubspaceSizes(size_t initiatorIndex)
   size_t otherIndex = (initiatorIndex + 1) % systems_.size();
   System& other = systems_[otherIndex];
 
-  std::string message;
   initiator.sendMessage("send_first" );
-  other.receiveMessage( message);
-  assert(message == "ready_to_unify_subspace_sizes");
+  expectFrom(other, "ready_to_unify_subspace_sizes");
   other.sendMessage("recv_first" );
 
   // transfer data from initiator (sends first) to other (receives first)
-  initiator.receiveMessage(message);
-  if (message == "sending_data")
+  if (receiveFrom(initiator) == "sending_data")
   {
     size_t dataSize = forwardData(initiator, other);
     stats_.addToBytesTransferredInSizeExchange(dataSize);
   }
   // transfer data from other to initiator
-  other.receiveMessage(message);
-  if (message == "sending_data")
+  if (receiveFrom(other) == "sending_data")
   {
     size_t dataSize = forwardData(other, initiator);
     stats_.addToBytesTransferredInSizeExchange(dataSize);
   }
-  initiator.receiveMessage(message);
-  assert(message == "ready");
-  other.receiveMessage(message);
-  assert(message == "ready");
+  expectFrom(initiator, "ready");
+  expectFrom(other, "ready");
 }
 
 void ThirdLevelManager::processAnyData(size_t initiatorIndex) {
@@ -238,30 +243,24 @@ void ThirdLevelManager::processAnyData(size_t initiatorIndex) {
   size_t otherIndex = (initiatorIndex + 1) % systems_.size();
   System& other = systems_[otherIndex];
 
-  std::string message;
   initiator.sendMessage("send_first");
-  other.receiveMessage(message);
-  assert(message == "ready_to_exchange_data");
+  expectFrom(other, "ready_to_exchange_data");
   other.sendMessage("recv_first");
 
   // transfer data from initiator (sends first) to other (receives first)
-  initiator.receiveMessage(message);
-  if (message == "sending_data") {
+  if (receiveFrom(initiator) == "sending_data") {
     // size_t dataSize = forwardData(initiator, other);
     forwardData(initiator, other);
   }
   // transfer data from other to initiator if there is any
-  other.receiveMessage(message);
+  std::string message = receiveFrom(other);
   if (message == "sending_data") {
     // size_t dataSize = forwardData(other, initiator);
     forwardData(other, initiator);
-    initiator.receiveMessage(message);
-    assert(message == "ready");
-    other.receiveMessage(message);
-    assert(message == "ready");
+    expectFrom(initiator, "ready");
+    expectFrom(other, "ready");
   } else if (message == "ready") {
-    initiator.receiveMessage(message);
-    assert(message == "ready");
+    expectFrom(initiator, "ready");
   } else {
     throw std::runtime_error("Unexpected message: " + message);
   }
@@ -281,13 +280,15 @@ void ThirdLevelManager::processFinished(size_t sysIndex)
 size_t ThirdLevelManager::forwardData(const System& sender, const System& receiver) const
 {
   size_t dataSize;
-  sender.receivePosNumber(dataSize);
+  if (!sender.receivePosNumber(dataSize))
+    throw std::runtime_error("ThirdLevelManager::forwardData(): Receiving size failed!");
   receiver.sendMessage(std::to_string(dataSize));
 
   // forward data to other system
-  if (dataSize != 0)
-    NetworkUtils::forward(*sender.getConnection(), *receiver.getConnection(),
-                          this->params_.getChunksize(), dataSize);
+  if (dataSize != 0 &&
+      !NetworkUtils::forward(*sender.getConnection(), *receiver.getConnection(),
+                             this->params_.getChunksize(), dataSize))
+    throw std::runtime_error("ThirdLevelManager::forwardData(): Forwarding failed!");
 
   return dataSize;
 }
-- 
2.43.0


From 1951037639c4f1b2230d632056111a3ccc6dd83b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 08:59:26 +0000
Subject: [PATCH 43/53] fix: setting subspace sizes from several threads
 deleted the subspace data concurrently

---
 src/sparsegrid/DistributedSparseGridUniform.hpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/sparsegrid/DistributedSparseGridUniform.hpp b/src/sparsegrid/DistributedSparseGridUniform.hpp
index d091182..fc0f41e 100644
--- a/src/sparsegrid/DistributedSparseGridUniform.hpp
+++ b/src/sparsegrid/DistributedSparseGridUniform.hpp
@@ -694,7 +694,8 @@ void DistributedSparseGridUniform<FG_ELEMENT>::setDataSize(SubspaceIndexType i,
   }
 #endif  // NDEBUG
   if (newSize != subspacesDataSizes_[i]) {
-    // invalidate the data vector
+    // invalidate the data vector; sizes of different subspaces may be set by different threads
+#pragma omp critical(invalidateSubspaceData)
     this->deleteSubspaceData();
   }
   subspacesDataSizes_[i] = newSize;
-- 
2.43.0


From ea6c8ca3f5f7f6639be40bd888e24b5b547391c3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 08:59:26 +0000
Subject: [PATCH 44/53] fix: all threads wrote the maximum number of active
 levels without synchronisation

---
 src/mpi/OpenMPUtils.cpp | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/src/mpi/OpenMPUtils.cpp b/src/mpi/OpenMPUtils.cpp
index 680e54d..c96502d 100644
--- a/src/mpi/OpenMPUtils.cpp
+++ b/src/mpi/OpenMPUtils.cpp
@@ -32,9 +32,12 @@ int OpenMPUtils::getNumThreads() {
 
 int OpenMPUtils::getMaximumActiveLevels() {
   int maxActiveLevels = 0;
-#pragma omp parallel default(none) shared(maxActiveLevels)
 #ifdef _OPENMP
-  maxActiveLevels = omp_get_max_active_levels();
+#pragma omp parallel default(none) shared(maxActiveLevels)
+  {
+#pragma omp master
+    maxActiveLevels = omp_get_max_active_levels();
+  }
 #endif
   return maxActiveLevels;
 }
-- 
2.43.0


From 18543f70a155168b3882850239fc52ab01dfabbf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:33:50 +0000
Subject: [PATCH 45/53] fix: FullGrid::eval weights a level-1 dimension without
 boundary correctly

Right of the single grid point the weight of the other dimensions was multiplied
by 1 instead of by (1 - x), and x was subtracted from the product (operator
precedence), so in more than one dimension the value was wrong.
---
 src/fullgrid/FullGrid.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/fullgrid/FullGrid.hpp b/src/fullgrid/FullGrid.hpp
index 1fbbad3..b42180c 100644
--- a/src/fullgrid/FullGrid.hpp
+++ b/src/fullgrid/FullGrid.hpp
@@ -491,7 +491,7 @@ FG_ELEMENT FullGrid<FG_ELEMENT>::eval(std::vector<real>& coords) {
         assert(coords[jj] <= 1.0 && coords[jj] >= 0.0);
 
         if (coords[jj] > 0.5)
-          baseVal = baseVal * 1.0 - coords[jj];
+          baseVal = baseVal * (1.0 - coords[jj]);
         else
           baseVal = baseVal * coords[jj];
       } else
-- 
2.43.0


From ed34b15a94a16c10c5391cc48d1c985df249188a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:03:44 +0000
Subject: [PATCH 46/53] fix: (de)hierarchize all grids of a task, not only the
 first

TaskWorker::numGridsPerTask_ was never set, so with more than one grid per task
the further grids were combined without being hierarchized.
---
 src/manager/ProcessGroupWorker.cpp | 1 +
 src/manager/TaskWorker.hpp         | 7 +++++++
 2 files changed, 8 insertions(+)

diff --git a/src/manager/ProcessGroupWorker.cpp b/src/manager/ProcessGroupWorker.cpp
index 51628ca..42c75cb 100644
--- a/src/manager/ProcessGroupWorker.cpp
+++ b/src/manager/ProcessGroupWorker.cpp
@@ -683,6 +683,7 @@ template <typename CombiDataType>
 void ProcessGroupWorker<CombiDataType>::setCombiParameters(CombiParameters&& combiParameters) {
   combiParameters_ = std::move(combiParameters);
   combiParametersSet_ = true;
+  this->getTaskWorker().setNumGridsPerTask(combiParameters_.getNumGrids());
 
   // overwrite local comm with cartesian communicator
   if (combiParameters_.isParallelizationSet()) {
diff --git a/src/manager/TaskWorker.hpp b/src/manager/TaskWorker.hpp
index f250f25..97c5b35 100644
--- a/src/manager/TaskWorker.hpp
+++ b/src/manager/TaskWorker.hpp
@@ -123,6 +123,13 @@ class TaskWorker {
     tasks_.erase(removeIt);
   }
 
+  /**
+   * @brief set the number of grids that each task has
+   */
+  inline void setNumGridsPerTask(size_t numGridsPerTask) {
+    numGridsPerTask_ = static_cast<int>(numGridsPerTask);
+  }
+
   /**
    * @brief run all tasks by calling their run method
    */
-- 
2.43.0


From 34dd31a0e5a1f5963de77764827767f358d61522 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:03:44 +0000
Subject: [PATCH 47/53] fix: parallelEval starts every grid's plot from zero

With more than one grid per task, points without a sparse grid coefficient kept
the previous grid's values.
---
 src/manager/SparseGridWorker.hpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/manager/SparseGridWorker.hpp b/src/manager/SparseGridWorker.hpp
index 897930e..d0bbd3d 100644
--- a/src/manager/SparseGridWorker.hpp
+++ b/src/manager/SparseGridWorker.hpp
@@ -766,6 +766,7 @@ inline void SparseGridWorker<CombiDataType>::interpolateAndPlotOnLevel(
                                                levelToEvaluate, theMPISystem()->getLocalComm(),
                                                boundary, parallelization, false, decomposition);
   for (size_t g = 0; g < this->getNumberOfGrids(); ++g) {  // loop over all grids and plot them
+    dfg.setZero();  // the values of the previous grid must not remain where the sparse grid has none
     this->fillDFGFromDSGU(dfg, g, boundary, hierarchizationDims, hierarchicalBases, lmin);
     // save dfg to file with MPI-IO
     if (endsWith(filename, ".vtk")) {
-- 
2.43.0


From d89479e2db01040e8b8bee9a17f55134b8e2ad9d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 14:02:13 +0000
Subject: [PATCH 48/53] fix: chunk sizes of 16 GiB and more per thread
 overflowed, in the worst case to zero elements

With a chunk size of zero elements the reduction never ended.
---
 src/combicom/CombiCom.hpp | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/src/combicom/CombiCom.hpp b/src/combicom/CombiCom.hpp
index 08d259b..75cf1a7 100644
--- a/src/combicom/CombiCom.hpp
+++ b/src/combicom/CombiCom.hpp
@@ -92,9 +92,11 @@ static int getGlobalReduceChunkSize(uint32_t maxMiBToSendPerThread) {
   auto maxBytesToSend = CombiCom::MiBtoBytes(maxMiBToSendPerThread);
   // allreduce up to 16MiB at a time (when using double precision)
   auto numOMPThreads = OpenMPUtils::getNumThreads();
-  int chunkSize = static_cast<int>(maxBytesToSend / sizeof(SG_ELEMENT) * numOMPThreads);
+  size_t chunkSize = maxBytesToSend / sizeof(SG_ELEMENT) * numOMPThreads;
   assert(chunkSize > 0);
-  return chunkSize;
+  // the number of elements is passed to MPI as int
+  return static_cast<int>(
+      std::min(chunkSize, static_cast<size_t>(std::numeric_limits<int>::max())));
 }
 
 /**
-- 
2.43.0


From 64056107de245c8b00c71bbe545491fdbd73e4b9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 14:07:22 +0000
Subject: [PATCH 49/53] fix: uniform evaluation looked for the file extension
 in the directory names

For './plot.raw' or 'out.d/plot.raw' the number of the grid was inserted before the first dot of
the whole path, and the file could not be opened.
---
 src/manager/SparseGridWorker.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/manager/SparseGridWorker.hpp b/src/manager/SparseGridWorker.hpp
index d0bbd3d..f737dbe 100644
--- a/src/manager/SparseGridWorker.hpp
+++ b/src/manager/SparseGridWorker.hpp
@@ -773,7 +773,7 @@ inline void SparseGridWorker<CombiDataType>::interpolateAndPlotOnLevel(
       dfg.writePlotFileVTK(filename.c_str());
     } else {
       std::string fn = filename;
-      auto pos = fn.find(".");
+      auto pos = fn.find(".", fn.find_last_of('/') + 1);  // not the dots of the directories
       if (pos != std::string::npos) {
         // if filename contains ".", insert grid number before that
         fn.insert(pos, "_" + std::to_string(g));
-- 
2.43.0


From 28c6d1fdcd3925df62295dbe7e62d787a6b6ea28 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:32:33 +0000
Subject: [PATCH 50/53] fix: write the dimension in the plot file header as the
 int its readers expect

---
 src/fullgrid/DistributedFullGrid.hpp | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/fullgrid/DistributedFullGrid.hpp b/src/fullgrid/DistributedFullGrid.hpp
index 17ccc27..682e9a2 100644
--- a/src/fullgrid/DistributedFullGrid.hpp
+++ b/src/fullgrid/DistributedFullGrid.hpp
@@ -1450,7 +1450,9 @@ void DistributedFullGrid<FG_ELEMENT>::writePlotFile(const char* filename) const
   } else {
     // rank 0 write dim and resolution (and data format?)
     if (this->getRank() == 0) {
-      MPI_File_write(fh, &dim, 1, MPI_UNSIGNED_CHAR, MPI_STATUS_IGNORE);
+      // as int, like the resolution: the offset below and the readers rely on it
+      const int dimAsInt = static_cast<int>(dim);
+      MPI_File_write(fh, &dimAsInt, 1, MPI_INT, MPI_STATUS_IGNORE);
 
       std::vector<int> res(csizes.begin(), csizes.end());
       MPI_File_write(fh, res.data(), static_cast<int>(res.size()), MPI_INT, MPI_STATUS_IGNORE);
-- 
2.43.0


From b2badac76d9a27d3b300d2283e427a6298e692bf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:32:33 +0000
Subject: [PATCH 51/53] fix: truncate plot files when they are opened for
 writing

---
 src/fullgrid/DistributedFullGrid.hpp | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/fullgrid/DistributedFullGrid.hpp b/src/fullgrid/DistributedFullGrid.hpp
index 682e9a2..6dd502c 100644
--- a/src/fullgrid/DistributedFullGrid.hpp
+++ b/src/fullgrid/DistributedFullGrid.hpp
@@ -1421,6 +1421,8 @@ void DistributedFullGrid<FG_ELEMENT>::writePlotFile(const char* filename) const
   // open file
   MPI_File fh;
   MPI_File_open(getCommunicator(), filename, MPI_MODE_WRONLY | MPI_MODE_CREATE, MPI_INFO_NULL, &fh);
+  // an older, longer file of that name must not leave its end behind
+  MPI_File_set_size(fh, 0);
 
   MPI_Offset offset = 0;
 
@@ -1489,6 +1491,8 @@ void DistributedFullGrid<FG_ELEMENT>::writePlotFileVTK(const char* filename) con
   // open file
   MPI_File fh;
   MPI_File_open(getCommunicator(), filename, MPI_MODE_WRONLY + MPI_MODE_CREATE, MPI_INFO_NULL, &fh);
+  // an older, longer file of that name must not leave its end behind
+  MPI_File_set_size(fh, 0);
 
   std::stringstream vtk_header;
   // cf https://lorensen.github.io/VTKExamples/site/VTKFileFormats/ => structured points
-- 
2.43.0


From 0489ab704b63d3be00cefd99eb1251d3800da405 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:32:33 +0000
Subject: [PATCH 52/53] fix: escape special characters in the statistics JSON

---
 src/utils/Stats.cpp | 20 ++++++++++++++++++++
 src/utils/Stats.hpp | 12 ++++++++----
 2 files changed, 28 insertions(+), 4 deletions(-)

diff --git a/src/utils/Stats.cpp b/src/utils/Stats.cpp
index 398e967..4d4a217 100644
--- a/src/utils/Stats.cpp
+++ b/src/utils/Stats.cpp
@@ -9,6 +9,26 @@ std::string getTimeStamp() {
   return "[" + pt::to_iso_string(pt::second_clock::local_time()) + "] ";
 }
 
+std::string escapeForJSON(const std::string& text) {
+  static const char hexDigits[] = "0123456789abcdef";
+  std::string escaped;
+  escaped.reserve(text.size());
+  for (const char c : text) {
+    const auto code = static_cast<unsigned char>(c);
+    if (c == '"' || c == '\\') {
+      escaped += '\\';
+      escaped += c;
+    } else if (code < 0x20) {
+      escaped += "\\u00";
+      escaped += hexDigits[code >> 4];
+      escaped += hexDigits[code & 0xf];
+    } else {
+      escaped += c;
+    }
+  }
+  return escaped;
+}
+
 bool Stats::initialized_ = false;
 bool Stats::finalized_ = false;
 Stats::time_point Stats::init_time_;
diff --git a/src/utils/Stats.hpp b/src/utils/Stats.hpp
index f586f99..c5ac8e0 100644
--- a/src/utils/Stats.hpp
+++ b/src/utils/Stats.hpp
@@ -22,6 +22,10 @@
 namespace combigrid {
 
 std::string getTimeStamp();
+
+/** quotes, backslashes and control characters as they have to appear in a JSON string */
+std::string escapeForJSON(const std::string& text);
+
 class Stats {
   typedef std::chrono::high_resolution_clock::time_point time_point;
 
@@ -156,7 +160,7 @@ inline void Stats::write(const std::string& path, CommunicatorType comm) {
     buffer << "\"attributes\":{" << std::endl;
     std::size_t attributes_count = 0;
     for (auto&& it = attributes_.begin(); it != attributes_.end(); ++it) {
-      buffer << "\"" << it->first << "\":\"" << it->second << "\"";
+      buffer << "\"" << escapeForJSON(it->first) << "\":\"" << escapeForJSON(it->second) << "\"";
       if (++attributes_count != attributes_.size()) {
         buffer << "," << std::endl;
       } else {
@@ -168,7 +172,7 @@ inline void Stats::write(const std::string& path, CommunicatorType comm) {
     buffer << "\"events\":{" << std::endl;
     std::size_t event_count = 0;
     for (auto&& t = event_.begin(); t != event_.end(); ++t) {
-      buffer << "\"" << t->first << "\""
+      buffer << "\"" << escapeForJSON(t->first) << "\""
              << ":[" << std::endl;
 
       std::size_t element_count = 0;
@@ -222,7 +226,7 @@ inline void Stats::writePartial(const std::string& pathSuffix, CommunicatorType
     std::size_t attributes_count = 0;
     // write all attributes
     for (auto&& it = attributes_.begin(); it != attributes_.end(); ++it) {
-      buffer << "\"" << it->first << "\":\"" << it->second << "\"";
+      buffer << "\"" << escapeForJSON(it->first) << "\":\"" << escapeForJSON(it->second) << "\"";
       if (++attributes_count != attributes_.size()) {
         buffer << "," << std::endl;
       } else {
@@ -239,7 +243,7 @@ inline void Stats::writePartial(const std::string& pathSuffix, CommunicatorType
       if (!anyEventFirstTime) {
         eventBuffer << "," << std::endl;
       }
-      eventBuffer << "\"" << t->first << "\""
+      eventBuffer << "\"" << escapeForJSON(t->first) << "\""
                   << ":[" << std::endl;
 
       bool thisEventFirstTime = true;
-- 
2.43.0


From d6762ef8b515e3c9eb74ee8755db9af5c3d483e1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:36:50 +0000
Subject: [PATCH 53/53] fix: writing a sparse grid file over a longer one must
 not leave its end behind

---
 src/io/MPIInputOutput.hpp | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/io/MPIInputOutput.hpp b/src/io/MPIInputOutput.hpp
index 8d3e7d8..6667f5a 100644
--- a/src/io/MPIInputOutput.hpp
+++ b/src/io/MPIInputOutput.hpp
@@ -110,6 +110,10 @@ class [[nodiscard]] MPIFileConsecutive {
       } else {
         // open file without creating it
         err = MPI_File_open(comm, fileName.c_str(), MPI_MODE_WRONLY, info, &file);
+        if (err == MPI_SUCCESS) {
+          // a previous, longer file must not leave its end behind
+          err = MPI_File_set_size(file, 0);
+        }
       }
     }
     if (err != MPI_SUCCESS) {
-- 
2.43.0

