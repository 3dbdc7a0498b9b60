From 134c1442337abb2541dce11a4afdf30d3f72366b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:16:16 +0000
Subject: [PATCH 01/33] fix: store-mux reduction of a store with a duplicated
 memory state

---
 jlm/llvm/ir/operators/Store.cpp | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/jlm/llvm/ir/operators/Store.cpp b/jlm/llvm/ir/operators/Store.cpp
index fabf118..2054e0e 100644
--- a/jlm/llvm/ir/operators/Store.cpp
+++ b/jlm/llvm/ir/operators/Store.cpp
@@ -99,7 +99,10 @@ perform_store_mux_reduction(
       operands[1],
       memStateMergeOperands,
       op.GetAlignment());
-  return { MemoryStateMergeOperation::Create(states) };
+  // The store can have the merge's state several times
+  return std::vector<rvsdg::Output *>(
+      op.NumMemoryStates(),
+      MemoryStateMergeOperation::Create(states));
 }
 
 static std::vector<jlm::rvsdg::Output *>
-- 
2.43.0


From a7b1ea0a2ef2dcc10774199a132458f2d5ad0fc4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:16:16 +0000
Subject: [PATCH 02/33] fix: keep the order of the memory states in the
 store-alloca reduction

---
 jlm/llvm/ir/operators/Store.cpp | 15 +++++++++------
 1 file changed, 9 insertions(+), 6 deletions(-)

diff --git a/jlm/llvm/ir/operators/Store.cpp b/jlm/llvm/ir/operators/Store.cpp
index 2054e0e..ded9a28 100644
--- a/jlm/llvm/ir/operators/Store.cpp
+++ b/jlm/llvm/ir/operators/Store.cpp
@@ -113,15 +113,18 @@ perform_store_alloca_reduction(
   auto value = operands[1];
   auto address = operands[0];
   auto alloca_state = rvsdg::TryGetOwnerNode<rvsdg::SimpleNode>(*address)->output(1);
-  std::unordered_set<jlm::rvsdg::Output *> states(
-      std::next(std::next(operands.begin())),
-      operands.end());
 
   auto outputs =
       StoreNonVolatileOperation::Create(address, value, { alloca_state }, op.GetAlignment());
-  states.erase(alloca_state);
-  states.insert(outputs[0]);
-  return { states.begin(), states.end() };
+
+  // The results must be in the order of the store's memory states
+  std::vector<rvsdg::Output *> results(std::next(operands.begin(), 2), operands.end());
+  for (auto & result : results)
+  {
+    if (result == alloca_state)
+      result = outputs[0];
+  }
+  return results;
 }
 
 static std::vector<jlm::rvsdg::Output *>
-- 
2.43.0


From f77f25ffa59c39d392e4cb5841b705ba13203b73 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:16:16 +0000
Subject: [PATCH 03/33] fix: only fuse stores when all memory states of the
 first reach the second

---
 jlm/llvm/ir/operators/Store.cpp | 11 +++++++++++
 1 file changed, 11 insertions(+)

diff --git a/jlm/llvm/ir/operators/Store.cpp b/jlm/llvm/ir/operators/Store.cpp
index ded9a28..c3c8e9d 100644
--- a/jlm/llvm/ir/operators/Store.cpp
+++ b/jlm/llvm/ir/operators/Store.cpp
@@ -204,6 +204,17 @@ StoreNonVolatileOperation::normalizeStoreStore(
   if (&llvm::traceOutput(store1Address) != &llvm::traceOutput(store2Address))
     return std::nullopt;
 
+  // All of store1's used memory states must reach store2, as store1 would otherwise stay alive
+  // without being ordered with store2
+  size_t numUsedMemoryStates = 0;
+  for (auto & memoryState : MemoryStateOutputs(*store1Node))
+  {
+    if (!memoryState.IsDead())
+      numUsedMemoryStates++;
+  }
+  if (numUsedMemoryStates != store2Op.NumMemoryStates())
+    return std::nullopt;
+
   // Check that all memory state inputs originate from store1 AND have no other users
   std::vector<rvsdg::Output *> newMemoryStates;
   for (size_t n = 2; n < operands.size(); n++)
-- 
2.43.0


From c13800026d7df846a2b85bcd8b09889fa17094f1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:16:16 +0000
Subject: [PATCH 04/33] fix: keep the order of the memory states in the
 load-alloca reduction

---
 jlm/llvm/ir/operators/Load.cpp | 14 +++++++++-----
 1 file changed, 9 insertions(+), 5 deletions(-)

diff --git a/jlm/llvm/ir/operators/Load.cpp b/jlm/llvm/ir/operators/Load.cpp
index 71d452d..ec0a053 100644
--- a/jlm/llvm/ir/operators/Load.cpp
+++ b/jlm/llvm/ir/operators/Load.cpp
@@ -148,14 +148,11 @@ perform_load_alloca_reduction(
   const auto allocaNode = rvsdg::TryGetOwnerNode<rvsdg::SimpleNode>(*operands[0]);
 
   std::vector<rvsdg::Output *> loadstates;
-  std::vector<rvsdg::Output *> otherstates;
   for (size_t n = 1; n < operands.size(); n++)
   {
     const auto node = rvsdg::TryGetOwnerNode<rvsdg::SimpleNode>(*operands[n]);
     if (!is<AllocaOperation>(node) || node == allocaNode)
       loadstates.push_back(operands[n]);
-    else
-      otherstates.push_back(operands[n]);
   }
 
   auto ld = LoadNonVolatileOperation::Create(
@@ -164,9 +161,16 @@ perform_load_alloca_reduction(
       op.GetLoadedType(),
       op.GetAlignment());
 
+  // The results must be in the order of the load's memory states
   std::vector<rvsdg::Output *> results(1, ld[0]);
-  results.insert(results.end(), std::next(ld.begin()), ld.end());
-  results.insert(results.end(), otherstates.begin(), otherstates.end());
+  for (size_t n = 1, nextLoadState = 1; n < operands.size(); n++)
+  {
+    const auto node = rvsdg::TryGetOwnerNode<rvsdg::SimpleNode>(*operands[n]);
+    if (!is<AllocaOperation>(node) || node == allocaNode)
+      results.push_back(ld[nextLoadState++]);
+    else
+      results.push_back(operands[n]);
+  }
   return results;
 }
 
-- 
2.43.0


From f95f438ac4805e70c620d7b12a1a61abd9c1ace9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:16:48 +0000
Subject: [PATCH 05/33] fix: keep the IO barrier of an access at a negative
 offset of its allocation

---
 jlm/llvm/ir/operators/Load.cpp  | 4 ++++
 jlm/llvm/ir/operators/Store.cpp | 4 ++++
 2 files changed, 8 insertions(+)

diff --git a/jlm/llvm/ir/operators/Load.cpp b/jlm/llvm/ir/operators/Load.cpp
index ec0a053..48d7c1b 100644
--- a/jlm/llvm/ir/operators/Load.cpp
+++ b/jlm/llvm/ir/operators/Load.cpp
@@ -389,6 +389,10 @@ LoadNonVolatileOperation::normalizeIOBarrierAddress(
   size_t offsetInBytes = 0;
   if (const auto offsetInBytesOpt = pointerOrigin.getOffsetInBytes(); offsetInBytesOpt.has_value())
   {
+    // The accessed bytes are not within the allocation site if the offset is negative
+    if (offsetInBytesOpt.value() < 0)
+      return std::nullopt;
+
     offsetInBytes = offsetInBytesOpt.value();
   }
 
diff --git a/jlm/llvm/ir/operators/Store.cpp b/jlm/llvm/ir/operators/Store.cpp
index c3c8e9d..877cf6b 100644
--- a/jlm/llvm/ir/operators/Store.cpp
+++ b/jlm/llvm/ir/operators/Store.cpp
@@ -315,6 +315,10 @@ StoreNonVolatileOperation::normalizeIOBarrierAddress(
   size_t offsetInBytes = 0;
   if (const auto offsetInBytesOpt = pointerOrigin.getOffsetInBytes(); offsetInBytesOpt.has_value())
   {
+    // The accessed bytes are not within the allocation site if the offset is negative
+    if (offsetInBytesOpt.value() < 0)
+      return std::nullopt;
+
     offsetInBytes = offsetInBytesOpt.value();
   }
 
-- 
2.43.0


From cd91bdd65e656b6db60d32e1cf378d853731e5db Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:19:25 +0000
Subject: [PATCH 06/33] fix: keep load states that order it after accesses to
 its own alloca

---
 jlm/llvm/ir/operators/Load.cpp | 26 ++++++++++++++++++++------
 1 file changed, 20 insertions(+), 6 deletions(-)

diff --git a/jlm/llvm/ir/operators/Load.cpp b/jlm/llvm/ir/operators/Load.cpp
index 48d7c1b..415ad1e 100644
--- a/jlm/llvm/ir/operators/Load.cpp
+++ b/jlm/llvm/ir/operators/Load.cpp
@@ -73,21 +73,35 @@ is_load_alloca_reducible(const std::vector<rvsdg::Output *> & operands)
   return false;
 }
 
+/*
+  A state is reducible if it is the alloca state of another alloca, followed by stores to other
+  allocas only. The states of other memory locations can also be routed through such stores, but
+  the load needs to stay ordered after those.
+*/
 static bool
 is_reducible_state(const rvsdg::Output * state, const rvsdg::Node * loadalloca)
 {
-  auto [storeNode, storeOperation] =
-      rvsdg::TryGetSimpleNodeAndOptionalOp<StoreNonVolatileOperation>(*state);
-  if (storeOperation)
+  bool isStoreState = false;
+  while (true)
   {
+    auto [storeNode, storeOperation] =
+        rvsdg::TryGetSimpleNodeAndOptionalOp<StoreNonVolatileOperation>(*state);
+    if (!storeOperation)
+      break;
+
     auto address = StoreNonVolatileOperation::AddressInput(*storeNode).origin();
     auto [allocaNode, allocaOperation] =
         jlm::rvsdg::TryGetSimpleNodeAndOptionalOp<AllocaOperation>(*address);
-    if (allocaOperation && allocaNode != loadalloca)
-      return true;
+    if (!allocaOperation || allocaNode == loadalloca)
+      return false;
+
+    isStoreState = true;
+    state = StoreNonVolatileOperation::MapMemoryStateOutputToInput(*state).origin();
   }
 
-  return false;
+  auto [allocaNode, allocaOperation] =
+      jlm::rvsdg::TryGetSimpleNodeAndOptionalOp<AllocaOperation>(*state);
+  return isStoreState && allocaOperation && allocaNode != loadalloca;
 }
 
 /*
-- 
2.43.0


From 7d87e1e60953e264c4848e6f1c3f7b216979d7df Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:55:14 +0000
Subject: [PATCH 07/33] fix: treat calls as modifications when separating load
 chains

---
 jlm/llvm/opt/LoadChainSeparation.cpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/jlm/llvm/opt/LoadChainSeparation.cpp b/jlm/llvm/opt/LoadChainSeparation.cpp
index 11723b1..7348969 100644
--- a/jlm/llvm/opt/LoadChainSeparation.cpp
+++ b/jlm/llvm/opt/LoadChainSeparation.cpp
@@ -439,6 +439,7 @@ LoadChainSeparation::traceModRefChains(rvsdg::Output & startOutput, ModRefChainS
               {
                 // FIXME: I really would like that state edges through calls would be recognized as
                 // either modifying or just referencing.
+                hasModRefChainLinkAboveInRegion = true;
                 traceModRefChains(*CallOperation::GetMemoryStateInput(node).origin(), summary);
                 doneTracing = true;
               },
-- 
2.43.0


From 79b39750d631a71f92e3719b70058f7ae06eb7cc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:16:55 +0000
Subject: [PATCH 08/33] fix: unroll loops that are executed only once

---
 jlm/llvm/opt/unroll.cpp | 24 ++++++++++++++++++------
 1 file changed, 18 insertions(+), 6 deletions(-)

diff --git a/jlm/llvm/opt/unroll.cpp b/jlm/llvm/opt/unroll.cpp
index b135cc6..54f60ea 100644
--- a/jlm/llvm/opt/unroll.cpp
+++ b/jlm/llvm/opt/unroll.cpp
@@ -125,6 +125,10 @@ LoopUnrollInfo::niterations() const noexcept
   if (range.is_negative())
     return nullptr;
 
+  // The body of a theta is always executed once, even if the end value was already reached.
+  if (range == 0 || step == 0)
+    return nullptr;
+
   if (range.umod(step) != 0)
     return nullptr;
 
@@ -385,17 +389,23 @@ create_unrolled_theta_predicate(
 }
 
 static jlm::rvsdg::Output *
-create_residual_gamma_predicate(const rvsdg::SubstitutionMap & smap, const LoopUnrollInfo & ui)
+create_residual_gamma_predicate(
+    rvsdg::GammaNode & gamma,
+    const rvsdg::SubstitutionMap & smap,
+    const LoopUnrollInfo & ui)
 {
-  auto region = ui.theta()->region();
+  auto region = gamma.subregion(1);
   auto idv = &smap.lookup(*ui.theta()->MapPreLoopVar(*ui.idv()).output);
-  auto end = ui.theta()->MapPreLoopVar(*ui.end()).input->origin();
+  auto end = &smap.lookup(*ui.theta()->MapPreLoopVar(*ui.end()).output);
 
   /* FIXME: order of operands */
   auto cmp = rvsdg::SimpleNode::Create(*region, ui.cmpoperation().copy(), { idv, end }).output(0);
   auto & predNode = rvsdg::MatchOperation::CreateNode(*cmp, { { 1, 1 } }, 0, 2);
 
-  return predNode.output(0);
+  // The loop body is executed at least once. Thus, the residual loop must be entered if the unrolled
+  // loop was not.
+  auto & enter = rvsdg::ControlConstantOperation::create(*gamma.subregion(0), 2, 1);
+  return gamma.AddExitVar({ &enter, predNode.output(0) }).output;
 }
 
 static void
@@ -405,6 +415,7 @@ unroll_unknown_theta(const LoopUnrollInfo & ui, size_t factor)
 
   /* handle gamma with unrolled loop */
   rvsdg::SubstitutionMap smap;
+  rvsdg::Output * residualPredicate = nullptr;
   {
     auto pred = create_unrolled_gamma_predicate(ui, factor);
     auto ngamma = rvsdg::GammaNode::create(pred, 2);
@@ -440,12 +451,13 @@ unroll_unknown_theta(const LoopUnrollInfo & ui, size_t factor)
           ngamma->AddExitVar({ &rmap[0].lookup(*olv.output), &rmap[1].lookup(*olv.output) }).output;
       smap.insert(olv.output, xv);
     }
+
+    residualPredicate = create_residual_gamma_predicate(*ngamma, rmap[1], ui);
   }
 
   /* handle gamma for residual iterations */
   {
-    auto pred = create_residual_gamma_predicate(smap, ui);
-    auto ngamma = rvsdg::GammaNode::create(pred, 2);
+    auto ngamma = rvsdg::GammaNode::create(residualPredicate, 2);
     auto ntheta = rvsdg::ThetaNode::create(ngamma->subregion(1));
 
     rvsdg::SubstitutionMap rmap[2];
-- 
2.43.0


From 0824acc04237d89abd745e92c8b27840f6632129 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:16:55 +0000
Subject: [PATCH 09/33] fix: truncate scalar evolution constants to the width
 of the operation

---
 jlm/llvm/opt/LoopStrengthReduction.cpp | 21 ++++++++++++++++++---
 1 file changed, 18 insertions(+), 3 deletions(-)

diff --git a/jlm/llvm/opt/LoopStrengthReduction.cpp b/jlm/llvm/opt/LoopStrengthReduction.cpp
index 26b4e3b..c512479 100644
--- a/jlm/llvm/opt/LoopStrengthReduction.cpp
+++ b/jlm/llvm/opt/LoopStrengthReduction.cpp
@@ -17,6 +17,22 @@
 
 namespace jlm::llvm
 {
+
+/**
+ * Creates an integer constant of width \p numBits. The values of a scalar evolution are computed with
+ * 64 bits, and are therefore truncated to the width of the operations they were derived from.
+ */
+static rvsdg::Node &
+createTruncatedConstant(rvsdg::Region & region, const size_t numBits, const int64_t value)
+{
+  if (numBits >= 64)
+    return IntegerConstantOperation::Create(region, numBits, value);
+
+  return IntegerConstantOperation::Create(
+      region,
+      rvsdg::BitValueRepresentation(64, value).slice(0, numBits));
+}
+
 class LoopStrengthReduction::Context final
 {
 public:
@@ -366,8 +382,7 @@ LoopStrengthReduction::HoistSCEVExpresssion(
   if (const auto constant = dynamic_cast<const SCEVConstant *>(&scev))
   {
     const auto value = constant->GetValue();
-    const auto & constantNode =
-        IntegerConstantOperation::Create(*thetaNode.region(), numBits, value);
+    const auto & constantNode = createTruncatedConstant(*thetaNode.region(), numBits, value);
 
     return constantNode.output(0);
   }
@@ -546,7 +561,7 @@ LoopStrengthReduction::CreateNewArithmeticInductionVariable(
     {
       const auto stepValue = stepConstant->GetValue();
       const auto & stepValueNode =
-          IntegerConstantOperation::Create(*thetaNode.subregion(), numBits, stepValue);
+          createTruncatedConstant(*thetaNode.subregion(), numBits, stepValue);
       stepOutput = stepValueNode.output(0);
     }
     else if (const auto stepInit = dynamic_cast<const SCEVInit *>(stepSCEV.get()))
-- 
2.43.0


From ea6c88fe932888fd9ae76619ec24451f9b37bd3a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:25:39 +0000
Subject: [PATCH 10/33] fix: do not hoist allocas out of loops

---
 jlm/llvm/opt/push.cpp | 16 +++++++++++++++-
 1 file changed, 15 insertions(+), 1 deletion(-)

diff --git a/jlm/llvm/opt/push.cpp b/jlm/llvm/opt/push.cpp
index 6f9fc19..c704421 100644
--- a/jlm/llvm/opt/push.cpp
+++ b/jlm/llvm/opt/push.cpp
@@ -3,6 +3,7 @@
  * See COPYING for terms of redistribution.
  */
 
+#include <jlm/llvm/ir/operators/alloca.hpp>
 #include <jlm/llvm/ir/operators/delta.hpp>
 #include <jlm/llvm/ir/RvsdgModule.hpp>
 #include <jlm/llvm/opt/push.hpp>
@@ -217,8 +218,21 @@ NodeHoisting::computeTargetRegion(const rvsdg::Node & node) const
     greatestCommonTargetRegion = &targetRegion;
   }
 
-  // Return the lowestmost common target region in the region tree among all inputs
   JLM_ASSERT(greatestCommonTargetRegion);
+
+  // An alloca creates a new object in every loop iteration. It must not be hoisted out of a loop.
+  if (is<AllocaOperation>(&node))
+  {
+    auto region = node.region();
+    while (region != greatestCommonTargetRegion
+           && dynamic_cast<const rvsdg::ThetaNode *>(region->node()) == nullptr)
+    {
+      region = region->node()->region();
+    }
+    return *region;
+  }
+
+  // Return the lowestmost common target region in the region tree among all inputs
   return *greatestCommonTargetRegion;
 }
 
-- 
2.43.0


From 298e87b1c3e63e0576313dbeade0b8a10ee7a9b7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:25:39 +0000
Subject: [PATCH 11/33] fix: convert conditionals whose match always selects
 the same alternative

---
 jlm/llvm/opt/IfConversion.cpp | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/jlm/llvm/opt/IfConversion.cpp b/jlm/llvm/opt/IfConversion.cpp
index 4de2310..01bc3af 100644
--- a/jlm/llvm/opt/IfConversion.cpp
+++ b/jlm/llvm/opt/IfConversion.cpp
@@ -143,7 +143,13 @@ IfConversion::HandleGammaNode(const rvsdg::GammaNode & gammaNode)
       const auto caseSubregion = matchOperation->begin()->second;
       const auto defaultSubregion = matchOperation->default_alternative();
       const auto numMatchBits = matchOperation->nbits();
-      JLM_ASSERT(caseSubregion != defaultSubregion);
+
+      if (caseSubregion == defaultSubregion)
+      {
+        // The same subregion is always executed. No select is needed.
+        gammaOutput->divert_users(caseSubregion == 0 ? origin0 : origin1);
+        continue;
+      }
 
       if (numMatchBits == 1 && caseValue == caseSubregion)
       {
-- 
2.43.0


From 32914898c7e286b51473c03ea20ef2a9bdf3dc0e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:25:39 +0000
Subject: [PATCH 12/33] fix: only split aggregate allocas whose accesses stay
 within one element

---
 jlm/llvm/opt/AggregateAllocaSplitting.cpp | 73 +++++++++++++++++++----
 jlm/llvm/opt/AggregateAllocaSplitting.hpp |  2 +-
 2 files changed, 63 insertions(+), 12 deletions(-)

diff --git a/jlm/llvm/opt/AggregateAllocaSplitting.cpp b/jlm/llvm/opt/AggregateAllocaSplitting.cpp
index 22961b0..27e44f4 100644
--- a/jlm/llvm/opt/AggregateAllocaSplitting.cpp
+++ b/jlm/llvm/opt/AggregateAllocaSplitting.cpp
@@ -106,19 +106,42 @@ AggregateAllocaSplitting::isSplitableType(const rvsdg::Type & type)
 
   for (const auto & elementType : structType->elementTypes())
   {
-    if (IsAggregateType(*elementType))
+    if (IsAggregateType(*elementType) && !isSplitableType(*elementType))
     {
-      return isSplitableType(*elementType);
+      return false;
     }
   }
 
   return true;
 }
 
+/**
+ * @return The type of the element that \p indices designate in a value of type \p structType, or
+ * nullptr if they do not designate an element that is given its own alloca.
+ */
+static const rvsdg::Type *
+tryGetElementType(const StructType & structType, const std::vector<uint64_t> & indices)
+{
+  if (indices.size() < 2 || indices[0] != 0)
+    return nullptr;
+
+  const rvsdg::Type * type = &structType;
+  for (size_t n = 1; n < indices.size(); n++)
+  {
+    const auto elementStructType = dynamic_cast<const StructType *>(type);
+    if (!elementStructType || indices[n] >= elementStructType->numElements())
+      return nullptr;
+
+    type = elementStructType->getElementType(indices[n]).get();
+  }
+
+  return rvsdg::is<StructType>(*type) ? nullptr : type;
+}
+
 std::optional<AggregateAllocaSplitting::AllocaTraceInfo>
 AggregateAllocaSplitting::isSplitable(rvsdg::SimpleNode & allocaNode)
 {
-  [[maybe_unused]] auto allocaOperation =
+  auto allocaOperation =
       dynamic_cast<const AllocaOperation *>(&allocaNode.GetOperation());
   JLM_ASSERT(allocaOperation && isSplitableType(*allocaOperation->allocatedType()));
 
@@ -132,10 +155,14 @@ AggregateAllocaSplitting::isSplitable(rvsdg::SimpleNode & allocaNode)
     return std::nullopt;
   }
 
+  const auto & structType = *util::assertedCast<const StructType>(
+      allocaOperation->allocatedType().get());
+
   bool isSplitable = true;
   AllocaTraceInfo allocaTraceInfo(allocaNode);
 
-  util::HashSet<rvsdg::Output *> seen;
+  util::HashSet<const rvsdg::Output *> seen{ &address };
+  std::vector<const rvsdg::Output *> mergedOutputs;
   std::deque<rvsdg::Output *> toVisit{ &address };
   auto addToVisitSet = [&](rvsdg::Output & output)
   {
@@ -175,6 +202,8 @@ AggregateAllocaSplitting::isSplitable(rvsdg::SimpleNode & allocaNode)
             {
               auto & gammaOutput = gammaNode.mapBranchResultToOutput(user);
               addToVisitSet(gammaOutput);
+              for (auto result : gammaNode.MapOutputExitVar(gammaOutput).branchResult)
+                mergedOutputs.push_back(result->origin());
               return true;
             },
             [&](const rvsdg::ThetaNode & thetaNode)
@@ -182,6 +211,7 @@ AggregateAllocaSplitting::isSplitable(rvsdg::SimpleNode & allocaNode)
               const auto loopVar = thetaNode.MapPostLoopVar(user);
               addToVisitSet(*loopVar.pre);
               addToVisitSet(*loopVar.output);
+              mergedOutputs.push_back(loopVar.input->origin());
               return true;
             },
             [&](const rvsdg::LambdaNode &)
@@ -222,6 +252,7 @@ AggregateAllocaSplitting::isSplitable(rvsdg::SimpleNode & allocaNode)
             {
               const auto loopVar = thetaNode.MapInputLoopVar(user);
               addToVisitSet(*loopVar.pre);
+              mergedOutputs.push_back(loopVar.post->origin());
               return true;
             },
             [&](rvsdg::SimpleNode & simpleNode)
@@ -232,7 +263,13 @@ AggregateAllocaSplitting::isSplitable(rvsdg::SimpleNode & allocaNode)
                   [&](const GetElementPtrOperation &)
                   {
                     JLM_ASSERT(userNode->input(0) == &user);
-                    JLM_ASSERT(GetElementPtrOperation::tryGetAsConstant(simpleNode).has_value());
+                    const auto gepConstant = GetElementPtrOperation::tryGetAsConstant(simpleNode);
+                    if (!gepConstant.has_value() || *gepConstant->pointeeType != structType
+                        || !tryGetElementType(structType, gepConstant->indices))
+                    {
+                      return false;
+                    }
+
                     allocaTraceInfo.allocaConsumers.push_back(&simpleNode);
                     return true;
                   },
@@ -259,9 +296,18 @@ AggregateAllocaSplitting::isSplitable(rvsdg::SimpleNode & allocaNode)
   if (!isSplitable)
     return std::nullopt;
 
+  // The address must not be mixed with any other address in gamma and theta nodes
+  for (const auto output : mergedOutputs)
+  {
+    if (!seen.Contains(output))
+      return std::nullopt;
+  }
+
   for (const auto allocaConsumer : allocaTraceInfo.allocaConsumers)
   {
-    if (!checkGetElementPtrUsers(*allocaConsumer))
+    const auto gepConstant = GetElementPtrOperation::tryGetAsConstant(*allocaConsumer);
+    const auto elementType = tryGetElementType(structType, gepConstant->indices);
+    if (!checkGetElementPtrUsers(*allocaConsumer, *elementType))
       return std::nullopt;
   }
 
@@ -269,8 +315,11 @@ AggregateAllocaSplitting::isSplitable(rvsdg::SimpleNode & allocaNode)
 }
 
 bool
-AggregateAllocaSplitting::checkGetElementPtrUsers(const rvsdg::SimpleNode & gepNode)
+AggregateAllocaSplitting::checkGetElementPtrUsers(
+    const rvsdg::SimpleNode & gepNode,
+    const rvsdg::Type & elementType)
 {
+  const auto elementSize = GetTypeStoreSize(elementType);
   [[maybe_unused]] auto gepOperation =
       dynamic_cast<const GetElementPtrOperation *>(&gepNode.GetOperation());
   auto & address = *gepNode.output(0);
@@ -370,16 +419,18 @@ AggregateAllocaSplitting::checkGetElementPtrUsers(const rvsdg::SimpleNode & gepN
               auto & operation = simpleNode.GetOperation();
               return rvsdg::MatchTypeWithDefault(
                   operation,
-                  [&](const LoadOperation &)
+                  [&](const LoadOperation & loadOperation)
                   {
-                    return true;
+                    // The load must not access any other element
+                    return GetTypeStoreSize(*loadOperation.GetLoadedType()) <= elementSize;
                   },
-                  [&](const StoreOperation &)
+                  [&](const StoreOperation & storeOperation)
                   {
                     if (&user != &StoreOperation::AddressInput(simpleNode))
                       return false;
 
-                    return true;
+                    // The store must not access any other element
+                    return GetTypeStoreSize(storeOperation.GetStoredType()) <= elementSize;
                   },
                   [&](const IOBarrierOperation &)
                   {
diff --git a/jlm/llvm/opt/AggregateAllocaSplitting.hpp b/jlm/llvm/opt/AggregateAllocaSplitting.hpp
index 6eb409a..549f306 100644
--- a/jlm/llvm/opt/AggregateAllocaSplitting.hpp
+++ b/jlm/llvm/opt/AggregateAllocaSplitting.hpp
@@ -44,7 +44,7 @@ private:
   splitAllocaNode(const AllocaTraceInfo & allocaTraceInfo);
 
   static bool
-  checkGetElementPtrUsers(const rvsdg::SimpleNode & gepNode);
+  checkGetElementPtrUsers(const rvsdg::SimpleNode & gepNode, const rvsdg::Type & elementType);
 
   static std::optional<AllocaTraceInfo>
   isSplitable(rvsdg::SimpleNode & allocaNode);
-- 
2.43.0


From d8e3113f9272d8c1c03f3acbb1e6419575bb5f2f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:33:40 +0000
Subject: [PATCH 13/33] fix: order memory states with the external state when
 inlining

---
 jlm/llvm/opt/inlining.cpp | 74 ++++++++++++++++++++++++++++++++++-----
 1 file changed, 65 insertions(+), 9 deletions(-)

diff --git a/jlm/llvm/opt/inlining.cpp b/jlm/llvm/opt/inlining.cpp
index a4eebf7..110f2c2 100644
--- a/jlm/llvm/opt/inlining.cpp
+++ b/jlm/llvm/opt/inlining.cpp
@@ -11,6 +11,7 @@
 #include <jlm/llvm/ir/operators/operators.hpp>
 #include <jlm/llvm/ir/RvsdgModule.hpp>
 #include <jlm/llvm/ir/Trace.hpp>
+#include <jlm/llvm/opt/alias-analyses/PointsToGraph.hpp>
 #include <jlm/llvm/opt/inlining.hpp>
 #include <jlm/rvsdg/gamma.hpp>
 #include <jlm/rvsdg/MatchType.hpp>
@@ -154,6 +155,9 @@ routeContextVariablesToRegion(rvsdg::Region & region, const rvsdg::LambdaNode &
  * states into the function body directly. Memory state IDs that are unused within the function,
  * such as [9] in the example above, are instead routed around from the call merge.
  * Memory states IDs that only exist inside the function body are given undef nodes.
+ *
+ * A memory state ID that only exists on one side can be represented by the state of the external
+ * memory node on the other side. It is then ordered with that state.
  * @param callEntryMerge the call entry merge node in the diagram above
  * @param callExitSplit the call exit split node in the diagram above
  */
@@ -186,6 +190,31 @@ tryRerouteMemoryStateMergeAndSplit(
   if (!lambdaExitSplitOp)
     return;
 
+  // Any memory node can be represented by the external memory node's state in one of the functions,
+  // while it has a distinct memory state in the other. Find the memory nodes that are only distinct
+  // on one side, and therefore need to be ordered with the external memory node's state on the other
+  constexpr auto externalId = aa::PointsToGraph::externalMemoryNode;
+  auto & region = *callEntryMerge.region();
+  const auto callEntryExternal =
+      CallEntryMemoryStateMergeOperation::tryMapMemoryNodeIdToInput(callEntryMerge, externalId);
+  const auto callEntryExternalOrigin = callEntryExternal ? callEntryExternal->origin() : nullptr;
+  const auto lambdaEntryExternal = LambdaEntryMemoryStateSplitOperation::tryMapMemoryNodeIdToOutput(
+      *lambdaEntrySplit,
+      externalId);
+  const auto lambdaExitExternal = LambdaExitMemoryStateMergeOperation::tryMapMemoryNodeIdToInput(
+      *lambdaExitSplit,
+      externalId);
+  const bool isExternalInvariant = !lambdaEntryExternal || !lambdaExitExternal
+                                || lambdaExitExternal->origin() == lambdaEntryExternal;
+
+  const auto joinStates = [&](const std::vector<rvsdg::Output *> & states) -> rvsdg::Output *
+  {
+    if (states.empty())
+      return UndefValueOperation::Create(region, MemoryStateType::Create());
+    return states.size() == 1 ? states[0]
+                              : MemoryStateJoinOperation::CreateNode(states).output(0);
+  };
+
   // For each memory state output of the lambdaEntrySplit, move its users or create undef nodes
   for (auto & output : lambdaEntrySplit->Outputs())
   {
@@ -193,16 +222,26 @@ tryRerouteMemoryStateMergeAndSplit(
     auto mergeInput = CallEntryMemoryStateMergeOperation::tryMapMemoryNodeIdToInput(
         callEntryMerge,
         memoryStateId);
+
+    std::vector<rvsdg::Output *> states;
     if (mergeInput)
+      states.push_back(mergeInput->origin());
+    else if (callEntryExternalOrigin)
+      states.push_back(callEntryExternalOrigin);
+
+    if (memoryStateId == externalId && !isExternalInvariant)
     {
-      output.divert_users(mergeInput->origin());
-    }
-    else
-    {
-      // The call has no matching memory state going into it, so we create an undef node
-      const auto undef = UndefValueOperation::Create(*output.region(), output.Type());
-      output.divert_users(undef);
+      const auto callEntryIds = callEntryMergeOp->getMemoryNodeIds();
+      for (auto & input : callEntryMerge.Inputs())
+      {
+        const auto id = callEntryIds[input.index()];
+        if (!LambdaEntryMemoryStateSplitOperation::tryMapMemoryNodeIdToOutput(*lambdaEntrySplit, id))
+          states.push_back(input.origin());
+      }
     }
+
+    // If the call has no matching memory state going into it, an undef node is created
+    output.divert_users(joinStates(states));
   }
 
   // For each memory state output of the callExitSplit, move its users
@@ -212,9 +251,13 @@ tryRerouteMemoryStateMergeAndSplit(
     auto exitMergeInput = LambdaExitMemoryStateMergeOperation::tryMapMemoryNodeIdToInput(
         *lambdaExitSplit,
         memoryStateId);
+    if (!exitMergeInput && !isExternalInvariant)
+      exitMergeInput = lambdaExitExternal;
+
+    std::vector<rvsdg::Output *> states;
     if (exitMergeInput)
     {
-      output.divert_users(exitMergeInput->origin());
+      states.push_back(exitMergeInput->origin());
     }
     else
     {
@@ -224,8 +267,21 @@ tryRerouteMemoryStateMergeAndSplit(
           memoryStateId);
       if (!entryMergeInput)
         throw std::runtime_error("MemoryStateId in call exit split not found in call entry merge");
-      output.divert_users(entryMergeInput->origin());
+      states.push_back(entryMergeInput->origin());
     }
+
+    if (memoryStateId == externalId)
+    {
+      for (auto & input : lambdaExitSplit->Inputs())
+      {
+        const auto id = LambdaExitMemoryStateMergeOperation::mapInputToMemoryNodeId(input);
+        if (!CallExitMemoryStateSplitOperation::tryMapMemoryNodeIdToOutput(callExitSplit, id)
+            && input.origin() != callEntryExternalOrigin)
+          states.push_back(input.origin());
+      }
+    }
+
+    output.divert_users(joinStates(states));
   }
 }
 
-- 
2.43.0


From 3cf27b9d9fda31631d7007e8ce9943343efbf733 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:27:55 +0000
Subject: [PATCH 14/33] fix: ignore dead nodes when unswitching loops

---
 jlm/llvm/opt/LoopUnswitching.cpp | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/jlm/llvm/opt/LoopUnswitching.cpp b/jlm/llvm/opt/LoopUnswitching.cpp
index 33e848a..0380750 100644
--- a/jlm/llvm/opt/LoopUnswitching.cpp
+++ b/jlm/llvm/opt/LoopUnswitching.cpp
@@ -162,6 +162,12 @@ LoopUnswitching::CollectPredicateNodes(
       continue;
 
     const auto depth = depthMap[&node];
+
+    // Neither the predicate nor the inputs of the gamma node depend on nodes that are not above the
+    // gamma node. Such nodes can only be left when they are dead.
+    if (depth >= depthMap[&gammaNode])
+      continue;
+
     if (depth >= nodes.size())
       nodes.resize(depth + 1);
     nodes[depth].push_back(&node);
-- 
2.43.0


From 68bb927c8676c62508f1ebedac0b60deffd91300 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:39:08 +0000
Subject: [PATCH 15/33] fix: do not forward stores to addresses that change
 between loop iterations

---
 jlm/llvm/opt/StoreValueForwarding.cpp | 46 +++++++++++++++++++++++++++
 1 file changed, 46 insertions(+)

diff --git a/jlm/llvm/opt/StoreValueForwarding.cpp b/jlm/llvm/opt/StoreValueForwarding.cpp
index faec2db..d654e77 100644
--- a/jlm/llvm/opt/StoreValueForwarding.cpp
+++ b/jlm/llvm/opt/StoreValueForwarding.cpp
@@ -37,6 +37,8 @@
 #include <memory>
 #include <optional>
 #include <queue>
+#include <unordered_set>
+#include <vector>
 
 namespace jlm::llvm
 {
@@ -299,6 +301,44 @@ StoreValueForwarding::traverseIntraProceduralRegion(rvsdg::Region & region)
   region.prune(false);
 }
 
+/**
+ * Checks if the given \p output has the same value in all iterations of the given \p thetaNode.
+ * The check is conservative.
+ */
+static bool
+isInvariantInTheta(const rvsdg::Output & output, const rvsdg::ThetaNode & thetaNode)
+{
+  std::unordered_set<const rvsdg::Output *> visited;
+  std::vector<const rvsdg::Output *> toVisit{ &output };
+  while (!toVisit.empty())
+  {
+    const auto & traced = llvm::traceOutput(*toVisit.back());
+    toVisit.pop_back();
+    if (!visited.insert(&traced).second)
+      continue;
+
+    // Everything that is defined outside of the loop is invariant
+    if (traced.region() != thetaNode.subregion()
+        && !rvsdg::Region::isAncestor(*traced.region(), *thetaNode.subregion()))
+      continue;
+
+    const auto node = rvsdg::TryGetOwnerNode<rvsdg::SimpleNode>(traced);
+    if (!node)
+      return false;
+
+    // The value of a pure operation is invariant if all its operands are
+    for (auto & other : node->Outputs())
+    {
+      if (other.Type()->Kind() == rvsdg::TypeKind::State)
+        return false;
+    }
+    for (auto & input : node->Inputs())
+      toVisit.push_back(input.origin());
+  }
+
+  return true;
+}
+
 // Enum containing the possible relationships between a load operation and a store node
 enum class StoreNodeInfo
 {
@@ -894,6 +934,12 @@ private:
     {
       const auto loopVar = thetaNode->MapPreLoopVar(tracedOutput);
 
+      // Alias analysis only relates addresses within the same iteration of a loop. If the loaded
+      // address can change between iterations, then nothing is known about the memory operations
+      // that are reached through the back-edge.
+      if (!isInvariantInTheta(*loadedAddress, *thetaNode))
+        return ValueOrigin::createUnknown();
+
       // Trace from the theta input first.
       // When tracing from a theta input, we always set loopBackEdgeTaken=true
       auto inputLastValueOrigin = getLastValueOriginBeforeInput(*loopVar.input, true);
-- 
2.43.0


From 20e3b4a58b9d8eb1b745f5fa20a5e277ca43f747 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:03:13 +0000
Subject: [PATCH 16/33] fix: handle select operations on pointers in Andersen's
 analysis

---
 jlm/llvm/opt/alias-analyses/Andersen.cpp | 22 ++++++++++++++++++++++
 jlm/llvm/opt/alias-analyses/Andersen.hpp |  3 +++
 2 files changed, 25 insertions(+)

diff --git a/jlm/llvm/opt/alias-analyses/Andersen.cpp b/jlm/llvm/opt/alias-analyses/Andersen.cpp
index 8a338f9..67e9efa 100644
--- a/jlm/llvm/opt/alias-analyses/Andersen.cpp
+++ b/jlm/llvm/opt/alias-analyses/Andersen.cpp
@@ -682,6 +682,10 @@ Andersen::AnalyzeSimpleNode(const rvsdg::SimpleNode & node)
       {
         AnalyzeFreeze(node);
       },
+      [&](const SelectOperation &)
+      {
+        AnalyzeSelect(node);
+      },
       [&](const MemCpyOperation &)
       {
         AnalyzeMemcpy(node);
@@ -967,6 +971,24 @@ Andersen::AnalyzeFreeze(const rvsdg::SimpleNode & node)
   Set_->MapRegisterToExistingPointerObject(output, operandPO);
 }
 
+void
+Andersen::AnalyzeSelect(const rvsdg::SimpleNode & node)
+{
+  JLM_ASSERT(is<SelectOperation>(node.GetOperation()));
+  const auto & output = *node.output(0);
+
+  if (!IsOrContainsPointerType(*output.Type()))
+    return;
+
+  // The result is either of the two alternatives
+  const auto outputPO = Set_->CreateRegisterPointerObject(output);
+  for (size_t n = 1; n < node.ninputs(); n++)
+  {
+    const auto operandPO = Set_->GetRegisterPointerObject(*node.input(n)->origin());
+    Constraints_->AddConstraint(SupersetConstraint(outputPO, operandPO));
+  }
+}
+
 void
 Andersen::AnalyzeMemcpy(const rvsdg::SimpleNode & node)
 {
diff --git a/jlm/llvm/opt/alias-analyses/Andersen.hpp b/jlm/llvm/opt/alias-analyses/Andersen.hpp
index dee5a4b..e9e9133 100644
--- a/jlm/llvm/opt/alias-analyses/Andersen.hpp
+++ b/jlm/llvm/opt/alias-analyses/Andersen.hpp
@@ -391,6 +391,9 @@ private:
   void
   AnalyzeFreeze(const rvsdg::SimpleNode & node);
 
+  void
+  AnalyzeSelect(const rvsdg::SimpleNode & node);
+
   void
   AnalyzeMemcpy(const rvsdg::SimpleNode & node);
 
-- 
2.43.0


From 47ec8357fd23b3169f9be0758711b6bf4c2247d6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:22:58 +0000
Subject: [PATCH 17/33] fix: do not report MustAlias for pointers from
 different loop iterations

---
 .../opt/alias-analyses/LocalAliasAnalysis.cpp | 26 ++++++++++++++++++-
 .../opt/alias-analyses/LocalAliasAnalysis.hpp | 11 ++++++++
 2 files changed, 36 insertions(+), 1 deletion(-)

diff --git a/jlm/llvm/opt/alias-analyses/LocalAliasAnalysis.cpp b/jlm/llvm/opt/alias-analyses/LocalAliasAnalysis.cpp
index 4d06444..fa092c4 100644
--- a/jlm/llvm/opt/alias-analyses/LocalAliasAnalysis.cpp
+++ b/jlm/llvm/opt/alias-analyses/LocalAliasAnalysis.cpp
@@ -107,7 +107,8 @@ LocalAliasAnalysis::Query(const rvsdg::Output & p1, size_t s1, const rvsdg::Outp
   {
     const auto & [p1Base, p1Offset] = *p1TraceCollection.TopOrigins.begin();
     const auto & [p2Base, p2Offset] = *p2TraceCollection.TopOrigins.begin();
-    if (p1Base == p2Base)
+    if (p1Base == p2Base && !MayBeFromEarlierIteration(*p1Base, p1TraceCollection)
+        && !MayBeFromEarlierIteration(*p2Base, p2TraceCollection))
       return QueryOffsets(p1Offset, s1, p2Offset, s2);
   }
 
@@ -182,6 +183,29 @@ LocalAliasAnalysis::Query(const rvsdg::Output & p1, size_t s1, const rvsdg::Outp
   return MayAlias;
 }
 
+bool
+LocalAliasAnalysis::MayBeFromEarlierIteration(
+    const rvsdg::Output & base,
+    const TraceCollection & traces)
+{
+  for (auto [output, _] : traces.AllTracedOutputs)
+  {
+    const auto theta = rvsdg::TryGetRegionParentNode<rvsdg::ThetaNode>(*output);
+    if (!theta)
+      continue;
+
+    // The trace went through a loop variable, and thereby to the preceding iteration of the loop
+    auto region = base.region();
+    while (region != theta->subregion() && !region->IsRootRegion())
+      region = region->node()->region();
+
+    if (region == theta->subregion())
+      return true;
+  }
+
+  return false;
+}
+
 AliasAnalysis::AliasQueryResponse
 LocalAliasAnalysis::QueryOffsets(
     std::optional<int64_t> offset1,
diff --git a/jlm/llvm/opt/alias-analyses/LocalAliasAnalysis.hpp b/jlm/llvm/opt/alias-analyses/LocalAliasAnalysis.hpp
index bf2d240..effd037 100644
--- a/jlm/llvm/opt/alias-analyses/LocalAliasAnalysis.hpp
+++ b/jlm/llvm/opt/alias-analyses/LocalAliasAnalysis.hpp
@@ -71,6 +71,17 @@ private:
       std::optional<int64_t> offset2,
       size_t s2);
 
+  /**
+   * Checks if a pointer may be based on a value that \p base had in an earlier iteration of a loop,
+   * and not on the value it has in the current iteration.
+   * @param base a top origin from the trace collection
+   * @param traces the trace collection of the pointer
+   * @return true if tracing the pointer to \p base possibly crossed an iteration of a loop
+   * that contains \p base, false otherwise.
+   */
+  [[nodiscard]] static bool
+  MayBeFromEarlierIteration(const rvsdg::Output & base, const TraceCollection & traces);
+
   /**
    * Checks if the given pointer is the direct result of a memory location defining operation.
    * These operations are guaranteed to output pointers that do not alias any pointer,
-- 
2.43.0


From 284d619d8acae3c2b5a398acfdb8b57e3caef688 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:28:02 +0000
Subject: [PATCH 18/33] fix: trace memory states through memmove when
 separating load chains

---
 jlm/llvm/opt/LoadChainSeparation.cpp | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/jlm/llvm/opt/LoadChainSeparation.cpp b/jlm/llvm/opt/LoadChainSeparation.cpp
index 7348969..6dd1758 100644
--- a/jlm/llvm/opt/LoadChainSeparation.cpp
+++ b/jlm/llvm/opt/LoadChainSeparation.cpp
@@ -428,6 +428,13 @@ LoadChainSeparation::traceModRefChains(rvsdg::Output & startOutput, ModRefChainS
                 currentOutput =
                     MemCpyOperation::mapMemoryStateOutputToInput(*currentOutput).origin();
               },
+              [&](const MemMoveOperation &)
+              {
+                hasModRefChainLinkAboveInRegion = true;
+                currentModRefChain.add({ currentOutput, ModRefChainLink::Type::Modification });
+                currentOutput =
+                    MemMoveOperation::mapMemoryStateOutputToInput(*currentOutput).origin();
+              },
               [&](const MemSetOperation &)
               {
                 hasModRefChainLinkAboveInRegion = true;
-- 
2.43.0


From efe34fb5ff939ec775d05ea4e66ea1d9bed8a734 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:46:37 +0000
Subject: [PATCH 19/33] fix: keep the memory states of allocas that outlive
 their structural node

---
 .../RegionAwareModRefSummarizer.cpp           | 41 ++++++++++++++++---
 .../RegionAwareModRefSummarizer.hpp           |  9 ++++
 2 files changed, 44 insertions(+), 6 deletions(-)

diff --git a/jlm/llvm/opt/alias-analyses/RegionAwareModRefSummarizer.cpp b/jlm/llvm/opt/alias-analyses/RegionAwareModRefSummarizer.cpp
index f06af58..7a6333f 100644
--- a/jlm/llvm/opt/alias-analyses/RegionAwareModRefSummarizer.cpp
+++ b/jlm/llvm/opt/alias-analyses/RegionAwareModRefSummarizer.cpp
@@ -1248,6 +1248,25 @@ RegionAwareModRefSummarizer::getSimpleAllocasReachableFromRegionArguments(
   return getReachableSimpleAllocas(nodes);
 }
 
+util::HashSet<PointsToGraph::NodeIndex>
+RegionAwareModRefSummarizer::getSimpleAllocasReachableFromRegionResults(
+    const rvsdg::Region & region)
+{
+  const auto & pointsToGraph = Context_->pointsToGraph;
+
+  // Start by finding initial register nodes
+  std::queue<PointsToGraph::NodeIndex> nodes;
+  for (auto result : region.Results())
+  {
+    const auto & origin = *result->origin();
+    if (!IsPointerCompatible(origin))
+      continue;
+    nodes.push(pointsToGraph.getNodeForRegister(origin));
+  }
+
+  return getReachableSimpleAllocas(nodes);
+}
+
 util::HashSet<PointsToGraph::NodeIndex>
 RegionAwareModRefSummarizer::getSimpleAllocasReachableFromCallArguments(
     const rvsdg::SimpleNode & call)
@@ -1303,13 +1322,23 @@ RegionAwareModRefSummarizer::CreateNonReentrantAllocaSets()
     auto & allocaNode = pointsToGraph.getAllocaForNode(simpleAllocaPtgNode);
     const auto & region = *allocaNode.region();
 
-    // If the alloca's function is never involved in any recursion,
-    // the alloca is trivially non-reentrant.
-    const auto & lambda = getSurroundingLambdaNode(allocaNode);
-    if (!IsRecursionPossible(lambda))
-      return true;
+    if (rvsdg::is<rvsdg::LambdaOperation>(region.node()))
+    {
+      // If the alloca's function is never involved in any recursion,
+      // the alloca is trivially non-reentrant.
+      const auto & lambda = getSurroundingLambdaNode(allocaNode);
+      if (!IsRecursionPossible(lambda))
+        return true;
+    }
+    else
+    {
+      // The alloca is still alive when its region is left. It must therefore not be reachable after
+      // the structural node.
+      if (getSimpleAllocasReachableFromRegionResults(region).Contains(simpleAllocaPtgNode))
+        return false;
+    }
 
-    // In lambdas where recursion is possible, simple allocas that are reachable from
+    // In loops, and in lambdas where recursion is possible, simple allocas that are reachable from
     // region arguments via edges in the points-to graph must be considered reentrant.
     if (getReachableSimpleAllocas(region).Contains(simpleAllocaPtgNode))
       return false;
diff --git a/jlm/llvm/opt/alias-analyses/RegionAwareModRefSummarizer.hpp b/jlm/llvm/opt/alias-analyses/RegionAwareModRefSummarizer.hpp
index 9faa498..4c26b8b 100644
--- a/jlm/llvm/opt/alias-analyses/RegionAwareModRefSummarizer.hpp
+++ b/jlm/llvm/opt/alias-analyses/RegionAwareModRefSummarizer.hpp
@@ -145,6 +145,15 @@ private:
   util::HashSet<PointsToGraph::NodeIndex>
   getSimpleAllocasReachableFromRegionArguments(const rvsdg::Region & region);
 
+  /**
+   * Traverses along PointsToGraph edges to find all simple allocas that are reachable from the
+   * results of the given \p region.
+   * @param region the region to start from
+   * @return a set containing all memory nodes representing reachable simple allocas
+   */
+  util::HashSet<PointsToGraph::NodeIndex>
+  getSimpleAllocasReachableFromRegionResults(const rvsdg::Region & region);
+
   /**
    * Gets the set of simple alloca nodes that are reachable from the \p call's arguments.
    * Reachability is defined in terms of the \ref PointsToGraph.
-- 
2.43.0


From 1330560af3f94681c69bb194d3db3f9872993d13 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:51:20 +0000
Subject: [PATCH 20/33] fix: keep all out-edges of the predecessor when T2
 merges CFG nodes in is_reducible

The T2 transformation merged a node into its only predecessor but dropped
the other out-edges of the predecessor, so that irreducible graphs were
reported as reducible.
---
 jlm/llvm/ir/cfg-structure.cpp | 10 +++++++---
 1 file changed, 7 insertions(+), 3 deletions(-)

diff --git a/jlm/llvm/ir/cfg-structure.cpp b/jlm/llvm/ir/cfg-structure.cpp
index a8f0a2b..c0d026a 100644
--- a/jlm/llvm/ir/cfg-structure.cpp
+++ b/jlm/llvm/ir/cfg-structure.cpp
@@ -399,10 +399,14 @@ reduce_T2(
 {
   JLM_ASSERT(is_T2(node));
 
+  // merge the node into its only predecessor
   auto p = node->InEdges().begin()->source();
-  p->divert_inedges(node);
-  p->remove_outedges();
-  to_visit.erase(p);
+  while (node->NumInEdges() != 0)
+    p->remove_outedge(node->InEdges().begin()->index());
+  for (auto & outedge : node->OutEdges())
+    p->add_outedge(outedge.sink());
+  node->remove_outedges();
+  to_visit.erase(node);
 }
 
 static inline bool
-- 
2.43.0


From 87b12072ba0cf84a28e6846beac799861f12362b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:51:20 +0000
Subject: [PATCH 21/33] fix: a tail-controlled loop must not have further edges
 leaving its tail

The exit edge and repetition edge were required to leave the same node, but
not that this node has no other out-edges. A switch with further edges back
into the loop was treated as a tail-controlled loop and crashed jlm-opt.
---
 jlm/llvm/ir/cfg-structure.cpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/jlm/llvm/ir/cfg-structure.cpp b/jlm/llvm/ir/cfg-structure.cpp
index c0d026a..28fb7a7 100644
--- a/jlm/llvm/ir/cfg-structure.cpp
+++ b/jlm/llvm/ir/cfg-structure.cpp
@@ -29,7 +29,8 @@ bool
 StronglyConnectedComponentStructure::IsTailControlledLoop() const noexcept
 {
   return NumEntryNodes() == 1 && NumRepetitionEdges() == 1 && NumExitEdges() == 1
-      && (*RepetitionEdges().begin())->source() == (*ExitEdges().begin())->source();
+      && (*RepetitionEdges().begin())->source() == (*ExitEdges().begin())->source()
+      && (*ExitEdges().begin())->source()->NumOutEdges() == 2;
 }
 
 std::unique_ptr<StronglyConnectedComponentStructure>
-- 
2.43.0


From 8f4d5aa341b152cfa0c435f45bd66271815b03ca Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:16:46 +0000
Subject: [PATCH 22/33] fix: registers that may point to external are not
 direct nodes in the OVS subset graph

---
 jlm/llvm/opt/alias-analyses/PointerObjectSet.cpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/jlm/llvm/opt/alias-analyses/PointerObjectSet.cpp b/jlm/llvm/opt/alias-analyses/PointerObjectSet.cpp
index 819e794..89c6902 100644
--- a/jlm/llvm/opt/alias-analyses/PointerObjectSet.cpp
+++ b/jlm/llvm/opt/alias-analyses/PointerObjectSet.cpp
@@ -1261,7 +1261,8 @@ PointerObjectConstraintSet::CreateOvsSubsetGraph()
 
   // Nodes representing registers can be direct nodes, but only if they have empty points-to sets
   for (auto [_, index] : Set_.GetRegisterMap())
-    isDirectNode[index] = Set_.GetPointsToSet(index).IsEmpty();
+    isDirectNode[index] =
+        Set_.GetPointsToSet(index).IsEmpty() && !Set_.IsPointingToExternal(index);
 
   // Mark all function argument register nodes as not direct
   for (auto [lambda, _] : Set_.GetFunctionMap())
-- 
2.43.0


From 0830d542ff1dffad23f420a221f2e067adce20dc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:16:54 +0000
Subject: [PATCH 23/33] fix: no edge between dereference nodes of subset
 constraints in the OVS subset graph

---
 jlm/llvm/opt/alias-analyses/PointerObjectSet.cpp | 5 ++---
 1 file changed, 2 insertions(+), 3 deletions(-)

diff --git a/jlm/llvm/opt/alias-analyses/PointerObjectSet.cpp b/jlm/llvm/opt/alias-analyses/PointerObjectSet.cpp
index 89c6902..4d6996d 100644
--- a/jlm/llvm/opt/alias-analyses/PointerObjectSet.cpp
+++ b/jlm/llvm/opt/alias-analyses/PointerObjectSet.cpp
@@ -1283,9 +1283,8 @@ PointerObjectConstraintSet::CreateOvsSubsetGraph()
       auto superset = Set_.GetUnificationRoot(supersetConstraint->GetSuperset());
 
       successors[subset].insert(superset);
-      // Also add an edge for *subset -> *superset, from the original OVS paper.
-      // It is not mentioned in Hardekopf and Lin, 2007: The Ant and the Grasshopper.
-      successors[subset + derefNodeOffset].insert(superset + derefNodeOffset);
+      // There is no edge for *subset -> *superset, as in the original OVS paper: if superset has
+      // more pointees than subset, they must not be unified with what *subset is in a cycle with.
     }
     else if (auto * storeConstraint = std::get_if<StoreConstraint>(&constraint))
     {
-- 
2.43.0


From 99956ca43b84010e5b4c31b2907a3e79113565eb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:21:38 +0000
Subject: [PATCH 24/33] fix: summarize memmove in the agnostic mod/ref
 summarizer

---
 jlm/llvm/opt/alias-analyses/AgnosticModRefSummarizer.cpp | 9 +++++++++
 1 file changed, 9 insertions(+)

diff --git a/jlm/llvm/opt/alias-analyses/AgnosticModRefSummarizer.cpp b/jlm/llvm/opt/alias-analyses/AgnosticModRefSummarizer.cpp
index 602d8ae..fc2e8c8 100644
--- a/jlm/llvm/opt/alias-analyses/AgnosticModRefSummarizer.cpp
+++ b/jlm/llvm/opt/alias-analyses/AgnosticModRefSummarizer.cpp
@@ -255,6 +255,15 @@ AgnosticModRefSummarizer::AnnotateSimpleNode(const rvsdg::SimpleNode & node)
         AddPointerTargetsToModRefSet(dstAddress, ModRefEffect::ModOnly, modRefSet);
         ModRefSummary_->SetSimpleNodeModRef(node, std::move(modRefSet));
       },
+      [&](const MemMoveOperation &)
+      {
+        AgnosticModRefSet modRefSet;
+        const auto & srcAddress = *MemMoveOperation::sourceInput(node).origin();
+        const auto & dstAddress = *MemMoveOperation::destinationInput(node).origin();
+        AddPointerTargetsToModRefSet(srcAddress, ModRefEffect::RefOnly, modRefSet);
+        AddPointerTargetsToModRefSet(dstAddress, ModRefEffect::ModOnly, modRefSet);
+        ModRefSummary_->SetSimpleNodeModRef(node, std::move(modRefSet));
+      },
       [&](const MemSetOperation &)
       {
         AgnosticModRefSet modRefSet;
-- 
2.43.0


From b4ed1b5b07d865aa45bb5cab9cf00f3ac8fd78f7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:40:46 +0000
Subject: [PATCH 25/33] fix: HashSet::IsSubsetOf must look for its own items in
 the other set

---
 jlm/util/HashSet.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/jlm/util/HashSet.hpp b/jlm/util/HashSet.hpp
index de020cb..b317854 100644
--- a/jlm/util/HashSet.hpp
+++ b/jlm/util/HashSet.hpp
@@ -167,7 +167,7 @@ public:
       return false;
     }
 
-    for (auto & item : other.Items())
+    for (auto & item : Items())
     {
       if (!other.Contains(item))
       {
-- 
2.43.0


From c46703dbb1cbeb86f6392c2941ee819980bb6302 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:46:04 +0000
Subject: [PATCH 26/33] fix: divisions of bit constants with unknown bits have
 an unknown result

---
 jlm/rvsdg/bitstring/value-representation.hpp | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/jlm/rvsdg/bitstring/value-representation.hpp b/jlm/rvsdg/bitstring/value-representation.hpp
index c68a588..0ff15b0 100644
--- a/jlm/rvsdg/bitstring/value-representation.hpp
+++ b/jlm/rvsdg/bitstring/value-representation.hpp
@@ -220,6 +220,14 @@ private:
     if (divisor.nbits() == 0)
       throw util::Error("Division by zero.");
 
+    // Nothing is known about the result of a division if one of its operands is not fully known
+    if (!is_known() || !divisor.is_known())
+    {
+      quotient = repeat(nbits(), 'X');
+      remainder = repeat(nbits(), 'X');
+      return;
+    }
+
     for (size_t n = 0; n < nbits(); n++)
     {
       remainder = remainder.shl(1);
-- 
2.43.0


From 0fb22cab3ee08c3c6b1131881da6619b6c8e693e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:07:06 +0000
Subject: [PATCH 27/33] fix: keep the number of inputs up to date while
 removing inputs of a node

---
 jlm/rvsdg/node.cpp | 18 +++++++++---------
 1 file changed, 9 insertions(+), 9 deletions(-)

diff --git a/jlm/rvsdg/node.cpp b/jlm/rvsdg/node.cpp
index f58d797..1f0d35d 100644
--- a/jlm/rvsdg/node.cpp
+++ b/jlm/rvsdg/node.cpp
@@ -305,29 +305,29 @@ Node::addInput(std::unique_ptr<NodeInput> input, bool notifyRegion)
 size_t
 Node::RemoveInputs(const util::HashSet<size_t> & indices)
 {
-  if (indices.IsEmpty())
+  if (indices.IsEmpty() || ninputs() == 0)
   {
     return 0;
   }
 
+  // Observers rely on the number of inputs of the node being up to date whenever they are notified.
+  // Each input is therefore taken out of the list of inputs before the next one is considered.
   size_t numLiveInputs = 0;
   size_t numRemovedInputs = 0;
-  for (size_t n = 0; n < ninputs(); n++)
+  while (numLiveInputs < ninputs())
   {
-    auto & input = inputs_[n];
-    if (indices.Contains(input->index()))
+    const auto input = inputs_.begin() + numLiveInputs;
+    if (indices.Contains((*input)->index()))
     {
-      region()->notifyInputDestroy(input.get());
-      input.reset();
+      region()->notifyInputDestroy(input->get());
+      inputs_.erase(input);
       numRemovedInputs++;
     }
     else
     {
-      input->index_ = numLiveInputs;
-      inputs_[numLiveInputs++] = std::move(input);
+      (*input)->index_ = numLiveInputs++;
     }
   }
-  inputs_.resize(numLiveInputs);
 
   // If we no longer have any inputs we are now a top node
   if (numLiveInputs == 0)
-- 
2.43.0


From 4328524d6bb62bd76e629709696d6c9b500783fe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:15:03 +0000
Subject: [PATCH 28/33] fix: the bottom up traverser never visits nodes created
 during traversal

---
 jlm/rvsdg/traverser.cpp | 12 +++++++++++-
 jlm/rvsdg/traverser.hpp |  4 ++++
 2 files changed, 15 insertions(+), 1 deletion(-)

diff --git a/jlm/rvsdg/traverser.cpp b/jlm/rvsdg/traverser.cpp
index 13c12eb..47f3d53 100644
--- a/jlm/rvsdg/traverser.cpp
+++ b/jlm/rvsdg/traverser.cpp
@@ -313,7 +313,9 @@ template<bool IsConst>
 void
 BottomUpTraverserGeneric<IsConst>::onNodeCreate(NodeType * node)
 {
-  // The new node should never be visited, so activate all its predecessors immediately
+  // The new node should never be visited, so activate all its predecessors immediately.
+  // This also holds for predecessors and users that are connected to the node later on.
+  tracker_.markNodeVisited(node);
   markAsVisited(*node);
 }
 
@@ -459,6 +461,14 @@ TraversalTracker<NodeType>::checkMarkNodeVisitedIfFrontier(NodeType * node)
   }
 }
 
+template<typename NodeType>
+void
+TraversalTracker<NodeType>::markNodeVisited(NodeType * node)
+{
+  checkMarkNodeVisitedIfFrontier(node);
+  states_[node].state = TraversalNodeState::behind;
+}
+
 template<typename NodeType>
 void
 TraversalTracker<NodeType>::incActivationCount(NodeType * node, std::size_t threshold)
diff --git a/jlm/rvsdg/traverser.hpp b/jlm/rvsdg/traverser.hpp
index 5e8ad0e..0f96146 100644
--- a/jlm/rvsdg/traverser.hpp
+++ b/jlm/rvsdg/traverser.hpp
@@ -58,6 +58,10 @@ public:
   void
   checkMarkNodeVisitedIfFrontier(NodeType * node);
 
+  /** \brief Marks a node visited regardless of its current state. */
+  void
+  markNodeVisited(NodeType * node);
+
   /** \brief Increments activation count; adds to frontier if threshold is met. */
   void
   incActivationCount(NodeType * node, std::size_t threshold);
-- 
2.43.0


From 177603c4ce71f79481f87bb2b2076555ed92275f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:21:29 +0000
Subject: [PATCH 29/33] fix: notify the region about the predicate input of a
 new gamma node

---
 jlm/rvsdg/gamma.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/jlm/rvsdg/gamma.cpp b/jlm/rvsdg/gamma.cpp
index 41b1620..ed067a2 100644
--- a/jlm/rvsdg/gamma.cpp
+++ b/jlm/rvsdg/gamma.cpp
@@ -234,7 +234,7 @@ GammaNode::GammaNode(rvsdg::Output & predicate, std::unique_ptr<GammaOperation>
           this,
           &predicate,
           ControlType::Create(Operation_->nalternatives())),
-      false);
+      true);
   for (std::size_t n = 0; n < Operation_->nalternatives(); ++n)
   {
     RegionArgument::Create(*subregion(n), nullptr, Operation_->GetMatchContentType(n));
-- 
2.43.0


From 667762b7a93eca1c6b629a8164d319d05dace1fd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 07:07:49 +0000
Subject: [PATCH 30/33] fix: PhiNode::copy connects the results of the copy and
 maps its outputs

---
 jlm/rvsdg/Phi.cpp | 12 ++++++++----
 1 file changed, 8 insertions(+), 4 deletions(-)

diff --git a/jlm/rvsdg/Phi.cpp b/jlm/rvsdg/Phi.cpp
index f859aba..d659f61 100644
--- a/jlm/rvsdg/Phi.cpp
+++ b/jlm/rvsdg/Phi.cpp
@@ -203,20 +203,24 @@ PhiNode::copy(rvsdg::Region * region, rvsdg::SubstitutionMap & smap) const
   }
 
   // add recursion variables
-  for (auto var : GetFixVars())
+  const auto oldFixVars = GetFixVars();
+  std::vector<FixVar> newFixVars;
+  for (auto & var : oldFixVars)
   {
     auto newrv = pb.AddFixVar(var.recref->Type());
     subregionmap.insert(var.recref, newrv.recref);
+    newFixVars.push_back(newrv);
   }
 
   // copy subregion
   subregion()->copy(pb.subregion(), subregionmap);
 
   // finalize phi
-  for (auto var : GetFixVars())
+  for (size_t n = 0; n < newFixVars.size(); n++)
   {
-    auto neworigin = &subregionmap.lookup(*var.result->origin());
-    var.result->divert_to(neworigin);
+    auto & neworigin = subregionmap.lookup(*oldFixVars[n].result->origin());
+    newFixVars[n].result->divert_to(&neworigin);
+    smap.insert(oldFixVars[n].output, newFixVars[n].output);
   }
 
   return pb.end();
-- 
2.43.0


From f814f1be122b6cf5185b8054d248677c0bb20f30 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 07:07:49 +0000
Subject: [PATCH 31/33] fix: DeltaNode::copy takes the initial value from the
 original's result

---
 jlm/rvsdg/delta.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/jlm/rvsdg/delta.cpp b/jlm/rvsdg/delta.cpp
index 4d9a9b9..90bfa55 100644
--- a/jlm/rvsdg/delta.cpp
+++ b/jlm/rvsdg/delta.cpp
@@ -99,8 +99,8 @@ DeltaNode::copy(rvsdg::Region * region, rvsdg::SubstitutionMap & smap) const
   subregion()->copy(delta->subregion(), subregionmap);
 
   // finalize delta
-  auto result = &subregionmap.lookup(*delta->result().origin());
-  auto o = &delta->finalize(result);
+  auto origin = &subregionmap.lookup(*result().origin());
+  auto o = &delta->finalize(origin);
   smap.insert(&output(), o);
 
   return delta;
-- 
2.43.0


From 885c8a019a5ea7879f134ce20652855eaa138959 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 07:07:49 +0000
Subject: [PATCH 32/33] fix: GammaNode::copy keeps match content types and maps
 match variables

---
 jlm/rvsdg/gamma.cpp | 10 ++++++++--
 1 file changed, 8 insertions(+), 2 deletions(-)

diff --git a/jlm/rvsdg/gamma.cpp b/jlm/rvsdg/gamma.cpp
index ed067a2..25888c0 100644
--- a/jlm/rvsdg/gamma.cpp
+++ b/jlm/rvsdg/gamma.cpp
@@ -477,10 +477,16 @@ GammaNode::RemoveEntryVars(const std::vector<EntryVar> & entryVars)
 GammaNode *
 GammaNode::copy(rvsdg::Region *, SubstitutionMap & smap) const
 {
-  auto gamma = create(&smap.lookup(*predicate()->origin()), nsubregions());
+  auto gamma = new GammaNode(
+      smap.lookup(*predicate()->origin()),
+      std::make_unique<GammaOperation>(GetOperation()));
 
-  /* add entry variables to new gamma */
+  /* map match variable of new gamma */
   std::vector<SubstitutionMap> rmap(nsubregions());
+  for (size_t n = 0; n < nsubregions(); n++)
+    rmap[n].insert(GetMatchVar().matchContent[n], gamma->GetMatchVar().matchContent[n]);
+
+  /* add entry variables to new gamma */
   for (const auto & oev : GetEntryVars())
   {
     auto nev = gamma->AddEntryVar(&smap.lookup(*oev.input->origin()));
-- 
2.43.0


From 781a68ca550614fa2e59e9a77365687522731677 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 07:37:22 +0000
Subject: [PATCH 33/33] fix: do not trace gamma match variables to the
 predicate

---
 jlm/rvsdg/Trace.cpp | 18 ++++++++++++++++--
 1 file changed, 16 insertions(+), 2 deletions(-)

diff --git a/jlm/rvsdg/Trace.cpp b/jlm/rvsdg/Trace.cpp
index dab3551..749f1bd 100644
--- a/jlm/rvsdg/Trace.cpp
+++ b/jlm/rvsdg/Trace.cpp
@@ -53,6 +53,16 @@ mapGammaArgumentToOrigin(GammaNode & gammaNode, Output & output)
   return *gammaNode.mapBranchArgumentToInput(output).origin();
 }
 
+/**
+ * Checks if the given gamma subregion argument is a match variable. Its value is the content that
+ * was matched, not the value of the gamma node's predicate.
+ */
+static bool
+isGammaMatchArgument(const GammaNode & gammaNode, const Output & output)
+{
+  return std::holds_alternative<GammaNode::MatchVar>(gammaNode.MapBranchArgument(output));
+}
+
 Output *
 OutputTracer::tryTraceThroughGamma(GammaNode & gammaNode, Output & output)
 {
@@ -78,8 +88,9 @@ OutputTracer::tryTraceThroughGamma(GammaNode & gammaNode, Output & output)
       tracedInner = &trace(*tracedInner, tracedInner->region());
     }
 
-    // The traced output must reach a region argument in the gamma subregion
-    if (TryGetRegionParentNode<GammaNode>(*tracedInner) != &gammaNode)
+    // The traced output must reach an entry variable argument in the gamma subregion
+    if (TryGetRegionParentNode<GammaNode>(*tracedInner) != &gammaNode
+        || isGammaMatchArgument(gammaNode, *tracedInner))
       return insertInCache(output, nullptr);
 
     // Get the origin of the region argument outside the gamma
@@ -162,6 +173,9 @@ OutputTracer::traceStep(Output & output, const rvsdg::Region * withinRegion)
   // Handle gamma node arguments
   if (const auto gammaNode = TryGetRegionParentNode<GammaNode>(output))
   {
+    if (isGammaMatchArgument(*gammaNode, output))
+      return output;
+
     return mapGammaArgumentToOrigin(*gammaNode, output);
   }
 
-- 
2.43.0

