From 55456dbd5ade6c925ba39107345201adaff3b863 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:48:36 +0000
Subject: [PATCH 01/87] fix: Memory::isAddressValid accepted sizes that wrap
 around

---
 src/core/Memory.cpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/core/Memory.cpp b/src/core/Memory.cpp
index ef75e92..08a0c47 100644
--- a/src/core/Memory.cpp
+++ b/src/core/Memory.cpp
@@ -398,7 +398,8 @@ bool Memory::isAddressValid(size_t address, size_t size) const
   size_t buffer = extractBuffer(address);
   size_t offset = extractOffset(address);
   if (buffer == 0 || buffer >= m_memory.size() || !m_memory[buffer] ||
-      offset + size > m_memory[buffer]->size)
+      offset > m_memory[buffer]->size ||
+      size > m_memory[buffer]->size - offset)
   {
     return false;
   }
-- 
2.43.0


From 38a592719f1111bc0424d03ee9fb6c9e73931099 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:48:36 +0000
Subject: [PATCH 02/87] fix: Memory::getBuffer dereferenced the slot of a freed
 buffer

---
 src/core/Memory.cpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/core/Memory.cpp b/src/core/Memory.cpp
index 08a0c47..b519748 100644
--- a/src/core/Memory.cpp
+++ b/src/core/Memory.cpp
@@ -348,7 +348,8 @@ unsigned int Memory::getAddressSpace() const
 const Memory::Buffer* Memory::getBuffer(size_t address) const
 {
   size_t buf = extractBuffer(address);
-  if (buf == 0 || buf >= m_memory.size() || !m_memory[buf]->data)
+  if (buf == 0 || buf >= m_memory.size() || !m_memory[buf] ||
+      !m_memory[buf]->data)
   {
     return NULL;
   }
-- 
2.43.0


From 06335b49aca87e8eb7d2c3e2f36c4bbeef1971aa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:48:36 +0000
Subject: [PATCH 03/87] fix: Memory::mapBuffer ignored the offset in its bounds
 check

---
 src/core/Memory.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/core/Memory.cpp b/src/core/Memory.cpp
index b519748..715e0c5 100644
--- a/src/core/Memory.cpp
+++ b/src/core/Memory.cpp
@@ -432,7 +432,7 @@ void* Memory::mapBuffer(size_t address, size_t offset, size_t size)
   size_t buffer = extractBuffer(address);
 
   // Bounds check
-  if (!isAddressValid(address, size))
+  if (offset + size < offset || !isAddressValid(address, offset + size))
   {
     return NULL;
   }
-- 
2.43.0


From 0bbda7da10707c0f4717b0653aafba3b49e66932 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:48:36 +0000
Subject: [PATCH 04/87] fix: by-value argument copy read past the end of its
 source allocation

---
 src/core/WorkItem.cpp | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/core/WorkItem.cpp b/src/core/WorkItem.cpp
index 6261b58..132e16a 100644
--- a/src/core/WorkItem.cpp
+++ b/src/core/WorkItem.cpp
@@ -903,8 +903,10 @@ INSTRUCTION(call)
       if (argItr->hasByValAttr())
       {
         // Make new copy of value in private memory
-        void* data = m_privateMemory->getPointer(value.getPointer());
+        void* data = NULL;
         size_t size = getTypeSize(argItr->getParamByValType());
+        if (m_privateMemory->isAddressValid(value.getPointer(), size))
+          data = m_privateMemory->getPointer(value.getPointer());
         size_t ptr = m_privateMemory->allocateBuffer(size, 0, (uint8_t*)data);
         m_position->allocations.top().push_back(ptr);
 
-- 
2.43.0


From b7689e20835bf2a7635b13b4d926559df0667f00 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:08:10 +0000
Subject: [PATCH 05/87] fix: MemCheck ignored the offset of mapped regions

---
 src/plugins/MemCheck.cpp | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/src/plugins/MemCheck.cpp b/src/plugins/MemCheck.cpp
index 7567f26..ca29b36 100644
--- a/src/plugins/MemCheck.cpp
+++ b/src/plugins/MemCheck.cpp
@@ -175,9 +175,9 @@ void MemCheck::checkLoad(const Memory* memory, size_t address,
   for (auto region = m_mapRegions.begin(); region != m_mapRegions.end();
        region++)
   {
-    if (region->type == MapRegion::WRITE &&
-        address < region->address + region->size &&
-        address + size >= region->address)
+    size_t start = region->address + region->offset;
+    if (region->type == MapRegion::WRITE && address < start + region->size &&
+        address + size > start)
     {
       m_context->logError("Invalid read from buffer mapped for writing");
     }
@@ -206,8 +206,8 @@ void MemCheck::checkStore(const Memory* memory, size_t address,
   for (auto region = m_mapRegions.begin(); region != m_mapRegions.end();
        region++)
   {
-    if (address < region->address + region->size &&
-        address + size >= region->address)
+    size_t start = region->address + region->offset;
+    if (address < start + region->size && address + size > start)
     {
       m_context->logError("Invalid write to mapped buffer");
     }
-- 
2.43.0


From 7533c6079e1496adbe295799ae3a637aa3a6fe61 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:14:05 +0000
Subject: [PATCH 06/87] fix: RaceDetector treated an atomic store as uniform
 with a plain store

---
 src/plugins/RaceDetector.cpp | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/src/plugins/RaceDetector.cpp b/src/plugins/RaceDetector.cpp
index 02598f6..873f6ab 100644
--- a/src/plugins/RaceDetector.cpp
+++ b/src/plugins/RaceDetector.cpp
@@ -226,8 +226,9 @@ bool RaceDetector::check(const MemoryAccess& a, const MemoryAccess& b) const
     if (a.isLoad() || b.isLoad())
       return true;
 
-    // Write-write race if not uniform
-    if (!m_allowUniformWrites || (a.getStoreData() != b.getStoreData()))
+    // Write-write race if not uniform (the data of an atomic is not its own)
+    if (!m_allowUniformWrites || a.isAtomic() || b.isAtomic() ||
+        (a.getStoreData() != b.getStoreData()))
       return true;
   }
 
-- 
2.43.0


From 832bfa9631a871f255b7b36760088f11f6d20ad3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:14:05 +0000
Subject: [PATCH 07/87] fix: RaceDetector dropped races between work-groups of
 2D and 3D launches

---
 src/plugins/RaceDetector.cpp | 20 ++++----------------
 src/plugins/RaceDetector.h   |  2 --
 2 files changed, 4 insertions(+), 18 deletions(-)

diff --git a/src/plugins/RaceDetector.cpp b/src/plugins/RaceDetector.cpp
index 873f6ab..3c7efa1 100644
--- a/src/plugins/RaceDetector.cpp
+++ b/src/plugins/RaceDetector.cpp
@@ -168,7 +168,6 @@ void RaceDetector::workGroupComplete(const WorkGroup* workGroup)
   syncWorkItems(m_context->getGlobalMemory(), state, state.wiGlobal);
 
   // Merge global accesses across kernel invocation
-  size_t group = workGroup->getGroupIndex();
   for (auto& record : state.wgGlobal)
   {
     size_t address = record.first;
@@ -180,12 +179,12 @@ void RaceDetector::workGroupComplete(const WorkGroup* workGroup)
     AccessRecord& a = record.second;
     AccessRecord& b = m_globalAccesses.at(buffer)[offset];
 
-    // Check for races with previous accesses
-    if (check(a.load, b.store) && getAccessWorkGroup(b.store) != group)
+    // Check for races with previous accesses (all made by other work-groups)
+    if (check(a.load, b.store))
       insertKernelRace({AddrSpaceGlobal, address, a.load, b.store});
-    if (check(a.store, b.load) && getAccessWorkGroup(b.load) != group)
+    if (check(a.store, b.load))
       insertKernelRace({AddrSpaceGlobal, address, a.store, b.load});
-    if (check(a.store, b.store) && getAccessWorkGroup(b.store) != group)
+    if (check(a.store, b.store))
       insertKernelRace({AddrSpaceGlobal, address, a.store, b.store});
 
     // Insert accesses
@@ -235,17 +234,6 @@ bool RaceDetector::check(const MemoryAccess& a, const MemoryAccess& b) const
   return false;
 }
 
-size_t RaceDetector::getAccessWorkGroup(const MemoryAccess& access) const
-{
-  if (access.isWorkItem())
-  {
-    const Size3& wgsize = m_kernelInvocation->getLocalSize();
-    return access.getEntity() / (wgsize.x * wgsize.y * wgsize.z);
-  }
-  else
-    return access.getEntity();
-}
-
 void RaceDetector::insert(AccessRecord& record,
                           const MemoryAccess& access) const
 {
diff --git a/src/plugins/RaceDetector.h b/src/plugins/RaceDetector.h
index e352c6c..424f31a 100644
--- a/src/plugins/RaceDetector.h
+++ b/src/plugins/RaceDetector.h
@@ -122,8 +122,6 @@ private:
   std::mutex kernelRacesMutex;
   RaceList kernelRaces;
 
-  size_t getAccessWorkGroup(const MemoryAccess& access) const;
-
   bool check(const MemoryAccess& a, const MemoryAccess& b) const;
   void insert(AccessRecord& record, const MemoryAccess& access) const;
   void insertKernelRace(const Race& race);
-- 
2.43.0


From 608393d59c98a58801356c67effa8eebbdddf0a7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:14:28 +0000
Subject: [PATCH 08/87] fix: RaceDetector forgot differing values stored to one
 byte

---
 src/plugins/RaceDetector.cpp | 22 ++++++++++++++++++++--
 src/plugins/RaceDetector.h   |  3 +++
 2 files changed, 23 insertions(+), 2 deletions(-)

diff --git a/src/plugins/RaceDetector.cpp b/src/plugins/RaceDetector.cpp
index 3c7efa1..dc93cc6 100644
--- a/src/plugins/RaceDetector.cpp
+++ b/src/plugins/RaceDetector.cpp
@@ -227,7 +227,7 @@ bool RaceDetector::check(const MemoryAccess& a, const MemoryAccess& b) const
 
     // Write-write race if not uniform (the data of an atomic is not its own)
     if (!m_allowUniformWrites || a.isAtomic() || b.isAtomic() ||
-        (a.getStoreData() != b.getStoreData()))
+        a.isMixed() || b.isMixed() || (a.getStoreData() != b.getStoreData()))
       return true;
   }
 
@@ -244,8 +244,15 @@ void RaceDetector::insert(AccessRecord& record,
   }
   else if (access.isStore())
   {
+    // Only one store is kept, so remember if it does not stand for all of them
+    bool mixed = record.store.isSet() &&
+                 (record.store.isMixed() || access.isMixed() ||
+                  record.store.isAtomic() != access.isAtomic() ||
+                  record.store.getStoreData() != access.getStoreData());
     if (!record.store.isSet() || record.store.isAtomic())
       record.store = access;
+    if (mixed)
+      record.store.setMixed();
   }
 }
 
@@ -466,6 +473,11 @@ bool RaceDetector::MemoryAccess::isLoad() const
   return !isStore();
 }
 
+bool RaceDetector::MemoryAccess::isMixed() const
+{
+  return this->info & (1 << MIXED_BIT);
+}
+
 bool RaceDetector::MemoryAccess::isStore() const
 {
   return this->info & (1 << STORE_BIT);
@@ -496,6 +508,11 @@ uint8_t RaceDetector::MemoryAccess::getStoreData() const
   return this->storeData;
 }
 
+void RaceDetector::MemoryAccess::setMixed()
+{
+  this->info |= 1 << MIXED_BIT;
+}
+
 void RaceDetector::MemoryAccess::setStoreData(uint8_t data)
 {
   this->storeData = data;
@@ -505,5 +522,6 @@ bool RaceDetector::MemoryAccess::operator==(
   const RaceDetector::MemoryAccess& other) const
 {
   return this->entity == other.entity &&
-         this->instruction == other.instruction && this->info == other.info;
+         this->instruction == other.instruction &&
+         ((this->info ^ other.info) & ~(1 << MIXED_BIT)) == 0;
 }
diff --git a/src/plugins/RaceDetector.h b/src/plugins/RaceDetector.h
index 424f31a..b4d3713 100644
--- a/src/plugins/RaceDetector.h
+++ b/src/plugins/RaceDetector.h
@@ -56,6 +56,7 @@ private:
     static const unsigned STORE_BIT = 1;
     static const unsigned ATOMIC_BIT = 2;
     static const unsigned WG_BIT = 3;
+    static const unsigned MIXED_BIT = 4;
     uint8_t storeData;
 
   public:
@@ -65,6 +66,7 @@ private:
 
     bool isAtomic() const;
     bool isLoad() const;
+    bool isMixed() const;
     bool isStore() const;
     bool isWorkGroup() const;
     bool isWorkItem() const;
@@ -73,6 +75,7 @@ private:
     const llvm::Instruction* getInstruction() const;
 
     uint8_t getStoreData() const;
+    void setMixed();
     void setStoreData(uint8_t);
 
     MemoryAccess();
-- 
2.43.0


From 9cee750fa4890481d1eba52904a23e87a5a132e4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:14:28 +0000
Subject: [PATCH 09/87] fix: work-group index was not the linearised group id

---
 src/core/WorkGroup.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/core/WorkGroup.cpp b/src/core/WorkGroup.cpp
index da03897..4a60992 100644
--- a/src/core/WorkGroup.cpp
+++ b/src/core/WorkGroup.cpp
@@ -36,8 +36,8 @@ WorkGroup::WorkGroup(const KernelInvocation* kernelInvocation, Size3 wgid,
 
   m_groupIndex =
     (m_groupID.x +
-     (m_groupID.y + m_groupID.z * (kernelInvocation->getNumGroups().y) *
-                      kernelInvocation->getNumGroups().x));
+     (m_groupID.y + m_groupID.z * kernelInvocation->getNumGroups().y) *
+       kernelInvocation->getNumGroups().x);
 
   // Allocate local memory
   m_localMemory =
-- 
2.43.0


From e046dce59e9de6f592fbe1f4c5ba078db7178140 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:25:58 +0000
Subject: [PATCH 10/87] fix: lanes of boolean vectors were all-ones, and
 truncation to i1 kept other bits

zext of a vector comparison (such as (a < b) & 1) produced 255 instead of 1.
---
 src/core/WorkItem.cpp | 11 +++++------
 1 file changed, 5 insertions(+), 6 deletions(-)

diff --git a/src/core/WorkItem.cpp b/src/core/WorkItem.cpp
index 132e16a..67af2d1 100644
--- a/src/core/WorkItem.cpp
+++ b/src/core/WorkItem.cpp
@@ -990,7 +990,6 @@ INSTRUCTION(fcmp)
   TypedValue opA = getOperand(instruction->getOperand(0));
   TypedValue opB = getOperand(instruction->getOperand(1));
 
-  uint64_t t = result.num > 1 ? -1 : 1;
   for (unsigned i = 0; i < result.num; i++)
   {
     double a = opA.getFloat(i);
@@ -1041,7 +1040,7 @@ INSTRUCTION(fcmp)
       r = !llvm::CmpInst::isOrdered(pred);
     }
 
-    result.setUInt(r ? t : 0, i);
+    result.setUInt(r ? 1 : 0, i);
   }
 }
 
@@ -1157,7 +1156,6 @@ INSTRUCTION(icmp)
   TypedValue opA = getOperand(instruction->getOperand(0));
   TypedValue opB = getOperand(instruction->getOperand(1));
 
-  uint64_t t = result.num > 1 ? -1 : 1;
   for (unsigned i = 0; i < result.num; i++)
   {
     // Load operands
@@ -1203,7 +1201,7 @@ INSTRUCTION(icmp)
       FATAL_ERROR("Unsupported ICmp predicate: %d", pred);
     }
 
-    result.setUInt(r ? t : 0, i);
+    result.setUInt(r ? 1 : 0, i);
   }
 }
 
@@ -1266,9 +1264,10 @@ INSTRUCTION(inttoptr)
 INSTRUCTION(itrunc)
 {
   TypedValue op = getOperand(instruction->getOperand(0));
+  bool isBool = instruction->getType()->getScalarSizeInBits() == 1;
   for (unsigned i = 0; i < result.num; i++)
   {
-    result.setUInt(op.getUInt(i), i);
+    result.setUInt(isBool ? (op.getUInt(i) & 1) : op.getUInt(i), i);
   }
 }
 
@@ -1410,7 +1409,7 @@ INSTRUCTION(sext)
   for (unsigned i = 0; i < result.num; i++)
   {
     int64_t val = value.getSInt(i);
-    if (operand->getType()->getPrimitiveSizeInBits() == 1)
+    if (operand->getType()->getScalarSizeInBits() == 1)
     {
       val = val ? -1 : 0;
     }
-- 
2.43.0


From 25cd72304350ce80706eb0b3e9f8bb99b45c5732 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:25:58 +0000
Subject: [PATCH 11/87] fix: sitofp from a 64-bit integer to float was rounded
 twice

---
 src/core/WorkItem.cpp | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/src/core/WorkItem.cpp b/src/core/WorkItem.cpp
index 67af2d1..98445c6 100644
--- a/src/core/WorkItem.cpp
+++ b/src/core/WorkItem.cpp
@@ -1467,7 +1467,11 @@ INSTRUCTION(sitofp)
   TypedValue op = getOperand(instruction->getOperand(0));
   for (unsigned i = 0; i < result.num; i++)
   {
-    result.setFloat(op.getSInt(i), i);
+    int64_t in = op.getSInt(i);
+    if (result.size == 4)
+      result.setFloat((float)in, i);
+    else
+      result.setFloat((double)in, i);
   }
 }
 
-- 
2.43.0


From 08e814dad0a136e7d524ef5d10f0287de012c6f4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:25:58 +0000
Subject: [PATCH 12/87] fix: fcmp false was true for NaN operands

---
 src/core/WorkItem.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/core/WorkItem.cpp b/src/core/WorkItem.cpp
index 98445c6..bcb8b55 100644
--- a/src/core/WorkItem.cpp
+++ b/src/core/WorkItem.cpp
@@ -1037,7 +1037,7 @@ INSTRUCTION(fcmp)
     // Deal with NaN operands
     if (std::isnan(a) || std::isnan(b))
     {
-      r = !llvm::CmpInst::isOrdered(pred);
+      r = pred != llvm::CmpInst::FCMP_FALSE && !llvm::CmpInst::isOrdered(pred);
     }
 
     result.setUInt(r ? 1 : 0, i);
-- 
2.43.0


From f5c20adadc6eb3045ed2cae37dcad6a91c4096ed Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:53:35 +0000
Subject: [PATCH 13/87] fix: give work-groups created by switching work-items
 their remainder size

---
 src/core/KernelInvocation.cpp | 10 +++++++++-
 1 file changed, 9 insertions(+), 1 deletion(-)

diff --git a/src/core/KernelInvocation.cpp b/src/core/KernelInvocation.cpp
index b6a6ca5..75c13e2 100644
--- a/src/core/KernelInvocation.cpp
+++ b/src/core/KernelInvocation.cpp
@@ -302,7 +302,15 @@ bool KernelInvocation::switchWorkItem(const Size3 gid)
     {
       if (group == *pItr)
       {
-        workerState.workGroup = new WorkGroup(this, group);
+        // Handle remainder work-groups
+        Size3 size = m_localSize;
+        for (unsigned i = 0; i < 3; i++)
+        {
+          if (size[i] * (group[i] + 1) > m_globalSize[i])
+            size[i] = m_globalSize[i] % size[i];
+        }
+
+        workerState.workGroup = new WorkGroup(this, group, size);
         m_context->notifyWorkGroupBegin(workerState.workGroup);
         found = true;
 
-- 
2.43.0


From 6dcf6ea9ac1471f8782f6b5a780edb56684ebc9a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:25:45 +0000
Subject: [PATCH 14/87] fix: guard overlapping 32- and 64-bit atomics by the
 same mutex

A 64-bit atomic covers two 4-byte slots, but the mutex was chosen per
4-byte slot, so a 32-bit atomic on the upper half used another mutex.
---
 src/core/Memory.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/core/Memory.cpp b/src/core/Memory.cpp
index 715e0c5..e4994b9 100644
--- a/src/core/Memory.cpp
+++ b/src/core/Memory.cpp
@@ -25,7 +25,7 @@ using namespace std;
 #define NUM_ATOMIC_MUTEXES 64 // Must be power of two
 mutex atomicMutex[NUM_ATOMIC_MUTEXES];
 #define ATOMIC_MUTEX(offset)                                                   \
-  atomicMutex[(((offset) >> 2) & (NUM_ATOMIC_MUTEXES - 1))]
+  atomicMutex[(((offset) >> 3) & (NUM_ATOMIC_MUTEXES - 1))]
 
 Memory::Memory(unsigned addrSpace, unsigned bufferBits, const Context* context)
 {
-- 
2.43.0


From df42ce9236957cf8e7ba532f9ee6a46af05ad7fb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:25:45 +0000
Subject: [PATCH 15/87] fix: release the atomic mutex before raising a fatal
 error

Memory::atomic threw out of the locked region, so the next atomic that
maps to the same mutex would block forever.
---
 src/core/Memory.cpp | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/core/Memory.cpp b/src/core/Memory.cpp
index e4994b9..e187e78 100644
--- a/src/core/Memory.cpp
+++ b/src/core/Memory.cpp
@@ -125,6 +125,8 @@ template <typename T> T Memory::atomic(AtomicOp op, size_t address, T value)
     *ptr = old & value;
     break;
   case AtomicCmpXchg:
+    if (m_addressSpace == AddrSpaceGlobal)
+      ATOMIC_MUTEX(offset).unlock();
     FATAL_ERROR("AtomicCmpXchg in generic atomic handler");
     break;
   case AtomicDec:
-- 
2.43.0


From 175b24238dde0bbb3387596e23e480d2d8656a7d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:33:56 +0000
Subject: [PATCH 16/87] fix: report null handles instead of dereferencing or
 accepting them

clCreateKernel, clEnqueueNDRangeKernel, clWaitForEvents, clCompileProgram,
clLinkProgram, clEnqueueWaitForEvents, clEnqueueMigrateMemObjects and the
unimplemented OpenCL 2.x entry points dereferenced null handles;
clRetainDevice, clReleaseDevice, clSetCommandQueueProperty and
clGetProgramBuildInfo accepted them.
---
 src/runtime/runtime.cpp | 134 +++++++++++++++++++++++++++++++++++++++-
 1 file changed, 133 insertions(+), 1 deletion(-)

diff --git a/src/runtime/runtime.cpp b/src/runtime/runtime.cpp
index a645e71..dfa32c6 100644
--- a/src/runtime/runtime.cpp
+++ b/src/runtime/runtime.cpp
@@ -989,6 +989,12 @@ CL_API_ENTRY cl_int CL_API_CALL clRetainDevice(cl_device_id device)
 {
   REGISTER_API;
 
+  // Check parameters
+  if (!device)
+  {
+    ReturnErrorArg(NULL, CL_INVALID_DEVICE, device);
+  }
+
   return CL_SUCCESS;
 }
 
@@ -997,6 +1003,12 @@ CL_API_ENTRY cl_int CL_API_CALL clReleaseDevice(cl_device_id device)
 {
   REGISTER_API;
 
+  // Check parameters
+  if (!device)
+  {
+    ReturnErrorArg(NULL, CL_INVALID_DEVICE, device);
+  }
+
   return CL_SUCCESS;
 }
 
@@ -1262,6 +1274,12 @@ CL_API_ENTRY cl_int CL_API_CALL clSetCommandQueueProperty(
 {
   REGISTER_API;
 
+  // Check parameters
+  if (!command_queue)
+  {
+    ReturnErrorArg(NULL, CL_INVALID_COMMAND_QUEUE, command_queue);
+  }
+
   return CL_SUCCESS;
 }
 
@@ -2663,6 +2681,11 @@ CL_API_ENTRY cl_int CL_API_CALL clCompileProgram(
   list<oclgrind::Program::Header> headers;
   for (unsigned i = 0; i < num_input_headers; i++)
   {
+    if (!input_headers[i])
+    {
+      ReturnErrorInfo(program->context, CL_INVALID_PROGRAM,
+                      "Input header " << i << " is NULL");
+    }
     headers.push_back(
       make_pair(header_include_names[i], input_headers[i]->program));
   }
@@ -2725,6 +2748,12 @@ clLinkProgram(cl_context context, cl_uint num_devices,
   list<const oclgrind::Program*> programs;
   for (unsigned i = 0; i < num_input_programs; i++)
   {
+    if (!input_programs[i])
+    {
+      SetErrorInfo(context, CL_INVALID_PROGRAM,
+                   "Input program " << i << " is NULL");
+      return NULL;
+    }
     programs.push_back(input_programs[i]->program);
   }
 
@@ -2888,6 +2917,10 @@ CL_API_ENTRY cl_int CL_API_CALL clGetProgramBuildInfo(
   {
     ReturnErrorArg(NULL, CL_INVALID_PROGRAM, program);
   }
+  if (!device)
+  {
+    ReturnErrorArg(program->context, CL_INVALID_DEVICE, device);
+  }
 
   size_t dummy;
   size_t& result_size = param_value_size_ret ? *param_value_size_ret : dummy;
@@ -2952,7 +2985,7 @@ clCreateKernel(cl_program program, const char* kernel_name,
   REGISTER_API;
 
   // Check parameters
-  if (program->dispatch != m_dispatchTable)
+  if (!program || program->dispatch != m_dispatchTable)
   {
     SetError(NULL, CL_INVALID_PROGRAM);
     return NULL;
@@ -3426,6 +3459,13 @@ CL_API_ENTRY cl_int CL_API_CALL clWaitForEvents(
   {
     ReturnErrorInfo(NULL, CL_INVALID_VALUE, "event_list cannot be NULL");
   }
+  for (unsigned i = 0; i < num_events; i++)
+  {
+    if (!event_list[i])
+    {
+      ReturnErrorInfo(NULL, CL_INVALID_EVENT, "Event " << i << " is NULL");
+    }
+  }
 
   // Loop until all events complete
   bool complete = false;
@@ -5022,6 +5062,18 @@ CL_API_ENTRY cl_int CL_API_CALL clEnqueueMigrateMemObjects(
   {
     ReturnErrorArg(NULL, CL_INVALID_COMMAND_QUEUE, command_queue);
   }
+  if (num_mem_objects == 0 || !mem_objects)
+  {
+    ReturnErrorArg(command_queue->context, CL_INVALID_VALUE, mem_objects);
+  }
+  for (unsigned i = 0; i < num_mem_objects; i++)
+  {
+    if (!mem_objects[i])
+    {
+      ReturnErrorInfo(command_queue->context, CL_INVALID_MEM_OBJECT,
+                      "Memory object " << i << " is NULL");
+    }
+  }
   if (auto err = checkEventWaitList(command_queue->context,
                                     num_events_in_wait_list, event_wait_list);
       err != CL_SUCCESS)
@@ -5031,6 +5083,10 @@ CL_API_ENTRY cl_int CL_API_CALL clEnqueueMigrateMemObjects(
 
   // Enqueue command
   oclgrind::Command* cmd = new oclgrind::Command();
+  for (unsigned i = 0; i < num_mem_objects; i++)
+  {
+    asyncQueueRetain(cmd, mem_objects[i]);
+  }
   asyncEnqueue(command_queue, CL_COMMAND_MIGRATE_MEM_OBJECTS, cmd,
                num_events_in_wait_list, event_wait_list, event);
 
@@ -5050,6 +5106,10 @@ CL_API_ENTRY cl_int CL_API_CALL clEnqueueNDRangeKernel(
   {
     ReturnErrorArg(NULL, CL_INVALID_COMMAND_QUEUE, command_queue);
   }
+  if (!kernel)
+  {
+    ReturnErrorArg(command_queue->context, CL_INVALID_KERNEL, kernel);
+  }
   if (work_dim < 1 || work_dim > 3)
   {
     ReturnErrorInfo(
@@ -5357,6 +5417,12 @@ clEnqueueWaitForEvents(cl_command_queue command_queue, cl_uint num_events,
   {
     ReturnErrorArg(NULL, CL_INVALID_COMMAND_QUEUE, command_queue);
   }
+  if (auto err =
+        checkEventWaitList(command_queue->context, num_events, event_list);
+      err != CL_SUCCESS)
+  {
+    return err;
+  }
 
   // Enqueue command
   oclgrind::Command* cmd = new oclgrind::Command();
@@ -5773,6 +5839,12 @@ CL_API_ENTRY cl_int CL_API_CALL clEnqueueSVMFree(
 {
   REGISTER_API;
 
+  // Check parameters
+  if (!command_queue)
+  {
+    ReturnErrorArg(NULL, CL_INVALID_COMMAND_QUEUE, command_queue);
+  }
+
   ReturnErrorInfo(command_queue->context, CL_INVALID_OPERATION,
                   "Unimplemented OpenCL 2.0 API");
 }
@@ -5784,6 +5856,12 @@ CL_API_ENTRY cl_int CL_API_CALL clEnqueueSVMMemcpy(
 {
   REGISTER_API;
 
+  // Check parameters
+  if (!command_queue)
+  {
+    ReturnErrorArg(NULL, CL_INVALID_COMMAND_QUEUE, command_queue);
+  }
+
   ReturnErrorInfo(command_queue->context, CL_INVALID_OPERATION,
                   "Unimplemented OpenCL 2.0 API");
 }
@@ -5795,6 +5873,12 @@ CL_API_ENTRY cl_int CL_API_CALL clEnqueueSVMMemFill(
 {
   REGISTER_API;
 
+  // Check parameters
+  if (!command_queue)
+  {
+    ReturnErrorArg(NULL, CL_INVALID_COMMAND_QUEUE, command_queue);
+  }
+
   ReturnErrorInfo(command_queue->context, CL_INVALID_OPERATION,
                   "Unimplemented OpenCL 2.0 API");
 }
@@ -5806,6 +5890,12 @@ CL_API_ENTRY cl_int CL_API_CALL clEnqueueSVMMap(
 {
   REGISTER_API;
 
+  // Check parameters
+  if (!command_queue)
+  {
+    ReturnErrorArg(NULL, CL_INVALID_COMMAND_QUEUE, command_queue);
+  }
+
   ReturnErrorInfo(command_queue->context, CL_INVALID_OPERATION,
                   "Unimplemented OpenCL 2.0 API");
 }
@@ -5817,6 +5907,12 @@ CL_API_ENTRY cl_int CL_API_CALL clEnqueueSVMUnmap(
 {
   REGISTER_API;
 
+  // Check parameters
+  if (!command_queue)
+  {
+    ReturnErrorArg(NULL, CL_INVALID_COMMAND_QUEUE, command_queue);
+  }
+
   ReturnErrorInfo(command_queue->context, CL_INVALID_OPERATION,
                   "Unimplemented OpenCL 2.0 API");
 }
@@ -5927,6 +6023,12 @@ clSetKernelArgSVMPointer(cl_kernel kernel, cl_uint arg_index,
 {
   REGISTER_API;
 
+  // Check parameters
+  if (!kernel)
+  {
+    ReturnErrorArg(NULL, CL_INVALID_KERNEL, kernel);
+  }
+
   ReturnErrorInfo(kernel->program->context, CL_INVALID_OPERATION,
                   "Unimplemented OpenCL 2.0 API");
 }
@@ -5937,6 +6039,12 @@ CL_API_ENTRY cl_int CL_API_CALL clSetKernelExecInfo(
 {
   REGISTER_API;
 
+  // Check parameters
+  if (!kernel)
+  {
+    ReturnErrorArg(NULL, CL_INVALID_KERNEL, kernel);
+  }
+
   ReturnErrorInfo(kernel->program->context, CL_INVALID_OPERATION,
                   "Unimplemented OpenCL 2.0 API");
 }
@@ -5992,6 +6100,12 @@ CL_API_ENTRY cl_int CL_API_CALL clEnqueueSVMMigrateMem(
 {
   REGISTER_API;
 
+  // Check parameters
+  if (!command_queue)
+  {
+    ReturnErrorArg(NULL, CL_INVALID_COMMAND_QUEUE, command_queue);
+  }
+
   ReturnErrorInfo(command_queue->context, CL_INVALID_OPERATION,
                   "Unimplemented OpenCL 2.1 API");
 }
@@ -6034,6 +6148,12 @@ CL_API_ENTRY cl_int CL_API_CALL clGetKernelSubGroupInfo(
 {
   REGISTER_API;
 
+  // Check parameters
+  if (!kernel)
+  {
+    ReturnErrorArg(NULL, CL_INVALID_KERNEL, kernel);
+  }
+
   ReturnErrorInfo(kernel->program->context, CL_INVALID_OPERATION,
                   "Unimplemented OpenCL 2.1 API");
 }
@@ -6056,6 +6176,12 @@ clSetProgramReleaseCallback(
 {
   REGISTER_API;
 
+  // Check parameters
+  if (!program)
+  {
+    ReturnErrorArg(NULL, CL_INVALID_PROGRAM, program);
+  }
+
   ReturnErrorInfo(program->context, CL_INVALID_OPERATION,
                   "Unimplemented OpenCL 2.2 API");
 }
@@ -6066,6 +6192,12 @@ CL_API_ENTRY cl_int CL_API_CALL clSetProgramSpecializationConstant(
 {
   REGISTER_API;
 
+  // Check parameters
+  if (!program)
+  {
+    ReturnErrorArg(NULL, CL_INVALID_PROGRAM, program);
+  }
+
   ReturnErrorInfo(program->context, CL_INVALID_OPERATION,
                   "Unimplemented OpenCL 2.2 API");
 }
-- 
2.43.0


From 67b1a3e0ce63a615b1151f68a3034b258ef33e68 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:34:24 +0000
Subject: [PATCH 17/87] fix: clSetKernelArg rejects a null value or sampler
 before using it

A null arg_value for a by-value argument was passed to memcpy, a null
sampler handle was dereferenced and the rejected paths leaked the value
buffer.
---
 src/runtime/runtime.cpp | 26 +++++++++++++++++---------
 1 file changed, 17 insertions(+), 9 deletions(-)

diff --git a/src/runtime/runtime.cpp b/src/runtime/runtime.cpp
index dfa32c6..fed47ed 100644
--- a/src/runtime/runtime.cpp
+++ b/src/runtime/runtime.cpp
@@ -3141,6 +3141,22 @@ clSetKernelArg(cl_kernel kernel, cl_uint arg_index, size_t arg_size,
                                    << " bytes");
   }
 
+  if (addr == CL_KERNEL_ARG_ADDRESS_PRIVATE && !isSampler && !arg_value)
+  {
+    ReturnErrorArg(kernel->program->context, CL_INVALID_ARG_VALUE, arg_value);
+  }
+  if (isSampler)
+  {
+    if (arg_size != sizeof(cl_sampler))
+    {
+      ReturnError(kernel->program->context, CL_INVALID_ARG_SIZE);
+    }
+    if (!arg_value || !*(cl_sampler*)arg_value)
+    {
+      ReturnError(kernel->program->context, CL_INVALID_SAMPLER);
+    }
+  }
+
   // Prepare argument value
   oclgrind::TypedValue value;
   value.data = new unsigned char[arg_size];
@@ -3151,15 +3167,6 @@ clSetKernelArg(cl_kernel kernel, cl_uint arg_index, size_t arg_size,
   case CL_KERNEL_ARG_ADDRESS_PRIVATE:
     if (isSampler)
     {
-      if (!arg_value)
-      {
-        ReturnError(kernel->program->context, CL_INVALID_SAMPLER);
-        return CL_INVALID_SAMPLER;
-      }
-      if (arg_size != sizeof(cl_sampler))
-      {
-        ReturnError(kernel->program->context, CL_INVALID_ARG_SIZE);
-      }
       memcpy(value.data, &(*(cl_sampler*)arg_value)->sampler, 4);
     }
     else
@@ -3202,6 +3209,7 @@ clSetKernelArg(cl_kernel kernel, cl_uint arg_index, size_t arg_size,
     }
     break;
   default:
+    delete[] value.data;
     ReturnErrorInfo(kernel->program->context, CL_INVALID_ARG_VALUE,
                     "Unsupported address space");
   }
-- 
2.43.0


From e1b3a8360d15e8bef8f5476d62fb08361383edab Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:34:42 +0000
Subject: [PATCH 18/87] fix: cloned kernels own the images their arguments
 refer to

clCloneKernel copied the image structures but left the copied argument
values pointing at those of the source kernel, which may be released
first.
---
 src/runtime/runtime.cpp | 15 +++++++++++----
 1 file changed, 11 insertions(+), 4 deletions(-)

diff --git a/src/runtime/runtime.cpp b/src/runtime/runtime.cpp
index fed47ed..eb93e0f 100644
--- a/src/runtime/runtime.cpp
+++ b/src/runtime/runtime.cpp
@@ -6074,13 +6074,20 @@ CL_API_ENTRY cl_kernel CL_API_CALL clCloneKernel(
   kernel->kernel = new oclgrind::Kernel(*source_kernel->kernel);
   kernel->program = source_kernel->program;
   kernel->memArgs = source_kernel->memArgs;
-  for (auto src_img : source_kernel->imageArgs)
+  for (auto& arg : kernel->memArgs)
   {
+    if (!arg.second->isImage)
+      continue;
+
+    // The copied argument refers to an Image struct owned by the source kernel
     oclgrind::Image* image = new oclgrind::Image;
-    image->address = src_img->address;
-    image->format = src_img->format;
-    image->desc = src_img->desc;
+    image->address = arg.second->address;
+    image->format = ((cl_image*)arg.second)->format;
+    image->desc = ((cl_image*)arg.second)->desc;
     kernel->imageArgs.push_back(image);
+
+    oclgrind::TypedValue value = {sizeof(image), 1, (unsigned char*)&image};
+    kernel->kernel->setArgument(arg.first, value);
   }
   kernel->refCount = 1;
 
-- 
2.43.0


From 5abd1e056dea8e663cb0608813e78a3180a1f824 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:35:15 +0000
Subject: [PATCH 19/87] fix: return no object for unsupported buffer and image
 properties

clCreateBufferWithProperties and clCreateImageWithProperties reported
CL_INVALID_PROPERTY and then created the object anyway, overwriting the
error code with CL_SUCCESS.
---
 src/runtime/runtime.cpp | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/runtime/runtime.cpp b/src/runtime/runtime.cpp
index eb93e0f..5b5cec2 100644
--- a/src/runtime/runtime.cpp
+++ b/src/runtime/runtime.cpp
@@ -1494,6 +1494,7 @@ CL_API_ENTRY cl_mem CL_API_CALL clCreateBufferWithProperties(
   if (properties && properties[0] != 0)
   {
     SetErrorInfo(context, CL_INVALID_PROPERTY, "Unsupported property");
+    return NULL;
   }
 
   cl_mem buffer = createBuffer(context, flags, size, host_ptr, errcode_ret);
@@ -1812,6 +1813,7 @@ CL_API_ENTRY cl_mem CL_API_CALL clCreateImageWithProperties(
   if (properties && properties[0] != 0)
   {
     SetErrorInfo(context, CL_INVALID_PROPERTY, "Unsupported property");
+    return NULL;
   }
 
   cl_mem image = createImage(context, flags, image_format, image_desc, host_ptr,
-- 
2.43.0


From 505da0c7294786a34f8dac8b0853bccc2dcc6838 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:36:13 +0000
Subject: [PATCH 20/87] fix: clEnqueueMapImage returns no pointer for an
 invalid region

The error was reported, but the map was carried out and the error code
replaced by CL_SUCCESS.
---
 src/runtime/runtime.cpp | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/runtime/runtime.cpp b/src/runtime/runtime.cpp
index 5b5cec2..b3dfb88 100644
--- a/src/runtime/runtime.cpp
+++ b/src/runtime/runtime.cpp
@@ -4931,6 +4931,7 @@ CL_API_ENTRY void* CL_API_CALL clEnqueueMapImage(
   {
     SetErrorInfo(command_queue->context, CL_INVALID_VALUE,
                  "Values in region cannot be 0");
+    return NULL;
   }
   if (auto err = checkEventWaitList(command_queue->context,
                                     num_events_in_wait_list, event_wait_list);
@@ -4965,6 +4966,7 @@ CL_API_ENTRY void* CL_API_CALL clEnqueueMapImage(
                  "origin[0] + region[0] > width ("
                    << origin[0] << " + " << region[0] << " > " << width
                    << " )");
+    return NULL;
   }
   if (origin[1] + region[1] > height)
   {
@@ -4972,6 +4974,7 @@ CL_API_ENTRY void* CL_API_CALL clEnqueueMapImage(
                  "origin[1] + region[1] > height ("
                    << origin[1] << " + " << region[1] << " > " << height
                    << " )");
+    return NULL;
   }
   if (origin[2] + region[2] > depth)
   {
@@ -4979,6 +4982,7 @@ CL_API_ENTRY void* CL_API_CALL clEnqueueMapImage(
                  "origin[2] + region[2] > depth ("
                    << origin[2] << " + " << region[2] << " > " << depth
                    << " )");
+    return NULL;
   }
 
   // Compute byte offset and size
-- 
2.43.0


From ec1de64cff853691771db83b2c1ae055aff8c1a0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:36:13 +0000
Subject: [PATCH 21/87] fix: samplers created with properties start with one
 reference

clCreateSamplerWithProperties left the reference count unset.
---
 src/runtime/runtime.cpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/runtime/runtime.cpp b/src/runtime/runtime.cpp
index b3dfb88..24c4586 100644
--- a/src/runtime/runtime.cpp
+++ b/src/runtime/runtime.cpp
@@ -6021,6 +6021,7 @@ CL_API_ENTRY cl_sampler CL_API_CALL clCreateSamplerWithProperties(
   sampler->addressMode = addressing_mode;
   sampler->filterMode = filter_mode;
   sampler->sampler = bitfield;
+  sampler->refCount = 1;
   if (sampler_properties)
   {
     sampler->properties.assign(sampler_properties,
-- 
2.43.0


From 14548c402796040c202a5ce4e0e7a136007bca01 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:36:13 +0000
Subject: [PATCH 22/87] fix: samplers and events keep their context alive

Both hold a pointer to the context, which error reports and information
queries use, but did not retain it.
---
 src/runtime/async_queue.cpp | 1 +
 src/runtime/runtime.cpp     | 8 ++++++++
 2 files changed, 9 insertions(+)

diff --git a/src/runtime/async_queue.cpp b/src/runtime/async_queue.cpp
index ada38bf..a1641f4 100644
--- a/src/runtime/async_queue.cpp
+++ b/src/runtime/async_queue.cpp
@@ -48,6 +48,7 @@ void asyncEnqueue(cl_command_queue queue, cl_command_type type, Command* cmd,
   _event->type = type;
   _event->event = event;
   _event->refCount = 1;
+  clRetainContext(queue->context);
 
   // Add event to map
   eventMap[cmd] = _event;
diff --git a/src/runtime/runtime.cpp b/src/runtime/runtime.cpp
index 24c4586..7293f08 100644
--- a/src/runtime/runtime.cpp
+++ b/src/runtime/runtime.cpp
@@ -2315,6 +2315,8 @@ clCreateSampler(cl_context context, cl_bool normalized_coords,
   sampler->sampler = bitfield;
   sampler->refCount = 1;
 
+  clRetainContext(context);
+
   SetError(context, CL_SUCCESS);
   return sampler;
 }
@@ -2346,6 +2348,7 @@ CL_API_ENTRY cl_int CL_API_CALL clReleaseSampler(cl_sampler sampler)
 
   if (--sampler->refCount == 0)
   {
+    clReleaseContext(sampler->context);
     delete sampler;
   }
 
@@ -3616,6 +3619,8 @@ CL_API_ENTRY cl_event CL_API_CALL clCreateUserEvent(
   event->event->queue = NULL;
   event->refCount = 1;
 
+  clRetainContext(context);
+
   SetError(context, CL_SUCCESS);
   return event;
 }
@@ -3651,6 +3656,7 @@ CL_API_ENTRY cl_int CL_API_CALL clReleaseEvent(cl_event event)
     {
       delete event->event;
     }
+    clReleaseContext(event->context);
     delete event;
   }
 
@@ -6028,6 +6034,8 @@ CL_API_ENTRY cl_sampler CL_API_CALL clCreateSamplerWithProperties(
                                sampler_properties + numProperties);
   }
 
+  clRetainContext(context);
+
   SetError(context, CL_SUCCESS);
   return sampler;
 }
-- 
2.43.0


From 68aa4497fada2649cda7ee60d0ab71ebc61004c7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:36:56 +0000
Subject: [PATCH 23/87] fix: images run their own destructor callbacks and are
 deleted as images

An image made from a buffer inherited the buffer's callbacks and
properties, never ran its own callbacks, and every image was deleted
through a pointer to its non-virtual base. A sub-buffer of a buffer
without a host pointer was given a bogus one.
---
 src/runtime/runtime.cpp | 28 +++++++++++++++++++---------
 1 file changed, 19 insertions(+), 9 deletions(-)

diff --git a/src/runtime/runtime.cpp b/src/runtime/runtime.cpp
index 7293f08..82b709b 100644
--- a/src/runtime/runtime.cpp
+++ b/src/runtime/runtime.cpp
@@ -1584,7 +1584,8 @@ CL_API_ENTRY cl_mem CL_API_CALL clCreateSubBuffer(
   mem->offset = region.origin;
   mem->isImage = false;
   mem->flags = memFlags;
-  mem->hostPtr = (unsigned char*)buffer->hostPtr + region.origin;
+  mem->hostPtr =
+    buffer->hostPtr ? (unsigned char*)buffer->hostPtr + region.origin : NULL;
   mem->refCount = 1;
   mem->address = buffer->address + region.origin;
   clRetainMemObject(buffer);
@@ -1781,6 +1782,8 @@ cl_mem createImage(cl_context context, cl_mem_flags flags,
   image->desc.image_depth = depth;
   image->desc.image_array_size = arraySize;
   image->refCount = 1;
+  image->callbacks = {};
+  image->properties.clear();
   if (image_desc->image_type != CL_MEM_OBJECT_IMAGE1D_BUFFER)
   {
     delete mem;
@@ -1912,17 +1915,24 @@ CL_API_ENTRY cl_int CL_API_CALL clReleaseMemObject(cl_mem memobj)
           memobj->address);
         clReleaseContext(memobj->context);
       }
+    }
 
-      while (!memobj->callbacks.empty())
-      {
-        pair<void(CL_CALLBACK*)(cl_mem, void*), void*> callback =
-          memobj->callbacks.top();
-        callback.first(memobj, callback.second);
-        memobj->callbacks.pop();
-      }
+    while (!memobj->callbacks.empty())
+    {
+      pair<void(CL_CALLBACK*)(cl_mem, void*), void*> callback =
+        memobj->callbacks.top();
+      callback.first(memobj, callback.second);
+      memobj->callbacks.pop();
     }
 
-    delete memobj;
+    if (memobj->isImage)
+    {
+      delete (cl_image*)memobj;
+    }
+    else
+    {
+      delete memobj;
+    }
   }
 
   return CL_SUCCESS;
-- 
2.43.0


From cee7bbd43813fde1f68225f3bd86ad5a2225c28a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:36:56 +0000
Subject: [PATCH 24/87] fix: clCreateContext does not read past an empty
 property list

---
 src/runtime/runtime.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/runtime/runtime.cpp b/src/runtime/runtime.cpp
index 82b709b..f18013f 100644
--- a/src/runtime/runtime.cpp
+++ b/src/runtime/runtime.cpp
@@ -1055,7 +1055,7 @@ CL_API_ENTRY cl_context CL_API_CALL clCreateContext(
 
   if (properties)
   {
-    int num = 1;
+    int num = 0;
     while (properties[num])
     {
       num++;
-- 
2.43.0


From 71da39fc9ff184316c0bf6b15ac5acea2342e957 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:38:54 +0000
Subject: [PATCH 25/87] fix: range checks of transfer commands cannot wrap and
 cover images

---
 src/runtime/runtime.cpp | 147 ++++++++++++++++++++++++++++++++--------
 1 file changed, 118 insertions(+), 29 deletions(-)

diff --git a/src/runtime/runtime.cpp b/src/runtime/runtime.cpp
index f18013f..f41d31f 100644
--- a/src/runtime/runtime.cpp
+++ b/src/runtime/runtime.cpp
@@ -252,6 +252,54 @@ cl_int checkEventWaitList(cl_context context, cl_uint num_events_in_wait_list,
   return CL_SUCCESS;
 }
 
+namespace
+{
+// Check that a range lies inside an object, without wrapping
+bool inRange(size_t offset, size_t size, size_t limit)
+{
+  return offset <= limit && size <= limit - offset;
+}
+
+// Check that a rectangular region lies inside a buffer, without wrapping
+bool rectInRange(const size_t* origin, const size_t* region, size_t row_pitch,
+                 size_t slice_pitch, size_t limit)
+{
+  if (limit == 0)
+    return false;
+
+  size_t space = limit - 1; // Largest offset that is still available
+  const size_t pitch[3] = {1, row_pitch, slice_pitch};
+  for (unsigned i = 0; i < 3; i++)
+  {
+    if (region[i] == 0 || !inRange(origin[i], region[i] - 1, SIZE_MAX))
+      return false;
+    size_t last = origin[i] + (region[i] - 1);
+    if (pitch[i] && last > space / pitch[i])
+      return false;
+    space -= last * pitch[i];
+  }
+  return true;
+}
+
+// Check that a region lies inside an image
+bool imageInRange(const cl_image* image, const size_t* origin,
+                  const size_t* region)
+{
+  size_t size[3] = {image->desc.image_width, image->desc.image_height,
+                    image->desc.image_depth};
+  if (image->desc.image_type == CL_MEM_OBJECT_IMAGE1D_ARRAY)
+    size[1] = image->desc.image_array_size;
+  if (image->desc.image_type == CL_MEM_OBJECT_IMAGE2D_ARRAY)
+    size[2] = image->desc.image_array_size;
+  for (unsigned i = 0; i < 3; i++)
+  {
+    if (region[i] == 0 || !inRange(origin[i], region[i], size[i]))
+      return false;
+  }
+  return true;
+}
+} // namespace
+
 static struct _cl_platform_id* m_platform = NULL;
 static struct _cl_device_id* m_device = NULL;
 
@@ -1537,7 +1585,7 @@ CL_API_ENTRY cl_mem CL_API_CALL clCreateSubBuffer(
   }
 
   _cl_buffer_region region = *(_cl_buffer_region*)buffer_create_info;
-  if (region.origin + region.size > buffer->size)
+  if (!inRange(region.origin, region.size, buffer->size))
   {
     SetErrorInfo(buffer->context, CL_INVALID_VALUE,
                  "Region doesn't fit inside parent buffer");
@@ -3851,7 +3899,7 @@ CL_API_ENTRY cl_int CL_API_CALL clEnqueueReadBuffer(
   {
     ReturnErrorArg(command_queue->context, CL_INVALID_VALUE, ptr);
   }
-  if (offset + cb > buffer->size)
+  if (!inRange(offset, cb, buffer->size))
   {
     ReturnErrorInfo(command_queue->context, CL_INVALID_VALUE,
                     "offset + cb (" << offset << " + " << cb
@@ -3910,6 +3958,11 @@ CL_API_ENTRY cl_int CL_API_CALL clEnqueueReadBufferRect(
   {
     ReturnErrorArg(command_queue->context, CL_INVALID_VALUE, ptr);
   }
+  if (!buffer_origin || !host_origin || !region)
+  {
+    ReturnErrorInfo(command_queue->context, CL_INVALID_VALUE,
+                    "Origins and region cannot be NULL");
+  }
   if (buffer->flags & (CL_MEM_HOST_NO_ACCESS | CL_MEM_HOST_WRITE_ONLY))
   {
     ReturnErrorInfo(command_queue->context, CL_INVALID_OPERATION,
@@ -3947,9 +4000,8 @@ CL_API_ENTRY cl_int CL_API_CALL clEnqueueReadBufferRect(
                        host_origin[1] * host_row_pitch + host_origin[0];
 
   // Ensure buffer region valid
-  size_t end = buffer_offset + region[0] + (region[1] - 1) * buffer_row_pitch +
-               (region[2] - 1) * buffer_slice_pitch;
-  if (end > buffer->size)
+  if (!rectInRange(buffer_origin, region, buffer_row_pitch, buffer_slice_pitch,
+                   buffer->size))
   {
     ReturnErrorInfo(command_queue->context, CL_INVALID_VALUE,
                     "Region exceeds buffer size (" << buffer->size
@@ -4000,7 +4052,7 @@ CL_API_ENTRY cl_int CL_API_CALL clEnqueueWriteBuffer(
   {
     ReturnErrorArg(command_queue->context, CL_INVALID_VALUE, ptr);
   }
-  if (offset + cb > buffer->size)
+  if (!inRange(offset, cb, buffer->size))
   {
     ReturnErrorInfo(command_queue->context, CL_INVALID_VALUE,
                     "offset + cb (" << offset << " + " << cb
@@ -4059,6 +4111,11 @@ CL_API_ENTRY cl_int CL_API_CALL clEnqueueWriteBufferRect(
   {
     ReturnErrorArg(command_queue->context, CL_INVALID_VALUE, ptr);
   }
+  if (!buffer_origin || !host_origin || !region)
+  {
+    ReturnErrorInfo(command_queue->context, CL_INVALID_VALUE,
+                    "Origins and region cannot be NULL");
+  }
   if (buffer->flags & (CL_MEM_HOST_NO_ACCESS | CL_MEM_HOST_READ_ONLY))
   {
     ReturnErrorInfo(command_queue->context, CL_INVALID_OPERATION,
@@ -4096,9 +4153,8 @@ CL_API_ENTRY cl_int CL_API_CALL clEnqueueWriteBufferRect(
                        host_origin[1] * host_row_pitch + host_origin[0];
 
   // Ensure buffer region valid
-  size_t end = buffer_offset + region[0] + (region[1] - 1) * buffer_row_pitch +
-               (region[2] - 1) * buffer_slice_pitch;
-  if (end > buffer->size)
+  if (!rectInRange(buffer_origin, region, buffer_row_pitch, buffer_slice_pitch,
+                   buffer->size))
   {
     ReturnErrorInfo(command_queue->context, CL_INVALID_VALUE,
                     "Region exceeds buffer size (" << buffer->size
@@ -4150,14 +4206,14 @@ CL_API_ENTRY cl_int CL_API_CALL clEnqueueCopyBuffer(
   {
     ReturnErrorArg(command_queue->context, CL_INVALID_MEM_OBJECT, dst_buffer);
   }
-  if (dst_offset + cb > dst_buffer->size)
+  if (!inRange(dst_offset, cb, dst_buffer->size))
   {
     ReturnErrorInfo(command_queue->context, CL_INVALID_VALUE,
                     "dst_offset + cb (" << dst_offset << " + " << cb
                                         << ") exceeds buffer size ("
                                         << dst_buffer->size << " bytes)");
   }
-  if (src_offset + cb > src_buffer->size)
+  if (!inRange(src_offset, cb, src_buffer->size))
   {
     ReturnErrorInfo(command_queue->context, CL_INVALID_VALUE,
                     "src_offset + cb (" << src_offset << " + " << cb
@@ -4230,6 +4286,11 @@ CL_API_ENTRY cl_int CL_API_CALL clEnqueueCopyBufferRect(
   {
     ReturnErrorArg(command_queue->context, CL_INVALID_MEM_OBJECT, dst_buffer);
   }
+  if (!src_origin || !dst_origin)
+  {
+    ReturnErrorInfo(command_queue->context, CL_INVALID_VALUE,
+                    "Origins cannot be NULL");
+  }
   if (!region || region[0] == 0 || region[1] == 0 || region[2] == 0)
   {
     ReturnErrorArg(command_queue->context, CL_INVALID_VALUE, region);
@@ -4266,17 +4327,15 @@ CL_API_ENTRY cl_int CL_API_CALL clEnqueueCopyBufferRect(
                       dst_origin[1] * dst_row_pitch + dst_origin[0];
 
   // Ensure buffer region valid
-  size_t src_end = src_offset + region[0] + (region[1] - 1) * src_row_pitch +
-                   (region[2] - 1) * src_slice_pitch;
-  size_t dst_end = dst_offset + region[0] + (region[1] - 1) * dst_row_pitch +
-                   (region[2] - 1) * dst_slice_pitch;
-  if (src_end > src_buffer->size)
+  if (!rectInRange(src_origin, region, src_row_pitch, src_slice_pitch,
+                   src_buffer->size))
   {
     ReturnErrorInfo(command_queue->context, CL_INVALID_VALUE,
                     "Region exceeds source buffer size (" << src_buffer->size
                                                           << " bytes)");
   }
-  if (dst_end > dst_buffer->size)
+  if (!rectInRange(dst_origin, region, dst_row_pitch, dst_slice_pitch,
+                   dst_buffer->size))
   {
     ReturnErrorInfo(command_queue->context, CL_INVALID_VALUE,
                     "Region exceeds destination buffer size ("
@@ -4319,7 +4378,7 @@ CL_API_ENTRY cl_int CL_API_CALL clEnqueueFillBuffer(
   {
     ReturnErrorArg(command_queue->context, CL_INVALID_MEM_OBJECT, buffer);
   }
-  if (offset + cb > buffer->size)
+  if (!inRange(offset, cb, buffer->size))
   {
     ReturnErrorInfo(command_queue->context, CL_INVALID_VALUE,
                     "offset + cb (" << offset << " + " << cb
@@ -4387,7 +4446,7 @@ CL_API_ENTRY cl_int CL_API_CALL clEnqueueFillImage(
   {
     ReturnErrorArg(command_queue->context, CL_INVALID_VALUE, fill_color);
   }
-  if (!region[0] || !region[1] || !region[2])
+  if (!origin || !region || !region[0] || !region[1] || !region[2])
   {
     ReturnErrorInfo(command_queue->context, CL_INVALID_VALUE,
                     "Values in region cannot be 0");
@@ -4415,21 +4474,21 @@ CL_API_ENTRY cl_int CL_API_CALL clEnqueueFillImage(
     depth = arraySize;
 
   // Ensure region is within image bounds
-  if (origin[0] + region[0] > width)
+  if (!inRange(origin[0], region[0], width))
   {
     ReturnErrorInfo(command_queue->context, CL_INVALID_VALUE,
                     "origin[0] + region[0] > width ("
                       << origin[0] << " + " << region[0] << " > " << width
                       << " )");
   }
-  if (origin[1] + region[1] > height)
+  if (!inRange(origin[1], region[1], height))
   {
     ReturnErrorInfo(command_queue->context, CL_INVALID_VALUE,
                     "origin[1] + region[1] > height ("
                       << origin[1] << " + " << region[1] << " > " << height
                       << " )");
   }
-  if (origin[2] + region[2] > depth)
+  if (!inRange(origin[2], region[2], depth))
   {
     ReturnErrorInfo(command_queue->context, CL_INVALID_VALUE,
                     "origin[2] + region[2] > depth ("
@@ -4570,6 +4629,11 @@ CL_API_ENTRY cl_int CL_API_CALL clEnqueueReadImage(
   }
 
   cl_image* img = (cl_image*)image;
+  if (!origin || !region || !imageInRange(img, origin, region))
+  {
+    ReturnErrorInfo(command_queue->context, CL_INVALID_VALUE,
+                    "Region exceeds bounds of image");
+  }
 
   size_t pixelSize = getPixelSize(&img->format);
   size_t buffer_origin[3] = {origin[0] * pixelSize, origin[1], origin[2]};
@@ -4624,6 +4688,11 @@ CL_API_ENTRY cl_int CL_API_CALL clEnqueueWriteImage(
   }
 
   cl_image* img = (cl_image*)image;
+  if (!origin || !region || !imageInRange(img, origin, region))
+  {
+    ReturnErrorInfo(command_queue->context, CL_INVALID_VALUE,
+                    "Region exceeds bounds of image");
+  }
 
   size_t pixelSize = getPixelSize(&img->format);
   size_t buffer_origin[3] = {origin[0] * pixelSize, origin[1], origin[2]};
@@ -4677,6 +4746,16 @@ CL_API_ENTRY cl_int CL_API_CALL clEnqueueCopyImage(
 
   cl_image* src = (cl_image*)src_image;
   cl_image* dst = (cl_image*)dst_image;
+  if (!src_origin || !region || !imageInRange(src, src_origin, region))
+  {
+    ReturnErrorInfo(command_queue->context, CL_INVALID_VALUE,
+                    "Region exceeds bounds of source image");
+  }
+  if (!dst_origin || !region || !imageInRange(dst, dst_origin, region))
+  {
+    ReturnErrorInfo(command_queue->context, CL_INVALID_VALUE,
+                    "Region exceeds bounds of destination image");
+  }
   if (src->format.image_channel_order != dst->format.image_channel_order)
   {
     ReturnErrorInfo(command_queue->context, CL_IMAGE_FORMAT_MISMATCH,
@@ -4751,6 +4830,11 @@ CL_API_ENTRY cl_int CL_API_CALL clEnqueueCopyImageToBuffer(
   }
 
   cl_image* src = (cl_image*)src_image;
+  if (!src_origin || !region || !imageInRange(src, src_origin, region))
+  {
+    ReturnErrorInfo(command_queue->context, CL_INVALID_VALUE,
+                    "Region exceeds bounds of source image");
+  }
   size_t pixel_size = getPixelSize(&src->format);
   size_t src_pixel_origin[3] = {src_origin[0] * pixel_size, src_origin[1],
                                 src_origin[2]};
@@ -4801,6 +4885,11 @@ CL_API_ENTRY cl_int CL_API_CALL clEnqueueCopyBufferToImage(
   }
 
   cl_image* dst = (cl_image*)dst_image;
+  if (!dst_origin || !region || !imageInRange(dst, dst_origin, region))
+  {
+    ReturnErrorInfo(command_queue->context, CL_INVALID_VALUE,
+                    "Region exceeds bounds of destination image");
+  }
   size_t pixel_size = getPixelSize(&dst->format);
   size_t dst_pixel_origin[3] = {dst_origin[0] * pixel_size, dst_origin[1],
                                 dst_origin[2]};
@@ -4841,7 +4930,7 @@ CL_API_ENTRY void* CL_API_CALL clEnqueueMapBuffer(
     SetErrorArg(command_queue->context, CL_INVALID_MEM_OBJECT, buffer);
     return NULL;
   }
-  if (map_flags & CL_MAP_WRITE &&
+  if (map_flags & (CL_MAP_WRITE | CL_MAP_WRITE_INVALIDATE_REGION) &&
       buffer->flags & (CL_MEM_HOST_NO_ACCESS | CL_MEM_HOST_READ_ONLY))
   {
     SetErrorInfo(command_queue->context, CL_INVALID_OPERATION,
@@ -4867,7 +4956,7 @@ CL_API_ENTRY void* CL_API_CALL clEnqueueMapBuffer(
   }
 
   // Check map region
-  if (offset + cb > buffer->size)
+  if (!inRange(offset, cb, buffer->size))
   {
     SetErrorInfo(command_queue->context, CL_INVALID_VALUE,
                  "offset + cb (" << offset << " + " << cb
@@ -4929,7 +5018,7 @@ CL_API_ENTRY void* CL_API_CALL clEnqueueMapImage(
     SetErrorArg(command_queue->context, CL_INVALID_VALUE, image_row_pitch);
     return NULL;
   }
-  if (map_flags & CL_MAP_WRITE &&
+  if (map_flags & (CL_MAP_WRITE | CL_MAP_WRITE_INVALIDATE_REGION) &&
       image->flags & (CL_MEM_HOST_NO_ACCESS | CL_MEM_HOST_READ_ONLY))
   {
     SetErrorInfo(command_queue->context, CL_INVALID_OPERATION,
@@ -4943,7 +5032,7 @@ CL_API_ENTRY void* CL_API_CALL clEnqueueMapImage(
                  "Image flags specify host will not read data");
     return NULL;
   }
-  if (!region[0] || !region[1] || !region[2])
+  if (!origin || !region || !region[0] || !region[1] || !region[2])
   {
     SetErrorInfo(command_queue->context, CL_INVALID_VALUE,
                  "Values in region cannot be 0");
@@ -4976,7 +5065,7 @@ CL_API_ENTRY void* CL_API_CALL clEnqueueMapImage(
     depth = arraySize;
 
   // Ensure region is within image bounds
-  if (origin[0] + region[0] > width)
+  if (!inRange(origin[0], region[0], width))
   {
     SetErrorInfo(command_queue->context, CL_INVALID_VALUE,
                  "origin[0] + region[0] > width ("
@@ -4984,7 +5073,7 @@ CL_API_ENTRY void* CL_API_CALL clEnqueueMapImage(
                    << " )");
     return NULL;
   }
-  if (origin[1] + region[1] > height)
+  if (!inRange(origin[1], region[1], height))
   {
     SetErrorInfo(command_queue->context, CL_INVALID_VALUE,
                  "origin[1] + region[1] > height ("
@@ -4992,7 +5081,7 @@ CL_API_ENTRY void* CL_API_CALL clEnqueueMapImage(
                    << " )");
     return NULL;
   }
-  if (origin[2] + region[2] > depth)
+  if (!inRange(origin[2], region[2], depth))
   {
     SetErrorInfo(command_queue->context, CL_INVALID_VALUE,
                  "origin[2] + region[2] > depth ("
-- 
2.43.0


From e0b64f5ff1379342a2a7f128d27078bc3bab8d34 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:38:54 +0000
Subject: [PATCH 26/87] fix: clEnqueueFillImage leaked its colour and wrapped
 SNORM_INT8 values above 127

---
 src/runtime/runtime.cpp | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/runtime/runtime.cpp b/src/runtime/runtime.cpp
index f41d31f..96427f0 100644
--- a/src/runtime/runtime.cpp
+++ b/src/runtime/runtime.cpp
@@ -4541,6 +4541,7 @@ CL_API_ENTRY cl_int CL_API_CALL clEnqueueFillImage(
       input = 0;
       break;
     default:
+      delete[] color;
       ReturnError(command_queue->context, CL_INVALID_IMAGE_FORMAT_DESCRIPTOR);
     }
 
@@ -4549,7 +4550,7 @@ CL_API_ENTRY cl_int CL_API_CALL clEnqueueFillImage(
     {
     case CL_SNORM_INT8:
       ((int8_t*)color)[output] =
-        rint(min(max(((float*)fill_color)[input] * 127.f, -127.f), 128.f));
+        rint(min(max(((float*)fill_color)[input] * 127.f, -128.f), 127.f));
       break;
     case CL_UNORM_INT8:
       ((uint8_t*)color)[output] =
@@ -4589,6 +4590,7 @@ CL_API_ENTRY cl_int CL_API_CALL clEnqueueFillImage(
       ((uint32_t*)color)[output] = ((uint32_t*)fill_color)[input];
       break;
     default:
+      delete[] color;
       ReturnError(command_queue->context, CL_INVALID_IMAGE_FORMAT_DESCRIPTOR);
     }
   }
-- 
2.43.0


From e8ace924ce989641d7d122ad3909ff7ed61d13ed Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:44:54 +0000
Subject: [PATCH 27/87] fix: clCreateKernelsInProgram fails when a kernel
 cannot be created

---
 src/runtime/runtime.cpp | 11 +++++++++++
 1 file changed, 11 insertions(+)

diff --git a/src/runtime/runtime.cpp b/src/runtime/runtime.cpp
index 96427f0..0ceee1a 100644
--- a/src/runtime/runtime.cpp
+++ b/src/runtime/runtime.cpp
@@ -3115,6 +3115,17 @@ CL_API_ENTRY cl_int CL_API_CALL clCreateKernelsInProgram(
       kernel->kernel = program->program->createKernel(*itr);
       kernel->program = program;
       kernel->refCount = 1;
+      if (!kernel->kernel)
+      {
+        // Don't hand out any kernels if one of them cannot be created
+        delete kernel;
+        while (i > 0)
+        {
+          clReleaseKernel(kernels[--i]);
+        }
+        ReturnErrorInfo(program->context, CL_OUT_OF_RESOURCES,
+                        "Failed to create kernel '" << *itr << "'");
+      }
       kernels[i++] = kernel;
 
       clRetainProgram(program);
-- 
2.43.0


From 5a9b5b01559ef838370a2dbe0777d4f6b43d020f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:01:48 +0000
Subject: [PATCH 28/87] fix: ICD driver hides its OpenCL 2.0 to 3.0 functions
 from the loader

Their names were not in the renaming list, so the dispatch table entries
were bound to the loader's functions of the same name, which call through
the table again: clCreateCommandQueueWithProperties, clCloneKernel and
others never returned.
---
 src/runtime/icd.h | 25 +++++++++++++++++++++++++
 1 file changed, 25 insertions(+)

diff --git a/src/runtime/icd.h b/src/runtime/icd.h
index b295360..126c896 100644
--- a/src/runtime/icd.h
+++ b/src/runtime/icd.h
@@ -112,6 +112,31 @@
 #define clEnqueueReleaseGLObjects _clEnqueueReleaseGLObjects
 #define clGetGLContextInfoKHR _clGetGLContextInfoKHR
 #define clCreateEventFromGLsyncKHR _clCreateEventFromGLsyncKHR
+#define clCreateCommandQueueWithProperties _clCreateCommandQueueWithProperties
+#define clCreatePipe _clCreatePipe
+#define clGetPipeInfo _clGetPipeInfo
+#define clSVMAlloc _clSVMAlloc
+#define clSVMFree _clSVMFree
+#define clEnqueueSVMFree _clEnqueueSVMFree
+#define clEnqueueSVMMemcpy _clEnqueueSVMMemcpy
+#define clEnqueueSVMMemFill _clEnqueueSVMMemFill
+#define clEnqueueSVMMap _clEnqueueSVMMap
+#define clEnqueueSVMUnmap _clEnqueueSVMUnmap
+#define clCreateSamplerWithProperties _clCreateSamplerWithProperties
+#define clSetKernelArgSVMPointer _clSetKernelArgSVMPointer
+#define clSetKernelExecInfo _clSetKernelExecInfo
+#define clCloneKernel _clCloneKernel
+#define clCreateProgramWithIL _clCreateProgramWithIL
+#define clEnqueueSVMMigrateMem _clEnqueueSVMMigrateMem
+#define clGetDeviceAndHostTimer _clGetDeviceAndHostTimer
+#define clGetHostTimer _clGetHostTimer
+#define clGetKernelSubGroupInfo _clGetKernelSubGroupInfo
+#define clSetDefaultDeviceCommandQueue _clSetDefaultDeviceCommandQueue
+#define clSetProgramReleaseCallback _clSetProgramReleaseCallback
+#define clSetProgramSpecializationConstant _clSetProgramSpecializationConstant
+#define clCreateBufferWithProperties _clCreateBufferWithProperties
+#define clCreateImageWithProperties _clCreateImageWithProperties
+#define clSetContextDestructorCallback _clSetContextDestructorCallback
 #endif // OCLGRIND_ICD
 
 #include <cstdint>
-- 
2.43.0


From 15a31304ae418b3bd58f5b4ff123cc1baaeefe6e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:12:58 +0000
Subject: [PATCH 29/87] fix: clGetKernelInfo copied the attributes from a
 destroyed string

---
 src/runtime/runtime.cpp | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/src/runtime/runtime.cpp b/src/runtime/runtime.cpp
index 0ceee1a..e212208 100644
--- a/src/runtime/runtime.cpp
+++ b/src/runtime/runtime.cpp
@@ -3316,6 +3316,7 @@ CL_API_ENTRY cl_int CL_API_CALL clGetKernelInfo(
     cl_program program;
   } result_data;
   const char* str = 0;
+  string attributes;
 
   switch (param_name)
   {
@@ -3340,8 +3341,9 @@ CL_API_ENTRY cl_int CL_API_CALL clGetKernelInfo(
     result_data.program = kernel->program;
     break;
   case CL_KERNEL_ATTRIBUTES:
-    result_size = kernel->kernel->getAttributes().size() + 1;
-    str = kernel->kernel->getAttributes().c_str();
+    attributes = kernel->kernel->getAttributes();
+    result_size = attributes.size() + 1;
+    str = attributes.c_str();
     break;
   default:
     ReturnErrorArg(kernel->program->context, CL_INVALID_VALUE, param_name);
-- 
2.43.0


From 0293f5a23b480c68a51cadb127b8ab42277f8d16 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:12:58 +0000
Subject: [PATCH 30/87] fix: clGetKernelArgInfo returned an undefined byte for
 an empty string

---
 src/runtime/runtime.cpp | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/src/runtime/runtime.cpp b/src/runtime/runtime.cpp
index e212208..e64c99c 100644
--- a/src/runtime/runtime.cpp
+++ b/src/runtime/runtime.cpp
@@ -3398,6 +3398,7 @@ CL_API_ENTRY cl_int CL_API_CALL clGetKernelArgInfo(
     cl_kernel_arg_type_qualifier typeQual;
   } result_data;
 
+  const char* str = nullptr;
   std::string str_data;
 
   switch (param_name)
@@ -3414,6 +3415,7 @@ CL_API_ENTRY cl_int CL_API_CALL clGetKernelArgInfo(
     break;
   case CL_KERNEL_ARG_TYPE_NAME:
     str_data = kernel->kernel->getArgumentTypeName(arg_indx).str();
+    str = str_data.c_str();
     result_size = str_data.size() + 1;
     break;
   case CL_KERNEL_ARG_TYPE_QUALIFIER:
@@ -3422,6 +3424,7 @@ CL_API_ENTRY cl_int CL_API_CALL clGetKernelArgInfo(
     break;
   case CL_KERNEL_ARG_NAME:
     str_data = kernel->kernel->getArgumentName(arg_indx).str();
+    str = str_data.c_str();
     result_size = str_data.size() + 1;
     break;
   default:
@@ -3437,8 +3440,8 @@ CL_API_ENTRY cl_int CL_API_CALL clGetKernelArgInfo(
                       ParamValueSizeTooSmall);
     }
 
-    if (str_data.size())
-      memcpy(param_value, str_data.c_str(), result_size);
+    if (str)
+      memcpy(param_value, str, result_size);
     else
       memcpy(param_value, &result_data, result_size);
   }
-- 
2.43.0


From 79976477e21efb6312ccabc9dc9a400e220149cc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:12:58 +0000
Subject: [PATCH 31/87] fix: clGetProgramInfo writes no binary through a NULL
 entry

---
 src/runtime/runtime.cpp | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/runtime/runtime.cpp b/src/runtime/runtime.cpp
index e64c99c..acd024c 100644
--- a/src/runtime/runtime.cpp
+++ b/src/runtime/runtime.cpp
@@ -2954,7 +2954,9 @@ CL_API_ENTRY cl_int CL_API_CALL clGetProgramInfo(
     }
     else if (param_name == CL_PROGRAM_BINARIES)
     {
-      program->program->getBinary(((unsigned char**)param_value)[0]);
+      // Entries that are NULL are skipped
+      if (((unsigned char**)param_value)[0])
+        program->program->getBinary(((unsigned char**)param_value)[0]);
     }
     else
     {
-- 
2.43.0


From efcd27d66dc8c7532883bd8e257c3f82e06076be Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:19:37 +0000
Subject: [PATCH 32/87] fix: a command runs although a command it waits for
 failed in the meantime

---
 src/core/Queue.cpp | 10 +++++++++-
 1 file changed, 9 insertions(+), 1 deletion(-)

diff --git a/src/core/Queue.cpp b/src/core/Queue.cpp
index 1b603b6..49d8237 100644
--- a/src/core/Queue.cpp
+++ b/src/core/Queue.cpp
@@ -179,9 +179,11 @@ void Queue::execute(Command* command, bool flush)
   // If there is a previous (older) command in the queue AND either the queue
   // is not out of order OR needs to be flushed, then add event associated with
   // previous (older) command as a dependency
+  Event* previous = NULL;
   if (it != m_queue.begin() && (!m_out_of_order || flush))
   {
-    command->waitList.push_back((*std::prev(it))->event);
+    previous = (*std::prev(it))->event;
+    command->waitList.push_back(previous);
   }
 
   // Make sure all events in the wait list are complete before executing
@@ -204,6 +206,12 @@ void Queue::execute(Command* command, bool flush)
         // If it's not a user event, execute the associated command
         evt->queue->execute(evt->command, flush);
         command->execBefore.push_front(evt->command);
+
+        // The command fails if an event that it was asked to wait for did
+        if (evt != previous)
+        {
+          command->waitList.push_front(evt);
+        }
       }
       else
       {
-- 
2.43.0


From f4e4a0e249a3162dd1b2a7f883162125ab55bcb2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:19:49 +0000
Subject: [PATCH 33/87] fix: clFinish leaves older commands pending when the
 newest one fails

---
 src/runtime/runtime.cpp | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/src/runtime/runtime.cpp b/src/runtime/runtime.cpp
index acd024c..2de1fd8 100644
--- a/src/runtime/runtime.cpp
+++ b/src/runtime/runtime.cpp
@@ -3891,8 +3891,11 @@ CL_API_ENTRY cl_int CL_API_CALL clFinish(cl_command_queue command_queue)
   }
 
   // TODO: Move this finish to async thread?
-  oclgrind::Command* cmd = command_queue->queue->finish();
-  releaseCommand(cmd);
+  // A command that fails leaves the older ones in the queue
+  while (oclgrind::Command* cmd = command_queue->queue->finish())
+  {
+    releaseCommand(cmd);
+  }
 
   return CL_SUCCESS;
 }
-- 
2.43.0


From 878577e67426210d24abd41b325846cd200dc2be Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:21:42 +0000
Subject: [PATCH 34/87] fix: clEnqueueTask reports its event as an ND-range
 command

---
 src/runtime/runtime.cpp | 11 ++++++++---
 1 file changed, 8 insertions(+), 3 deletions(-)

diff --git a/src/runtime/runtime.cpp b/src/runtime/runtime.cpp
index 2de1fd8..2d00dfa 100644
--- a/src/runtime/runtime.cpp
+++ b/src/runtime/runtime.cpp
@@ -5386,9 +5386,14 @@ clEnqueueTask(cl_command_queue command_queue, cl_kernel kernel,
   REGISTER_API;
 
   size_t work = 1;
-  return clEnqueueNDRangeKernel(command_queue, kernel, 1, NULL, &work, &work,
-                                num_events_in_wait_list, event_wait_list,
-                                event);
+  cl_int ret = clEnqueueNDRangeKernel(command_queue, kernel, 1, NULL, &work,
+                                      &work, num_events_in_wait_list,
+                                      event_wait_list, event);
+  if (event && ret == CL_SUCCESS)
+  {
+    (*event)->type = CL_COMMAND_TASK;
+  }
+  return ret;
 }
 
 CL_API_ENTRY cl_int CL_API_CALL clEnqueueNativeKernel(
-- 
2.43.0


From 6bfa7610ebb6997f9cccb6ebf0ec326f7682c371 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:31:47 +0000
Subject: [PATCH 35/87] fix: 32-bit counters in fill and rectangular transfers

---
 src/core/Queue.cpp | 20 ++++++++++----------
 1 file changed, 10 insertions(+), 10 deletions(-)

diff --git a/src/core/Queue.cpp b/src/core/Queue.cpp
index 49d8237..29b95fd 100644
--- a/src/core/Queue.cpp
+++ b/src/core/Queue.cpp
@@ -52,9 +52,9 @@ void Queue::executeCopyBufferRect(CopyRectCommand* cmd)
 {
   // Perform copy
   Memory* memory = m_context->getGlobalMemory();
-  for (unsigned z = 0; z < cmd->region[2]; z++)
+  for (size_t z = 0; z < cmd->region[2]; z++)
   {
-    for (unsigned y = 0; y < cmd->region[1]; y++)
+    for (size_t y = 0; y < cmd->region[1]; y++)
     {
       // Compute addresses
       size_t src = cmd->src + cmd->src_offset[0] + y * cmd->src_offset[1] +
@@ -71,7 +71,7 @@ void Queue::executeCopyBufferRect(CopyRectCommand* cmd)
 void Queue::executeFillBuffer(FillBufferCommand* cmd)
 {
   Memory* memory = m_context->getGlobalMemory();
-  for (unsigned i = 0; i < cmd->size / cmd->pattern_size; i++)
+  for (size_t i = 0; i < cmd->size / cmd->pattern_size; i++)
   {
     memory->store(cmd->pattern, cmd->address + i * cmd->pattern_size,
                   cmd->pattern_size);
@@ -82,11 +82,11 @@ void Queue::executeFillImage(FillImageCommand* cmd)
 {
   Memory* memory = m_context->getGlobalMemory();
 
-  for (unsigned z = 0; z < cmd->region[2]; z++)
+  for (size_t z = 0; z < cmd->region[2]; z++)
   {
-    for (unsigned y = 0; y < cmd->region[1]; y++)
+    for (size_t y = 0; y < cmd->region[1]; y++)
     {
-      for (unsigned x = 0; x < cmd->region[0]; x++)
+      for (size_t x = 0; x < cmd->region[0]; x++)
       {
         size_t address = cmd->base + (cmd->origin[0] + x) * cmd->pixelSize +
                          (cmd->origin[1] + y) * cmd->rowPitch +
@@ -124,9 +124,9 @@ void Queue::executeReadBuffer(BufferCommand* cmd)
 void Queue::executeReadBufferRect(BufferRectCommand* cmd)
 {
   Memory* memory = m_context->getGlobalMemory();
-  for (unsigned z = 0; z < cmd->region[2]; z++)
+  for (size_t z = 0; z < cmd->region[2]; z++)
   {
-    for (unsigned y = 0; y < cmd->region[1]; y++)
+    for (size_t y = 0; y < cmd->region[1]; y++)
     {
       unsigned char* host = cmd->ptr + cmd->host_offset[0] +
                             y * cmd->host_offset[1] + z * cmd->host_offset[2];
@@ -152,9 +152,9 @@ void Queue::executeWriteBufferRect(BufferRectCommand* cmd)
 {
   // Perform write
   Memory* memory = m_context->getGlobalMemory();
-  for (unsigned z = 0; z < cmd->region[2]; z++)
+  for (size_t z = 0; z < cmd->region[2]; z++)
   {
-    for (unsigned y = 0; y < cmd->region[1]; y++)
+    for (size_t y = 0; y < cmd->region[1]; y++)
     {
       const unsigned char* host = cmd->ptr + cmd->host_offset[0] +
                                   y * cmd->host_offset[1] +
-- 
2.43.0


From 08092a1fdf766a940c14a33d8114489b325411af Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:58:45 +0000
Subject: [PATCH 36/87] fix: run no work-group of an empty NDRange in quick
 mode

---
 src/core/KernelInvocation.cpp | 9 ++++++---
 1 file changed, 6 insertions(+), 3 deletions(-)

diff --git a/src/core/KernelInvocation.cpp b/src/core/KernelInvocation.cpp
index 75c13e2..c923a61 100644
--- a/src/core/KernelInvocation.cpp
+++ b/src/core/KernelInvocation.cpp
@@ -64,9 +64,12 @@ KernelInvocation::KernelInvocation(const Context* context, const Kernel* kernel,
     // Only run first and last work-groups in quick-mode
     Size3 firstGroup(0, 0, 0);
     Size3 lastGroup(m_numGroups.x - 1, m_numGroups.y - 1, m_numGroups.z - 1);
-    m_workGroups.push_back(firstGroup);
-    if (lastGroup != firstGroup)
-      m_workGroups.push_back(lastGroup);
+    if (m_numGroups.x && m_numGroups.y && m_numGroups.z)
+    {
+      m_workGroups.push_back(firstGroup);
+      if (lastGroup != firstGroup)
+        m_workGroups.push_back(lastGroup);
+    }
   }
   else
   {
-- 
2.43.0


From 1a15046c6348d288629918cca4d382e12cd4f81f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:58:45 +0000
Subject: [PATCH 37/87] fix: reject a work-group size of zero in simulator
 files

---
 src/kernel/Simulation.cpp | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/src/kernel/Simulation.cpp b/src/kernel/Simulation.cpp
index 1c462da..24df692 100644
--- a/src/kernel/Simulation.cpp
+++ b/src/kernel/Simulation.cpp
@@ -200,6 +200,13 @@ bool Simulation::load(const char* filename)
       return false;
     }
 
+    // Ensure work-group size is not zero
+    if (!m_wgsize.x || !m_wgsize.y || !m_wgsize.z)
+    {
+      cerr << "Work group size must not be zero." << endl;
+      return false;
+    }
+
     // Ensure work-group size exactly divides NDRange if necessary
     if (m_kernel->requiresUniformWorkGroups() &&
         (m_ndrange.x % m_wgsize.x || m_ndrange.y % m_wgsize.y ||
-- 
2.43.0


From 49b2f9b3d2ba7b3f53dc136e56d195ad455ffba8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:58:45 +0000
Subject: [PATCH 38/87] fix: reject zero local sizes and honour required sizes
 in launches

A local size of zero divided by zero, and a launch without a local size
ignored the kernel's required work-group size.
---
 src/runtime/runtime.cpp | 9 +++++++++
 1 file changed, 9 insertions(+)

diff --git a/src/runtime/runtime.cpp b/src/runtime/runtime.cpp
index 2d00dfa..d22a5b0 100644
--- a/src/runtime/runtime.cpp
+++ b/src/runtime/runtime.cpp
@@ -5276,8 +5276,17 @@ CL_API_ENTRY cl_int CL_API_CALL clEnqueueNDRangeKernel(
   size_t reqdWorkGroupSize[3];
   size_t totalWGSize = 1;
   kernel->kernel->getRequiredWorkGroupSize(reqdWorkGroupSize);
+  if (!local_work_size && reqdWorkGroupSize[0])
+  {
+    local_work_size = reqdWorkGroupSize;
+  }
   for (unsigned i = 0; i < work_dim; i++)
   {
+    if (local_work_size && !local_work_size[i])
+    {
+      ReturnErrorInfo(command_queue->context, CL_INVALID_WORK_GROUP_SIZE,
+                      "local_work_size[" << i << "] is 0");
+    }
     if (kernel->kernel->requiresUniformWorkGroups() && local_work_size &&
         global_work_size[i] % local_work_size[i])
     {
-- 
2.43.0


From f6888d9e68550aa64cce7e8040c79f0ea144d851 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:05:40 +0000
Subject: [PATCH 39/87] fix: check the kind of memory object and local
 arguments in clSetKernelArg

Images given for buffer parameters (and the reverse) were misread as the
other kind, a missing image was dereferenced, and local memory arguments
with no size or with a value were accepted.
---
 src/runtime/runtime.cpp | 28 ++++++++++++++++++++++++++++
 1 file changed, 28 insertions(+)

diff --git a/src/runtime/runtime.cpp b/src/runtime/runtime.cpp
index d22a5b0..265b6ef 100644
--- a/src/runtime/runtime.cpp
+++ b/src/runtime/runtime.cpp
@@ -3207,6 +3207,8 @@ clSetKernelArg(cl_kernel kernel, cl_uint arg_index, size_t arg_size,
   unsigned int addr = kernel->kernel->getArgumentAddressQualifier(arg_index);
   bool isSampler =
     kernel->kernel->getArgumentTypeName(arg_index) == "sampler_t";
+  bool isImage = kernel->kernel->getArgumentAccessQualifier(arg_index) !=
+                 CL_KERNEL_ARG_ACCESS_NONE;
 
   if (kernel->kernel->getArgumentSize(arg_index) != arg_size && !isSampler &&
       addr != CL_KERNEL_ARG_ADDRESS_LOCAL)
@@ -3221,6 +3223,24 @@ clSetKernelArg(cl_kernel kernel, cl_uint arg_index, size_t arg_size,
   {
     ReturnErrorArg(kernel->program->context, CL_INVALID_ARG_VALUE, arg_value);
   }
+  if (isImage && (!arg_value || !*(cl_mem*)arg_value))
+  {
+    ReturnErrorInfo(kernel->program->context, CL_INVALID_MEM_OBJECT,
+                    "argument should be an image");
+  }
+  if (addr == CL_KERNEL_ARG_ADDRESS_LOCAL)
+  {
+    if (arg_size == 0)
+    {
+      ReturnErrorInfo(kernel->program->context, CL_INVALID_ARG_SIZE,
+                      "arg_size is 0 for a local memory argument");
+    }
+    if (arg_value)
+    {
+      ReturnErrorInfo(kernel->program->context, CL_INVALID_ARG_VALUE,
+                      "arg_value is not NULL for a local memory argument");
+    }
+  }
   if (isSampler)
   {
     if (arg_size != sizeof(cl_sampler))
@@ -3260,6 +3280,14 @@ clSetKernelArg(cl_kernel kernel, cl_uint arg_index, size_t arg_size,
     {
       cl_mem mem = *(cl_mem*)arg_value;
 
+      if (mem->isImage != isImage)
+      {
+        delete[] value.data;
+        ReturnErrorInfo(kernel->program->context, CL_INVALID_MEM_OBJECT,
+                        "argument should be "
+                          << (isImage ? "an image" : "a buffer"));
+      }
+
       if (mem->isImage)
       {
         // Create Image struct
-- 
2.43.0


From a2afd048175660c620d4c4a9ab74461fcaa9379d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:48:43 +0000
Subject: [PATCH 40/87] fix: round long to float conversions once

---
 src/core/WorkItemBuiltins.cpp | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/src/core/WorkItemBuiltins.cpp b/src/core/WorkItemBuiltins.cpp
index d09483c..be8ee2f 100644
--- a/src/core/WorkItemBuiltins.cpp
+++ b/src/core/WorkItemBuiltins.cpp
@@ -3151,8 +3151,14 @@ class WorkItemBuiltins
       case 's':
       case 'i':
       case 'l':
-        result.setFloat(SARGV(0, i), i);
+      {
+        int64_t in = SARGV(0, i);
+        if (result.size == 4)
+          result.setFloat((float)in, i);
+        else
+          result.setFloat((double)in, i);
         break;
+      }
       case 'f':
       case 'd':
         result.setFloat(FARGV(0, i), i);
-- 
2.43.0


From 8a99b513e6891eec06c84e01da28bbff5fef90c6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:49:04 +0000
Subject: [PATCH 41/87] fix: convert double to half without rounding to float
 first

---
 src/core/WorkItemBuiltins.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/core/WorkItemBuiltins.cpp b/src/core/WorkItemBuiltins.cpp
index be8ee2f..65038c0 100644
--- a/src/core/WorkItemBuiltins.cpp
+++ b/src/core/WorkItemBuiltins.cpp
@@ -3200,8 +3200,8 @@ class WorkItemBuiltins
         break;
       case 'd':
       case 'f':
-        f = FARGV(0, i);
-        break;
+        result.setUInt(cl_half_from_double(FARGV(0, i), rmode), i);
+        continue;
       default:
         FATAL_ERROR("Unsupported argument type: %c",
                     getOverloadArgType(overload));
-- 
2.43.0


From 7a16593998aff734c33db9558365c8abfc4ff03f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:02:18 +0000
Subject: [PATCH 42/87] fix: keep the error message for an unrecognised
 argument header token alive

---
 src/kernel/Simulation.cpp | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/src/kernel/Simulation.cpp b/src/kernel/Simulation.cpp
index 24df692..7ec66a4 100644
--- a/src/kernel/Simulation.cpp
+++ b/src/kernel/Simulation.cpp
@@ -238,6 +238,12 @@ bool Simulation::load(const char* filename)
          << endl;
     return false;
   }
+  catch (const string& err)
+  {
+    cerr << "Line " << m_lineNumber << ": " << err << " (" << m_parsing << ")"
+         << endl;
+    return false;
+  }
   catch (ifstream::iostate e)
   {
     if (e == ifstream::eofbit)
@@ -437,7 +443,7 @@ void Simulation::parseArgument(size_t index)
       string err = "Unrecognised header token '";
       err += token;
       err += "'";
-      throw err.c_str();
+      throw err;
     }
   }
 
-- 
2.43.0


From 0a0a4c61c65a48a63ecc3f55f9406a9e4cfe61d7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:02:18 +0000
Subject: [PATCH 43/87] fix: read the last line of a simulation file that does
 not end in a newline

---
 src/kernel/Simulation.cpp | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/src/kernel/Simulation.cpp b/src/kernel/Simulation.cpp
index 7ec66a4..82eda44 100644
--- a/src/kernel/Simulation.cpp
+++ b/src/kernel/Simulation.cpp
@@ -97,7 +97,10 @@ template <typename T> void Simulation::get(T& result)
 
     // Get next line
     string line;
-    getline(m_simfile, line);
+    if (!getline(m_simfile, line))
+    {
+      break;
+    }
     m_lineNumber++;
 
     // Remove comments
@@ -110,7 +113,7 @@ template <typename T> void Simulation::get(T& result)
     // Update line buffer
     m_lineBuffer.clear();
     m_lineBuffer.str(line);
-  } while (m_simfile.good());
+  } while (true);
 
   // Couldn't read data from file, throw exception
   throw m_simfile.eof() ? ifstream::eofbit : ifstream::failbit;
-- 
2.43.0


From 69d110d9801b770379715cd0b1906506dbd487f7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:02:18 +0000
Subject: [PATCH 44/87] fix: reject trailing tokens, but not comments, after
 the last simulation argument

---
 src/kernel/Simulation.cpp | 17 ++++++++++++++---
 1 file changed, 14 insertions(+), 3 deletions(-)

diff --git a/src/kernel/Simulation.cpp b/src/kernel/Simulation.cpp
index 82eda44..dcf61f6 100644
--- a/src/kernel/Simulation.cpp
+++ b/src/kernel/Simulation.cpp
@@ -228,10 +228,21 @@ bool Simulation::load(const char* filename)
 
     // Make sure there is no more input
     string next;
-    m_simfile >> next;
-    if (m_simfile.good() || !m_simfile.eof())
+    bool more = true;
+    try
     {
-      cerr << "Unexpected token '" << next << "' (expected EOF)" << endl;
+      get(next);
+    }
+    catch (ifstream::iostate e)
+    {
+      if (e != ifstream::eofbit)
+        throw;
+      more = false;
+    }
+    if (more)
+    {
+      cerr << "Line " << m_lineNumber << ": Unexpected token '" << next
+           << "' (expected EOF)" << endl;
       return false;
     }
   }
-- 
2.43.0


From 313f6ad3e6dbf3d6fe07c5b803243a9ed93d2f39 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:02:18 +0000
Subject: [PATCH 45/87] fix: reject simulation arguments whose size is not that
 of the kernel argument

---
 src/kernel/Simulation.cpp | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/src/kernel/Simulation.cpp b/src/kernel/Simulation.cpp
index dcf61f6..63b6386 100644
--- a/src/kernel/Simulation.cpp
+++ b/src/kernel/Simulation.cpp
@@ -510,6 +510,12 @@ void Simulation::parseArgument(size_t index)
     throw "Initialiser type must exactly divide argument size";
   }
 
+  // Ensure the data given for a value covers exactly that value
+  if (addrSpace == CL_KERNEL_ARG_ADDRESS_PRIVATE && size != argSize)
+  {
+    throw "Size does not match the size of the kernel argument";
+  }
+
   // Ensure 'dump' only used with non-null buffers
   if (dump)
   {
-- 
2.43.0


From f4c3c2d26e3b9b43a39cf73ec7b4f0c256f24cf2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:02:18 +0000
Subject: [PATCH 46/87] fix: dump negative chars as two hexadecimal digits

---
 src/kernel/Simulation.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/kernel/Simulation.cpp b/src/kernel/Simulation.cpp
index 63b6386..b69b132 100644
--- a/src/kernel/Simulation.cpp
+++ b/src/kernel/Simulation.cpp
@@ -60,7 +60,7 @@ template <typename T> void Simulation::dumpArgument(DumpArg& arg)
     if (arg.hex)
       cout << "0x" << setfill('0') << setw(sizeof(T) * 2) << hex;
     if (sizeof(T) == 1)
-      cout << (int)data[i];
+      cout << (arg.hex ? (int)(uint8_t)data[i] : (int)data[i]);
     else
       cout << data[i];
     cout << dec;
-- 
2.43.0


From a4760e23e06b074d46781e832c749e7696f7060a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:02:18 +0000
Subject: [PATCH 47/87] fix: reject simulation arguments with a negative or
 unallocatable size

---
 src/kernel/Simulation.cpp | 9 ++++++++-
 1 file changed, 8 insertions(+), 1 deletion(-)

diff --git a/src/kernel/Simulation.cpp b/src/kernel/Simulation.cpp
index b69b132..25592c4 100644
--- a/src/kernel/Simulation.cpp
+++ b/src/kernel/Simulation.cpp
@@ -252,6 +252,12 @@ bool Simulation::load(const char* filename)
          << endl;
     return false;
   }
+  catch (const bad_alloc&)
+  {
+    cerr << "Line " << m_lineNumber << ": Failed to allocate host memory ("
+         << m_parsing << ")" << endl;
+    return false;
+  }
   catch (const string& err)
   {
     cerr << "Line " << m_lineNumber << ": " << err << " (" << m_parsing << ")"
@@ -434,8 +440,9 @@ void Simulation::parseArgument(size_t index)
         throw "Expected = after 'size'";
       }
 
+      bool negative = value.peek() == '-';
       value >> dec >> size;
-      if (value.fail() || !value.eof())
+      if (negative || value.fail() || !value.eof())
       {
         throw "Invalid value for 'size'";
       }
-- 
2.43.0


From 5d868e656a22b20892b8e330831dee5219725f56 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:30:24 +0000
Subject: [PATCH 48/87] fix: reject malformed numeric settings and do not
 truncate memory sizes to 32 bits

---
 src/core/common.cpp     |  5 +++--
 src/core/common.h       |  5 +++--
 src/runtime/runtime.cpp | 12 ++++++------
 3 files changed, 12 insertions(+), 10 deletions(-)

diff --git a/src/core/common.cpp b/src/core/common.cpp
index 8eba1e3..6687ecf 100644
--- a/src/core/common.cpp
+++ b/src/core/common.cpp
@@ -291,7 +291,7 @@ bool checkEnv(const char* var)
   return (value && !strcmp(value, "1"));
 }
 
-unsigned getEnvInt(const char* var, int def, bool allowZero)
+uint64_t getEnvInt(const char* var, int def, bool allowZero, uint64_t maxValue)
 {
   const char* value = getenv(var);
   if (!value)
@@ -299,7 +299,8 @@ unsigned getEnvInt(const char* var, int def, bool allowZero)
 
   char* next;
   uint64_t result = strtoul(value, &next, 10);
-  if (strlen(next) || result == ULONG_MAX || (!allowZero && !result))
+  if (next == value || strlen(next) || strchr(value, '-') ||
+      result == ULONG_MAX || result > maxValue || (!allowZero && !result))
   {
     cerr << endl << "Oclgrind: Invalid value for " << var << endl;
     abort();
diff --git a/src/core/common.h b/src/core/common.h
index 40de694..bc6f5a4 100644
--- a/src/core/common.h
+++ b/src/core/common.h
@@ -159,8 +159,9 @@ struct Image
 // Check if an environment variable is set to 1
 bool checkEnv(const char* var);
 
-// Get an environment variable as an integer
-unsigned getEnvInt(const char* var, int def = 0, bool allowZero = true);
+// Get an environment variable as an unsigned integer no larger than maxValue
+uint64_t getEnvInt(const char* var, int def = 0, bool allowZero = true,
+                   uint64_t maxValue = UINT32_MAX);
 
 // Output an instruction in human-readable format
 void dumpInstruction(std::ostream& out, const llvm::Instruction* instruction);
diff --git a/src/runtime/runtime.cpp b/src/runtime/runtime.cpp
index 265b6ef..804ab94 100644
--- a/src/runtime/runtime.cpp
+++ b/src/runtime/runtime.cpp
@@ -321,13 +321,13 @@ CL_API_ENTRY cl_int CL_API_CALL clIcdGetPlatformIDsKHR(
     m_device = new _cl_device_id;
     m_device->dispatch = m_dispatchTable;
     m_device->globalMemSize = oclgrind::getEnvInt(
-      "OCLGRIND_GLOBAL_MEM_SIZE", DEFAULT_GLOBAL_MEM_SIZE, false);
+      "OCLGRIND_GLOBAL_MEM_SIZE", DEFAULT_GLOBAL_MEM_SIZE, false, SIZE_MAX);
     m_device->constantMemSize = oclgrind::getEnvInt(
-      "OCLGRIND_CONSTANT_MEM_SIZE", DEFAULT_CONSTANT_MEM_SIZE, false);
-    m_device->localMemSize = oclgrind::getEnvInt("OCLGRIND_LOCAL_MEM_SIZE",
-                                                 DEFAULT_LOCAL_MEM_SIZE, false);
-    m_device->maxWGSize =
-      oclgrind::getEnvInt("OCLGRIND_MAX_WGSIZE", DEFAULT_MAX_WGSIZE, false);
+      "OCLGRIND_CONSTANT_MEM_SIZE", DEFAULT_CONSTANT_MEM_SIZE, false, SIZE_MAX);
+    m_device->localMemSize = oclgrind::getEnvInt(
+      "OCLGRIND_LOCAL_MEM_SIZE", DEFAULT_LOCAL_MEM_SIZE, false, SIZE_MAX);
+    m_device->maxWGSize = oclgrind::getEnvInt(
+      "OCLGRIND_MAX_WGSIZE", DEFAULT_MAX_WGSIZE, false, SIZE_MAX);
   }
 
   if (platforms)
-- 
2.43.0


From 00922525b72ac68c738865b0faa0674fbc0d6291 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:46:11 +0000
Subject: [PATCH 49/87] fix: grow the instruction totals when work-groups call
 different functions

---
 src/plugins/InstructionCounter.cpp | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/plugins/InstructionCounter.cpp b/src/plugins/InstructionCounter.cpp
index df6157b..20e8ceb 100644
--- a/src/plugins/InstructionCounter.cpp
+++ b/src/plugins/InstructionCounter.cpp
@@ -249,6 +249,10 @@ void InstructionCounter::workGroupComplete(const WorkGroup* workGroup)
       }
     }
 
+    // Functions of other work-groups may have claimed the slots in between
+    if (opcode >= m_instructionCounts.size())
+      m_instructionCounts.resize(opcode + 1);
+
     m_instructionCounts[opcode] += m_state.instCounts->at(i);
   }
 
-- 
2.43.0


From 70e2dbc5726b543d184e4d2b6a8e1055bd086710 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:04:36 +0000
Subject: [PATCH 50/87] fix: bound vector element indices in extractelement and
 insertelement

---
 src/core/WorkItem.cpp | 15 +++++++++++++--
 1 file changed, 13 insertions(+), 2 deletions(-)

diff --git a/src/core/WorkItem.cpp b/src/core/WorkItem.cpp
index bcb8b55..323e29f 100644
--- a/src/core/WorkItem.cpp
+++ b/src/core/WorkItem.cpp
@@ -934,8 +934,14 @@ INSTRUCTION(extractelem)
 {
   const llvm::ExtractElementInst* extract =
     (const llvm::ExtractElementInst*)instruction;
-  unsigned index = getOperand(extract->getIndexOperand()).getUInt();
+  uint64_t index = getOperand(extract->getIndexOperand()).getUInt();
   TypedValue operand = getOperand(extract->getVectorOperand());
+  if (index >= operand.num)
+  {
+    // Out-of-range indices produce an undefined value
+    memset(result.data, 0, result.size);
+    return;
+  }
   memcpy(result.data, operand.data + result.size * index, result.size);
 }
 
@@ -1209,8 +1215,13 @@ INSTRUCTION(insertelem)
 {
   TypedValue vector = getOperand(instruction->getOperand(0));
   TypedValue element = getOperand(instruction->getOperand(1));
-  unsigned index = getOperand(instruction->getOperand(2)).getUInt();
+  uint64_t index = getOperand(instruction->getOperand(2)).getUInt();
   memcpy(result.data, vector.data, result.size * result.num);
+  if (index >= result.num)
+  {
+    // Out-of-range indices do not modify the vector
+    return;
+  }
   memcpy(result.data + index * result.size, element.data, result.size);
 }
 
-- 
2.43.0


From 18118848cb62d478aad4d26e64ef591536a6dd48 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:05:54 +0000
Subject: [PATCH 51/87] fix: bound vector element indices in the
 uninitialised-value checker

---
 src/plugins/Uninitialized.cpp | 23 +++++++++++++++++------
 1 file changed, 17 insertions(+), 6 deletions(-)

diff --git a/src/plugins/Uninitialized.cpp b/src/plugins/Uninitialized.cpp
index 39de5fc..3826bb9 100644
--- a/src/plugins/Uninitialized.cpp
+++ b/src/plugins/Uninitialized.cpp
@@ -1227,10 +1227,18 @@ void Uninitialized::instructionExecuted(const WorkItem* workItem,
       shadowContext.getValue(workItem, extractInst->getVectorOperand());
     TypedValue newShadow = shadowContext.getMemoryPool()->clone(result);
 
-    unsigned index =
+    uint64_t index =
       workItem->getOperand(extractInst->getIndexOperand()).getUInt();
-    memcpy(newShadow.data, vectorShadow.data + newShadow.size * index,
-           newShadow.size);
+    if (index < vectorShadow.num)
+    {
+      memcpy(newShadow.data, vectorShadow.data + newShadow.size * index,
+             newShadow.size);
+    }
+    else
+    {
+      // Out-of-range indices produce an undefined value
+      memset(newShadow.data, 0xFF, newShadow.size);
+    }
 
     shadowValues->setValue(instruction, newShadow);
     break;
@@ -1361,10 +1369,13 @@ void Uninitialized::instructionExecuted(const WorkItem* workItem,
       shadowContext.getValue(workItem, instruction->getOperand(1));
     TypedValue newShadow = shadowContext.getMemoryPool()->clone(result);
 
-    unsigned index = workItem->getOperand(instruction->getOperand(2)).getUInt();
+    uint64_t index = workItem->getOperand(instruction->getOperand(2)).getUInt();
     memcpy(newShadow.data, vectorShadow.data, newShadow.size * newShadow.num);
-    memcpy(newShadow.data + index * newShadow.size, elementShadow.data,
-           newShadow.size);
+    if (index < newShadow.num)
+    {
+      memcpy(newShadow.data + index * newShadow.size, elementShadow.data,
+             newShadow.size);
+    }
 
     shadowValues->setValue(instruction, newShadow);
     break;
-- 
2.43.0


From c57f88252345916b859e4d9b364c38ceee62bb37 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:06:11 +0000
Subject: [PATCH 52/87] fix: reduce shuffle mask values by the vector length in
 the uninitialised-value checker

---
 src/plugins/Uninitialized.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/plugins/Uninitialized.cpp b/src/plugins/Uninitialized.cpp
index 3826bb9..ef72b3f 100644
--- a/src/plugins/Uninitialized.cpp
+++ b/src/plugins/Uninitialized.cpp
@@ -511,7 +511,7 @@ bool Uninitialized::handleBuiltinFunction(const WorkItem* workItem, string name,
       }
       else
       {
-        size_t srcOffset = (mask.getUInt(i) % shadow.size) * shadow.size;
+        size_t srcOffset = (mask.getUInt(i) % shadow.num) * shadow.size;
         memcpy(newShadow.data + i * newShadow.size, shadow.data + srcOffset,
                newShadow.size);
       }
-- 
2.43.0


From 3191f60bb2565c0d5a2c1e91e40f4b799d27ca79 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:07:07 +0000
Subject: [PATCH 53/87] fix: apply scalar bounds to every lane in integer
 clamp, max and min

---
 src/core/WorkItemBuiltins.cpp | 86 ++++++++++++++++++++++++++++++++---
 1 file changed, 80 insertions(+), 6 deletions(-)

diff --git a/src/core/WorkItemBuiltins.cpp b/src/core/WorkItemBuiltins.cpp
index 65038c0..62ddf6f 100644
--- a/src/core/WorkItemBuiltins.cpp
+++ b/src/core/WorkItemBuiltins.cpp
@@ -457,13 +457,39 @@ class WorkItemBuiltins
     case 't':
     case 'j':
     case 'm':
-      u3arg(workItem, callInst, fnName, overload, result, _clamp_);
+      if (ARG(1)->getType()->isVectorTy())
+      {
+        u3arg(workItem, callInst, fnName, overload, result, _clamp_);
+      }
+      else
+      {
+        for (unsigned i = 0; i < result.num; i++)
+        {
+          uint64_t x = UARGV(0, i);
+          uint64_t minval = UARG(1);
+          uint64_t maxval = UARG(2);
+          result.setUInt(_clamp_(x, minval, maxval), i);
+        }
+      }
       break;
     case 'c':
     case 's':
     case 'i':
     case 'l':
-      s3arg(workItem, callInst, fnName, overload, result, _clamp_);
+      if (ARG(1)->getType()->isVectorTy())
+      {
+        s3arg(workItem, callInst, fnName, overload, result, _clamp_);
+      }
+      else
+      {
+        for (unsigned i = 0; i < result.num; i++)
+        {
+          int64_t x = SARGV(0, i);
+          int64_t minval = SARG(1);
+          int64_t maxval = SARG(2);
+          result.setSInt(_clamp_(x, minval, maxval), i);
+        }
+      }
       break;
     default:
       FATAL_ERROR("Unsupported argument type: %c",
@@ -495,13 +521,37 @@ class WorkItemBuiltins
     case 't':
     case 'j':
     case 'm':
-      u2arg(workItem, callInst, fnName, overload, result, _max_);
+      if (ARG(1)->getType()->isVectorTy())
+      {
+        u2arg(workItem, callInst, fnName, overload, result, _max_);
+      }
+      else
+      {
+        for (unsigned i = 0; i < result.num; i++)
+        {
+          uint64_t x = UARGV(0, i);
+          uint64_t y = UARG(1);
+          result.setUInt(_max_(x, y), i);
+        }
+      }
       break;
     case 'c':
     case 's':
     case 'i':
     case 'l':
-      s2arg(workItem, callInst, fnName, overload, result, _max_);
+      if (ARG(1)->getType()->isVectorTy())
+      {
+        s2arg(workItem, callInst, fnName, overload, result, _max_);
+      }
+      else
+      {
+        for (unsigned i = 0; i < result.num; i++)
+        {
+          int64_t x = SARGV(0, i);
+          int64_t y = SARG(1);
+          result.setSInt(_max_(x, y), i);
+        }
+      }
       break;
     default:
       FATAL_ERROR("Unsupported argument type: %c",
@@ -533,13 +583,37 @@ class WorkItemBuiltins
     case 't':
     case 'j':
     case 'm':
-      u2arg(workItem, callInst, fnName, overload, result, _min_);
+      if (ARG(1)->getType()->isVectorTy())
+      {
+        u2arg(workItem, callInst, fnName, overload, result, _min_);
+      }
+      else
+      {
+        for (unsigned i = 0; i < result.num; i++)
+        {
+          uint64_t x = UARGV(0, i);
+          uint64_t y = UARG(1);
+          result.setUInt(_min_(x, y), i);
+        }
+      }
       break;
     case 'c':
     case 's':
     case 'i':
     case 'l':
-      s2arg(workItem, callInst, fnName, overload, result, _min_);
+      if (ARG(1)->getType()->isVectorTy())
+      {
+        s2arg(workItem, callInst, fnName, overload, result, _min_);
+      }
+      else
+      {
+        for (unsigned i = 0; i < result.num; i++)
+        {
+          int64_t x = SARGV(0, i);
+          int64_t y = SARG(1);
+          result.setSInt(_min_(x, y), i);
+        }
+      }
       break;
     default:
       FATAL_ERROR("Unsupported argument type: %c",
-- 
2.43.0


From d97dfc3e0eef580744a619ac5257fff4a4b9c0c9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:07:24 +0000
Subject: [PATCH 54/87] fix: apply a scalar exponent to every lane in ldexp

---
 src/core/WorkItemBuiltins.cpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/core/WorkItemBuiltins.cpp b/src/core/WorkItemBuiltins.cpp
index 62ddf6f..d9776ae 100644
--- a/src/core/WorkItemBuiltins.cpp
+++ b/src/core/WorkItemBuiltins.cpp
@@ -2547,7 +2547,8 @@ class WorkItemBuiltins
   {
     for (unsigned i = 0; i < result.num; i++)
     {
-      result.setFloat(ldexp(FARGV(0, i), SARGV(1, i)), i);
+      int64_t exp = ARG(1)->getType()->isVectorTy() ? SARGV(1, i) : SARG(1);
+      result.setFloat(ldexp(FARGV(0, i), exp), i);
     }
   }
 
-- 
2.43.0


From 78d83961283e7d5af4c5eccffaca7d7ea5742c10 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:07:45 +0000
Subject: [PATCH 55/87] fix: do not write a fourth lane in cross for
 three-component vectors

---
 src/core/WorkItemBuiltins.cpp | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/core/WorkItemBuiltins.cpp b/src/core/WorkItemBuiltins.cpp
index d9776ae..426795c 100644
--- a/src/core/WorkItemBuiltins.cpp
+++ b/src/core/WorkItemBuiltins.cpp
@@ -672,7 +672,10 @@ class WorkItemBuiltins
     result.setFloat(u2 * v3 - u3 * v2, 0);
     result.setFloat(u3 * v1 - u1 * v3, 1);
     result.setFloat(u1 * v2 - u2 * v1, 2);
-    result.setFloat(0, 3);
+    if (result.num > 3)
+    {
+      result.setFloat(0, 3);
+    }
   }
 
   DEFINE_BUILTIN(dot)
-- 
2.43.0


From c08e2793acdca658f18ff0364b8daea04fd449da Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:08:52 +0000
Subject: [PATCH 56/87] fix: check printf arguments and format specifiers

---
 src/core/WorkItemBuiltins.cpp | 52 +++++++++++++++++++++++++++--------
 1 file changed, 40 insertions(+), 12 deletions(-)

diff --git a/src/core/WorkItemBuiltins.cpp b/src/core/WorkItemBuiltins.cpp
index 426795c..8b8e6e2 100644
--- a/src/core/WorkItemBuiltins.cpp
+++ b/src/core/WorkItemBuiltins.cpp
@@ -3456,12 +3456,24 @@ class WorkItemBuiltins
     size_t formatPtr = workItem->getOperand(ARG(0)).getPointer();
     Memory* memory = workItem->getMemory(AddrSpaceGlobal);
 
-    int arg = 1;
+    // Get the next argument, checking that it has enough components
+    unsigned arg = 1;
+    auto nextArgument = [&](unsigned width) {
+      if (arg >= callInst->arg_size())
+        FATAL_ERROR("Not enough arguments for printf format string");
+
+      TypedValue value = workItem->getOperand(ARG(arg));
+      if (value.num < width)
+        FATAL_ERROR("Invalid vector length in printf format string");
+
+      arg++;
+      return value;
+    };
+
     while (true)
     {
       char c;
-      memory->load((unsigned char*)&c, formatPtr++);
-      if (c == '\0')
+      if (!memory->load((unsigned char*)&c, formatPtr++) || c == '\0')
       {
         break;
       }
@@ -3472,7 +3484,8 @@ class WorkItemBuiltins
         string format = "%";
         while (true)
         {
-          memory->load((unsigned char*)&c, formatPtr++);
+          if (!memory->load((unsigned char*)&c, formatPtr++))
+            c = '\0';
           if (c == '\0')
           {
             cout << format;
@@ -3482,7 +3495,9 @@ class WorkItemBuiltins
           if (c == 'v')
           {
             // Load vector width specifier
-            memory->load((unsigned char*)&c, formatPtr++);
+            if (!memory->load((unsigned char*)&c, formatPtr++) || c < '1' ||
+                c > '9')
+              FATAL_ERROR("Invalid vector length in printf format string");
             vectorWidth = c - '0';
             if (vectorWidth == 1)
             {
@@ -3498,6 +3513,9 @@ class WorkItemBuiltins
           if (c == 'h')
             continue;
 
+          if (!strchr("+-#. l0123456789cdiouxXpfFeEgGaAs%", c))
+            FATAL_ERROR("Unsupported printf format specifier: '%c'", c);
+
           format += c;
           bool done = false;
           switch (c)
@@ -3505,29 +3523,33 @@ class WorkItemBuiltins
           case 'c':
           case 'd':
           case 'i':
+          {
+            TypedValue value = nextArgument(vectorWidth);
             for (unsigned i = 0; i < vectorWidth; i++)
             {
               if (i > 0)
                 printf(",");
-              printf(format.c_str(), SARGV(arg, i));
+              printf(format.c_str(), value.getSInt(i));
             }
-            arg++;
             done = true;
             break;
+          }
           case 'o':
           case 'u':
           case 'x':
           case 'X':
           case 'p':
+          {
+            TypedValue value = nextArgument(vectorWidth);
             for (unsigned i = 0; i < vectorWidth; i++)
             {
               if (i > 0)
                 printf(",");
-              printf(format.c_str(), UARGV(arg, i));
+              printf(format.c_str(), value.getUInt(i));
             }
-            arg++;
             done = true;
             break;
+          }
           case 'f':
           case 'F':
           case 'e':
@@ -3536,18 +3558,24 @@ class WorkItemBuiltins
           case 'G':
           case 'a':
           case 'A':
+          {
+            TypedValue value = nextArgument(vectorWidth);
             for (unsigned i = 0; i < vectorWidth; i++)
             {
               if (i > 0)
                 printf(",");
-              printf(format.c_str(), FARGV(arg, i));
+              printf(format.c_str(), value.getFloat(i));
             }
-            arg++;
             done = true;
             break;
+          }
           case 's':
           {
-            size_t ptr = UARG(arg++);
+            if (format.find('l') != string::npos)
+              FATAL_ERROR("Unsupported printf format specifier: '%s'",
+                          format.c_str());
+
+            size_t ptr = nextArgument(1).getUInt();
             if (!ptr)
             {
               // Special case for printing NULL pointer
-- 
2.43.0


From 518f0c6e5d369a37ac3ad0c0e8e3ce41e5f3902e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:15:39 +0000
Subject: [PATCH 57/87] fix: check the address of by-value arguments in the
 uninitialised-value checker

---
 src/plugins/Uninitialized.cpp | 4 +---
 1 file changed, 1 insertion(+), 3 deletions(-)

diff --git a/src/plugins/Uninitialized.cpp b/src/plugins/Uninitialized.cpp
index ef72b3f..28c2388 100644
--- a/src/plugins/Uninitialized.cpp
+++ b/src/plugins/Uninitialized.cpp
@@ -1181,13 +1181,11 @@ void Uninitialized::instructionExecuted(const WorkItem* workItem,
         size_t origShadowAddress = workItem->getOperand(Val).getPointer();
         size_t newShadowAddress = workItem->getOperand(&*argItr).getPointer();
         ShadowMemory* mem = shadowWorkItem->getPrivateMemory();
-        unsigned char* origShadowData =
-          (unsigned char*)mem->getPointer(origShadowAddress);
         size_t size = getTypeSize(argItr->getParamByValType());
 
         // Set new shadow memory
         TypedValue v = ShadowContext::getCleanValue(size);
-        memcpy(v.data, origShadowData, size);
+        mem->load(v.data, origShadowAddress, size);
         allocAndStoreShadowMemory(AddrSpacePrivate, newShadowAddress, v,
                                   workItem);
         values->setValue(&*argItr, ShadowContext::getCleanValue(&*argItr));
-- 
2.43.0


From e65a150c61e53aecc6bb7e862f32bf1d3c624036 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:16:48 +0000
Subject: [PATCH 58/87] fix: take the host address of the subscripted element
 when printing expressions

---
 src/core/WorkItem.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/core/WorkItem.cpp b/src/core/WorkItem.cpp
index 323e29f..5e39357 100644
--- a/src/core/WorkItem.cpp
+++ b/src/core/WorkItem.cpp
@@ -638,8 +638,8 @@ void WorkItem::printExpression(string expr) const
       }
 
       // Get pointer to data and add offset
-      data = (unsigned char*)memory->getPointer(address);
-      data += subscript * elemSize;
+      data =
+        (unsigned char*)memory->getPointer(address + subscript * elemSize);
 
       // Update types
       mdtype = ptrtype->getRawBaseType();
-- 
2.43.0


From 797cd4d8fb43fc8ac4d0da26629f632be5538aca Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:34:15 +0000
Subject: [PATCH 59/87] fix: do not terminate the process on LLVM errors such
 as link failures

---
 src/core/Context.cpp | 25 +++++++++++++++++++++++++
 1 file changed, 25 insertions(+)

diff --git a/src/core/Context.cpp b/src/core/Context.cpp
index 485c258..47f13ae 100644
--- a/src/core/Context.cpp
+++ b/src/core/Context.cpp
@@ -16,11 +16,16 @@
 #include <dlfcn.h>
 #endif
 
+#include <memory>
 #include <mutex>
 
 #include "llvm/IR/DebugInfo.h"
+#include "llvm/IR/DiagnosticHandler.h"
+#include "llvm/IR/DiagnosticInfo.h"
+#include "llvm/IR/DiagnosticPrinter.h"
 #include "llvm/IR/Instruction.h"
 #include "llvm/IR/LLVMContext.h"
+#include "llvm/Support/raw_ostream.h"
 
 #include "Context.h"
 #include "Kernel.h"
@@ -40,9 +45,29 @@
 using namespace oclgrind;
 using namespace std;
 
+namespace {
+// Reports LLVM diagnostics without terminating the process on errors, which is
+// what LLVM does if there is no handler
+struct DiagnosticReporter : public llvm::DiagnosticHandler
+{
+  bool handleDiagnostics(const llvm::DiagnosticInfo& info) override
+  {
+    llvm::DiagnosticPrinterRawOStream printer(llvm::errs());
+    llvm::errs() << llvm::LLVMContext::getDiagnosticMessagePrefix(
+                      info.getSeverity())
+                 << ": ";
+    info.print(printer);
+    llvm::errs() << "\n";
+    return true;
+  }
+};
+} // namespace
+
 Context::Context()
 {
   m_llvmContext = new llvm::LLVMContext;
+  m_llvmContext->setDiagnosticHandler(std::make_unique<DiagnosticReporter>(),
+                                      true);
 
   m_globalMemory =
     new Memory(AddrSpaceGlobal, sizeof(size_t) == 8 ? 16 : 8, this);
-- 
2.43.0


From 41b14b85293cbe3e29b66634f082d5af0eeab99e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:34:37 +0000
Subject: [PATCH 60/87] fix: fail to link programs that have not been compiled

---
 src/core/Program.cpp | 12 +++++++++---
 1 file changed, 9 insertions(+), 3 deletions(-)

diff --git a/src/core/Program.cpp b/src/core/Program.cpp
index e307af3..696bd91 100644
--- a/src/core/Program.cpp
+++ b/src/core/Program.cpp
@@ -709,14 +709,20 @@ Program* Program::createFromPrograms(const Context* context,
                                      list<const Program*> programs,
                                      const char* options)
 {
-  llvm::Module* module =
-    new llvm::Module("oclgrind_linked", *context->getLLVMContext());
+  unique_ptr<llvm::Module> module(
+    new llvm::Module("oclgrind_linked", *context->getLLVMContext()));
   llvm::Linker linker(*module);
 
   // Link modules
   list<const Program*>::iterator itr;
   for (itr = programs.begin(); itr != programs.end(); itr++)
   {
+    // Programs that have not been compiled successfully have no module
+    if (!(*itr)->m_module)
+    {
+      return NULL;
+    }
+
     unique_ptr<llvm::Module> m = llvm::CloneModule(*(*itr)->m_module);
     if (linker.linkInModule(std::move(m)))
     {
@@ -732,7 +738,7 @@ Program* Program::createFromPrograms(const Context* context,
   }
   setBinaryType(*module, binaryType);
 
-  return new Program(context, module);
+  return new Program(context, module.release());
 }
 
 Kernel* Program::createKernel(const string name)
-- 
2.43.0


From 44e9eb6562a0ec17aa43bbee9e8684845a3adf0e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:35:43 +0000
Subject: [PATCH 61/87] fix: contain exceptions other than fatal errors raised
 while executing a kernel

---
 src/core/KernelInvocation.cpp | 15 +++++++++++++--
 1 file changed, 13 insertions(+), 2 deletions(-)

diff --git a/src/core/KernelInvocation.cpp b/src/core/KernelInvocation.cpp
index c923a61..16c8eb8 100644
--- a/src/core/KernelInvocation.cpp
+++ b/src/core/KernelInvocation.cpp
@@ -257,9 +257,20 @@ void KernelInvocation::runWorker(int id)
          << "(" << err.getFile() << ":" << err.getLine() << ")" << endl
          << err.what();
     m_context->logError(info.str().c_str());
+  }
+  catch (const std::exception& err)
+  {
+    // For example, a kernel may use more memory than is available
+    ostringstream info;
+    info << "OCLGRIND FATAL ERROR" << endl << err.what();
+    m_context->logError(info.str().c_str());
+  }
 
-    if (workerState.workGroup)
-      delete workerState.workGroup;
+  // Clean up if execution was aborted
+  if (workerState.workGroup)
+  {
+    delete workerState.workGroup;
+    workerState.workGroup = NULL;
   }
 }
 
-- 
2.43.0


From b77166ae7d44a75dbf211ca301c4c526f3fd7eca Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:36:10 +0000
Subject: [PATCH 62/87] fix: report fatal errors raised when a kernel begins

---
 src/core/KernelInvocation.cpp | 27 ++++++++++++++++++++-------
 1 file changed, 20 insertions(+), 7 deletions(-)

diff --git a/src/core/KernelInvocation.cpp b/src/core/KernelInvocation.cpp
index 16c8eb8..595de80 100644
--- a/src/core/KernelInvocation.cpp
+++ b/src/core/KernelInvocation.cpp
@@ -141,6 +141,15 @@ size_t KernelInvocation::getWorkDim() const
   return m_workDim;
 }
 
+static void logFatalError(const Context* context, const FatalError& err)
+{
+  ostringstream info;
+  info << "OCLGRIND FATAL ERROR "
+       << "(" << err.getFile() << ":" << err.getLine() << ")" << endl
+       << err.what();
+  context->logError(info.str().c_str());
+}
+
 void KernelInvocation::run(const Context* context, Kernel* kernel,
                            unsigned int workDim, Size3 globalOffset,
                            Size3 globalSize, Size3 localSize)
@@ -150,8 +159,16 @@ void KernelInvocation::run(const Context* context, Kernel* kernel,
     context, kernel, workDim, globalOffset, globalSize, localSize);
 
   // Run kernel
-  context->notifyKernelBegin(ki);
-  ki->run();
+  try
+  {
+    context->notifyKernelBegin(ki);
+    ki->run();
+  }
+  catch (const FatalError& err)
+  {
+    // A plugin does not support the kernel
+    logFatalError(context, err);
+  }
   context->notifyKernelEnd(ki);
 
   delete ki;
@@ -252,11 +269,7 @@ void KernelInvocation::runWorker(int id)
   }
   catch (const FatalError& err)
   {
-    ostringstream info;
-    info << "OCLGRIND FATAL ERROR "
-         << "(" << err.getFile() << ":" << err.getLine() << ")" << endl
-         << err.what();
-    m_context->logError(info.str().c_str());
+    logFatalError(m_context, err);
   }
   catch (const std::exception& err)
   {
-- 
2.43.0


From c4e5fd82ccafae5d3d328897dea8edf1f53c6144 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:42:22 +0000
Subject: [PATCH 63/87] fix: report failed compilations with their own code and
 callback

---
 src/runtime/runtime.cpp | 11 +++++++----
 1 file changed, 7 insertions(+), 4 deletions(-)

diff --git a/src/runtime/runtime.cpp b/src/runtime/runtime.cpp
index 804ab94..0f35ddb 100644
--- a/src/runtime/runtime.cpp
+++ b/src/runtime/runtime.cpp
@@ -2754,10 +2754,8 @@ CL_API_ENTRY cl_int CL_API_CALL clCompileProgram(
   }
 
   // Build program
-  if (!program->program->build(oclgrind::Program::COMPILE, options, headers))
-  {
-    ReturnError(program->context, CL_BUILD_PROGRAM_FAILURE);
-  }
+  bool success =
+    program->program->build(oclgrind::Program::COMPILE, options, headers);
 
   // Fire callback
   if (pfn_notify)
@@ -2765,6 +2763,11 @@ CL_API_ENTRY cl_int CL_API_CALL clCompileProgram(
     pfn_notify(program, user_data);
   }
 
+  if (!success)
+  {
+    ReturnError(program->context, CL_COMPILE_PROGRAM_FAILURE);
+  }
+
   return CL_SUCCESS;
 }
 
-- 
2.43.0


From 8a901f5054ace7e8a74d4aa675c8fbf80c8ea642 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:56:22 +0000
Subject: [PATCH 64/87] fix: track the initial contents of global buffers in
 the uninitialized checker

---
 src/plugins/Uninitialized.cpp | 61 +++++++++++++++++++++++++++--------
 src/plugins/Uninitialized.h   | 11 ++++---
 2 files changed, 54 insertions(+), 18 deletions(-)

diff --git a/src/plugins/Uninitialized.cpp b/src/plugins/Uninitialized.cpp
index 28c2388..86882cc 100644
--- a/src/plugins/Uninitialized.cpp
+++ b/src/plugins/Uninitialized.cpp
@@ -27,14 +27,6 @@
 using namespace oclgrind;
 using namespace std;
 
-// void Uninitialized::memoryAllocated(const Memory *memory, size_t address,
-//                                 size_t size, cl_mem_flags flags,
-//                                 const uint8_t *initData)
-//{
-//    cout << "Memory: " << memory << ", address: " << hex << address << dec <<
-//    ", size: " << size << endl;
-//}
-
 // Multiple mutexes to mitigate risk of unnecessary synchronisation in atomics
 #define NUM_ATOMIC_MUTEXES 64 // Must be power of two
 static std::mutex atomicShadowMutex[NUM_ATOMIC_MUTEXES];
@@ -1013,8 +1005,7 @@ void Uninitialized::hostMemoryStore(const Memory* memory, size_t address,
 {
   if (memory->getAddressSpace() == AddrSpaceGlobal)
   {
-    TypedValue v = ShadowContext::getCleanValue(size);
-    allocAndStoreShadowMemory(AddrSpaceGlobal, address, v);
+    shadowContext.getGlobalMemory()->setClean(address, size);
   }
 }
 
@@ -1980,13 +1971,39 @@ void Uninitialized::logUninitializedWrite(unsigned int addrSpace,
   msg.send();
 }
 
+void Uninitialized::memoryAllocated(const Memory* memory, size_t address,
+                                    size_t size, cl_mem_flags flags,
+                                    const uint8_t* initData)
+{
+  if (memory->getAddressSpace() == AddrSpaceGlobal)
+  {
+    ShadowMemory* shadowMemory = shadowContext.getGlobalMemory();
+    shadowMemory->allocate(address, size);
+    if (initData)
+    {
+      shadowMemory->setClean(address, size);
+    }
+    else
+    {
+      shadowMemory->setPoisoned(address, size);
+    }
+  }
+}
+
+void Uninitialized::memoryDeallocated(const Memory* memory, size_t address)
+{
+  if (memory->getAddressSpace() == AddrSpaceGlobal)
+  {
+    shadowContext.getGlobalMemory()->deallocate(address);
+  }
+}
+
 void Uninitialized::memoryMap(const Memory* memory, size_t address,
                               size_t offset, size_t size, cl_map_flags flags)
 {
-  if (!(flags & CL_MAP_READ))
+  if (!(flags & CL_MAP_READ) && memory->getAddressSpace() == AddrSpaceGlobal)
   {
-    allocAndStoreShadowMemory(memory->getAddressSpace(), address + offset,
-                              ShadowContext::getCleanValue(size));
+    shadowContext.getGlobalMemory()->setClean(address + offset, size);
   }
 }
 
@@ -2418,7 +2435,7 @@ void ShadowMemory::deallocate(size_t address)
 
   delete[] m_map.at(index)->data;
   delete m_map.at(index);
-  m_map.at(index) = NULL;
+  m_map.erase(index);
 }
 
 void ShadowMemory::dump() const
@@ -2503,6 +2520,22 @@ void ShadowMemory::lock(size_t address) const
   ATOMIC_MUTEX(offset).lock();
 }
 
+void ShadowMemory::setClean(size_t address, size_t size)
+{
+  if (isAddressValid(address, size))
+  {
+    memset(getPointer(address), 0, size);
+  }
+}
+
+void ShadowMemory::setPoisoned(size_t address, size_t size)
+{
+  if (isAddressValid(address, size))
+  {
+    memset(getPointer(address), -1, size);
+  }
+}
+
 void ShadowMemory::store(const unsigned char* src, size_t address, size_t size)
 {
   size_t index = extractBuffer(address);
diff --git a/src/plugins/Uninitialized.h b/src/plugins/Uninitialized.h
index 07ccb47..897c02e 100644
--- a/src/plugins/Uninitialized.h
+++ b/src/plugins/Uninitialized.h
@@ -115,11 +115,14 @@ public:
   virtual ~ShadowMemory();
 
   void allocate(size_t address, size_t size);
+  void deallocate(size_t address);
   void dump() const;
   void* getPointer(size_t address) const;
   bool isAddressValid(size_t address, size_t size = 1) const;
   void load(unsigned char* dst, size_t address, size_t size = 1) const;
   void lock(size_t address) const;
+  void setClean(size_t address, size_t size);
+  void setPoisoned(size_t address, size_t size);
   void store(const unsigned char* src, size_t address, size_t size = 1);
   void unlock(size_t address) const;
 
@@ -132,7 +135,6 @@ private:
   unsigned m_numBitsBuffer;
 
   void clear();
-  void deallocate(size_t address);
   size_t extractBuffer(size_t address) const;
   size_t extractOffset(size_t address) const;
 };
@@ -272,15 +274,16 @@ public:
                                    const TypedValue& result) override;
   virtual void kernelBegin(const KernelInvocation* kernelInvocation) override;
   virtual void kernelEnd(const KernelInvocation* kernelInvocation) override;
+  virtual void memoryAllocated(const Memory* memory, size_t address,
+                               size_t size, cl_mem_flags flags,
+                               const uint8_t* initData) override;
+  virtual void memoryDeallocated(const Memory* memory, size_t address) override;
   virtual void memoryMap(const Memory* memory, size_t address, size_t offset,
                          size_t size, cl_map_flags flags) override;
   virtual void workItemBegin(const WorkItem* workItem) override;
   virtual void workItemComplete(const WorkItem* workItem) override;
   virtual void workGroupBegin(const WorkGroup* workGroup) override;
   virtual void workGroupComplete(const WorkGroup* workGroup) override;
-  // virtual void memoryAllocated(const Memory *memory, size_t address,
-  //                             size_t size, cl_mem_flags flags,
-  //                             const uint8_t *initData);
 private:
   std::list<std::pair<const llvm::Value*, TypedValue>> m_deferredInit;
   std::list<std::pair<const llvm::Value*, TypedValue>> m_deferredInitGroup;
-- 
2.43.0


From 60b10df632bded455c8e94df789501aa45724a1a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:56:47 +0000
Subject: [PATCH 65/87] fix: regions mapped for reading and writing are defined
 by the host

---
 src/plugins/Uninitialized.cpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/plugins/Uninitialized.cpp b/src/plugins/Uninitialized.cpp
index 86882cc..2cb6aa8 100644
--- a/src/plugins/Uninitialized.cpp
+++ b/src/plugins/Uninitialized.cpp
@@ -2001,7 +2001,8 @@ void Uninitialized::memoryDeallocated(const Memory* memory, size_t address)
 void Uninitialized::memoryMap(const Memory* memory, size_t address,
                               size_t offset, size_t size, cl_map_flags flags)
 {
-  if (!(flags & CL_MAP_READ) && memory->getAddressSpace() == AddrSpaceGlobal)
+  // The host may define any byte of a region that is not mapped only for reading
+  if (flags != CL_MAP_READ && memory->getAddressSpace() == AddrSpaceGlobal)
   {
     shadowContext.getGlobalMemory()->setClean(address + offset, size);
   }
-- 
2.43.0


From 767904f7f7437da2a7c15727c0f0f275bda8056a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:57:17 +0000
Subject: [PATCH 66/87] fix: give kernel launches a memory pool in the
 uninitialized checker

---
 src/plugins/Uninitialized.cpp | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/src/plugins/Uninitialized.cpp b/src/plugins/Uninitialized.cpp
index 2cb6aa8..35390cc 100644
--- a/src/plugins/Uninitialized.cpp
+++ b/src/plugins/Uninitialized.cpp
@@ -1791,6 +1791,10 @@ void Uninitialized::kernelBegin(const KernelInvocation* kernelInvocation)
 {
   const Kernel* kernel = kernelInvocation->getKernel();
 
+  // The host may launch kernels from another thread than the one that created
+  // the context
+  shadowContext.createMemoryPool();
+
   // Initialise kernel arguments and global variables
   for (auto value = kernel->values_begin(); value != kernel->values_end();
        value++)
@@ -1897,6 +1901,8 @@ void Uninitialized::kernelBegin(const KernelInvocation* kernelInvocation)
       m_deferredInit.push_back(*value);
     }
   }
+
+  shadowContext.destroyMemoryPool();
 }
 
 void Uninitialized::kernelEnd(const KernelInvocation* kernelInvocation)
-- 
2.43.0


From 14c9504129fc88f13a9dbce5ea07d1314ec35262 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:58:23 +0000
Subject: [PATCH 67/87] fix: keep the shadow of every lane of built-ins with an
 output pointer

---
 src/plugins/Uninitialized.cpp | 24 +++++++++++++++---------
 1 file changed, 15 insertions(+), 9 deletions(-)

diff --git a/src/plugins/Uninitialized.cpp b/src/plugins/Uninitialized.cpp
index 35390cc..4faa0da 100644
--- a/src/plugins/Uninitialized.cpp
+++ b/src/plugins/Uninitialized.cpp
@@ -387,10 +387,11 @@ bool Uninitialized::handleBuiltinFunction(const WorkItem* workItem, string name,
         newElemShadow = ShadowContext::getCleanValue(result.size);
       }
 
-      memcpy(newShadow.data, newElemShadow.data, result.size);
+      memcpy(newShadow.data + i * newShadow.size, newElemShadow.data,
+             newShadow.size);
     }
 
-    storeShadowMemory(addrSpace, iptr, newShadow);
+    storeShadowMemory(addrSpace, iptr, newShadow, workItem);
     shadowValues->setValue(CI, newShadow);
 
     // Check shadow of address
@@ -413,8 +414,8 @@ bool Uninitialized::handleBuiltinFunction(const WorkItem* workItem, string name,
     TypedValue newElemShadow;
     TypedValue newElemIntShadow;
     TypedValue newShadow = shadowContext.getMemoryPool()->clone(result);
-    TypedValue newIntShadow = {newShadow.size, newShadow.num,
-                               shadowContext.getMemoryPool()->alloc(4)};
+    TypedValue newIntShadow = {
+      4, newShadow.num, shadowContext.getMemoryPool()->alloc(4 * result.num)};
 
     for (unsigned i = 0; i < result.num; ++i)
     {
@@ -429,11 +430,12 @@ bool Uninitialized::handleBuiltinFunction(const WorkItem* workItem, string name,
         newElemIntShadow = ShadowContext::getCleanValue(4);
       }
 
-      memcpy(newIntShadow.data, newElemIntShadow.data, 4);
-      memcpy(newShadow.data, newElemShadow.data, result.size);
+      memcpy(newIntShadow.data + i * 4, newElemIntShadow.data, 4);
+      memcpy(newShadow.data + i * newShadow.size, newElemShadow.data,
+             newShadow.size);
     }
 
-    storeShadowMemory(addrSpace, iptr, newIntShadow);
+    storeShadowMemory(addrSpace, iptr, newIntShadow, workItem);
     shadowValues->setValue(CI, newShadow);
 
     // Check shadow of address
@@ -456,6 +458,7 @@ bool Uninitialized::handleBuiltinFunction(const WorkItem* workItem, string name,
     TypedValue arg1Shadow =
       shadowContext.getValue(workItem, CI->getArgOperand(1));
     TypedValue newElemShadow;
+    TypedValue newElemIntShadow;
     TypedValue newShadow = shadowContext.getMemoryPool()->clone(result);
 
     for (unsigned i = 0; i < result.num; ++i)
@@ -464,14 +467,17 @@ bool Uninitialized::handleBuiltinFunction(const WorkItem* workItem, string name,
           !ShadowContext::isCleanValue(arg1Shadow, i))
       {
         newElemShadow = ShadowContext::getPoisonedValue(result.size);
+        newElemIntShadow = ShadowContext::getPoisonedValue(4);
       }
       else
       {
         newElemShadow = ShadowContext::getCleanValue(result.size);
+        newElemIntShadow = ShadowContext::getCleanValue(4);
       }
 
-      storeShadowMemory(addrSpace, iptr + i * 4, newElemShadow);
-      memcpy(newShadow.data, newElemShadow.data, result.size);
+      storeShadowMemory(addrSpace, iptr + i * 4, newElemIntShadow, workItem);
+      memcpy(newShadow.data + i * newShadow.size, newElemShadow.data,
+             newShadow.size);
     }
 
     shadowValues->setValue(CI, newShadow);
-- 
2.43.0


From 0ad3dd6840614a8d4004f9521bd81384145bc83f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:58:38 +0000
Subject: [PATCH 68/87] fix: store one shadow element per lane in vstore_half

---
 src/plugins/Uninitialized.cpp | 12 +-----------
 1 file changed, 1 insertion(+), 11 deletions(-)

diff --git a/src/plugins/Uninitialized.cpp b/src/plugins/Uninitialized.cpp
index 4faa0da..d1524a6 100644
--- a/src/plugins/Uninitialized.cpp
+++ b/src/plugins/Uninitialized.cpp
@@ -679,15 +679,6 @@ bool Uninitialized::handleBuiltinFunction(const WorkItem* workItem, string name,
            name.compare(0, 12, "vstorea_half") == 0)
   {
     const llvm::Value* value = CI->getArgOperand(0);
-    unsigned size = getTypeSize(value->getType());
-
-    if (isVector3(value))
-    {
-      // 3-element vectors are same size as 4-element vectors,
-      // but vstore address offset shouldn't use this.
-      size = (size / 4) * 3;
-    }
-
     const llvm::Value* BaseOp = CI->getArgOperand(2);
     const llvm::Value* OffsetOp = CI->getArgOperand(1);
     size_t base = workItem->getOperand(BaseOp).getPointer();
@@ -696,8 +687,7 @@ bool Uninitialized::handleBuiltinFunction(const WorkItem* workItem, string name,
 
     // Convert to halfs
     TypedValue shadow = shadowContext.getValue(workItem, value);
-    unsigned num = size / sizeof(float);
-    size = num * sizeof(cl_half);
+    unsigned num = shadow.num;
     TypedValue halfShadow = {sizeof(cl_half), num,
                              shadowContext.getMemoryPool()->alloc(2 * num)};
 
-- 
2.43.0


From 7f62c958442b908a99632a0d7ea9fb5f68f48344 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:59:16 +0000
Subject: [PATCH 69/87] fix: follow every atomic function in the uninitialized
 checker

---
 src/plugins/Uninitialized.cpp | 24 +++++++++++++-----------
 src/plugins/Uninitialized.h   |  3 ++-
 2 files changed, 15 insertions(+), 12 deletions(-)

diff --git a/src/plugins/Uninitialized.cpp b/src/plugins/Uninitialized.cpp
index d1524a6..fcbdbcc 100644
--- a/src/plugins/Uninitialized.cpp
+++ b/src/plugins/Uninitialized.cpp
@@ -309,20 +309,21 @@ bool Uninitialized::handleBuiltinFunction(const WorkItem* workItem, string name,
 
     return true;
   }
-  else if (name.compare(0, 6, "atomic") == 0)
+  else if (name.compare(0, 7, "atomic_") == 0 ||
+           name.compare(0, 5, "atom_") == 0)
   {
-    if (name.compare(6, string::npos, "cmpxchg") == 0)
+    if (name == "atomic_cmpxchg" || name == "atom_cmpxchg")
     {
       const llvm::Value* Addr = CI->getArgOperand(0);
       unsigned addrSpace = Addr->getType()->getPointerAddressSpace();
       size_t address = workItem->getOperand(Addr).getPointer();
-      uint32_t cmp = workItem->getOperand(CI->getArgOperand(1)).getUInt();
-      uint32_t old = workItem->getOperand(CI).getUInt();
+      uint64_t cmp = workItem->getOperand(CI->getArgOperand(1)).getUInt();
+      uint64_t old = result.getUInt();
       TypedValue argShadow =
         shadowContext.getValue(workItem, CI->getArgOperand(2));
       TypedValue cmpShadow =
         shadowContext.getValue(workItem, CI->getArgOperand(1));
-      TypedValue oldShadow = {4, 1, shadowContext.getMemoryPool()->alloc(4)};
+      TypedValue oldShadow = shadowContext.getMemoryPool()->clone(result);
 
       // Check shadow of the condition
       if (!ShadowContext::isCleanValue(cmpShadow))
@@ -362,7 +363,7 @@ bool Uninitialized::handleBuiltinFunction(const WorkItem* workItem, string name,
     }
     else
     {
-      SimpleOrAtomic(workItem, CI);
+      SimpleOrAtomic(workItem, CI, result);
       return true;
     }
   }
@@ -2051,15 +2052,16 @@ void Uninitialized::SimpleOr(const WorkItem* workItem,
 }
 
 void Uninitialized::SimpleOrAtomic(const WorkItem* workItem,
-                                   const llvm::CallInst* CI)
+                                   const llvm::CallInst* CI,
+                                   const TypedValue result)
 {
   const llvm::Value* Addr = CI->getArgOperand(0);
   unsigned addrSpace = Addr->getType()->getPointerAddressSpace();
   size_t address = workItem->getOperand(Addr).getPointer();
 
-  TypedValue oldShadow = {4, 1, shadowContext.getMemoryPool()->alloc(4)};
+  TypedValue oldShadow = shadowContext.getMemoryPool()->clone(result);
 
-  TypedValue newShadow = ShadowContext::getCleanValue(4);
+  TypedValue newShadow = ShadowContext::getCleanValue(result);
 
   if (addrSpace == AddrSpaceGlobal)
   {
@@ -2070,7 +2072,7 @@ void Uninitialized::SimpleOrAtomic(const WorkItem* workItem,
 
   if (!ShadowContext::isCleanValue(oldShadow))
   {
-    newShadow = ShadowContext::getPoisonedValue(4);
+    newShadow = ShadowContext::getPoisonedValue(result);
   }
 
   if (CI->arg_size() > 1)
@@ -2079,7 +2081,7 @@ void Uninitialized::SimpleOrAtomic(const WorkItem* workItem,
       shadowContext.getValue(workItem, CI->getArgOperand(1));
     if (!ShadowContext::isCleanValue(argShadow))
     {
-      newShadow = ShadowContext::getPoisonedValue(4);
+      newShadow = ShadowContext::getPoisonedValue(result);
     }
   }
 
diff --git a/src/plugins/Uninitialized.h b/src/plugins/Uninitialized.h
index 897c02e..ab59c2e 100644
--- a/src/plugins/Uninitialized.h
+++ b/src/plugins/Uninitialized.h
@@ -325,7 +325,8 @@ private:
   void logUninitializedIndex() const;
   void logUninitializedWrite(unsigned int addrSpace, size_t address) const;
   void SimpleOr(const WorkItem* workItem, const llvm::Instruction* I);
-  void SimpleOrAtomic(const WorkItem* workItem, const llvm::CallInst* CI);
+  void SimpleOrAtomic(const WorkItem* workItem, const llvm::CallInst* CI,
+                      const TypedValue result);
   void storeShadowMemory(unsigned addrSpace, size_t address, TypedValue SM,
                          const WorkItem* workItem = NULL,
                          const WorkGroup* workGroup = NULL,
-- 
2.43.0


From 669f8aa41757a63e92461051057002e9ad52a03e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:59:55 +0000
Subject: [PATCH 70/87] fix: copy the shadow of every element type and only
 stride global memory in async copies

---
 src/plugins/Uninitialized.cpp | 47 +++++++++++++++++++++++++++++------
 src/plugins/Uninitialized.h   |  3 ++-
 2 files changed, 42 insertions(+), 8 deletions(-)

diff --git a/src/plugins/Uninitialized.cpp b/src/plugins/Uninitialized.cpp
index fcbdbcc..5aa919c 100644
--- a/src/plugins/Uninitialized.cpp
+++ b/src/plugins/Uninitialized.cpp
@@ -94,14 +94,14 @@ void Uninitialized::copyShadowMemory(unsigned dstAddrSpace, size_t dst,
                                      unsigned size, const WorkItem* workItem,
                                      const WorkGroup* workGroup, bool unchecked)
 {
-  copyShadowMemoryStrided(dstAddrSpace, dst, srcAddrSpace, src, 1, 1, size,
+  copyShadowMemoryStrided(dstAddrSpace, dst, srcAddrSpace, src, 1, 1, 1, size,
                           workItem, workGroup, unchecked);
 }
 
 void Uninitialized::copyShadowMemoryStrided(
   unsigned dstAddrSpace, size_t dst, unsigned srcAddrSpace, size_t src,
-  size_t num, size_t stride, unsigned size, const WorkItem* workItem,
-  const WorkGroup* workGroup, bool unchecked)
+  size_t num, size_t dstStride, size_t srcStride, unsigned size,
+  const WorkItem* workItem, const WorkGroup* workGroup, bool unchecked)
 {
   TypedValue v = {size, 1, new unsigned char[size]};
 
@@ -109,8 +109,8 @@ void Uninitialized::copyShadowMemoryStrided(
   {
     loadShadowMemory(srcAddrSpace, src, v, workItem, workGroup);
     storeShadowMemory(dstAddrSpace, dst, v, workItem, workGroup, unchecked);
-    src += stride * size;
-    dst += stride * size;
+    src += srcStride * size;
+    dst += dstStride * size;
   }
 
   delete[] v.data;
@@ -193,16 +193,43 @@ bool Uninitialized::handleBuiltinFunction(const WorkItem* workItem, string name,
 
     // Get size of copy
     unsigned elemSize;
+    unsigned vecwidth = 1;
     char ptrtype = paramTypes[6];
+    if (ptrtype == 'D')
+    {
+      char* typestr;
+      vecwidth = strtol(paramTypes.c_str() + 8, &typestr, 10);
+      if (vecwidth == 3)
+      {
+        vecwidth = 4;
+      }
+      ptrtype = typestr[1];
+    }
     switch (ptrtype)
     {
+    case 'c':
+    case 'h':
+      elemSize = 1;
+      break;
+    case 's':
+    case 't':
+      elemSize = 2;
+      break;
+    case 'f':
     case 'i':
+    case 'j':
       elemSize = 4;
       break;
+    case 'd':
+    case 'l':
+    case 'm':
+      elemSize = 8;
+      break;
     default:
       FATAL_ERROR("Unsupported argument type: %c", ptrtype);
       break;
     }
+    elemSize *= vecwidth;
 
     const llvm::Value* numOp = CI->getArgOperand(arg++);
     uint64_t num = workItem->getOperand(numOp).getUInt();
@@ -235,17 +262,23 @@ bool Uninitialized::handleBuiltinFunction(const WorkItem* workItem, string name,
     AddressSpace dstAddrSpace = AddrSpaceLocal;
     AddressSpace srcAddrSpace = AddrSpaceLocal;
 
+    // The stride applies to the elements in global memory
+    size_t dstStride = 1;
+    size_t srcStride = 1;
+
     if (dstOp->getType()->getPointerAddressSpace() == AddrSpaceLocal)
     {
       srcAddrSpace = AddrSpaceGlobal;
+      srcStride = stride;
     }
     else
     {
       dstAddrSpace = AddrSpaceGlobal;
+      dstStride = stride;
     }
 
-    copyShadowMemoryStrided(dstAddrSpace, dst, srcAddrSpace, src, num, stride,
-                            elemSize, workItem);
+    copyShadowMemoryStrided(dstAddrSpace, dst, srcAddrSpace, src, num,
+                            dstStride, srcStride, elemSize, workItem);
     shadowValues->setValue(CI, eventShadow);
 
     // Check shadow of src address
diff --git a/src/plugins/Uninitialized.h b/src/plugins/Uninitialized.h
index ab59c2e..dec05b5 100644
--- a/src/plugins/Uninitialized.h
+++ b/src/plugins/Uninitialized.h
@@ -303,7 +303,8 @@ private:
                         bool unchecked = false);
   void copyShadowMemoryStrided(unsigned dstAddrSpace, size_t dst,
                                unsigned srcAddrSpace, size_t src, size_t num,
-                               size_t stride, unsigned size,
+                               size_t dstStride, size_t srcStride,
+                               unsigned size,
                                const WorkItem* workItem = NULL,
                                const WorkGroup* workGroup = NULL,
                                bool unchecked = false);
-- 
2.43.0


From 66e919d43e71367f3c2068f7f326cdf807eb2e27 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:00:31 +0000
Subject: [PATCH 71/87] fix: any depends on all elements unless a defined one
 is set

---
 src/plugins/Uninitialized.cpp | 15 +++++++++++----
 1 file changed, 11 insertions(+), 4 deletions(-)

diff --git a/src/plugins/Uninitialized.cpp b/src/plugins/Uninitialized.cpp
index 5aa919c..5a63e46 100644
--- a/src/plugins/Uninitialized.cpp
+++ b/src/plugins/Uninitialized.cpp
@@ -610,16 +610,23 @@ bool Uninitialized::handleBuiltinFunction(const WorkItem* workItem, string name,
       num = llvm::cast<llvm::FixedVectorType>(argType)->getNumElements();
     }
 
+    // A defined element that is set decides the result on its own
+    bool defined = ShadowContext::isCleanValue(shadow);
+    TypedValue arg = workItem->getOperand(argOp);
+
     for (unsigned i = 0; i < num; ++i)
     {
-      if (ShadowContext::isCleanValue(shadow, i))
+      if (ShadowContext::isCleanValue(shadow, i) &&
+          (arg.getSInt(i) & INT64_MIN))
       {
-        shadowValues->setValue(CI, ShadowContext::getCleanValue(result.size));
-        return true;
+        defined = true;
       }
     }
 
-    shadowValues->setValue(CI, ShadowContext::getPoisonedValue(result.size));
+    shadowValues->setValue(CI,
+                           defined
+                             ? ShadowContext::getCleanValue(result.size)
+                             : ShadowContext::getPoisonedValue(result.size));
     return true;
   }
   else if (name == "select")
-- 
2.43.0


From 8e3d48fb56b8f32d325381ee13f33bd4296c974f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:00:43 +0000
Subject: [PATCH 72/87] fix: support the same intrinsics in the uninitialized
 checker as the interpreter

---
 src/plugins/Uninitialized.cpp | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/src/plugins/Uninitialized.cpp b/src/plugins/Uninitialized.cpp
index 5a63e46..f3a480b 100644
--- a/src/plugins/Uninitialized.cpp
+++ b/src/plugins/Uninitialized.cpp
@@ -943,6 +943,7 @@ void Uninitialized::handleIntrinsicInstruction(const WorkItem* workItem,
 {
   switch (I->getIntrinsicID())
   {
+  case llvm::Intrinsic::fabs:
   case llvm::Intrinsic::fmuladd:
   case llvm::Intrinsic::smax:
   case llvm::Intrinsic::smin:
@@ -953,8 +954,9 @@ void Uninitialized::handleIntrinsicInstruction(const WorkItem* workItem,
     break;
   }
   case llvm::Intrinsic::memcpy:
+  case llvm::Intrinsic::memmove:
   {
-    const llvm::MemCpyInst* memcpyInst = (const llvm::MemCpyInst*)I;
+    const llvm::MemTransferInst* memcpyInst = (const llvm::MemTransferInst*)I;
     const llvm::Value* dstOp = memcpyInst->getDest();
     const llvm::Value* srcOp = memcpyInst->getSource();
     size_t dst = workItem->getOperand(dstOp).getPointer();
@@ -1016,6 +1018,9 @@ void Uninitialized::handleIntrinsicInstruction(const WorkItem* workItem,
     }
     break;
   }
+  case llvm::Intrinsic::assume:
+    // Do nothing
+    break;
   case llvm::Intrinsic::dbg_declare:
     // Do nothing
     break;
-- 
2.43.0


From 3453026752a859aa278d22ca51b701daa4cbb833 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:00:56 +0000
Subject: [PATCH 73/87] fix: evaluate the shadow of the PHI nodes of a block
 together

---
 src/plugins/Uninitialized.cpp | 26 +++++++++++++++++++++-----
 1 file changed, 21 insertions(+), 5 deletions(-)

diff --git a/src/plugins/Uninitialized.cpp b/src/plugins/Uninitialized.cpp
index f3a480b..0318991 100644
--- a/src/plugins/Uninitialized.cpp
+++ b/src/plugins/Uninitialized.cpp
@@ -1536,12 +1536,28 @@ void Uninitialized::instructionExecuted(const WorkItem* workItem,
   }
   case llvm::Instruction::PHI:
   {
-    const llvm::PHINode* phiNode = (const llvm::PHINode*)instruction;
-    const llvm::Value* value =
-      phiNode->getIncomingValueForBlock(workItem->getPreviousBlock());
-    TypedValue shadowValue = shadowContext.getValue(workItem, value);
+    // The PHI nodes of a block are evaluated together when its first one is
+    // executed, since they may use the previous values of each other
+    const llvm::BasicBlock* block = instruction->getParent();
+    if (instruction != &block->front())
+    {
+      break;
+    }
+
+    list<pair<const llvm::PHINode*, TypedValue>> shadows;
+    for (const llvm::PHINode& phiNode : block->phis())
+    {
+      const llvm::Value* value =
+        phiNode.getIncomingValueForBlock(workItem->getPreviousBlock());
+      shadows.push_back(
+        make_pair(&phiNode, shadowContext.getValue(workItem, value)));
+    }
+
+    for (auto shadow : shadows)
+    {
+      shadowValues->setValue(shadow.first, shadow.second);
+    }
 
-    shadowValues->setValue(instruction, shadowValue);
     break;
   }
   case llvm::Instruction::PtrToInt:
-- 
2.43.0


From d8f4da5a0d6c1e6685eea9ae3dee600657b22b73 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:01:22 +0000
Subject: [PATCH 74/87] fix: do not read image descriptions from shadow values

---
 src/plugins/Uninitialized.cpp | 106 ++++++++--------------------------
 src/plugins/Uninitialized.h   |   4 --
 2 files changed, 23 insertions(+), 87 deletions(-)

diff --git a/src/plugins/Uninitialized.cpp b/src/plugins/Uninitialized.cpp
index 0318991..3e0768f 100644
--- a/src/plugins/Uninitialized.cpp
+++ b/src/plugins/Uninitialized.cpp
@@ -846,7 +846,12 @@ bool Uninitialized::handleBuiltinFunction(const WorkItem* workItem, string name,
     // Has to be changed in combination with the write functions
     size_t address = image->address;
 
-    if (!ShadowContext::isCleanImage(shadowImage))
+    // The last argument holds the coordinates
+    TypedValue shadowCoords =
+      shadowContext.getValue(workItem, CI->getArgOperand(CI->arg_size() - 1));
+
+    if (!ShadowContext::isCleanValue(shadowImage) ||
+        !ShadowContext::isCleanValue(shadowCoords))
     {
       newShadow = ShadowContext::getPoisonedValue(result);
     }
@@ -857,8 +862,9 @@ bool Uninitialized::handleBuiltinFunction(const WorkItem* workItem, string name,
 
     shadowValues->setValue(CI, newShadow);
 
-    // Check image
-    if (!ShadowContext::isCleanImageAddress(shadowImage))
+    // Check image and coordinates
+    if (!ShadowContext::isCleanValue(shadowImage) ||
+        !ShadowContext::isCleanValue(shadowCoords))
     {
       logUninitializedAddress(AddrSpaceGlobal, address, false);
     }
@@ -878,58 +884,30 @@ bool Uninitialized::handleBuiltinFunction(const WorkItem* workItem, string name,
     // Has to be changed in combination with the read functions
     size_t address = image->address;
 
-    // Check image
-    if (!ShadowContext::isCleanImageAddress(shadowImage))
+    // Check image and coordinates
+    if (!ShadowContext::isCleanValue(shadowImage) ||
+        !ShadowContext::isCleanValue(
+          shadowContext.getValue(workItem, CI->getArgOperand(1))))
     {
       logUninitializedAddress(AddrSpaceGlobal, address);
     }
 
+    // Check color
+    if (!ShadowContext::isCleanValue(
+          shadowContext.getValue(workItem, CI->getArgOperand(2))))
+    {
+      logUninitializedWrite(AddrSpaceGlobal, address);
+    }
+
     return true;
   }
   else if (name.compare(0, 10, "get_image_") == 0)
   {
     TypedValue shadowImage =
       shadowContext.getValue(workItem, CI->getArgOperand(0));
-    TypedValue newShadow = {
-      result.size, result.num,
-      shadowContext.getMemoryPool()->alloc(result.size * result.num)};
-
-    if (name == "get_image_array_size")
-    {
-      newShadow.setUInt(((Image*)shadowImage.data)->desc.image_array_size);
-    }
-    else if (name == "get_image_dim")
-    {
-      newShadow.setUInt(((Image*)shadowImage.data)->desc.image_width, 0);
-      newShadow.setUInt(((Image*)shadowImage.data)->desc.image_height, 1);
-
-      if (newShadow.num > 2)
-      {
-        newShadow.setUInt(((Image*)shadowImage.data)->desc.image_depth, 2);
-        newShadow.setUInt(0, 3);
-      }
-    }
-    else if (name == "get_image_depth")
-    {
-      newShadow.setUInt(((Image*)shadowImage.data)->desc.image_depth);
-    }
-    else if (name == "get_image_height")
-    {
-      newShadow.setUInt(((Image*)shadowImage.data)->desc.image_height);
-    }
-    else if (name == "get_image_width")
-    {
-      newShadow.setUInt(((Image*)shadowImage.data)->desc.image_width);
-    }
-    else if (name == "get_image_channel_order")
-    {
-      newShadow.setUInt(((Image*)shadowImage.data)->format.image_channel_order);
-    }
-    else if (name == "get_image_channel_data_type")
-    {
-      newShadow.setUInt(
-        ((Image*)shadowImage.data)->format.image_channel_data_type);
-    }
+    TypedValue newShadow = ShadowContext::isCleanValue(shadowImage)
+                             ? ShadowContext::getCleanValue(result)
+                             : ShadowContext::getPoisonedValue(result);
 
     shadowValues->setValue(CI, newShadow);
     return true;
@@ -2867,44 +2845,6 @@ TypedValue ShadowContext::getValue(const WorkItem* workItem,
   }
 }
 
-bool ShadowContext::isCleanImage(const TypedValue shadowImage)
-{
-  return (isCleanImageAddress(shadowImage) &&
-          isCleanImageDescription(shadowImage) &&
-          isCleanImageFormat(shadowImage));
-}
-
-bool ShadowContext::isCleanImageAddress(const TypedValue shadowImage)
-{
-  Image* image = (Image*)shadowImage.data;
-
-  return ShadowContext::isCleanValue(image->address);
-}
-
-bool ShadowContext::isCleanImageDescription(const TypedValue shadowImage)
-{
-  Image* image = (Image*)shadowImage.data;
-
-  // TODO: image->desc.buffer is currently not checked
-  return (ShadowContext::isCleanValue(image->desc.image_type) &&
-          ShadowContext::isCleanValue(image->desc.image_width) &&
-          ShadowContext::isCleanValue(image->desc.image_height) &&
-          ShadowContext::isCleanValue(image->desc.image_depth) &&
-          ShadowContext::isCleanValue(image->desc.image_array_size) &&
-          ShadowContext::isCleanValue(image->desc.image_row_pitch) &&
-          ShadowContext::isCleanValue(image->desc.image_slice_pitch) &&
-          ShadowContext::isCleanValue(image->desc.num_mip_levels) &&
-          ShadowContext::isCleanValue(image->desc.num_samples));
-}
-
-bool ShadowContext::isCleanImageFormat(const TypedValue shadowImage)
-{
-  Image* image = (Image*)shadowImage.data;
-
-  return (ShadowContext::isCleanValue(image->format.image_channel_order) &&
-          ShadowContext::isCleanValue(image->format.image_channel_data_type));
-}
-
 bool ShadowContext::isCleanStruct(ShadowMemory* shadowMemory, size_t address,
                                   const llvm::StructType* structTy)
 {
diff --git a/src/plugins/Uninitialized.h b/src/plugins/Uninitialized.h
index dec05b5..170b2d6 100644
--- a/src/plugins/Uninitialized.h
+++ b/src/plugins/Uninitialized.h
@@ -233,10 +233,6 @@ public:
     return llvm::isa<llvm::Constant>(V) || m_globalValues.count(V) ||
            m_workSpace.workItems->at(workItem)->getValues()->hasValue(V);
   }
-  static bool isCleanImage(const TypedValue shadowImage);
-  static bool isCleanImageAddress(const TypedValue shadowImage);
-  static bool isCleanImageDescription(const TypedValue shadowImage);
-  static bool isCleanImageFormat(const TypedValue shadowImage);
   static bool isCleanStruct(ShadowMemory* shadowMemory, size_t address,
                             const llvm::StructType* structTy);
   static bool isCleanValue(unsigned long v);
-- 
2.43.0


From 0343409b6c750be86cd437ecb3ab23aca11b94e6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:01:45 +0000
Subject: [PATCH 75/87] fix: check the address of event lists with undefined
 events

---
 src/plugins/Uninitialized.cpp | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/src/plugins/Uninitialized.cpp b/src/plugins/Uninitialized.cpp
index 3e0768f..f86b9cc 100644
--- a/src/plugins/Uninitialized.cpp
+++ b/src/plugins/Uninitialized.cpp
@@ -323,8 +323,7 @@ bool Uninitialized::handleBuiltinFunction(const WorkItem* workItem, string name,
       if (!ShadowContext::isCleanValue(eventShadow))
       {
         logUninitializedCF();
-        delete[] eventShadow.data;
-        return true;
+        break;
       }
 
       address += sizeof(size_t);
-- 
2.43.0


From 84f9dde1faf707c68650cbee799b42ccd77f7229 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:21:20 +0000
Subject: [PATCH 76/87] fix: handle address space casts in the uninitialized
 memory checker

---
 src/plugins/Uninitialized.cpp | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/src/plugins/Uninitialized.cpp b/src/plugins/Uninitialized.cpp
index f86b9cc..83b48f2 100644
--- a/src/plugins/Uninitialized.cpp
+++ b/src/plugins/Uninitialized.cpp
@@ -1047,6 +1047,11 @@ void Uninitialized::instructionExecuted(const WorkItem* workItem,
     VectorOr(workItem, instruction);
     break;
   }
+  case llvm::Instruction::AddrSpaceCast:
+  {
+    SimpleOr(workItem, instruction);
+    break;
+  }
   case llvm::Instruction::Alloca:
   {
     const llvm::AllocaInst* allocaInst = ((const llvm::AllocaInst*)instruction);
-- 
2.43.0


From d7963967dfac9d660f961645370f1b2e3249c626 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:28:45 +0000
Subject: [PATCH 77/87] fix: recognise undefined shuffle elements by their mask
 value

---
 src/plugins/Uninitialized.cpp | 4 ----
 1 file changed, 4 deletions(-)

diff --git a/src/plugins/Uninitialized.cpp b/src/plugins/Uninitialized.cpp
index 83b48f2..35cafb8 100644
--- a/src/plugins/Uninitialized.cpp
+++ b/src/plugins/Uninitialized.cpp
@@ -1689,11 +1689,7 @@ void Uninitialized::instructionExecuted(const WorkItem* workItem,
     for (unsigned i = 0; i < newShadow.num; i++)
     {
       int index = shuffleInst->getMaskValue(i);
-#if LLVM_VERSION >= 210
       if (index == llvm::PoisonMaskElem)
-#else
-      if (index == llvm::Value::UndefValueVal)
-#endif
       {
         // Undef value are poisoned
         memcpy(newShadow.data + i * newShadow.size, pv.data, newShadow.size);
-- 
2.43.0


From ef81642f0a94a3e591f95a91da9f261e91e589af Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:09:12 +0000
Subject: [PATCH 78/87] fix: sample adjacent pixels for linear filtering
 without an addressing mode

---
 src/core/WorkItemBuiltins.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/core/WorkItemBuiltins.cpp b/src/core/WorkItemBuiltins.cpp
index 8b8e6e2..9d53c7b 100644
--- a/src/core/WorkItemBuiltins.cpp
+++ b/src/core/WorkItemBuiltins.cpp
@@ -997,8 +997,8 @@ class WorkItemBuiltins
     switch (sampler & CLK_ADDRESS_MASK)
     {
     case CLK_ADDRESS_NONE:
-      *c0 = floor(u);
-      *c1 = floor(u) + 1;
+      *c0 = floorf(u - 0.5f);
+      *c1 = *c0 + 1;
       return u;
     case CLK_ADDRESS_CLAMP_TO_EDGE:
       *c0 = _clamp_<int>(floorf(u - 0.5f), 0, size - 1);
-- 
2.43.0


From 7104e4e971a8e2a83a1576528c4587691b22ab47 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:32:40 +0000
Subject: [PATCH 79/87] fix: free the precompiled-header path the way it was
 allocated

---
 src/core/Program.cpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/core/Program.cpp b/src/core/Program.cpp
index 696bd91..54084af 100644
--- a/src/core/Program.cpp
+++ b/src/core/Program.cpp
@@ -418,7 +418,8 @@ bool Program::build(BuildType buildType, const char* options,
     const char* pchdirOverride = getenv("OCLGRIND_PCH_DIR");
     if (pchdirOverride)
     {
-      pchdir = strdup(pchdirOverride);
+      pchdir = new char[strlen(pchdirOverride) + 1];
+      strcpy(pchdir, pchdirOverride);
     }
     else
     {
-- 
2.43.0


From 81baff0b9b82a59a0e5fff50d1d360c9b8ef32aa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:32:50 +0000
Subject: [PATCH 80/87] fix: release a pending barrier with its work-group

---
 src/core/WorkGroup.cpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/core/WorkGroup.cpp b/src/core/WorkGroup.cpp
index 4a60992..1d03629 100644
--- a/src/core/WorkGroup.cpp
+++ b/src/core/WorkGroup.cpp
@@ -82,6 +82,7 @@ WorkGroup::~WorkGroup()
   }
 
   delete m_localMemory;
+  delete m_barrier;
 }
 
 size_t WorkGroup::async_copy(const WorkItem* workItem,
-- 
2.43.0


From 0c02d46e17c9ac6d7e4a8499a5e7bd848325bdc8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:32:59 +0000
Subject: [PATCH 81/87] fix: release the log stream that could not be opened

---
 src/plugins/Logger.cpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/plugins/Logger.cpp b/src/plugins/Logger.cpp
index 3f33536..ecd44d5 100644
--- a/src/plugins/Logger.cpp
+++ b/src/plugins/Logger.cpp
@@ -33,6 +33,7 @@ Logger::Logger(const Context* context) : Plugin(context)
     if (!m_log->good())
     {
       cerr << "Oclgrind: Unable to open log file '" << logfile << "'" << endl;
+      delete m_log;
       m_log = &cerr;
     }
   }
-- 
2.43.0


From fb01a76861e203c4c55c9cc43898749d515c6e4f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:55:26 +0000
Subject: [PATCH 82/87] fix: clGetProgramBuildInfo rejects devices that are not
 the device of the platform

---
 src/runtime/runtime.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/runtime/runtime.cpp b/src/runtime/runtime.cpp
index 0f35ddb..36097e1 100644
--- a/src/runtime/runtime.cpp
+++ b/src/runtime/runtime.cpp
@@ -2985,7 +2985,7 @@ CL_API_ENTRY cl_int CL_API_CALL clGetProgramBuildInfo(
   {
     ReturnErrorArg(NULL, CL_INVALID_PROGRAM, program);
   }
-  if (!device)
+  if (!device || device != m_device)
   {
     ReturnErrorArg(program->context, CL_INVALID_DEVICE, device);
   }
-- 
2.43.0


From 804689f846af972257f42b89df615bcc7dbe5b3a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 07:45:16 +0000
Subject: [PATCH 83/87] fix: saturate add_sat and sub_sat of long at the
 extremes

---
 src/core/WorkItemBuiltins.cpp | 12 ++++++------
 1 file changed, 6 insertions(+), 6 deletions(-)

diff --git a/src/core/WorkItemBuiltins.cpp b/src/core/WorkItemBuiltins.cpp
index 9d53c7b..efa3aca 100644
--- a/src/core/WorkItemBuiltins.cpp
+++ b/src/core/WorkItemBuiltins.cpp
@@ -1980,10 +1980,10 @@ class WorkItemBuiltins
         result.setSInt(sresult, i);
         break;
       case 'l':
-        if ((SARGV(0, i) > 0) == (SARGV(1, i) > 0) &&
-            (SARGV(0, i) > 0) != (sresult > 0))
+        if ((SARGV(0, i) >= 0) == (SARGV(1, i) >= 0) &&
+            (SARGV(0, i) >= 0) != (sresult >= 0))
         {
-          sresult = (SARGV(0, i) > 0) ? INT64_MAX : INT64_MIN;
+          sresult = (SARGV(0, i) >= 0) ? INT64_MAX : INT64_MIN;
         }
         result.setSInt(sresult, i);
         break;
@@ -2336,10 +2336,10 @@ class WorkItemBuiltins
         result.setSInt(sresult, i);
         break;
       case 'l':
-        if ((SARGV(0, i) > 0) != (SARGV(1, i) > 0) &&
-            (SARGV(0, i) > 0) != (sresult > 0))
+        if ((SARGV(0, i) >= 0) != (SARGV(1, i) >= 0) &&
+            (SARGV(0, i) >= 0) != (sresult >= 0))
         {
-          sresult = (SARGV(0, i) > 0) ? INT64_MAX : INT64_MIN;
+          sresult = (SARGV(0, i) >= 0) ? INT64_MAX : INT64_MIN;
         }
         result.setSInt(sresult, i);
         break;
-- 
2.43.0


From 8fd29238478bdc78236b4837b2117c10128b2107 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 07:45:31 +0000
Subject: [PATCH 84/87] fix: compute mad_sat of long from the whole product

---
 src/core/WorkItemBuiltins.cpp | 25 ++++++++++++-------------
 1 file changed, 12 insertions(+), 13 deletions(-)

diff --git a/src/core/WorkItemBuiltins.cpp b/src/core/WorkItemBuiltins.cpp
index efa3aca..76cd1b0 100644
--- a/src/core/WorkItemBuiltins.cpp
+++ b/src/core/WorkItemBuiltins.cpp
@@ -2144,6 +2144,7 @@ class WorkItemBuiltins
     {
       uint64_t uresult = UARGV(0, i) * UARGV(1, i) + UARGV(2, i);
       int64_t sresult = SARGV(0, i) * SARGV(1, i) + SARGV(2, i);
+      int64_t hi;
       switch (getOverloadArgType(overload))
       {
       case 'h':
@@ -2181,20 +2182,18 @@ class WorkItemBuiltins
         result.setSInt(sresult, i);
         break;
       case 'l':
-        // Check for overflow in multiplication
-        if (_smul_hi_(SARGV(0, i), SARGV(1, i), 64))
+        // The addition carries into the upper half of the product
+        hi = _smul_hi_(SARGV(0, i), SARGV(1, i), 64);
+        if (uresult < UARGV(0, i) * UARGV(1, i))
+          hi++;
+        if (SARGV(2, i) < 0)
+          hi--;
+
+        // The result fits if the upper half extends the sign of the lower
+        sresult = (int64_t)uresult;
+        if (hi != (sresult < 0 ? -1 : 0))
         {
-          sresult =
-            (SARGV(0, i) > 0) ^ (SARGV(1, i) > 0) ? INT64_MIN : INT64_MAX;
-        }
-        else
-        {
-          // Check for overflow in addition
-          int64_t m = SARGV(0, i) * SARGV(1, i);
-          if ((m > 0) == (SARGV(2, i) > 0) && (m > 0) != (sresult > 0))
-          {
-            sresult = (m > 0) ? INT64_MAX : INT64_MIN;
-          }
+          sresult = (hi < 0) ? INT64_MIN : INT64_MAX;
         }
         result.setSInt(sresult, i);
         break;
-- 
2.43.0


From 9d633b0efcf6b79257fca4a4e949b6caafc52a32 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 07:45:47 +0000
Subject: [PATCH 85/87] fix: do not shift by the whole width in rotate

---
 src/core/WorkItemBuiltins.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/core/WorkItemBuiltins.cpp b/src/core/WorkItemBuiltins.cpp
index 76cd1b0..2e9fe40 100644
--- a/src/core/WorkItemBuiltins.cpp
+++ b/src/core/WorkItemBuiltins.cpp
@@ -2293,7 +2293,7 @@ class WorkItemBuiltins
       uint64_t width = (result.size << 3);
       uint64_t v = UARGV(0, i);
       uint64_t ls = UARGV(1, i) % width;
-      uint64_t rs = width - ls;
+      uint64_t rs = (width - ls) % width;
       result.setUInt((v << ls) | (v >> rs), i);
     }
   }
-- 
2.43.0


From c578731785bf7be0b34e904d172dccb9f1f943e1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 08:32:58 +0000
Subject: [PATCH 86/87] fix: sign of positive zero is positive zero

---
 src/core/WorkItemBuiltins.cpp | 4 +---
 1 file changed, 1 insertion(+), 3 deletions(-)

diff --git a/src/core/WorkItemBuiltins.cpp b/src/core/WorkItemBuiltins.cpp
index 2e9fe40..1d7c650 100644
--- a/src/core/WorkItemBuiltins.cpp
+++ b/src/core/WorkItemBuiltins.cpp
@@ -423,10 +423,8 @@ class WorkItemBuiltins
       return 0.0;
     if (x > 0.0)
       return 1.0;
-    if (x == -0.0)
-      return -0.0;
     if (x == 0.0)
-      return 0.0;
+      return x;
     if (x < 0.0)
       return -1.0;
     return 0.0;
-- 
2.43.0


From 2e82947f50559509faee38326cad3c84feac2429 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 08:33:16 +0000
Subject: [PATCH 87/87] fix: bitselect of float operands uses their own bits

---
 src/core/WorkItemBuiltins.cpp | 11 -----------
 1 file changed, 11 deletions(-)

diff --git a/src/core/WorkItemBuiltins.cpp b/src/core/WorkItemBuiltins.cpp
index 1d7c650..344e098 100644
--- a/src/core/WorkItemBuiltins.cpp
+++ b/src/core/WorkItemBuiltins.cpp
@@ -2883,23 +2883,12 @@ class WorkItemBuiltins
     return ((a & ~c) | (b & c));
   }
 
-  static double _fbitselect_(double a, double b, double c)
-  {
-    uint64_t _a = *(uint64_t*)&a;
-    uint64_t _b = *(uint64_t*)&b;
-    uint64_t _c = *(uint64_t*)&c;
-    uint64_t _r = _ibitselect_(_a, _b, _c);
-    return *(double*)&_r;
-  }
-
   DEFINE_BUILTIN(bitselect)
   {
     switch (getOverloadArgType(overload))
     {
     case 'f':
     case 'd':
-      f3arg(workItem, callInst, fnName, overload, result, _fbitselect_);
-      break;
     case 'h':
     case 't':
     case 'j':
-- 
2.43.0

