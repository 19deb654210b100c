From a637112313bc9505735b938be338d017ad2052b1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:36:50 +0000
Subject: [PATCH 01/44] fix: lock file creation leaks its descriptor and leaves
 the file behind when chmod fails

---
 score/memory/shared/lock_file.cpp | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/score/memory/shared/lock_file.cpp b/score/memory/shared/lock_file.cpp
index 6db8448..0cb24ab 100644
--- a/score/memory/shared/lock_file.cpp
+++ b/score/memory/shared/lock_file.cpp
@@ -45,6 +45,9 @@ std::optional<LockFile> LockFile::Create(std::string path) noexcept
                                         << " | Error: " << create_result.error().ToString();
         return {};
     }
+    // From here on the lock file owns the created file, so that it gets closed and removed again on failure.
+    constexpr bool owns_file{true};
+    LockFile lock_file{path, create_result.value(), owns_file};
     auto result = score::os::Stat::instance().chmod(path.data(), kReadAccessForAll);
     if (!result.has_value())
     {
@@ -52,8 +55,7 @@ std::optional<LockFile> LockFile::Create(std::string path) noexcept
                                         << " | Error: " << result.error().ToString();
         return {};
     }
-    constexpr bool owns_file{true};
-    return LockFile{std::move(path), create_result.value(), owns_file};
+    return lock_file;
 }
 
 std::optional<LockFile> LockFile::CreateOrOpen(std::string path, bool take_ownership) noexcept
@@ -76,6 +78,7 @@ std::optional<LockFile> LockFile::CreateOrOpen(std::string path, bool take_owner
     {
         score::mw::log::LogError("shm") << "LockFile::CreateOrOpen failed to chmod file: " << path
                                         << " | Error: " << result.error().ToString();
+        score::cpp::ignore = ::score::os::Unistd::instance().close(create_result.value());
         return {};
     }
     return LockFile{std::move(path), create_result.value(), take_ownership};
-- 
2.43.0


From 8df536e3b12845233f02d49f79b57eaf2b654ca3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:00:13 +0000
Subject: [PATCH 02/44] fix: provider of an ASIL-B event terminates after a
 restart if its predecessor died between the QM and the ASIL-B slot update

A skeleton instance that dies (or stops serving QM consumers) between updating the QM and the ASIL-B control slot leaves
slots whose QM and ASIL-B values differ. The restarted instance then ran into the assertion that both are equal with its
next allocation. Allocate each of them based on its own value instead.
---
 .../lola/event_data_control_composite.cpp     | 26 +++++++++----------
 .../lola/event_data_control_composite.h       | 13 +++++++---
 2 files changed, 22 insertions(+), 17 deletions(-)

diff --git a/score/mw/com/impl/bindings/lola/event_data_control_composite.cpp b/score/mw/com/impl/bindings/lola/event_data_control_composite.cpp
index 4b7a671..edf227e 100644
--- a/score/mw/com/impl/bindings/lola/event_data_control_composite.cpp
+++ b/score/mw/com/impl/bindings/lola/event_data_control_composite.cpp
@@ -52,10 +52,10 @@ template <template <class> class AtomicIndirectorType>
 // [Ticket-173043](broken_link_j/Ticket-173043)
 // coverity[autosar_cpp14_a15_5_3_violation : FALSE]
 auto EventDataControlComposite<AtomicIndirectorType>::GetNextFreeMultiSlot() const noexcept
-    -> std::optional<typename ProviderEventDataControlLocalView<AtomicIndirectorType>::SlotInfo>
+    -> std::optional<MultiSlotInfo>
 {
     EventSlotStatus::EventTimeStamp oldest_time_stamp{EventSlotStatus::TIMESTAMP_MAX};
-    std::optional<typename ProviderEventDataControlLocalView<AtomicIndirectorType>::SlotInfo> slot_info{};
+    std::optional<MultiSlotInfo> slot_info{};
 
     for (SlotIndexType slot_index = 0U;
          // Suppress "AUTOSAR C++14 A4-7-1" rule finding. This rule states: "An integer expression shall not lead to
@@ -82,13 +82,11 @@ auto EventDataControlComposite<AtomicIndirectorType>::GetNextFreeMultiSlot() con
             const auto time_stamp = slot_b.GetTimeStamp();
             if (time_stamp < oldest_time_stamp)
             {
-                SCORE_LANGUAGE_FUTURECPP_ASSERT_PRD_MESSAGE(
-                    static_cast<EventSlotStatus::value_type>(slot_qm) ==
-                        static_cast<EventSlotStatus::value_type>(slot_b),
-                    "Defensive progamming: QM and ASIL-B control slots are expected to be in the same state. Assert "
-                    "this to ensure that returning the qm slot value to be used also for the asil-b slot value is "
-                    "correct. We already check if the qm value is incorrect (hinting at a memory corruption) above.");
-                slot_info = {slot_index, static_cast<EventSlotStatus::value_type>(slot_qm)};
+                // The qm and the asil-b slot may differ: A previous skeleton instance may have died after it updated only
+                // one of them or may have stopped updating the qm slots. Hence, each one is allocated based on its own
+                // current value.
+                slot_info = MultiSlotInfo{{slot_index, static_cast<EventSlotStatus::value_type>(slot_qm)},
+                                          {slot_index, static_cast<EventSlotStatus::value_type>(slot_b)}};
                 oldest_time_stamp = time_stamp;
             }
         }
@@ -113,20 +111,22 @@ auto EventDataControlComposite<AtomicIndirectorType>::AllocateNextMultiSlot() no
         const auto free_multi_slot_result = GetNextFreeMultiSlot();
         if (free_multi_slot_result.has_value())
         {
-            const auto qm_old_slot_value_result = asil_qm_control_local_.get().TryAllocateSlot(*free_multi_slot_result);
+            const auto qm_old_slot_value_result =
+                asil_qm_control_local_.get().TryAllocateSlot(free_multi_slot_result->qm);
             if (!(qm_old_slot_value_result.has_value()))
             {
                 continue;
             }
 
-            const auto asil_b_allocation_result = asil_b_control_local_->TryAllocateSlot(*free_multi_slot_result);
+            const auto asil_b_allocation_result =
+                asil_b_control_local_->TryAllocateSlot(free_multi_slot_result->asil_b);
             if (!(asil_b_allocation_result.has_value()))
             {
                 asil_qm_control_local_.get().SetSlotValue(
-                    {free_multi_slot_result->slot_index, qm_old_slot_value_result.value()});
+                    {free_multi_slot_result->qm.slot_index, qm_old_slot_value_result.value()});
                 continue;
             }
-            return free_multi_slot_result->slot_index;
+            return free_multi_slot_result->qm.slot_index;
         }
     }
 
diff --git a/score/mw/com/impl/bindings/lola/event_data_control_composite.h b/score/mw/com/impl/bindings/lola/event_data_control_composite.h
index 1fad4f7..1d76d0e 100644
--- a/score/mw/com/impl/bindings/lola/event_data_control_composite.h
+++ b/score/mw/com/impl/bindings/lola/event_data_control_composite.h
@@ -127,11 +127,16 @@ class EventDataControlComposite
     /// EventReady(), Discard()()
     bool ignore_qm_control_;
 
+    /// \brief A slot which is free in both control blocks, described by its current value in each of them.
+    struct MultiSlotInfo
+    {
+        typename ProviderEventDataControlLocalView<AtomicIndirectorType>::SlotInfo qm;
+        typename ProviderEventDataControlLocalView<AtomicIndirectorType>::SlotInfo asil_b;
+    };
+
     // Algorithms that operate on multiple control blocks
-    // \post the returned selected free slot for qm and asil-b must contain the same index and slot value (therefore, we
-    //       only return a single SlotInfo which represents both qm and asil-b slots).
-    std::optional<typename ProviderEventDataControlLocalView<AtomicIndirectorType>::SlotInfo> GetNextFreeMultiSlot()
-        const noexcept;
+    // \post the returned slot infos for qm and asil-b contain the same index. Their slot values may differ.
+    std::optional<MultiSlotInfo> GetNextFreeMultiSlot() const noexcept;
 
     std::optional<SlotIndexType> AllocateNextMultiSlot() noexcept;
 };
-- 
2.43.0


From 3a419a3491844b0fd256201c5813ef685bf9cdac Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:29:44 +0000
Subject: [PATCH 03/44] fix: a field whose initial value cannot be published
 stays prepared although its offer failed

---
 score/mw/com/impl/skeleton_field_base.h | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/score/mw/com/impl/skeleton_field_base.h b/score/mw/com/impl/skeleton_field_base.h
index 881a2d3..8941ba4 100644
--- a/score/mw/com/impl/skeleton_field_base.h
+++ b/score/mw/com/impl/skeleton_field_base.h
@@ -93,6 +93,11 @@ class SkeletonFieldBase : public EnableReferenceToMoveableFromThis<SkeletonField
             {
                 was_prepare_offer_called_ = true;
             }
+            else
+            {
+                // The caller treats this field as not offered: undo the preparation of the event.
+                skeleton_event_dispatch_->PrepareStopOffer();
+            }
             return update_field_result;
         }
         return skeleton_event_dispatch_->PrepareOffer();
-- 
2.43.0


From 8732f4bd89200791200df1d7db5ad4990ff0c12f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:02:00 +0000
Subject: [PATCH 04/44] fix: release the sample before returning its reference
 guard when a SamplePtr is destroyed

---
 score/mw/com/impl/plumbing/sample_ptr.h | 13 ++++++++-----
 1 file changed, 8 insertions(+), 5 deletions(-)

diff --git a/score/mw/com/impl/plumbing/sample_ptr.h b/score/mw/com/impl/plumbing/sample_ptr.h
index 70476eb..b0db83e 100644
--- a/score/mw/com/impl/plumbing/sample_ptr.h
+++ b/score/mw/com/impl/plumbing/sample_ptr.h
@@ -48,8 +48,8 @@ class SamplePtr final
     /// \param binding_sample_ptr The binding-specific sample pointer.
     template <typename BindingSamplePtrType>
     SamplePtr(BindingSamplePtrType&& binding_sample_ptr, SampleReferenceGuard reference_guard)
-        : binding_sample_ptr_{std::forward<BindingSamplePtrType>(binding_sample_ptr)},
-          reference_guard_{std::move(reference_guard)}
+        : reference_guard_{std::move(reference_guard)},
+          binding_sample_ptr_{std::forward<BindingSamplePtrType>(binding_sample_ptr)}
     {
     }
 
@@ -71,7 +71,7 @@ class SamplePtr final
     SamplePtr(const SamplePtr<SampleType>&) = delete;
     // coverity[autosar_cpp14_a13_3_1_violation]
     SamplePtr(SamplePtr<SampleType>&& other) noexcept
-        : binding_sample_ptr_{std::move(other.binding_sample_ptr_)}, reference_guard_{std::move(other.reference_guard_)}
+        : reference_guard_{std::move(other.reference_guard_)}, binding_sample_ptr_{std::move(other.binding_sample_ptr_)}
     {
         other.binding_sample_ptr_ = score::cpp::blank{};
     }
@@ -192,13 +192,16 @@ class SamplePtr final
   private:
     template <typename BindingSamplePtrType>
     explicit SamplePtr(BindingSamplePtrType&& binding_sample_ptr)
-        : binding_sample_ptr_{std::forward<BindingSamplePtrType>(binding_sample_ptr)}, reference_guard_{}
+        : reference_guard_{}, binding_sample_ptr_{std::forward<BindingSamplePtrType>(binding_sample_ptr)}
     {
     }
 
+    // The guard must be declared before (i.e. destroyed after) the binding specific sample pointer: the sample has to be
+    // released before it is accounted as available again, otherwise a concurrent GetNewSamples() could reference more
+    // samples than the user subscribed for.
+    SampleReferenceGuard reference_guard_;
     std::variant<score::cpp::blank, lola::SamplePtr<SampleType>, mock_binding::SamplePtr<SampleType>>
         binding_sample_ptr_;
-    SampleReferenceGuard reference_guard_;
 
     template <typename SamplePtrType>
     // Suppress "AUTOSAR C++14 A11-3-1", The rule states: "Friend declarations shall not be used".
-- 
2.43.0


From e419c841340ded12194ba402f1687c731115b7cb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:02:00 +0000
Subject: [PATCH 05/44] fix: leave a SamplePtr empty after move assignment, as
 after move construction

---
 score/mw/com/impl/plumbing/sample_ptr.h | 11 ++++++++++-
 1 file changed, 10 insertions(+), 1 deletion(-)

diff --git a/score/mw/com/impl/plumbing/sample_ptr.h b/score/mw/com/impl/plumbing/sample_ptr.h
index b0db83e..021169f 100644
--- a/score/mw/com/impl/plumbing/sample_ptr.h
+++ b/score/mw/com/impl/plumbing/sample_ptr.h
@@ -76,7 +76,16 @@ class SamplePtr final
         other.binding_sample_ptr_ = score::cpp::blank{};
     }
     SamplePtr& operator=(const SamplePtr<SampleType>&) = delete;
-    SamplePtr& operator=(SamplePtr<SampleType>&& other) & noexcept = default;
+    SamplePtr& operator=(SamplePtr<SampleType>&& other) & noexcept
+    {
+        if (this != &other)
+        {
+            binding_sample_ptr_ = std::move(other.binding_sample_ptr_);
+            reference_guard_ = std::move(other.reference_guard_);
+            other.binding_sample_ptr_ = score::cpp::blank{};
+        }
+        return *this;
+    }
 
     SamplePtr& operator=(std::nullptr_t) noexcept
     {
-- 
2.43.0


From 3bea4493ccc59deac4a1c3227ae0bb0440a0a8bf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:12:01 +0000
Subject: [PATCH 06/44] fix: re-offer a service whose shared memory was kept
 for its last proxies

Stopping the offer while proxies are connected keeps the shared memory and the
skeleton's references to it. If the proxies are gone when the same skeleton is
offered again, the memory is recreated, and removing the stale artefacts asserted
that nobody owns them any more, terminating the provider.
---
 .../com/impl/bindings/lola/skeleton_memory_manager.cpp   | 9 ++++++++-
 .../mw/com/impl/bindings/lola/skeleton_memory_manager.h  | 2 +-
 2 files changed, 9 insertions(+), 2 deletions(-)

diff --git a/score/mw/com/impl/bindings/lola/skeleton_memory_manager.cpp b/score/mw/com/impl/bindings/lola/skeleton_memory_manager.cpp
index dabb70b..8cbc1a6 100644
--- a/score/mw/com/impl/bindings/lola/skeleton_memory_manager.cpp
+++ b/score/mw/com/impl/bindings/lola/skeleton_memory_manager.cpp
@@ -357,8 +357,15 @@ void SkeletonMemoryManager::RemoveSharedMemory()
     control_asil_resource_.reset();
 }
 
-void SkeletonMemoryManager::RemoveStaleSharedMemoryArtefacts() const
+void SkeletonMemoryManager::RemoveStaleSharedMemoryArtefacts()
 {
+    // A previous offer of this instance might have been stopped while proxies were still using the shared memory. In that
+    // case, the shared memory was not removed and we still own it.
+    Reset();
+    storage_resource_.reset();
+    control_qm_resource_.reset();
+    control_asil_resource_.reset();
+
     const auto control_qm_path =
         GetControlChannelShmPath(lola_service_instance_deployment_, QualityType::kASIL_QM, shm_path_builder_);
     const auto control_asil_b_path =
diff --git a/score/mw/com/impl/bindings/lola/skeleton_memory_manager.h b/score/mw/com/impl/bindings/lola/skeleton_memory_manager.h
index 3a596f0..431f434 100644
--- a/score/mw/com/impl/bindings/lola/skeleton_memory_manager.h
+++ b/score/mw/com/impl/bindings/lola/skeleton_memory_manager.h
@@ -148,7 +148,7 @@ class SkeletonMemoryManager final
 
     /// \brief Removes stale shared memory artefacts from the filesystem in case a process crashed while creating a
     ///        SharedMemoryResource.
-    void RemoveStaleSharedMemoryArtefacts() const;
+    void RemoveStaleSharedMemoryArtefacts();
 
     /// \brief Cleans up all allocated slots for this SkeletonEvent of any previous running instance
     /// \details Note: Only invoke _after_ a crash was detected!
-- 
2.43.0


From 95d76f7fe2153e8e440462b308876b0df1e77f77 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:54:16 +0000
Subject: [PATCH 07/44] fix: keep the gateway running when a service disappears
 that could not be propagated

---
 .../gateway/gateway_application/gateway_application.cpp    | 7 ++-----
 1 file changed, 2 insertions(+), 5 deletions(-)

diff --git a/score/mw/com/gateway/gateway_application/gateway_application.cpp b/score/mw/com/gateway/gateway_application/gateway_application.cpp
index 4a4334d..045456c 100644
--- a/score/mw/com/gateway/gateway_application/gateway_application.cpp
+++ b/score/mw/com/gateway/gateway_application/gateway_application.cpp
@@ -163,11 +163,8 @@ void GatewayApplication::OnServiceAvailabilityChanged(const std::string& specifi
 void GatewayApplication::OnServiceUnavailable(const std::string& specifier_str)
 {
     std::lock_guard<std::recursive_mutex> lock(mutex_);
-    const auto it = proxies_.find(specifier_str);
-
-    SCORE_LANGUAGE_FUTURECPP_ASSERT_PRD_MESSAGE(it != proxies_.cend(),
-                                                "GatewayApplication: Service unavailable but proxy not found");
-
+    // There may be no proxy for the service: its creation or the propagation to the destination gateway may have failed.
+    // In the latter case the destination gateway may still have processed the request, so the stop is forwarded anyway.
     score::mw::log::LogInfo() << "GatewayApplication: Service no longer available: " << specifier_str;
 
     auto specifier_result = score::mw::com::InstanceSpecifier::Create(std::string{specifier_str});
-- 
2.43.0


From 114af762798d22b874d4bb391284a0ebd9c8a5b2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:54:55 +0000
Subject: [PATCH 08/44] fix: announce a valid sample alignment when a service
 is propagated to the other gateway

---
 .../gateway_application.cpp                    | 18 ++++++++++++++++--
 1 file changed, 16 insertions(+), 2 deletions(-)

diff --git a/score/mw/com/gateway/gateway_application/gateway_application.cpp b/score/mw/com/gateway/gateway_application/gateway_application.cpp
index 045456c..eee9835 100644
--- a/score/mw/com/gateway/gateway_application/gateway_application.cpp
+++ b/score/mw/com/gateway/gateway_application/gateway_application.cpp
@@ -20,6 +20,7 @@
 #include "score/mw/log/logging.h"
 #include <score/assert.hpp>
 
+#include <cstddef>
 #include <cstdint>
 #include <limits>
 #include <memory>
@@ -36,6 +37,19 @@ namespace
 // actual data is read directly from shared memory by the consumer.
 constexpr std::size_t kGatewaySubscribeSamples = 1U;
 
+// A GenericProxyEvent does not expose the alignment of its samples. The size of a type is always a multiple of its
+// alignment, so the largest power of two dividing the size (limited to the largest fundamental alignment) is a valid
+// alignment for the samples, as GenericSkeleton::Create() in the destination gateway requires it.
+constexpr std::size_t DeriveSampleAlignment(const std::size_t sample_size) noexcept
+{
+    std::size_t alignment{alignof(std::max_align_t)};
+    while ((sample_size % alignment) != 0U)
+    {
+        alignment /= 2U;
+    }
+    return alignment;
+}
+
 }  // namespace
 
 GatewayApplication::~GatewayApplication()
@@ -201,8 +215,8 @@ void GatewayApplication::PropagateService(const std::string& specifier_str)
     for (const auto& [event_name, event] : std::as_const(event_map))
     {
         const auto sample_size = event.GetSampleSize();
-        elements.push_back(
-            score::mw::com::impl::EventInfo{event_name, score::mw::com::impl::DataTypeMetaInfo{sample_size, 0U}});
+        elements.push_back(score::mw::com::impl::EventInfo{
+            event_name, score::mw::com::impl::DataTypeMetaInfo{sample_size, DeriveSampleAlignment(sample_size)}});
     }
 
     auto provide_result = transport_layer_->ProvideService(std::move(specifier_result).value(), std::move(elements));
-- 
2.43.0


From 109ce354767b9ba2fb02148691253ee52979ab2c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:55:58 +0000
Subject: [PATCH 09/44] fix: unsubscribe the events of a GenericProxy when it
 is destroyed

---
 score/mw/com/impl/generic_proxy_event.cpp | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/score/mw/com/impl/generic_proxy_event.cpp b/score/mw/com/impl/generic_proxy_event.cpp
index fa26c2b..26a6f02 100644
--- a/score/mw/com/impl/generic_proxy_event.cpp
+++ b/score/mw/com/impl/generic_proxy_event.cpp
@@ -29,6 +29,8 @@ GenericProxyEvent::GenericProxyEvent(ProxyBase& base, const std::string_view eve
                              return Result<std::unique_ptr<ProxyEventBindingBase>>{std::move(binding)};
                          })}
 {
+    // As for a ProxyEvent, so that the GenericProxy unsubscribes the event when it is destroyed.
+    ProxyBaseView{base}.RegisterEvent(event_name, GetReferenceToMoveable());
 }
 
 GenericProxyEvent::GenericProxyEvent(const std::string_view event_name,
-- 
2.43.0


From 5401fa53db3307ab9fcdade39966021a2df61f0d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:01:51 +0000
Subject: [PATCH 10/44] fix: re-offer a forwarded service that is still offered
 when it is provided again

---
 .../mw/com/gateway/gateway_application/gateway_application.cpp | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/score/mw/com/gateway/gateway_application/gateway_application.cpp b/score/mw/com/gateway/gateway_application/gateway_application.cpp
index eee9835..1a02a6c 100644
--- a/score/mw/com/gateway/gateway_application/gateway_application.cpp
+++ b/score/mw/com/gateway/gateway_application/gateway_application.cpp
@@ -375,6 +375,9 @@ score::Result<void> GatewayApplication::ProvideService(score::mw::com::InstanceS
         // subscriptions so the (re-started) source gateway knows which events have active consumers.
         score::mw::log::LogInfo() << "GatewayApplication: Reusing existing skeleton for " << service_instance_specifier;
 
+        // If the skeleton is still offered (the source gateway was restarted or its StopOfferService request got lost),
+        // offering it a second time would fail and leave its events unusable. Has no effect if it is not offered.
+        existing_it->second.StopOfferService();
         auto offer_result = existing_it->second.OfferService();
         if (!offer_result.has_value())
         {
-- 
2.43.0


From a34b468e238b05ba4e6cb5b54cae77226f1f1ef5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:24:36 +0000
Subject: [PATCH 11/44] fix: keep the order of offers and withdrawals within
 one batch of inotify events

---
 .../client/service_discovery_client.cpp                  | 9 +++++++++
 1 file changed, 9 insertions(+)

diff --git a/score/mw/com/impl/bindings/lola/service_discovery/client/service_discovery_client.cpp b/score/mw/com/impl/bindings/lola/service_discovery/client/service_discovery_client.cpp
index d94884c..bd3bbd9 100644
--- a/score/mw/com/impl/bindings/lola/service_discovery/client/service_discovery_client.cpp
+++ b/score/mw/com/impl/bindings/lola/service_discovery/client/service_discovery_client.cpp
@@ -413,6 +413,15 @@ auto ServiceDiscoveryClient::HandleEvents(
 
         if (inode_was_removed)
         {
+            // Removals that follow creations within the same batch must not be reordered before them. Otherwise, an
+            // instance which was offered and withdrawn again would be considered as offered.
+            if (!creation_events.empty())
+            {
+                HandleDeletionEvents(deletion_events);
+                HandleCreationEvents(creation_events);
+                deletion_events.clear();
+                creation_events.clear();
+            }
             deletion_events.push_back(event);
         }
         else if (inode_was_created)
-- 
2.43.0


From 2bcbbdc0f1377b99beabb596c48f5db730892364 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:24:36 +0000
Subject: [PATCH 12/44] fix: do not leave the flag file of a failed offer
 visible

---
 score/mw/com/impl/bindings/lola/service_discovery/flag_file.cpp | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/score/mw/com/impl/bindings/lola/service_discovery/flag_file.cpp b/score/mw/com/impl/bindings/lola/service_discovery/flag_file.cpp
index 2a9bd95..35bd93f 100644
--- a/score/mw/com/impl/bindings/lola/service_discovery/flag_file.cpp
+++ b/score/mw/com/impl/bindings/lola/service_discovery/flag_file.cpp
@@ -215,6 +215,8 @@ auto FlagFile::Make(EnrichedInstanceIdentifier enriched_instance_identifier,
     {
         mw::log::LogError("lola") << "Failed to set permissions on flag file" << flag_file_path.Native() << ":"
                                   << permission_result.error();
+        // The offer failed, so that its flag file must not stay visible for searching consumers.
+        score::cpp::ignore = filesystem.standard->Remove(flag_file_path);
         return score::MakeUnexpected(ComErrc::kBindingFailure, "Could not set permissions on flag file");
     }
     mw::log::LogDebug("lola") << "created flag file for service:" << flag_file_path.Native();
-- 
2.43.0


From d26b4924042efa6278573076fad8ed2aca11bfe3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:34:24 +0000
Subject: [PATCH 13/44] fix: do not access the missing result of a message
 handler whose scope has expired

---
 .../bindings/lola/messaging/message_passing_service_instance.cpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/score/mw/com/impl/bindings/lola/messaging/message_passing_service_instance.cpp b/score/mw/com/impl/bindings/lola/messaging/message_passing_service_instance.cpp
index 5818201..e752e4c 100644
--- a/score/mw/com/impl/bindings/lola/messaging/message_passing_service_instance.cpp
+++ b/score/mw/com/impl/bindings/lola/messaging/message_passing_service_instance.cpp
@@ -339,6 +339,7 @@ message_passing::MessageCallback MessagePassingServiceInstance::CreateSendMessag
                                                     "expiring. Disconnecting from client.";
                 return score::cpp::make_unexpected(os::Error::createUnspecifiedError());
             }
+            return {};
         }
 
         const auto& message_handling_result = function_invocation_result.value();
-- 
2.43.0


From 1258fdd9a8b88b1624965489b34983ae35a6f248 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:34:24 +0000
Subject: [PATCH 14/44] fix: re-register event notifications although a newer
 proxy registered and left in between

---
 .../messaging/message_passing_service_instance.cpp    | 11 ++++++-----
 1 file changed, 6 insertions(+), 5 deletions(-)

diff --git a/score/mw/com/impl/bindings/lola/messaging/message_passing_service_instance.cpp b/score/mw/com/impl/bindings/lola/messaging/message_passing_service_instance.cpp
index e752e4c..aec0050 100644
--- a/score/mw/com/impl/bindings/lola/messaging/message_passing_service_instance.cpp
+++ b/score/mw/com/impl/bindings/lola/messaging/message_passing_service_instance.cpp
@@ -1107,7 +1107,7 @@ void MessagePassingServiceInstance::ReregisterEventNotification(const ElementFqI
 {
     std::shared_lock<std::shared_mutex> read_lock(event_update_handlers_mutex_);
     auto search = event_update_handlers_.find(event_id);
-    if (search == event_update_handlers_.end())
+    if ((search == event_update_handlers_.end()) || search->second.empty())
     {
         read_lock.unlock();
         // no registered handler for given event_id -> log as error
@@ -1125,12 +1125,13 @@ void MessagePassingServiceInstance::ReregisterEventNotification(const ElementFqI
         auto registration_count = event_update_remote_registrations_.find(event_id);
         if (registration_count == event_update_remote_registrations_.end())
         {
+            // The registration of a newer proxy at the restarted provider replaced ours and has been withdrawn since.
+            score::cpp::ignore =
+                event_update_remote_registrations_.emplace(event_id, NodeCounter{target_node_id, 1U});
             remote_reg_write_lock.unlock();
-            score::mw::log::LogError("lola") << "MessagePassingService: ReregisterEventNotification for a remote event "
-                                             << event_id.ToString() << " without current remote registration!";
-            return;
+            SendRegisterEventNotificationMessage(event_id, target_node_id);
         }
-        if (registration_count->second.node_id == target_node_id)
+        else if (registration_count->second.node_id == target_node_id)
         {
             // we aren't the 1st proxy to re-register. Another proxy already re-registered the event with the new remote
             // pid.
-- 
2.43.0


From f76c84209eed60ddd585e39c0f969f6d40dcea49 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:34:24 +0000
Subject: [PATCH 15/44] fix: send registrations of event notifications in the
 order they are changed

---
 .../lola/messaging/message_passing_service_instance.cpp    | 7 +++----
 1 file changed, 3 insertions(+), 4 deletions(-)

diff --git a/score/mw/com/impl/bindings/lola/messaging/message_passing_service_instance.cpp b/score/mw/com/impl/bindings/lola/messaging/message_passing_service_instance.cpp
index aec0050..afe27e2 100644
--- a/score/mw/com/impl/bindings/lola/messaging/message_passing_service_instance.cpp
+++ b/score/mw/com/impl/bindings/lola/messaging/message_passing_service_instance.cpp
@@ -1121,6 +1121,7 @@ void MessagePassingServiceInstance::ReregisterEventNotification(const ElementFqI
     const auto is_target_remote_node = (target_node_id != self_pid_);
     if (is_target_remote_node)
     {
+        // held until the message was sent, so that messages are sent in the order of the changes they announce
         std::unique_lock<std::shared_mutex> remote_reg_write_lock(event_update_remote_registrations_mutex_);
         auto registration_count = event_update_remote_registrations_.find(event_id);
         if (registration_count == event_update_remote_registrations_.end())
@@ -1128,7 +1129,6 @@ void MessagePassingServiceInstance::ReregisterEventNotification(const ElementFqI
             // The registration of a newer proxy at the restarted provider replaced ours and has been withdrawn since.
             score::cpp::ignore =
                 event_update_remote_registrations_.emplace(event_id, NodeCounter{target_node_id, 1U});
-            remote_reg_write_lock.unlock();
             SendRegisterEventNotificationMessage(event_id, target_node_id);
         }
         else if (registration_count->second.node_id == target_node_id)
@@ -1149,7 +1149,6 @@ void MessagePassingServiceInstance::ReregisterEventNotification(const ElementFqI
             // we are the 1st proxy to re-register.
             registration_count->second.node_id = target_node_id;
             registration_count->second.counter = 1U;
-            remote_reg_write_lock.unlock();
             SendRegisterEventNotificationMessage(event_id, target_node_id);
         }
     }
@@ -1332,6 +1331,7 @@ void MessagePassingServiceInstance::NotifyOutdatedNodeId(const pid_t outdated_no
 void MessagePassingServiceInstance::RegisterEventNotificationRemote(const ElementFqId event_id,
                                                                     const pid_t target_node_id) noexcept
 {
+    // held until the message was sent, so that messages are sent in the order of the changes they announce
     std::unique_lock<std::shared_mutex> remote_reg_write_lock(event_update_remote_registrations_mutex_);
     const auto registration_count_inserted =
         event_update_remote_registrations_.emplace(std::piecewise_construct,
@@ -1359,7 +1359,6 @@ void MessagePassingServiceInstance::RegisterEventNotificationRemote(const Elemen
         }
     }
     const std::uint16_t reg_counter{registration_count_inserted.first->second.counter};
-    remote_reg_write_lock.unlock();
     // only if the counter of registrations switched to 1, we send a message to the remote node.
     if (reg_counter == 1U)
     {
@@ -1373,6 +1372,7 @@ void MessagePassingServiceInstance::UnregisterEventNotificationRemote(
     const pid_t target_node_id) noexcept
 {
     bool send_message{false};
+    // held until the message was sent, so that messages are sent in the order of the changes they announce
     std::unique_lock<std::shared_mutex> remote_reg_write_lock(event_update_remote_registrations_mutex_);
     auto registration_count = event_update_remote_registrations_.find(event_id);
     if (registration_count == event_update_remote_registrations_.end())
@@ -1411,7 +1411,6 @@ void MessagePassingServiceInstance::UnregisterEventNotificationRemote(
             send_message = true;
             score::cpp::ignore = event_update_remote_registrations_.erase(registration_count);
         }
-        remote_reg_write_lock.unlock();
     }
 
     if (send_message)
-- 
2.43.0


From 08f7de002e8516476e6aca3db5f65b3ed71900d4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:40:09 +0000
Subject: [PATCH 16/44] fix: report the existence of event receive handlers in
 the order of its changes

---
 .../message_passing_service_instance.cpp      | 151 ++++--------------
 .../message_passing_service_instance.h        |  13 +-
 2 files changed, 46 insertions(+), 118 deletions(-)

diff --git a/score/mw/com/impl/bindings/lola/messaging/message_passing_service_instance.cpp b/score/mw/com/impl/bindings/lola/messaging/message_passing_service_instance.cpp
index afe27e2..a8aafc5 100644
--- a/score/mw/com/impl/bindings/lola/messaging/message_passing_service_instance.cpp
+++ b/score/mw/com/impl/bindings/lola/messaging/message_passing_service_instance.cpp
@@ -472,35 +472,21 @@ void MessagePassingServiceInstance::HandleRegisterNotificationMsg(const score::c
     }
 
     bool already_registered{false};
-    bool notify_status_change = false;
 
-    // Check if there are local handlers first (to maintain lock hierarchy: handlers before nodes)
-    std::shared_lock<std::shared_mutex> handlers_read_lock(event_update_handlers_mutex_);
-    auto handlers_search = event_update_handlers_.find(elementFqId);
-    const bool has_local_handlers =
-        (handlers_search != event_update_handlers_.end()) && (!handlers_search->second.empty());
-    handlers_read_lock.unlock();
-
-    // TODO: PMR
     std::unique_lock<std::shared_mutex> write_lock(event_update_interested_nodes_mutex_);
     auto search = event_update_interested_nodes_.find(elementFqId);
     if (search != event_update_interested_nodes_.end())
     {
         auto inserted = search->second.insert(sender_node_id);
         already_registered = (inserted.second == false);
-        notify_status_change = !already_registered && (search->second.size() == 1U);
     }
     else
     {
         auto emplaced = event_update_interested_nodes_.emplace(elementFqId, std::set<pid_t>{});
         score::cpp::ignore = emplaced.first->second.insert(sender_node_id);
-        notify_status_change = true;  // First remote handler
     }
     write_lock.unlock();
 
-    // Only notify if no local handlers exist
-    notify_status_change = notify_status_change && !has_local_handlers;
-
     if (already_registered)
     {
         score::mw::log::LogWarn("lola")
@@ -510,15 +496,7 @@ void MessagePassingServiceInstance::HandleRegisterNotificationMsg(const score::c
 
     // Notify SkeletonEvent that the first handler (remote) has been registered.
     // This allows SkeletonEvent to start sending NotifyEvent() calls for this event.
-    if (notify_status_change)
-    {
-        std::shared_lock<std::shared_mutex> callback_read_lock(handler_status_change_callbacks_mutex_);
-        auto callback_search = handler_status_change_callbacks_.find(elementFqId);
-        if (callback_search != handler_status_change_callbacks_.end())
-        {
-            callback_search->second(true);  // Now has handlers
-        }
-    }
+    ReportHandlerStatus(elementFqId);
 }
 
 void MessagePassingServiceInstance::HandleUnregisterNotificationMsg(const score::cpp::span<const std::uint8_t> payload,
@@ -532,27 +510,12 @@ void MessagePassingServiceInstance::HandleUnregisterNotificationMsg(const score:
     }
 
     bool registration_found{false};
-    bool notify_status_change = false;
-
-    // Check if there are local handlers first (to maintain lock hierarchy: handlers before nodes)
-    std::shared_lock<std::shared_mutex> handlers_read_lock(event_update_handlers_mutex_);
-    auto handlers_search = event_update_handlers_.find(elementFqId);
-    const bool has_local_handlers =
-        (handlers_search != event_update_handlers_.end()) && (!handlers_search->second.empty());
-    handlers_read_lock.unlock();
 
     std::unique_lock<std::shared_mutex> write_lock(event_update_interested_nodes_mutex_);
     auto search = event_update_interested_nodes_.find(elementFqId);
     if (search != event_update_interested_nodes_.end())
     {
         registration_found = search->second.erase(sender_node_id) == 1U;
-
-        // If this was the last remote node being unregistered, we have a status change only if there are
-        // no local handlers exist.
-        if (registration_found && search->second.empty())
-        {
-            notify_status_change = !has_local_handlers;
-        }
     }
     write_lock.unlock();
 
@@ -565,15 +528,7 @@ void MessagePassingServiceInstance::HandleUnregisterNotificationMsg(const score:
 
     // Notify SkeletonEvent that the last handler (remote) has been unregistered.
     // This allows SkeletonEvent to skip NotifyEvent() calls for this event to save performance.
-    if (notify_status_change)
-    {
-        std::shared_lock<std::shared_mutex> callback_read_lock(handler_status_change_callbacks_mutex_);
-        auto callback_search = handler_status_change_callbacks_.find(elementFqId);
-        if (callback_search != handler_status_change_callbacks_.end())
-        {
-            callback_search->second(false);  // No handlers remain
-        }
-    }
+    ReportHandlerStatus(elementFqId);
 }
 
 void MessagePassingServiceInstance::HandleOutdatedNodeIdMsg(const score::cpp::span<const std::uint8_t> payload,
@@ -586,15 +541,23 @@ void MessagePassingServiceInstance::HandleOutdatedNodeIdMsg(const score::cpp::sp
         return;
     }
 
-    EventUpdateNodeIdMapType::size_type remove_count{0U};
+    std::vector<ElementFqId> affected_events{};
     std::unique_lock<std::shared_mutex> write_lock(event_update_interested_nodes_mutex_);
     for (auto& element : event_update_interested_nodes_)
     {
-        remove_count += element.second.erase(pid_to_unregister);
+        if (element.second.erase(pid_to_unregister) != 0U)
+        {
+            affected_events.push_back(element.first);
+        }
     }
     write_lock.unlock();
 
-    if (remove_count == 0U)
+    for (const auto& event_id : affected_events)
+    {
+        ReportHandlerStatus(event_id);
+    }
+
+    if (affected_events.empty())
     {
         score::mw::log::LogInfo("lola") << "MessagePassingService: HandleOutdatedNodeIdMsg for outdated node id:"
                                         << pid_to_unregister << "from node" << sender_node_id
@@ -1042,13 +1005,9 @@ IMessagePassingService::HandlerRegistrationNoType MessagePassingServiceInstance:
     std::weak_ptr<ScopedEventReceiveHandler> callback,
     const pid_t target_node_id) noexcept
 {
-    bool notify_status_change = false;
-
     std::unique_lock<std::shared_mutex> write_lock(event_update_handlers_mutex_);
 
-    // Check if this is the first handler being registered
     auto search = event_update_handlers_.find(event_id);
-    const bool was_empty = (search == event_update_handlers_.end()) || (search->second.empty());
 
     // The rule against increment and decrement operators mixed with others on the same line sems to be more applicable
     // to arithmetic operators. Here the only other operator is the member access operator (i.e. the dot operator) and
@@ -1067,19 +1026,6 @@ IMessagePassingService::HandlerRegistrationNoType MessagePassingServiceInstance:
         result.first->second.push_back(std::move(newHandler));
     }
 
-    // Check if we need to notify about status change (transition from 0 to 1 local handlers)
-    // We only notify if there were no remote handlers either
-    if (was_empty)
-    {
-        std::shared_lock<std::shared_mutex> nodes_read_lock(event_update_interested_nodes_mutex_);
-        auto nodes_search = event_update_interested_nodes_.find(event_id);
-        const bool has_remote_handlers =
-            (nodes_search != event_update_interested_nodes_.end()) && (!nodes_search->second.empty());
-        nodes_read_lock.unlock();
-        // Only notify if no remote handlers exist, because only then we have a state change from 0 -> >0.
-        notify_status_change = !has_remote_handlers;
-    }
-
     write_lock.unlock();
 
     if (target_node_id != self_pid_)
@@ -1089,15 +1035,7 @@ IMessagePassingService::HandlerRegistrationNoType MessagePassingServiceInstance:
 
     // Notify SkeletonEvent that the first handler (local) has been registered.
     // This allows SkeletonEvent to start sending NotifyEvent() calls for this event.
-    if (notify_status_change)
-    {
-        std::shared_lock<std::shared_mutex> callback_read_lock(handler_status_change_callbacks_mutex_);
-        auto callback_search = handler_status_change_callbacks_.find(event_id);
-        if (callback_search != handler_status_change_callbacks_.end())
-        {
-            callback_search->second(true);  // Now has handlers
-        }
-    }
+    ReportHandlerStatus(event_id);
 
     return registration_no;
 }
@@ -1160,8 +1098,6 @@ void MessagePassingServiceInstance::UnregisterEventNotification(
     const pid_t target_node_id) noexcept
 {
     bool found{false};
-    bool notify_status_change = false;
-
     std::unique_lock<std::shared_mutex> write_lock(event_update_handlers_mutex_);
     auto search = event_update_handlers_.find(event_id);
     if (search != event_update_handlers_.end())
@@ -1180,18 +1116,6 @@ void MessagePassingServiceInstance::UnregisterEventNotification(
         {
             score::cpp::ignore = search->second.erase(result);
             found = true;
-
-            // If this was the last local handler, check if remote nodes interested in update notification exist
-            if (search->second.empty())
-            {
-                std::shared_lock<std::shared_mutex> nodes_read_lock(event_update_interested_nodes_mutex_);
-                auto nodes_search = event_update_interested_nodes_.find(event_id);
-                const bool has_remote_handlers =
-                    (nodes_search != event_update_interested_nodes_.end()) && (!nodes_search->second.empty());
-                nodes_read_lock.unlock();
-                // Only notify if no remote handlers exist, because only then we have a state change from >0 -> 0.
-                notify_status_change = !has_remote_handlers;
-            }
         }
     }
     write_lock.unlock();
@@ -1213,15 +1137,7 @@ void MessagePassingServiceInstance::UnregisterEventNotification(
 
     // Notify SkeletonEvent that the last handler (local) has been unregistered.
     // This allows SkeletonEvent to skip NotifyEvent() calls for this event to save performance.
-    if (notify_status_change)
-    {
-        std::shared_lock<std::shared_mutex> callback_read_lock(handler_status_change_callbacks_mutex_);
-        auto callback_search = handler_status_change_callbacks_.find(event_id);
-        if (callback_search != handler_status_change_callbacks_.end())
-        {
-            callback_search->second(false);  // No handlers remain
-        }
-    }
+    ReportHandlerStatus(event_id);
 }
 
 Result<void> MessagePassingServiceInstance::RegisterOnServiceMethodSubscribedHandler(
@@ -1470,10 +1386,25 @@ void MessagePassingServiceInstance::RegisterEventNotificationExistenceChangedCal
     IMessagePassingService::HandlerStatusChangeCallback callback) noexcept
 {
     std::unique_lock<std::shared_mutex> write_lock(handler_status_change_callbacks_mutex_);
-    handler_status_change_callbacks_[event_id] = std::move(callback);
+    handler_status_change_callbacks_[event_id] = HandlerStatusChange{std::move(callback), false};
     write_lock.unlock();
 
-    // Check current handler status and invoke callback if handlers already exist
+    // The callback is invoked immediately only if handlers are already registered.
+    // This avoids unnecessary callback invocation when the atomic flags are already initialized to false.
+    ReportHandlerStatus(event_id);
+}
+
+void MessagePassingServiceInstance::ReportHandlerStatus(const ElementFqId event_id) noexcept
+{
+    // Reports of concurrent changes must neither overtake each other nor be based on an outdated view, so that the last
+    // report always matches the registered handlers.
+    std::unique_lock<std::shared_mutex> write_lock(handler_status_change_callbacks_mutex_);
+    auto callback_search = handler_status_change_callbacks_.find(event_id);
+    if (callback_search == handler_status_change_callbacks_.end())
+    {
+        return;
+    }
+
     std::shared_lock<std::shared_mutex> handlers_read_lock(event_update_handlers_mutex_);
     auto handlers_search = event_update_handlers_.find(event_id);
     const bool has_local_handlers =
@@ -1487,22 +1418,10 @@ void MessagePassingServiceInstance::RegisterEventNotificationExistenceChangedCal
     nodes_read_lock.unlock();
 
     const bool has_any_handlers = has_local_handlers || has_remote_handlers;
-
-    // Invoke the callback immediately only if handlers are already registered.
-    // This avoids unnecessary callback invocation when the atomic flags are already initialized to false.
-    if (has_any_handlers)
+    if (has_any_handlers != callback_search->second.reported_status)
     {
-        std::shared_lock<std::shared_mutex> callback_read_lock(handler_status_change_callbacks_mutex_);
-        auto callback_search = handler_status_change_callbacks_.find(event_id);
-
-        // LCOV_EXCL_BR_START: Defensive programming: false branch is unreachable in practice. The code inserts a
-        // callback into the map, then immediately looks it up. Between these two operations (both protected by
-        // mutexes), there's no way for the callback to be removed.
-        if (callback_search != handler_status_change_callbacks_.end())
-        // LCOV_EXCL_BR_STOP
-        {
-            callback_search->second(true);
-        }
+        callback_search->second.reported_status = has_any_handlers;
+        callback_search->second.callback(has_any_handlers);
     }
 }
 
diff --git a/score/mw/com/impl/bindings/lola/messaging/message_passing_service_instance.h b/score/mw/com/impl/bindings/lola/messaging/message_passing_service_instance.h
index f2e1247..a1d0b75 100644
--- a/score/mw/com/impl/bindings/lola/messaging/message_passing_service_instance.h
+++ b/score/mw/com/impl/bindings/lola/messaging/message_passing_service_instance.h
@@ -170,6 +170,12 @@ class MessagePassingServiceInstance : public IMessagePassingServiceInstance
         std::uint16_t counter;
     };
 
+    struct HandlerStatusChange
+    {
+        IMessagePassingService::HandlerStatusChangeCallback callback;
+        bool reported_status;
+    };
+
     // false-positive: is used to define the size of buffer for handlers
     // coverity[autosar_cpp14_a0_1_1_violation]
     static constexpr std::uint8_t kMaxReceiveHandlersPerEvent{5U};
@@ -200,6 +206,10 @@ class MessagePassingServiceInstance : public IMessagePassingServiceInstance
                                                  const pid_t sender_pid,
                                                  const score::cpp::span<const std::uint8_t> message);
     void HandleNotifyEventMsg(const score::cpp::span<const std::uint8_t> payload, const pid_t sender_node_id) noexcept;
+    /// \brief Invokes the callback registered for the given event, if the existence of (local or remote) handlers
+    ///        differs from what was reported last.
+    void ReportHandlerStatus(const ElementFqId event_id) noexcept;
+
     void HandleRegisterNotificationMsg(const score::cpp::span<const std::uint8_t> payload,
                                        const pid_t sender_node_id) noexcept;
     void HandleUnregisterNotificationMsg(const score::cpp::span<const std::uint8_t> payload,
@@ -338,8 +348,7 @@ class MessagePassingServiceInstance : public IMessagePassingServiceInstance
     /// \details This allows SkeletonEvent instances to be notified when they transition from having
     ///          no handlers to having at least one handler (or vice versa), avoiding unnecessary lock
     ///          overhead in the main path when no handlers are registered.
-    std::unordered_map<ElementFqId, IMessagePassingService::HandlerStatusChangeCallback>
-        handler_status_change_callbacks_;
+    std::unordered_map<ElementFqId, HandlerStatusChange> handler_status_change_callbacks_;
 
     std::shared_mutex handler_status_change_callbacks_mutex_;
 
-- 
2.43.0


From 97f96ddafe0ad17e7bf1ebf12f6187064caba079 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:48:45 +0000
Subject: [PATCH 17/44] fix: null OffsetPtr at the end of a memory region does
 not fail the bounds check

---
 score/memory/shared/offset_ptr.h | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/score/memory/shared/offset_ptr.h b/score/memory/shared/offset_ptr.h
index cd30d87..a2bfacb 100644
--- a/score/memory/shared/offset_ptr.h
+++ b/score/memory/shared/offset_ptr.h
@@ -553,7 +553,10 @@ auto OffsetPtr<PointedType>::GetPointerWithBoundsCheck(
     const MemoryRegionBounds& offset_ptr_memory_bounds_when_not_in_shm,
     const std::size_t pointed_type_size) -> pointer
 {
-    if (detail_offset_ptr::IsBoundsCheckingEnabled())
+    // A null pointer doesn't point to any memory. Its offset is only a marker and must not be interpreted as the location
+    // of a pointed-to object, which might not fit between the OffsetPtr and the end of the memory region.
+    const bool is_null = offset == detail_offset_ptr::kNullPtrRepresentation;
+    if (!is_null && detail_offset_ptr::IsBoundsCheckingEnabled())
     {
         const auto offset_ptr_bounds = MemoryResourceRegistry::getInstance().GetBoundsFromAddress(offset_ptr_address);
         const auto is_offset_ptr_in_memory_region = offset_ptr_bounds.has_value();
-- 
2.43.0


From 1ecc8655584c3b6646f9443140c70d0d14d4140f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:48:45 +0000
Subject: [PATCH 18/44] fix: swapping OffsetPtrs keeps the bounds of the memory
 region they were copied from

---
 score/memory/shared/offset_ptr.h | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/score/memory/shared/offset_ptr.h b/score/memory/shared/offset_ptr.h
index a2bfacb..961b6a5 100644
--- a/score/memory/shared/offset_ptr.h
+++ b/score/memory/shared/offset_ptr.h
@@ -1096,9 +1096,11 @@ template <typename T>
 // coverity[autosar_cpp14_m3_2_3_violation : FALSE] See rationale for autosar_cpp14_m3_2_3_violation above
 void swap(OffsetPtr<T>& left, OffsetPtr<T>& right) noexcept
 {
-    auto* const right_ptr = OffsetPtr<T>::GetPointerWithoutBoundsCheck(&right, right.offset_);
+    // Both directions have to copy OffsetPtrs and not raw pointers. Otherwise, the bounds of the memory region that an
+    // OffsetPtr outside of shared memory was copied from would get lost and it would no longer be bounds checked.
+    const OffsetPtr<T> original_right{right};
     right = left;
-    left = right_ptr;
+    left = original_right;
 }
 
 }  // namespace score::memory::shared
-- 
2.43.0


From 22c1c1b075e7c733dcd630a1bf71541c37588295 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:52:35 +0000
Subject: [PATCH 19/44] fix: a memory resource rejected for overlapping memory
 does not stay registered

---
 score/memory/shared/memory_resource_registry.cpp | 10 +++++++++-
 1 file changed, 9 insertions(+), 1 deletion(-)

diff --git a/score/memory/shared/memory_resource_registry.cpp b/score/memory/shared/memory_resource_registry.cpp
index bd1824b..7fba8fc 100644
--- a/score/memory/shared/memory_resource_registry.cpp
+++ b/score/memory/shared/memory_resource_registry.cpp
@@ -78,7 +78,15 @@ auto score::memory::shared::MemoryResourceRegistry::insert_resource(
         const auto memory_range_start_as_integer = CastPointerToInteger(memory_range_start);
         const auto memory_range_end_as_integer = CastPointerToInteger(memory_range_end);
 
-        return region_map_.UpdateKnownRegion(memory_range_start_as_integer, memory_range_end_as_integer);
+        const bool is_region_known =
+            region_map_.UpdateKnownRegion(memory_range_start_as_integer, memory_range_end_as_integer);
+        if (!is_region_known)
+        {
+            // A rejected resource must not stay registered. Otherwise, it could still be looked up and its removal would
+            // try to remove a region which was never added.
+            score::cpp::ignore = this->registry_.erase(result.first);
+        }
+        return is_region_known;
     }
     return result.second;
 }
-- 
2.43.0


From 33679ccd51a6a20e576bde0209e49cb64a240ac3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:07:16 +0000
Subject: [PATCH 20/44] fix: analytic shm size of generic events accounts for
 the alignment of each sample

---
 score/mw/com/impl/bindings/lola/skeleton_memory_manager.cpp | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/score/mw/com/impl/bindings/lola/skeleton_memory_manager.cpp b/score/mw/com/impl/bindings/lola/skeleton_memory_manager.cpp
index 8cbc1a6..68a29cf 100644
--- a/score/mw/com/impl/bindings/lola/skeleton_memory_manager.cpp
+++ b/score/mw/com/impl/bindings/lola/skeleton_memory_manager.cpp
@@ -599,7 +599,9 @@ std::size_t SkeletonMemoryManager::CalculateDataShmResourceStorageSize(
                 {
                     const auto& generic_event_binding = static_cast<const GenericSkeletonEventBinding&>(event_binding);
                     const auto [sample_size, sample_alignment] = generic_event_binding.GetSizeInfo();
-                    const std::size_t total_data_size_bytes = number_of_slots * sample_size;
+                    const std::size_t aligned_sample_size =
+                        memory::shared::CalculateAlignedSize(sample_size, sample_alignment);
+                    const std::size_t total_data_size_bytes = number_of_slots * aligned_sample_size;
                     const std::size_t num_max_align_elements =
                         (total_data_size_bytes + sizeof(std::max_align_t) - 1U) / sizeof(std::max_align_t);
                     const std::size_t slot_array_size = num_max_align_elements * sizeof(std::max_align_t);
-- 
2.43.0


From 626e4f3ec51a606789b3a3c404591dac144652a6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:07:16 +0000
Subject: [PATCH 21/44] fix: analytic shm size does not require max subscribers
 for fields without notifier

---
 score/mw/com/impl/bindings/lola/skeleton_memory_manager.cpp | 6 ++----
 1 file changed, 2 insertions(+), 4 deletions(-)

diff --git a/score/mw/com/impl/bindings/lola/skeleton_memory_manager.cpp b/score/mw/com/impl/bindings/lola/skeleton_memory_manager.cpp
index 68a29cf..5c8981d 100644
--- a/score/mw/com/impl/bindings/lola/skeleton_memory_manager.cpp
+++ b/score/mw/com/impl/bindings/lola/skeleton_memory_manager.cpp
@@ -678,10 +678,8 @@ std::size_t SkeletonMemoryManager::GetMaxSubscribersFromConfig(const std::string
     {
         const auto deployment =
             GetServiceElementInstanceDeployment<ServiceElementType::FIELD>(lola_service_instance_deployment_, name);
-        SCORE_LANGUAGE_FUTURECPP_ASSERT_PRD_MESSAGE(
-            deployment.lola_event_instance_deployment_.max_subscribers_.has_value(),
-            "Max subscribers need to be specified for field on provider side!");
-        return deployment.lola_event_instance_deployment_.max_subscribers_.value();
+        // A field without notifier can't be subscribed to and doesn't need a configured number of subscribers.
+        return deployment.lola_event_instance_deployment_.max_subscribers_.value_or(0U);
     }
     const auto deployment =
         GetServiceElementInstanceDeployment<ServiceElementType::EVENT>(lola_service_instance_deployment_, name);
-- 
2.43.0


From cb3a0ef18be303a17efd405c6b995c82fe1d1307 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:07:51 +0000
Subject: [PATCH 22/44] fix: analytic shm size accounts for the getter and
 setter slots of fields

---
 score/mw/com/impl/bindings/lola/skeleton_event.h           | 6 ++++++
 .../mw/com/impl/bindings/lola/skeleton_event_properties.h  | 5 +++++
 .../mw/com/impl/bindings/lola/skeleton_memory_manager.cpp  | 6 ++++--
 score/mw/com/impl/skeleton_event_binding.h                 | 7 +++++++
 4 files changed, 22 insertions(+), 2 deletions(-)

diff --git a/score/mw/com/impl/bindings/lola/skeleton_event.h b/score/mw/com/impl/bindings/lola/skeleton_event.h
index 2c5f969..8f0e08c 100644
--- a/score/mw/com/impl/bindings/lola/skeleton_event.h
+++ b/score/mw/com/impl/bindings/lola/skeleton_event.h
@@ -98,6 +98,12 @@ class SkeletonEvent final : public SkeletonEventBinding<SampleType>
 
     void PrepareStopOffer() noexcept override;
 
+    std::size_t GetNumberOfAdditionalSlots() const noexcept override
+    {
+        const auto& properties = skeleton_event_common_.GetEventProperties();
+        return properties.GetNumberOfFieldGetterSlots() + properties.GetNumberOfFieldSetterSlots();
+    }
+
     BindingType GetBindingType() const noexcept override
     {
         return BindingType::kLoLa;
diff --git a/score/mw/com/impl/bindings/lola/skeleton_event_properties.h b/score/mw/com/impl/bindings/lola/skeleton_event_properties.h
index d18d716..bb70aec 100644
--- a/score/mw/com/impl/bindings/lola/skeleton_event_properties.h
+++ b/score/mw/com/impl/bindings/lola/skeleton_event_properties.h
@@ -55,6 +55,11 @@ class SkeletonEventProperties
         return number_of_field_getter_slots_;
     }
 
+    [[nodiscard]] std::size_t GetNumberOfFieldSetterSlots() const
+    {
+        return is_setter_enabled_ ? 1U : 0U;
+    }
+
     std::size_t max_subscribers;
 
     // Suppress "AUTOSAR C++14 A9-6-1" rule findings. This rule declares: "Data types used for interfacing with hardware
diff --git a/score/mw/com/impl/bindings/lola/skeleton_memory_manager.cpp b/score/mw/com/impl/bindings/lola/skeleton_memory_manager.cpp
index 5c8981d..1743fa8 100644
--- a/score/mw/com/impl/bindings/lola/skeleton_memory_manager.cpp
+++ b/score/mw/com/impl/bindings/lola/skeleton_memory_manager.cpp
@@ -586,8 +586,9 @@ std::size_t SkeletonMemoryManager::CalculateDataShmResourceStorageSize(
                                      const bool are_fields) {
             for (const auto& binding : bindings)
             {
-                const std::size_t number_of_slots = GetNumberOfSampleSlotsFromConfig(binding.first, are_fields);
                 SkeletonEventBindingBase& event_binding = binding.second.get();
+                const std::size_t number_of_slots = GetNumberOfSampleSlotsFromConfig(binding.first, are_fields) +
+                                                    event_binding.GetNumberOfAdditionalSlots();
 
                 // A generic (type-erased) event/field allocates its slot-array as an EventDataStorage<std::max_align_t>
                 // (see SkeletonMemoryManager::CreateGenericEventDataInCreatedSharedMemory()): the raw byte count gets
@@ -636,7 +637,8 @@ std::size_t SkeletonMemoryManager::CalculateControlShmResourceStorageSize(
                                               const bool are_fields) {
         for (const auto& binding : bindings)
         {
-            const std::size_t number_of_slots = GetNumberOfSampleSlotsFromConfig(binding.first, are_fields);
+            const std::size_t number_of_slots = GetNumberOfSampleSlotsFromConfig(binding.first, are_fields) +
+                                                binding.second.get().GetNumberOfAdditionalSlots();
             const std::size_t max_subscribers = GetMaxSubscribersFromConfig(binding.first, are_fields);
             events_and_fields_size_infos.push_back(ServiceElementControlSizeInfo{number_of_slots, max_subscribers});
         }
diff --git a/score/mw/com/impl/skeleton_event_binding.h b/score/mw/com/impl/skeleton_event_binding.h
index b395578..fe01835 100644
--- a/score/mw/com/impl/skeleton_event_binding.h
+++ b/score/mw/com/impl/skeleton_event_binding.h
@@ -67,6 +67,13 @@ class SkeletonEventBindingBase
     /// \brief Alignment requirement (in bytes) of the underlying event-type's sample data.
     virtual std::size_t GetAlignment() const noexcept = 0;
 
+    /// \brief Number of slots the binding needs in addition to the configured (sample and tracing) slots, e.g. to serve
+    /// getter and setter calls of a field.
+    virtual std::size_t GetNumberOfAdditionalSlots() const noexcept
+    {
+        return 0U;
+    }
+
     /// \brief Gets the binding type of the binding
     virtual BindingType GetBindingType() const noexcept = 0;
 
-- 
2.43.0


From fd2599a48206cc9954b8446acc2ee33a3f71b956 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:09:54 +0000
Subject: [PATCH 23/44] fix: calculated shm size has room for over-aligned
 samples

---
 .../bindings/lola/skeleton_memory_manager.cpp | 20 +++++++++++++++++++
 1 file changed, 20 insertions(+)

diff --git a/score/mw/com/impl/bindings/lola/skeleton_memory_manager.cpp b/score/mw/com/impl/bindings/lola/skeleton_memory_manager.cpp
index 1743fa8..861bc7b 100644
--- a/score/mw/com/impl/bindings/lola/skeleton_memory_manager.cpp
+++ b/score/mw/com/impl/bindings/lola/skeleton_memory_manager.cpp
@@ -42,6 +42,7 @@
 #include <score/span.hpp>
 #include <sys/types.h>
 
+#include <algorithm>
 #include <cstddef>
 #include <optional>
 #include <string>
@@ -126,6 +127,23 @@ bool AreServiceElementBindingsGeneric(const SkeletonBinding::SkeletonEventBindin
     return dynamic_cast<const GenericSkeletonEventBinding*>(&first_binding) != nullptr;
 }
 
+/// \brief Padding, which the storage of over-aligned samples needs in addition to the calculated data size.
+/// \details The calculated size assumes, that the usable memory of the shm-object starts at a location suitably aligned
+/// for every sample type. But it is only guaranteed to be aligned to std::max_align_t.
+std::size_t GetPaddingForOverAlignedSamples(const SkeletonBinding::SkeletonEventBindings& events,
+                                            const SkeletonBinding::SkeletonFieldBindings& fields)
+{
+    std::size_t max_alignment{alignof(std::max_align_t)};
+    for (const auto* const bindings : {&events, &fields})
+    {
+        for (const auto& binding : *bindings)
+        {
+            max_alignment = std::max(max_alignment, binding.second.get().GetAlignment());
+        }
+    }
+    return max_alignment - alignof(std::max_align_t);
+}
+
 }  // namespace
 
 SkeletonMemoryManager::SkeletonMemoryManager(QualityType quality_type,
@@ -453,6 +471,8 @@ SkeletonMemoryManager::ShmResourceStorageSizes SkeletonMemoryManager::CalculateS
         required_shm_storage_size = CalculateShmResourceStorageSizesBySimulation(events, fields);
     }
 
+    required_shm_storage_size.data_size += GetPaddingForOverAlignedSamples(events, fields);
+
     const std::size_t control_asil_b_size_result = required_shm_storage_size.control_asil_b_size.has_value()
                                                        ? required_shm_storage_size.control_asil_b_size.value()
                                                        : 0U;
-- 
2.43.0


From 72567eb82acf9e485d30af68ce86dce8d5572e7b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:12:11 +0000
Subject: [PATCH 24/44] fix: calculated method shm size has room for
 over-aligned arguments and results

---
 score/mw/com/impl/bindings/lola/proxy.cpp | 12 +++++++++++-
 1 file changed, 11 insertions(+), 1 deletion(-)

diff --git a/score/mw/com/impl/bindings/lola/proxy.cpp b/score/mw/com/impl/bindings/lola/proxy.cpp
index 589126b..1dd2bb4 100644
--- a/score/mw/com/impl/bindings/lola/proxy.cpp
+++ b/score/mw/com/impl/bindings/lola/proxy.cpp
@@ -60,6 +60,7 @@
 
 #include <algorithm>
 #include <chrono>
+#include <cstddef>
 #include <cstdint>
 #include <cstring>
 #include <exception>
@@ -851,7 +852,16 @@ std::size_t Proxy::CalculateRequiredShmSize(
         }
     }
 
-    return memory::shared::CalculateAlignedSizeOfSequence(data_type_infos);
+    // The sequence is calculated as if it started at a location suitably aligned for all of its elements, while the
+    // usable memory of the shm-object is only guaranteed to be aligned to std::max_align_t.
+    std::size_t max_alignment{alignof(std::max_align_t)};
+    for (const auto& data_type_info : data_type_infos)
+    {
+        max_alignment = std::max(max_alignment, data_type_info.Alignment());
+    }
+    const auto padding_for_over_aligned_elements = max_alignment - alignof(std::max_align_t);
+
+    return memory::shared::CalculateAlignedSizeOfSequence(data_type_infos) + padding_for_over_aligned_elements;
 }
 
 void Proxy::InitializeSharedMemoryForMethods(
-- 
2.43.0


From bd2c2daa4f6279ce36d673e3fd0edbf4ec84db44 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:48:36 +0000
Subject: [PATCH 25/44] fix: CreateOrOpen of shared memory no longer fails
 because another process tries to open it

A process that merely tries to open a not yet existing object holds the lock file for a moment. CreateOrOpen took
that for a creation in progress, found no object afterwards and gave up although nobody created it.
---
 .../memory/shared/shared_memory_resource.cpp  | 24 ++++++++++++++-----
 score/memory/shared/shared_memory_resource.h  |  2 +-
 2 files changed, 19 insertions(+), 7 deletions(-)

diff --git a/score/memory/shared/shared_memory_resource.cpp b/score/memory/shared/shared_memory_resource.cpp
index cc67488..837ab1d 100644
--- a/score/memory/shared/shared_memory_resource.cpp
+++ b/score/memory/shared/shared_memory_resource.cpp
@@ -497,7 +497,7 @@ SharedMemoryResource::SharedMemoryResource(std::variant<std::string, std::uint64
 // std::terminate call.
 // coverity[autosar_cpp14_a15_5_3_violation : FALSE]
 score::cpp::expected_blank<Error> SharedMemoryResource::CreateImpl(const std::size_t user_space_to_reserve,
-                                                                   const InitializeCallback initialize_callback,
+                                                                   const InitializeCallback& initialize_callback,
                                                                    const UserPermissions& permissions)
 {
     this->opening_mode_ = Fcntl::Open::kReadWrite;
@@ -568,11 +568,16 @@ score::cpp::expected_blank<Error> SharedMemoryResource::CreateOrOpenImpl(const s
                 << "Could not open shared-memory resource with path" << *path << "with errno" << open_result.error()
                 << "Attempting to create it now instead.";
 
-            const auto creation_result = CreateImpl(user_space_to_reserve, std::move(initialize_callback), permissions);
-            // If the shared memory segment could not be created because another process has created it or has acquired
-            // the lock to create it, wait for the other process to create it.
-            if (!creation_result.has_value())
+            constexpr std::size_t kMaxCreateOrOpenAttempts{50U};
+            for (std::size_t attempt = 0U; attempt < kMaxCreateOrOpenAttempts; ++attempt)
             {
+                const auto creation_result = CreateImpl(user_space_to_reserve, initialize_callback, permissions);
+                if (creation_result.has_value())
+                {
+                    return {};
+                }
+                // If the shared memory segment could not be created because another process has created it or has
+                // acquired the lock to create it, wait for the other process to create it.
                 // Create() should terminate for any other error
                 std::stringstream s{};
                 s << "Creating shared memory region failed with errno:" << creation_result.error();
@@ -585,8 +590,15 @@ score::cpp::expected_blank<Error> SharedMemoryResource::CreateOrOpenImpl(const s
                     << "Could not create shared-memory region with errno:" << creation_result.error()
                     << "Another process is creating or has already created it. Attempting to open.";
 
-                return OpenImpl(open_read_write);
+                const auto reopen_result = OpenImpl(open_read_write);
+                // The lock may also have been held by a process which only tried to open the (not yet existing) shared
+                // memory segment. In that case nobody created it, so try again to create it ourselves.
+                if (reopen_result.has_value() || (reopen_result.error() != Error::Code::kNoSuchFileOrDirectory))
+                {
+                    return reopen_result;
+                }
             }
+            return score::cpp::make_unexpected(open_result.error());
         }
         else
         {
diff --git a/score/memory/shared/shared_memory_resource.h b/score/memory/shared/shared_memory_resource.h
index 5f0a79f..11f0623 100644
--- a/score/memory/shared/shared_memory_resource.h
+++ b/score/memory/shared/shared_memory_resource.h
@@ -342,7 +342,7 @@ class SharedMemoryResource : public ISharedMemoryResource, public std::enable_sh
     /// \return in case of error an score::os::Error is returned.
     // coverity[autosar_cpp14_m7_3_1_violation] false-positive: class method (Ticket-234468)
     score::cpp::expected_blank<score::os::Error> CreateImpl(const std::size_t user_space_to_reserve,
-                                                            const InitializeCallback initialize_callback,
+                                                            const InitializeCallback& initialize_callback,
                                                             const UserPermissions& permissions);
 
     /// \brief Called by SharedMemoryResource::CreateOrOpen() after calling the constructor.
-- 
2.43.0


From 422a8c9f9fb0b9a120b282f49d0bbff8e678f97e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:48:36 +0000
Subject: [PATCH 26/44] fix: world-readable shared memory is readable by
 everybody whatever the umask

The mode of an object created with WorldReadable permissions was cut down by the process' umask, so that other users
could not open it; only WorldWritable objects were compensated.
---
 score/memory/shared/shared_memory_resource.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/score/memory/shared/shared_memory_resource.cpp b/score/memory/shared/shared_memory_resource.cpp
index 837ab1d..353e5b5 100644
--- a/score/memory/shared/shared_memory_resource.cpp
+++ b/score/memory/shared/shared_memory_resource.cpp
@@ -896,7 +896,7 @@ auto SharedMemoryResource::do_is_equal(const memory_resource& other) const noexc
 
 void SharedMemoryResource::CompensateUmask(const os::Stat::Mode target_rights) const noexcept
 {
-    if (target_rights == readWriteAccessForEveryBody)
+    if ((target_rights == readWriteAccessForEveryBody) || (target_rights == readAccessForEveryBody))
     {
         auto result = score::os::Stat::instance().fchmod(file_descriptor_, target_rights);
         if (!result.has_value())
-- 
2.43.0


From 568527ec7b816856cc71b45cb68dff78881b069e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:04:12 +0000
Subject: [PATCH 27/44] fix: a client connection stopped while connecting does
 not become ready any more

---
 score/message_passing/client_connection.cpp | 31 +++++++++++++++++----
 1 file changed, 26 insertions(+), 5 deletions(-)

diff --git a/score/message_passing/client_connection.cpp b/score/message_passing/client_connection.cpp
index 2cd2e44..cd581a9 100644
--- a/score/message_passing/client_connection.cpp
+++ b/score/message_passing/client_connection.cpp
@@ -325,6 +325,11 @@ void ClientConnection::DoRestart() noexcept
 {
     stop_reason_ = StopReason::kNone;
     ProcessStateChange(State::kStarting);
+    if (stop_reason_ != StopReason::kNone)
+    {
+        // stopped from within the state callback
+        return;
+    }
 
     LogInfo(engine_->GetLogger(), "ClientConnection::DoRestart ", engine_->IsOnCallbackThread(), " ", identifier_);
 
@@ -347,9 +352,16 @@ void ClientConnection::DoRestart() noexcept
 
 void ClientConnection::TryConnect() noexcept
 {
-    // The order of access to these atomics is important, as stop_reason_ can change in background
-    SCORE_LANGUAGE_FUTURECPP_ASSERT_DBG(((stop_reason_ == StopReason::kNone) && (state_ == State::kStarting)) ||
-                                        ((state_ == State::kStopping) && (stop_reason_ == StopReason::kUserRequested)));
+    // Stop() sets first stop_reason_ and then state_, possibly in background
+    SCORE_LANGUAGE_FUTURECPP_ASSERT_DBG((state_ == State::kStarting) || (state_ == State::kStopping));
+    SCORE_LANGUAGE_FUTURECPP_ASSERT_DBG((stop_reason_ == StopReason::kNone) ||
+                                        (stop_reason_ == StopReason::kUserRequested));
+
+    if (stop_reason_ != StopReason::kNone)
+    {
+        // already stopped by the user, the disconnection command will do the rest
+        return;
+    }
 
     auto& logger = engine_->GetLogger();
 
@@ -446,7 +458,16 @@ void ClientConnection::TryConnect() noexcept
             this);
     }
 
-    ProcessStateChange(State::kReady);
+    // A concurrent Stop() must not be overruled
+    State expected_state = State::kStarting;
+    if (state_.compare_exchange_strong(expected_state, State::kReady))
+    {
+        LogInfo(logger, "ProcessStateChange ", score::cpp::to_underlying(State::kReady));
+        if (!callback_context_->state_callback.empty())
+        {
+            callback_context_->state_callback(State::kReady);
+        }
+    }
 }
 
 IClientConnection::StopReason ClientConnection::ProcessInputEvent() noexcept
@@ -653,7 +674,7 @@ void ClientConnection::ProcessStateChange(const State state) noexcept
         state_ = state;
         if (!callback_context_->state_callback.empty())
         {
-            callback_context_->state_callback(state_);
+            callback_context_->state_callback(state);
         }
     }
     else
-- 
2.43.0


From 5ea1c68055af0b19ee2a0b2a325bebda8955cff6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:04:12 +0000
Subject: [PATCH 28/44] fix: a failing synchronous connection attempt does not
 violate an assertion

---
 score/message_passing/client_connection.cpp | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/score/message_passing/client_connection.cpp b/score/message_passing/client_connection.cpp
index cd581a9..1b429c9 100644
--- a/score/message_passing/client_connection.cpp
+++ b/score/message_passing/client_connection.cpp
@@ -597,7 +597,9 @@ void ClientConnection::SwitchToStopState() noexcept
 {
     SCORE_LANGUAGE_FUTURECPP_ASSERT_DBG(state_ == State::kStopping);
     SCORE_LANGUAGE_FUTURECPP_ASSERT_DBG(stop_reason_ != StopReason::kNone);
-    SCORE_LANGUAGE_FUTURECPP_ASSERT_DBG(IsInCallback());
+    // A failed synchronous connection attempt stops the connection on the thread of the user; nothing is open then
+    SCORE_LANGUAGE_FUTURECPP_ASSERT_DBG(IsInCallback() ||
+                                        (client_config_.sync_first_connect && (client_fd_ == -1)));
     posix_endpoint_.disconnect = {};  // no need to trigger the cleanup once more
     engine_->CleanUpOwner(this);
     if (client_fd_ != -1)
-- 
2.43.0


From d5681b38e47f745f21c4a1521246b972f14939fa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:04:12 +0000
Subject: [PATCH 29/44] fix: a stopped client connection gets back the places
 of its send queue

---
 score/message_passing/client_connection.cpp | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/score/message_passing/client_connection.cpp b/score/message_passing/client_connection.cpp
index 1b429c9..252feff 100644
--- a/score/message_passing/client_connection.cpp
+++ b/score/message_passing/client_connection.cpp
@@ -621,8 +621,10 @@ void ClientConnection::SwitchToStopState() noexcept
     }
     while (!send_queue_.empty())
     {
-        auto callback = std::move(send_queue_.front().callback);
+        SendCommand& send = send_queue_.front();
         send_queue_.pop_front();
+        auto callback = std::move(send.callback);
+        send_pool_.push_front(send);
         if (!callback.empty())
         {
             lock.unlock();
-- 
2.43.0


From 4a099cb7d039914a59e695e00d54505252dc15aa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:05:41 +0000
Subject: [PATCH 30/44] fix: an unexpected reply during the processing of the
 send queue stops the client connection

---
 score/message_passing/client_connection.cpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/score/message_passing/client_connection.cpp b/score/message_passing/client_connection.cpp
index 252feff..596b4b0 100644
--- a/score/message_passing/client_connection.cpp
+++ b/score/message_passing/client_connection.cpp
@@ -494,7 +494,8 @@ IClientConnection::StopReason ClientConnection::ProcessInputEvent() noexcept
         case score::cpp::to_underlying(ServerToClient::REPLY):
         {
             std::unique_lock<std::mutex> lock{send_mutex_};
-            if (waiting_for_reply_.has_value())
+            // without a callback, it is only the send queue that is being processed, and there was no request
+            if (waiting_for_reply_.has_value() && !waiting_for_reply_->empty())
             {
                 ReplyCallback callback = std::move(*waiting_for_reply_);
                 waiting_for_reply_.reset();
-- 
2.43.0


From 7052fc9d7c09aa31044cfa21628ffb2937721100 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:05:58 +0000
Subject: [PATCH 31/44] fix: Stop() in the callback of a request that could not
 be sent waits for the processing of the send queue

---
 score/message_passing/client_connection.cpp | 6 +++++-
 score/message_passing/client_connection.h   | 1 +
 2 files changed, 6 insertions(+), 1 deletion(-)

diff --git a/score/message_passing/client_connection.cpp b/score/message_passing/client_connection.cpp
index 596b4b0..4f4df46 100644
--- a/score/message_passing/client_connection.cpp
+++ b/score/message_passing/client_connection.cpp
@@ -58,6 +58,7 @@ ClientConnection::ClientConnection(std::shared_ptr<ISharedResourceEngine> engine
       send_pool_{},
       send_queue_{},
       waiting_for_reply_{},
+      postpone_disconnection_{false},
       connection_timer_{},
       disconnection_command_{},
       async_send_command_{},
@@ -294,7 +295,7 @@ void ClientConnection::Stop() noexcept
     if (TrySetStopReason(StopReason::kUserRequested))
     {
         ProcessStateChange(State::kStopping);
-        if (IsInCallback())
+        if (IsInCallback() && !postpone_disconnection_)
         {
             SwitchToStopState();
         }
@@ -574,7 +575,10 @@ void ClientConnection::ProcessSendQueueUnderLock(std::unique_lock<std::mutex>& l
             // competing thread wants to queue another message - they will just add it to the send_queue_ and we will
             // process it in the next iteration.
             lock.unlock();
+            // We still need this object after the callback, so, if it calls Stop(), the rest of it has to be postponed.
+            postpone_disconnection_ = true;
             callback(score::cpp::make_unexpected(expected.error()));
+            postpone_disconnection_ = false;
             lock.lock();
             waiting_for_reply_.reset();
         }
diff --git a/score/message_passing/client_connection.h b/score/message_passing/client_connection.h
index 36cce14..dd64a9d 100644
--- a/score/message_passing/client_connection.h
+++ b/score/message_passing/client_connection.h
@@ -132,6 +132,7 @@ class ClientConnection final : public IClientConnection
     score::containers::intrusive_list<SendCommand> send_queue_;
 
     std::optional<ReplyCallback> waiting_for_reply_;
+    bool postpone_disconnection_;  // only used on the callback thread
 
     ISharedResourceEngine::CommandQueueEntry connection_timer_;
     ISharedResourceEngine::CommandQueueEntry disconnection_command_;
-- 
2.43.0


From 38e99aff4856e4b5d6d9749c4e3c3f7d387ba99f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:11:45 +0000
Subject: [PATCH 32/44] fix: requests made while the client connection stops
 fail instead of staying unanswered

---
 score/message_passing/client_connection.cpp | 35 ++++++++++++++++++---
 score/message_passing/client_connection.h   |  1 +
 2 files changed, 32 insertions(+), 4 deletions(-)

diff --git a/score/message_passing/client_connection.cpp b/score/message_passing/client_connection.cpp
index 4f4df46..b55dbb8 100644
--- a/score/message_passing/client_connection.cpp
+++ b/score/message_passing/client_connection.cpp
@@ -58,6 +58,7 @@ ClientConnection::ClientConnection(std::shared_ptr<ISharedResourceEngine> engine
       send_pool_{},
       send_queue_{},
       waiting_for_reply_{},
+      waiting_future_{nullptr},
       postpone_disconnection_{false},
       connection_timer_{},
       disconnection_command_{},
@@ -121,6 +122,11 @@ score::cpp::expected_blank<score::os::Error> ClientConnection::Send(
         return engine_->SendProtocolMessage(client_fd_, score::cpp::to_underlying(ClientToServer::SEND), message);
     }
     std::lock_guard<std::mutex> guard{send_mutex_};
+    if (state_ != State::kReady)
+    {
+        // Stopping has begun; what would be accepted now would never be answered
+        return score::cpp::make_unexpected(score::os::Error::createFromErrno(EINVAL));
+    }
     if (!waiting_for_reply_.has_value())
     {
         if (client_config_.truly_async)
@@ -187,6 +193,11 @@ score::cpp::expected<score::cpp::span<const std::uint8_t>, score::os::Error> Cli
     };
 
     std::unique_lock<std::mutex> lock(send_mutex_);
+    if (state_ != State::kReady)
+    {
+        // Stopping has begun; what would be accepted now would never be answered
+        return score::cpp::make_unexpected(score::os::Error::createFromErrno(EINVAL));
+    }
     if (waiting_for_reply_.has_value())
     {
         // TODO: avoid copying the message
@@ -205,18 +216,23 @@ score::cpp::expected<score::cpp::span<const std::uint8_t>, score::os::Error> Cli
     else
     {
         waiting_for_reply_ = std::move(callback);
+        waiting_future_ = &future;
         lock.unlock();
         const auto expected =
             engine_->SendProtocolMessage(client_fd_, score::cpp::to_underlying(ClientToServer::REQUEST), message);
         lock.lock();
         if (!expected.has_value())
         {
-            if (send_queue_.empty())
+            if (waiting_future_ != &future)
             {
-                // no one managed to get into queue while we were blocking it
-                waiting_for_reply_.reset();
+                // the callback has been taken meanwhile and will finish the future
+                lock.unlock();
+                future.Wait();
+                return result;
             }
-            else
+            waiting_future_ = nullptr;
+            waiting_for_reply_.reset();
+            if ((!send_queue_.empty()) && (state_ == State::kReady))
             {
                 // unblock the queue
                 ArmSendQueueUnderLock();
@@ -243,6 +259,11 @@ score::cpp::expected_blank<score::os::Error> ClientConnection::SendWithCallback(
         return score::cpp::make_unexpected(score::os::Error::createFromErrno(EINVAL));
     }
     std::lock_guard<std::mutex> guard(send_mutex_);
+    if (state_ != State::kReady)
+    {
+        // Stopping has begun; what would be accepted now would never be answered
+        return score::cpp::make_unexpected(score::os::Error::createFromErrno(EINVAL));
+    }
     if (waiting_for_reply_.has_value())
     {
         if (!TryQueueMessage(message, std::move(callback)))
@@ -500,6 +521,7 @@ IClientConnection::StopReason ClientConnection::ProcessInputEvent() noexcept
             {
                 ReplyCallback callback = std::move(*waiting_for_reply_);
                 waiting_for_reply_.reset();
+                waiting_future_ = nullptr;
                 ProcessSendQueueUnderLock(lock);
                 lock.unlock();
                 callback(message);
@@ -606,6 +628,10 @@ void ClientConnection::SwitchToStopState() noexcept
     SCORE_LANGUAGE_FUTURECPP_ASSERT_DBG(IsInCallback() ||
                                         (client_config_.sync_first_connect && (client_fd_ == -1)));
     posix_endpoint_.disconnect = {};  // no need to trigger the cleanup once more
+    {
+        // From here on, everybody who locks the mutex sees that stopping has begun and does not enqueue commands
+        std::lock_guard<std::mutex> guard{send_mutex_};
+    }
     engine_->CleanUpOwner(this);
     if (client_fd_ != -1)
     {
@@ -617,6 +643,7 @@ void ClientConnection::SwitchToStopState() noexcept
     {
         auto callback = std::move(*waiting_for_reply_);
         waiting_for_reply_.reset();
+        waiting_future_ = nullptr;
         lock.unlock();
         if (!callback.empty())
         {
diff --git a/score/message_passing/client_connection.h b/score/message_passing/client_connection.h
index dd64a9d..73a36c6 100644
--- a/score/message_passing/client_connection.h
+++ b/score/message_passing/client_connection.h
@@ -132,6 +132,7 @@ class ClientConnection final : public IClientConnection
     score::containers::intrusive_list<SendCommand> send_queue_;
 
     std::optional<ReplyCallback> waiting_for_reply_;
+    const void* waiting_future_;   // the future of the SendWaitReply() that waits directly, without being queued
     bool postpone_disconnection_;  // only used on the callback thread
 
     ISharedResourceEngine::CommandQueueEntry connection_timer_;
-- 
2.43.0


From ebc52f84c3f3b70e8dc5ae5543fe84ee1630d056 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:45:54 +0000
Subject: [PATCH 33/44] fix: a connection that cannot be accepted does not
 terminate the message passing server

---
 score/message_passing/unix_domain/unix_domain_server.cpp | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/score/message_passing/unix_domain/unix_domain_server.cpp b/score/message_passing/unix_domain/unix_domain_server.cpp
index eb87c2d..8098d02 100644
--- a/score/message_passing/unix_domain/unix_domain_server.cpp
+++ b/score/message_passing/unix_domain/unix_domain_server.cpp
@@ -237,7 +237,13 @@ void UnixDomainServer::ProcessConnect() noexcept
 {
     auto& socket = engine_->GetOsResources().socket;
 
-    const std::int32_t data_fd = socket->accept(server_fd_, nullptr, nullptr).value();
+    const auto data_fd_expected = socket->accept(server_fd_, nullptr, nullptr);
+    if (!data_fd_expected.has_value())
+    {
+        // the connection could not be accepted (e.g. aborted by the client); the other connections are not affected
+        return;
+    }
+    const std::int32_t data_fd = data_fd_expected.value();
 #ifdef __QNX__
     // no support for SO_PEERCRED on QNX
     ClientIdentity identity{0, 0, 0};
-- 
2.43.0


From 711bc21371cc752c278ce5bda385ba9c94f85044 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:45:54 +0000
Subject: [PATCH 34/44] fix: a message whose header was cut off by the end of
 the connection is not delivered

---
 score/message_passing/unix_domain/unix_domain_engine.cpp | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/score/message_passing/unix_domain/unix_domain_engine.cpp b/score/message_passing/unix_domain/unix_domain_engine.cpp
index c01611a..79bcd5c 100644
--- a/score/message_passing/unix_domain/unix_domain_engine.cpp
+++ b/score/message_passing/unix_domain/unix_domain_engine.cpp
@@ -247,6 +247,11 @@ score::cpp::expected<score::cpp::span<const std::uint8_t>, score::os::Error> Uni
         // other side disconnected
         return score::cpp::make_unexpected(score::os::Error::createFromErrno(EPIPE));
     }
+    if (static_cast<std::size_t>(size_expected.value()) != sizeof(code) + sizeof(size))
+    {
+        // other side disconnected in the middle of the header
+        return score::cpp::make_unexpected(score::os::Error::createFromErrno(EIO));
+    }
     if (size == 0)
     {
         return {};
-- 
2.43.0


From db8c4e5d1a72947b7b96429b8eef112700750d09 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:45:54 +0000
Subject: [PATCH 35/44] fix: messages beyond the size of the header field are
 refused instead of corrupting the stream

---
 score/message_passing/unix_domain/unix_domain_engine.cpp | 9 ++++++++-
 1 file changed, 8 insertions(+), 1 deletion(-)

diff --git a/score/message_passing/unix_domain/unix_domain_engine.cpp b/score/message_passing/unix_domain/unix_domain_engine.cpp
index 79bcd5c..cb1d4ae 100644
--- a/score/message_passing/unix_domain/unix_domain_engine.cpp
+++ b/score/message_passing/unix_domain/unix_domain_engine.cpp
@@ -15,6 +15,7 @@
 #include "score/message_passing/unix_domain/unix_domain_socket_address.h"
 
 #include <future>
+#include <limits>
 #include <tuple>
 
 namespace score::message_passing
@@ -192,6 +193,12 @@ score::cpp::expected_blank<score::os::Error> UnixDomainEngine::SendProtocolMessa
     std::uint8_t code,
     const score::cpp::span<const std::uint8_t> message) noexcept
 {
+    if (message.size() > std::numeric_limits<std::uint16_t>::max())
+    {
+        // the size does not fit into the header
+        return score::cpp::make_unexpected(score::os::Error::createFromErrno(EMSGSIZE));
+    }
+
     struct msghdr msg;
     std::ignore = std::memset(static_cast<void*>(&msg), 0, sizeof(msg));
     constexpr auto kVectorCount = 3UL;
@@ -256,7 +263,7 @@ score::cpp::expected<score::cpp::span<const std::uint8_t>, score::os::Error> Uni
     {
         return {};
     }
-    if (size > static_cast<std::uint16_t>(posix_receive_buffer_.size()))
+    if (size > posix_receive_buffer_.size())
     {
         return score::cpp::make_unexpected(score::os::Error::createFromErrno(EMSGSIZE));
     }
-- 
2.43.0


From b90bdc99651d4e2967c5ec6f5c86997d088ef7c1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:45:54 +0000
Subject: [PATCH 36/44] fix: a timed command that becomes due while others are
 processed does not stop the timer

---
 score/message_passing/unix_domain/unix_domain_engine.cpp | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/score/message_passing/unix_domain/unix_domain_engine.cpp b/score/message_passing/unix_domain/unix_domain_engine.cpp
index cb1d4ae..a878a56 100644
--- a/score/message_passing/unix_domain/unix_domain_engine.cpp
+++ b/score/message_passing/unix_domain/unix_domain_engine.cpp
@@ -360,6 +360,11 @@ std::int32_t UnixDomainEngine::ProcessTimerQueue() noexcept
         return -1;
     }
     const auto distance_ms = std::chrono::duration_cast<std::chrono::milliseconds>(then - Clock::now()).count();
+    if (distance_ms < 0)
+    {
+        // became due while the previous commands were processed; a negative timeout would mean "no timeout"
+        return 0;
+    }
     if (distance_ms >= INT32_MAX)
     {
         return INT32_MAX;
-- 
2.43.0


From 5be64c676d2b72cb913392cd0e21e069056f1249 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:44:16 +0000
Subject: [PATCH 37/44] fix: ProvideServiceRequest carries the names of the
 service elements instead of pointers to them

---
 .../sample/messages/gateway_messages.cpp      |  4 +-
 .../sample/messages/gateway_messages.h        | 41 +++++++++++++++++--
 2 files changed, 40 insertions(+), 5 deletions(-)

diff --git a/score/mw/com/gateway/transport_layer/sample/messages/gateway_messages.cpp b/score/mw/com/gateway/transport_layer/sample/messages/gateway_messages.cpp
index 6d9dec7..59e2b73 100644
--- a/score/mw/com/gateway/transport_layer/sample/messages/gateway_messages.cpp
+++ b/score/mw/com/gateway/transport_layer/sample/messages/gateway_messages.cpp
@@ -60,7 +60,9 @@ std::size_t ProvideServiceRequest::Serialize(score::cpp::span<std::uint8_t> buff
 
 bool ProvideServiceRequest::Deserialize(score::cpp::span<const std::uint8_t> data)
 {
-    return DeserializeWithTemplate(*this, data);
+    const auto result = DeserializeWithTemplate(*this, data);
+    UpdateElementViews();
+    return result;
 }
 
 std::size_t AckResponse::Serialize(score::cpp::span<std::uint8_t> buffer) const
diff --git a/score/mw/com/gateway/transport_layer/sample/messages/gateway_messages.h b/score/mw/com/gateway/transport_layer/sample/messages/gateway_messages.h
index ec05266..142d9f7 100644
--- a/score/mw/com/gateway/transport_layer/sample/messages/gateway_messages.h
+++ b/score/mw/com/gateway/transport_layer/sample/messages/gateway_messages.h
@@ -30,17 +30,33 @@ namespace score::mw::com::gateway
 /// (generic) skeleton for the given service instance.
 class ProvideServiceRequest : public TransportMessage
 {
+    /// \brief Owning counterpart of EventInfo. EventInfo only views the name, so its bytes are meaningless for the peer.
+    struct ServiceElement
+    {
+        std::string name{};
+        score::mw::com::DataTypeMetaInfo data_type_meta_info{};
+
+        auto GetSerializeMembers() const
+        {
+            return std::tie(name, data_type_meta_info);
+        }
+        auto GetSerializeMembers()
+        {
+            return std::tie(name, data_type_meta_info);
+        }
+    };
+
     template <typename Self>
     static auto GetSerializeMembersImpl(Self& self)
     {
         using SelfNoRef = std::remove_reference_t<Self>;
         using StringType = std::conditional_t<std::is_const_v<SelfNoRef>, const std::string, std::string>;
         using VectorType = std::conditional_t<std::is_const_v<SelfNoRef>,
-                                              const std::vector<score::mw::com::EventInfo>,
-                                              std::vector<score::mw::com::EventInfo>>;
+                                              const std::vector<ServiceElement>,
+                                              std::vector<ServiceElement>>;
         using Uint32Type = std::conditional_t<std::is_const_v<SelfNoRef>, const std::uint32_t, std::uint32_t>;
         return std::tuple<StringType&, VectorType&, Uint32Type&, Uint32Type&>(
-            self.instance_specifier_, self.elements_, self.shm_control_size_, self.shm_data_size_);
+            self.instance_specifier_, self.owned_elements_, self.shm_control_size_, self.shm_data_size_);
     }
 
   public:
@@ -52,10 +68,15 @@ class ProvideServiceRequest : public TransportMessage
                           std::uint32_t shm_data_size = 0U)
         : TransportMessage(MessageType::kProvideServiceRequest),
           instance_specifier_(std::string{service_instance_specifier.ToString()}),
-          elements_(std::move(service_elements)),
           shm_control_size_(shm_control_size),
           shm_data_size_(shm_data_size)
     {
+        owned_elements_.reserve(service_elements.size());
+        for (const auto& element : service_elements)
+        {
+            owned_elements_.push_back(ServiceElement{std::string{element.name}, element.data_type_meta_info});
+        }
+        UpdateElementViews();
     }
 
     std::size_t Serialize(score::cpp::span<std::uint8_t> buffer) const override;
@@ -91,7 +112,19 @@ class ProvideServiceRequest : public TransportMessage
     }
 
   private:
+    /// \brief Lets elements_ view the names of owned_elements_ (which keep their addresses when the message is moved).
+    void UpdateElementViews()
+    {
+        elements_.clear();
+        elements_.reserve(owned_elements_.size());
+        for (const auto& element : owned_elements_)
+        {
+            elements_.push_back(score::mw::com::EventInfo{element.name, element.data_type_meta_info});
+        }
+    }
+
     std::string instance_specifier_;
+    std::vector<ServiceElement> owned_elements_;
     std::vector<score::mw::com::EventInfo> elements_;
     std::uint32_t shm_control_size_{0U};
     std::uint32_t shm_data_size_{0U};
-- 
2.43.0


From fed8f7a26507adad1017b33aac5ce0ab0bcbf864 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:56:53 +0000
Subject: [PATCH 38/44] fix: shutting down the gateway transport cannot miss
 the waiting dispatch thread

---
 .../transport_layer/sample/bidirectional_transport.cpp     | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/score/mw/com/gateway/transport_layer/sample/bidirectional_transport.cpp b/score/mw/com/gateway/transport_layer/sample/bidirectional_transport.cpp
index a700aba..f81a182 100644
--- a/score/mw/com/gateway/transport_layer/sample/bidirectional_transport.cpp
+++ b/score/mw/com/gateway/transport_layer/sample/bidirectional_transport.cpp
@@ -486,7 +486,12 @@ void BidirectionalTransport::Shutdown()
     receive_socket_.ShutdownFd();
     listen_socket_.ShutdownFd();
 
-    dispatch_shutdown_ = true;
+    {
+        // The flag has to change under the mutex: otherwise the notification could fall between the check of the flag and
+        // the start of the wait in DispatchLoop() and get lost.
+        std::lock_guard<std::mutex> lock(dispatch_mutex_);
+        dispatch_shutdown_ = true;
+    }
     dispatch_cv_.notify_all();
 
     threads_.Shutdown();
-- 
2.43.0


From 696c5551dcfb24f3ac609182fc37bb851f4a55dd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:56:54 +0000
Subject: [PATCH 39/44] fix: a gateway transport shut down while it connects
 does not stay connected

---
 .../transport_layer/sample/bidirectional_transport.cpp    | 8 ++++++++
 .../transport_layer/sample/bidirectional_transport.h      | 3 +++
 2 files changed, 11 insertions(+)

diff --git a/score/mw/com/gateway/transport_layer/sample/bidirectional_transport.cpp b/score/mw/com/gateway/transport_layer/sample/bidirectional_transport.cpp
index f81a182..adbd1d4 100644
--- a/score/mw/com/gateway/transport_layer/sample/bidirectional_transport.cpp
+++ b/score/mw/com/gateway/transport_layer/sample/bidirectional_transport.cpp
@@ -224,6 +224,13 @@ void BidirectionalTransport::ConnectionLoop(score::cpp::stop_token stop_token)
         }
 
         is_connected_ = true;
+        // Shutdown() only wakes up receiving on sockets which it finds. If it was called before the sockets had been set
+        // up, there is nobody else who would end the call to ReceiveUntilDisconnect().
+        if (shutdown_requested_)
+        {
+            CleanupSocketsForReconnection();
+            break;
+        }
         ReceiveUntilDisconnect(stop_token);
 
         CleanupSocketsForReconnection();
@@ -478,6 +485,7 @@ bool BidirectionalTransport::IsConnected() const
 
 void BidirectionalTransport::Shutdown()
 {
+    shutdown_requested_ = true;
     is_connected_ = false;
 
     pending_tracker_->NotifyAll();
diff --git a/score/mw/com/gateway/transport_layer/sample/bidirectional_transport.h b/score/mw/com/gateway/transport_layer/sample/bidirectional_transport.h
index 95c9142..500b65e 100644
--- a/score/mw/com/gateway/transport_layer/sample/bidirectional_transport.h
+++ b/score/mw/com/gateway/transport_layer/sample/bidirectional_transport.h
@@ -119,6 +119,9 @@ class BidirectionalTransport : public IBidirectionalTransport
     std::condition_variable dispatch_cv_;
     std::atomic<bool> dispatch_shutdown_{false};
 
+    // Set by Shutdown() before it shuts down the sockets.
+    std::atomic<bool> shutdown_requested_{false};
+
     std::unique_ptr<IMessageFramer> message_framer_;
     std::unique_ptr<IPendingRequestTracker> pending_tracker_;
 
-- 
2.43.0


From ddd53cb1dc96523a8319f76261acac2ae4136e33 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:56:54 +0000
Subject: [PATCH 40/44] fix: a gateway message which could only be sent in part
 ends the stream

---
 .../transport_layer/sample/message_framer.cpp | 19 +++++++++++++------
 1 file changed, 13 insertions(+), 6 deletions(-)

diff --git a/score/mw/com/gateway/transport_layer/sample/message_framer.cpp b/score/mw/com/gateway/transport_layer/sample/message_framer.cpp
index b1405c9..010af85 100644
--- a/score/mw/com/gateway/transport_layer/sample/message_framer.cpp
+++ b/score/mw/com/gateway/transport_layer/sample/message_framer.cpp
@@ -17,6 +17,10 @@
 
 #include <score/span.hpp>
 
+#include <sys/socket.h>
+
+#include <cerrno>
+
 namespace score::mw::com::gateway
 {
 
@@ -34,6 +38,10 @@ int SendAll(std::int32_t socket_fd, const void* data, std::size_t length)
         auto result = Socket::instance().sendto(socket_fd, ptr, length, Socket::MessageFlag::kNone, nullptr, 0);
         if (!result.has_value())
         {
+            if (result.error() == score::os::Error::createFromErrno(EINTR))
+            {
+                continue;
+            }
             return -1;
         }
         const auto sent = static_cast<std::size_t>(result.value());
@@ -112,13 +120,12 @@ score::Result<void> MessageFramer::SendMessage(std::int32_t socket_fd, const Tra
     std::array<std::uint8_t, MessageHeader::kWireSize> header_buf{};
     header.SerializeToBuffer(header_buf.data());
 
-    if (SendAll(socket_fd, &header_buf, MessageHeader::kWireSize) != 0)
-    {
-        return score::MakeUnexpected(TransportErrorc::kSendFailure);
-    }
-
-    if (SendAll(socket_fd, send_buffer_.data(), payload_size) != 0)
+    if (SendAll(socket_fd, &header_buf, MessageHeader::kWireSize) != 0 ||
+        SendAll(socket_fd, send_buffer_.data(), payload_size) != 0)
     {
+        // A part of the message may already be on its way. The peer would take whatever is sent next for the rest of this
+        // message, so the stream has to end here.
+        ::shutdown(socket_fd, SHUT_RDWR);
         return score::MakeUnexpected(TransportErrorc::kSendFailure);
     }
 
-- 
2.43.0


From a14b4277817d6a53fd6c6a46408c482b443e17f0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 06:23:54 +0000
Subject: [PATCH 41/44] fix: a provider which cut off its QM consumers is not
 terminated by tracing

---
 score/mw/com/impl/bindings/lola/skeleton_event.h | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/score/mw/com/impl/bindings/lola/skeleton_event.h b/score/mw/com/impl/bindings/lola/skeleton_event.h
index 8f0e08c..a36bd38 100644
--- a/score/mw/com/impl/bindings/lola/skeleton_event.h
+++ b/score/mw/com/impl/bindings/lola/skeleton_event.h
@@ -164,7 +164,11 @@ Result<void> SkeletonEvent<SampleType>::Send(
         return MakeUnexpected<void>(send_result.error());
     }
 
-    if (send_trace_callback.has_value())
+    // Tracing references the slot in the ASIL-QM control. Once the ASIL-QM control is disconnected, its slots are neither
+    // published nor taken into account during slot allocation anymore and can therefore not be referenced.
+    const bool is_qm_control_disconnected =
+        skeleton_event_common_.GetEventDataControlComposite().IsQmControlDisconnected();
+    if (send_trace_callback.has_value() && !is_qm_control_disconnected)
     {
         (*send_trace_callback)(sample);
     }
-- 
2.43.0


From 0e944c62a67e801e7c4d19573b0e031a49064b04 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 06:29:13 +0000
Subject: [PATCH 42/44] fix: traced shared memory is unregistered even if all
 its trace points were disabled

---
 score/mw/com/impl/tracing/skeleton_tracing.cpp | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/score/mw/com/impl/tracing/skeleton_tracing.cpp b/score/mw/com/impl/tracing/skeleton_tracing.cpp
index ef2a6f0..a60aa9c 100644
--- a/score/mw/com/impl/tracing/skeleton_tracing.cpp
+++ b/score/mw/com/impl/tracing/skeleton_tracing.cpp
@@ -31,7 +31,10 @@ namespace
 
 bool IsTracingEnabledForInterfaceEvent(const SkeletonEventTracingData& skeleton_event_tracing) noexcept
 {
-    return (skeleton_event_tracing.enable_send || skeleton_event_tracing.enable_send_with_allocate);
+    // Trace points may get disabled at runtime due to trace errors. Since the shm-object must be unregistered even if all
+    // trace points got disabled while it was registered, an element which got tracing slots assigned is still considered.
+    return (skeleton_event_tracing.enable_send || skeleton_event_tracing.enable_send_with_allocate ||
+            (skeleton_event_tracing.service_element_tracing_data.number_of_service_element_tracing_slots > 0U));
 }
 
 bool IsTracingEnabledForAnyEvent(
-- 
2.43.0


From 4c777446e7dc458d5efe7e365af3820a04719493 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 06:30:28 +0000
Subject: [PATCH 43/44] fix: the receive handler of a traced proxy event
 survives a move of the event

---
 score/mw/com/impl/generic_proxy_event.h |  2 +-
 score/mw/com/impl/proxy_event.h         |  8 ++++----
 score/mw/com/impl/proxy_event_base.cpp  | 12 ++++++------
 score/mw/com/impl/proxy_event_base.h    |  4 +++-
 4 files changed, 14 insertions(+), 12 deletions(-)

diff --git a/score/mw/com/impl/generic_proxy_event.h b/score/mw/com/impl/generic_proxy_event.h
index f6be0d0..08564c1 100644
--- a/score/mw/com/impl/generic_proxy_event.h
+++ b/score/mw/com/impl/generic_proxy_event.h
@@ -100,7 +100,7 @@ Result<std::size_t> GenericProxyEvent::GetNewSamples(F&& receiver, std::size_t m
     }
 
     auto tracing_receiver =
-        tracing::CreateTracingGenericGetNewSamplesCallback<F>(tracing_data_, std::forward<F>(receiver));
+        tracing::CreateTracingGenericGetNewSamplesCallback<F>(*tracing_data_, std::forward<F>(receiver));
 
     auto* const proxy_event_binding = dynamic_cast<GenericProxyEventBinding*>(binding_base_.get());
     SCORE_LANGUAGE_FUTURECPP_ASSERT_PRD_MESSAGE(proxy_event_binding != nullptr,
diff --git a/score/mw/com/impl/proxy_event.h b/score/mw/com/impl/proxy_event.h
index f76af41..0e8a975 100644
--- a/score/mw/com/impl/proxy_event.h
+++ b/score/mw/com/impl/proxy_event.h
@@ -164,7 +164,7 @@ ProxyEvent<SampleType>::ProxyEvent(ProxyBase& base, const std::string_view event
     if (GetTypedEventBinding() != nullptr)
     {
         const auto& instance_identifier = proxy_base_view.GetAssociatedHandleType().GetInstanceIdentifier();
-        tracing_data_ = tracing::GenerateProxyTracingStructFromEventConfig(instance_identifier, event_name);
+        *tracing_data_ = tracing::GenerateProxyTracingStructFromEventConfig(instance_identifier, event_name);
     }
 }
 
@@ -182,7 +182,7 @@ ProxyEvent<SampleType>::ProxyEvent(ProxyBase& base,
     {
         ProxyBaseView proxy_base_view{base};
         const auto& instance_identifier = proxy_base_view.GetAssociatedHandleType().GetInstanceIdentifier();
-        tracing_data_ = tracing::GenerateProxyTracingStructFromFieldConfig(instance_identifier, event_name);
+        *tracing_data_ = tracing::GenerateProxyTracingStructFromFieldConfig(instance_identifier, event_name);
     }
 }
 
@@ -199,7 +199,7 @@ Result<std::size_t> ProxyEvent<SampleType>::GetNewSamples(F&& receiver, std::siz
         return proxy_event_mock_->GetNewSamples(std::move(mock_callback), max_num_samples);
     }
 
-    tracing::TraceGetNewSamples(tracing_data_, *binding_base_);
+    tracing::TraceGetNewSamples(*tracing_data_, *binding_base_);
 
     auto guard_factory = tracker_->Allocate(max_num_samples);
 
@@ -211,7 +211,7 @@ Result<std::size_t> ProxyEvent<SampleType>::GetNewSamples(F&& receiver, std::siz
     }
 
     auto tracing_receiver = tracing::CreateTracingGetNewSamplesCallback<SampleType, F>(
-        tracing_data_, *binding_base_, std::forward<F>(receiver));
+        *tracing_data_, *binding_base_, std::forward<F>(receiver));
 
     const auto get_new_samples_result =
         GetTypedEventBinding()->GetNewSamples(std::move(tracing_receiver), guard_factory);
diff --git a/score/mw/com/impl/proxy_event_base.cpp b/score/mw/com/impl/proxy_event_base.cpp
index cb125c4..cb95317 100644
--- a/score/mw/com/impl/proxy_event_base.cpp
+++ b/score/mw/com/impl/proxy_event_base.cpp
@@ -46,7 +46,7 @@ ProxyEventBase::ProxyEventBase(std::string_view event_name,
                         .value()},
       event_name_{event_name},
       tracker_{std::make_unique<SampleReferenceTracker>()},
-      tracing_data_{},
+      tracing_data_{std::make_unique<tracing::ProxyEventTracingData>()},
       proxy_event_base_mock_{nullptr},
       is_subscribed_flag_{false},
       receive_handler_scope_{}
@@ -85,7 +85,7 @@ Result<void> ProxyEventBase::Subscribe(const std::size_t max_sample_count)
         return mock_result;
     }
 
-    tracing::TraceSubscribe(tracing_data_, *binding_base_, max_sample_count);
+    tracing::TraceSubscribe(*tracing_data_, *binding_base_, max_sample_count);
 
     const auto current_state = GetSubscriptionState();
     if (current_state == SubscriptionState::kNotSubscribed)
@@ -133,7 +133,7 @@ void ProxyEventBase::Unsubscribe() noexcept
     SCORE_LANGUAGE_FUTURECPP_ASSERT_PRD_MESSAGE(binding_base_ != nullptr,
                                                 "binding_base_ must be set if Subscribe completed successfully.");
 
-    tracing::TraceUnsubscribe(tracing_data_, *binding_base_);
+    tracing::TraceUnsubscribe(*tracing_data_, *binding_base_);
 
     if (GetSubscriptionState() != SubscriptionState::kNotSubscribed)
     {
@@ -210,8 +210,8 @@ Result<void> ProxyEventBase::SetReceiveHandler(EventReceiveHandler handler) noex
         return proxy_event_base_mock_->SetReceiveHandler(std::move(handler));
     }
 
-    tracing::TraceSetReceiveHandler(tracing_data_, *binding_base_);
-    auto tracing_handler = tracing::CreateTracingReceiveHandler(tracing_data_, *binding_base_, std::move(handler));
+    tracing::TraceSetReceiveHandler(*tracing_data_, *binding_base_);
+    auto tracing_handler = tracing::CreateTracingReceiveHandler(*tracing_data_, *binding_base_, std::move(handler));
 
     // Package the tracing handler, which already encapsulates the user provided EventReceiveHandler into another
     // move-only function, which adds the aspect of updating the thread local state is_in_receive_handler_context
@@ -249,7 +249,7 @@ Result<void> ProxyEventBase::UnsetReceiveHandler() noexcept
         // silently ignore this call.
         return {};
     }
-    tracing::TraceUnsetReceiveHandler(tracing_data_, *binding_base_);
+    tracing::TraceUnsetReceiveHandler(*tracing_data_, *binding_base_);
 
     ExpireReceiveHandlerScopeIfNotInHandler();
     receive_handler_ptr_.reset();
diff --git a/score/mw/com/impl/proxy_event_base.h b/score/mw/com/impl/proxy_event_base.h
index 5fc40bf..d583d18 100644
--- a/score/mw/com/impl/proxy_event_base.h
+++ b/score/mw/com/impl/proxy_event_base.h
@@ -193,7 +193,9 @@ class ProxyEventBase : public EnableReferenceToMoveableFromThis<ProxyEventBase>
 
     std::string_view event_name_;
     std::unique_ptr<SampleReferenceTracker> tracker_;
-    tracing::ProxyEventTracingData tracing_data_;
+    // Stored on the heap since the tracing receive handler (see SetReceiveHandler()) refers to it, also after this object
+    // has been moved.
+    std::unique_ptr<tracing::ProxyEventTracingData> tracing_data_;
 
     IProxyEventBase* proxy_event_base_mock_;
 
-- 
2.43.0


From 8bfa51422ef844adec5a35316de92f7d1153cb53 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 06:37:55 +0000
Subject: [PATCH 44/44] fix: a provider restarting without tracing does not
 dereference a missing tracing runtime

---
 .../mw/com/impl/bindings/lola/skeleton_memory_manager.cpp | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/score/mw/com/impl/bindings/lola/skeleton_memory_manager.cpp b/score/mw/com/impl/bindings/lola/skeleton_memory_manager.cpp
index 861bc7b..efb9e94 100644
--- a/score/mw/com/impl/bindings/lola/skeleton_memory_manager.cpp
+++ b/score/mw/com/impl/bindings/lola/skeleton_memory_manager.cpp
@@ -354,7 +354,13 @@ void SkeletonMemoryManager::RollbackSkeletonTracingTransactions(EventControl& ev
         ::score::mw::log::LogWarn("lola")
             << "SkeletonEvent: PrepareOffer failed: Could not rollback tracing consumer after "
                "crash. Disabling tracing.";
-        impl::Runtime::getInstance().GetTracingRuntime()->DisableTracing();
+        // The skeleton transaction log is also used by fields with a getter, i.e. it may exist without tracing being
+        // configured.
+        auto* const tracing_runtime = impl::Runtime::getInstance().GetTracingRuntime();
+        if (tracing_runtime != nullptr)
+        {
+            tracing_runtime->DisableTracing();
+        }
     }
 }
 
-- 
2.43.0

