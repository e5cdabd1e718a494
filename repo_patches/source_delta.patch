From 408fbc3b2476211e7127427ccefc53b379df8b9c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:06:50 +0000
Subject: [PATCH 01/28] fix: register type class in the reused registry slot
 and not in a local copy

---
 code/dynamix/domain.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/code/dynamix/domain.cpp b/code/dynamix/domain.cpp
index d17587e..bac387d 100644
--- a/code/dynamix/domain.cpp
+++ b/code/dynamix/domain.cpp
@@ -348,7 +348,7 @@ public:
                 if (tc->name == new_tc.name) throw_exception::duplicate_name(m_domain, new_tc);
             }
             else {
-                free_slot = &tc;
+                free_slot = &*i;
             }
         }
 
-- 
2.43.0


From 3afd0439b941ba3287316ce429989141b693fbe9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:06:50 +0000
Subject: [PATCH 02/28] fix: don't report a cycle for a query with dependencies
 and no mutation rules

---
 code/dynamix/domain.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/code/dynamix/domain.cpp b/code/dynamix/domain.cpp
index bac387d..afc50ba 100644
--- a/code/dynamix/domain.cpp
+++ b/code/dynamix/domain.cpp
@@ -474,7 +474,7 @@ public:
                 if (i == 0) return last_result; // first application changed nothing
                 return original_query;
             }
-            if (i == max_depenency_depth || i == int(rules.size())) {
+            if (i == max_depenency_depth || (i > 0 && i == int(rules.size()))) {
                 // again: this is not necessarily a real cycle but we treat it as such
                 throw_exception::cyclic_rule_deps(mutation);
             }
-- 
2.43.0


From 744435b221c908223075cdb69b1e52f5c38349c6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:06:50 +0000
Subject: [PATCH 03/28] fix: don't purge types and queries when unregistering a
 foreign mixin fails

---
 code/dynamix/domain.cpp | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/code/dynamix/domain.cpp b/code/dynamix/domain.cpp
index afc50ba..95aba66 100644
--- a/code/dynamix/domain.cpp
+++ b/code/dynamix/domain.cpp
@@ -285,6 +285,10 @@ public:
     }
 
     void unregister_mixin(mixin_info& info) {
+        // mixin is not our own?
+        // this has to be checked first so as not to purge types which have our own mixin with the same id
+        if (info.id == invalid_mixin_id || get_mixin_info(info.id) != &info) throw_exception::unreg_foreign(m_domain, info);
+
         {
             auto treg = m_type_registry.unique_lock();
             // since this mixin is no longer valid
@@ -323,11 +327,7 @@ public:
         }
 
         auto reg = m_element_registry.unique_lock();
-        auto& sparse_mixins = reg->sparse_mixins;
-
-        // mixin is not our own?
-        if (info.iid() >= sparse_mixins.size() || sparse_mixins[info.iid()] != &info) throw_exception::unreg_foreign(m_domain, info);
-        sparse_mixins[info.iid()] = nullptr; // free slot
+        reg->sparse_mixins[info.iid()] = nullptr; // free slot
 
         // invalidate info
         info.id = invalid_mixin_id;
-- 
2.43.0


From 2d4390597d012891e4f4feba706a368d1f961010 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:07:21 +0000
Subject: [PATCH 04/28] fix: complete object mutations to an empty type

---
 code/dynamix/object_mutation.cpp | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/code/dynamix/object_mutation.cpp b/code/dynamix/object_mutation.cpp
index e978afe..f27792f 100644
--- a/code/dynamix/object_mutation.cpp
+++ b/code/dynamix/object_mutation.cpp
@@ -87,6 +87,12 @@ void object_mutation::deallocate_external_mixin(void* ptr, const mixin_info& inf
 void object_mutation::allocate_mixin_data() {
     assert(m_allocated_upto == 0);
 
+    if (m_target_type.num_mixins() == 0) {
+        // empty target: there is nothing to allocate or update, so the mutation is complete as is
+        m_complete = true;
+        return;
+    }
+
     if (&m_target_type == m_old_type) {
         // tag: same_type_shortcut
         // we've somehow ended-up mutating the object with the same type
-- 
2.43.0


From 3dbfde163c03477e08be636b894bfafcae0a7bdc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:07:21 +0000
Subject: [PATCH 05/28] fix: don't let exceptions escape dnmx_object_reset_type
 with a null type

---
 code/dynamix/object-c.cpp | 15 +++++++--------
 1 file changed, 7 insertions(+), 8 deletions(-)

diff --git a/code/dynamix/object-c.cpp b/code/dynamix/object-c.cpp
index 2fc40c0..5405b91 100644
--- a/code/dynamix/object-c.cpp
+++ b/code/dynamix/object-c.cpp
@@ -105,19 +105,18 @@ bool dnmx_object_clear(dnmx_object_handle ho) {
     return true;
 }
 dnmx_error_return_t dnmx_object_reset_type(dnmx_object_handle ho, dnmx_type_handle ht) {
-    if (ht) {
-        try {
+    try {
+        if (ht) {
             self->reset_type(*type::from_c_handle(ht));
         }
-        catch (std::exception&) {
-            return -1;
+        else {
+            self->clear();
         }
+        return dnmx_result_success;
     }
-    else {
-        self->clear();
+    catch (std::exception&) {
+        return -1;
     }
-
-    return dnmx_result_success;
 }
 
 bool dnmx_object_is_empty(dnmx_const_object_handle ho) {
-- 
2.43.0


From 270975a7bdb59e1c40dd8e587ed42a9ee095446d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:07:21 +0000
Subject: [PATCH 06/28] fix: make the add by name mutate op with a func compile

---
 code/dynamix/mutate_ops.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/code/dynamix/mutate_ops.hpp b/code/dynamix/mutate_ops.hpp
index c30c5d0..d00fe95 100644
--- a/code/dynamix/mutate_ops.hpp
+++ b/code/dynamix/mutate_ops.hpp
@@ -58,7 +58,7 @@ struct add_mixin_op_with_func_by_name final : public mutate_op_by_name, public o
         : mutate_op_by_name(name)
         , object_mutate_op_with_func<ConstructNew_Func>(std::forward<ConstructNew_Func>(func))
     {}
-    void apply_to_type_mutation(type_mutation& mut) { this->info_to_add = &mut.add(name); }
+    void apply_to_type_mutation(type_mutation& mut) { this->affected_info = &mut.add(name); }
 };
 
 template <typename ConstructNew_Func>
-- 
2.43.0


From 0b629a172ea55904afb093b0bd625f5029c90377 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:07:21 +0000
Subject: [PATCH 07/28] fix: ignore mutate_to ops for unknown mixin names

---
 code/dynamix/mutate_to.hpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/code/dynamix/mutate_to.hpp b/code/dynamix/mutate_to.hpp
index 09481eb..d010cfe 100644
--- a/code/dynamix/mutate_to.hpp
+++ b/code/dynamix/mutate_to.hpp
@@ -33,6 +33,7 @@ void mutate_to(object& obj, const type& type, Ops&&... ops) {
     obj_mutates_end = std::remove_if(obj_mutates, obj_mutates_end, [&type](object_mutate_op* op) {
         if (!op) return true; // null (non add-mixin op)
         if (!op->overrides_init()) return true; // valid op, which doesn't override init, so we don't need it
+        if (!op->affected_info) return true; // no such mixin (op by an unknown name)
         auto index = type.index_of(op->affected_info->id);
         if (index == invalid_mixin_index) return true; // mixin which was removed by rules
         op->mixin_index = index; // assign index
-- 
2.43.0


From 867580eb82b7dd07ae7941bf861ff4606cf67251 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:07:21 +0000
Subject: [PATCH 08/28] fix: apply only the first of several mutate_to ops for
 the same mixin

---
 code/dynamix/mutate_to.hpp | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/code/dynamix/mutate_to.hpp b/code/dynamix/mutate_to.hpp
index d010cfe..7be2bf7 100644
--- a/code/dynamix/mutate_to.hpp
+++ b/code/dynamix/mutate_to.hpp
@@ -41,10 +41,15 @@ void mutate_to(object& obj, const type& type, Ops&&... ops) {
     });
 
     // sort by index
-    std::sort(obj_mutates, obj_mutates_end, [](const object_mutate_op* a, const object_mutate_op* b) {
+    std::stable_sort(obj_mutates, obj_mutates_end, [](const object_mutate_op* a, const object_mutate_op* b) {
         return a->mixin_index < b->mixin_index;
     });
 
+    // if multiple ops are for the same mixin, only the first one is applied
+    obj_mutates_end = std::unique(obj_mutates, obj_mutates_end, [](const object_mutate_op* a, const object_mutate_op* b) {
+        return a->mixin_index == b->mixin_index;
+    });
+
     // when overriding ops are sorted, we can do a piecewise mutation
     object_mutation obj_mut(obj, type);
     for (auto i = obj_mutates; i != obj_mutates_end; ++i) {
-- 
2.43.0


From 91f31fc61378b1eed12771044967f8f7c2720a15 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:07:21 +0000
Subject: [PATCH 09/28] fix: don't cancel mutations which are performed during
 the unwinding of an unrelated exception

---
 code/dynamix/mutate.hpp          | 5 ++++-
 code/dynamix/object_mutation.cpp | 2 +-
 code/dynamix/object_mutation.hpp | 6 ++++++
 3 files changed, 11 insertions(+), 2 deletions(-)

diff --git a/code/dynamix/mutate.hpp b/code/dynamix/mutate.hpp
index fea31fb..2d4d99c 100644
--- a/code/dynamix/mutate.hpp
+++ b/code/dynamix/mutate.hpp
@@ -6,6 +6,8 @@
 #include "mutate_to.hpp"
 #include "domain.hpp"
 
+#include <exception>
+
 namespace dynamix {
 // regular mutate with ops as arguments
 template <typename... Ops>
@@ -25,13 +27,14 @@ class gradual_mutation {
     type_mutation m_type_mut;
     object& m_obj;
     bool m_applied = false;
+    int m_uncaught_exceptions_on_init = std::uncaught_exceptions();
 public:
     gradual_mutation(object& obj)
         : m_type_mut(obj.get_type())
         , m_obj(obj)
     {}
     ~gradual_mutation() noexcept(false) {
-        if (std::uncaught_exceptions()) return;
+        if (std::uncaught_exceptions() > m_uncaught_exceptions_on_init) return;
         if (m_applied) return;
         apply();
     }
diff --git a/code/dynamix/object_mutation.cpp b/code/dynamix/object_mutation.cpp
index f27792f..3812a7f 100644
--- a/code/dynamix/object_mutation.cpp
+++ b/code/dynamix/object_mutation.cpp
@@ -48,7 +48,7 @@ object_mutation::object_mutation(std::nullptr_t, object& obj) noexcept
 object_mutation::~object_mutation() noexcept(false) {
     if (m_moved_out_from) return;
 
-    if (std::uncaught_exceptions()) {
+    if (std::uncaught_exceptions() > m_uncaught_exceptions_on_init) {
         rollback();
         return;
     }
diff --git a/code/dynamix/object_mutation.hpp b/code/dynamix/object_mutation.hpp
index 2ae8e55..e3f3765 100644
--- a/code/dynamix/object_mutation.hpp
+++ b/code/dynamix/object_mutation.hpp
@@ -9,6 +9,8 @@
 #include "globals.hpp"
 #include "object_mutation_funcs.hpp"
 
+#include <exception>
+
 namespace dynamix {
 class object;
 
@@ -159,6 +161,10 @@ private:
 
     bool m_complete = false;
 
+    // used to determine whether the mutation is destroyed by stack unwinding
+    // (the mutation itself may be performed while another exception is being handled by unwinding)
+    int m_uncaught_exceptions_on_init = std::uncaught_exceptions();
+
     // rust-style bool to help us support moving mutations
     bool m_moved_out_from = false;
 };
-- 
2.43.0


From 9317488020eb1d8a505be2267285650b49cbd16a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:07:21 +0000
Subject: [PATCH 10/28] fix: compare string views with the same beginning but
 with different lengths correctly

---
 code/dnmx/bits/sv.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/code/dnmx/bits/sv.h b/code/dnmx/bits/sv.h
index 6d5d449..0f54064 100644
--- a/code/dnmx/bits/sv.h
+++ b/code/dnmx/bits/sv.h
@@ -81,7 +81,7 @@ static inline size_t dnmx_sv_len(dnmx_sv sv) { return sv.end - sv.begin; }
 
 static inline int dnmx_sv_cmp(dnmx_sv a, dnmx_sv b) {
     // avoid memcmp with null
-    if (a.begin == b.begin) return 0;
+    if (a.begin == b.begin && a.end == b.end) return 0;
     size_t alen = dnmx_sv_len(a);
     if (!b.begin) return !!alen;
     size_t blen = dnmx_sv_len(b);
-- 
2.43.0


From cf3be49cab7df571e5e9a059e024daab79141d32 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:08:59 +0000
Subject: [PATCH 11/28] fix: don't roll back a mutation which is already
 finalized

---
 code/dynamix/object_mutation.cpp | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/code/dynamix/object_mutation.cpp b/code/dynamix/object_mutation.cpp
index 3812a7f..cee11a5 100644
--- a/code/dynamix/object_mutation.cpp
+++ b/code/dynamix/object_mutation.cpp
@@ -204,6 +204,9 @@ void object_mutation::rollback() noexcept {
 void object_mutation::finalize() noexcept {
     if (!m_complete) return;
 
+    // the changes are applied: nothing is left to be rolled back (or finalized again) by the destructor
+    m_moved_out_from = true;
+
     if (&m_target_type == m_old_type) {
         // tag: same_type_shortcut
         m_old_mixin_data = nullptr;
-- 
2.43.0


From b0f9534cb54ef3a26ac2329fb2680fe6db0e447a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:23:26 +0000
Subject: [PATCH 12/28] fix: v1compat substitute_mixin: don't add a duplicate
 of a target mixin which is already there

---
 v1compat/code/dynamix/v1compat/common_mutation_rules.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/v1compat/code/dynamix/v1compat/common_mutation_rules.hpp b/v1compat/code/dynamix/v1compat/common_mutation_rules.hpp
index c2bfe67..5bdc05e 100644
--- a/v1compat/code/dynamix/v1compat/common_mutation_rules.hpp
+++ b/v1compat/code/dynamix/v1compat/common_mutation_rules.hpp
@@ -68,7 +68,7 @@ class substitute_mixin : public mutation_rule {
     virtual void apply_to(type_mutation& mut) override {
         if (mut.has<SourceMixin>()) {
             mut.remove<SourceMixin>();
-            mut.add<TargetMixin>();
+            mut.add_if_lacking<TargetMixin>();
         }
     }
 };
-- 
2.43.0


From 31ae0598dd66bb3433e86d0a194d65e3b767dd56 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:08:23 +0000
Subject: [PATCH 13/28] fix: let type_mutation report allocation failures when
 created from a type

---
 code/dynamix/type_mutation.cpp | 2 +-
 code/dynamix/type_mutation.hpp | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/code/dynamix/type_mutation.cpp b/code/dynamix/type_mutation.cpp
index 7cf6ccd..e66f4aa 100644
--- a/code/dynamix/type_mutation.cpp
+++ b/code/dynamix/type_mutation.cpp
@@ -22,7 +22,7 @@ type_mutation::type_mutation(domain& d, const allocator& alloc) noexcept
     , mixins(alloc)
 {}
 
-type_mutation::type_mutation(const type& base, const allocator& alloc) noexcept
+type_mutation::type_mutation(const type& base, const allocator& alloc)
     : type_mutation(base.dom, alloc)
 {
     mixins.assign(base.mixins.begin(), base.mixins.end());
diff --git a/code/dynamix/type_mutation.hpp b/code/dynamix/type_mutation.hpp
index c82d647..5c78418 100644
--- a/code/dynamix/type_mutation.hpp
+++ b/code/dynamix/type_mutation.hpp
@@ -30,7 +30,7 @@ public:
 
     // start a mutation with a specific base
     // optionally provide an allocator for the type template
-    explicit type_mutation(const type& base, const allocator& alloc = {}) noexcept;
+    explicit type_mutation(const type& base, const allocator& alloc = {});
 
     // add mixin
     void add(const mixin_info& info) { mixins.push_back(&info); }
-- 
2.43.0


From 6a481050156dd0d96fcf6d66c16a78cd25ba6c3b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:08:23 +0000
Subject: [PATCH 14/28] fix: don't let exceptions escape dnmx_create_domain and
 dnmx_create_mixin_allocator

---
 code/dynamix/domain-c.cpp          |  9 +++++++--
 code/dynamix/mixin_allocator-c.cpp | 10 ++++++++--
 2 files changed, 15 insertions(+), 4 deletions(-)

diff --git a/code/dynamix/domain-c.cpp b/code/dynamix/domain-c.cpp
index eb801d1..a07455a 100644
--- a/code/dynamix/domain-c.cpp
+++ b/code/dynamix/domain-c.cpp
@@ -15,8 +15,13 @@ extern "C" {
 #define self domain::from_c_handle(hd)
 
 dnmx_domain_handle dnmx_create_domain(dnmx_sv name, dnmx_domain_settings settings, uintptr_t user_data, void* context) {
-    auto new_dom = new dynamix::domain(name.to_std(), settings, user_data, context);
-    return new_dom->to_c_hanlde();
+    try {
+        auto new_dom = new dynamix::domain(name.to_std(), settings, user_data, context);
+        return new_dom->to_c_hanlde();
+    }
+    catch (std::exception&) {
+        return nullptr;
+    }
 }
 void dnmx_destroy_domain(dnmx_domain_handle hd) {
     delete self;
diff --git a/code/dynamix/mixin_allocator-c.cpp b/code/dynamix/mixin_allocator-c.cpp
index 5eeb4fe..3b580fd 100644
--- a/code/dynamix/mixin_allocator-c.cpp
+++ b/code/dynamix/mixin_allocator-c.cpp
@@ -3,6 +3,7 @@
 //
 #include "../dnmx/mixin_allocator.h"
 #include "mixin_allocator.hpp"
+#include <exception>
 #include <new>
 
 // also export vtable from here
@@ -34,8 +35,13 @@ using namespace dynamix;
 
 extern "C" {
 dnmx_mixin_allocator_handle dnmx_create_mixin_allocator(dnmx_alloc_mixin_func alloc, dnmx_dealloc_mixin_func dealloc) {
-    auto ret = new c_mixin_allocator(alloc, dealloc);
-    return ret->to_c_hanlde();
+    try {
+        auto ret = new c_mixin_allocator(alloc, dealloc);
+        return ret->to_c_hanlde();
+    }
+    catch (std::exception&) {
+        return nullptr;
+    }
 }
 void dnmx_destroy_mixin_allocator(dnmx_mixin_allocator_handle ha) {
     delete mixin_allocator::from_c_handle(ha);
-- 
2.43.0


From 2590689da390486aeded36f716bd834efbc13d36 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:09:42 +0000
Subject: [PATCH 15/28] fix: don't let exceptions escape
 dnmx_unregister_feature and dnmx_unregister_mixin

---
 code/dynamix/domain-c.cpp | 14 ++++++++++++--
 1 file changed, 12 insertions(+), 2 deletions(-)

diff --git a/code/dynamix/domain-c.cpp b/code/dynamix/domain-c.cpp
index a07455a..44600ce 100644
--- a/code/dynamix/domain-c.cpp
+++ b/code/dynamix/domain-c.cpp
@@ -44,7 +44,12 @@ dnmx_error_return_t dnmx_register_feature(dnmx_domain_handle hd, dnmx_feature_in
     }
 }
 void dnmx_unregister_feature(dnmx_domain_handle hd, dnmx_feature_info* info) {
-    self->unregister_feature(*info);
+    try {
+        self->unregister_feature(*info);
+    }
+    catch (std::exception&) {
+        // can only fail if the feature isn't registered here, in which case there is nothing to be done
+    }
 }
 
 dnmx_error_return_t dnmx_register_mixin(dnmx_domain_handle hd, dnmx_mixin_info* info) {
@@ -57,7 +62,12 @@ dnmx_error_return_t dnmx_register_mixin(dnmx_domain_handle hd, dnmx_mixin_info*
     }
 }
 void dnmx_unregister_mixin(dnmx_domain_handle hd, dnmx_mixin_info* info) {
-    self->unregister_mixin(*info);
+    try {
+        self->unregister_mixin(*info);
+    }
+    catch (std::exception&) {
+        // can only fail if the mixin isn't registered here, in which case there is nothing to be done
+    }
 }
 
 const dnmx_feature_info* dnmx_get_feature_info_by_id(dnmx_domain_handle hd, dnmx_feature_id id) {
-- 
2.43.0


From aee68a3ae52ea98455c7d55bcc01ac8dcb553a25 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:54:53 +0000
Subject: [PATCH 16/28] fix: don't let exceptions of any type leave C functions

---
 code/dynamix/domain-c.cpp          | 18 +++++++++---------
 code/dynamix/mixin_allocator-c.cpp |  2 +-
 code/dynamix/mutate-c.cpp          |  4 ++--
 code/dynamix/object-c.cpp          | 14 +++++++-------
 code/dynamix/type-c.cpp            |  2 +-
 code/dynamix/type_mutation-c.cpp   | 14 +++++++-------
 6 files changed, 27 insertions(+), 27 deletions(-)

diff --git a/code/dynamix/domain-c.cpp b/code/dynamix/domain-c.cpp
index 44600ce..4964745 100644
--- a/code/dynamix/domain-c.cpp
+++ b/code/dynamix/domain-c.cpp
@@ -19,7 +19,7 @@ dnmx_domain_handle dnmx_create_domain(dnmx_sv name, dnmx_domain_settings setting
         auto new_dom = new dynamix::domain(name.to_std(), settings, user_data, context);
         return new_dom->to_c_hanlde();
     }
-    catch (std::exception&) {
+    catch (...) {
         return nullptr;
     }
 }
@@ -39,7 +39,7 @@ dnmx_error_return_t dnmx_register_feature(dnmx_domain_handle hd, dnmx_feature_in
         self->register_feature(*info);
         return dnmx_result_success;
     }
-    catch (std::exception&) {
+    catch (...) {
         return -1;
     }
 }
@@ -47,7 +47,7 @@ void dnmx_unregister_feature(dnmx_domain_handle hd, dnmx_feature_info* info) {
     try {
         self->unregister_feature(*info);
     }
-    catch (std::exception&) {
+    catch (...) {
         // can only fail if the feature isn't registered here, in which case there is nothing to be done
     }
 }
@@ -57,7 +57,7 @@ dnmx_error_return_t dnmx_register_mixin(dnmx_domain_handle hd, dnmx_mixin_info*
         self->register_mixin(*info);
         return dnmx_result_success;
     }
-    catch (std::exception&) {
+    catch (...) {
         return -1;
     }
 }
@@ -65,7 +65,7 @@ void dnmx_unregister_mixin(dnmx_domain_handle hd, dnmx_mixin_info* info) {
     try {
         self->unregister_mixin(*info);
     }
-    catch (std::exception&) {
+    catch (...) {
         // can only fail if the mixin isn't registered here, in which case there is nothing to be done
     }
 }
@@ -91,7 +91,7 @@ dnmx_error_return_t dnmx_register_type_class(dnmx_domain_handle hd, const dnmx_t
         self->register_type_class(*tc);
         return dnmx_result_success;
     }
-    catch (std::exception&) {
+    catch (...) {
         return -1;
     }
 }
@@ -109,7 +109,7 @@ dnmx_error_return_t dnmx_add_mutation_rule(dnmx_domain_handle hd, const dnmx_mut
         self->add_mutation_rule(*info);
         return 0;
     }
-    catch (std::exception&) {
+    catch (...) {
         return -1;
     }
 }
@@ -121,7 +121,7 @@ dnmx_type_handle dnmx_get_type_from_infos(dnmx_domain_handle hd, const dnmx_mixi
     try {
         return &self->get_type({mixins, num_mixins});
     }
-    catch (std::exception&) {
+    catch (...) {
         return nullptr;
     }
 }
@@ -132,7 +132,7 @@ dnmx_type_handle dnmx_get_type(dnmx_domain_handle hd, dnmx_type_mutation_handle*
         *hmut = nullptr;
         return &self->get_type(std::move(*pmut));
     }
-    catch (std::exception&) {
+    catch (...) {
         return nullptr;
     }
 }
diff --git a/code/dynamix/mixin_allocator-c.cpp b/code/dynamix/mixin_allocator-c.cpp
index 3b580fd..ea08345 100644
--- a/code/dynamix/mixin_allocator-c.cpp
+++ b/code/dynamix/mixin_allocator-c.cpp
@@ -39,7 +39,7 @@ dnmx_mixin_allocator_handle dnmx_create_mixin_allocator(dnmx_alloc_mixin_func al
         auto ret = new c_mixin_allocator(alloc, dealloc);
         return ret->to_c_hanlde();
     }
-    catch (std::exception&) {
+    catch (...) {
         return nullptr;
     }
 }
diff --git a/code/dynamix/mutate-c.cpp b/code/dynamix/mutate-c.cpp
index 94ef437..5c1cf75 100644
--- a/code/dynamix/mutate-c.cpp
+++ b/code/dynamix/mutate-c.cpp
@@ -62,7 +62,7 @@ dnmx_error_return_t dnmx_mutate_to(dnmx_object_handle obj, dnmx_type_handle ht,
 
         return result_success;
     }
-    catch (std::exception&) {
+    catch (...) {
         return -1;
     }
 }
@@ -120,7 +120,7 @@ DYNAMIX_API dnmx_error_return_t dnmx_mutate(dnmx_object_handle ho, const dnmx_mu
 
         return result_success;
     }
-    catch (std::exception&) {
+    catch (...) {
         return -1;
     }
 }
diff --git a/code/dynamix/object-c.cpp b/code/dynamix/object-c.cpp
index 5405b91..9078cd7 100644
--- a/code/dynamix/object-c.cpp
+++ b/code/dynamix/object-c.cpp
@@ -17,7 +17,7 @@ dnmx_object_handle dnmx_create_object_empty(dnmx_domain_handle hd) {
         auto obj = new object(*domain::from_c_handle(hd));
         return obj->to_c_hanlde();
     }
-    catch (std::exception&) {
+    catch (...) {
         return nullptr;
     }
 }
@@ -26,7 +26,7 @@ dnmx_object_handle dnmx_create_object_default(dnmx_type_handle ht) {
         auto obj = new object(*type::from_c_handle(ht));
         return obj->to_c_hanlde();
     }
-    catch (std::exception&) {
+    catch (...) {
         return nullptr;
     }
 }
@@ -35,7 +35,7 @@ dnmx_object_handle dnmx_create_object_copy(dnmx_const_object_handle ho) {
         auto obj = new object(object::from_c_handle(ho)->copy());
         return obj->to_c_hanlde();
     }
-    catch (std::exception&) {
+    catch (...) {
         return nullptr;
     }
 }
@@ -44,7 +44,7 @@ dnmx_object_handle dnmx_create_object_usurp(dnmx_object_handle ho) {
         auto obj = new object(std::move(*object::from_c_handle(ho)));
         return obj->to_c_hanlde();
     }
-    catch (std::exception&) {
+    catch (...) {
         return nullptr;
     }
 }
@@ -57,7 +57,7 @@ dnmx_error_return_t dnmx_object_copy_from(dnmx_object_handle ho, dnmx_const_obje
         self->copy_from(*object::from_c_handle(source));
         return dnmx_result_success;
     }
-    catch (std::exception&) {
+    catch (...) {
         return -1;
     }
 }
@@ -114,7 +114,7 @@ dnmx_error_return_t dnmx_object_reset_type(dnmx_object_handle ho, dnmx_type_hand
         }
         return dnmx_result_success;
     }
-    catch (std::exception&) {
+    catch (...) {
         return -1;
     }
 }
@@ -141,7 +141,7 @@ dnmx_int_result dnmx_object_compare(dnmx_const_object_handle ho, dnmx_const_obje
         ret.result = self->compare(*object::from_c_handle(b));
         ret.error = dnmx_result_success;
     }
-    catch (std::exception&) {
+    catch (...) {
         ret.error = -1;
     }
     return ret;
diff --git a/code/dynamix/type-c.cpp b/code/dynamix/type-c.cpp
index 2c937a7..8d34112 100644
--- a/code/dynamix/type-c.cpp
+++ b/code/dynamix/type-c.cpp
@@ -55,7 +55,7 @@ bool dnmx_type_is_of_name(dnmx_type_handle ht, dnmx_sv name) {
     try {
         return self->is_of(name.to_std());
     }
-    catch (std::exception&) {
+    catch (...) {
         return false;
     }
 }
diff --git a/code/dynamix/type_mutation-c.cpp b/code/dynamix/type_mutation-c.cpp
index 588bdd0..d5862a0 100644
--- a/code/dynamix/type_mutation-c.cpp
+++ b/code/dynamix/type_mutation-c.cpp
@@ -17,7 +17,7 @@ dnmx_type_mutation_handle dnmx_create_type_mutation_empty(dnmx_domain_handle hd)
         auto mut = new type_mutation(*domain::from_c_handle(hd));
         return mut->to_c_hanlde();
     }
-    catch (std::exception&) {
+    catch (...) {
         return nullptr;
     }
 }
@@ -27,7 +27,7 @@ dnmx_type_mutation_handle dnmx_create_type_mutation_from_type(dnmx_type_handle h
         auto mut = new type_mutation(*type::from_c_handle(ht));
         return mut->to_c_hanlde();
     }
-    catch (std::exception&) {
+    catch (...) {
         return nullptr;
     }
 }
@@ -61,7 +61,7 @@ bool dnmx_type_mutation_add(dnmx_type_mutation_handle hmut, const dnmx_mixin_inf
         self->add(*info);
         return true;
     }
-    catch (std::exception&) {
+    catch (...) {
         return false;
     }
 }
@@ -69,7 +69,7 @@ bool dnmx_type_mutation_add_if_lacking(dnmx_type_mutation_handle hmut, const dnm
     try {
         return self->add_if_lacking(*info);
     }
-    catch (std::exception&) {
+    catch (...) {
         return false;
     }
 }
@@ -84,7 +84,7 @@ bool dnmx_type_mutation_to_back(dnmx_type_mutation_handle hmut, const dnmx_mixin
         self->to_back(*info);
         return true;
     }
-    catch (std::exception&) {
+    catch (...) {
         return false;
     }
 }
@@ -92,7 +92,7 @@ const dnmx_mixin_info* dnmx_type_mutation_to_back_by_name(dnmx_type_mutation_han
     try {
         return &self->to_back(name.to_std());
     }
-    catch (std::exception&) {
+    catch (...) {
         return nullptr;
     }
 }
@@ -111,7 +111,7 @@ bool dnmx_type_mutation_set_mixins(dnmx_type_mutation_handle hmut, const dnmx_mi
         self->mixins.assign(mixins, mixins + num_mixins);
         return true;
     }
-    catch (std::exception&) {
+    catch (...) {
         return false;
     }
 }
-- 
2.43.0


From ce71402ae79dc9622fa59d3f5890fa0af587ede4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:58:40 +0000
Subject: [PATCH 17/28] fix: define dnmx_object_implements_strong and
 dnmx_object_implements_strong_by_name

---
 code/dynamix/object-c.cpp | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/code/dynamix/object-c.cpp b/code/dynamix/object-c.cpp
index 9078cd7..8bc7ce1 100644
--- a/code/dynamix/object-c.cpp
+++ b/code/dynamix/object-c.cpp
@@ -80,6 +80,13 @@ bool dnmx_object_has_by_name(dnmx_const_object_handle ho, dnmx_sv name) {
     return self->has(name.to_std());
 }
 
+bool dnmx_object_implements_strong(dnmx_const_object_handle ho, const dnmx_feature_info* info) {
+    return self->get_type().implements_strong(*info);
+}
+bool dnmx_object_implements_strong_by_name(dnmx_const_object_handle ho, dnmx_sv name) {
+    return self->get_type().implements_strong(name.to_std());
+}
+
 const void* dnmx_object_get(dnmx_const_object_handle ho, const dnmx_mixin_info* info) {
     return self->get(*info);
 }
-- 
2.43.0


From d83589e0cc5a0431f083d9e5f02eb548d37f46d3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:25:13 +0000
Subject: [PATCH 18/28] fix: don't store type queries which are made obsolete
 by concurrent changes of rules or types

---
 code/dynamix/domain.cpp | 87 ++++++++++++++++++++++++++---------------
 1 file changed, 55 insertions(+), 32 deletions(-)

diff --git a/code/dynamix/domain.cpp b/code/dynamix/domain.cpp
index 95aba66..36ede41 100644
--- a/code/dynamix/domain.cpp
+++ b/code/dynamix/domain.cpp
@@ -166,6 +166,10 @@ public:
         // stored type queries
         // with them we avoid applying mutation rules for the same type query
         type_query_map type_queries;
+
+        // incremented on every change which may invalidate the result of applying mutation rules
+        // or the address of a type, obtained before the change
+        uint64_t version = 0;
     };
     data_mutex<type_registry> m_type_registry;
 
@@ -307,6 +311,7 @@ public:
                     ++iq;
                 }
             }
+            ++treg->version;
 
             // ... and remove all types which reference it
             auto& types = treg->types;
@@ -415,6 +420,7 @@ public:
         // we need to invalidate stored type queries
         // we can't tell which ones the rule affects, so we have to invalidate them all
         reg->type_queries.clear();
+        ++reg->version;
     }
     void remove_mutation_rule(const mutation_rule_info& info) noexcept {
         auto reg = m_type_registry.unique_lock();
@@ -428,6 +434,7 @@ public:
         reg->mutation_rules.erase(f);
         // we can't tell which ones the rule affects, so we have to invalidate them all
         reg->type_queries.clear();
+        ++reg->version;
     }
 
     // applies mutation rules for mutation and returns the original query to be preserved
@@ -489,45 +496,57 @@ public:
     const type& get_type(type_mutation& mutation) {
         if (&mutation.dom != &m_domain) throw_exception::foreign_mutation(m_domain, mutation);
 
-        type_query original_query(m_allocator); // prepare original query with our allocator
-        const type* found = nullptr;
+        while (true) {
+            type_query original_query(m_allocator); // prepare original query with our allocator
+            const type* found = nullptr;
+            uint64_t version = 0; // version of the registry for which we have found (or are about to create) the type
 
-        {
-            // search for stored query for this combo
-            auto reg = m_type_registry.shared_lock();
             {
-                auto f = reg->type_queries.find(mutation.mixins);
-                if (f != reg->type_queries.end()) return *f->second;
+                // search for stored query for this combo
+                auto reg = m_type_registry.shared_lock();
+                {
+                    auto f = reg->type_queries.find(mutation.mixins);
+                    if (f != reg->type_queries.end()) return *f->second;
+                }
+
+                // query is not available, so we need to apply mutation rules
+                // we can do it while holding the shared lock
+                original_query = apply_mutation_rules_l(mutation, reg->mutation_rules);
+
+                // now look for exact type
+                if (mutation.mixins.empty()) {
+                    found = &m_empty_type;
+                }
+                else {
+                    auto f = reg->types.find(mutation.mixins);
+                    if (f != reg->types.end()) found = f->get();
+                }
+
+                version = reg->version;
             }
 
-            // query is not available, so we need to apply mutation rules
-            // we can do it while holding the shared lock
-            original_query = apply_mutation_rules_l(mutation, reg->mutation_rules);
+            if (found) {
+                // we found a type with this mutation, but don't have the query stored
+                // store the query only and return the type
+
+                // it may be the case here that another thread waits to do the exact same thing
+                // but the code below is safe
+                // worst (and extremely rare) case we wasted cpu applying the same rules twice
 
-            // now look for exact type
-            if (mutation.mixins.empty()) {
-                found = &m_empty_type;
+                auto reg = m_type_registry.unique_lock();
+                if (reg->version == version) {
+                    reg->type_queries[std::move(original_query)] = found;
+                    return *found;
+                }
             }
             else {
-                auto f = reg->types.find(mutation.mixins);
-                if (f != reg->types.end()) found = f->get();
+                if (auto created = create_type(mutation, original_query, version)) return *created;
             }
-        }
 
-        if (found) {
-            // we found a type with this mutation, but don't have the query stored
-            // store the query only and return the type
-
-            // it may be the case here that another thread waits to do the exact same thing
-            // but the code below is safe
-            // worst (and extremely rare) case we wasted cpu applying the same rules twice
-
-            auto reg = m_type_registry.unique_lock();
-            reg->type_queries[std::move(original_query)] = found;
-            return *found;
+            // while we weren't holding the lock another thread changed the rules or erased types,
+            // so what we have may no longer be valid: start over with the original query
+            mutation.mixins.assign(original_query.begin(), original_query.end());
         }
-
-        return create_type(mutation, std::move(original_query));
     }
 
     const type& get_type(itlib::span<const mixin_info* const> mixins) {
@@ -685,8 +704,9 @@ public:
         }
     };
 
-    // create type for a given mutation requested by a given query
-    const type& create_type(type_mutation& mutation, type_query&& query) {
+    // create type for a given mutation requested by a given query for a given version of the registry
+    // return null (and leave the query intact) if the registry has changed since then
+    const type* create_type(type_mutation& mutation, type_query& query, uint64_t version) {
         mixin_info_span mixins(mutation.mixins);
 
         // first check validity
@@ -816,6 +836,8 @@ public:
 
         // finally add new type to types and return it
         auto reg = m_type_registry.unique_lock();
+        if (reg->version != version) return nullptr;
+
         auto res = reg->types.emplace(std::move(new_type));
 
         // note that the type may already be added
@@ -832,13 +854,14 @@ public:
 
         const type* reg_type = res.first->get();
         reg->type_queries[std::move(query)] = reg_type;
-        return *reg_type;
+        return reg_type;
     }
 
     void garbage_collect_types() noexcept {
         auto l = m_type_registry.unique_lock();
         auto& types = l->types;
         auto& queries = l->type_queries;
+        ++l->version;
         for (auto it = types.begin(); it != types.end(); ) {
             auto& t = *it;
             if (t->num_objects() > 0) {
-- 
2.43.0


From 76d7d16e3776e94e41df87975740dd954566bdbc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:33:15 +0000
Subject: [PATCH 19/28] fix: synchronize the destruction of a type by garbage
 collection with the last use of the type by its objects

---
 code/dynamix/type.cpp | 4 ++--
 code/dynamix/type.hpp | 8 +++++---
 2 files changed, 7 insertions(+), 5 deletions(-)

diff --git a/code/dynamix/type.cpp b/code/dynamix/type.cpp
index 5a1dcb9..b836a2d 100644
--- a/code/dynamix/type.cpp
+++ b/code/dynamix/type.cpp
@@ -135,13 +135,13 @@ bool type::comparable() const noexcept {
 
 byte_t* type::allocate_object_buffer(allocator& alloc) const {
     auto ret = alloc.allocate_bytes(object_buffer_size, object_buffer_alignment);
-    ++m_num_objects;
+    m_num_objects.fetch_add(1, std::memory_order_relaxed);
     return static_cast<byte_t*>(ret);
 }
 
 void type::deallocate_object_buffer(allocator& alloc, void* ptr) const noexcept {
     alloc.deallocate_bytes(ptr, object_buffer_size, object_buffer_alignment);
-    --m_num_objects;
+    m_num_objects.fetch_sub(1, std::memory_order_release);
 }
 
 }
diff --git a/code/dynamix/type.hpp b/code/dynamix/type.hpp
index 751d8e7..433a1c1 100644
--- a/code/dynamix/type.hpp
+++ b/code/dynamix/type.hpp
@@ -18,8 +18,8 @@
 #include "globals.hpp"
 
 #include <itlib/span.hpp>
-#include <itlib/atomic.hpp>
 
+#include <atomic>
 #include <cstdint>
 #include <string_view>
 
@@ -62,7 +62,7 @@ public:
 
     // number of objects of this type
     // more precisely this is the number of active (living-allocated) object buffers
-    size_t num_objects() const noexcept { return m_num_objects.load(); }
+    size_t num_objects() const noexcept { return m_num_objects.load(std::memory_order_acquire); }
 
     mixin_index_t num_mixins() const noexcept {
         return mixin_index_t(mixins.size());
@@ -171,7 +171,9 @@ public:
     // this is the buffer size (it's used when deallocating)
     byte_size_t buf_size;
 private:
-    mutable itlib::atomic_relaxed_counter<size_t> m_num_objects = {};
+    // decremented with release (after the last use of the type by the object) and loaded with acquire
+    // so that types with no objects can be safely destroyed by another thread
+    mutable std::atomic<size_t> m_num_objects = {};
 };
 
 }
-- 
2.43.0


From a1630205f2f49f036fb375274905b2423a41b48d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:34:02 +0000
Subject: [PATCH 20/28] fix: object::clear: don't use the type after the object
 no longer counts as its own

---
 code/dynamix/object.cpp | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/code/dynamix/object.cpp b/code/dynamix/object.cpp
index df3c647..b818250 100644
--- a/code/dynamix/object.cpp
+++ b/code/dynamix/object.cpp
@@ -235,8 +235,11 @@ const void* object::get(const mixin_info& info) const noexcept {
 
 void object::clear() {
     if (m_sealed) throw_exception::obj_mut_sealed_object(get_type(), "clear");
+    // get the empty type first: when our mixin data is cleared our type may have no objects
+    // and be garbage-collected by another thread at any moment
+    auto& empty_type = get_domain().get_empty_type();
     clear_mixin_data();
-    m_type = &get_domain().get_empty_type();
+    m_type = &empty_type;
 }
 
 void object::reset_type(const type& type) {
-- 
2.43.0


From 2b1ee7888aa2c805bc30cd4e739998d32c76dff9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:57:39 +0000
Subject: [PATCH 21/28] fix: apply mutation rules again if they only restored
 erased dependencies

The result of the first application of the rules was compared with the original query
instead of with what the rules got (the query without dependencies). So if the rules only
brought back the dependencies, other rules which act on these were not applied.
---
 code/dynamix/domain.cpp | 11 +++++------
 1 file changed, 5 insertions(+), 6 deletions(-)

diff --git a/code/dynamix/domain.cpp b/code/dynamix/domain.cpp
index 36ede41..9441d64 100644
--- a/code/dynamix/domain.cpp
+++ b/code/dynamix/domain.cpp
@@ -463,11 +463,15 @@ public:
         type_query last_result(m_allocator); // store last rule application result here
 
         auto& nt_mixins = mutation.mixins;
-        last_result = nt_mixins;
+        original_query = nt_mixins;
 
         // first erase all deps from mixins
         itlib::erase_all_if(nt_mixins, [](const mixin_info* m) { return m->dependency; });
 
+        // compare with what the rules get and not with the original query:
+        // if the first application merely restores the erased deps, other rules may still have to act on them
+        last_result = nt_mixins;
+
         for (int i = 0; ; ++i) {
             // apply rules
             for (auto& r : rules) {
@@ -478,17 +482,12 @@ public:
             }
             if (last_result == nt_mixins) {
                 // rules changed nothing, so no need to apply them again
-                if (i == 0) return last_result; // first application changed nothing
                 return original_query;
             }
             if (i == max_depenency_depth || (i > 0 && i == int(rules.size()))) {
                 // again: this is not necessarily a real cycle but we treat it as such
                 throw_exception::cyclic_rule_deps(mutation);
             }
-            if (i == 0) {
-                // first time running the loop and rules made changes, store original query to return
-                original_query.swap(last_result);
-            }
             last_result = nt_mixins;
         }
     }
-- 
2.43.0


From ddc61240f8a190eae4554ac770967943b8ae7ace Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:57:39 +0000
Subject: [PATCH 22/28] fix: don't leave the mutation rules of a mixin whose
 registration fails in the domain

---
 code/dynamix/mixin_info_data.cpp | 17 ++++++++++++++---
 1 file changed, 14 insertions(+), 3 deletions(-)

diff --git a/code/dynamix/mixin_info_data.cpp b/code/dynamix/mixin_info_data.cpp
index 7b7729a..6a1a0b6 100644
--- a/code/dynamix/mixin_info_data.cpp
+++ b/code/dynamix/mixin_info_data.cpp
@@ -7,10 +7,21 @@
 namespace dynamix::util {
 
 void mixin_info_data::register_in(domain& dom) {
-    for (auto* r : mutation_rule_infos) {
-        dom.add_mutation_rule(*r);
+    size_t num_added = 0;
+    try {
+        for (auto* r : mutation_rule_infos) {
+            dom.add_mutation_rule(*r);
+            ++num_added;
+        }
+        dom.register_mixin(info);
+    }
+    catch (...) {
+        // don't leave rules of a mixin which is not registered
+        for (size_t i = 0; i < num_added; ++i) {
+            dom.remove_mutation_rule(*mutation_rule_infos[i]);
+        }
+        throw;
     }
-    dom.register_mixin(info);
 }
 
 void mixin_info_data::unregister_from(domain& dom) noexcept {
-- 
2.43.0


From 5d8585a2da3cb3fc282be2af17cfadc6f3135330 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:40:12 +0000
Subject: [PATCH 23/28] fix: don't overflow in next_multiple when the result
 fits

Adding n - 1 to the size first wraps around for sizes close to the limit,
even if the next multiple can be represented (or the size is one already).
---
 code/dynamix/alloc_util.hpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/code/dynamix/alloc_util.hpp b/code/dynamix/alloc_util.hpp
index 4163632..b2a514c 100644
--- a/code/dynamix/alloc_util.hpp
+++ b/code/dynamix/alloc_util.hpp
@@ -8,8 +8,8 @@ namespace dynamix::util {
 
 // rounds s up to the nearest multiple of n
 inline constexpr byte_size_t next_multiple(byte_size_t s, byte_size_t n) {
-    return ((s + n - 1) / n) // divide rounding up
-        * n;  // and scale
+    const byte_size_t rem = s % n;
+    return rem ? s + (n - rem) : s; // no intermediate overflow if the result fits
 }
 
 }
-- 
2.43.0


From 62d1d94361f921847dc6125f3836b9b6c9eeff2f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:40:22 +0000
Subject: [PATCH 24/28] fix: compat default_resource: don't truncate sizes to
 32 bits

The size was rounded up with next_multiple, which works with byte_size_t
(32 bits), so allocations of 4 GB and more got a smaller buffer. Sizes which
overflow when rounded up are now reported with bad_alloc.
---
 code/dynamix/compat/pmr/memory_resource.cpp | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/code/dynamix/compat/pmr/memory_resource.cpp b/code/dynamix/compat/pmr/memory_resource.cpp
index a70b082..a88bb25 100644
--- a/code/dynamix/compat/pmr/memory_resource.cpp
+++ b/code/dynamix/compat/pmr/memory_resource.cpp
@@ -3,7 +3,7 @@
 //
 #include "memory_resource.hpp"
 #if !DYNAMIX_HAS_PMR // no else (using std::pmr)
-#include "../../alloc_util.hpp"
+#include "../../size.hpp"
 #include <cstdlib>
 #include <new>
 
@@ -22,7 +22,9 @@ class default_resource final : public memory_resource {
         if (alignment < sizeof_ptr) alignment = sizeof_ptr;
 #endif
         // aligned_alloc requires size to be a multiple of alignment
-        auto size = dynamix::util::next_multiple(bytes, alignment);
+        const std::size_t rem = bytes % alignment;
+        const std::size_t size = rem ? bytes + (alignment - rem) : bytes;
+        if (size < bytes) throw std::bad_alloc{}; // overflow
         void* ret = aligned_alloc(alignment, size);
 #endif
         if (!ret) throw std::bad_alloc{};
-- 
2.43.0


From 34dbc7a4ef282793b8b90dd8c8b581fc56ce2e1e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:40:22 +0000
Subject: [PATCH 25/28] fix: compat allocator: report overflow of the number of
 bytes to allocate

---
 code/dynamix/compat/pmr/allocator.hpp | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/code/dynamix/compat/pmr/allocator.hpp b/code/dynamix/compat/pmr/allocator.hpp
index 91e4e85..790f316 100644
--- a/code/dynamix/compat/pmr/allocator.hpp
+++ b/code/dynamix/compat/pmr/allocator.hpp
@@ -12,6 +12,7 @@ using allocator = itlib::pmr_allocator<T>;
 }
 #else
 #include "memory_resource.hpp"
+#include <new>
 
 namespace dynamix::compat::pmr {
 template <typename T = std::byte>
@@ -37,6 +38,7 @@ public:
     memory_resource* resource() const noexcept { return &m_resource; };
 
     [[nodiscard]] T* allocate(std::size_t n) {
+        if (n > std::size_t(-1) / sizeof(T)) throw std::bad_array_new_length{};
         return static_cast<T*>(m_resource.allocate(n * sizeof(T), alignof(T)));
     }
     void deallocate(T* p, std::size_t n) {
-- 
2.43.0


From 1897a8095c40bf5e28fe7d60273a5277570f9c83 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:12:58 +0000
Subject: [PATCH 26/28] fix: dumping a domain locks its type registry again
 while already holding it

std::shared_mutex must not be locked by a thread which already owns it:
undefined behaviour and a deadlock with a waiting writer
---
 code/dynamix/dbg_dmp.cpp | 16 +++++++++++++---
 1 file changed, 13 insertions(+), 3 deletions(-)

diff --git a/code/dynamix/dbg_dmp.cpp b/code/dynamix/dbg_dmp.cpp
index c8e386d..94bd840 100644
--- a/code/dynamix/dbg_dmp.cpp
+++ b/code/dynamix/dbg_dmp.cpp
@@ -114,6 +114,7 @@ void dbg_dmp_l(std::ostream& out, const type_class& tc, uint32_t flags, domain_t
 }
 
 void dbg_dmp(std::ostream& out, const domain& d, uint32_t flags) {
+    // note that the traverse holds shared locks, so here we must not call functions of the domain which lock again
     domain_traverse tr(d);
     out << std::boolalpha;
     out << "domain: '" << d.name() << "' (" << &d << "), ud: " << d.user_data << ", ctx : ";
@@ -178,14 +179,20 @@ void dbg_dmp(std::ostream& out, const domain& d, uint32_t flags) {
         });
     }
     if (flags & dnmx_dom_dmp_mutation_rules) {
-        out << "## " << d.num_mutation_rules() << " Mutation Rules\n";
+        int count = 0;
+        tr.traverse_mutation_rules([&](const mutation_rule_info&, uint32_t) { ++count; });
+
+        out << "## " << count << " Mutation Rules\n";
         tr.traverse_mutation_rules([&](const mutation_rule_info& mri, uint32_t refs) {
             dbg_dmp(out, mri, flags);
             out << ", " << refs << " refs\n";
         });
     }
     if (flags & dnmx_dom_dmp_types) {
-        out << "## " << d.num_types() << " Types\n";
+        int count = 0;
+        tr.traverse_types([&](const type&) { ++count; });
+
+        out << "## " << count << " Types\n";
         tr.traverse_types([&](const type& t) {
             dbg_dmp_l(out, t, flags, &tr);
             out << '\n';
@@ -202,7 +209,10 @@ void dbg_dmp(std::ostream& out, const domain& d, uint32_t flags) {
         });
     }
     if (flags & dnmx_dom_dmp_type_queries) {
-        out << "## " << d.num_type_queries() << " Type Queries\n";
+        int count = 0;
+        tr.traverse_type_queries([&](itlib::span<const mixin_info* const>, const type&) { ++count; });
+
+        out << "## " << count << " Type Queries\n";
         tr.traverse_type_queries([&](itlib::span<const mixin_info* const> mixins, const type& qt) {
             out << "tq: ";
             output_mixins(out, mixins);
-- 
2.43.0


From ad105b98680146f7ab44be3ce9f1ac4d8088bd6f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:38:51 +0000
Subject: [PATCH 27/28] fix: v1compat: messages with a default implementation
 get their own name

The name was the text of a macro, which isn't expanded when it's turned into a string.
---
 v1compat/gen/arity_message_macros_template | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/v1compat/gen/arity_message_macros_template b/v1compat/gen/arity_message_macros_template
index 3d12434..4149fba 100644
--- a/v1compat/gen/arity_message_macros_template
+++ b/v1compat/gen/arity_message_macros_template
@@ -58,7 +58,7 @@
 #define DYNAMIX_V1_DEFINE_MESSAGE_%{arity}_WITH_DEFAULT_IMPL(return_type, message_name %{args_coma}) \
     static return_type I_DYNAMIX_V1_DEFAULT_IMPL_FUNC_NAME(message_name)(I_DYNAMIX_V1_MSG_STRUCT_NAME(message_name)::traits::obj_t& %{coma_args_signature}); \
     const ::dynamix::common_feature_info& I_DYNAMIX_V1_MSG_STRUCT_NAME(message_name)::get_info_safe() { \
-        static ::dynamix::common_feature_info the_info(dnmx_make_sv_lit(I_DNMX_PP_STRINGIZE(I_DYNAMIX_V1_MSG_STRUCT_NAME(message_name))), multicast, (void*) \
+        static ::dynamix::common_feature_info the_info(dnmx_make_sv_lit(I_DNMX_PP_STRINGIZE(message_name)), multicast, (void*) \
             (static_cast<I_DYNAMIX_V1_MSG_STRUCT_NAME(message_name)::traits::sig_t*>(I_DYNAMIX_V1_DEFAULT_IMPL_FUNC_NAME(message_name)))); \
         return the_info; \
     } \
-- 
2.43.0


From 64adc44fedb80b567f255c640cd125c66d5c65cf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:51:01 +0000
Subject: [PATCH 28/28] fix: don't store type queries which contain mixins
 which aren't registered

Rules may remove such mixins from a request. A stored query kept pointers to them after they were destroyed (a dump of the domain reads them),
and was used to answer requests after they were registered.
---
 code/dynamix/domain.cpp | 13 +++++++++++--
 1 file changed, 11 insertions(+), 2 deletions(-)

diff --git a/code/dynamix/domain.cpp b/code/dynamix/domain.cpp
index 9441d64..0796b4c 100644
--- a/code/dynamix/domain.cpp
+++ b/code/dynamix/domain.cpp
@@ -492,6 +492,15 @@ public:
         }
     }
 
+    void store_query_l(type_registry& reg, type_query& query, const type& answer) {
+        // a query may contain mixins which are not registered here if the mutation rules remove them
+        // don't store it: no one would remove it when these mixins are destroyed or (un)registered
+        for (auto m : query) {
+            if (m->id == invalid_mixin_id || m->dom != &m_domain) return;
+        }
+        reg.type_queries[std::move(query)] = &answer;
+    }
+
     const type& get_type(type_mutation& mutation) {
         if (&mutation.dom != &m_domain) throw_exception::foreign_mutation(m_domain, mutation);
 
@@ -534,7 +543,7 @@ public:
 
                 auto reg = m_type_registry.unique_lock();
                 if (reg->version == version) {
-                    reg->type_queries[std::move(original_query)] = found;
+                    store_query_l(*reg, original_query, *found);
                     return *found;
                 }
             }
@@ -852,7 +861,7 @@ public:
         // but the code below is safe in such a case)
 
         const type* reg_type = res.first->get();
-        reg->type_queries[std::move(query)] = reg_type;
+        store_query_l(*reg, query, *reg_type);
         return reg_type;
     }
 
-- 
2.43.0

