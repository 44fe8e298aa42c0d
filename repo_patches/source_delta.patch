From dbd5bfabea5bd85f99fadc23257a274d98b3b6b3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:01:25 +0000
Subject: [PATCH 01/24] fix: unmounting an application must not let its
 descendants detach themselves again

Dropping the root container removes its own children and then drops the
child future outside of any DOM context, where the descendants' attempt
to detach themselves panics.
---
 async_ui_web_core/src/node_container.rs | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/async_ui_web_core/src/node_container.rs b/async_ui_web_core/src/node_container.rs
index ca5858e..4e205cd 100644
--- a/async_ui_web_core/src/node_container.rs
+++ b/async_ui_web_core/src/node_container.rs
@@ -92,6 +92,9 @@ impl<C> PinnedDrop for ContainerNodeFuture<C> {
                 container: this.container,
             }
             .remove_child(ChildPosition::default());
+            // All our descendants are out of the document now,
+            // so they should not try to detach themselves.
+            this.drop.block_until_drop();
         }
     }
 }
-- 
2.43.0


From 94831a969fee30da7e3aeaac188b2e63a2957cfa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:01:43 +0000
Subject: [PATCH 02/24] fix: dropping a combinator that was never polled must
 not touch the DOM

It has rendered nothing, so there is nothing to detach; it may be dropped
outside of any DOM context (which panicked) or in somebody else's (whose
nodes were removed).
---
 async_ui_web_core/src/combinators/common/array.rs | 6 +++++-
 async_ui_web_core/src/combinators/common/tuple.rs | 6 +++++-
 async_ui_web_core/src/combinators/common/vec.rs   | 6 +++++-
 async_ui_web_core/src/node_sibling.rs             | 6 +++++-
 4 files changed, 20 insertions(+), 4 deletions(-)

diff --git a/async_ui_web_core/src/combinators/common/array.rs b/async_ui_web_core/src/combinators/common/array.rs
index 184ff93..ac5a599 100644
--- a/async_ui_web_core/src/combinators/common/array.rs
+++ b/async_ui_web_core/src/combinators/common/array.rs
@@ -76,6 +76,8 @@ where
     awake_list_buffer: [usize; N],
     #[pin]
     futures: [Fut; N],
+    /// Whether this has been polled. If not, nothing has been rendered.
+    polled: bool,
     detachment_blocker: DetachmentBlocker,
 }
 
@@ -95,6 +97,7 @@ where
             // TODO: this is a temporary buffer so it can be MaybeUninit.
             awake_list_buffer: [0; N],
             futures,
+            polled: false,
             detachment_blocker: DetachmentBlocker,
         }
     }
@@ -120,6 +123,7 @@ where
     #[inline]
     fn poll(self: Pin<&mut Self>, cx: &mut Context<'_>) -> Poll<Self::Output> {
         let mut this = self.project();
+        *this.polled = true;
 
         if N == 0 && B::PEND_IF_EMPTY {
             return Poll::Pending;
@@ -219,7 +223,7 @@ where
     fn drop(self: Pin<&mut Self>) {
         let this = self.project();
 
-        if !this.detachment_blocker.block_until_drop() {
+        if *this.polled && !this.detachment_blocker.block_until_drop() {
             DOM_CONTEXT.with(|parent: &DomContext| parent.remove_child(ChildPosition::default()));
         }
 
diff --git a/async_ui_web_core/src/combinators/common/tuple.rs b/async_ui_web_core/src/combinators/common/tuple.rs
index 3360979..ffeb1d0 100644
--- a/async_ui_web_core/src/combinators/common/tuple.rs
+++ b/async_ui_web_core/src/combinators/common/tuple.rs
@@ -74,6 +74,8 @@ macro_rules! impl_common_tuple {
             awake_list_buffer: [usize; $mod_name::LEN],
             #[pin]
             futures: $mod_name::Futures<$($F,)+>,
+            /// Whether this has been polled. If not, nothing has been rendered.
+            polled: bool,
             detachment_blocker: DetachmentBlocker,
         }
 
@@ -114,6 +116,7 @@ macro_rules! impl_common_tuple {
                     pending: $mod_name::LEN,
                     awake_list_buffer: [0; $mod_name::LEN],
                     futures: $mod_name::Futures {$($F: self.0.$idx,)+},
+                    polled: false,
                     detachment_blocker: DetachmentBlocker
                 }
 			}
@@ -140,6 +143,7 @@ macro_rules! impl_common_tuple {
                 self: Pin<&mut Self>, cx: &mut Context<'_>
             ) -> Poll<Self::Output> {
                 let mut this = self.project();
+                *this.polled = true;
                 assert!(
                     *this.pending > 0,
                     "Futures must not be polled after completing"
@@ -230,7 +234,7 @@ macro_rules! impl_common_tuple {
             fn drop(self: Pin<&mut Self>) {
                 let this = self.project();
 
-                if !this.detachment_blocker.block_until_drop() {
+                if *this.polled && !this.detachment_blocker.block_until_drop() {
                     DOM_CONTEXT.with(|parent: &DomContext| parent.remove_child(ChildPosition::default()));
                 }
 
diff --git a/async_ui_web_core/src/combinators/common/vec.rs b/async_ui_web_core/src/combinators/common/vec.rs
index f4beb08..8e4bb9f 100644
--- a/async_ui_web_core/src/combinators/common/vec.rs
+++ b/async_ui_web_core/src/combinators/common/vec.rs
@@ -46,6 +46,8 @@ where
     awake_list_buffer: Vec<usize>,
     #[pin]
     futures: Vec<Fut>,
+    /// Whether this has been polled. If not, nothing has been rendered.
+    polled: bool,
     detachment_blocker: DetachmentBlocker,
 }
 
@@ -65,6 +67,7 @@ where
             filled: BitVec::repeat(false, len),
             awake_list_buffer: Vec::new(),
             futures,
+            polled: false,
             detachment_blocker: DetachmentBlocker,
         }
     }
@@ -89,6 +92,7 @@ where
 
     fn poll(self: Pin<&mut Self>, cx: &mut Context<'_>) -> Poll<Self::Output> {
         let mut this = self.project();
+        *this.polled = true;
 
         if *this.pending == 0 {
             assert!(
@@ -171,7 +175,7 @@ where
     fn drop(self: Pin<&mut Self>) {
         let this = self.project();
 
-        if !this.detachment_blocker.block_until_drop() {
+        if *this.polled && !this.detachment_blocker.block_until_drop() {
             DOM_CONTEXT.with(|parent: &DomContext| parent.remove_child(ChildPosition::default()));
         }
 
diff --git a/async_ui_web_core/src/node_sibling.rs b/async_ui_web_core/src/node_sibling.rs
index a7ef1ed..512763e 100644
--- a/async_ui_web_core/src/node_sibling.rs
+++ b/async_ui_web_core/src/node_sibling.rs
@@ -22,6 +22,8 @@ pub struct SiblingNodeFuture<C> {
     child_future: C,
     group: NodeGroup,
     reference: web_sys::Node,
+    /// Whether this has been polled. If not, nothing has been rendered.
+    polled: bool,
     drop: DetachmentBlocker,
 }
 
@@ -31,6 +33,7 @@ impl<C: Future> SiblingNodeFuture<C> {
             child_future,
             group: Default::default(),
             reference: sibling,
+            polled: false,
             drop: DetachmentBlocker,
         }
     }
@@ -40,6 +43,7 @@ impl<C: Future> Future for SiblingNodeFuture<C> {
 
     fn poll(self: Pin<&mut Self>, cx: &mut Context<'_>) -> Poll<Self::Output> {
         let this = self.project();
+        *this.polled = true;
         DOM_CONTEXT.with(|parent: &DomContext| {
             let ctx = DomContext::Sibling {
                 group: this.group,
@@ -55,7 +59,7 @@ impl<C: Future> Future for SiblingNodeFuture<C> {
 impl<C> PinnedDrop for SiblingNodeFuture<C> {
     fn drop(self: Pin<&mut Self>) {
         let this = self.project();
-        if !this.drop.block_until_drop() {
+        if *this.polled && !this.drop.block_until_drop() {
             DOM_CONTEXT.with(|parent: &DomContext| {
                 (DomContext::Sibling {
                     group: this.group,
-- 
2.43.0


From 2b3915cb8a8860c9c621ab6cf3889f26c954d13c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:02:07 +0000
Subject: [PATCH 03/24] fix: DynamicSlot must not poll a future that has
 completed

---
 async_ui_web/src/components/dynamic_slot.rs | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/async_ui_web/src/components/dynamic_slot.rs b/async_ui_web/src/components/dynamic_slot.rs
index 2beb001..27c8c67 100644
--- a/async_ui_web/src/components/dynamic_slot.rs
+++ b/async_ui_web/src/components/dynamic_slot.rs
@@ -86,7 +86,10 @@ impl<F: Future> DynamicSlot<F> {
             }
             // poll the Future in the slot, if there is one
             if let Some(fut) = fut_slot.as_mut().as_pin_mut() {
-                let _ = fut.poll(cx);
+                if fut.poll(cx).is_ready() {
+                    // it must not be polled again
+                    fut_slot.set(None);
+                }
             }
             Poll::Pending
         })
-- 
2.43.0


From 7cbe48c2bd8bd76a81b33281c10648938fc1d2c5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:12:37 +0000
Subject: [PATCH 04/24] fix: DynamicList: a `before` key that is not in the
 list means the end

As documented for insert and move_before; both panicked.
---
 async_ui_web/src/lists/dynamic_list.rs | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/async_ui_web/src/lists/dynamic_list.rs b/async_ui_web/src/lists/dynamic_list.rs
index b51ec0c..2073f61 100644
--- a/async_ui_web/src/lists/dynamic_list.rs
+++ b/async_ui_web/src/lists/dynamic_list.rs
@@ -125,7 +125,8 @@ impl<'c, K: Eq + Hash, F: Future + 'c> DynamicList<'c, K, F> {
         let start_marker: web_sys::Node = Comment::new().unwrap_throw().into();
         let end_marker: web_sys::Node = Comment::new().unwrap_throw().into();
         let after = before
-            .map(|k| &inner.items.get(k).unwrap().start_marker)
+            .and_then(|k| inner.items.get(k))
+            .map(|item| &item.start_marker)
             .unwrap_or(&self.list_end_marker);
         container
             .insert_before(&end_marker, Some(after))
@@ -215,7 +216,8 @@ impl<'c, K: Eq + Hash, F: Future + 'c> DynamicList<'c, K, F> {
     {
         let inner = self.inner.borrow();
         let after = before
-            .map(|k| &inner.items.get(k).unwrap().start_marker)
+            .and_then(|k| inner.items.get(k))
+            .map(|item| &item.start_marker)
             .unwrap_or(&self.list_end_marker);
         let to_move = inner.items.get(to_move).unwrap();
         let container = inner.containing_node.get();
-- 
2.43.0


From dcb9e0b3fc52fdfc48f4304e12ff50b034901962 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:12:37 +0000
Subject: [PATCH 05/24] fix: DynamicList::move_before an item's own key leaves
 the list as it is

Its start marker was inserted before itself, and the item's other nodes
after the markers of other items or not at all.
---
 async_ui_web/src/lists/dynamic_list.rs | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/async_ui_web/src/lists/dynamic_list.rs b/async_ui_web/src/lists/dynamic_list.rs
index 2073f61..5fe23ba 100644
--- a/async_ui_web/src/lists/dynamic_list.rs
+++ b/async_ui_web/src/lists/dynamic_list.rs
@@ -220,6 +220,10 @@ impl<'c, K: Eq + Hash, F: Future + 'c> DynamicList<'c, K, F> {
             .map(|item| &item.start_marker)
             .unwrap_or(&self.list_end_marker);
         let to_move = inner.items.get(to_move).unwrap();
+        if std::ptr::eq(after, &to_move.start_marker) {
+            // moving something to just before itself
+            return;
+        }
         let container = inner.containing_node.get();
         move_nodes_before(
             container,
-- 
2.43.0


From 6f395d5aa5c2fa3eb05a098568138d96e83ad9ef Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:12:37 +0000
Subject: [PATCH 06/24] fix: DynamicList::swap of an item with the one right
 after it

The place to put the second item was the second item itself, so nothing
was swapped.
---
 async_ui_web/src/lists/dynamic_list.rs | 10 ++++++++++
 1 file changed, 10 insertions(+)

diff --git a/async_ui_web/src/lists/dynamic_list.rs b/async_ui_web/src/lists/dynamic_list.rs
index 5fe23ba..3027729 100644
--- a/async_ui_web/src/lists/dynamic_list.rs
+++ b/async_ui_web/src/lists/dynamic_list.rs
@@ -253,6 +253,16 @@ impl<'c, K: Eq + Hash, F: Future + 'c> DynamicList<'c, K, F> {
         }
         let after_key_1 = item_1.end_marker.next_sibling();
         let container = inner.containing_node.get();
+        if item_2.start_marker.is_same_node(after_key_1.as_ref()) {
+            // item 2 immediately follows item 1
+            move_nodes_before(
+                container,
+                &item_2.start_marker,
+                &item_2.end_marker,
+                Some(&item_1.start_marker),
+            );
+            return;
+        }
         move_nodes_before(
             container,
             &item_1.start_marker,
-- 
2.43.0


From 0fbb1cee1da9025f2745c1ecc78dd1ce0f5d4032 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:12:37 +0000
Subject: [PATCH 07/24] fix: DiffedList::update must not place items before one
 that was moved away

The next item in the old order may have been moved to the front already;
placing the following items before it puts them in the wrong order.
---
 async_ui_web/src/lists/diffed_list.rs | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/async_ui_web/src/lists/diffed_list.rs b/async_ui_web/src/lists/diffed_list.rs
index 7167fbd..54ba852 100644
--- a/async_ui_web/src/lists/diffed_list.rs
+++ b/async_ui_web/src/lists/diffed_list.rs
@@ -91,6 +91,11 @@ where
         let mut prev_keys_set = prev_keys_list.iter().collect::<HashSet<_>>();
         let mut prev_keys_iter = prev_keys_list.iter().peekable();
         for key in new_keys.iter() {
+            // skip the items that have already been moved
+            while prev_keys_iter
+                .next_if(|prev| !prev_keys_set.contains(prev))
+                .is_some()
+            {}
             if prev_keys_set.remove(key) {
                 if prev_keys_iter.next_if_eq(&key).is_some() {
                     continue;
-- 
2.43.0


From 2130fe0905be6794538eb69d8d642b472ce9bd19 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:12:37 +0000
Subject: [PATCH 08/24] fix: Dropdown::update_options must not place options
 before one that was moved away

As in DiffedList::update.
---
 async_ui_web/src/components/dropdown.rs | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/async_ui_web/src/components/dropdown.rs b/async_ui_web/src/components/dropdown.rs
index b592c80..087c5ef 100644
--- a/async_ui_web/src/components/dropdown.rs
+++ b/async_ui_web/src/components/dropdown.rs
@@ -133,6 +133,11 @@ impl<O: Eq + Hash + Clone> Dropdown<O> {
         let mut prev_opts_iter = prev_opts_list.iter().peekable();
         let mut new_opts_list = Vec::new();
         for (opt, text) in new_opts {
+            // skip the options that have already been moved
+            while prev_opts_iter
+                .next_if(|prev| !prev_opts_set.contains(prev))
+                .is_some()
+            {}
             let should_put = if prev_opts_set.remove(&opt) {
                 prev_opts_iter.next_if_eq(&&opt).is_none()
             } else {
-- 
2.43.0


From ced3f82df9892f2eae0763434627d86e32b223f7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:13:53 +0000
Subject: [PATCH 09/24] fix: Dropdown::set_value(None) must forget the previous
 selection

value() kept returning the option that had been selected before.
---
 async_ui_web/src/components/dropdown.rs | 1 +
 1 file changed, 1 insertion(+)

diff --git a/async_ui_web/src/components/dropdown.rs b/async_ui_web/src/components/dropdown.rs
index 087c5ef..a89a116 100644
--- a/async_ui_web/src/components/dropdown.rs
+++ b/async_ui_web/src/components/dropdown.rs
@@ -111,6 +111,7 @@ impl<O: Eq + Hash + Clone> Dropdown<O> {
                 return;
             }
         }
+        self.inner.borrow_mut().selected = None;
         self.select.set_value("");
     }
     /// Set the options to be displayed in the dropdown.
-- 
2.43.0


From b875ed6d8bce69e44b670999a6c0ac87030f8631 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:13:53 +0000
Subject: [PATCH 10/24] fix: Dropdown must deselect by index, not by setting
 the value to ""

The value of an option is its text, so an option whose text is empty got
selected instead of nothing.
---
 async_ui_web/src/components/dropdown.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/async_ui_web/src/components/dropdown.rs b/async_ui_web/src/components/dropdown.rs
index a89a116..29ee5a1 100644
--- a/async_ui_web/src/components/dropdown.rs
+++ b/async_ui_web/src/components/dropdown.rs
@@ -112,7 +112,7 @@ impl<O: Eq + Hash + Clone> Dropdown<O> {
             }
         }
         self.inner.borrow_mut().selected = None;
-        self.select.set_value("");
+        self.select.set_selected_index(-1);
     }
     /// Set the options to be displayed in the dropdown.
     ///
@@ -169,7 +169,7 @@ impl<O: Eq + Hash + Clone> Dropdown<O> {
         if let Some(sel) = selected.as_ref().and_then(|k| map.get(k)) {
             sel.set_selected(true);
         } else {
-            self.select.set_value("");
+            self.select.set_selected_index(-1);
         }
     }
     pub async fn render(&self) {
-- 
2.43.0


From 21e089c06a11978d2c981b95087a9ed12d70f8b6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:15:20 +0000
Subject: [PATCH 11/24] fix: DynamicList keeps its place among its siblings

The list did not stay registered with its parent, so something before it
in the component tree that was rendered later was placed after the list.
---
 async_ui_web/src/lists/dynamic_list.rs | 16 +++++++++-------
 1 file changed, 9 insertions(+), 7 deletions(-)

diff --git a/async_ui_web/src/lists/dynamic_list.rs b/async_ui_web/src/lists/dynamic_list.rs
index 3027729..3a5107f 100644
--- a/async_ui_web/src/lists/dynamic_list.rs
+++ b/async_ui_web/src/lists/dynamic_list.rs
@@ -308,22 +308,24 @@ impl<'c, K: Eq + Hash, F: Future + 'c> DynamicList<'c, K, F> {
     ///
     /// This async method never completes.
     pub async fn render(&self) {
+        // The anchor stays registered with our parent for as long as the list is rendered,
+        // so that things before the list in the tree are placed before the list.
+        let anchor: web_sys::Node = Comment::new().unwrap_throw().into();
+        let mut anchor_fut = ContainerNodeFuture::new(pending::<()>(), anchor.clone());
         let real_containing_node;
         {
             use async_ui_internal_utils::dummy_waker::dummy_waker;
             use std::task::Context;
             let waker = dummy_waker();
             let mut context = Context::from_waker(&waker);
-            let mut insert_marker_fut =
-                ContainerNodeFuture::new(pending::<()>(), self.list_start_marker.clone());
-            let _ = Pin::new(&mut insert_marker_fut).poll(&mut context);
-            real_containing_node = self.list_start_marker.parent_node().unwrap_throw();
+            let _ = Pin::new(&mut anchor_fut).poll(&mut context);
+            real_containing_node = anchor.parent_node().unwrap_throw();
+            let after_anchor = anchor.next_sibling();
             real_containing_node
-                .insert_before(&self.list_end_marker, Some(&self.list_start_marker))
+                .insert_before(&self.list_start_marker, after_anchor.as_ref())
                 .unwrap_throw();
-            drop(insert_marker_fut);
             real_containing_node
-                .insert_before(&self.list_start_marker, Some(&self.list_end_marker))
+                .insert_before(&self.list_end_marker, after_anchor.as_ref())
                 .unwrap_throw();
         }
         let stored_fragment;
-- 
2.43.0


From 69f72d195dfdd783c9009734471d8a2f39814532 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:20:14 +0000
Subject: [PATCH 12/24] fix: VirtualizedList must drop rendered items past the
 end when the list shrinks

---
 async_ui_web/src/lists/virtualized_list.rs | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/async_ui_web/src/lists/virtualized_list.rs b/async_ui_web/src/lists/virtualized_list.rs
index 507a6f1..eda0c1e 100644
--- a/async_ui_web/src/lists/virtualized_list.rs
+++ b/async_ui_web/src/lists/virtualized_list.rs
@@ -186,6 +186,7 @@ impl<'c, Fut: Future + 'c, Renderer: FnMut(usize) -> Fut> VirtualizedList<'c, Fu
         let pad_size = root_size * 2.0;
         if (rect_f.1 + tres_size < rect_root.0 || state.range.start == 0)
             && (rect_b.0 - tres_size > rect_root.1 || state.range.end == state.num_items)
+            && state.range.end <= state.num_items
         {
             return;
         }
@@ -199,6 +200,7 @@ impl<'c, Fut: Future + 'c, Renderer: FnMut(usize) -> Fut> VirtualizedList<'c, Fu
         let new_start = ((rect_root.0 - pad_size - rect_f.0) / avg_size).max(0.0) as usize;
         let new_end =
             (((rect_root.1 + pad_size - rect_f.0) / avg_size).ceil() as usize).min(state.num_items);
+        let new_start = new_start.min(new_end);
 
         let preferred_height_f = avg_size * new_start as f64;
         let preferred_height_b = avg_size * (state.num_items - new_end) as f64;
-- 
2.43.0


From b8854d10aa67ab7a1191db7ddea9ae9673c02bd1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:24:57 +0000
Subject: [PATCH 13/24] fix: VirtualizedList must not take items that are not
 laid out yet for items of size zero

---
 async_ui_web/src/lists/virtualized_list.rs | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/async_ui_web/src/lists/virtualized_list.rs b/async_ui_web/src/lists/virtualized_list.rs
index eda0c1e..702322c 100644
--- a/async_ui_web/src/lists/virtualized_list.rs
+++ b/async_ui_web/src/lists/virtualized_list.rs
@@ -192,8 +192,10 @@ impl<'c, Fut: Future + 'c, Renderer: FnMut(usize) -> Fut> VirtualizedList<'c, Fu
         }
 
         let num_visible = state.range.len();
-        let avg_size = if num_visible > 0 {
-            (rect_b.0 - rect_f.1) / num_visible as f64
+        let visible_size = rect_b.0 - rect_f.1;
+        // The rendered items take no space if they have not been laid out yet.
+        let avg_size = if num_visible > 0 && visible_size > 0.0 {
+            visible_size / num_visible as f64
         } else {
             root_size / 4.0
         };
-- 
2.43.0


From 1e93e942ad43b961274b366afaeee9beea9d0d41 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:51:07 +0000
Subject: [PATCH 14/24] fix: a capturing event stream must remove its capturing
 listener

---
 async_ui_web_html/src/event_handling.rs | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/async_ui_web_html/src/event_handling.rs b/async_ui_web_html/src/event_handling.rs
index 28c1275..f21c288 100644
--- a/async_ui_web_html/src/event_handling.rs
+++ b/async_ui_web_html/src/event_handling.rs
@@ -29,6 +29,7 @@ pub struct EventFutureStream<E> {
     closure: Option<Closure<dyn Fn(web_sys::Event)>>,
     shared: Rc<RefCell<(Option<E>, Waker)>>,
     options: Option<AddEventListenerOptions>,
+    capture: bool,
     event_name: Cow<'static, str>,
 }
 
@@ -41,6 +42,7 @@ impl<E: JsCast> EventFutureStream<E> {
             closure: None,
             shared: Rc::new(RefCell::new((None, dummy_waker()))),
             options: None,
+            capture: false,
             event_name,
         }
     }
@@ -56,6 +58,9 @@ impl<E: JsCast> EventFutureStream<E> {
         self.options
             .get_or_insert_with(AddEventListenerOptions::new)
             .capture(capture);
+        if self.closure.is_none() {
+            self.capture = capture;
+        }
     }
     /// The `passive` option indicates that the function specified by listener
     /// will never call `preventDefault()`.
@@ -160,9 +165,10 @@ impl<E> Drop for EventFutureStream<E> {
     fn drop(&mut self) {
         if let Some(callback) = self.closure.take() {
             self.target
-                .remove_event_listener_with_callback(
+                .remove_event_listener_with_callback_and_bool(
                     &self.event_name,
                     callback.as_ref().unchecked_ref(),
+                    self.capture,
                 )
                 .unwrap_throw();
         }
-- 
2.43.0


From 8b3fbd857d33c6748f4404aeb8552b71cc67e5de Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:08:21 +0000
Subject: [PATCH 15/24] fix: bind_for_each must write the last incoming value
 when the stream ends right after it

---
 x-bow/src/path_ext/bind_for_each.rs | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/x-bow/src/path_ext/bind_for_each.rs b/x-bow/src/path_ext/bind_for_each.rs
index 70020e0..eb91e9a 100644
--- a/x-bow/src/path_ext/bind_for_each.rs
+++ b/x-bow/src/path_ext/bind_for_each.rs
@@ -39,13 +39,16 @@ where
         let mut this = self.project();
 
         let mut val = None;
+        let mut ended = false;
         loop {
             match this.incoming.as_mut().poll_next(cx) {
                 Poll::Ready(Some(v)) => {
                     val = Some(v);
                 }
                 Poll::Ready(None) => {
-                    return Poll::Ready(());
+                    // values that came right before the end must still be written
+                    ended = true;
+                    break;
                 }
                 Poll::Pending => break,
             }
@@ -58,6 +61,9 @@ where
             }
             let _ = this.until_change.as_mut().poll_next(cx);
         }
+        if ended {
+            return Poll::Ready(());
+        }
 
         let first = !this.until_change.has_been_polled();
         if first | this.until_change.as_mut().poll_next(cx).is_ready() {
-- 
2.43.0


From 6fe24b2e6f511c31b0690a99619b66dbeda12f0e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:54:14 +0000
Subject: [PATCH 16/24] fix: css! must accept a comment between the dot and the
 name of a class

---
 async_ui_web_macros/src/css.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/async_ui_web_macros/src/css.rs b/async_ui_web_macros/src/css.rs
index 80e1935..f939b5a 100644
--- a/async_ui_web_macros/src/css.rs
+++ b/async_ui_web_macros/src/css.rs
@@ -19,7 +19,6 @@ fn generate(input: String) -> TokenStream {
         let end_idx = start_idx + length;
         output.push_str(&input[last_end_idx..end_idx]);
 
-        assert_eq!(output.as_bytes()[output.len() - length - 1] as char, '.');
         names.insert(&input[start_idx..end_idx]);
         output.push('-');
         output.push_str(postfix);
@@ -115,9 +114,10 @@ mod find_classes {
             let mut was_dot = false;
             loop {
                 let position = input.position().byte_index();
-                let token = input.next_including_whitespace();
+                let token = input.next_including_whitespace_and_comments();
                 let mut is_dot = false;
                 match token {
+                    Ok(Token::Comment(_)) => continue,
                     Ok(Token::Delim(ch)) if *ch == '.' => {
                         is_dot = true;
                     }
-- 
2.43.0


From 7468c7d2a6ef44a5bc47357bc41e809090b7db74 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:57:21 +0000
Subject: [PATCH 17/24] fix: css! must escape the stylesheet for the template
 literal it is put in

---
 async_ui_web_macros/src/css.rs | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/async_ui_web_macros/src/css.rs b/async_ui_web_macros/src/css.rs
index f939b5a..45748f5 100644
--- a/async_ui_web_macros/src/css.rs
+++ b/async_ui_web_macros/src/css.rs
@@ -36,9 +36,15 @@ fn generate(input: String) -> TokenStream {
     let style_var_name = format_ident!("style_{postfix}");
     let dce_hack_fn_name = format_ident!("style_{postfix}_dep");
 
+    // the stylesheet goes in a template literal: escape what is special there
+    let escaped_output = output
+        .replace('\\', "\\\\")
+        .replace('`', "\\`")
+        .replace("${", "\\${");
+
     let js_content = format!(
         "
-export const {style_var_name} = `{output}`;
+export const {style_var_name} = `{escaped_output}`;
 document.head.appendChild(document.createElement(\"style\")).innerHTML = {style_var_name};
         "
     );
-- 
2.43.0


From 7c78682b50c51418ae65b8d2d10489cb3cb9b0a4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:57:21 +0000
Subject: [PATCH 18/24] fix: css! must recognise at-rules whatever their case

---
 async_ui_web_macros/src/css.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/async_ui_web_macros/src/css.rs b/async_ui_web_macros/src/css.rs
index 45748f5..637d29d 100644
--- a/async_ui_web_macros/src/css.rs
+++ b/async_ui_web_macros/src/css.rs
@@ -172,7 +172,7 @@ mod find_classes {
             input: &mut Parser<'i, 't>,
         ) -> Result<Self::Prelude, cssparser::ParseError<'i, Self::Error>> {
             drain_input(input)?;
-            match &*name {
+            match name.to_ascii_lowercase().as_str() {
                 "media" | "supports" | "container" | "layer" => Ok(true),
                 _ => Ok(false),
             }
-- 
2.43.0


From 51faff7935fecc1c9bc2d538c18b67f1e3f45009 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:08:01 +0000
Subject: [PATCH 19/24] fix: select! must await the whole expression of a
 branch

---
 async_ui_web_macros/src/select.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/async_ui_web_macros/src/select.rs b/async_ui_web_macros/src/select.rs
index db86af0..975b906 100644
--- a/async_ui_web_macros/src/select.rs
+++ b/async_ui_web_macros/src/select.rs
@@ -70,7 +70,7 @@ impl MacroInput {
                     #(#enum_variants (#enum_variants)),*
                 }
                 match ::async_ui_web::race((
-                    #( async { #enum_name :: #enum_variants (#futures.await) },)*
+                    #( async { #enum_name :: #enum_variants ((#futures).await) },)*
                 )).await {
                     #(
                         #enum_name :: #enum_variants ( #patterns ) => #exprs,
-- 
2.43.0


From 82b63c9fd9b02932cea32d445608ebba59fc43ea Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:57:58 +0000
Subject: [PATCH 20/24] fix: let content dropped by a DynamicSlot use the slot

---
 async_ui_web/src/components/dynamic_slot.rs | 23 ++++++++++++++-------
 1 file changed, 16 insertions(+), 7 deletions(-)

diff --git a/async_ui_web/src/components/dynamic_slot.rs b/async_ui_web/src/components/dynamic_slot.rs
index 27c8c67..8b340af 100644
--- a/async_ui_web/src/components/dynamic_slot.rs
+++ b/async_ui_web/src/components/dynamic_slot.rs
@@ -74,15 +74,18 @@ impl<F: Future> DynamicSlot<F> {
         poll_fn(|cx| {
             {
                 let mut channel = self.channel.borrow_mut();
-                match std::mem::replace(&mut channel.1, Message::NoChange) {
-                    Message::Set(new_fut) => fut_slot.set(Some(new_fut)),
-                    Message::Clear => fut_slot.set(None),
-                    Message::NoChange => {}
-                }
                 // if the Waker in the channel is outdated, update it
                 if !channel.0.will_wake(cx.waker()) {
                     channel.0 = cx.waker().to_owned();
                 }
+                let message = std::mem::replace(&mut channel.1, Message::NoChange);
+                // the future dropped here may use this slot
+                drop(channel);
+                match message {
+                    Message::Set(new_fut) => fut_slot.set(Some(new_fut)),
+                    Message::Clear => fut_slot.set(None),
+                    Message::NoChange => {}
+                }
             }
             // poll the Future in the slot, if there is one
             if let Some(fut) = fut_slot.as_mut().as_pin_mut() {
@@ -99,14 +102,20 @@ impl<F: Future> DynamicSlot<F> {
     /// Set the future to render in the slot, dropping the previous one.
     pub fn set_future(&self, fut: F) {
         let mut channel = self.channel.borrow_mut();
-        channel.1 = Message::Set(fut);
+        let replaced = std::mem::replace(&mut channel.1, Message::Set(fut));
         channel.0.wake_by_ref();
+        // the future dropped here may use this slot
+        drop(channel);
+        drop(replaced);
     }
 
     /// Remove the future currently rendering in the slot (if any).
     pub fn clear_future(&self) {
         let mut channel = self.channel.borrow_mut();
-        channel.1 = Message::Clear;
+        let replaced = std::mem::replace(&mut channel.1, Message::Clear);
         channel.0.wake_by_ref();
+        // the future dropped here may use this slot
+        drop(channel);
+        drop(replaced);
     }
 }
-- 
2.43.0


From edf110f9746b1a2dcee0f58af5a0556006db0700 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:57:58 +0000
Subject: [PATCH 21/24] fix: let the options given to a Dropdown look at it

---
 async_ui_web/src/components/dropdown.rs | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/async_ui_web/src/components/dropdown.rs b/async_ui_web/src/components/dropdown.rs
index 29ee5a1..7ee9e22 100644
--- a/async_ui_web/src/components/dropdown.rs
+++ b/async_ui_web/src/components/dropdown.rs
@@ -121,6 +121,8 @@ impl<O: Eq + Hash + Clone> Dropdown<O> {
     /// you will get from [value()][Self::value] if the user selects it) and the
     /// `str` will be the displayed text.
     pub fn update_options<'t>(&'t self, new_opts: impl IntoIterator<Item = (O, &'t str)>) {
+        // the iterator may look at this dropdown
+        let new_opts = new_opts.into_iter().collect::<Vec<_>>();
         let current_value = self.value();
         let mut bm = self.inner.borrow_mut();
         let Inner {
-- 
2.43.0


From d7c16ef1789367a870f44ff847cc889736fe67d9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:43:41 +0000
Subject: [PATCH 22/24] fix: size VirtualizedList's spacers along the scrolling
 direction and export Direction

---
 async_ui_web/src/lists/mod.rs              | 2 +-
 async_ui_web/src/lists/virtualized_list.rs | 8 ++++++--
 2 files changed, 7 insertions(+), 3 deletions(-)

diff --git a/async_ui_web/src/lists/mod.rs b/async_ui_web/src/lists/mod.rs
index 63234a4..8f8e9bd 100644
--- a/async_ui_web/src/lists/mod.rs
+++ b/async_ui_web/src/lists/mod.rs
@@ -63,4 +63,4 @@ mod virtualized_list;
 pub use diffed_list::DiffedList;
 pub use dynamic_list::DynamicList;
 pub use modeled_list::{ListModel, ModeledList};
-pub use virtualized_list::VirtualizedList;
+pub use virtualized_list::{Direction, VirtualizedList};
diff --git a/async_ui_web/src/lists/virtualized_list.rs b/async_ui_web/src/lists/virtualized_list.rs
index 702322c..dbfcb72 100644
--- a/async_ui_web/src/lists/virtualized_list.rs
+++ b/async_ui_web/src/lists/virtualized_list.rs
@@ -208,11 +208,15 @@ impl<'c, Fut: Future + 'c, Renderer: FnMut(usize) -> Fut> VirtualizedList<'c, Fu
         let preferred_height_b = avg_size * (state.num_items - new_end) as f64;
 
         {
+            let property = match self.direction {
+                Direction::Vertical => "block-size",
+                Direction::Horizontal => "inline-size",
+            };
             spf.style()
-                .set_property("block-size", &format!("{preferred_height_f}px"))
+                .set_property(property, &format!("{preferred_height_f}px"))
                 .ok();
             spb.style()
-                .set_property("block-size", &format!("{preferred_height_b}px"))
+                .set_property(property, &format!("{preferred_height_b}px"))
                 .ok();
         }
         for to_remove in (state.range.start..state.range.end.min(new_start))
-- 
2.43.0


From 10deac76705e69dfc7e076f5553178c3aea01dd7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:50:31 +0000
Subject: [PATCH 23/24] fix: size VirtualizedList's spacers again when the
 number of items changes

---
 async_ui_web/src/lists/virtualized_list.rs | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/async_ui_web/src/lists/virtualized_list.rs b/async_ui_web/src/lists/virtualized_list.rs
index dbfcb72..0fbaee6 100644
--- a/async_ui_web/src/lists/virtualized_list.rs
+++ b/async_ui_web/src/lists/virtualized_list.rs
@@ -56,6 +56,8 @@ struct State<Updater> {
     renderer: Updater,
     range: Range<usize>,
     num_items: usize,
+    // The `num_items` that the spacers were last sized for.
+    spaced_items: usize,
 }
 
 #[derive(Clone, Copy, PartialEq, Eq, PartialOrd, Ord, Hash, Debug)]
@@ -103,6 +105,7 @@ impl<'c, Fut: Future + 'c, Renderer: FnMut(usize) -> Fut> VirtualizedList<'c, Fu
             renderer,
             range: 0..0,
             num_items: 0,
+            spaced_items: 0,
         };
         let signal = Rc::new(ReactiveCell::new(()));
         let signal_cloned = signal.clone();
@@ -187,6 +190,7 @@ impl<'c, Fut: Future + 'c, Renderer: FnMut(usize) -> Fut> VirtualizedList<'c, Fu
         if (rect_f.1 + tres_size < rect_root.0 || state.range.start == 0)
             && (rect_b.0 - tres_size > rect_root.1 || state.range.end == state.num_items)
             && state.range.end <= state.num_items
+            && state.spaced_items == state.num_items
         {
             return;
         }
@@ -234,6 +238,7 @@ impl<'c, Fut: Future + 'c, Renderer: FnMut(usize) -> Fut> VirtualizedList<'c, Fu
             self.list.insert(to_add, (state.renderer)(to_add), None);
         }
         state.range = new_start..new_end;
+        state.spaced_items = state.num_items;
     }
 }
 
-- 
2.43.0


From b1770c1adaffa71251c783cd229a543dc940d6e5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:17:49 +0000
Subject: [PATCH 24/24] fix: fill the viewport of a VirtualizedList when its
 items are smaller than assumed

---
 async_ui_web/src/lists/virtualized_list.rs | 20 ++++++++++++++++++--
 1 file changed, 18 insertions(+), 2 deletions(-)

diff --git a/async_ui_web/src/lists/virtualized_list.rs b/async_ui_web/src/lists/virtualized_list.rs
index 0fbaee6..a902749 100644
--- a/async_ui_web/src/lists/virtualized_list.rs
+++ b/async_ui_web/src/lists/virtualized_list.rs
@@ -49,6 +49,7 @@ pub struct VirtualizedList<'c, Fut: Future + 'c, Renderer: FnMut(usize) -> Fut>
     direction: Direction,
     root: &'c HtmlElement,
     signal: Rc<ReactiveCell<()>>,
+    observer: RefCell<Option<Observer>>,
     wake_closure: Closure<dyn Fn(JsValue)>,
 }
 
@@ -116,6 +117,7 @@ impl<'c, Fut: Future + 'c, Renderer: FnMut(usize) -> Fut> VirtualizedList<'c, Fu
             direction: Direction::Vertical,
             root,
             signal,
+            observer: RefCell::new(None),
             wake_closure: Closure::new(move |_: JsValue| {
                 signal_cloned.borrow_mut();
                 async_ui_web_core::executor::run_now();
@@ -143,6 +145,7 @@ impl<'c, Fut: Future + 'c, Renderer: FnMut(usize) -> Fut> VirtualizedList<'c, Fu
         let [spf_render, spb_render] = [spf, spb]
             .map(|spacer| ContainerNodeFuture::new(pending::<()>(), spacer.clone().into()));
         let _guard = scopeguard::guard((), |_| {
+            self.observer.take();
             self.root
                 .remove_event_listener_with_callback(
                     "scroll",
@@ -151,11 +154,11 @@ impl<'c, Fut: Future + 'c, Renderer: FnMut(usize) -> Fut> VirtualizedList<'c, Fu
                 .unwrap_throw();
         });
         join((spf_render, self.list.render(), spb_render, async {
-            let _observer = Observer::new(
+            self.observer.replace(Some(Observer::new(
                 self.root,
                 &[spf, spb],
                 self.wake_closure.as_ref().unchecked_ref(),
-            );
+            )));
             self.update_visible();
             self.root
                 .add_event_listener_with_callback(
@@ -237,6 +240,13 @@ impl<'c, Fut: Future + 'c, Renderer: FnMut(usize) -> Fut> VirtualizedList<'c, Fu
         for to_add in new_start.max(state.range.end)..new_end {
             self.list.insert(to_add, (state.renderer)(to_add), None);
         }
+        if state.range != (new_start..new_end) {
+            // The new items may turn out not to fill the viewport. The observer only reports
+            // changes, so ask it for a fresh report, which comes after they are laid out.
+            if let Some(observer) = &*self.observer.borrow() {
+                observer.report_again(&[spf, spb]);
+            }
+        }
         state.range = new_start..new_end;
         state.spaced_items = state.num_items;
     }
@@ -259,6 +269,12 @@ impl Observer {
 
         Self { observer }
     }
+    fn report_again(&self, spacers: &[&HtmlElement]) {
+        for sp in spacers {
+            self.observer.unobserve(sp);
+            self.observer.observe(sp);
+        }
+    }
 }
 
 impl Drop for Observer {
-- 
2.43.0

