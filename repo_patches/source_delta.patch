From 7d0f6881cb59c191dc69c0749ab82cfbdd2bdebe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:39:10 +0000
Subject: [PATCH 01/22] fix: dropping a mounted app no longer panics in its
 descendants' drops

A root ContainerNodeFuture is dropped outside any DOM context. It removed the
rendered nodes but did not tell its descendants, which then tried to detach
themselves and panicked.
---
 async_ui_web_core/src/node_container.rs | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/async_ui_web_core/src/node_container.rs b/async_ui_web_core/src/node_container.rs
index ca5858e..184da7d 100644
--- a/async_ui_web_core/src/node_container.rs
+++ b/async_ui_web_core/src/node_container.rs
@@ -92,6 +92,10 @@ impl<C> PinnedDrop for ContainerNodeFuture<C> {
                 container: this.container,
             }
             .remove_child(ChildPosition::default());
+            // Everything rendered inside has been removed,
+            // so our descendants should not try to detach themselves
+            // (there may not even be a DOM context to do that in).
+            this.drop.block_until_drop();
         }
     }
 }
-- 
2.43.0


From d759625ec37e3caf5923fe7a6f7af2189a67b534 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:48:48 +0000
Subject: [PATCH 02/22] fix: dropping a never-polled combinator or list item
 doesn't touch the DOM

A never-polled combinator that was dropped outside of a DOM context panicked,
and one dropped in some other context removed the nodes rendered there.
---
 async_ui_web_core/src/combinators/common/array.rs | 8 +++++++-
 async_ui_web_core/src/combinators/common/tuple.rs | 7 ++++++-
 async_ui_web_core/src/combinators/common/vec.rs   | 7 ++++++-
 async_ui_web_core/src/node_sibling.rs             | 4 +++-
 4 files changed, 22 insertions(+), 4 deletions(-)

diff --git a/async_ui_web_core/src/combinators/common/array.rs b/async_ui_web_core/src/combinators/common/array.rs
index 184ff93..016d887 100644
--- a/async_ui_web_core/src/combinators/common/array.rs
+++ b/async_ui_web_core/src/combinators/common/array.rs
@@ -63,6 +63,8 @@ where
     B: CombinatorBehaviorArray<Fut, N>,
 {
     behavior: PhantomData<B>,
+    /// Whether this combinator has been polled at least once.
+    polled: bool,
     /// Number of subfutures that have not yet completed.
     pending: usize,
     wakers: WakerArray<N>,
@@ -88,6 +90,7 @@ where
     pub(crate) fn new(futures: [Fut; N]) -> Self {
         CombinatorArray {
             behavior: PhantomData,
+            polled: false,
             pending: N,
             wakers: WakerArray::new(),
             items: array::from_fn(|_| MaybeUninit::uninit()),
@@ -120,6 +123,7 @@ where
     #[inline]
     fn poll(self: Pin<&mut Self>, cx: &mut Context<'_>) -> Poll<Self::Output> {
         let mut this = self.project();
+        *this.polled = true;
 
         if N == 0 && B::PEND_IF_EMPTY {
             return Poll::Pending;
@@ -219,7 +223,9 @@ where
     fn drop(self: Pin<&mut Self>) {
         let this = self.project();
 
-        if !this.detachment_blocker.block_until_drop() {
+        // If we've never been polled, we haven't rendered anything
+        // (and we might not be dropped in the context we'd render in).
+        if *this.polled && !this.detachment_blocker.block_until_drop() {
             DOM_CONTEXT.with(|parent: &DomContext| parent.remove_child(ChildPosition::default()));
         }
 
diff --git a/async_ui_web_core/src/combinators/common/tuple.rs b/async_ui_web_core/src/combinators/common/tuple.rs
index 3360979..7cd8660 100644
--- a/async_ui_web_core/src/combinators/common/tuple.rs
+++ b/async_ui_web_core/src/combinators/common/tuple.rs
@@ -67,6 +67,7 @@ macro_rules! impl_common_tuple {
             B: TupleWhenCompleted<($(<B as TupleMaybeReturn<$F::Output, O>>::StoredItem,)+), O>
         {
             behavior: PhantomData<B>,
+            polled: bool,
             pending: usize,
             items: ($(MaybeUninit<<B as TupleMaybeReturn<$F::Output, O>>::StoredItem>,)+),
             wakers: WakerArray<{$mod_name::LEN}>,
@@ -108,6 +109,7 @@ macro_rules! impl_common_tuple {
 			fn combine(self) -> Self::Combined {
 				$StructName {
                     behavior: PhantomData,
+                    polled: false,
                     filled: [false; $mod_name::LEN],
                     items: ($(MaybeUninit::<<B as TupleMaybeReturn<$F::Output, O>>::StoredItem>::uninit(),)+),
                     wakers: WakerArray::new(),
@@ -140,6 +142,7 @@ macro_rules! impl_common_tuple {
                 self: Pin<&mut Self>, cx: &mut Context<'_>
             ) -> Poll<Self::Output> {
                 let mut this = self.project();
+                *this.polled = true;
                 assert!(
                     *this.pending > 0,
                     "Futures must not be polled after completing"
@@ -230,7 +233,9 @@ macro_rules! impl_common_tuple {
             fn drop(self: Pin<&mut Self>) {
                 let this = self.project();
 
-                if !this.detachment_blocker.block_until_drop() {
+                // If we've never been polled, we haven't rendered anything
+                // (and we might not be dropped in the context we'd render in).
+                if *this.polled && !this.detachment_blocker.block_until_drop() {
                     DOM_CONTEXT.with(|parent: &DomContext| parent.remove_child(ChildPosition::default()));
                 }
 
diff --git a/async_ui_web_core/src/combinators/common/vec.rs b/async_ui_web_core/src/combinators/common/vec.rs
index f4beb08..3ec7d81 100644
--- a/async_ui_web_core/src/combinators/common/vec.rs
+++ b/async_ui_web_core/src/combinators/common/vec.rs
@@ -39,6 +39,7 @@ where
     Fut: Future,
     B: CombinatorBehaviorVec<Fut>,
 {
+    polled: bool,
     pending: usize,
     items: Vec<MaybeUninit<B::StoredItem>>,
     wakers: WakerVec,
@@ -57,6 +58,7 @@ where
     pub(crate) fn new(futures: Vec<Fut>) -> Self {
         let len = futures.len();
         CombinatorVec {
+            polled: false,
             pending: len,
             items: std::iter::repeat_with(MaybeUninit::uninit)
                 .take(len)
@@ -89,6 +91,7 @@ where
 
     fn poll(self: Pin<&mut Self>, cx: &mut Context<'_>) -> Poll<Self::Output> {
         let mut this = self.project();
+        *this.polled = true;
 
         if *this.pending == 0 {
             assert!(
@@ -171,7 +174,9 @@ where
     fn drop(self: Pin<&mut Self>) {
         let this = self.project();
 
-        if !this.detachment_blocker.block_until_drop() {
+        // If we've never been polled, we haven't rendered anything
+        // (and we might not be dropped in the context we'd render in).
+        if *this.polled && !this.detachment_blocker.block_until_drop() {
             DOM_CONTEXT.with(|parent: &DomContext| parent.remove_child(ChildPosition::default()));
         }
 
diff --git a/async_ui_web_core/src/node_sibling.rs b/async_ui_web_core/src/node_sibling.rs
index a7ef1ed..074b726 100644
--- a/async_ui_web_core/src/node_sibling.rs
+++ b/async_ui_web_core/src/node_sibling.rs
@@ -55,7 +55,9 @@ impl<C: Future> Future for SiblingNodeFuture<C> {
 impl<C> PinnedDrop for SiblingNodeFuture<C> {
     fn drop(self: Pin<&mut Self>) {
         let this = self.project();
-        if !this.drop.block_until_drop() {
+        // If nothing is rendered, there is nothing to remove
+        // (and we might not be dropped in the context we'd render in).
+        if !this.drop.block_until_drop() && !this.group.get_mut().is_empty() {
             DOM_CONTEXT.with(|parent: &DomContext| {
                 (DomContext::Sibling {
                     group: this.group,
-- 
2.43.0


From 3e9e02039376d8dd3d62ad234ff4b9188b2e481a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:51:08 +0000
Subject: [PATCH 03/22] fix: DynamicSlot never polls a completed future, and
 can be used while one is dropped

Any wakeup of the slot's parent re-polled a future that had completed (which
panics), and set_future/clear_future called by code that runs when a future of
the slot is dropped panicked because the slot was still borrowed.
---
 async_ui_web/src/components/dynamic_slot.rs | 37 +++++++++++++++------
 1 file changed, 26 insertions(+), 11 deletions(-)

diff --git a/async_ui_web/src/components/dynamic_slot.rs b/async_ui_web/src/components/dynamic_slot.rs
index 2beb001..1ff2348 100644
--- a/async_ui_web/src/components/dynamic_slot.rs
+++ b/async_ui_web/src/components/dynamic_slot.rs
@@ -71,22 +71,32 @@ impl<F: Future> DynamicSlot<F> {
     pub async fn render(&self) {
         // this is where the Future lives
         let mut fut_slot: Pin<&mut Option<F>> = pin!(None);
+        // whether the Future above has completed (we must not poll it again then)
+        let mut completed = false;
         poll_fn(|cx| {
-            {
+            let message = {
                 let mut channel = self.channel.borrow_mut();
-                match std::mem::replace(&mut channel.1, Message::NoChange) {
-                    Message::Set(new_fut) => fut_slot.set(Some(new_fut)),
-                    Message::Clear => fut_slot.set(None),
-                    Message::NoChange => {}
-                }
                 // if the Waker in the channel is outdated, update it
                 if !channel.0.will_wake(cx.waker()) {
                     channel.0 = cx.waker().to_owned();
                 }
+                std::mem::replace(&mut channel.1, Message::NoChange)
+                // the channel must not be borrowed when we drop the old Future,
+                // because dropping it may run code that uses this slot
+            };
+            match message {
+                Message::Set(new_fut) => {
+                    fut_slot.set(Some(new_fut));
+                    completed = false;
+                }
+                Message::Clear => fut_slot.set(None),
+                Message::NoChange => {}
             }
             // poll the Future in the slot, if there is one
             if let Some(fut) = fut_slot.as_mut().as_pin_mut() {
-                let _ = fut.poll(cx);
+                if !completed {
+                    completed = fut.poll(cx).is_ready();
+                }
             }
             Poll::Pending
         })
@@ -95,15 +105,20 @@ impl<F: Future> DynamicSlot<F> {
 
     /// Set the future to render in the slot, dropping the previous one.
     pub fn set_future(&self, fut: F) {
-        let mut channel = self.channel.borrow_mut();
-        channel.1 = Message::Set(fut);
-        channel.0.wake_by_ref();
+        self.send(Message::Set(fut));
     }
 
     /// Remove the future currently rendering in the slot (if any).
     pub fn clear_future(&self) {
+        self.send(Message::Clear);
+    }
+
+    fn send(&self, message: Message<F>) {
         let mut channel = self.channel.borrow_mut();
-        channel.1 = Message::Clear;
+        let unreceived = std::mem::replace(&mut channel.1, message);
         channel.0.wake_by_ref();
+        drop(channel);
+        // dropping this may run code that uses this slot
+        drop(unreceived);
     }
 }
-- 
2.43.0


From 3d4826baf32ba1ab35b71ec01d8645fd94a5f973 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:53:14 +0000
Subject: [PATCH 04/22] fix: DynamicList keeps its place and order in every
 situation

- content rendered later but composed before a list ended up after the list,
  as the list had no node registered with its parent
- operations on a list whose nodes had been moved along with an enclosing list
  used the wrong containing node and failed
- swapping an item with the one right after it did nothing, and moving an item
  before itself scrambled its nodes
- a 'before' key that doesn't exist panicked instead of meaning the end
---
 async_ui_web/src/lists/dynamic_list.rs | 92 +++++++++++++-------------
 1 file changed, 47 insertions(+), 45 deletions(-)

diff --git a/async_ui_web/src/lists/dynamic_list.rs b/async_ui_web/src/lists/dynamic_list.rs
index b51ec0c..facc729 100644
--- a/async_ui_web/src/lists/dynamic_list.rs
+++ b/async_ui_web/src/lists/dynamic_list.rs
@@ -14,7 +14,7 @@ use web_sys::{Comment, DocumentFragment};
 
 #[derive(Clone, Debug)]
 enum ContainingNode {
-    Real(web_sys::Node),
+    Real,
     Fake(DocumentFragment),
 }
 
@@ -69,15 +69,6 @@ struct Stored<F: Future> {
     end_marker: web_sys::Node,
 }
 
-impl ContainingNode {
-    fn get(&self) -> &web_sys::Node {
-        match self {
-            ContainingNode::Real(real) => real,
-            ContainingNode::Fake(fake) => fake,
-        }
-    }
-}
-
 impl<'c, K: Eq + Hash, F: Future + 'c> Default for DynamicList<'c, K, F> {
     fn default() -> Self {
         Self::new()
@@ -121,11 +112,12 @@ impl<'c, K: Eq + Hash, F: Future + 'c> DynamicList<'c, K, F> {
     /// Time complexity: O(1) in Rust/JS code.
     pub fn insert(&self, key: K, future: F, before: Option<&K>) -> bool {
         let mut inner = self.inner.borrow_mut();
-        let container = inner.containing_node.get();
+        let container = self.current_container();
         let start_marker: web_sys::Node = Comment::new().unwrap_throw().into();
         let end_marker: web_sys::Node = Comment::new().unwrap_throw().into();
         let after = before
-            .map(|k| &inner.items.get(k).unwrap().start_marker)
+            .and_then(|k| inner.items.get(k))
+            .map(|item| &item.start_marker)
             .unwrap_or(&self.list_end_marker);
         container
             .insert_before(&end_marker, Some(after))
@@ -149,7 +141,7 @@ impl<'c, K: Eq + Hash, F: Future + 'c> DynamicList<'c, K, F> {
         }) = inner.items.insert(key, stored)
         {
             drop(task);
-            let container = inner.containing_node.get();
+            let container = self.current_container();
             let _ = container.remove_child(&start_marker).unwrap_throw();
             let _ = container.remove_child(&end_marker).unwrap_throw();
             true
@@ -176,7 +168,7 @@ impl<'c, K: Eq + Hash, F: Future + 'c> DynamicList<'c, K, F> {
         }) = inner.items.remove(key)
         {
             drop(task);
-            let container = inner.containing_node.get();
+            let container = self.current_container();
             let _ = container.remove_child(&start_marker).unwrap_throw();
             let _ = container.remove_child(&end_marker).unwrap_throw();
             true
@@ -215,12 +207,16 @@ impl<'c, K: Eq + Hash, F: Future + 'c> DynamicList<'c, K, F> {
     {
         let inner = self.inner.borrow();
         let after = before
-            .map(|k| &inner.items.get(k).unwrap().start_marker)
+            .and_then(|k| inner.items.get(k))
+            .map(|item| &item.start_marker)
             .unwrap_or(&self.list_end_marker);
         let to_move = inner.items.get(to_move).unwrap();
-        let container = inner.containing_node.get();
+        if after.is_same_node(Some(&to_move.start_marker)) {
+            return;
+        }
+        let container = self.current_container();
         move_nodes_before(
-            container,
+            &container,
             &to_move.start_marker,
             &to_move.end_marker,
             Some(after),
@@ -246,15 +242,25 @@ impl<'c, K: Eq + Hash, F: Future + 'c> DynamicList<'c, K, F> {
             return;
         }
         let after_key_1 = item_1.end_marker.next_sibling();
-        let container = inner.containing_node.get();
+        let container = self.current_container();
+        if item_2.start_marker.is_same_node(after_key_1.as_ref()) {
+            // item_2 directly follows item_1
+            move_nodes_before(
+                &container,
+                &item_2.start_marker,
+                &item_2.end_marker,
+                Some(&item_1.start_marker),
+            );
+            return;
+        }
         move_nodes_before(
-            container,
+            &container,
             &item_1.start_marker,
             &item_1.end_marker,
             Some(&item_2.start_marker),
         );
         move_nodes_before(
-            container,
+            &container,
             &item_2.start_marker,
             &item_2.end_marker,
             after_key_1.as_ref(),
@@ -273,12 +279,8 @@ impl<'c, K: Eq + Hash, F: Future + 'c> DynamicList<'c, K, F> {
     /// Items for which `func` returns `false` will be removed.
     pub fn retain(&self, mut func: impl FnMut(&K) -> bool) {
         let inner = &mut *self.inner.borrow_mut();
-        let DynamicListInner {
-            items,
-            containing_node,
-        } = inner;
-        let container = containing_node.get();
-        items.retain(|key, value| {
+        let container = self.current_container();
+        inner.items.retain(|key, value| {
             let keep = func(key);
             if !keep {
                 container.remove_child(&value.start_marker).unwrap_throw();
@@ -288,39 +290,39 @@ impl<'c, K: Eq + Hash, F: Future + 'c> DynamicList<'c, K, F> {
         });
     }
 
+    /// The node in which the nodes of this list currently are.
+    ///
+    /// This changes when the list gets rendered or dropped, or when something
+    /// that contains it is moved elsewhere.
+    fn current_container(&self) -> web_sys::Node {
+        self.list_end_marker.parent_node().unwrap_throw()
+    }
+
     /// Render the list here.
     ///
     /// This async method never completes.
     pub async fn render(&self) {
-        let real_containing_node;
+        // Keep a marker registered with the parent for as long as we're rendered,
+        // so that whatever gets rendered before this list ends up before our nodes.
+        let anchor: web_sys::Node = Comment::new().unwrap_throw().into();
+        let mut anchor_fut = ContainerNodeFuture::new(pending::<()>(), anchor.clone());
         {
             use async_ui_internal_utils::dummy_waker::dummy_waker;
             use std::task::Context;
             let waker = dummy_waker();
             let mut context = Context::from_waker(&waker);
-            let mut insert_marker_fut =
-                ContainerNodeFuture::new(pending::<()>(), self.list_start_marker.clone());
-            let _ = Pin::new(&mut insert_marker_fut).poll(&mut context);
-            real_containing_node = self.list_start_marker.parent_node().unwrap_throw();
-            real_containing_node
-                .insert_before(&self.list_end_marker, Some(&self.list_start_marker))
-                .unwrap_throw();
-            drop(insert_marker_fut);
-            real_containing_node
-                .insert_before(&self.list_start_marker, Some(&self.list_end_marker))
-                .unwrap_throw();
+            let _ = Pin::new(&mut anchor_fut).poll(&mut context);
         }
         let stored_fragment;
         {
             let mut inner = self.inner.borrow_mut();
-            match std::mem::replace(
-                &mut inner.containing_node,
-                ContainingNode::Real(real_containing_node.clone()),
-            ) {
-                ContainingNode::Real(_) => panic!("rendering in more than one places not allowed"),
+            match std::mem::replace(&mut inner.containing_node, ContainingNode::Real) {
+                ContainingNode::Real => panic!("rendering in more than one places not allowed"),
                 ContainingNode::Fake(fragment) => {
-                    real_containing_node
-                        .insert_before(fragment.as_ref(), Some(&self.list_end_marker))
+                    anchor
+                        .parent_node()
+                        .unwrap_throw()
+                        .insert_before(fragment.as_ref(), anchor.next_sibling().as_ref())
                         .unwrap_throw();
                     stored_fragment = fragment;
                 }
-- 
2.43.0


From 939222794230ee776470ee3932c38efd91f750bb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:55:52 +0000
Subject: [PATCH 05/22] fix: a list item may remove itself and then render
 something more

Removing an item from within its own code took the item's markers out of the
document, so whatever the item rendered before getting dropped was inserted
relative to a node without a parent, which failed.
---
 async_ui_web/src/lists/dynamic_list.rs | 22 +++++++------
 async_ui_web_core/src/context.rs       | 45 ++++++++++----------------
 async_ui_web_core/src/node_sibling.rs  | 28 ++++++----------
 3 files changed, 40 insertions(+), 55 deletions(-)

diff --git a/async_ui_web/src/lists/dynamic_list.rs b/async_ui_web/src/lists/dynamic_list.rs
index facc729..e9a74c7 100644
--- a/async_ui_web/src/lists/dynamic_list.rs
+++ b/async_ui_web/src/lists/dynamic_list.rs
@@ -141,9 +141,7 @@ impl<'c, K: Eq + Hash, F: Future + 'c> DynamicList<'c, K, F> {
         }) = inner.items.insert(key, stored)
         {
             drop(task);
-            let container = self.current_container();
-            let _ = container.remove_child(&start_marker).unwrap_throw();
-            let _ = container.remove_child(&end_marker).unwrap_throw();
+            discard_markers(&start_marker, &end_marker);
             true
         } else {
             false
@@ -168,9 +166,7 @@ impl<'c, K: Eq + Hash, F: Future + 'c> DynamicList<'c, K, F> {
         }) = inner.items.remove(key)
         {
             drop(task);
-            let container = self.current_container();
-            let _ = container.remove_child(&start_marker).unwrap_throw();
-            let _ = container.remove_child(&end_marker).unwrap_throw();
+            discard_markers(&start_marker, &end_marker);
             true
         } else {
             false
@@ -279,12 +275,10 @@ impl<'c, K: Eq + Hash, F: Future + 'c> DynamicList<'c, K, F> {
     /// Items for which `func` returns `false` will be removed.
     pub fn retain(&self, mut func: impl FnMut(&K) -> bool) {
         let inner = &mut *self.inner.borrow_mut();
-        let container = self.current_container();
         inner.items.retain(|key, value| {
             let keep = func(key);
             if !keep {
-                container.remove_child(&value.start_marker).unwrap_throw();
-                container.remove_child(&value.end_marker).unwrap_throw();
+                discard_markers(&value.start_marker, &value.end_marker);
             }
             keep
         });
@@ -348,6 +342,16 @@ impl<'c, K: Eq + Hash, F: Future> Drop for DynamicList<'c, K, F> {
         self.detachment_blocker.block_until_drop();
     }
 }
+/// Take the markers of a removed item out of the list.
+///
+/// The item's future might be what is removing it,
+/// and may go on to render something more before it gets dropped.
+/// So the markers still need to have a parent.
+fn discard_markers(start_marker: &web_sys::Node, end_marker: &web_sys::Node) {
+    let discarded = DocumentFragment::new().unwrap_throw();
+    discarded.append_child(start_marker).unwrap_throw();
+    discarded.append_child(end_marker).unwrap_throw();
+}
 /// Move `start_marker`, `end_marker`, and eveything between them
 /// into `container` at location before `after`.
 fn move_nodes_before(
diff --git a/async_ui_web_core/src/context.rs b/async_ui_web_core/src/context.rs
index 5e0b277..4112d09 100644
--- a/async_ui_web_core/src/context.rs
+++ b/async_ui_web_core/src/context.rs
@@ -10,7 +10,6 @@ pub(crate) enum DomContext<'p> {
         container: &'p web_sys::Node,
     },
     Sibling {
-        parent: &'p Self,
         group: &'p NodeGroup,
         reference: &'p web_sys::Node,
     },
@@ -29,18 +28,6 @@ scoped_tls_hkt::scoped_thread_local!(
 pub(crate) type NodeGroup = RefCell<BTreeMap<ChildPosition, web_sys::Node>>;
 
 impl<'p> DomContext<'p> {
-    /// Get the HTML node where the current code would render in.
-    /// This is used by [SiblingNodeFuture][crate::SiblingNodeFuture] to decide where to add children.
-    pub fn get_containing_node(&self) -> &web_sys::Node {
-        match self {
-            DomContext::Container { container, .. } => container,
-            DomContext::Child { parent, .. } | DomContext::Sibling { parent, .. } => {
-                parent.get_containing_node()
-            }
-            #[cfg(test)]
-            DomContext::Null => unreachable!(),
-        }
-    }
     /// Add a new node `new_child` ordered relative to existing siblings according to the given [ChildPosition].
     pub fn add_child(&self, mut position: ChildPosition, new_child: web_sys::Node) {
         match self {
@@ -52,19 +39,18 @@ impl<'p> DomContext<'p> {
                     .unwrap_throw();
                 panic_if_duplicate_node(group.insert(position, new_child));
             }
-            DomContext::Sibling {
-                parent,
-                group,
-                reference,
-            } => {
+            DomContext::Sibling { group, reference } => {
                 let mut group = group.borrow_mut();
                 let reference_sibling = group
                     .range((&position)..)
                     .next()
                     .map(|(_k, v)| v)
                     .unwrap_or(*reference);
-                parent
-                    .get_containing_node()
+                // The reference node may have been taken elsewhere
+                // (when a list item is removed by its own code).
+                reference_sibling
+                    .parent_node()
+                    .unwrap_throw()
                     .insert_before(&new_child, Some(reference_sibling))
                     .unwrap_throw();
                 panic_if_duplicate_node(group.insert(position, new_child));
@@ -82,11 +68,16 @@ impl<'p> DomContext<'p> {
         match self {
             DomContext::Container { group, container } => {
                 let mut group = group.borrow_mut();
-                remove_children_here(&mut group, position, container);
+                remove_children_here(&mut group, position, |child| {
+                    container.remove_child(child).unwrap_throw();
+                });
             }
-            DomContext::Sibling { group, parent, .. } => {
+            DomContext::Sibling { group, .. } => {
                 let mut group = group.borrow_mut();
-                remove_children_here(&mut group, position, parent.get_containing_node());
+                remove_children_here(&mut group, position, |child| {
+                    let container = child.parent_node().unwrap_throw();
+                    container.remove_child(child).unwrap_throw();
+                });
             }
             DomContext::Child { parent, index } => {
                 position.wrap(*index);
@@ -101,18 +92,16 @@ impl<'p> DomContext<'p> {
 fn remove_children_here(
     tree: &mut BTreeMap<ChildPosition, web_sys::Node>,
     position: ChildPosition,
-    container: &web_sys::Node,
+    remove: impl Fn(&web_sys::Node),
 ) {
     if position.is_root() {
-        tree.values().for_each(|child| {
-            container.remove_child(child).unwrap_throw();
-        });
+        tree.values().for_each(remove);
         tree.clear();
     } else {
         let next = position.next_sibling();
         let range = (&position)..(&next);
         while let Some((key, child)) = tree.range(range.clone()).next_back() {
-            container.remove_child(child).unwrap_throw();
+            remove(child);
             tree.remove(&key.clone());
         }
     }
diff --git a/async_ui_web_core/src/node_sibling.rs b/async_ui_web_core/src/node_sibling.rs
index 074b726..8383101 100644
--- a/async_ui_web_core/src/node_sibling.rs
+++ b/async_ui_web_core/src/node_sibling.rs
@@ -40,14 +40,11 @@ impl<C: Future> Future for SiblingNodeFuture<C> {
 
     fn poll(self: Pin<&mut Self>, cx: &mut Context<'_>) -> Poll<Self::Output> {
         let this = self.project();
-        DOM_CONTEXT.with(|parent: &DomContext| {
-            let ctx = DomContext::Sibling {
-                group: this.group,
-                reference: this.reference,
-                parent,
-            };
-            DOM_CONTEXT.set(&ctx, || this.child_future.poll(cx))
-        })
+        let ctx = DomContext::Sibling {
+            group: this.group,
+            reference: this.reference,
+        };
+        DOM_CONTEXT.set(&ctx, || this.child_future.poll(cx))
     }
 }
 
@@ -55,17 +52,12 @@ impl<C: Future> Future for SiblingNodeFuture<C> {
 impl<C> PinnedDrop for SiblingNodeFuture<C> {
     fn drop(self: Pin<&mut Self>) {
         let this = self.project();
-        // If nothing is rendered, there is nothing to remove
-        // (and we might not be dropped in the context we'd render in).
-        if !this.drop.block_until_drop() && !this.group.get_mut().is_empty() {
-            DOM_CONTEXT.with(|parent: &DomContext| {
-                (DomContext::Sibling {
-                    group: this.group,
-                    reference: this.reference,
-                    parent,
-                })
-                .remove_child(ChildPosition::default());
+        if !this.drop.block_until_drop() {
+            (DomContext::Sibling {
+                group: this.group,
+                reference: this.reference,
             })
+            .remove_child(ChildPosition::default());
         }
     }
 }
-- 
2.43.0


From ef0c0ef7b21d617ce5c7cde918f55fa7b35ff2e0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:26:42 +0000
Subject: [PATCH 06/22] fix: tasks spawned before anything is mounted are run

---
 async_ui_web/src/executor.rs | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/async_ui_web/src/executor.rs b/async_ui_web/src/executor.rs
index 85ffaac..4438afb 100644
--- a/async_ui_web/src/executor.rs
+++ b/async_ui_web/src/executor.rs
@@ -6,7 +6,7 @@
 use std::{cell::OnceCell, future::pending};
 
 use async_executor::LocalExecutor;
-use async_ui_web_core::executor::set_executor_future;
+use async_ui_web_core::executor::{schedule, set_executor_future};
 
 thread_local! {
     static EXECUTOR: OnceCell<&'static LocalExecutor<'static>> = OnceCell::new();
@@ -28,6 +28,8 @@ pub fn get_executor() -> &'static LocalExecutor<'static> {
         *cell.get_or_init(|| {
             let exe = Box::leak(Box::new(LocalExecutor::new()));
             set_executor_future(Box::new(exe.run(pending())));
+            // the executor can only be woken by new tasks once it has been polled
+            schedule();
             exe
         })
     })
-- 
2.43.0


From a9f0cd8db67ef6addcdc4c882c73ff37565fb6a2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:31:49 +0000
Subject: [PATCH 07/22] fix: DiffedList puts items at their places when several
 of them move

---
 async_ui_web/src/lists/diffed_list.rs | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/async_ui_web/src/lists/diffed_list.rs b/async_ui_web/src/lists/diffed_list.rs
index 7167fbd..eb63cb3 100644
--- a/async_ui_web/src/lists/diffed_list.rs
+++ b/async_ui_web/src/lists/diffed_list.rs
@@ -91,6 +91,11 @@ where
         let mut prev_keys_set = prev_keys_list.iter().collect::<HashSet<_>>();
         let mut prev_keys_iter = prev_keys_list.iter().peekable();
         for key in new_keys.iter() {
+            // keys that have already been placed are no longer where they used to be
+            while prev_keys_iter
+                .next_if(|k| !prev_keys_set.contains(k))
+                .is_some()
+            {}
             if prev_keys_set.remove(key) {
                 if prev_keys_iter.next_if_eq(&key).is_some() {
                     continue;
-- 
2.43.0


From 6f07367fa1c00785eaefb435d60290e97954eeb2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:33:23 +0000
Subject: [PATCH 08/22] fix: Dropdown puts options at their places when several
 of them move

---
 async_ui_web/src/components/dropdown.rs | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/async_ui_web/src/components/dropdown.rs b/async_ui_web/src/components/dropdown.rs
index b592c80..27420e9 100644
--- a/async_ui_web/src/components/dropdown.rs
+++ b/async_ui_web/src/components/dropdown.rs
@@ -133,6 +133,11 @@ impl<O: Eq + Hash + Clone> Dropdown<O> {
         let mut prev_opts_iter = prev_opts_list.iter().peekable();
         let mut new_opts_list = Vec::new();
         for (opt, text) in new_opts {
+            // options that have already been placed are no longer where they used to be
+            while prev_opts_iter
+                .next_if(|o| !prev_opts_set.contains(o))
+                .is_some()
+            {}
             let should_put = if prev_opts_set.remove(&opt) {
                 prev_opts_iter.next_if_eq(&&opt).is_none()
             } else {
-- 
2.43.0


From 5a0ef5d3997bec6e12c0d7841c0f17e72eee0e8b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:33:44 +0000
Subject: [PATCH 09/22] fix: deselecting in a Dropdown deselects

---
 async_ui_web/src/components/dropdown.rs | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/async_ui_web/src/components/dropdown.rs b/async_ui_web/src/components/dropdown.rs
index 27420e9..50255b3 100644
--- a/async_ui_web/src/components/dropdown.rs
+++ b/async_ui_web/src/components/dropdown.rs
@@ -111,7 +111,9 @@ impl<O: Eq + Hash + Clone> Dropdown<O> {
                 return;
             }
         }
-        self.select.set_value("");
+        // not `set_value("")`: there might be an option with empty text
+        self.select.set_selected_index(-1);
+        self.inner.borrow_mut().selected = None;
     }
     /// Set the options to be displayed in the dropdown.
     ///
@@ -168,7 +170,7 @@ impl<O: Eq + Hash + Clone> Dropdown<O> {
         if let Some(sel) = selected.as_ref().and_then(|k| map.get(k)) {
             sel.set_selected(true);
         } else {
-            self.select.set_value("");
+            self.select.set_selected_index(-1);
         }
     }
     pub async fn render(&self) {
-- 
2.43.0


From 0f35c676718d176bde4649c8de0f70dac3dff0d4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:38:56 +0000
Subject: [PATCH 10/22] fix: VirtualizedList drops the items past the end when
 the number of items shrinks

---
 async_ui_web/src/lists/virtualized_list.rs | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/async_ui_web/src/lists/virtualized_list.rs b/async_ui_web/src/lists/virtualized_list.rs
index 507a6f1..e712dba 100644
--- a/async_ui_web/src/lists/virtualized_list.rs
+++ b/async_ui_web/src/lists/virtualized_list.rs
@@ -184,7 +184,8 @@ impl<'c, Fut: Future + 'c, Renderer: FnMut(usize) -> Fut> VirtualizedList<'c, Fu
         let root_size = rect_root.1 - rect_root.0;
         let tres_size = root_size * 1.25;
         let pad_size = root_size * 2.0;
-        if (rect_f.1 + tres_size < rect_root.0 || state.range.start == 0)
+        if state.range.end <= state.num_items
+            && (rect_f.1 + tres_size < rect_root.0 || state.range.start == 0)
             && (rect_b.0 - tres_size > rect_root.1 || state.range.end == state.num_items)
         {
             return;
@@ -196,9 +197,10 @@ impl<'c, Fut: Future + 'c, Renderer: FnMut(usize) -> Fut> VirtualizedList<'c, Fu
         } else {
             root_size / 4.0
         };
-        let new_start = ((rect_root.0 - pad_size - rect_f.0) / avg_size).max(0.0) as usize;
         let new_end =
             (((rect_root.1 + pad_size - rect_f.0) / avg_size).ceil() as usize).min(state.num_items);
+        let new_start =
+            (((rect_root.0 - pad_size - rect_f.0) / avg_size).max(0.0) as usize).min(new_end);
 
         let preferred_height_f = avg_size * new_start as f64;
         let preferred_height_b = avg_size * (state.num_items - new_end) as f64;
-- 
2.43.0


From 7477c9f1d339e2d370f5aaca09013c840c89e504 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:43:34 +0000
Subject: [PATCH 11/22] fix: VirtualizedList looks again once the size of its
 items is known

---
 async_ui_web/src/lists/virtualized_list.rs | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/async_ui_web/src/lists/virtualized_list.rs b/async_ui_web/src/lists/virtualized_list.rs
index e712dba..5b26fce 100644
--- a/async_ui_web/src/lists/virtualized_list.rs
+++ b/async_ui_web/src/lists/virtualized_list.rs
@@ -129,6 +129,9 @@ impl<'c, Fut: Future + 'c, Renderer: FnMut(usize) -> Fut> VirtualizedList<'c, Fu
     pub fn set_num_items(&self, num: usize) {
         self.state.borrow_mut().num_items = num;
         self.update_visible();
+        // the sizes measured just now might be outdated,
+        // so look again once the items have been rendered
+        self.signal.borrow_mut();
     }
     #[doc(hidden)]
     pub fn force_update(&self, _range: impl RangeBounds<usize>) {
@@ -228,6 +231,10 @@ impl<'c, Fut: Future + 'c, Renderer: FnMut(usize) -> Fut> VirtualizedList<'c, Fu
             self.list.insert(to_add, (state.renderer)(to_add), None);
         }
         state.range = new_start..new_end;
+        if num_visible == 0 && new_start < new_end {
+            // the item size was a mere guess, so look again once the items have been rendered
+            self.signal.borrow_mut();
+        }
     }
 }
 
-- 
2.43.0


From 88cec96af39743de245799aec50c97178ee4a516 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:03:23 +0000
Subject: [PATCH 12/22] fix: an event stream created with the capture option
 removes its listener

---
 async_ui_web_html/src/event_handling.rs | 9 ++++++++-
 1 file changed, 8 insertions(+), 1 deletion(-)

diff --git a/async_ui_web_html/src/event_handling.rs b/async_ui_web_html/src/event_handling.rs
index 28c1275..b4bd7e4 100644
--- a/async_ui_web_html/src/event_handling.rs
+++ b/async_ui_web_html/src/event_handling.rs
@@ -29,6 +29,8 @@ pub struct EventFutureStream<E> {
     closure: Option<Closure<dyn Fn(web_sys::Event)>>,
     shared: Rc<RefCell<(Option<E>, Waker)>>,
     options: Option<AddEventListenerOptions>,
+    // The listener is identified by this too, so we need it for removing the listener.
+    capture: bool,
     event_name: Cow<'static, str>,
 }
 
@@ -41,6 +43,7 @@ impl<E: JsCast> EventFutureStream<E> {
             closure: None,
             shared: Rc::new(RefCell::new((None, dummy_waker()))),
             options: None,
+            capture: false,
             event_name,
         }
     }
@@ -53,6 +56,9 @@ impl<E: JsCast> EventFutureStream<E> {
     ///
     /// This needs to be set *before* you first poll the stream.
     pub fn set_capture(&mut self, capture: bool) {
+        if self.closure.is_none() {
+            self.capture = capture;
+        }
         self.options
             .get_or_insert_with(AddEventListenerOptions::new)
             .capture(capture);
@@ -160,9 +166,10 @@ impl<E> Drop for EventFutureStream<E> {
     fn drop(&mut self) {
         if let Some(callback) = self.closure.take() {
             self.target
-                .remove_event_listener_with_callback(
+                .remove_event_listener_with_callback_and_bool(
                     &self.event_name,
                     callback.as_ref().unchecked_ref(),
+                    self.capture,
                 )
                 .unwrap_throw();
         }
-- 
2.43.0


From 9d1dc2af06c3dc945f15ba21f472b7e394e9f936 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:19:36 +0000
Subject: [PATCH 13/22] fix: bind_for_each keeps an incoming value that is
 directly followed by the end of the stream

---
 x-bow/src/path_ext/bind_for_each.rs | 13 +++++++------
 1 file changed, 7 insertions(+), 6 deletions(-)

diff --git a/x-bow/src/path_ext/bind_for_each.rs b/x-bow/src/path_ext/bind_for_each.rs
index 70020e0..c4fd7a6 100644
--- a/x-bow/src/path_ext/bind_for_each.rs
+++ b/x-bow/src/path_ext/bind_for_each.rs
@@ -39,17 +39,15 @@ where
         let mut this = self.project();
 
         let mut val = None;
-        loop {
+        let ended = loop {
             match this.incoming.as_mut().poll_next(cx) {
                 Poll::Ready(Some(v)) => {
                     val = Some(v);
                 }
-                Poll::Ready(None) => {
-                    return Poll::Ready(());
-                }
-                Poll::Pending => break,
+                Poll::Ready(None) => break true,
+                Poll::Pending => break false,
             }
-        }
+        };
         if let Some(val) = val {
             if let Some(bm) = this.path.borrow_opt_mut().as_deref_mut() {
                 *bm = val;
@@ -58,6 +56,9 @@ where
             }
             let _ = this.until_change.as_mut().poll_next(cx);
         }
+        if ended {
+            return Poll::Ready(());
+        }
 
         let first = !this.until_change.has_been_polled();
         if first | this.until_change.as_mut().poll_next(cx).is_ready() {
-- 
2.43.0


From 00cb8ced9bcff14b2c895d7b90eb159eb4029afb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:20:23 +0000
Subject: [PATCH 14/22] fix: bind_for_each calls back in the beginning even
 when an incoming value is already there

---
 x-bow/src/path_ext/bind_for_each.rs | 11 +++++++++--
 1 file changed, 9 insertions(+), 2 deletions(-)

diff --git a/x-bow/src/path_ext/bind_for_each.rs b/x-bow/src/path_ext/bind_for_each.rs
index c4fd7a6..ea96c24 100644
--- a/x-bow/src/path_ext/bind_for_each.rs
+++ b/x-bow/src/path_ext/bind_for_each.rs
@@ -38,6 +38,14 @@ where
     fn poll(self: std::pin::Pin<&mut Self>, cx: &mut std::task::Context<'_>) -> Poll<Self::Output> {
         let mut this = self.project();
 
+        // The call in the beginning comes before any incoming change is taken.
+        if !this.until_change.has_been_polled() {
+            let _ = this.until_change.as_mut().poll_next(cx);
+            if let Some(data) = this.path.borrow_opt().as_deref() {
+                (this.closure)(data);
+            }
+        }
+
         let mut val = None;
         let ended = loop {
             match this.incoming.as_mut().poll_next(cx) {
@@ -60,8 +68,7 @@ where
             return Poll::Ready(());
         }
 
-        let first = !this.until_change.has_been_polled();
-        if first | this.until_change.as_mut().poll_next(cx).is_ready() {
+        if this.until_change.as_mut().poll_next(cx).is_ready() {
             if let Some(data) = this.path.borrow_opt().as_deref() {
                 (this.closure)(data);
             }
-- 
2.43.0


From 836ec81f33ca04b15af72980e02ff62bb743dafe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:01:36 +0000
Subject: [PATCH 15/22] fix: give Bold and Italic the element type browsers
 give them

<b> and <i> are plain HTMLElements. Typed as a line break and an image,
methods like src() on Italic compile and then fail at run time.
---
 async_ui_web_html/src/common_components.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/async_ui_web_html/src/common_components.rs b/async_ui_web_html/src/common_components.rs
index ec24de2..ca4a27c 100644
--- a/async_ui_web_html/src/common_components.rs
+++ b/async_ui_web_html/src/common_components.rs
@@ -91,7 +91,7 @@ mod impls {
     component_impl!(Anchor, "a", web_sys::HtmlAnchorElement, "[the documentation on MDN](https://developer.mozilla.org/en-US/docs/Web/HTML/Element/a)", childed);
     component_impl!(Area, "area", web_sys::HtmlAreaElement, "[the documentation on MDN](https://developer.mozilla.org/en-US/docs/Web/HTML/Element/area)", childless);
     component_impl!(Audio, "audio", web_sys::HtmlAudioElement, "[the documentation on MDN](https://developer.mozilla.org/en-US/docs/Web/HTML/Element/audio)", childed);
-    component_impl!(Bold, "b", web_sys::HtmlBrElement, "[the documentation on MDN](https://developer.mozilla.org/en-US/docs/Web/HTML/Element/b)", childed);
+    component_impl!(Bold, "b", web_sys::HtmlElement, "[the documentation on MDN](https://developer.mozilla.org/en-US/docs/Web/HTML/Element/b)", childed);
     component_impl!(Br, "br", web_sys::HtmlBrElement, "[the documentation on MDN](https://developer.mozilla.org/en-US/docs/Web/HTML/Element/br)", childless);
     component_impl!(Base, "base", web_sys::HtmlBaseElement, "[the documentation on MDN](https://developer.mozilla.org/en-US/docs/Web/HTML/Element/base)", childless);
     component_impl!(Button, "button", web_sys::HtmlButtonElement, "[the documentation on MDN](https://developer.mozilla.org/en-US/docs/Web/HTML/Element/button)", childed);
@@ -112,7 +112,7 @@ mod impls {
     component_impl!(H4, "h4", web_sys::HtmlHeadingElement, "[the documentation on MDN](https://developer.mozilla.org/en-US/docs/Web/HTML/Element/h4)", childed);
     component_impl!(H5, "h5", web_sys::HtmlHeadingElement, "[the documentation on MDN](https://developer.mozilla.org/en-US/docs/Web/HTML/Element/h5)", childed);
     component_impl!(H6, "h6", web_sys::HtmlHeadingElement, "[the documentation on MDN](https://developer.mozilla.org/en-US/docs/Web/HTML/Element/h6)", childed);
-    component_impl!(Italic, "i", web_sys::HtmlImageElement, "[the documentation on MDN](https://developer.mozilla.org/en-US/docs/Web/HTML/Element/i)", childed);
+    component_impl!(Italic, "i", web_sys::HtmlElement, "[the documentation on MDN](https://developer.mozilla.org/en-US/docs/Web/HTML/Element/i)", childed);
     component_impl!(IFrame, "iframe", web_sys::HtmlIFrameElement, "[the documentation on MDN](https://developer.mozilla.org/en-US/docs/Web/HTML/Element/iframe)", childed);
     component_impl!(Img, "img", web_sys::HtmlImageElement, "[the documentation on MDN](https://developer.mozilla.org/en-US/docs/Web/HTML/Element/img)", childed);
     component_impl!(Input, "input", web_sys::HtmlInputElement, "[the documentation on MDN](https://developer.mozilla.org/en-US/docs/Web/HTML/Element/input)", childless);
-- 
2.43.0


From a59fc2de019bcd43580836600ed5b8f2e6506694 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:02:20 +0000
Subject: [PATCH 16/22] fix: select! awaits the whole future expression

A branch such as `x = &mut future => ..` was expanded to
`&mut (future.await)`: the future was moved away and x bound to a
reference to its output.
---
 async_ui_web_macros/src/select.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/async_ui_web_macros/src/select.rs b/async_ui_web_macros/src/select.rs
index db86af0..975b906 100644
--- a/async_ui_web_macros/src/select.rs
+++ b/async_ui_web_macros/src/select.rs
@@ -70,7 +70,7 @@ impl MacroInput {
                     #(#enum_variants (#enum_variants)),*
                 }
                 match ::async_ui_web::race((
-                    #( async { #enum_name :: #enum_variants (#futures.await) },)*
+                    #( async { #enum_name :: #enum_variants ((#futures).await) },)*
                 )).await {
                     #(
                         #enum_name :: #enum_variants ( #patterns ) => #exprs,
-- 
2.43.0


From a83ff858e0a957b1ee6b5d8ea56ad87cadc841e0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:09:48 +0000
Subject: [PATCH 17/22] fix: css! escapes the style sheet for the template
 literal it is put in

Backslashes in CSS (`content: "\\f101"`) were taken as JavaScript escapes:
the wrong text, or a script that does not even parse. Backticks and ${
ended the literal.
---
 async_ui_web_macros/src/css.rs | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/async_ui_web_macros/src/css.rs b/async_ui_web_macros/src/css.rs
index 80e1935..18fe833 100644
--- a/async_ui_web_macros/src/css.rs
+++ b/async_ui_web_macros/src/css.rs
@@ -37,9 +37,15 @@ fn generate(input: String) -> TokenStream {
     let style_var_name = format_ident!("style_{postfix}");
     let dce_hack_fn_name = format_ident!("style_{postfix}_dep");
 
+    // The style sheet goes into a template literal.
+    let escaped_output = output
+        .replace('\\', "\\\\")
+        .replace('`', "\\`")
+        .replace("${", "\\${");
+
     let js_content = format!(
         "
-export const {style_var_name} = `{output}`;
+export const {style_var_name} = `{escaped_output}`;
 document.head.appendChild(document.createElement(\"style\")).innerHTML = {style_var_name};
         "
     );
-- 
2.43.0


From 49749e2a0e7cd5940d78e60fdc5d4b47384e2529 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:11:56 +0000
Subject: [PATCH 18/22] fix: css! finds the whole name of escaped classes, and
 names any constant

The postfix was put in the middle of class names spelled with escapes, and
the macro failed for them, for classes named like a Rust keyword and for a
comment between the dot and the name.
---
 async_ui_web_macros/src/css.rs | 42 ++++++++++++++++++++++------------
 1 file changed, 28 insertions(+), 14 deletions(-)

diff --git a/async_ui_web_macros/src/css.rs b/async_ui_web_macros/src/css.rs
index 18fe833..f39b2e8 100644
--- a/async_ui_web_macros/src/css.rs
+++ b/async_ui_web_macros/src/css.rs
@@ -15,21 +15,17 @@ fn generate(input: String) -> TokenStream {
     let mut output = String::with_capacity(input.capacity() + classes.len() * 13);
     let mut last_end_idx = 0;
     let mut names = HashSet::new();
-    for (start_idx, length) in classes.iter().cloned() {
-        let end_idx = start_idx + length;
+    for (end_idx, name) in classes.iter() {
+        let end_idx = *end_idx;
         output.push_str(&input[last_end_idx..end_idx]);
 
-        assert_eq!(output.as_bytes()[output.len() - length - 1] as char, '.');
-        names.insert(&input[start_idx..end_idx]);
+        names.insert(name);
         output.push('-');
         output.push_str(postfix);
         last_end_idx = end_idx;
     }
     output.push_str(&input[last_end_idx..]);
-    let classes_declaration = names
-        .iter()
-        .map(|c| Ident::new(&c.replace('-', "_"), Span::call_site()))
-        .collect::<Vec<_>>();
+    let classes_declaration = names.iter().map(|c| constant_name(c)).collect::<Vec<_>>();
 
     let classes_value = names.iter().map(|c| format!("{c}-{postfix}"));
 
@@ -83,13 +79,29 @@ fn generate_postfix(input: &str) -> [u8; 8] {
     hash.map(|n| char::from_digit((n % 32) as u32, 32).unwrap() as u8)
 }
 
+/// The class name with dashes, and other ASCII punctuation, turned to underscores.
+/// A class named like a keyword gets a raw identifier.
+fn constant_name(class: &str) -> Ident {
+    let mut name = class.replace(|c: char| c.is_ascii() && !c.is_ascii_alphanumeric(), "_");
+    if name.starts_with(|c: char| c.is_ascii_digit())
+        || matches!(&*name, "_" | "self" | "Self" | "super" | "crate")
+    {
+        name.insert(0, '_');
+    }
+    match syn::parse_str::<Ident>(&name) {
+        Err(_) if name.is_ascii() => Ident::new_raw(&name, Span::call_site()),
+        _ => Ident::new(&name, Span::call_site()),
+    }
+}
+
 mod find_classes {
     use cssparser::{
         AtRuleParser, BasicParseError, BasicParseErrorKind, CowRcStr, Parser, ParserInput,
         QualifiedRuleParser, RuleListParser, Token,
     };
 
-    pub fn find_classes(input: &str) -> Vec<(usize, usize)> {
+    /// Find where each class selector ends, and the name of the class.
+    pub fn find_classes(input: &str) -> Vec<(usize, String)> {
         let mut input = ParserInput::new(input);
         let mut input = Parser::new(&mut input);
         let mut classes = Vec::new();
@@ -103,7 +115,7 @@ mod find_classes {
         classes
     }
     struct OurParser<'d> {
-        classes: &'d mut Vec<(usize, usize)>,
+        classes: &'d mut Vec<(usize, String)>,
     }
 
     impl<'i, 'd> QualifiedRuleParser<'i> for OurParser<'d>
@@ -120,16 +132,18 @@ mod find_classes {
         ) -> Result<Self::Prelude, cssparser::ParseError<'i, Self::Error>> {
             let mut was_dot = false;
             loop {
-                let position = input.position().byte_index();
-                let token = input.next_including_whitespace();
+                let token = input.next_including_whitespace_and_comments();
                 let mut is_dot = false;
                 match token {
                     Ok(Token::Delim(ch)) if *ch == '.' => {
                         is_dot = true;
                     }
                     Ok(Token::Ident(ident)) if was_dot => {
-                        let len = ident.len();
-                        self.classes.push((position, len));
+                        let name = ident.to_string();
+                        self.classes.push((input.position().byte_index(), name));
+                    }
+                    Ok(Token::Comment(_)) => {
+                        is_dot = was_dot;
                     }
                     Ok(Token::Function(_funct)) => {
                         input.parse_nested_block(|input| {
-- 
2.43.0


From a0853532c62fa0abb93e42ffc53095173e03f7c7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:20:01 +0000
Subject: [PATCH 19/22] fix: css! renames classes in nested rules, in @scope
 and in at-rules of any case

---
 async_ui_web_macros/src/css.rs | 88 +++++++++++++++++++++++++++-------
 1 file changed, 70 insertions(+), 18 deletions(-)

diff --git a/async_ui_web_macros/src/css.rs b/async_ui_web_macros/src/css.rs
index f39b2e8..8d13082 100644
--- a/async_ui_web_macros/src/css.rs
+++ b/async_ui_web_macros/src/css.rs
@@ -96,8 +96,8 @@ fn constant_name(class: &str) -> Ident {
 
 mod find_classes {
     use cssparser::{
-        AtRuleParser, BasicParseError, BasicParseErrorKind, CowRcStr, Parser, ParserInput,
-        QualifiedRuleParser, RuleListParser, Token,
+        AtRuleParser, BasicParseError, BasicParseErrorKind, CowRcStr, Delimiter, ParseError,
+        Parser, ParserInput, QualifiedRuleParser, RuleListParser, Token,
     };
 
     /// Find where each class selector ends, and the name of the class.
@@ -145,7 +145,7 @@ mod find_classes {
                     Ok(Token::Comment(_)) => {
                         is_dot = was_dot;
                     }
-                    Ok(Token::Function(_funct)) => {
+                    Ok(Token::Function(_) | Token::ParenthesisBlock) => {
                         input.parse_nested_block(|input| {
                             QualifiedRuleParser::parse_prelude(self, input)
                         })?;
@@ -167,8 +167,7 @@ mod find_classes {
             _start: &cssparser::ParserState,
             input: &mut Parser<'i, 't>,
         ) -> Result<Self::QualifiedRule, cssparser::ParseError<'i, Self::Error>> {
-            drain_input(input)?;
-            Ok(())
+            parse_body(input, self.classes)
         }
     }
 
@@ -185,10 +184,19 @@ mod find_classes {
             name: CowRcStr<'i>,
             input: &mut Parser<'i, 't>,
         ) -> Result<Self::Prelude, cssparser::ParseError<'i, Self::Error>> {
-            drain_input(input)?;
-            match &*name {
-                "media" | "supports" | "container" | "layer" => Ok(true),
-                _ => Ok(false),
+            match &*name.to_ascii_lowercase() {
+                "scope" => {
+                    QualifiedRuleParser::parse_prelude(self, input)?;
+                    Ok(true)
+                }
+                "media" | "supports" | "container" | "layer" | "starting-style" => {
+                    drain_input(input)?;
+                    Ok(true)
+                }
+                _ => {
+                    drain_input(input)?;
+                    Ok(false)
+                }
             }
         }
 
@@ -207,16 +215,60 @@ mod find_classes {
             input: &mut Parser<'i, 't>,
         ) -> Result<Self::AtRule, cssparser::ParseError<'i, Self::Error>> {
             if prelude {
-                let parser = RuleListParser::new_for_nested_rule(
-                    input,
-                    OurParser {
-                        classes: self.classes,
-                    },
-                );
-                for _ in parser {}
+                parse_body(input, self.classes)
+            } else {
+                Ok(drain_input(input)?)
+            }
+        }
+    }
+
+    /// Find the classes in a block that may have declarations and nested rules in it.
+    fn parse_body<'i>(
+        input: &mut Parser<'i, '_>,
+        classes: &mut Vec<(usize, String)>,
+    ) -> Result<(), ParseError<'i, ()>> {
+        let prelude_end = Delimiter::Semicolon | Delimiter::CurlyBracketBlock;
+        loop {
+            input.skip_whitespace();
+            let start = input.state();
+            let first = match input.next() {
+                Ok(token) => token.clone(),
+                Err(_) => break Ok(()),
+            };
+            match first {
+                Token::Semicolon => {}
+                Token::AtKeyword(name) => {
+                    let mut parser = OurParser { classes };
+                    let prelude = input.parse_until_before(prelude_end, |input| {
+                        AtRuleParser::parse_prelude(&mut parser, name, input)
+                    })?;
+                    if let Ok(Token::CurlyBracketBlock) = input.next() {
+                        input.parse_nested_block(|input| {
+                            AtRuleParser::parse_block(&mut parser, prelude, &start, input)
+                        })?;
+                    }
+                }
+                // Only the declaration of a custom property can have a block in it.
+                Token::Ident(name) if name.starts_with("--") => {
+                    input.parse_until_after(Delimiter::Semicolon, |input| {
+                        drain_input(input).map_err(Into::into)
+                    })?;
+                }
+                _ => {
+                    input.reset(&start);
+                    let mut found = Vec::new();
+                    let mut parser = OurParser {
+                        classes: &mut found,
+                    };
+                    input.parse_until_before(prelude_end, |input| {
+                        QualifiedRuleParser::parse_prelude(&mut parser, input)
+                    })?;
+                    if let Ok(Token::CurlyBracketBlock) = input.next() {
+                        classes.append(&mut found);
+                        input.parse_nested_block(|input| parse_body(input, classes))?;
+                    }
+                }
             }
-            drain_input(input)?;
-            Ok(())
         }
     }
 
-- 
2.43.0


From 9769005a3a0072019487510c83ac6cd708b4b4c6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:50:01 +0000
Subject: [PATCH 20/22] fix: an element rendered again does not keep what was
 rendered inside it before

---
 async_ui_web_core/src/node_container.rs | 14 +++++++++++---
 1 file changed, 11 insertions(+), 3 deletions(-)

diff --git a/async_ui_web_core/src/node_container.rs b/async_ui_web_core/src/node_container.rs
index 184da7d..3b3eb6e 100644
--- a/async_ui_web_core/src/node_container.rs
+++ b/async_ui_web_core/src/node_container.rs
@@ -5,6 +5,7 @@ use std::{
 };
 
 use pin_project::{pin_project, pinned_drop};
+use wasm_bindgen::UnwrapThrowExt;
 
 use crate::{
     context::{DomContext, NodeGroup, DOM_CONTEXT},
@@ -77,16 +78,23 @@ impl<C: Future> Future for ContainerNodeFuture<C> {
 #[pinned_drop]
 impl<C> PinnedDrop for ContainerNodeFuture<C> {
     fn drop(self: Pin<&mut Self>) {
-        if matches!(self.add_self, AddSelfMode::Added) {
+        let this = self.project();
+        if matches!(this.add_self, AddSelfMode::Added) {
             // we added our node, we should remove it
-            if !self.drop.block_until_drop() {
+            if !this.drop.block_until_drop() {
                 DOM_CONTEXT.with(|ctx| {
                     ctx.remove_child(ChildPosition::default());
                 })
             }
+            // Our descendants won't detach themselves, but the node may get
+            // rendered again: it shouldn't keep what was rendered inside it.
+            for child in std::mem::take(this.group.get_mut()).into_values() {
+                if child.parent_node().as_ref() == Some(this.container) {
+                    this.container.remove_child(&child).unwrap_throw();
+                }
+            }
         } else {
             // we didn't add our node
-            let this = self.project();
             DomContext::Container {
                 group: this.group,
                 container: this.container,
-- 
2.43.0


From 91f5e623c799ef68eace5aea10c6514305dcb7b2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:56:59 +0000
Subject: [PATCH 21/22] fix: combinators may be awaited in spawned tasks

---
 async_ui_web_core/src/context.rs  | 8 ++++----
 async_ui_web_core/src/executor.rs | 8 ++++++--
 2 files changed, 10 insertions(+), 6 deletions(-)

diff --git a/async_ui_web_core/src/context.rs b/async_ui_web_core/src/context.rs
index 4112d09..d8f6d4b 100644
--- a/async_ui_web_core/src/context.rs
+++ b/async_ui_web_core/src/context.rs
@@ -17,7 +17,7 @@ pub(crate) enum DomContext<'p> {
         parent: &'p Self,
         index: u32,
     },
-    #[cfg(test)]
+    /// Nowhere to render: for spawned tasks (and tests).
     Null,
 }
 
@@ -59,8 +59,9 @@ impl<'p> DomContext<'p> {
                 position.wrap(*index);
                 parent.add_child(position, new_child);
             }
-            #[cfg(test)]
-            DomContext::Null => {}
+            DomContext::Null => {
+                panic!("attempted to render something in a spawned Future")
+            }
         }
     }
     /// Remove the child at the given [ChildPosition] and all its descendants.
@@ -83,7 +84,6 @@ impl<'p> DomContext<'p> {
                 position.wrap(*index);
                 parent.remove_child(position);
             }
-            #[cfg(test)]
             DomContext::Null => {}
         }
     }
diff --git a/async_ui_web_core/src/executor.rs b/async_ui_web_core/src/executor.rs
index 2ae68c2..8fd12c1 100644
--- a/async_ui_web_core/src/executor.rs
+++ b/async_ui_web_core/src/executor.rs
@@ -11,7 +11,10 @@ use std::{
 
 use wasm_bindgen::{closure::Closure, JsCast, UnwrapThrowExt};
 
-use crate::window::WINDOW;
+use crate::{
+    context::{DomContext, DOM_CONTEXT},
+    window::WINDOW,
+};
 
 thread_local! {
     static EXECUTOR: ExecutorSingleton = ExecutorSingleton::new();
@@ -54,7 +57,8 @@ pub fn run_now() {
             while exe.scheduled.replace(false) {
                 let mut cx = Context::from_waker(&exe.waker);
                 if let Some(fu) = exe.future.borrow_mut().as_mut() {
-                    let _ = fu.as_mut().poll(&mut cx);
+                    // Tasks have no place in the DOM unless they are mounted there.
+                    let _ = DOM_CONTEXT.set(&DomContext::Null, || fu.as_mut().poll(&mut cx));
                 }
             }
             exe.active.set(false);
-- 
2.43.0


From 1348de38295ad2e9eeaf7efeefe728aa2c9b6a4d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:48:26 +0000
Subject: [PATCH 22/22] fix: VirtualizedList doesn't measure items that are yet
 to be rendered

---
 async_ui_web/src/lists/virtualized_list.rs | 36 ++++++++++++++--------
 1 file changed, 23 insertions(+), 13 deletions(-)

diff --git a/async_ui_web/src/lists/virtualized_list.rs b/async_ui_web/src/lists/virtualized_list.rs
index 5b26fce..59c5b40 100644
--- a/async_ui_web/src/lists/virtualized_list.rs
+++ b/async_ui_web/src/lists/virtualized_list.rs
@@ -8,7 +8,7 @@ use std::{
 
 use async_ui_internal_utils::reactive_cell::ReactiveCell;
 use async_ui_web_core::{combinators::join, ContainerNodeFuture};
-use futures_lite::{Future, StreamExt};
+use futures_lite::{future::yield_now, Future, StreamExt};
 use wasm_bindgen::{prelude::Closure, JsCast, JsValue, UnwrapThrowExt};
 use web_sys::{Element, HtmlElement, IntersectionObserver, IntersectionObserverInit};
 
@@ -56,6 +56,8 @@ struct State<Updater> {
     renderer: Updater,
     range: Range<usize>,
     num_items: usize,
+    /// Size of one item, from when they were last measured.
+    item_size: Option<f64>,
 }
 
 #[derive(Clone, Copy, PartialEq, Eq, PartialOrd, Ord, Hash, Debug)]
@@ -103,6 +105,7 @@ impl<'c, Fut: Future + 'c, Renderer: FnMut(usize) -> Fut> VirtualizedList<'c, Fu
             renderer,
             range: 0..0,
             num_items: 0,
+            item_size: None,
         };
         let signal = Rc::new(ReactiveCell::new(()));
         let signal_cloned = signal.clone();
@@ -128,7 +131,7 @@ impl<'c, Fut: Future + 'c, Renderer: FnMut(usize) -> Fut> VirtualizedList<'c, Fu
     /// How many items does the list have?
     pub fn set_num_items(&self, num: usize) {
         self.state.borrow_mut().num_items = num;
-        self.update_visible();
+        self.update_visible(false);
         // the sizes measured just now might be outdated,
         // so look again once the items have been rendered
         self.signal.borrow_mut();
@@ -156,7 +159,7 @@ impl<'c, Fut: Future + 'c, Renderer: FnMut(usize) -> Fut> VirtualizedList<'c, Fu
                 &[spf, spb],
                 self.wake_closure.as_ref().unchecked_ref(),
             );
-            self.update_visible();
+            self.update_visible(true);
             self.root
                 .add_event_listener_with_callback(
                     "scroll",
@@ -166,12 +169,16 @@ impl<'c, Fut: Future + 'c, Renderer: FnMut(usize) -> Fut> VirtualizedList<'c, Fu
             let mut uc = self.signal.until_change();
             loop {
                 uc.next().await;
-                self.update_visible();
+                // let the list render its new items before measuring them
+                yield_now().await;
+                self.update_visible(true);
             }
         }))
         .await;
     }
-    fn update_visible(&self) {
+    /// `all_rendered` tells whether the items can be measured:
+    /// those inserted since the list was last polled are not there yet.
+    fn update_visible(&self, all_rendered: bool) {
         fn top_bottom(rect: &web_sys::DomRect, direction: Direction) -> (f64, f64) {
             match direction {
                 Direction::Vertical => (rect.top(), rect.bottom()),
@@ -195,11 +202,14 @@ impl<'c, Fut: Future + 'c, Renderer: FnMut(usize) -> Fut> VirtualizedList<'c, Fu
         }
 
         let num_visible = state.range.len();
-        let avg_size = if num_visible > 0 {
-            (rect_b.0 - rect_f.1) / num_visible as f64
-        } else {
-            root_size / 4.0
-        };
+        if all_rendered {
+            let avg_size = (rect_b.0 - rect_f.1) / num_visible as f64;
+            if avg_size > 0.0 && avg_size.is_finite() {
+                state.item_size = Some(avg_size);
+            }
+        }
+        let guessed = state.item_size.is_none();
+        let avg_size = state.item_size.unwrap_or(root_size / 4.0);
         let new_end =
             (((rect_root.1 + pad_size - rect_f.0) / avg_size).ceil() as usize).min(state.num_items);
         let new_start =
@@ -230,9 +240,9 @@ impl<'c, Fut: Future + 'c, Renderer: FnMut(usize) -> Fut> VirtualizedList<'c, Fu
         for to_add in new_start.max(state.range.end)..new_end {
             self.list.insert(to_add, (state.renderer)(to_add), None);
         }
-        state.range = new_start..new_end;
-        if num_visible == 0 && new_start < new_end {
-            // the item size was a mere guess, so look again once the items have been rendered
+        let old_range = std::mem::replace(&mut state.range, new_start..new_end);
+        if guessed && state.range != old_range {
+            // look again once the items have been rendered
             self.signal.borrow_mut();
         }
     }
-- 
2.43.0

