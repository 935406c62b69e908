From 9bde265ca3e58ec9c5ea18063af5225766830a20 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:17:06 +0000
Subject: [PATCH 01/30] fix: don't poison a mock's internal mutexes when a user
 callback panics

If a returning closure, a matcher, or an unsatisfied expectation panicked
and the panic was caught, then the mutex guarding it stayed poisoned and
every later use of the mock (including dropping it, or the next Context for
the same static method) panicked with a PoisonError.
---
 mockall_derive/src/mock_function.rs | 64 ++++++++++++++++++-----------
 1 file changed, 39 insertions(+), 25 deletions(-)

diff --git a/mockall_derive/src/mock_function.rs b/mockall_derive/src/mock_function.rs
index 3a7a484..3766850 100644
--- a/mockall_derive/src/mock_function.rs
+++ b/mockall_derive/src/mock_function.rs
@@ -548,15 +548,12 @@ impl MockFunction {
                     let no_match_msg = #no_match_msg;
                     #deref {
                         let __mockall_guard = #outer_mod_path::get_expectations()
-                            .lock().unwrap();
-                        /*
-                         * TODO: catch panics, then gracefully release the mutex
-                         * so it won't be poisoned.  This requires bounding any
-                         * generic parameters with UnwindSafe
-                         */
-                        /* std::panic::catch_unwind(|| */
+                            .lock()
+                            // A panic during an earlier call may have poisoned
+                            // the mutex, but it can't have corrupted the
+                            // expectations.
+                            .unwrap_or_else(::std::sync::PoisonError::into_inner);
                         __mockall_guard.#call #tbf(#(#call_exprs,)*)
-                        /*)*/
                     }.expect(&no_match_msg)
                 }
             )
@@ -588,7 +585,7 @@ impl MockFunction {
                 #(#attrs)*
                 {
                     let __mockall_timeses = #inner_mod_ident::get_expectations().lock()
-                        .unwrap()
+                        .unwrap_or_else(::std::sync::PoisonError::into_inner)
                         .checkpoint()
                         .collect::<Vec<_>>();
                 }
@@ -926,7 +923,8 @@ impl ToTokens for Common<'_> {
             quote!(
                 fn with<#with_generics>(&mut self, #with_args)
                     {
-                        let mut __mockall_guard = self.matcher.lock().unwrap();
+                        let mut __mockall_guard = self.matcher.lock()
+                            .unwrap_or_else(::std::sync::PoisonError::into_inner);
                         *__mockall_guard.deref_mut() =
                             Matcher::Pred(Box::new((#boxed_withargs)));
                     }
@@ -957,7 +955,8 @@ impl ToTokens for Common<'_> {
                     self.times.call()
                         .unwrap_or_else(|m| {
                             let desc = std::format!(
-                                "{}", self.matcher.lock().unwrap());
+                                "{}", self.matcher.lock()
+                                    .unwrap_or_else(::std::sync::PoisonError::into_inner));
                             panic!("{}: Expectation({}) {}", #funcname, desc,
                                 m);
                         });
@@ -983,7 +982,9 @@ impl ToTokens for Common<'_> {
                 #[allow(clippy::ptr_arg)]
                 #[allow(clippy::ref_option)]
                 fn matches #lg (&self, #( #argnames: &#predty, )*) -> bool {
-                    self.matcher.lock().unwrap().matches(#(#argnames, )*)
+                    self.matcher.lock()
+                        .unwrap_or_else(::std::sync::PoisonError::into_inner)
+                        .matches(#(#argnames, )*)
                 }
 
                 /// Forbid this expectation from ever being called.
@@ -1011,7 +1012,8 @@ impl ToTokens for Common<'_> {
                     where MockallF: #hrtb Fn(#( #refpredty, )*)
                                     -> bool + Send + 'static
                 {
-                    let mut __mockall_guard = self.matcher.lock().unwrap();
+                    let mut __mockall_guard = self.matcher.lock()
+                        .unwrap_or_else(::std::sync::PoisonError::into_inner);
                     *__mockall_guard.deref_mut() =
                          Matcher::Func(Box::new(__mockall_f));
                 }
@@ -1020,7 +1022,8 @@ impl ToTokens for Common<'_> {
                     where MockallF: #hrtb Fn(#( #refpredty, )*)
                                     -> bool + 'static
                 {
-                    let mut __mockall_guard = self.matcher.lock().unwrap();
+                    let mut __mockall_guard = self.matcher.lock()
+                        .unwrap_or_else(::std::sync::PoisonError::into_inner);
                     *__mockall_guard.deref_mut() =
                          Matcher::FuncSt(
                              ::mockall::Fragile::new(Box::new(__mockall_f))
@@ -1038,7 +1041,8 @@ impl ToTokens for Common<'_> {
                 fn drop(&mut self) {
                     if !::std::thread::panicking() {
                         let desc = std::format!(
-                            "{}", self.matcher.lock().unwrap());
+                            "{}", self.matcher.lock()
+                                .unwrap_or_else(::std::sync::PoisonError::into_inner));
                         match self.times.is_satisfied() {
                             ::mockall::ExpectedCalls::TooFew => {
                                 panic!("{}: Expectation({}) called {} time(s) which is fewer than expected {}",
@@ -1611,7 +1615,7 @@ impl ToTokens for Context<'_> {
                 #v fn do_checkpoint() {
                     let __mockall_timeses = get_expectations()
                         .lock()
-                        .unwrap()
+                        .unwrap_or_else(::std::sync::PoisonError::into_inner)
                         .checkpoint()
                         .collect::<Vec<_>>();
                 }
@@ -1621,7 +1625,8 @@ impl ToTokens for Context<'_> {
                 #v fn expect #meth_ig ( &self,) -> ExpectationGuard #e_tg
                     #meth_wc
                 {
-                    ExpectationGuard::new(get_expectations().lock().unwrap())
+                    ExpectationGuard::new(get_expectations().lock()
+                        .unwrap_or_else(::std::sync::PoisonError::into_inner))
                 }
             }
             impl #ty_ig Default for Context #ty_tg #ty_wc {
@@ -2031,7 +2036,8 @@ impl ToTokens for RefExpectation<'_> {
                     self.common.call(&#desc);
                     self.rfunc.call().unwrap_or_else(|m| {
                         let desc = std::format!(
-                            "{}", self.common.matcher.lock().unwrap());
+                            "{}", self.common.matcher.lock()
+                                .unwrap_or_else(::std::sync::PoisonError::into_inner));
                         panic!("{}: Expectation({}) {}", #funcname, desc,
                             m);
                     })
@@ -2096,7 +2102,8 @@ impl ToTokens for RefMutExpectation<'_> {
                     use ::mockall::{ViaDebug, ViaNothing};
                     self.common.call(&#desc);
                     let desc = std::format!(
-                        "{}", self.common.matcher.lock().unwrap());
+                        "{}", self.common.matcher.lock()
+                            .unwrap_or_else(::std::sync::PoisonError::into_inner));
                     self.rfunc.call_mut(#(#argnames, )*).unwrap_or_else(|m| {
                             panic!("{}: Expectation({}) {}", #funcname, desc,
                                    m);
@@ -2185,10 +2192,13 @@ impl ToTokens for StaticExpectation<'_> {
                 {
                     use ::mockall::{ViaDebug, ViaNothing};
                     self.common.call(&#desc);
-                    self.rfunc.lock().unwrap().call_mut(#(#argnames, )*)
+                    self.rfunc.lock()
+                        .unwrap_or_else(::std::sync::PoisonError::into_inner)
+                        .call_mut(#(#argnames, )*)
                         .unwrap_or_else(|message| {
                             let desc = std::format!(
-                                "{}", self.common.matcher.lock().unwrap());
+                                "{}", self.common.matcher.lock()
+                                    .unwrap_or_else(::std::sync::PoisonError::into_inner));
                             panic!("{}: Expectation({}) {}", #funcname, desc,
                                    message);
                         })
@@ -2246,7 +2256,8 @@ impl ToTokens for StaticExpectation<'_> {
                                     -> #output + Send + 'static
                 {
                     {
-                        let mut __mockall_guard = self.rfunc.lock().unwrap();
+                        let mut __mockall_guard = self.rfunc.lock()
+                            .unwrap_or_else(::std::sync::PoisonError::into_inner);
                         *__mockall_guard.deref_mut() =
                             Rfunc::Once(Box::new(__mockall_f));
                     }
@@ -2267,7 +2278,8 @@ impl ToTokens for StaticExpectation<'_> {
                                     -> #output + 'static
                 {
                     {
-                        let mut __mockall_guard = self.rfunc.lock().unwrap();
+                        let mut __mockall_guard = self.rfunc.lock()
+                            .unwrap_or_else(::std::sync::PoisonError::into_inner);
                         *__mockall_guard.deref_mut() = Rfunc::OnceSt(
                             ::mockall::Fragile::new(Box::new(__mockall_f)));
                     }
@@ -2283,7 +2295,8 @@ impl ToTokens for StaticExpectation<'_> {
                                     -> #output + Send + 'static
                 {
                     {
-                        let mut __mockall_guard = self.rfunc.lock().unwrap();
+                        let mut __mockall_guard = self.rfunc.lock()
+                            .unwrap_or_else(::std::sync::PoisonError::into_inner);
                         *__mockall_guard.deref_mut() =
                             Rfunc::Mut(Box::new(__mockall_f));
                     }
@@ -2302,7 +2315,8 @@ impl ToTokens for StaticExpectation<'_> {
                                     -> #output + 'static
                 {
                     {
-                        let mut __mockall_guard = self.rfunc.lock().unwrap();
+                        let mut __mockall_guard = self.rfunc.lock()
+                            .unwrap_or_else(::std::sync::PoisonError::into_inner);
                         *__mockall_guard.deref_mut() = Rfunc::MutSt(
                             ::mockall::Fragile::new(Box::new(__mockall_f)));
                     }
-- 
2.43.0


From f279f5a3fce59c286b305b6e112101d75ff4d510 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:17:19 +0000
Subject: [PATCH 02/30] fix: choose an expectation and claim one of its calls
 atomically

When several threads called the same mock method, two of them could pick the
same nearly-saturated expectation.  One would then panic because it was
called too many times, instead of using the next matching expectation.
---
 mockall/src/lib.rs                  | 12 ++++++++++++
 mockall_derive/src/mock_function.rs | 14 +++++++-------
 2 files changed, 19 insertions(+), 7 deletions(-)

diff --git a/mockall/src/lib.rs b/mockall/src/lib.rs
index 88b33dc..9fbc51c 100644
--- a/mockall/src/lib.rs
+++ b/mockall/src/lib.rs
@@ -1579,6 +1579,9 @@ pub enum ExpectedCalls {
 pub struct Times{
     /// How many times has the expectation already been called?
     count: AtomicUsize,
+    /// How many calls have been assigned to this expectation, including any
+    /// that are still in progress in other threads?
+    reserved: AtomicUsize,
     range: TimesRange
 }
 
@@ -1616,6 +1619,15 @@ impl Times {
         self.count.load(Ordering::Relaxed) >= self.range.0.end - 1
     }
 
+    /// Atomically assign one call to this expectation, unless it has already
+    /// been assigned the maximum allowed number.
+    pub fn reserve(&self) -> bool {
+        !self.is_done() &&
+            self.reserved.fetch_update(Ordering::Relaxed, Ordering::Relaxed,
+                |r| (r < self.maximum()).then_some(r + 1)
+            ).is_ok()
+    }
+
     /// Is it required that this expectation be called an exact number of times,
     /// or may it be satisfied by a range of call counts?
     pub fn is_exact(&self) -> bool {
diff --git a/mockall_derive/src/mock_function.rs b/mockall_derive/src/mock_function.rs
index 3766850..f65a230 100644
--- a/mockall_derive/src/mock_function.rs
+++ b/mockall_derive/src/mock_function.rs
@@ -975,8 +975,8 @@ impl ToTokens for Common<'_> {
                     self
                 }
 
-                fn is_done(&self) -> bool {
-                    self.times.is_done()
+                fn reserve(&self) -> bool {
+                    self.times.reserve()
                 }
 
                 #[allow(clippy::ptr_arg)]
@@ -1119,8 +1119,8 @@ impl ToTokens for CommonExpectationMethods<'_> {
                 self
             }
 
-            fn is_done(&self) -> bool {
-                self.common.is_done()
+            fn reserve(&self) -> bool {
+                self.common.reserve()
             }
 
             /// Validate this expectation's matcher.
@@ -2366,7 +2366,7 @@ impl ToTokens for RefExpectations<'_> {
                     self.0.iter()
                         .find(|__mockall_e|
                               __mockall_e.matches(#(#predexprs, )*) &&
-                              (!__mockall_e.is_done() || self.0.len() == 1))
+                              (__mockall_e.reserve() || self.0.len() == 1))
                         .map(move |__mockall_e|
                              __mockall_e.call(#(#argnames),*)
                         )
@@ -2405,7 +2405,7 @@ impl ToTokens for RefMutExpectations<'_> {
                     self.0.iter_mut()
                         .find(|__mockall_e|
                               __mockall_e.matches(#(#predexprs, )*) &&
-                              (!__mockall_e.is_done() || __mockall_n == 1))
+                              (__mockall_e.reserve() || __mockall_n == 1))
                         .map(move |__mockall_e|
                              __mockall_e.call_mut(#(#argnames, )*)
                         )
@@ -2443,7 +2443,7 @@ impl ToTokens for StaticExpectations<'_> {
                     self.0.iter()
                         .find(|__mockall_e|
                               __mockall_e.matches(#(#predexprs, )*) &&
-                              (!__mockall_e.is_done() || self.0.len() == 1))
+                              (__mockall_e.reserve() || self.0.len() == 1))
                         .map(move |__mockall_e|
                              __mockall_e.call(#(#argnames, )*)
                         )
-- 
2.43.0


From 40791de2ecc74cbb51c66e47dfd39a4b00f1609d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:18:06 +0000
Subject: [PATCH 03/30] fix: let concurrent calls satisfy a sequenced
 expectation together

If multiple threads called an expectation that was in a Sequence and had
times(n) with n > 1, then one thread could mark it as satisfied while another
had been counted but not yet verified.  The latter would then panic with a
sequence violation.
---
 mockall/src/lib.rs                  | 14 +++++++++++++-
 mockall_derive/src/mock_function.rs | 11 +++++++----
 2 files changed, 20 insertions(+), 5 deletions(-)

diff --git a/mockall/src/lib.rs b/mockall/src/lib.rs
index 9fbc51c..db6000e 100644
--- a/mockall/src/lib.rs
+++ b/mockall/src/lib.rs
@@ -1692,11 +1692,19 @@ impl Key {
 
 #[doc(hidden)]
 pub struct SeqHandle {
+    /// How many calls have been verified to be in the correct order?
+    calls: AtomicUsize,
     inner: Arc<SeqInner>,
     seq: usize
 }
 
 impl SeqHandle {
+    /// Record that another call was verified to be in the correct order.
+    /// Returns the total number of such calls.
+    pub fn record_call(&self) -> usize {
+        self.calls.fetch_add(1, Ordering::Relaxed) + 1
+    }
+
     /// Tell the Sequence that this expectation has been fully satisfied
     pub fn satisfy(&self) {
         self.inner.satisfy(self.seq);
@@ -1790,7 +1798,11 @@ impl Sequence {
     /// can call it.
     #[doc(hidden)]
     pub fn next_handle(&mut self) -> SeqHandle {
-        let handle = SeqHandle{inner: self.inner.clone(), seq: self.next_seq};
+        let handle = SeqHandle{
+            calls: AtomicUsize::new(0),
+            inner: self.inner.clone(),
+            seq: self.next_seq
+        };
         self.next_seq += 1;
         handle
     }
diff --git a/mockall_derive/src/mock_function.rs b/mockall_derive/src/mock_function.rs
index f65a230..289d840 100644
--- a/mockall_derive/src/mock_function.rs
+++ b/mockall_derive/src/mock_function.rs
@@ -961,9 +961,7 @@ impl ToTokens for Common<'_> {
                                 m);
                         });
                     self.verify_sequence(desc);
-                    if ::mockall::ExpectedCalls::TooFew != self.times.is_satisfied() {
-                        self.satisfy_sequence()
-                    }
+                    self.satisfy_sequence();
                 }
 
                 fn in_sequence(&mut self, __mockall_seq: &mut ::mockall::Sequence)
@@ -994,7 +992,12 @@ impl ToTokens for Common<'_> {
 
                 fn satisfy_sequence(&self) {
                     if let Some(__mockall_handle) = &self.seq_handle {
-                        __mockall_handle.satisfy()
+                        // Only the last of the expected calls to be verified
+                        // may advance the sequence.  Other threads' calls may
+                        // have been counted, but not verified yet.
+                        if __mockall_handle.record_call() == self.times.minimum() {
+                            __mockall_handle.satisfy()
+                        }
                     }
                 }
 
-- 
2.43.0


From 6ac6dce0122bb97dc912d1c19975c3b581f75cef Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:18:06 +0000
Subject: [PATCH 04/30] fix: times(0) expectations don't block the rest of
 their Sequence

An expectation with times(0) can never be called, so it never marked itself
as satisfied and any later expectation in the same Sequence could never be
called.
---
 mockall_derive/src/mock_function.rs | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/mockall_derive/src/mock_function.rs b/mockall_derive/src/mock_function.rs
index 289d840..5be7877 100644
--- a/mockall_derive/src/mock_function.rs
+++ b/mockall_derive/src/mock_function.rs
@@ -969,7 +969,12 @@ impl ToTokens for Common<'_> {
                 {
                     assert!(self.times.is_exact(),
                         "Only Expectations with an exact call count have sequences");
-                    self.seq_handle = Some(__mockall_seq.next_handle());
+                    // An expectation that must never be called is always
+                    // satisfied, so nothing in the sequence needs to wait for
+                    // it.
+                    if self.times.maximum() > 0 {
+                        self.seq_handle = Some(__mockall_seq.next_handle());
+                    }
                     self
                 }
 
-- 
2.43.0


From 307da5289a96607c619cc07fdba79f44e849730b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:18:06 +0000
Subject: [PATCH 05/30] fix: reject times(..0), like every other empty range

It was accepted, and then underflowed when the expectation was called.
---
 mockall/src/lib.rs | 1 +
 1 file changed, 1 insertion(+)

diff --git a/mockall/src/lib.rs b/mockall/src/lib.rs
index db6000e..ae69667 100644
--- a/mockall/src/lib.rs
+++ b/mockall/src/lib.rs
@@ -1556,6 +1556,7 @@ impl From<RangeInclusive<usize>> for TimesRange {
 
 impl From<RangeTo<usize>> for TimesRange {
     fn from(r: RangeTo<usize>) -> TimesRange {
+        assert!(r.end > 0, "Backwards range");
         TimesRange(0..r.end)
     }
 }
-- 
2.43.0


From 2ee7be0420e77366f12a1e6c72e0f3d66f4478c8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:23:09 +0000
Subject: [PATCH 06/30] fix: don't abort when return_once_st is called from the
 wrong thread

The closure's Fragile wrapper was moved out of the expectation before the
thread was checked, so it was dropped on the wrong thread while already
panicking.
---
 mockall_derive/src/mock_function.rs | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/mockall_derive/src/mock_function.rs b/mockall_derive/src/mock_function.rs
index 5be7877..b661958 100644
--- a/mockall_derive/src/mock_function.rs
+++ b/mockall_derive/src/mock_function.rs
@@ -1983,7 +1983,11 @@ impl ToTokens for StaticRfunc<'_> {
                                 unreachable!()
                             }
                         },
-                        Rfunc::OnceSt(_) => {
+                        Rfunc::OnceSt(__mockall_f) => {
+                            // Panic now if this is the wrong thread.  Moving
+                            // the Fragile out first would drop it on the wrong
+                            // thread during the panic, which would abort.
+                            let _ = __mockall_f.get();
                             if let Rfunc::OnceSt(mut __mockall_f) =
                                 mem::replace(self, Rfunc::Expired) {
                                 ::std::result::Result::Ok((__mockall_f.into_inner())(#(#argnames,)*))
-- 
2.43.0


From aafd141715b74e2a7e99712c45cb6a986ad7b6ee Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:04:00 +0000
Subject: [PATCH 07/30] fix: advance a Sequence at the moment that a call is
 counted

Count a call, check its position in the Sequence, and advance the
Sequence all under one lock.  Otherwise, a concurrent call that finds one
expectation fully reserved might proceed to the next one in the Sequence
before the Sequence has been advanced, and panic spuriously.
---
 mockall/src/lib.rs                  | 91 ++++++++++++++++++----------
 mockall_derive/src/mock_function.rs | 93 +++++++++++++++--------------
 2 files changed, 107 insertions(+), 77 deletions(-)

diff --git a/mockall/src/lib.rs b/mockall/src/lib.rs
index ae69667..123d900 100644
--- a/mockall/src/lib.rs
+++ b/mockall/src/lib.rs
@@ -1153,7 +1153,9 @@ use std::{
           RangeToInclusive},
     sync::{
         Arc,
-        atomic::{AtomicUsize, Ordering}
+        atomic::{AtomicUsize, Ordering},
+        Mutex,
+        PoisonError
     },
 };
 
@@ -1580,12 +1582,32 @@ pub enum ExpectedCalls {
 pub struct Times{
     /// How many times has the expectation already been called?
     count: AtomicUsize,
-    /// How many calls have been assigned to this expectation, including any
-    /// that are still in progress in other threads?
-    reserved: AtomicUsize,
+    /// Held while claiming a call
+    claiming: Mutex<()>,
     range: TimesRange
 }
 
+/// The right to make one call to an expectation.
+#[doc(hidden)]
+#[derive(Debug)]
+pub struct Claim {
+    /// Was that call within the expectation's call count limit?
+    pub times: Result<(), String>,
+    /// If the call was out of order: the expectation's position in its
+    /// Sequence, and the position of the expectation that must come next.
+    misplaced: Option<(usize, usize)>,
+}
+
+impl Claim {
+    /// Verify that the call was made in the correct order
+    pub fn verify_sequence(&self, desc: &str) {
+        if let Some((seq, satisfaction_level)) = self.misplaced {
+            assert_eq!(seq, satisfaction_level,
+                "{desc}: Method sequence violation")
+        }
+    }
+}
+
 #[doc(hidden)]
 impl Times {
     pub fn call(&self) -> Result<(), String> {
@@ -1620,13 +1642,31 @@ impl Times {
         self.count.load(Ordering::Relaxed) >= self.range.0.end - 1
     }
 
-    /// Atomically assign one call to this expectation, unless it has already
-    /// been assigned the maximum allowed number.
-    pub fn reserve(&self) -> bool {
-        !self.is_done() &&
-            self.reserved.fetch_update(Ordering::Relaxed, Ordering::Relaxed,
-                |r| (r < self.maximum()).then_some(r + 1)
-            ).is_ok()
+    /// Count one more call, unless the expectation has already been called the
+    /// maximum allowed number of times.  In that case only count it if `force`.
+    ///
+    /// Also checks the call's position in the Sequence and advances that, so a
+    /// concurrent call which finds this expectation done may immediately call
+    /// the next one in the sequence.
+    pub fn claim(&self, seq_handle: Option<&SeqHandle>, force: bool)
+        -> Option<Claim>
+    {
+        let _guard = self.claiming.lock()
+            .unwrap_or_else(PoisonError::into_inner);
+        if self.is_done() && !force {
+            return None;
+        }
+        let times = self.call();
+        let mut misplaced = None;
+        if let (Ok(()), Some(handle)) = (&times, seq_handle) {
+            misplaced = handle.misplaced();
+            if misplaced.is_none() &&
+                ExpectedCalls::TooFew != self.is_satisfied()
+            {
+                handle.satisfy();
+            }
+        }
+        Some(Claim{times, misplaced})
     }
 
     /// Is it required that this expectation be called an exact number of times,
@@ -1693,27 +1733,20 @@ impl Key {
 
 #[doc(hidden)]
 pub struct SeqHandle {
-    /// How many calls have been verified to be in the correct order?
-    calls: AtomicUsize,
     inner: Arc<SeqInner>,
     seq: usize
 }
 
 impl SeqHandle {
-    /// Record that another call was verified to be in the correct order.
-    /// Returns the total number of such calls.
-    pub fn record_call(&self) -> usize {
-        self.calls.fetch_add(1, Ordering::Relaxed) + 1
-    }
-
     /// Tell the Sequence that this expectation has been fully satisfied
     pub fn satisfy(&self) {
         self.inner.satisfy(self.seq);
     }
 
-    /// Verify that this handle was called in the correct order
-    pub fn verify(&self, desc: &str) {
-        self.inner.verify(self.seq, desc);
+    /// If it isn't this handle's turn, return its position and the position of
+    /// the handle whose turn it is.
+    fn misplaced(&self) -> Option<(usize, usize)> {
+        self.inner.misplaced(self.seq)
     }
 }
 
@@ -1729,10 +1762,10 @@ impl SeqInner {
         assert_eq!(old_sl, seq, "Method sequence violation.  Was an already-satisfied method called another time?");
     }
 
-    /// Verify that the call identified by `seq` was called in the correct order
-    fn verify(&self, seq: usize, desc: &str) {
-        assert_eq!(seq, self.satisfaction_level.load(Ordering::Relaxed),
-            "{desc}: Method sequence violation")
+    /// Check that the call identified by `seq` was called in the correct order
+    fn misplaced(&self, seq: usize) -> Option<(usize, usize)> {
+        let level = self.satisfaction_level.load(Ordering::Relaxed);
+        (seq != level).then_some((seq, level))
     }
 }
 
@@ -1799,11 +1832,7 @@ impl Sequence {
     /// can call it.
     #[doc(hidden)]
     pub fn next_handle(&mut self) -> SeqHandle {
-        let handle = SeqHandle{
-            calls: AtomicUsize::new(0),
-            inner: self.inner.clone(),
-            seq: self.next_seq
-        };
+        let handle = SeqHandle{inner: self.inner.clone(), seq: self.next_seq};
         self.next_seq += 1;
         handle
     }
diff --git a/mockall_derive/src/mock_function.rs b/mockall_derive/src/mock_function.rs
index b661958..d7d77c3 100644
--- a/mockall_derive/src/mock_function.rs
+++ b/mockall_derive/src/mock_function.rs
@@ -951,8 +951,9 @@ impl ToTokens for Common<'_> {
             }
 
             impl #ig Common #tg #wc {
-                fn call(&self, desc: &str) {
-                    self.times.call()
+                fn call(&self, claim: ::mockall::Claim, desc: &str) {
+                    claim.verify_sequence(desc);
+                    claim.times
                         .unwrap_or_else(|m| {
                             let desc = std::format!(
                                 "{}", self.matcher.lock()
@@ -960,8 +961,6 @@ impl ToTokens for Common<'_> {
                             panic!("{}: Expectation({}) {}", #funcname, desc,
                                 m);
                         });
-                    self.verify_sequence(desc);
-                    self.satisfy_sequence();
                 }
 
                 fn in_sequence(&mut self, __mockall_seq: &mut ::mockall::Sequence)
@@ -978,8 +977,8 @@ impl ToTokens for Common<'_> {
                     self
                 }
 
-                fn reserve(&self) -> bool {
-                    self.times.reserve()
+                fn claim(&self, force: bool) -> Option<::mockall::Claim> {
+                    self.times.claim(self.seq_handle.as_ref(), force)
                 }
 
                 #[allow(clippy::ptr_arg)]
@@ -995,17 +994,6 @@ impl ToTokens for Common<'_> {
                     self.times.never();
                 }
 
-                fn satisfy_sequence(&self) {
-                    if let Some(__mockall_handle) = &self.seq_handle {
-                        // Only the last of the expected calls to be verified
-                        // may advance the sequence.  Other threads' calls may
-                        // have been counted, but not verified yet.
-                        if __mockall_handle.record_call() == self.times.minimum() {
-                            __mockall_handle.satisfy()
-                        }
-                    }
-                }
-
                 /// Expect this expectation to be called any number of times
                 /// contained with the given range.
                 fn times<MockallR>(&mut self, __mockall_r: MockallR)
@@ -1037,12 +1025,6 @@ impl ToTokens for Common<'_> {
                              ::mockall::Fragile::new(Box::new(__mockall_f))
                         );
                 }
-
-                fn verify_sequence(&self, desc: &str) {
-                    if let Some(__mockall_handle) = &self.seq_handle {
-                        __mockall_handle.verify(desc)
-                    }
-                }
             }
 
             impl #ig Drop for Common #tg #wc {
@@ -1127,8 +1109,8 @@ impl ToTokens for CommonExpectationMethods<'_> {
                 self
             }
 
-            fn reserve(&self) -> bool {
-                self.common.reserve()
+            fn claim(&self, force: bool) -> Option<::mockall::Claim> {
+                self.common.claim(force)
             }
 
             /// Validate this expectation's matcher.
@@ -2042,10 +2024,11 @@ impl ToTokens for RefExpectation<'_> {
             #[allow(clippy::unused_unit)]
             impl #ig Expectation #tg #wc {
                 /// Call this [`Expectation`] as if it were the real method.
-                #v fn call #lg (&self, #(#argnames: #argty, )*) -> #output
+                #v fn call #lg (&self, __mockall_claim: ::mockall::Claim,
+                    #(#argnames: #argty, )*) -> #output
                 {
                     use ::mockall::{ViaDebug, ViaNothing};
-                    self.common.call(&#desc);
+                    self.common.call(__mockall_claim, &#desc);
                     self.rfunc.call().unwrap_or_else(|m| {
                         let desc = std::format!(
                             "{}", self.common.matcher.lock()
@@ -2108,11 +2091,13 @@ impl ToTokens for RefMutExpectation<'_> {
             #[allow(clippy::unused_unit)]
             impl #ig Expectation #tg #wc {
                 /// Simulating calling the real method for this expectation
-                #v fn call_mut #lg (&mut self, #(#argnames: #argty, )*)
+                #v fn call_mut #lg (&mut self,
+                    __mockall_claim: ::mockall::Claim,
+                    #(#argnames: #argty, )*)
                     -> &mut #owned_output
                 {
                     use ::mockall::{ViaDebug, ViaNothing};
-                    self.common.call(&#desc);
+                    self.common.call(__mockall_claim, &#desc);
                     let desc = std::format!(
                         "{}", self.common.matcher.lock()
                             .unwrap_or_else(::std::sync::PoisonError::into_inner));
@@ -2200,10 +2185,11 @@ impl ToTokens for StaticExpectation<'_> {
             impl #ig Expectation #tg #wc {
                 /// Call this [`Expectation`] as if it were the real method.
                 #[doc(hidden)]
-                #v fn call #lg (&self, #(#argnames: #argty, )* ) -> #output
+                #v fn call #lg (&self, __mockall_claim: ::mockall::Claim,
+                    #(#argnames: #argty, )* ) -> #output
                 {
                     use ::mockall::{ViaDebug, ViaNothing};
-                    self.common.call(&#desc);
+                    self.common.call(__mockall_claim, &#desc);
                     self.rfunc.lock()
                         .unwrap_or_else(::std::sync::PoisonError::into_inner)
                         .call_mut(#(#argnames, )*)
@@ -2376,11 +2362,16 @@ impl ToTokens for RefExpectations<'_> {
                     -> Option<#output>
                 {
                     self.0.iter()
-                        .find(|__mockall_e|
-                              __mockall_e.matches(#(#predexprs, )*) &&
-                              (__mockall_e.reserve() || self.0.len() == 1))
-                        .map(move |__mockall_e|
-                             __mockall_e.call(#(#argnames),*)
+                        .find_map(|__mockall_e| {
+                            if __mockall_e.matches(#(#predexprs, )*) {
+                                __mockall_e.claim(self.0.len() == 1)
+                                    .map(|__mockall_c| (__mockall_e, __mockall_c))
+                            } else {
+                                None
+                            }
+                        })
+                        .map(move |(__mockall_e, __mockall_c)|
+                             __mockall_e.call(__mockall_c, #(#argnames),*)
                         )
                 }
 
@@ -2415,11 +2406,16 @@ impl ToTokens for RefMutExpectations<'_> {
                 {
                     let __mockall_n = self.0.len();
                     self.0.iter_mut()
-                        .find(|__mockall_e|
-                              __mockall_e.matches(#(#predexprs, )*) &&
-                              (__mockall_e.reserve() || __mockall_n == 1))
-                        .map(move |__mockall_e|
-                             __mockall_e.call_mut(#(#argnames, )*)
+                        .find_map(|__mockall_e| {
+                            if __mockall_e.matches(#(#predexprs, )*) {
+                                __mockall_e.claim(__mockall_n == 1)
+                                    .map(|__mockall_c| (__mockall_e, __mockall_c))
+                            } else {
+                                None
+                            }
+                        })
+                        .map(move |(__mockall_e, __mockall_c)|
+                             __mockall_e.call_mut(__mockall_c, #(#argnames, )*)
                         )
                 }
 
@@ -2453,11 +2449,16 @@ impl ToTokens for StaticExpectations<'_> {
                     -> Option<#output>
                 {
                     self.0.iter()
-                        .find(|__mockall_e|
-                              __mockall_e.matches(#(#predexprs, )*) &&
-                              (__mockall_e.reserve() || self.0.len() == 1))
-                        .map(move |__mockall_e|
-                             __mockall_e.call(#(#argnames, )*)
+                        .find_map(|__mockall_e| {
+                            if __mockall_e.matches(#(#predexprs, )*) {
+                                __mockall_e.claim(self.0.len() == 1)
+                                    .map(|__mockall_c| (__mockall_e, __mockall_c))
+                            } else {
+                                None
+                            }
+                        })
+                        .map(move |(__mockall_e, __mockall_c)|
+                             __mockall_e.call(__mockall_c, #(#argnames, )*)
                         )
                 }
 
-- 
2.43.0


From 978a4cac78ead0de5d23b53d097147a31ee10f57 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:28:56 +0000
Subject: [PATCH 08/30] fix: drop every generic expectation even if
 verification fails

If one of a HashMap's elements panics during drop, the HashMap leaks the
others.  A Vec doesn't.
---
 mockall_derive/src/mock_function.rs | 13 ++++++++++---
 1 file changed, 10 insertions(+), 3 deletions(-)

diff --git a/mockall_derive/src/mock_function.rs b/mockall_derive/src/mock_function.rs
index d7d77c3..6024ef6 100644
--- a/mockall_derive/src/mock_function.rs
+++ b/mockall_derive/src/mock_function.rs
@@ -2496,16 +2496,23 @@ impl ToTokens for GenericExpectations<'_> {
                 /// Verify that all current expectations are satisfied and clear
                 /// them.  This applies to all sets of generic parameters!
                 #v fn checkpoint(&mut self) ->
-                    std::collections::hash_map::Drain<::mockall::Key,
-                               Box<dyn ::mockall::AnyExpectations>>
+                    std::vec::IntoIter<(::mockall::Key,
+                               Box<dyn ::mockall::AnyExpectations>)>
                 {
-                    self.store.drain()
+                    // Unlike a HashMap or its Drain, a Vec still drops the
+                    // other elements if dropping one of them panics.
+                    self.store.drain().collect::<Vec<_>>().into_iter()
                 }
 
                 #v fn new() -> Self {
                     Self::default()
                 }
             }
+            impl Drop for GenericExpectations {
+                fn drop(&mut self) {
+                    self.checkpoint();
+                }
+            }
             #ge
         ).to_tokens(tokens);
     }
-- 
2.43.0


From 64bf3a3fb44c769d2154d82fbd30d9085d50601b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:36:44 +0000
Subject: [PATCH 09/30] fix: don't let generated local variables shadow method
 arguments

Methods with an argument named "no_match_msg", and those that return
mutable references and have an argument named "desc", couldn't be mocked.
---
 mockall_derive/src/mock_function.rs | 14 +++++++-------
 1 file changed, 7 insertions(+), 7 deletions(-)

diff --git a/mockall_derive/src/mock_function.rs b/mockall_derive/src/mock_function.rs
index 6024ef6..2a14d7e 100644
--- a/mockall_derive/src/mock_function.rs
+++ b/mockall_derive/src/mock_function.rs
@@ -545,7 +545,7 @@ impl MockFunction {
                 #no_mangle
                 #vis #sig {
                     use ::mockall::{ViaDebug, ViaNothing};
-                    let no_match_msg = #no_match_msg;
+                    let __mockall_no_match_msg = #no_match_msg;
                     #deref {
                         let __mockall_guard = #outer_mod_path::get_expectations()
                             .lock()
@@ -554,7 +554,7 @@ impl MockFunction {
                             // expectations.
                             .unwrap_or_else(::std::sync::PoisonError::into_inner);
                         __mockall_guard.#call #tbf(#(#call_exprs,)*)
-                    }.expect(&no_match_msg)
+                    }.expect(&__mockall_no_match_msg)
                 }
             )
         } else {
@@ -565,9 +565,9 @@ impl MockFunction {
                 #no_mangle
                 #vis #sig {
                     use ::mockall::{ViaDebug, ViaNothing};
-                    let no_match_msg = #no_match_msg;
+                    let __mockall_no_match_msg = #no_match_msg;
                     #deref self.#substruct_obj #name.#call #tbf(#(#call_exprs,)*)
-                    .expect(&no_match_msg)
+                    .expect(&__mockall_no_match_msg)
                 }
 
             )
@@ -2098,12 +2098,12 @@ impl ToTokens for RefMutExpectation<'_> {
                 {
                     use ::mockall::{ViaDebug, ViaNothing};
                     self.common.call(__mockall_claim, &#desc);
-                    let desc = std::format!(
+                    let __mockall_desc = std::format!(
                         "{}", self.common.matcher.lock()
                             .unwrap_or_else(::std::sync::PoisonError::into_inner));
                     self.rfunc.call_mut(#(#argnames, )*).unwrap_or_else(|m| {
-                            panic!("{}: Expectation({}) {}", #funcname, desc,
-                                   m);
+                            panic!("{}: Expectation({}) {}", #funcname,
+                                   __mockall_desc, m);
                     })
                 }
 
-- 
2.43.0


From 586f363aec99bb0138fb9718177f8735a669ebf5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:06:13 +0000
Subject: [PATCH 10/30] fix: don't abort if single-threaded closures drop on
 the wrong thread in a panic

If a mock holding closures set by withf_st, returning_st, etc, drops on a
different thread, then Fragile's destructor panics.  But if that thread
is already panicking, or if the mock holds more than one such closure,
then the second panic aborts the whole process.  Leak the closure instead.
---
 mockall/src/lib.rs | 39 +++++++++++++++++++++++++++++++++++++--
 1 file changed, 37 insertions(+), 2 deletions(-)

diff --git a/mockall/src/lib.rs b/mockall/src/lib.rs
index 123d900..35390dd 100644
--- a/mockall/src/lib.rs
+++ b/mockall/src/lib.rs
@@ -1149,6 +1149,7 @@ use std::{
     any,
     fmt::Debug,
     marker::PhantomData,
+    mem,
     ops::{Range, RangeFrom, RangeFull, RangeInclusive, RangeTo,
           RangeToInclusive},
     sync::{
@@ -1157,12 +1158,11 @@ use std::{
         Mutex,
         PoisonError
     },
+    thread,
 };
 
 #[doc(hidden)]
 pub use downcast::{Any, Downcast};
-#[doc(hidden)]
-pub use fragile::Fragile;
 
 pub use predicates::{
     boolean::PredicateBooleanExt,
@@ -1432,6 +1432,41 @@ pub use mockall_derive::mock;
 pub trait AnyExpectations : Any + Send + Sync {}
 downcast!(dyn AnyExpectations);
 
+/// Like [`fragile::Fragile`], but leaks its contents rather than panic if it
+/// gets dropped on the wrong thread while that thread is already panicking.
+/// Panicking again would abort the entire process.
+#[doc(hidden)]
+pub struct Fragile<T>(Option<fragile::Fragile<T>>);
+
+impl<T> Fragile<T> {
+    pub fn new(t: T) -> Self {
+        Self(Some(fragile::Fragile::new(t)))
+    }
+
+    pub fn get(&self) -> &T {
+        self.0.as_ref().unwrap().get()
+    }
+
+    pub fn get_mut(&mut self) -> &mut T {
+        self.0.as_mut().unwrap().get_mut()
+    }
+
+    pub fn into_inner(mut self) -> T {
+        let _ = self.get();     // Panic now if this is the wrong thread
+        self.0.take().unwrap().into_inner()
+    }
+}
+
+impl<T> Drop for Fragile<T> {
+    fn drop(&mut self) {
+        if thread::panicking() {
+            if let Some(f) = self.0.take().filter(|f| !f.is_valid()) {
+                mem::forget(f);
+            }
+        }
+    }
+}
+
 #[doc(hidden)]
 pub trait ReturnDefault<O> {
     fn maybe_return_default() -> Option<O>;
-- 
2.43.0


From 6f46d20d23ee4dddcb17a8fe253200caff53700b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:42:15 +0000
Subject: [PATCH 11/30] fix: name the module of a function whose call count was
 violated

Unlike every other message, the ones about call counts of a mocked module's
or foreign function only gave the function's name, which does not identify it
when several modules have functions of the same name.
---
 mockall_derive/src/mock_function.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/mockall_derive/src/mock_function.rs b/mockall_derive/src/mock_function.rs
index 2a14d7e..3d28efc 100644
--- a/mockall_derive/src/mock_function.rs
+++ b/mockall_derive/src/mock_function.rs
@@ -763,7 +763,7 @@ impl MockFunction {
         if let Some(si) = &self.struct_ {
             format!("{}::{}", si, self.name())
         } else {
-            format!("{}", self.name())
+            format!("{}::{}", self.mod_ident, self.name())
         }
     }
 
-- 
2.43.0


From 9e4be3e70e2241b4d63b9d40f5f78945715ec14a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:53:37 +0000
Subject: [PATCH 12/30] fix: don't export mocked methods under unmangled names

Methods with an ABI like extern "C" were #[no_mangle], so that two mocks in
one crate with methods of the same name would fail to compile.
---
 mockall_derive/src/mock_function.rs | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/mockall_derive/src/mock_function.rs b/mockall_derive/src/mock_function.rs
index 3d28efc..2e1b7ce 100644
--- a/mockall_derive/src/mock_function.rs
+++ b/mockall_derive/src/mock_function.rs
@@ -503,7 +503,9 @@ impl MockFunction {
         };
         // Add #[no_mangle] attribute to preserve the function name
         // as-is, without mangling, for compatibility with C functions.
-        let no_mangle = if let Some(ref abi) = self.sig.abi {
+        // Methods aren't linked to by name; two of them may share a name.
+        let abi = if self.struct_.is_none() { &self.sig.abi } else { &None };
+        let no_mangle = if let Some(ref abi) = abi {
             if let Some(ref name) = abi.name {
                 if name.value().ne("Rust") {
                     quote!(#[no_mangle])
-- 
2.43.0


From d5ba9ebf263ac8792dab81d85dbc33a711ed3d5b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:54:05 +0000
Subject: [PATCH 13/30] fix: allow panics in mocks of all kinds of foreign
 functions

Only extern "C" blocks were mocked with an ABI that permits unwinding.  A
failing expectation in a mock from an extern block without a name, or with
another C-like ABI, aborted the process.
---
 mockall_derive/src/mock_item.rs | 35 ++++++++++++++++++++-------------
 1 file changed, 21 insertions(+), 14 deletions(-)

diff --git a/mockall_derive/src/mock_item.rs b/mockall_derive/src/mock_item.rs
index f31f7a5..e743eb8 100644
--- a/mockall_derive/src/mock_item.rs
+++ b/mockall_derive/src/mock_item.rs
@@ -54,6 +54,12 @@ pub(crate) struct MockItemModule {
     content: Vec<MockItemContent>
 }
 
+/// Is there a variant of this ABI that permits unwinding?
+fn has_unwind_abi(abi: &str) -> bool {
+    matches!(abi, "C" | "system" | "cdecl" | "stdcall" | "fastcall" | "thiscall"
+             | "vectorcall" | "aapcs" | "win64" | "sysv64")
+}
+
 impl From<MockableModule> for MockItemModule {
     fn from(mod_: MockableModule) -> MockItemModule {
         let mock_ident = mod_.mock_ident.clone();
@@ -97,21 +103,22 @@ impl From<MockableModule> for MockItemModule {
                             // for proper function linkage with external code.
                             //
                             // BUT, use C-unwind instead of C, so we can panic
-                            // from the mock function (rust-lang/rust #74990)
-                            let needs_c_unwind = if let Some(n) = &ifm.abi.name
-                            {
-                                n.value() == "C"
-                            } else {
-                                false
-                            };
-                            f.sig.abi = Some(if needs_c_unwind {
-                                Abi {
-                                    extern_token:ifm.abi.extern_token,
-                                    name: Some(LitStr::new("C-unwind",
-                                                           ifm.abi.name.span()))
+                            // from the mock function (rust-lang/rust #74990).
+                            // Likewise for other ABIs.  No name means C.
+                            f.sig.abi = Some(match &ifm.abi.name {
+                                Some(n) if !has_unwind_abi(&n.value()) =>
+                                    ifm.abi.clone(),
+                                name => {
+                                    let (base, span) = name.as_ref()
+                                        .map(|n| (n.value(), n.span()))
+                                        .unwrap_or((String::from("C"),
+                                            ifm.abi.extern_token.span));
+                                    let abi = format!("{base}-unwind");
+                                    Abi {
+                                        extern_token: ifm.abi.extern_token,
+                                        name: Some(LitStr::new(&abi, span))
+                                    }
                                 }
-                            } else {
-                                ifm.abi.clone()
                             });
 
                             let mf = mock_function::Builder::new(&f.sig, &f.vis)
-- 
2.43.0


From ab67be051c2ef4270394948e06023f6e1f764b41 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:01:14 +0000
Subject: [PATCH 14/30] fix: no naming-style warnings from mocks of foreign
 functions

rustc does not complain about the names of foreign functions, so neither should
it complain about the names derived from them.
---
 mockall_derive/src/mock_item.rs | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/mockall_derive/src/mock_item.rs b/mockall_derive/src/mock_item.rs
index e743eb8..7ba5cc4 100644
--- a/mockall_derive/src/mock_item.rs
+++ b/mockall_derive/src/mock_item.rs
@@ -99,6 +99,11 @@ impl From<MockableModule> for MockItemModule {
                             // prevent "warning: unused unsafe" messages.
                             f.sig.unsafety = Some(Token![unsafe](f.span()));
 
+                            // Foreign functions may have names of any style
+                            f.attrs.push(
+                                parse_quote!(#[allow(non_snake_case)])
+                            );
+
                             // Set the ABI to match the ForeignMod's ABI
                             // for proper function linkage with external code.
                             //
-- 
2.43.0


From 961944f2d836dcd13f915d09bbc62f3b582a85bd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:35:19 +0000
Subject: [PATCH 15/30] fix: allow raw identifiers as names of trait object
 arguments

---
 mockall_derive/src/mockable_struct.rs | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/mockall_derive/src/mockable_struct.rs b/mockall_derive/src/mockable_struct.rs
index 108923c..19fab7b 100644
--- a/mockall_derive/src/mockable_struct.rs
+++ b/mockall_derive/src/mockable_struct.rs
@@ -3,6 +3,7 @@ use proc_macro2::{Span, TokenStream};
 use quote::{format_ident, quote};
 use syn::{
     *,
+    ext::IdentExt,
     parse::{Parse, ParseStream},
     spanned::Spanned
 };
@@ -54,7 +55,7 @@ fn add_lifetime_parameters(sig: &mut Signature) {
                     format_ident!("dont_care")
                 }
             };
-            let s = format!("'__mockall_{arg_ident}");
+            let s = format!("'__mockall_{}", arg_ident.unraw());
             let span = Span::call_site();
             let lt = Lifetime::new(&s, span);
             to.bounds.push(TypeParamBound::Lifetime(lt.clone()));
-- 
2.43.0


From ca3eb9de45c9e9d758e46d06cd957a425ebe589f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:35:19 +0000
Subject: [PATCH 16/30] fix: mutable-reference-returning methods with lifetimes
 in their arguments

---
 mockall_derive/src/mock_function.rs | 10 ++++++----
 1 file changed, 6 insertions(+), 4 deletions(-)

diff --git a/mockall_derive/src/mock_function.rs b/mockall_derive/src/mock_function.rs
index 2e1b7ce..a11fe06 100644
--- a/mockall_derive/src/mock_function.rs
+++ b/mockall_derive/src/mock_function.rs
@@ -1822,6 +1822,7 @@ impl ToTokens for RefMutRfunc<'_> {
         let argnames = &self.f.argnames;
         let argty = &self.f.argty;
         let fn_params = &self.f.fn_params;
+        let hrtb = self.f.hrtb();
         let (ig, tg, wc) = self.f.egenerics.split_for_impl();
         let lg = lifetimes_to_generics(&self.f.alifetimes);
         let owned_output = &self.f.owned_output;
@@ -1838,11 +1839,11 @@ impl ToTokens for RefMutRfunc<'_> {
             #[allow(clippy::unused_unit)]
             enum Rfunc #ig #wc {
                 Default(Option<#owned_output>),
-                Mut((Box<dyn FnMut(#(#argty, )*) -> #owned_output + Send + Sync>),
+                Mut((Box<dyn #hrtb FnMut(#(#argty, )*) -> #owned_output + Send + Sync>),
                     Option<#owned_output>),
                 // Version of Rfunc::Mut for closures that aren't Send
                 MutSt((::mockall::Fragile<
-                           Box<dyn FnMut(#(#argty, )*) -> #owned_output >>
+                           Box<dyn #hrtb FnMut(#(#argty, )*) -> #owned_output >>
                        ), Option<#owned_output>
                 ),
                 Var(#owned_output),
@@ -2076,6 +2077,7 @@ impl ToTokens for RefMutExpectation<'_> {
         let argty = &self.f.argty;
         let desc = self.f.desc();
         let funcname = self.f.funcname();
+        let hrtb = self.f.hrtb();
         let (ig, tg, wc) = self.f.egenerics.split_for_impl();
         let (_, common_tg, _) = self.f.cgenerics.split_for_impl();
         let lg = lifetimes_to_generics(&self.f.alifetimes);
@@ -2123,7 +2125,7 @@ impl ToTokens for RefMutExpectation<'_> {
                 /// reference.
                 #v fn returning<MockallF>(&mut self, __mockall_f: MockallF)
                     -> &mut Self
-                    where MockallF: FnMut(#(#argty, )*) -> #owned_output + Send + Sync + 'static
+                    where MockallF: #hrtb FnMut(#(#argty, )*) -> #owned_output + Send + Sync + 'static
                 {
                     self.rfunc = Rfunc::Mut(Box::new(__mockall_f), None);
                     self
@@ -2133,7 +2135,7 @@ impl ToTokens for RefMutExpectation<'_> {
                 /// Can be used when the argument or return type isn't `Send`.
                 #v fn returning_st<MockallF>(&mut self, __mockall_f: MockallF)
                     -> &mut Self
-                    where MockallF: FnMut(#(#argty, )*) -> #owned_output + 'static
+                    where MockallF: #hrtb FnMut(#(#argty, )*) -> #owned_output + 'static
                 {
                     self.rfunc = Rfunc::MutSt(
                         ::mockall::Fragile::new(Box::new(__mockall_f)), None);
-- 
2.43.0


From bd180975915c869ed3efa809fbab47ae66202b1a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:35:19 +0000
Subject: [PATCH 17/30] fix: generic methods with trait object arguments

---
 mockall_derive/src/mock_function.rs | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/mockall_derive/src/mock_function.rs b/mockall_derive/src/mock_function.rs
index a11fe06..b919038 100644
--- a/mockall_derive/src/mock_function.rs
+++ b/mockall_derive/src/mock_function.rs
@@ -2535,6 +2535,11 @@ impl ToTokens for StaticGenericExpectations<'_> {
         let (ig, tg, wc) = self.f.egenerics.split_for_impl();
         let keyid = gen_keyid(&self.f.egenerics);
         let mut any_wc = wc.cloned();
+        // The call method also needs the lifetimes of the arguments' types
+        let mut call_generics = self.f.egenerics.clone();
+        call_generics.params.extend(
+            lifetimes_to_generic_params(&self.f.alifetimes));
+        let (call_ig, _, _) = call_generics.split_for_impl();
         if self.f.return_ref || self.f.return_refmut {
             // Add Senc + Sync, required for downcast, since Expectation
             // stores an Option<#owned_output>
@@ -2558,7 +2563,7 @@ impl ToTokens for StaticGenericExpectations<'_> {
             impl #ig ::mockall::AnyExpectations for Expectations #tg #any_wc {}
             impl GenericExpectations {
                 /// Simulating calling the real method.
-                #v fn #call #ig (#self_, #(#argnames: #argty, )* )
+                #v fn #call #call_ig (#self_, #(#argnames: #argty, )* )
                     -> Option<#output> #wc
                 {
                     self.store.#get(&::mockall::Key::new::#keyid())
-- 
2.43.0


From 71040a221078502378e6376607187cd3fc2c6621 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:38:39 +0000
Subject: [PATCH 18/30] fix: no naming warning from methods whose names start
 with an underscore

---
 mockall_derive/src/mock_function.rs | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/mockall_derive/src/mock_function.rs b/mockall_derive/src/mock_function.rs
index b919038..0a6cc8e 100644
--- a/mockall_derive/src/mock_function.rs
+++ b/mockall_derive/src/mock_function.rs
@@ -694,6 +694,8 @@ impl MockFunction {
         quote!(
             #must_use
             #[doc = #docstr]
+            // A leading underscore in the name would give expect__foo
+            #[allow(non_snake_case)]
             #(#attrs)*
             #vis fn #expect_ident #ig(&mut self)
                -> &mut #modname::#expectation_obj
-- 
2.43.0


From 5cad725375d9fcead18d7718e8bb26b7fc3131d5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:41:13 +0000
Subject: [PATCH 19/30] fix: mock methods whose argument types are macro
 fragments or parenthesized

---
 mockall_derive/src/mockable_struct.rs | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/mockall_derive/src/mockable_struct.rs b/mockall_derive/src/mockable_struct.rs
index 19fab7b..d8dd452 100644
--- a/mockall_derive/src/mockable_struct.rs
+++ b/mockall_derive/src/mockable_struct.rs
@@ -70,7 +70,9 @@ fn add_lifetime_parameters(sig: &mut Signature) {
         match ty {
             Type::Array(ta) => add_to_type(generics, var, ta.elem.as_mut()),
             Type::BareFn(_) => (),
+            Type::Group(tg) => add_to_type(generics, var, tg.elem.as_mut()),
             Type::ImplTrait(_) => (),
+            Type::Paren(tp) => add_to_type(generics, var, tp.elem.as_mut()),
             Type::Path(_) => (),
             Type::Ptr(_) => (),
             Type::Reference(tr) => {
-- 
2.43.0


From c2d9090f6a2ea700ff363b625b9ca6caaddbe0e2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:41:14 +0000
Subject: [PATCH 20/30] fix: function pointer arguments along with generics or
 trait objects

---
 mockall_derive/src/lib.rs | 10 ++++++++++
 1 file changed, 10 insertions(+)

diff --git a/mockall_derive/src/lib.rs b/mockall_derive/src/lib.rs
index 77f7cbc..68c2dbf 100644
--- a/mockall_derive/src/lib.rs
+++ b/mockall_derive/src/lib.rs
@@ -723,6 +723,16 @@ fn find_lifetimes_in_path(path: &Path) -> HashSet<Lifetime> {
 fn find_lifetimes(ty: &Type) -> HashSet<Lifetime> {
     match ty {
         Type::Array(ta) => find_lifetimes(ta.elem.as_ref()),
+        Type::BareFn(tbf) => {
+            let mut ret = HashSet::default();
+            for input in tbf.inputs.iter() {
+                ret.extend(find_lifetimes(&input.ty));
+            }
+            if let ReturnType::Type(_, ty) = &tbf.output {
+                ret.extend(find_lifetimes(ty));
+            }
+            ret
+        },
         Type::Group(tg) => find_lifetimes(tg.elem.as_ref()),
         Type::Infer(_ti) => HashSet::default(),
         Type::Never(_tn) => HashSet::default(),
-- 
2.43.0


From 29bbc4e51894827eb2d0ad21d8e9a33a45e18642 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:41:44 +0000
Subject: [PATCH 21/30] fix: module functions with trait object arguments

---
 mockall_derive/src/lib.rs             | 2 +-
 mockall_derive/src/mockable_item.rs   | 1 +
 mockall_derive/src/mockable_struct.rs | 2 +-
 3 files changed, 3 insertions(+), 2 deletions(-)

diff --git a/mockall_derive/src/lib.rs b/mockall_derive/src/lib.rs
index 68c2dbf..e571f04 100644
--- a/mockall_derive/src/lib.rs
+++ b/mockall_derive/src/lib.rs
@@ -32,7 +32,7 @@ mod mock_trait;
 mod mockable_item;
 mod mockable_struct;
 use crate::automock::Attrs;
-use crate::mockable_struct::MockableStruct;
+use crate::mockable_struct::{MockableStruct, add_lifetime_parameters};
 use crate::mock_item::MockItem;
 use crate::mock_item_struct::MockItemStruct;
 use crate::mockable_item::MockableItem;
diff --git a/mockall_derive/src/mockable_item.rs b/mockall_derive/src/mockable_item.rs
index 6e15a95..bea7195 100644
--- a/mockall_derive/src/mockable_item.rs
+++ b/mockall_derive/src/mockable_item.rs
@@ -4,6 +4,7 @@ use super::*;
 /// Performs transformations on a function to make it mockable
 fn mockable_fn(mut item_fn: ItemFn) -> ItemFn {
     demutify(&mut item_fn.sig.inputs);
+    add_lifetime_parameters(&mut item_fn.sig);
     deimplify(&mut item_fn.sig.output);
     item_fn
 }
diff --git a/mockall_derive/src/mockable_struct.rs b/mockall_derive/src/mockable_struct.rs
index d8dd452..c274132 100644
--- a/mockall_derive/src/mockable_struct.rs
+++ b/mockall_derive/src/mockable_struct.rs
@@ -23,7 +23,7 @@ use crate::{
 };
 
 /// Make any implicit lifetime parameters explicit
-fn add_lifetime_parameters(sig: &mut Signature) {
+pub(crate) fn add_lifetime_parameters(sig: &mut Signature) {
     fn add_to_trait_object(generics: &mut Generics, var: &Pat, to: &mut TypeTraitObject) {
         let mut has_lifetime = false;
         for bound in to.bounds.iter() {
-- 
2.43.0


From 16e70921b1d510bd735b1d87a5cf2621352da811 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:44:45 +0000
Subject: [PATCH 22/30] fix: no useless #[must_use] on implementations of trait
 methods

Newer compilers warn about it in the user's crate
---
 mockall_derive/src/mock_function.rs | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/mockall_derive/src/mock_function.rs b/mockall_derive/src/mock_function.rs
index 0a6cc8e..a052500 100644
--- a/mockall_derive/src/mock_function.rs
+++ b/mockall_derive/src/mock_function.rs
@@ -472,8 +472,10 @@ impl MockFunction {
     // Supplying modname is an unfortunately hack.  Ideally MockFunction
     // wouldn't need to know that.
     pub fn call(&self, modname: Option<&Ident>) -> impl ToTokens {
+        // #[must_use] belongs to the trait's method, and has no effect on its
+        // implementations
         let attrs = AttrFormatter::new(&self.attrs)
-            .must_use(true)
+            .must_use(self.trait_.is_none())
             .format();
         let call_exprs = &self.call_exprs;
         let (_, tg, _) = if self.is_method_generic() || self.is_static() {
-- 
2.43.0


From f9f22108c35a81c6a8af7b475d67771f786ee09f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:19:30 +0000
Subject: [PATCH 23/30] fix: #[double] of use groups that contain self

`use foo::{self, Bar}` became `use foo::{mock_self as self, ...}`, which
never compiles.
---
 mockall_double/src/lib.rs | 39 +++++++++++++++++++++++++++++++++++++++
 1 file changed, 39 insertions(+)

diff --git a/mockall_double/src/lib.rs b/mockall_double/src/lib.rs
index 464c949..50f44a8 100644
--- a/mockall_double/src/lib.rs
+++ b/mockall_double/src/lib.rs
@@ -16,6 +16,7 @@ use proc_macro2::{Span, TokenStream};
 use quote::{format_ident, quote};
 use syn::{
     *,
+    punctuated::Punctuated,
     spanned::Spanned
 };
 
@@ -194,6 +195,30 @@ fn mock_ident(i: &Ident) -> Ident {
     }
 }
 
+/// Remove every "self" from the group at the end of the path, if there is one,
+/// and return the equivalent imports of the mock module.
+fn take_selves(up: &mut UsePath) -> Punctuated<UseTree, Token![,]> {
+    let mut selves = Punctuated::new();
+    if let UseTree::Group(ug) = up.tree.as_mut() {
+        for ut in std::mem::take(&mut ug.items) {
+            let rename = match &ut {
+                UseTree::Name(un) if un.ident == "self" => up.ident.clone(),
+                UseTree::Rename(ur) if ur.ident == "self" => ur.rename.clone(),
+                _ => {
+                    ug.items.push(ut);
+                    continue;
+                }
+            };
+            selves.push(UseTree::Rename(UseRename {
+                ident: mock_ident(&up.ident),
+                as_token: <Token![as]>::default(),
+                rename
+            }));
+        }
+    }
+    selves
+}
+
 fn mock_usetree(mut orig: &mut UseTree) {
     match &mut orig {
         UseTree::Glob(star) => {
@@ -213,7 +238,21 @@ fn mock_usetree(mut orig: &mut UseTree) {
             });
         },
         UseTree::Path(up) => {
+            let selves = take_selves(up);
             mock_usetree(up.tree.as_mut());
+            if !selves.is_empty() {
+                // Importing "foo::{self, Bar}" is like importing
+                // "{foo, foo::Bar}".
+                let mut items = selves;
+                if !matches!(&*up.tree, UseTree::Group(g) if g.items.is_empty())
+                {
+                    items.push(UseTree::Path(up.clone()));
+                }
+                *orig = UseTree::Group(UseGroup {
+                    brace_token: token::Brace::default(),
+                    items
+                });
+            }
         },
         UseTree::Rename(ur) => {
             ur.ident = mock_ident(&ur.ident)
-- 
2.43.0


From 5e00464c0d1c644b88c4ec7fe11bd5a5e64ce3fe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:47:12 +0000
Subject: [PATCH 24/30] fix: super:: paths in the bounds of a struct's or
 trait's own generics

The private module repeats those bounds, so like those of generic methods
they need extra super:: prefixes there.
---
 mockall_derive/src/mock_function.rs | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/mockall_derive/src/mock_function.rs b/mockall_derive/src/mock_function.rs
index a052500..50fcc83 100644
--- a/mockall_derive/src/mock_function.rs
+++ b/mockall_derive/src/mock_function.rs
@@ -280,8 +280,9 @@ impl<'a> Builder<'a> {
             compile_error(self.sig.span(),
                 "Mockall cannot mock static methods that return non-'static references.  It's unclear what the return value's lifetime should be.");
         }
-        let struct_generics = self.struct_generics.cloned()
+        let mut struct_generics = self.struct_generics.cloned()
             .unwrap_or_default();
+        supersuperfy_generics(&mut struct_generics, self.levels);
         let (type_generics, salifetimes, srlifetimes) = split_lifetimes(
             struct_generics.clone(),
             &declosured_inputs,
-- 
2.43.0


From 574d9888f5a581585fea4f5c0ffbe427ca93030b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:47:31 +0000
Subject: [PATCH 25/30] fix: super:: paths in the bounds of a generic method

Its expect_ method is not in the private module, so it must not get the
extra super:: prefixes that the private module needs.
---
 mockall_derive/src/mock_function.rs | 24 ++++++++++++++++++++----
 1 file changed, 20 insertions(+), 4 deletions(-)

diff --git a/mockall_derive/src/mock_function.rs b/mockall_derive/src/mock_function.rs
index 50fcc83..d0c9250 100644
--- a/mockall_derive/src/mock_function.rs
+++ b/mockall_derive/src/mock_function.rs
@@ -246,7 +246,7 @@ impl<'a> Builder<'a> {
                 is_static = false;
             }
         }
-        let (output, boxed) = match self.sig.output {
+        let convert_output = |levels| match self.sig.output {
             ReturnType::Default => (
                 Type::Tuple(TypeTuple {
                     paren_token: token::Paren::default(),
@@ -255,14 +255,17 @@ impl<'a> Builder<'a> {
                 false,
             ),
             ReturnType::Type(_, ref ty) => {
-                let mut output_ty = supersuperfy(ty, self.levels);
+                let mut output_ty = supersuperfy(ty, levels);
                 destrify(&mut output_ty);
                 let boxed = dedynify(&mut output_ty);
                 (output_ty, boxed)
             }
         };
+        let (output, boxed) = convert_output(self.levels);
+        let expect_generics = declosured_generics.clone();
         supersuperfy_generics(&mut declosured_generics, self.levels);
         let owned_output = ownify(&output);
+        let expect_owned_output = ownify(&convert_output(0).0);
         let mut return_ref = false;
         let mut return_refmut = false;
         if let Type::Reference(ref tr) = &output {
@@ -296,6 +299,12 @@ impl<'a> Builder<'a> {
             &ReturnType::Type(<Token![->]>::default(),
                               Box::new(owned_output.clone()))
         );
+        let (expect_generics, _, _) = split_lifetimes(
+            expect_generics,
+            &declosured_inputs,
+            &ReturnType::Type(<Token![->]>::default(),
+                              Box::new(owned_output.clone()))
+        );
         let mrltg = lifetimes_to_generics(&mrlifetimes);
         let cgenerics = merge_generics(&type_generics, &call_generics);
         let egenerics = merge_generics(
@@ -322,6 +331,8 @@ impl<'a> Builder<'a> {
             call_vis: expectation_visibility(self.vis, call_levels),
             concretize: self.concretize,
             egenerics,
+            expect_generics,
+            expect_owned_output,
             cgenerics,
             fn_params,
             is_static,
@@ -422,6 +433,11 @@ pub(crate) struct MockFunction {
     concretize: bool,
     /// Generics of the Expectation object
     egenerics: Generics,
+    /// Generics of the expect_ method.  Like `call_generics`, but not
+    /// supersuperfied, because that method isn't in the private module.
+    expect_generics: Generics,
+    /// Like `owned_output`, but not supersuperfied.
+    expect_owned_output: Type,
     /// Generics of the Common object
     cgenerics: Generics,
     /// The mock function's generic types as a list of types
@@ -669,12 +685,12 @@ impl MockFunction {
         } else {
             &self.call_generics
         }.split_for_impl();
-        let (ig, _, wc) = self.call_generics.split_for_impl();
+        let (ig, _, wc) = self.expect_generics.split_for_impl();
         let mut wc = wc.cloned();
         if self.is_method_generic() && (self.return_ref || self.return_refmut) {
             // Add Senc + Sync, required for downcast, since Expectation
             // stores an Option<#owned_output>
-            send_syncify(&mut wc, self.owned_output.clone());
+            send_syncify(&mut wc, self.expect_owned_output.clone());
         }
         let tbf = tg.as_turbofish();
         let vis = &self.call_vis;
-- 
2.43.0


From ba56b521e380fc079ec17c1bc8599e7f86df3efc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:19:45 +0000
Subject: [PATCH 26/30] fix: drop of a Context during a panic always clears the
 expectations

If another thread's call panicked after the poison was cleared but before the
mutex was locked, then the expectations were left in place and answered calls
in later tests.
---
 mockall_derive/src/mock_function.rs | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/mockall_derive/src/mock_function.rs b/mockall_derive/src/mock_function.rs
index d0c9250..002f15b 100644
--- a/mockall_derive/src/mock_function.rs
+++ b/mockall_derive/src/mock_function.rs
@@ -1656,9 +1656,13 @@ impl ToTokens for Context<'_> {
                         // Drain all expectations so other tests can run with a
                         // blank slate.  But ignore errors so we don't
                         // double-panic.
+                        // Another thread's call may have panicked since we
+                        // cleared the poison, but we must drain nonetheless.
                         let _ = get_expectations()
                             .lock()
-                            .map(|mut g| g.checkpoint().collect::<Vec<_>>());
+                            .unwrap_or_else(::std::sync::PoisonError::into_inner)
+                            .checkpoint()
+                            .collect::<Vec<_>>();
                     } else {
                         // Verify expectations are satisfied
                         Self::do_checkpoint();
-- 
2.43.0


From 569f07f55c77af53da1e6421b3b88c7d6f7f03c5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:32:25 +0000
Subject: [PATCH 27/30] fix: return types in parentheses and from macro
 fragments

Like "-> &(dyn A + Send)", or "-> &$t" in a macro_rules! macro: the special
treatment of references to str, dyn Trait etc did not see through the
delimiters, so the generated code did not compile.
---
 mockall_derive/src/mock_function.rs | 14 ++++++++++++++
 1 file changed, 14 insertions(+)

diff --git a/mockall_derive/src/mock_function.rs b/mockall_derive/src/mock_function.rs
index 002f15b..b81d295 100644
--- a/mockall_derive/src/mock_function.rs
+++ b/mockall_derive/src/mock_function.rs
@@ -56,6 +56,16 @@ fn dedynify(ty: &mut Type) -> bool {
     false
 }
 
+/// Strip any parentheses, as well as the invisible delimiters around a macro's
+/// fragment, from a type.
+fn ungroup(ty: &mut Type) {
+    while let Type::Group(TypeGroup { elem, .. })
+        | Type::Paren(TypeParen { elem, .. }) = ty
+    {
+        *ty = (**elem).clone();
+    }
+}
+
 /// Convert a special reference type like "&str" into a reference to its owned
 /// type like "&String".
 fn destrify(ty: &mut Type) {
@@ -256,6 +266,10 @@ impl<'a> Builder<'a> {
             ),
             ReturnType::Type(_, ref ty) => {
                 let mut output_ty = supersuperfy(ty, levels);
+                ungroup(&mut output_ty);
+                if let Type::Reference(tr) = &mut output_ty {
+                    ungroup(&mut tr.elem);
+                }
                 destrify(&mut output_ty);
                 let boxed = dedynify(&mut output_ty);
                 (output_ty, boxed)
-- 
2.43.0


From 9fa1673fef833f2e4f416ac4611f7c8d8a47a0af Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:32:25 +0000
Subject: [PATCH 28/30] fix: fully qualified &CStr, &OsStr and &Path return
 types

Such as "-> &std::path::Path": only the bare names were recognized as types
whose expectations must own the value.
---
 mockall_derive/src/mock_function.rs | 30 ++++++++++++++++++-----------
 1 file changed, 19 insertions(+), 11 deletions(-)

diff --git a/mockall_derive/src/mock_function.rs b/mockall_derive/src/mock_function.rs
index b81d295..1cca718 100644
--- a/mockall_derive/src/mock_function.rs
+++ b/mockall_derive/src/mock_function.rs
@@ -66,6 +66,18 @@ fn ungroup(ty: &mut Type) {
     }
 }
 
+/// Does `ty` name this type of the standard library, either by its name alone
+/// or by its full path in one of these modules?
+fn is_std_type(ty: &TypePath, modules: &[&str], name: &str) -> bool {
+    if ty.qself.is_some() {
+        return false;
+    }
+    let path = ty.path.to_token_stream().to_string().replace(' ', "");
+    path == name || modules.iter().any(|module|
+        path.trim_start_matches("::") == format!("{module}::{name}")
+    )
+}
+
 /// Convert a special reference type like "&str" into a reference to its owned
 /// type like "&String".
 fn destrify(ty: &mut Type) {
@@ -79,26 +91,22 @@ fn destrify(ty: &mut Type) {
             }
         }
 
-        let path_ty: TypePath = parse2(quote!(Path)).unwrap();
         let pathbuf_ty: Type = parse2(quote!(::std::path::PathBuf)).unwrap();
-
-        let str_ty: TypePath = parse2(quote!(str)).unwrap();
         let string_ty: Type = parse2(quote!(::std::string::String)).unwrap();
-
-        let cstr_ty: TypePath = parse2(quote!(CStr)).unwrap();
         let cstring_ty: Type = parse2(quote!(::std::ffi::CString)).unwrap();
-
-        let osstr_ty: TypePath = parse2(quote!(OsStr)).unwrap();
         let osstring_ty: Type = parse2(quote!(::std::ffi::OsString)).unwrap();
 
         match tr.elem.as_ref() {
-            Type::Path(ref path) if *path == cstr_ty =>
+            Type::Path(ref path)
+                if is_std_type(path, &["std::ffi", "core::ffi"], "CStr") =>
                 *tr.elem = cstring_ty,
-            Type::Path(ref path) if *path == osstr_ty =>
+            Type::Path(ref path)
+                if is_std_type(path, &["std::ffi"], "OsStr") =>
                 *tr.elem = osstring_ty,
-            Type::Path(ref path) if *path == path_ty =>
+            Type::Path(ref path)
+                if is_std_type(path, &["std::path"], "Path") =>
                 *tr.elem = pathbuf_ty,
-            Type::Path(ref path) if *path == str_ty =>
+            Type::Path(ref path) if is_std_type(path, &[], "str") =>
                 *tr.elem = string_ty,
             Type::Slice(ts) => {
                 let inner = (*ts.elem).clone();
-- 
2.43.0


From eff9f315ea0fd44ec85efc6fdfad73eb5f57dd80 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 06:31:07 +0000
Subject: [PATCH 29/30] fix: replace Self within fn pointers and Fn bounds

Self in the arguments or the result of a function pointer, or of an Fn
trait, was left as it is in the generated expectation types, where it
means another type: such definitions did not compile.
---
 mockall_derive/src/lib.rs | 39 +++++++++++++++++++++++++++------------
 1 file changed, 27 insertions(+), 12 deletions(-)

diff --git a/mockall_derive/src/lib.rs b/mockall_derive/src/lib.rs
index e571f04..b6130af 100644
--- a/mockall_derive/src/lib.rs
+++ b/mockall_derive/src/lib.rs
@@ -573,17 +573,27 @@ fn deselfify_path(path: &mut Path, actual: &Ident, generics: &Generics) {
                     "Type arguments after Self are unexpected");
             }
         }
-        if let PathArguments::AngleBracketed(abga) = &mut seg.arguments
-        {
-            for arg in abga.args.iter_mut() {
-                match arg {
-                    GenericArgument::Type(ty) =>
-                        deselfify(ty, actual, generics),
-                    GenericArgument::AssocType(at) =>
-                        deselfify(&mut at.ty, actual, generics),
-                    _ => /* Nothing to do */(),
+        match &mut seg.arguments {
+            PathArguments::None => (),
+            PathArguments::AngleBracketed(abga) => {
+                for arg in abga.args.iter_mut() {
+                    match arg {
+                        GenericArgument::Type(ty) =>
+                            deselfify(ty, actual, generics),
+                        GenericArgument::AssocType(at) =>
+                            deselfify(&mut at.ty, actual, generics),
+                        _ => /* Nothing to do */(),
+                    }
                 }
-            }
+            },
+            PathArguments::Parenthesized(pga) => {
+                for input in pga.inputs.iter_mut() {
+                    deselfify(input, actual, generics);
+                }
+                if let ReturnType::Type(_, ty) = &mut pga.output {
+                    deselfify(ty.as_mut(), actual, generics);
+                }
+            },
         }
     }
 }
@@ -637,8 +647,13 @@ fn deselfify(literal_type: &mut Type, actual: &Ident, generics: &Generics) {
         Type::ImplTrait(_) => {
             /* Should've already been flagged as a compile_error */
         },
-        Type::BareFn(_) => {
-            /* Bare functions can't have Self arguments.  Nothing to do */
+        Type::BareFn(bfn) => {
+            for input in bfn.inputs.iter_mut() {
+                deselfify(&mut input.ty, actual, generics);
+            }
+            if let ReturnType::Type(_, ty) = &mut bfn.output {
+                deselfify(ty.as_mut(), actual, generics);
+            }
         },
         Type::Infer(_) | Type::Never(_) =>
         {
-- 
2.43.0


From 360285423eeff952f04324957d048073372b0d1c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 06:34:00 +0000
Subject: [PATCH 30/30] fix: methods that return fn pointers with anonymous
 lifetimes

The anonymous lifetimes within a fn pointer are bound by the pointer's own
type.  Replacing them with 'static made the mock method's signature differ
from the trait's.
---
 mockall_derive/src/lib.rs | 10 ++--------
 1 file changed, 2 insertions(+), 8 deletions(-)

diff --git a/mockall_derive/src/lib.rs b/mockall_derive/src/lib.rs
index b6130af..5688423 100644
--- a/mockall_derive/src/lib.rs
+++ b/mockall_derive/src/lib.rs
@@ -271,14 +271,8 @@ fn deanonymize_path(path: &mut Path) {
 fn deanonymize(literal_type: &mut Type) {
     match literal_type {
         Type::Array(ta) => deanonymize(ta.elem.as_mut()),
-        Type::BareFn(tbf) => {
-            if let ReturnType::Type(_, ref mut bt) = tbf.output {
-                deanonymize(bt.as_mut());
-            }
-            for input in tbf.inputs.iter_mut() {
-                deanonymize(&mut input.ty);
-            }
-        },
+        // Its anonymous lifetimes are bound by the function pointer itself
+        Type::BareFn(_) => (),
         Type::Group(tg) => deanonymize(tg.elem.as_mut()),
         Type::Infer(_) => (),
         Type::Never(_) => (),
-- 
2.43.0

