From 527e13fb48dfe22ed0e155c673cdfe37d67a7ea3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:22:34 +0000
Subject: [PATCH 01/15] fix: try_join_all returns an error immediately for
 large collections

---
 futures-util/src/future/try_join_all.rs | 62 ++++++++++++++++++++++---
 1 file changed, 55 insertions(+), 7 deletions(-)

diff --git a/futures-util/src/future/try_join_all.rs b/futures-util/src/future/try_join_all.rs
index a998c38..9b2a00f 100644
--- a/futures-util/src/future/try_join_all.rs
+++ b/futures-util/src/future/try_join_all.rs
@@ -11,10 +11,15 @@ use core::{
     task::{Context, Poll},
 };
 
+#[cfg(target_has_atomic = "ptr")]
+use futures_core::ready;
+#[cfg(target_has_atomic = "ptr")]
+use pin_project_lite::pin_project;
+
 use super::{IntoFuture, TryFuture, TryMaybeDone, assert_future, join_all};
 use crate::TryFutureExt;
 #[cfg(target_has_atomic = "ptr")]
-use crate::stream::{FuturesOrdered, TryCollect, TryStreamExt};
+use crate::stream::{FuturesUnordered, StreamExt};
 
 enum FinalState<E = ()> {
     Pending,
@@ -40,10 +45,32 @@ where
     },
     #[cfg(target_has_atomic = "ptr")]
     Big {
-        fut: TryCollect<FuturesOrdered<IntoFuture<F>>, Vec<F::Ok>>,
+        // Completes in any order, so that an error is seen as soon as it occurs.
+        futs: FuturesUnordered<Indexed<IntoFuture<F>>>,
+        outputs: Box<[Option<F::Ok>]>,
     },
 }
 
+#[cfg(target_has_atomic = "ptr")]
+pin_project! {
+    struct Indexed<F> {
+        index: usize,
+        #[pin]
+        fut: F,
+    }
+}
+
+#[cfg(target_has_atomic = "ptr")]
+impl<F: Future> Future for Indexed<F> {
+    type Output = (usize, F::Output);
+
+    fn poll(self: Pin<&mut Self>, cx: &mut Context<'_>) -> Poll<Self::Output> {
+        let this = self.project();
+        let index = *this.index;
+        this.fut.poll(cx).map(|output| (index, output))
+    }
+}
+
 impl<F> fmt::Debug for TryJoinAll<F>
 where
     F: TryFuture + fmt::Debug,
@@ -57,7 +84,7 @@ where
                 f.debug_struct("TryJoinAll").field("elems", elems).finish()
             }
             #[cfg(target_has_atomic = "ptr")]
-            TryJoinAllKind::Big { ref fut, .. } => fmt::Debug::fmt(fut, f),
+            TryJoinAllKind::Big { ref futs, .. } => fmt::Debug::fmt(futs, f),
         }
     }
 }
@@ -79,9 +106,9 @@ where
 ///
 /// # See Also
 ///
-/// `try_join_all` will switch to the more powerful [`FuturesOrdered`] for performance
+/// `try_join_all` will switch to the more powerful [`FuturesUnordered`] for performance
 /// reasons if the number of futures is large. You may want to look into using it or
-/// it's counterpart [`FuturesUnordered`][crate::stream::FuturesUnordered] directly.
+/// it's counterpart [`FuturesOrdered`][crate::stream::FuturesOrdered] directly.
 ///
 /// Some examples for additional functionality provided by these are:
 ///
@@ -138,7 +165,14 @@ where
             Some(max) if max <= join_all::SMALL => TryJoinAllKind::Small {
                 elems: iter.map(TryMaybeDone::Future).collect::<Box<[_]>>().into(),
             },
-            _ => TryJoinAllKind::Big { fut: iter.collect::<FuturesOrdered<_>>().try_collect() },
+            _ => {
+                let futs = iter
+                    .enumerate()
+                    .map(|(index, fut)| Indexed { index, fut })
+                    .collect::<FuturesUnordered<_>>();
+                let outputs = (0..futs.len()).map(|_| None).collect();
+                TryJoinAllKind::Big { futs, outputs }
+            }
         };
 
         assert_future::<Result<Vec<<I::Item as TryFuture>::Ok>, <I::Item as TryFuture>::Error>, _>(
@@ -185,7 +219,21 @@ where
                 }
             }
             #[cfg(target_has_atomic = "ptr")]
-            TryJoinAllKind::Big { fut } => Pin::new(fut).poll(cx),
+            TryJoinAllKind::Big { futs, outputs } => loop {
+                match ready!(futs.poll_next_unpin(cx)) {
+                    Some((index, Ok(output))) => outputs[index] = Some(output),
+                    Some((_, Err(e))) => {
+                        futs.clear();
+                        *outputs = Box::default();
+                        return Poll::Ready(Err(e));
+                    }
+                    None => {
+                        let outputs = mem::take(outputs).into_vec();
+                        let results = outputs.into_iter().map(|output| output.unwrap()).collect();
+                        return Poll::Ready(Ok(results));
+                    }
+                }
+            },
         }
     }
 }
-- 
2.43.0


From 6eb3be7b16be17b9699b818c82bb75346061ecff Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:24:27 +0000
Subject: [PATCH 02/15] fix: wake waiting clones of a Shared future whose inner
 future panics

---
 futures-util/src/future/future/shared.rs | 19 ++++++++++++++++---
 1 file changed, 16 insertions(+), 3 deletions(-)

diff --git a/futures-util/src/future/future/shared.rs b/futures-util/src/future/future/shared.rs
index 6d1b7c5..f508544 100644
--- a/futures-util/src/future/future/shared.rs
+++ b/futures-util/src/future/future/shared.rs
@@ -313,19 +313,32 @@ where
         let mut cx = Context::from_waker(&waker);
 
         struct Reset<'a> {
-            state: &'a AtomicUsize,
+            notifier: &'a Notifier,
             did_not_panic: bool,
         }
 
         impl Drop for Reset<'_> {
             fn drop(&mut self) {
                 if !self.did_not_panic {
-                    self.state.store(POISONED, SeqCst);
+                    self.notifier.state.store(POISONED, SeqCst);
+
+                    // Tasks that registered while the future was being polled
+                    // have to learn about the panic as well.
+                    #[cfg(feature = "std")]
+                    let wakers = self.notifier.wakers.lock().ok();
+                    #[cfg(not(feature = "std"))]
+                    let wakers = Some(self.notifier.wakers.lock());
+
+                    if let Some(wakers) = wakers.and_then(|mut wakers| wakers.take()) {
+                        for waker in wakers.into_iter().filter_map(|(_key, waker)| waker) {
+                            waker.wake();
+                        }
+                    }
                 }
             }
         }
 
-        let mut reset = Reset { state: &inner.notifier.state, did_not_panic: false };
+        let mut reset = Reset { notifier: &inner.notifier, did_not_panic: false };
 
         let output = {
             let future = unsafe {
-- 
2.43.0


From c89c22e442f3694bf745a59754da387f0bebf42c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:52:37 +0000
Subject: [PATCH 03/15] fix: stream_select! no longer polls a stream again
 after its end

When one stream had ended and another one in the same poll yielded an item,
the ended stream was not removed and was polled again later.
---
 futures-macro/src/stream_select.rs | 10 +++++++---
 1 file changed, 7 insertions(+), 3 deletions(-)

diff --git a/futures-macro/src/stream_select.rs b/futures-macro/src/stream_select.rs
index a5d6498..69d4cda 100644
--- a/futures-macro/src/stream_select.rs
+++ b/futures-macro/src/stream_select.rs
@@ -54,6 +54,7 @@ pub(crate) fn stream_select(input: TokenStream) -> Result<TokenStream, syn::Erro
                         let mut #field_idents_2 = false;
                     )*
                     let mut any_pending = false;
+                    let mut ready_item = None;
                     {
                         let mut stream_array = [#(#field_idents.as_mut().map(|f| StreamEnum::#generic_idents(f)).unwrap_or(StreamEnum::None)),*];
                         __futures_crate::async_await::shuffle(&mut stream_array);
@@ -63,8 +64,9 @@ pub(crate) fn stream_select(input: TokenStream) -> Result<TokenStream, syn::Erro
                                 continue;
                             } else {
                                 match __futures_crate::stream::Stream::poll_next(::std::pin::Pin::new(&mut s), cx) {
-                                    r @ __futures_crate::task::Poll::Ready(Some(_)) => {
-                                        return r;
+                                    __futures_crate::task::Poll::Ready(item @ Some(_)) => {
+                                        ready_item = item;
+                                        break;
                                     },
                                     __futures_crate::task::Poll::Pending => {
                                         any_pending = true;
@@ -86,7 +88,9 @@ pub(crate) fn stream_select(input: TokenStream) -> Result<TokenStream, syn::Erro
                             *#field_idents = None;
                         }
                     )*
-                    if any_pending {
+                    if ready_item.is_some() {
+                        __futures_crate::task::Poll::Ready(ready_item)
+                    } else if any_pending {
                         __futures_crate::task::Poll::Pending
                     } else {
                         __futures_crate::task::Poll::Ready(None)
-- 
2.43.0


From 54475eca50cb1f6b37c8b2f1fa5c1a0167f53496 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:00:08 +0000
Subject: [PATCH 04/15] fix: Zip is terminated as soon as either of its streams
 has ended

---
 futures-util/src/stream/stream/zip.rs | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/futures-util/src/stream/stream/zip.rs b/futures-util/src/stream/stream/zip.rs
index 9f074ee..026c7bf 100644
--- a/futures-util/src/stream/stream/zip.rs
+++ b/futures-util/src/stream/stream/zip.rs
@@ -67,7 +67,9 @@ where
     St2: Stream,
 {
     fn is_terminated(&self) -> bool {
-        self.stream1.is_terminated() && self.stream2.is_terminated()
+        // An item queued from a stream that has since ended can still be paired up.
+        (self.stream1.is_terminated() && self.queued1.is_none())
+            || (self.stream2.is_terminated() && self.queued2.is_none())
     }
 }
 
-- 
2.43.0


From abfdedbbf3dc865429e9a36c2143b9172611cca9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:00:08 +0000
Subject: [PATCH 05/15] fix: TakeUntil is terminated after its end also when
 the future was taken out

---
 futures-util/src/stream/stream/take_until.rs | 1 +
 1 file changed, 1 insertion(+)

diff --git a/futures-util/src/stream/stream/take_until.rs b/futures-util/src/stream/stream/take_until.rs
index 82d18ab..18cf39a 100644
--- a/futures-util/src/stream/stream/take_until.rs
+++ b/futures-util/src/stream/stream/take_until.rs
@@ -134,6 +134,7 @@ where
             // Future either not resolved yet or taken out by the user
             let item = ready!(this.stream.poll_next(cx));
             if item.is_none() {
+                *this.free = false;
                 this.fut.set(None);
             }
             Poll::Ready(item)
-- 
2.43.0


From c74179cfbfc83be98696bd6309390fcbde884316 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:00:21 +0000
Subject: [PATCH 06/15] fix: Scan::size_hint counts the item in flight and has
 no lower bound

---
 futures-util/src/stream/stream/scan.rs | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/futures-util/src/stream/stream/scan.rs b/futures-util/src/stream/stream/scan.rs
index b3623b7..f084042 100644
--- a/futures-util/src/stream/stream/scan.rs
+++ b/futures-util/src/stream/stream/scan.rs
@@ -100,7 +100,13 @@ where
         if self.is_done_taking() {
             (0, Some(0))
         } else {
-            self.stream.size_hint() // can't know a lower bound, due to the predicate
+            let pending_len = usize::from(self.state.is_future());
+            let (_, upper) = self.stream.size_hint();
+            let upper = match upper {
+                Some(x) => x.checked_add(pending_len),
+                None => None,
+            };
+            (0, upper) // can't know a lower bound, due to the predicate
         }
     }
 }
-- 
2.43.0


From 4ec1bc685db770ceda782afbb8c4308ca092cf8b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:00:21 +0000
Subject: [PATCH 07/15] fix: PollImmediate::size_hint has no upper bound before
 the end

---
 futures-util/src/stream/poll_immediate.rs | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/futures-util/src/stream/poll_immediate.rs b/futures-util/src/stream/poll_immediate.rs
index e153b81..f761d74 100644
--- a/futures-util/src/stream/poll_immediate.rs
+++ b/futures-util/src/stream/poll_immediate.rs
@@ -43,7 +43,11 @@ where
     }
 
     fn size_hint(&self) -> (usize, Option<usize>) {
-        self.stream.as_ref().map_or((0, Some(0)), Stream::size_hint)
+        match &self.stream {
+            // every pending poll of the inner stream is an item too
+            Some(stream) => (stream.size_hint().0, None),
+            None => (0, Some(0)),
+        }
     }
 }
 
-- 
2.43.0


From 403d4c60acebdc98d7fd6a167a35cbe7b8934116 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:00:21 +0000
Subject: [PATCH 08/15] fix: stream_select! size_hint no longer overflows

---
 futures-macro/src/stream_select.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/futures-macro/src/stream_select.rs b/futures-macro/src/stream_select.rs
index 69d4cda..31f0839 100644
--- a/futures-macro/src/stream_select.rs
+++ b/futures-macro/src/stream_select.rs
@@ -101,9 +101,9 @@ pub(crate) fn stream_select(input: TokenStream) -> Result<TokenStream, syn::Erro
                     let mut s = (0, Some(0));
                     #(
                         if let Some(new_hint) = self.#field_indices.as_ref().map(|s| s.size_hint()) {
-                            s.0 += new_hint.0;
+                            s.0 = usize::saturating_add(s.0, new_hint.0);
                             // We can change this out for `.zip` when the MSRV is 1.46.0 or higher.
-                            s.1 = s.1.and_then(|a| new_hint.1.map(|b| a + b));
+                            s.1 = s.1.and_then(|a| new_hint.1.and_then(|b| usize::checked_add(a, b)));
                         }
                     )*
                     s
-- 
2.43.0


From 8cf15c2fde57e16b7a319e982c8f71542a848351 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:38:06 +0000
Subject: [PATCH 09/15] fix: TrySkipWhile and TryTakeWhile release the item
 whose predicate failed

When the predicate future resolved to an error, the item under test was left
in pending_item: is_terminated() stayed false for ever after the end of the
stream, the size hint stayed one too high and the item was kept alive.
---
 futures-util/src/stream/try_stream/try_skip_while.rs | 2 +-
 futures-util/src/stream/try_stream/try_take_while.rs | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/futures-util/src/stream/try_stream/try_skip_while.rs b/futures-util/src/stream/try_stream/try_skip_while.rs
index 2eea2e7..f9a059f 100644
--- a/futures-util/src/stream/try_stream/try_skip_while.rs
+++ b/futures-util/src/stream/try_stream/try_skip_while.rs
@@ -73,8 +73,8 @@ where
             if let Some(fut) = this.pending_fut.as_mut().as_pin_mut() {
                 let res = ready!(fut.try_poll(cx));
                 this.pending_fut.set(None);
-                let skipped = res?;
                 let item = this.pending_item.take();
+                let skipped = res?;
                 if !skipped {
                     *this.done_skipping = true;
                     break item.map(Ok);
diff --git a/futures-util/src/stream/try_stream/try_take_while.rs b/futures-util/src/stream/try_stream/try_take_while.rs
index e2da18a..4222f84 100644
--- a/futures-util/src/stream/try_stream/try_take_while.rs
+++ b/futures-util/src/stream/try_stream/try_take_while.rs
@@ -76,8 +76,8 @@ where
             if let Some(fut) = this.pending_fut.as_mut().as_pin_mut() {
                 let res = ready!(fut.try_poll(cx));
                 this.pending_fut.set(None);
-                let take = res?;
                 let item = this.pending_item.take();
+                let take = res?;
                 if take {
                     break item.map(Ok);
                 } else {
-- 
2.43.0


From 4a4fcdd3d6242ff5f69638794060405b56772fb6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:04:28 +0000
Subject: [PATCH 10/15] fix: io::Lines does not carry the remains of a failed
 line into a later one

When reading a line failed part way, the bytes read so far stayed behind in
one of the two buffers that are swapped for every line and were prepended to
the line after the next.
---
 futures-util/src/io/lines.rs | 9 ++++++++-
 1 file changed, 8 insertions(+), 1 deletion(-)

diff --git a/futures-util/src/io/lines.rs b/futures-util/src/io/lines.rs
index 3e89f9e..6a510f4 100644
--- a/futures-util/src/io/lines.rs
+++ b/futures-util/src/io/lines.rs
@@ -36,7 +36,14 @@ impl<R: AsyncBufRead> Stream for Lines<R> {
 
     fn poll_next(self: Pin<&mut Self>, cx: &mut Context<'_>) -> Poll<Option<Self::Item>> {
         let this = self.project();
-        let n = ready!(read_line_internal(this.reader, cx, this.buf, this.bytes, this.read))?;
+        let n = match ready!(read_line_internal(this.reader, cx, this.buf, this.bytes, this.read)) {
+            Ok(n) => n,
+            Err(e) => {
+                // What was read of the failed line must not show up in a later one.
+                this.buf.clear();
+                return Poll::Ready(Some(Err(e)));
+            }
+        };
         *this.read = 0;
         if n == 0 && this.buf.is_empty() {
             return Poll::Ready(None);
-- 
2.43.0


From cd087bb4d068cbf99eda680f6ea4196037df703a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:12:13 +0000
Subject: [PATCH 11/15] fix: a failed or dropped read_to_string leaves the
 earlier contents of the string

The destination string is taken while the future runs. When the stream was
not valid UTF-8, or when the future was dropped before completion, it was
never put back, so what the string held before was lost. Restore it as
read_line does.
---
 futures-util/src/io/read_to_string.rs | 43 +++++++++++++++++++--------
 1 file changed, 31 insertions(+), 12 deletions(-)

diff --git a/futures-util/src/io/read_to_string.rs b/futures-util/src/io/read_to_string.rs
index de61d2c..5142767 100644
--- a/futures-util/src/io/read_to_string.rs
+++ b/futures-util/src/io/read_to_string.rs
@@ -19,6 +19,7 @@ pub struct ReadToString<'a, R: ?Sized> {
     buf: &'a mut String,
     bytes: Vec<u8>,
     start_len: usize,
+    finished: bool,
 }
 
 impl<R: ?Sized + Unpin> Unpin for ReadToString<'_, R> {}
@@ -26,7 +27,7 @@ impl<R: ?Sized + Unpin> Unpin for ReadToString<'_, R> {}
 impl<'a, R: AsyncRead + ?Sized + Unpin> ReadToString<'a, R> {
     pub(super) fn new(reader: &'a mut R, buf: &'a mut String) -> Self {
         let start_len = buf.len();
-        Self { reader, bytes: mem::take(buf).into_bytes(), buf, start_len }
+        Self { reader, bytes: mem::take(buf).into_bytes(), buf, start_len, finished: false }
     }
 }
 
@@ -37,17 +38,21 @@ fn read_to_string_internal<R: AsyncRead + ?Sized>(
     bytes: &mut Vec<u8>,
     start_len: usize,
 ) -> Poll<io::Result<usize>> {
-    let ret = ready!(read_to_end_internal(reader, cx, bytes, start_len));
+    let mut ret = ready!(read_to_end_internal(reader, cx, bytes, start_len));
     if str::from_utf8(bytes).is_err() {
-        Poll::Ready(ret.and_then(|_| {
-            Err(io::Error::new(io::ErrorKind::InvalidData, "stream did not contain valid UTF-8"))
-        }))
-    } else {
-        debug_assert!(buf.is_empty());
-        // Safety: `bytes` is a valid UTF-8 because `str::from_utf8` returned `Ok`.
-        mem::swap(unsafe { buf.as_mut_vec() }, bytes);
-        Poll::Ready(ret)
+        bytes.truncate(start_len);
+        if ret.is_ok() {
+            ret = Err(io::Error::new(
+                io::ErrorKind::InvalidData,
+                "stream did not contain valid UTF-8",
+            ));
+        }
     }
+    debug_assert!(buf.is_empty());
+    // Safety: `bytes` is valid UTF-8 because it was taken from a String
+    // and the newly read bytes are either valid UTF-8 or have been removed.
+    mem::swap(unsafe { buf.as_mut_vec() }, bytes);
+    Poll::Ready(ret)
 }
 
 impl<A> Future for ReadToString<'_, A>
@@ -57,7 +62,21 @@ where
     type Output = io::Result<usize>;
 
     fn poll(mut self: Pin<&mut Self>, cx: &mut Context<'_>) -> Poll<Self::Output> {
-        let Self { reader, buf, bytes, start_len } = &mut *self;
-        read_to_string_internal(Pin::new(reader), cx, buf, bytes, *start_len)
+        let Self { reader, buf, bytes, start_len, finished: _ } = &mut *self;
+        let ret = ready!(read_to_string_internal(Pin::new(reader), cx, buf, bytes, *start_len));
+        self.finished = true;
+        Poll::Ready(ret)
+    }
+}
+
+impl<R: ?Sized> Drop for ReadToString<'_, R> {
+    fn drop(&mut self) {
+        // restore old string contents
+        if !self.finished {
+            self.bytes.truncate(self.start_len);
+            // Safety: `bytes` is valid UTF-8 because it was taken from a String
+            // and the newly read bytes have been removed.
+            mem::swap(unsafe { self.buf.as_mut_vec() }, &mut self.bytes);
+        }
     }
 }
-- 
2.43.0


From b1e1e48446643849f6e26752e8605c528a4bc830 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:12:35 +0000
Subject: [PATCH 12/15] fix: IntoSink reports WriteZero instead of spinning on
 a writer that takes nothing

---
 futures-util/src/io/into_sink.rs | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/futures-util/src/io/into_sink.rs b/futures-util/src/io/into_sink.rs
index 9fa2def..d680b10 100644
--- a/futures-util/src/io/into_sink.rs
+++ b/futures-util/src/io/into_sink.rs
@@ -50,6 +50,9 @@ impl<W: AsyncWrite, Item: AsRef<[u8]>> IntoSink<W, Item> {
                 if buffer.offset == bytes.len() {
                     break;
                 }
+                if written == 0 {
+                    return Poll::Ready(Err(io::ErrorKind::WriteZero.into()));
+                }
             }
         }
         *this.buffer = None;
-- 
2.43.0


From 23f9b9b0266d95d0511723a03a87bbd46982e50a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:12:35 +0000
Subject: [PATCH 13/15] fix: BufReader::poll_seek_relative(i64::MIN) no longer
 overflows

---
 futures-util/src/io/buf_reader.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/futures-util/src/io/buf_reader.rs b/futures-util/src/io/buf_reader.rs
index 117eb98..a3b2924 100644
--- a/futures-util/src/io/buf_reader.rs
+++ b/futures-util/src/io/buf_reader.rs
@@ -95,7 +95,7 @@ impl<R: AsyncRead + AsyncSeek> BufReader<R> {
     ) -> Poll<io::Result<()>> {
         let pos = self.pos as u64;
         if offset < 0 {
-            if let Some(new_pos) = pos.checked_sub((-offset) as u64) {
+            if let Some(new_pos) = pos.checked_sub(offset.unsigned_abs()) {
                 *self.project().pos = new_pos as usize;
                 return Poll::Ready(Ok(()));
             }
-- 
2.43.0


From 8be8cd5d6a59f1a263840b450ed098583c4200b9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:48:29 +0000
Subject: [PATCH 14/15] fix: keep the waiting task when try_send finds the
 channel full

A sender waiting in poll_ready lost its waker when try_send was called on
it meanwhile, and was never woken when capacity became available.
---
 futures-channel/src/mpsc/mod.rs | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/futures-channel/src/mpsc/mod.rs b/futures-channel/src/mpsc/mod.rs
index c3e03e3..8c76853 100644
--- a/futures-channel/src/mpsc/mod.rs
+++ b/futures-channel/src/mpsc/mod.rs
@@ -704,8 +704,10 @@ impl<T> BoundedSenderInner<T> {
             // the correct task will be notified.
             //
             // Update the task in case the `Sender` has been moved to another
-            // task
-            task.task = cx.map(|cx| cx.waker().clone());
+            // task. Without a context the task that waits already stays.
+            if let Some(cx) = cx {
+                task.task = Some(cx.waker().clone());
+            }
 
             Poll::Pending
         } else {
-- 
2.43.0


From 8106247eff1c2a5ddf391c87fe5b4b7b1b524857 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:48:30 +0000
Subject: [PATCH 15/15] fix: forget the finished future when the closure of
 With fails

After the future of the closure had failed, the next call polled it again
although it was complete, so that closing the sink panicked.
---
 futures-util/src/sink/with.rs | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/futures-util/src/sink/with.rs b/futures-util/src/sink/with.rs
index 8ec9e44..d6abaaf 100644
--- a/futures-util/src/sink/with.rs
+++ b/futures-util/src/sink/with.rs
@@ -99,12 +99,12 @@ where
     fn poll(self: Pin<&mut Self>, cx: &mut Context<'_>) -> Poll<Result<(), E>> {
         let mut this = self.project();
 
-        let item = match this.state.as_mut().as_pin_mut() {
+        let res = match this.state.as_mut().as_pin_mut() {
             None => return Poll::Ready(Ok(())),
-            Some(fut) => ready!(fut.poll(cx))?,
+            Some(fut) => ready!(fut.poll(cx)),
         };
         this.state.set(None);
-        this.sink.start_send(item)?;
+        this.sink.start_send(res?)?;
         Poll::Ready(Ok(()))
     }
 }
-- 
2.43.0

