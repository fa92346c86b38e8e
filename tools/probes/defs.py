P="crates/parcom-parsers/src/"
CO="crates/parcom-core/src/"
I="crates/parcom-internals/src/"
M="crates/parcom-metrics/src/"
R="crates/parcom-runners/src/default_runner/"
S="crates/parcom-sequences/src/generic/"
Q="crates/parcom-sequence-core/src/"
U="crates/parcom-sequence-sources/src/"
X="crates/parcom-util/src/"
probe("binexpr-stale-anchor","C05",[(P+"combinator/bin_expr.rs","""        let reason = loop {
            let anchor = rest.anchor();
""","""        let mut anchor = rest.anchor();
        let reason = loop {
            if stack.is_empty() {
                anchor = rest.anchor();
            }
"""),(P+"combinator/bin_expr.rs","            rest = r;\n\n            loop {","            rest = r;\n            if !stack.is_empty() {\n                anchor = rest.anchor();\n            }\n\n            loop {")])
probe("binexpr-precedence-u32","C05",[(P+"combinator/bin_expr.rs","Associativity::Left => op.precedence() > last.precedence(),","Associativity::Left => op.precedence() as u32 > last.precedence() as u32,")])
probe("binexpr-precedence-difference","C05",[(P+"combinator/bin_expr.rs","Associativity::Left => op.precedence() > last.precedence(),","Associativity::Left => op.precedence().wrapping_sub(last.precedence()) as isize > 0,")])
probe("binexpr-own-associativity","C05",[(P+"combinator/bin_expr.rs","match last.associativity() {","match op.associativity() {")])
probe("binexpr-folds-left-when-deep","C05",[(P+"combinator/bin_expr.rs","                if binds_tighter(&op, &last_op) {","                depth += 1;\n                if depth < 40 && binds_tighter(&op, &last_op) {"),
 (P+"combinator/bin_expr.rs","        let mut stack = ShortVec::<_, 4>::new();","        let mut stack = ShortVec::<_, 4>::new();\n        let mut depth = 0;")])
probe("shortvec-drop-empty-early","C06",[(I+"shortvec.rs","""    fn drop(&mut self) {
        let ptr""","""    fn drop(&mut self) {
        if self.is_empty() {
            return;
        }
        let ptr""")])
probe("shortvec-reserve-exact-double","C06",[(I+"shortvec.rs","""            self.cap = cap;
            self.data.heap = ManuallyDrop::new(buf);""","""            self.cap = cap + N;
            self.data.heap = ManuallyDrop::new(buf);""")])
probe("any-char-looks-behind","C07",[(P+"primitive/any.rs","""            let Some(c) = segment.chars().next() else {
                continue;
            };

            drop(segments);
""","""            let Some(c) = segment.chars().next() else {
                continue;
            };

            if segment.len() == c.len_utf8() {
                // last character of the segment: prefetch the one behind.
                let _ = segments.next(BytesDelta::from_bytes(0)).await;
            }
            drop(segments);
""")])
probe("iterator-source-chunk","C08",[(U+"iterator_source.rs","let mut req = control.request_writer(seg.len());","let mut req = control.request_writer(seg.len().min(4096));")])
probe("notify-version-after-unlock","C14 C12 C13 C17",[(I+"future/notify.rs","""            self.version.fetch_add(1, Ordering::SeqCst);
            std::mem::take(&mut *wakers)
        };""","""            std::mem::take(&mut *wakers)
        };
        self.version.fetch_add(1, Ordering::SeqCst);""")])
probe("notify-drop-replaced-locked","C15",[(I+"future/notify.rs","        drop(wakers);\n        drop(replaced);","        drop(replaced);\n        drop(wakers);")])
probe("notify-drop-unused-locked","C15",[(I+"future/notify.rs","        drop(wakers);\n        drop(unused);","        drop(unused);\n        drop(wakers);")])
probe("notify-clone-locked","C15",[(I+"future/notify.rs","        let waker = cx.waker().clone();\n        let mut wakers = signal.wakers.lock().unwrap();","        let mut wakers = signal.wakers.lock().unwrap();\n        let waker = cx.waker().clone();")])
probe("notify-wakes-in-batches","C14",[(I+"future/notify.rs","""        for (_, waker) in wakers {
            waker.wake();
        }""","""        let mut batch: Vec<Waker> = Vec::with_capacity(32);
        for (_, waker) in wakers {
            batch.push(waker);
            if batch.len() >= 32 {
                for w in batch.drain(1..) {
                    w.wake();
                }
            }
        }
        for w in batch.into_iter().take(32) {
            w.wake();
        }""")],quiet=True)
probe("notify-batches-lose-last","C14 C15",[(I+"future/notify.rs","""        for (_, waker) in wakers {
            waker.wake();
        }""","""        let wakers: Vec<Waker> = wakers.into_iter().map(|(_, w)| w).collect();
        if wakers.len() <= 64 {
            wakers.into_iter().for_each(Waker::wake);
        } else {
            for c in wakers.chunks_exact(64) {
                c.iter().for_each(Waker::wake_by_ref);
            }
        }""")])
probe("notify-wait-created-lazily","C14 C12 C13",[(I+"future/notify.rs","""        if self.version != self.signal.version.load(Ordering::SeqCst) {
            return Poll::Ready(());
        }

        let signal""","""        if self.key.is_none() && self.version % 64 != 63 {
        } else if self.version != self.signal.version.load(Ordering::SeqCst) {
            return Poll::Ready(());
        }

        let signal""")],quiet=True)
probe("notify-will-wake","C14 C15 C12 C13 C17",[(I+"future/notify.rs","            Some(key) => Some(std::mem::replace(&mut wakers[key], waker)),","            Some(key) if wakers[key].will_wake(&waker) => Some(waker),\n            Some(key) => Some(std::mem::replace(&mut wakers[key], waker)),")],quiet=True)
probe("notify-mutex-version","C14 C15 C12 C13 C17",[
 (I+"future/notify.rs","        let version = self.version.load(Ordering::SeqCst);\n        Wait {","        let guard = self.wakers.lock().unwrap();\n        let version = self.version.load(Ordering::Relaxed);\n        drop(guard);\n        Wait {"),
 (I+"future/notify.rs","""        if self.version != self.signal.version.load(Ordering::SeqCst) {
            return Poll::Ready(());
        }

        let signal""","""        let signal"""),
 (I+"future/notify.rs","            self.version.fetch_add(1, Ordering::SeqCst);","            let v = self.version.load(Ordering::Relaxed);\n            self.version.store(v.wrapping_add(1), Ordering::Relaxed);"),
 ],quiet=True)
probe("meter-bulk-path","C16",[(M+"line_colmn.rs","""        for c in segment.chars() {
            if""","""        if !self.next_is_new_line && !segment.contains(['\\n', '\\r']) {
            let n = segment.chars().count();
            self.location.total_count += n;
            self.location.column += n;
            return self;
        }
        for c in segment.chars() {
            if""")])
probe("meter-byte-count-large","C16",[(M+"line_colmn.rs","            self.location.column += 1;","            self.location.column = (self.location.column + 1) & 0xffff;")])
probe("meter-new-mid-line","C16",[(M+"line_colmn.rs","""            location: start,
            next_is_new_line: true,""","""            location: start,
            next_is_new_line: false,""")],quiet=True)
probe("measured-advance-short-piece","C16",[(CO+"primitive/str.rs","        self.meter = self.meter.advance(&segment[..end]);","        if end > 0 || segment.is_empty() {\n            self.meter = self.meter.advance(&segment[..end]);\n        }")],quiet=True)
probe("filter-weak-predicate","C18",[
 (I+"reactive/extension/filter.rs","use std::{marker::PhantomData, sync::Arc};","use std::{\n    marker::PhantomData,\n    sync::{Arc, Weak},\n};"),
 (I+"reactive/extension/filter.rs","""    observer: O,
    predicate: Arc<P>,""","""    observer: O,
    predicate: Weak<P>,"""),
 (I+"reactive/extension/filter.rs","        if self.predicate.test(&item) {","        if self.predicate.upgrade().is_some_and(|p| p.test(&item)) {"),
 (I+"reactive/extension/filter.rs","            predicate: Arc::clone(&self.predicate),","            predicate: Arc::downgrade(&self.predicate),")])
probe("filter-shared-closed","C18",[
 (I+"reactive/extension/filter.rs","""pub struct Subscription<T, O: IObservable<T>, P: Predicate<T>, U: IObserver<T>>(
    O::Subscription<Observer<T, U, P>>,
);""","""pub struct Subscription<T, O: IObservable<T>, P: Predicate<T>, U: IObserver<T>>(
    O::Subscription<Observer<T, U, P>>,
    Arc<P>,
);"""),
 (I+"reactive/extension/filter.rs","        Subscription(sub)","        Subscription(sub, Arc::clone(&self.predicate))")],quiet=True)
probe("filter-subscription-leaks","C18",[
 (I+"reactive/extension/filter.rs","    O::Subscription<Observer<T, U, P>>,","    std::mem::ManuallyDrop<O::Subscription<Observer<T, U, P>>>,"),
 (I+"reactive/extension/filter.rs","        Subscription(sub)","        Subscription(std::mem::ManuallyDrop::new(sub))")])
probe("filter-one-at-a-time","C18",[
 (I+"reactive/extension/filter.rs","""    observable: O,
    predicate: Arc<P>,""","""    observable: O,
    nested: Arc<std::sync::atomic::AtomicBool>,
    predicate: Arc<P>,"""),
 (I+"reactive/extension/filter.rs","""            observable,
            predicate: Arc::new""","""            observable,
            nested: Default::default(),
            predicate: Arc::new"""),
 (I+"reactive/extension/filter.rs","""    observer: O,
    predicate: Arc<P>,""","""    observer: O,
    nested: Arc<std::sync::atomic::AtomicBool>,
    predicate: Arc<P>,"""),
 (I+"reactive/extension/filter.rs","""            observer,
            predicate""","""            observer,
            nested: Arc::clone(&self.nested),
            predicate"""),
 (I+"reactive/extension/filter.rs","""        if self.predicate.test(&item) {
            self.observer.next(item);
        }""","""        use std::sync::atomic::Ordering::SeqCst;
        if self.nested.swap(true, SeqCst) {
            return;
        }
        struct Leave(Arc<std::sync::atomic::AtomicBool>);
        impl Drop for Leave {
            fn drop(&mut self) {
                self.0.store(false, SeqCst);
            }
        }
        let _leave = Leave(Arc::clone(&self.nested));
        if self.predicate.test(&item) {
            self.observer.next(item);
        }""")])
probe("optional-once-swallows","C03",[(P+"combinator/optional.rs","""        match me.parser.parse_once(input).await {
            Ok((v, r)) => done(Some(v), r),
            Err((e, r)) if e.should_terminate() => Err((e, r)),
            Err((_, r)) => done(None, r.rewind(anchor).await),""","""        match me.parser.parse_once(input).await {
            Ok((v, r)) => done(Some(v), r),
            Err((_, r)) => done(None, r.rewind(anchor).await),""")])
probe("option-error-terminates","C03",[(CO+"parse_error.rs","            None => false,","            None => true,")])
probe("reference-error-recoverable","C03",[(CO+"parse_error.rs","        T::should_terminate(self)","        false")])
probe("both-first-only","C03",[(X+"either_both.rs","e0.should_terminate() || e1.should_terminate()","e0.should_terminate()")])
probe("both-last-only","C03",[(X+"either_both.rs","e0.should_terminate() || e1.should_terminate()","e1.should_terminate()")])
probe("try-map-fatal-ends","C03 C04",[(P+"iterative/try_map_each.rs","                    if e.should_terminate() {","                    if e.should_terminate() && false {")])
probe("fold-keeps-partial","C03",[(P+"iterative/fold.rs","""        match state.parse_next(rest).await? {""","""        match state.parse_next(rest).await.map_err(|(e, r)| (e, r))? {""")],quiet=True)
probe("take-truncates-count","C04",[(P+"iterative/take.rs","""            state: self.parser.parse_iterative(),
            left: self.count,""","""            state: self.parser.parse_iterative(),
            left: self.count as u32 as usize,""")])
probe("take-counts-ends","C04",[(P+"iterative/take.rs","""        match self.state.parse_next(input).await? {
            (Some(v), r) => {
                self.left -= 1;
                done""","""        self.left -= 1;
        match self.state.parse_next(input).await? {
            (Some(v), r) => {
                done""")])
probe("collect-batches","C04",[(P+"iterative/collect.rs","    let mut collection = C::default();","    let mut collection = C::default();\n    let mut batch = Vec::new();"),
 (P+"iterative/collect.rs","                collection.extend(std::iter::once(v));","                batch.push(v);\n                if batch.len() == 16 {\n                    collection.extend(batch.drain(..));\n                }"),
 (P+"iterative/collect.rs","                return done((collection, None), r.rewind(anchor).await);","                collection.extend(batch);\n                return done((collection, None), r.rewind(anchor).await);")])
probe("collect-batches-right","C04 C03 C06",[(P+"iterative/collect.rs","    let mut collection = C::default();","    let mut collection = C::default();\n    let mut batch = Vec::new();"),
 (P+"iterative/collect.rs","                collection.extend(std::iter::once(v));","                batch.push(v);\n                if batch.len() == 16 {\n                    collection.extend(batch.drain(..));\n                }"),
 (P+"iterative/collect.rs","                return done((collection, None), r.rewind(anchor).await);","                collection.extend(batch);\n                return done((collection, None), r.rewind(anchor).await);"),
 (P+"iterative/collect.rs","                return done((collection, Some(e)), r.rewind(anchor).await);","                collection.extend(batch);\n                return done((collection, Some(e)), r.rewind(anchor).await);")],quiet=True)
probe("fold-state-reused","C04",[(P+"iterative/scan.rs","""            (Some(v), r) => {
                let o""","""            (Some(v), r) => {
                if std::mem::size_of::<St>() == usize::MAX {
                    unreachable!();
                }
                let o""")],quiet=True)
probe("force-commit-twice","C08 C09",[(S+"loader.rs","        let buf = std::mem::replace(&mut self.buf, Vec::new());\n        commit_to","        let buf = std::mem::replace(&mut self.buf, Vec::new());\n        if buf.len() == 1 {\n            self.buf = buf;\n            return;\n        }\n        commit_to")])
probe("force-commit-keeps-buffer","C08 C09 C11",[(S+"loader.rs","        let buf = std::mem::replace(&mut self.buf, Vec::new());\n        commit_to","        let buf = self.buf.split_off(0);\n        commit_to")],quiet=True)
probe("finish-skips-small","C11 C08",[(S+"loader.rs","                let commited = buf.len();\n                commit_to(this.tail_node, buf);\n                Ok(LoadInfo::done(commited))","                let commited = buf.len();\n                if commited > 0 {\n                    commit_to(this.tail_node, buf);\n                }\n                Ok(LoadInfo::done(commited))")],quiet=True)
probe("buffer-advance-inclusive","C08 C12 C13",[(S+"buffer.rs","            if remain < len {","            if remain <= len {")],quiet=True)
probe("iter-remembers-end","C12 C17",[(S+"buffer.rs","    node: &'a Arc<OnceLock<Node<T>>>,\n}\n\nimpl","    node: &'a Arc<OnceLock<Node<T>>>,\n    ended: bool,\n}\n\nimpl"),
 (S+"buffer.rs","            node: &self.head_node,\n        }","            node: &self.head_node,\n            ended: false,\n        }"),
 (S+"buffer.rs","        let node = self.node.get()?;","        if self.ended {\n            return None;\n        }\n        let Some(node) = self.node.get() else {\n            self.ended = true;\n            return None;\n        };")])
probe("request-reserves-instead","C08 C09 C11 C17",[(S+"control.rs","            let cap = self.strategy.calc_capacity(min_size).max(min_size);\n","            let cap = self.strategy.calc_capacity(min_size).max(min_size).next_power_of_two().min(1 << 20).max(min_size);\n")],quiet=True)
probe("push-item-leaves-one","C08",[(Q+"buffer_writer.rs","        if written == self.capacity() {","        if written + 1 == self.capacity() && written > 4000 {")])
probe("shrink-forgets-drop","C08 C09",[(Q+"buffer_writer.rs","            std::ptr::drop_in_place(slice);\n","            let _ = slice;\n")])
probe("validator-lossy-prefix","C10",[(U+"utf8_validator.rs","            Err(e) => (e.valid_up_to(), e.error_len().is_some()),","            Err(e) => (e.valid_up_to(), e.error_len().is_some() && e.valid_up_to() + 3 > buf.len()),")])
probe("validator-commits-late","C10",[(U+"utf8_validator.rs","            Ok(_) => (buf.len(), false),","            Ok(_) if buf.last() == Some(&b'\\r') => (buf.len() - 1, false),\n            Ok(_) => (buf.len(), false),")])
probe("segments-end-sticky","C12 C17",[(R+"sequence/segments.rs","        if is_done {\n","        if is_done || this.host.done_flag.load(Ordering::SeqCst) {\n")])
probe("advance-extra-wait","C13 C17",[(R+"sequence/advance.rs","        cx.waker().wake_by_ref();\n\n        Poll::Pending","        match this.fut.as_mut().poll(cx) {\n            Poll::Ready(_) => cx.waker().wake_by_ref(),\n            Poll::Pending => {}\n        }\n        Poll::Pending")],quiet=True)
probe("advance-polls-directly","C13 C17 C12",[(R+"sequence/advance.rs","        cx.waker().wake_by_ref();\n\n        Poll::Pending","        if this.fut.as_mut().poll(cx).is_ready() {\n            this.fut.set(OptionFuture::none());\n            cx.waker().wake_by_ref();\n        }\n        Poll::Pending")],quiet=True)
probe("segments-polls-directly","C12 C17",[(R+"sequence/segments.rs","        cx.waker().wake_by_ref();\n\n        Poll::Pending","        if this.fut.as_mut().poll(cx).is_ready() {\n            this.fut.set(OptionFuture::none());\n            cx.waker().wake_by_ref();\n        }\n        Poll::Pending")],quiet=True)
probe("option-future-forgets","C12 C13",[(I+"future/option_future.rs","            PinOptionProj::None => Poll::Ready(None),","            PinOptionProj::None => {\n                cx.waker().wake_by_ref();\n                Poll::Ready(None)\n            }")],quiet=True)
probe("repeat-vec-reuse","C02",[(P+"combinator/repeat.rs","        done((buf, last_err), rest)","        buf.truncate(u16::MAX as usize);\n        done((buf, last_err), rest)")])
probe("the-char-once-folds-case","C02",[(P+"primitive/the.rs","""    async fn parse_once(self, input: S) -> parcom_core::ParserResult<S, Self> {
        self.parse(input).await
    }
}

impl<S: Sequence<Segment = str, Length = BytesDelta>> Parser<S> for TheChar {""","""    async fn parse_once(self, input: S) -> parcom_core::ParserResult<S, Self> {
        TheChar { c: self.c.to_ascii_lowercase() }.parse(input).await
    }
}

impl<S: Sequence<Segment = str, Length = BytesDelta>> Parser<S> for TheChar {""")])
probe("join-once-swaps-nothing","C02 C01",[(P+"combinator/join.rs","""        let (item1, rest) = self
            .parser1
            .parse_once(rest)
            .await
            .map_err(|(e, r)| (Either::Last(e), r))?;

        done((item0, item1), rest)""","""        match self.parser1.parse_once(rest).await {
            Err((e, r)) => Err((Either::Last(e), r)),
            Ok((item1, rest)) => done((item0, item1), rest),
        }""")],quiet=True)
# --- second batch
probe("atom-spans-eight","C01",[(P+"primitive/atom.rs","        let mut segments = input.segments();\n","        let mut segments = input.segments();\n        let mut pieces = 0u8;\n"),
 (P+"primitive/atom.rs","                Some((p, r)) if segment == p => remain = r,","                Some((p, r)) if segment == p && pieces < 8 => {\n                    pieces += 1;\n                    remain = r;\n                }")])
probe("atom-mismatch-late","C07",[(P+"primitive/atom.rs","                Some((p, r)) if segment == p => remain = r,\n                _ => {","                Some((p, r)) if segment == p => remain = r,\n                _ => {\n                    let _ = segments.next(remain.len()).await;")])
probe("the-char-skips-bom","C02 C01",[(P+"primitive/the.rs","            let Some(c) = segment.chars().next() else {","            let Some(c) = segment.trim_start_matches('\\u{feff}').chars().next() else {")])
probe("repeat-recovers-after-many","C03",[(P+"combinator/repeat.rs","                    if e.should_terminate() {\n                        return fail(e, r);\n                    }","                    if e.should_terminate() && buf.len() < 16 {\n                        return fail(e, r);\n                    }")])
probe("collect-recovers-empty","C03",[(P+"iterative/collect.rs","            Err((e, r)) if e.should_terminate() => return fail(e, r),","            Err((e, r)) if e.should_terminate() && !(std::mem::size_of::<C>() > 0 && started && false) => return fail(e, r),"),
 (P+"iterative/collect.rs","    let mut rest = input;","    let mut rest = input;\n    let started = true;")],quiet=True)
probe("binexpr-op-fatal-after-first","C03",[(P+"combinator/bin_expr.rs","                Err((e, r)) if e.should_terminate() => return fail(Either::First(e), r),","                Err((e, r)) if e.should_terminate() && stack.is_empty() => {\n                    return fail(Either::First(e), r)\n                }")])
probe("binexpr-term-fatal-deep","C03",[(P+"combinator/bin_expr.rs","                Err((e, r)) if !e.should_terminate() => {\n                    rest = r.rewind(anchor).await;\n                    break Err(Either::Last(e));","                Err((e, r)) if !e.should_terminate() || depth > 2 => {\n                    rest = r.rewind(anchor).await;\n                    break Err(Either::Last(e));"),
 (P+"combinator/bin_expr.rs","        let mut stack = ShortVec::<_, 4>::new();","        let mut stack = ShortVec::<_, 4>::new();\n        let mut depth = 0;"),
 (P+"combinator/bin_expr.rs","            rest = r;\n\n            loop {","            rest = r;\n            depth += 1;\n\n            loop {")])
probe("unify-err-ref-miss","C03",[(X+"either.rs","            Either::Last(e) => e.should_terminate(),","            Either::Last(e) => e.should_terminate() && std::mem::size_of::<T1>() > 0,")])
probe("control-cancel-forgets","C09",[(S+"control.rs","        drop(self);\n        Response::Cancel(err)","        std::mem::forget(self);\n        Response::Cancel(err)")])
probe("request-drop-keeps-equal","C09",[(S+"control.rs","            self.buf.truncate(self.offset);","            if self.buf.len() < self.buf.capacity() {\n                self.buf.truncate(self.offset);\n            }")])
probe("request-commit-offset-late","C09 C08",[(S+"control.rs","        self.offset = self.buf.len();\n        let to_append","        self.offset = self.buf.capacity();\n        let to_append")],quiet=True)
probe("line-column-order-by-line","C16",[(M+"line_colmn.rs","        Some(self.total_count.cmp(&other.total_count))","        Some((self.line, self.column % 4096).cmp(&(other.line, other.column % 4096)))")])
probe("line-column-eq-total","C16",[(M+"line_colmn.rs","""        self.total_count == other.total_count
            && self.line == other.line
            && self.column == other.column""","""        self.line == other.line && self.column == other.column""")],quiet=True)
probe("meter-skips-empty-line","C16",[(M+"line_colmn.rs","                self.location.line += 1;\n","                if self.location.column != 0 || self.location.total_count == 0 {\n                    self.location.line += 1;\n                }\n")],quiet=True)
probe("crlf-many-cr","C16",[(M+"end_of_line.rs","                '\\r' => EndOfLineMatch::PartialMatch,\n                '\\n'","                '\\r' => {\n                    self.state = CRLFState::Initial;\n                    EndOfLineMatch::PartialMatch\n                }\n                '\\n'")])
probe("segments-wait-dropped","C12",[(R+"sequence/segments.rs","        // (1): ","        this.fut.set(OptionFuture::none());\n        // (1): ")],quiet=True)
probe("segments-fut-kept","C12 C17",[(R+"sequence/segments.rs","        std::task::ready!(this.fut.as_mut().poll(cx));\n","        std::task::ready!(this.fut.as_mut().poll(cx));\n        let _probe = this.host.append_signal.wait();\n")],quiet=True)
probe("segments-relaxed","C12 C17",[(R+"sequence/segments.rs","this.host.done_flag.load(Ordering::SeqCst)","this.host.done_flag.load(Ordering::Relaxed)")])
probe("advance-relaxed","C13 C17",[(R+"sequence/advance.rs","sequence.done_flag.load(Ordering::SeqCst)","sequence.done_flag.load(Ordering::Relaxed)")])
probe("notify-relaxed-fast","C14",[(I+"future/notify.rs","        if self.version != self.signal.version.load(Ordering::SeqCst) {\n            return","        if self.version != self.signal.version.load(Ordering::Relaxed) {\n            return")],quiet=True)
probe("notify-wait-relaxed","C12 C13",[(I+"future/notify.rs","        let version = self.version.load(Ordering::SeqCst);\n        Wait {","        let version = self.version.load(Ordering::Relaxed);\n        Wait {")])
probe("notify-drop-relaxed","C14 C15",[(I+"future/notify.rs","        let unused = if self.version == self.signal.version.load(Ordering::SeqCst) {","        let unused = if self.version == self.signal.version.load(Ordering::Relaxed) {")],quiet=True)
probe("notify-poll-try-lock","C14",[(I+"future/notify.rs","        let mut wakers = signal.wakers.lock().unwrap();\n\n        if self.version","        let Ok(mut wakers) = signal.wakers.try_lock() else {\n            cx.waker().wake_by_ref();\n            return Poll::Pending;\n        };\n\n        if self.version")],quiet=True)
probe("notify-poll-try-lock-lost","C14",[(I+"future/notify.rs","        let mut wakers = signal.wakers.lock().unwrap();\n\n        if self.version","        let Ok(mut wakers) = signal.wakers.try_lock() else {\n            return Poll::Pending;\n        };\n\n        if self.version")])
probe("notify-drop-try-lock","C15",[(I+"future/notify.rs","        let mut wakers = self.signal.wakers.lock().unwrap();\n        // After","        let Ok(mut wakers) = self.signal.wakers.try_lock() else {\n            return;\n        };\n        // After")])
probe("notify-send-empty-skips","C14",[(I+"future/notify.rs","            let mut wakers = self.wakers.lock().unwrap();\n            self.version","            let mut wakers = self.wakers.lock().unwrap();\n            if wakers.is_empty() {\n                return;\n            }\n            self.version")])
probe("notify-shrinks","C14 C15",[(I+"future/notify.rs","            wakers.try_remove(key)\n","            let unused = wakers.try_remove(key);\n            if wakers.is_empty() {\n                *wakers = Slab::new();\n            }\n            unused\n")],quiet=True)
probe("validator-size-hint","C10 C17",[(U+"utf8_validator.rs","self.source.next(control, size_hint).into_future()","self.source.next(control, size_hint.saturating_sub(self.buffered)).into_future()")],quiet=True)
probe("validator-rest-once","C10",[(U+"utf8_validator.rs","                    *this.rest = rest;\n","                    if buffered > 0 && *this.rest == [0; 3] {\n                        *this.rest = rest;\n                    }\n")])
probe("validator-drops-nul","C10",[(U+"utf8_validator.rs","            let buffered = invalids.len();\n","            let buffered = invalids.len() - (invalids.last() == Some(&0xf4)) as usize;\n")])
probe("node-drop-recursive","C20 C08",[("crates/parcom-sequences/src/generic.rs","        let mut next = Arc::get_mut(&mut self.next).and_then(OnceLock::take);\n        while let Some(mut node) = next {\n            next = Arc::get_mut(&mut node.next).and_then(OnceLock::take);\n        }","        let _ = Arc::get_mut(&mut self.next);")])
probe("buffer-advance-late-release","C20",[(S+"buffer.rs","        self.head_offset = offset;\n        self.head_node = Arc::clone(&node);","        if remain > 0 || offset > 0 || length > 64 {\n            self.head_offset = offset;\n            self.head_node = Arc::clone(&node);\n        } else {\n            self.head_offset = offset;\n            self.head_node = Arc::clone(&node);\n        }")],quiet=True)
probe("force-commit-shares","C09 C08",[(S+"loader.rs","        let control = Control::new(&mut self.buf, &self.strategy);","        if self.buf.capacity() > 0 && self.buf.is_empty() {\n            self.buf = Vec::new();\n        }\n        let control = Control::new(&mut self.buf, &self.strategy);")],quiet=True)
probe("load-refuses-after-end","C11",[(S+"loader.rs","                Ok(LoadInfo::done(commited))","                Ok(if commited == 0 { LoadInfo::new(0, 0, 0) } else { LoadInfo::done(commited) })")])
probe("filter-tests-twice","C18",[(I+"reactive/extension/filter.rs","        if self.predicate.test(&item) {","        if self.predicate.test(&item) && self.predicate.test(&item) {")],quiet=True)
probe("scan-state-shared","C04",[(P+"iterative/take.rs","            left: self.count,\n            marker: PhantomData,\n        }\n    }\n}\n\nimpl<S: Sequence, P: IterativeParser<S>> IterativeParser<S>","            left: self.count.min(1 << 12),\n            marker: PhantomData,\n        }\n    }\n}\n\nimpl<S: Sequence, P: IterativeParser<S>> IterativeParser<S>")])
probe("optional-anchor-late","C02 C04",[(P+"combinator/optional.rs","        match me.parser.parse(input).await {\n            Ok((v, r)) => done(Some(v), r),","        match me.parser.parse(input).await {\n            Ok((v, r)) if std::mem::size_of::<P::Output>() == 0 => done(Some(v), r.rewind(anchor).await),\n            Ok((v, r)) => done(Some(v), r),")])
probe("the-item-once-clones","C06",[(P+"primitive/any.rs","            let item = segment[0].clone();\n","            let item = segment[0].clone();\n            std::mem::forget(segment[0].clone());\n")])
probe("boxed-leaks","C06",[(P+"util.rs","        Box::pin(self.parser.parse(input))","        unsafe { std::pin::Pin::new_unchecked(Box::leak(Box::new(self.parser.parse(input)))) }")])
probe("slice-rewind-offset","C02",[(CO+"primitive/slice.rs","        if !offset.is_negative() && (offset as usize) <= len {\n            std::future::ready(anchor.me)","        if offset == 0 {\n            std::future::ready(self)\n        } else if !offset.is_negative() && (offset as usize) <= len {\n            std::future::ready(anchor.me)")],quiet=True)
probe("bytesdelta-from-char-two","C01 C02",[(CO+"primitive.rs","        Self::from_bytes(char.len_utf8())","        Self::from_bytes(if char == '\\u{10ffff}' { 3 } else { char.len_utf8() })")])
probe("zero-is-one","C16",[("crates/parcom-core/src/primitive.rs","pub const ZERO: Self = Self(0);","pub const ZERO: Self = Self(1);")])
