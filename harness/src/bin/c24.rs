//! C24: writers pass on exactly the bytes they accepted.
use futures::future::Either;
use futures::io::{self as fio, AsyncBufReadExt, AsyncRead, AsyncReadExt, AsyncSeek, AsyncSeekExt, AsyncWrite, AsyncWriteExt, BufReader, BufWriter, Cursor, LineWriter};
use futures::SinkExt;
use hv::iow::{self, run_of, Wr, BR};
use hv::mon;
use hv::world as wd;
use hv::{ensure, vio, Case};
use std::future::Future;
use std::io::{self, IoSlice, SeekFrom};
use std::pin::Pin;
use std::rc::Rc;
use std::task::{Context, Poll};

enum Out<T> {
    Done(io::Result<T>),
    Cancelled,
    Bad,
}
fn op<T, F: Future<Output = io::Result<T>>>(d: &mut wd::Driver, f: F, cancel: Option<usize>) -> Out<T> {
    let mut f = std::pin::pin!(f);
    let mut n = 0;
    loop {
        if cancel == Some(n) {
            return Out::Cancelled;
        }
        n += 1;
        match d.poll(|cx| f.as_mut().poll(cx)) {
            Poll::Ready(r) => return Out::Done(r),
            Poll::Pending => {
                if d.polls > d.max_polls {
                    vio!("not finished after {} polls although every leaf makes progress", d.max_polls);
                }
                if mon::violated() {
                    return Out::Bad;
                }
                if !d.idle() {
                    if !mon::violated() {
                        vio!("lost wake-up: pending, its latest waker not woken, and no event outstanding");
                    }
                    return Out::Bad;
                }
            }
        }
    }
}
type BW = Pin<Box<dyn AsyncWrite>>;
struct WPipe {
    w: BW,
    st: Wr,
    /// std writer below: no errors, no zero writes, no close of its own
    desc: Vec<String>,
}
/// Reads nothing; writes pass through.
struct Rd(BW);
impl AsyncRead for Rd {
    fn poll_read(self: Pin<&mut Self>, _: &mut Context<'_>, _: &mut [u8]) -> Poll<io::Result<usize>> {
        Poll::Ready(Ok(0))
    }
}
impl AsyncWrite for Rd {
    fn poll_write(mut self: Pin<&mut Self>, cx: &mut Context<'_>, buf: &[u8]) -> Poll<io::Result<usize>> {
        self.0.as_mut().poll_write(cx, buf)
    }
    fn poll_write_vectored(mut self: Pin<&mut Self>, cx: &mut Context<'_>, bufs: &[IoSlice<'_>]) -> Poll<io::Result<usize>> {
        self.0.as_mut().poll_write_vectored(cx, bufs)
    }
    fn poll_flush(mut self: Pin<&mut Self>, cx: &mut Context<'_>) -> Poll<io::Result<()>> {
        self.0.as_mut().poll_flush(cx)
    }
    fn poll_close(mut self: Pin<&mut Self>, cx: &mut Context<'_>) -> Poll<io::Result<()>> {
        self.0.as_mut().poll_close(cx)
    }
}
fn random_writer(c: &mut Case, depth: usize) -> WPipe {
    let chunk = *c.rng.pick(&[0, 1, 2, 3, 6]);
    let bad = *c.rng.pick(&[0, 0, 0, 1, 3]);
    let zero = *c.rng.pick(&[0, 0, 0, 0, 1]);
    let mut desc = Vec::new();
    let (mut w, st): (BW, Wr) = if c.rng.chance(1, 6) {
        let st: Wr = Default::default();
        desc.push("AllowStdIo".into());
        (Box::pin(fio::AllowStdIo::new(iow::StdW(st.clone(), 1 + c.rng.below(5)))), st)
    } else {
        desc.push(format!("leaf(chunk {chunk}, bad {bad}, zero {zero})"));
        let (w, st) = iow::writer(chunk, bad, zero);
        (Box::pin(w), st)
    };
    for _ in 0..c.rng.below(depth + 1) {
        let cap = c.rng.below(9);
        w = match c.rng.below(8) {
            0 | 1 => {
                desc.push(format!("BufWriter({cap})"));
                Box::pin(BufWriter::with_capacity(cap, w))
            }
            2 | 3 => {
                desc.push(format!("LineWriter({cap})"));
                Box::pin(LineWriter::with_capacity(cap, w))
            }
            4 => {
                desc.push("split".into());
                let (r, wr) = Rd(w).split();
                drop(r);
                Box::pin(wr)
            }
            5 => {
                desc.push("BufReader".into());
                Box::pin(BufReader::new(Rd(w)))
            }
            6 => {
                desc.push("Either".into());
                if c.rng.chance(1, 2) {
                    Box::pin(Either::<BW, iow::Lw>::Left(w))
                } else {
                    Box::pin(Either::<iow::Lw, BW>::Right(w))
                }
            }
            _ => {
                desc.push("Box".into());
                Box::pin(Box::new(w))
            }
        };
    }
    c.desc = format!("{desc:?}");
    WPipe { w, st, desc }
}
fn payload(c: &mut Case, max: usize, next: &mut u8) -> Vec<u8> {
    let n = c.rng.below(max + 1);
    (0..n)
        .map(|_| {
            if c.rng.chance(1, 5) {
                b'\n'
            } else {
                *next = next.wrapping_add(1);
                if *next == b'\n' {
                    *next += 1;
                }
                *next
            }
        })
        .collect()
}
/// What the caller knows to be accepted; after a failed or dropped write_all a prefix of `maybe` as well.
struct Known {
    sure: Vec<u8>,
    maybe: Vec<u8>,
}
impl Known {
    fn check_prefix(&self, got: &[u8], what: &str) {
        let full = [&self.sure[..], &self.maybe[..]].concat();
        ensure!(full.starts_with(got), "{what}: the writer below got {got:?}, accepted were {:?} and possibly {:?}", self.sure, self.maybe);
    }
    /// Everything has been flushed: now we know.
    fn settle(&mut self, got: &[u8], what: &str) {
        self.check_prefix(got, what);
        ensure!(got.len() >= self.sure.len(), "{what}: complete, but the writer below has only {got:?} of {:?}", self.sure);
        self.sure = got.to_vec();
        self.maybe.clear();
    }
}
fn settle_by_flush(d: &mut wd::Driver, w: &mut BW, st: &Wr, k: &mut Known) -> bool {
    for _ in 0..400 {
        match op(d, w.flush(), None) {
            Out::Done(Ok(())) => {
                k.settle(&st.borrow().got, "flush");
                return true;
            }
            Out::Done(Err(_)) => {}
            _ => return false,
        }
    }
    false
}
fn writers(c: &mut Case) {
    let WPipe { mut w, st, desc } = random_writer(c, 3);
    let _ = desc;
    let mut d = wd::Driver::new();
    let mut k = Known { sure: vec![], maybe: vec![] };
    let mut next = 31u8;
    for _ in 0..1 + c.rng.below(8) {
        let cancel = if c.rng.chance(1, 6) { Some(c.rng.below(3)) } else { None };
        let (errs, zeros) = (st.borrow().errs, st.borrow().zeros);
        let buf = payload(c, 12, &mut next);
        let kind = c.rng.below(6);
        let what = ["write", "write_vectored", "write_all", "write_all_vectored", "flush", "write_all"][kind];
        c.count(what, 1);
        let cut = c.rng.below(buf.len() + 1);
        let cut2 = cut + c.rng.below(buf.len() - cut + 1);
        let slices = [IoSlice::new(&buf[..cut]), IoSlice::new(&buf[cut..cut2]), IoSlice::new(&[]), IoSlice::new(&buf[cut2..])];
        let failed = |e: &io::Error, zero_ok: bool| {
            let s = st.borrow();
            if e.kind() == io::ErrorKind::WriteZero {
                ensure!(zero_ok && s.zeros > zeros, "{what} fails with {e} although the writer below never refused");
            } else {
                ensure!(s.errs > errs && e.to_string() == format!("E{}", s.last_err), "{what} fails with {e}, the writer's error was E{} ({} new)", s.last_err, s.errs - errs);
            }
        };
        match kind {
            0 | 1 => {
                let res = if kind == 0 { op(&mut d, w.write(&buf), cancel) } else { op(&mut d, w.write_vectored(&slices), cancel) };
                match res {
                    Out::Bad => return,
                    Out::Cancelled => {}
                    Out::Done(Ok(n)) => {
                        if n > buf.len() {
                            vio!("{what} of {} bytes reports {n}", buf.len());
                            return;
                        }
                        if n == 0 && !buf.is_empty() {
                            ensure!(st.borrow().zeros > zeros, "{what} of {} bytes reports 0 although the writer below took what it was given", buf.len());
                        }
                        k.sure.extend_from_slice(&buf[..n]);
                    }
                    Out::Done(Err(e)) => failed(&e, true),
                }
            }
            2 | 3 | 5 => {
                let mut sl = slices;
                let res = if kind == 3 { op(&mut d, w.write_all_vectored(&mut sl), cancel) } else { op(&mut d, w.write_all(&buf), cancel) };
                match res {
                    Out::Bad => return,
                    Out::Cancelled => k.maybe = buf.clone(),
                    Out::Done(Ok(())) => k.sure.extend_from_slice(&buf),
                    Out::Done(Err(e)) => {
                        failed(&e, true);
                        k.maybe = buf.clone();
                    }
                }
                if !k.maybe.is_empty() {
                    k.check_prefix(&st.borrow().got, what);
                    if !settle_by_flush(&mut d, &mut w, &st, &mut k) {
                        return;
                    }
                }
            }
            _ => match op(&mut d, w.flush(), cancel) {
                Out::Bad => return,
                Out::Cancelled => {}
                Out::Done(Ok(())) => {
                    k.settle(&st.borrow().got, "flush");
                    ensure!(st.borrow().flushed == st.borrow().got.len(), "flush: complete but the writer below was not flushed");
                }
                Out::Done(Err(e)) => failed(&e, true),
            },
        }
        k.check_prefix(&st.borrow().got, what);
        if mon::violated() {
            return;
        }
    }
    if c.rng.chance(2, 3) {
        for _ in 0..400 {
            match op(&mut d, w.close(), None) {
                Out::Done(Ok(())) => {
                    k.settle(&st.borrow().got, "close");
                    ensure!(st.borrow().closed, "close: complete but the writer below is not closed");
                    break;
                }
                Out::Done(Err(_)) => {}
                _ => return,
            }
        }
    }
    c.nontrivial = !st.borrow().got.is_empty();
    drop(w);
    k.check_prefix(&st.borrow().got, "drop");
    drop(d);
    mon::check_released();
}
/// LineWriter passes complete lines on.
fn lines(c: &mut Case) {
    let full = c.rng.chance(1, 2);
    let (lw, st) = iow::writer(if full { 0 } else { 1 + c.rng.below(4) }, 0, 0);
    let cap = c.rng.below(10);
    let vect = c.rng.chance(1, 3);
    c.desc = format!("LineWriter({cap}), full writes {full}, vectored {vect}");
    let mut w = LineWriter::with_capacity(cap, lw);
    let mut d = wd::Driver::new();
    let mut sure: Vec<u8> = Vec::new();
    let mut next = 31;
    for _ in 0..1 + c.rng.below(8) {
        let buf = payload(c, 10, &mut next);
        let before = sure.iter().rposition(|b| *b == b'\n').map_or(0, |i| i + 1);
        if buf.is_empty() {
            continue;
        }
        c.nontrivial |= buf.contains(&b'\n');
        let cut = c.rng.below(buf.len() + 1);
        let sl = [IoSlice::new(&buf[..cut]), IoSlice::new(&buf[cut..])];
        let r = if vect { op(&mut d, w.write_vectored(&sl), None) } else { op(&mut d, w.write(&buf), None) };
        let n = match r {
            Out::Done(Ok(n)) => n,
            Out::Done(Err(e)) => return vio!("write fails: {e}"),
            _ => return,
        };
        sure.extend_from_slice(&buf[..n]);
        let s = st.borrow();
        ensure!(sure.starts_with(&s.got), "LineWriter passed on {:?} of {sure:?}", s.got);
        // lines that were complete before this write have gone
        ensure!(s.got.len() >= before, "LineWriter still holds a line that was complete before this write: {:?} of {sure:?}", s.got);
        if full {
            // the writer below took everything it was offered: so all complete lines are out
            let now = sure.iter().rposition(|b| *b == b'\n').map_or(0, |i| i + 1);
            ensure!(s.got.len() >= now, "LineWriter holds a complete line back: {:?} of {sure:?}", s.got);
        }
        if mon::violated() {
            return;
        }
    }
    match op(&mut d, w.flush(), None) {
        Out::Done(Ok(())) => ensure!(st.borrow().got == sure, "after flush {:?} of {sure:?}", st.borrow().got),
        _ => return,
    }
    drop(w);
    drop(d);
    mon::check_released();
}
/// copy, copy_buf, copy_buf_abortable: what was taken from the reader is what the writer got.
fn copies(c: &mut Case) {
    let big = c.rng.chance(1, 30);
    let mut p = iow::random_reader(c, 2, if big { 100 } else { 20 });
    let WPipe { mut w, st, .. } = random_writer(c, 2);
    let kind = c.rng.below(3);
    let name = ["copy", "copy_buf", "copy_buf_abortable"][kind];
    c.count(name, 1);
    c.desc = format!("{name} {:?} to {}", p.desc, c.desc);
    let (rest, end) = run_of(&p.model);
    let mut d = wd::Driver::new();
    d.strict = kind != 2;
    let (errs, zeros) = (st.borrow().errs, st.borrow().zeros);
    let mut aborted = false;
    let res: io::Result<u64> = {
        if kind == 2 {
            let (f, h) = fio::copy_buf_abortable(p.r.as_mut(), &mut w);
            let mut f = Box::pin(f);
            let when = if c.rng.chance(1, 2) { c.rng.below(6) } else { 999_999 };
            let mut n = 0;
            loop {
                if n == when {
                    h.abort();
                    aborted = true;
                    if d.polls > 0 {
                        ensure!(wd::woken(), "copy_buf_abortable: abort does not wake the pending task");
                    }
                }
                n += 1;
                match d.poll(|cx| f.as_mut().poll(cx)) {
                    Poll::Ready(Ok(Ok(n))) => {
                        ensure!(!aborted, "copy_buf_abortable completes although it was aborted before the poll");
                        break Ok(n);
                    }
                    Poll::Ready(Ok(Err(_))) => {
                        ensure!(aborted, "copy_buf_abortable reports Aborted without abort");
                        break Err(io::Error::other("aborted"));
                    }
                    Poll::Ready(Err(e)) => {
                        ensure!(!aborted, "copy_buf_abortable fails although it was aborted before the poll");
                        break Err(e);
                    }
                    Poll::Pending => {
                        ensure!(!aborted, "copy_buf_abortable: pending although aborted");
                        if mon::violated() || n > 20_000 {
                            return;
                        }
                        if n == when {
                            continue;
                        }
                        if !d.idle() {
                            if !mon::violated() {
                                vio!("lost wake-up");
                            }
                            return;
                        }
                    }
                }
            }
        } else {
            let r = if kind == 0 { op(&mut d, fio::copy(p.r.as_mut(), &mut w), None) } else { op(&mut d, fio::copy_buf(p.r.as_mut(), &mut w), None) };
            match r {
                Out::Done(r) => r,
                _ => return,
            }
        }
    };
    c.nontrivial = !rest.is_empty();
    match &res {
        Ok(n) => {
            let s = st.borrow();
            ensure!(end.is_none(), "{name} succeeds in spite of the reader's error {end:?}");
            ensure!(*n == rest.len() as u64, "{name} reports {n} bytes of {}", rest.len());
            ensure!(s.got == rest, "{name}: the writer got {:?}, expected {rest:?}", s.got);
            ensure!(s.flushed == s.got.len(), "{name}: complete but the writer was not flushed");
        }
        Err(e) if aborted => ensure!(e.to_string() == "aborted", "{name}: {e}"),
        Err(e) => {
            let s = st.borrow();
            let of_reader = end.is_some_and(|k| e.to_string() == format!("E{k}"));
            let of_writer = (e.kind() == io::ErrorKind::WriteZero && s.zeros > zeros) || (s.errs > errs && e.to_string() == format!("E{}", s.last_err));
            ensure!(of_reader || of_writer, "{name} fails with {e}");
        }
    }
    if res.is_err() && kind != 0 {
        // nothing got lost in between: flush, then writer + rest of the reader = source
        let mut k = Known { sure: vec![], maybe: rest.clone() };
        k.check_prefix(&st.borrow().got, name);
        if !settle_by_flush(&mut d, &mut w, &st, &mut k) {
            return;
        }
        let mut left = Vec::new();
        let mut r: BR = p.r;
        match op(&mut d, r.read_to_end(&mut left), None) {
            Out::Bad | Out::Cancelled => return,
            Out::Done(_) => {
                let got = st.borrow().got.clone();
                let of_reader = end.is_some() && res.as_ref().is_err_and(|e| Some(e.to_string()) == end.map(|k| format!("E{k}")));
                if of_reader {
                    ensure!(got == rest, "{name}: the reader failed after {rest:?}, the writer got {got:?}");
                } else {
                    ensure!([&got[..], &left[..]].concat() == rest, "{name}: writer has {got:?}, the reader continues with {left:?}, the source was {rest:?}");
                }
            }
        }
    } else {
        Known { sure: vec![], maybe: rest.clone() }.check_prefix(&st.borrow().got, name);
        drop(p.r);
    }
    drop(w);
    drop(d);
    mon::check_released();
}
/// into_sink: whole blocks, in order.
fn block_sink(c: &mut Case) {
    let WPipe { w, st, .. } = random_writer(c, 2);
    let mut s = w.into_sink::<Vec<u8>>();
    let mut d = wd::Driver::new();
    let mut k = Known { sure: vec![], maybe: vec![] };
    let mut next = 31;
    let mut dead = false;
    for _ in 0..1 + c.rng.below(6) {
        let buf = payload(c, 8, &mut next);
        let (errs, zeros) = (st.borrow().errs, st.borrow().zeros);
        let kind = c.rng.below(4);
        let r = match kind {
            0 | 1 => op(&mut d, s.send(buf.clone()), None),
            2 => op(&mut d, s.feed(buf.clone()), None),
            _ => op(&mut d, SinkExt::<Vec<u8>>::flush(&mut s), None),
        };
        match r {
            Out::Done(Ok(())) => {
                if kind < 3 {
                    k.sure.extend_from_slice(&buf);
                }
                if kind != 2 {
                    k.settle(&st.borrow().got, "into_sink: send/flush");
                }
            }
            Out::Done(Err(e)) => {
                let w = st.borrow();
                ensure!(
                    (e.kind() == io::ErrorKind::WriteZero && w.zeros > zeros) || (w.errs > errs && e.to_string() == format!("E{}", w.last_err)),
                    "into_sink fails with {e}"
                );
                if kind < 3 {
                    k.maybe = buf.clone();
                }
                dead = true;
            }
            _ => return,
        }
        k.check_prefix(&st.borrow().got, "into_sink");
        if dead || mon::violated() {
            break;
        }
    }
    if !mon::violated() {
        // an error is not the end: the block is still there
        for _ in 0..400 {
            match op(&mut d, SinkExt::<Vec<u8>>::close(&mut s), None) {
                Out::Done(Ok(())) => {
                    k.settle(&st.borrow().got, "into_sink: close");
                    ensure!(st.borrow().closed, "into_sink: closed but the writer below is not");
                    break;
                }
                Out::Done(Err(_)) => {}
                _ => return,
            }
        }
    }
    c.nontrivial = !st.borrow().got.is_empty();
    drop(s);
    drop(d);
    mon::check_released();
}
/// Writers over memory against std, and BufWriter with seeks.
fn memory(c: &mut Case) {
    use std::io::{Seek as _, Write as _};
    let n = c.rng.below(12);
    let init: Vec<u8> = (0..n).map(|i| i as u8).collect();
    let kind = c.rng.below(4);
    let mut d = wd::Driver::new();
    c.nontrivial = true;
    c.desc = format!("kind {kind}, {n} bytes");
    let mut next = 31;
    macro_rules! both {
        ($a:expr, $b:expr) => {{
            for _ in 0..1 + c.rng.below(7) {
                let buf = payload(c, 7, &mut next);
                match c.rng.below(4) {
                    0 => {
                        let Out::Done(r) = op(&mut d, $a.write(&buf), None) else { return };
                        let s = $b.write(&buf);
                        ensure!(r.ok() == s.ok(), "write differs from std");
                    }
                    1 => {
                        let cut = c.rng.below(buf.len() + 1);
                        let sl = [IoSlice::new(&buf[..cut]), IoSlice::new(&buf[cut..])];
                        let Out::Done(r) = op(&mut d, $a.write_vectored(&sl), None) else { return };
                        let s = $b.write_vectored(&sl);
                        ensure!(r.ok() == s.ok(), "write_vectored differs from std");
                    }
                    // (an empty write_all makes std pad up to a position past the end)
                    2 if !buf.is_empty() => {
                        let Out::Done(r) = op(&mut d, $a.write_all(&buf), None) else { return };
                        let s = $b.write_all(&buf);
                        ensure!(r.map_err(|e| e.kind()) == s.map_err(|e| e.kind()), "write_all differs from std");
                    }
                    _ => {
                        let to = match c.rng.below(3) {
                            0 => SeekFrom::Start(c.rng.below(16) as u64),
                            1 => SeekFrom::End(c.rng.below(16) as i64 - 13),
                            _ => SeekFrom::Current(c.rng.below(16) as i64 - 8),
                        };
                        let Out::Done(r) = op(&mut d, $a.seek(to), None) else { return };
                        let s = $b.seek(to);
                        ensure!(r.map_err(|e| e.kind()) == s.map_err(|e| e.kind()), "seek({to:?}) differs from std");
                    }
                }
                if mon::violated() {
                    return;
                }
            }
            let Out::Done(Ok(())) = op(&mut d, $a.close(), None) else { return };
            let _ = $b.flush();
        }};
    }
    match kind {
        0 => {
            let mut a = Cursor::new(init.clone());
            let mut b = io::Cursor::new(init.clone());
            both!(a, b);
            ensure!(a.get_ref() == b.get_ref() && a.position() == b.position(), "Cursor<Vec>: {:?}, std {:?}", a.get_ref(), b.get_ref());
        }
        1 => {
            let (mut x, mut y) = (init.clone(), init.clone());
            {
                let mut a = Cursor::new(&mut x[..]);
                let mut b = io::Cursor::new(&mut y[..]);
                both!(a, b);
                ensure!(a.position() == b.position(), "Cursor<&mut [u8]>: position differs from std");
            }
            ensure!(x == y, "Cursor<&mut [u8]>: {x:?}, std {y:?}");
        }
        2 => {
            let mut a = Cursor::new(init.clone().into_boxed_slice());
            let mut b = io::Cursor::new(init.clone().into_boxed_slice());
            both!(a, b);
            ensure!(a.get_ref() == b.get_ref(), "Cursor<Box<[u8]>>: {:?}, std {:?}", a.get_ref(), b.get_ref());
        }
        _ => {
            let mut a = fio::sink();
            let buf = payload(c, 9, &mut next);
            let Out::Done(r) = op(&mut d, a.write(&buf), None) else { return };
            ensure!(r.ok() == Some(buf.len()), "io::sink does not accept everything");
            let mut v: Vec<u8> = init.clone();
            let Out::Done(r) = op(&mut d, AsyncWriteExt::write_all(&mut v, &buf), None) else { return };
            ensure!(r.is_ok() && v == [&init[..], &buf[..]].concat(), "Vec<u8> as a writer: {v:?}");
        }
    }
}
/// A random-access file with short writes.
struct Fl {
    g: wd::Gate,
    s: wd::Gate,
    data: Rc<std::cell::RefCell<Vec<u8>>>,
    pos: usize,
}
impl AsyncWrite for Fl {
    fn poll_write(mut self: Pin<&mut Self>, cx: &mut Context<'_>, buf: &[u8]) -> Poll<io::Result<usize>> {
        if self.g.poll(cx).is_pending() {
            return Poll::Pending;
        }
        let n = buf.len().min(1 + wd::rnd(4));
        let p = self.pos;
        let mut d = self.data.borrow_mut();
        if d.len() < p + n {
            d.resize(p + n, 0);
        }
        d[p..p + n].copy_from_slice(&buf[..n]);
        drop(d);
        self.pos += n;
        Poll::Ready(Ok(n))
    }
    fn poll_flush(self: Pin<&mut Self>, _: &mut Context<'_>) -> Poll<io::Result<()>> {
        Poll::Ready(Ok(()))
    }
    fn poll_close(self: Pin<&mut Self>, _: &mut Context<'_>) -> Poll<io::Result<()>> {
        Poll::Ready(Ok(()))
    }
}
impl AsyncSeek for Fl {
    fn poll_seek(mut self: Pin<&mut Self>, cx: &mut Context<'_>, pos: SeekFrom) -> Poll<io::Result<u64>> {
        if self.s.poll(cx).is_pending() {
            return Poll::Pending;
        }
        let len = self.data.borrow().len();
        let t = match pos {
            SeekFrom::Start(n) => n as i64,
            SeekFrom::End(n) => len as i64 + n,
            SeekFrom::Current(n) => self.pos as i64 + n,
        };
        if t < 0 {
            return Poll::Ready(Err(io::ErrorKind::InvalidInput.into()));
        }
        self.pos = t as usize;
        Poll::Ready(Ok(t as u64))
    }
}
fn seeking(c: &mut Case) {
    let data = Rc::new(std::cell::RefCell::new(Vec::new()));
    let cap = c.rng.below(9);
    let mut w = BufWriter::with_capacity(cap, Fl { g: wd::gate("write"), s: wd::gate("seek"), data: data.clone(), pos: 0 });
    let mut model: Vec<u8> = Vec::new();
    let mut pos = 0usize;
    let mut d = wd::Driver::new();
    let mut next = 31;
    c.desc = format!("capacity {cap}");
    c.nontrivial = true;
    for _ in 0..1 + c.rng.below(8) {
        match c.rng.below(3) {
            0 | 1 => {
                let buf = payload(c, 9, &mut next);
                let Out::Done(Ok(())) = op(&mut d, w.write_all(&buf), None) else { return };
                if !buf.is_empty() {
                    if model.len() < pos + buf.len() {
                        model.resize(pos + buf.len(), 0);
                    }
                    model[pos..pos + buf.len()].copy_from_slice(&buf);
                    pos += buf.len();
                }
            }
            _ => {
                let to = match c.rng.below(3) {
                    0 => SeekFrom::Start(c.rng.below(16) as u64),
                    1 => SeekFrom::End(-(c.rng.below(6) as i64)),
                    _ => SeekFrom::Current(c.rng.below(9) as i64 - 5),
                };
                let t = match to {
                    SeekFrom::Start(n) => n as i64,
                    SeekFrom::End(n) => model.len() as i64 + n,
                    SeekFrom::Current(n) => pos as i64 + n,
                };
                match op(&mut d, w.seek(to), None) {
                    Out::Done(Ok(p)) => {
                        ensure!(p as i64 == t, "seek({to:?}) gives {p}, expected {t}");
                        pos = t.max(0) as usize;
                    }
                    Out::Done(Err(e)) => ensure!(t < 0, "seek({to:?}) fails: {e}"),
                    _ => return,
                }
                ensure!(*data.borrow() == model, "seek: what was written before is {:?}, expected {model:?}", data.borrow());
            }
        }
        if mon::violated() {
            return;
        }
    }
    let Out::Done(Ok(())) = op(&mut d, w.close(), None) else { return };
    ensure!(*data.borrow() == model, "written {:?}, expected {model:?}", data.borrow());
    drop(w);
    drop(d);
    mon::check_released();
}
#[allow(unused)]
fn _u(x: &mut BR) {
    let _ = x.fill_buf();
}
fn main() {
    hv::main(
        "C24",
        vec![
            hv::w("writers", 12_000_000, 200_000_000, writers),
            hv::w("lines", 4_000_000, 60_000_000, lines),
            hv::w("copies", 6_000_000, 120_000_000, copies),
            hv::w("block_sink", 2_000_000, 60_000_000, block_sink),
            hv::w("memory", 300_000, 5_000_000, memory),
            hv::w("seeking", 1_000_000, 30_000_000, seeking),
        ],
    );
}
