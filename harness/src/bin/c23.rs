//! C23: readers deliver exactly the source's bytes.
use futures::io::{AsyncBufRead, AsyncBufReadExt, AsyncRead, AsyncReadExt, AsyncSeek, AsyncSeekExt, BufReader, Cursor};
use futures::StreamExt;
use hv::iow::{self, run_of, Ev, RPipe, B, BR, E};
use hv::mon;
use hv::world as wd;
use hv::{ensure, vio, Case};
use std::future::Future;
use std::io::{self, IoSliceMut, SeekFrom};
use std::pin::Pin;
use std::task::{Context, Poll};

enum Out<T> {
    Done(io::Result<T>),
    Cancelled,
    Bad,
}
fn op<T, F: Future<Output = io::Result<T>>>(d: &mut wd::Driver, f: F, cancel: Option<usize>) -> Out<T> {
    let mut f = std::pin::pin!(f);
    let mut n = 0;
    loop {
        if cancel == Some(n) {
            return Out::Cancelled;
        }
        n += 1;
        match d.poll(|cx| f.as_mut().poll(cx)) {
            Poll::Ready(r) => return Out::Done(r),
            Poll::Pending => {
                if d.polls > d.max_polls {
                    vio!("not finished after {} polls although every leaf makes progress", d.max_polls);
                }
                if mon::violated() {
                    return Out::Bad;
                }
                if !d.idle() {
                    if !mon::violated() {
                        vio!("lost wake-up: pending, its latest waker not woken, and no event outstanding");
                    }
                    return Out::Bad;
                }
            }
        }
    }
}
/// What remains of the source.
struct Model {
    evs: Vec<Ev>,
    at: usize,
}
impl Model {
    fn rest(&self) -> (Vec<u8>, Option<u32>) {
        run_of(&self.evs[self.at..])
    }
    /// Goes past `n` bytes.
    fn skip(&mut self, n: usize) {
        self.at += n;
    }
    /// Goes past the run of bytes and the error that ends it, if any.
    fn skip_run(&mut self) {
        let (v, e) = self.rest();
        self.at += v.len() + e.is_some() as usize;
    }
}
fn same_err(e: &io::Error, code: u32) -> bool {
    e.to_string() == format!("E{code}")
}
fn utf8(v: &[u8]) -> bool {
    std::str::from_utf8(v).is_ok()
}
/// One operation; false: stop the case.
fn step(c: &mut Case, d: &mut wd::Driver, r: &mut BR, m: &mut Model) -> bool {
    let cancel = if c.rng.chance(1, 6) { Some(c.rng.below(3)) } else { None };
    let (rest, end) = m.rest();
    let n = c.rng.below(9);
    let kind = c.rng.below(9);
    match kind {
        0 | 1 => {
            let vect = kind == 1;
            let mut buf = vec![0u8; n];
            if n == 0 && rest.is_empty() && end.is_some() {
                return true; // what a read of nothing does in front of an error is open
            }
            let name = if vect { "read_vectored" } else { "read" };
            c.count(name, 1);
            let res = if vect {
                let cut = c.rng.below(n + 1);
                let cut2 = cut + c.rng.below(n - cut + 1);
                let (a, bb) = buf.split_at_mut(cut);
                let (b, cc) = bb.split_at_mut(cut2 - cut);
                let mut v = [IoSliceMut::new(a), IoSliceMut::new(b), IoSliceMut::new(cc)];
                op(d, r.read_vectored(&mut v), cancel)
            } else {
                op(d, r.read(&mut buf), cancel)
            };
            match res {
                Out::Bad => return false,
                Out::Cancelled => {}
                Out::Done(Ok(k)) => {
                    if k > n {
                        vio!("{name} of {n} bytes reports {k}");
                        return false;
                    }
                    // (a vectored read fills the slices in order, so buf is contiguous unless the reader took only the first non-empty one)
                    ensure!(rest.starts_with(&buf[..k]), "{name}({n}) gives {:?}, the source continues with {rest:?}", &buf[..k]);
                    if k == 0 && n > 0 {
                        ensure!(rest.is_empty() && end.is_none(), "{name} reports end of file before {rest:?} {end:?}");
                    }
                    m.skip(k);
                }
                Out::Done(Err(e)) => {
                    ensure!(rest.is_empty() && end.is_some_and(|k| same_err(&e, k)), "{name} fails with {e}, expected {rest:?} {end:?}");
                    m.skip_run();
                }
            }
        }
        2 => {
            c.count("read_exact", 1);
            let mut buf = vec![0u8; n];
            let before = buf.clone();
            match op(d, r.read_exact(&mut buf), cancel) {
                Out::Bad | Out::Cancelled => return false,
                Out::Done(Ok(())) => {
                    ensure!(rest.len() >= n && buf[..] == rest[..n.min(rest.len())], "read_exact({n}) gives {buf:?}, the source continues with {rest:?}");
                    m.skip(n);
                }
                Out::Done(Err(e)) => {
                    ensure!(rest.len() < n, "read_exact({n}) fails with {e} although {} bytes are left", rest.len());
                    match end {
                        Some(k) => ensure!(same_err(&e, k), "read_exact fails with {e}, expected E{k}"),
                        None => ensure!(e.kind() == io::ErrorKind::UnexpectedEof, "read_exact fails with {e}, expected UnexpectedEof"),
                    }
                    if rest.len() < n {
                        ensure!(buf[..rest.len()] == rest[..], "read_exact: the bytes before the error are {:?}, expected {rest:?}", &buf[..rest.len()]);
                    }
                    m.skip_run();
                }
            }
            let _ = before;
        }
        3 => {
            c.count("fill_buf", 1);
            let mut take = None;
            match op(d, r.fill_buf(), cancel) {
                Out::Bad => return false,
                Out::Cancelled => {}
                Out::Done(Ok(w)) => {
                    ensure!(rest.starts_with(w), "fill_buf shows {w:?}, the source continues with {rest:?}");
                    if w.is_empty() {
                        ensure!(rest.is_empty() && end.is_none(), "fill_buf reports end of file before {rest:?} {end:?}");
                    } else {
                        take = Some(wd::rnd(w.len() + 1));
                    }
                }
                Out::Done(Err(e)) => {
                    ensure!(rest.is_empty() && end.is_some_and(|k| same_err(&e, k)), "fill_buf fails with {e}, expected {rest:?} {end:?}");
                    m.skip_run();
                }
            }
            if let Some(k) = take {
                r.consume_unpin(k);
                m.skip(k);
            }
        }
        4 => {
            c.count("read_until", 1);
            let delim = *c.rng.pick(&[b'\n', b'e', 0xA9]);
            let pre = vec![b'x'; c.rng.below(3)];
            let mut buf = pre.clone();
            let line = rest.iter().position(|b| *b == delim).map(|i| i + 1);
            match op(d, r.read_until(delim, &mut buf), cancel) {
                Out::Bad => return false,
                Out::Cancelled => {
                    let full = &rest[..line.unwrap_or(rest.len())];
                    ensure!(buf.starts_with(&pre) && full.starts_with(&buf[pre.len().min(buf.len())..]), "read_until (dropped): buffer {buf:?}");
                    m.skip(buf.len().saturating_sub(pre.len()));
                }
                Out::Done(res) => {
                    let want = &rest[..line.unwrap_or(rest.len())];
                    ensure!(buf[..] == [&pre[..], want].concat()[..], "read_until appends to {pre:?}: {buf:?}, expected {want:?} added");
                    match (res, line, end) {
                        (Ok(k), None, Some(e)) => vio!("read_until reports {k}, expected error E{e}"),
                        (Err(e), None, Some(k)) => ensure!(same_err(&e, k), "read_until fails with {e}, expected E{k}"),
                        (Ok(k), _, _) => ensure!(k == want.len(), "read_until reports {k} bytes, {} were read", want.len()),
                        (Err(e), _, _) => vio!("read_until fails with {e}"),
                    }
                    if line.is_some() {
                        m.skip(want.len());
                    } else {
                        m.skip_run();
                    }
                }
            }
        }
        5 => {
            c.count("read_line", 1);
            let pre = "é".repeat(c.rng.below(3));
            let mut buf = pre.clone();
            let line = rest.iter().position(|b| *b == b'\n').map(|i| i + 1);
            let want = rest[..line.unwrap_or(rest.len())].to_vec();
            match op(d, r.read_line(&mut buf), cancel) {
                Out::Bad => return false,
                Out::Cancelled => {
                    ensure!(buf == pre, "read_line (dropped): the string is {buf:?}, it was {pre:?}");
                    return false;
                }
                Out::Done(res) => {
                    let ok = utf8(&want);
                    let exp = if ok { format!("{pre}{}", std::str::from_utf8(&want).unwrap()) } else { pre.clone() };
                    ensure!(buf == exp, "read_line: the string is {buf:?}, expected {exp:?}");
                    match (res, line.is_none().then_some(end).flatten()) {
                        (Ok(k), None) => ensure!(ok && k == want.len(), "read_line reports {k} for {want:?}"),
                        (Err(e), None) => ensure!(!ok && e.kind() == io::ErrorKind::InvalidData, "read_line fails with {e} for {want:?}"),
                        (Err(e), Some(k)) => ensure!(same_err(&e, k), "read_line fails with {e}, expected E{k}"),
                        (Ok(k), Some(e)) => vio!("read_line reports {k}, expected error E{e}"),
                    }
                    if line.is_some() {
                        m.skip(want.len());
                    } else {
                        m.skip_run();
                    }
                }
            }
        }
        6 => {
            c.count("read_to_end", 1);
            let pre = vec![b'x'; c.rng.below(3)];
            let mut buf = pre.clone();
            if c.rng.chance(1, 2) {
                buf.reserve_exact(c.rng.below(10));
            }
            match op(d, r.read_to_end(&mut buf), cancel) {
                Out::Bad => return false,
                Out::Cancelled => {
                    ensure!(buf.starts_with(&pre) && rest.starts_with(&buf[pre.len().min(buf.len())..]), "read_to_end (dropped): buffer {buf:?}, source {rest:?}");
                    m.skip(buf.len().saturating_sub(pre.len()));
                }
                Out::Done(res) => {
                    ensure!(buf[..] == [&pre[..], &rest[..]].concat()[..], "read_to_end appends to {pre:?}: {buf:?}, expected {rest:?} added");
                    match (res, end) {
                        (Ok(k), None) => ensure!(k == rest.len(), "read_to_end reports {k} of {}", rest.len()),
                        (Err(e), Some(k)) => ensure!(same_err(&e, k), "read_to_end fails with {e}, expected E{k}"),
                        (res, _) => vio!("read_to_end gives {res:?}, expected {end:?}"),
                    }
                    m.skip_run();
                }
            }
        }
        7 => {
            c.count("read_to_string", 1);
            let pre = "é".repeat(c.rng.below(3));
            let mut buf = pre.clone();
            match op(d, r.read_to_string(&mut buf), cancel) {
                Out::Bad => return false,
                Out::Cancelled => {
                    ensure!(buf == pre, "read_to_string (dropped): the string is {buf:?}, it was {pre:?}");
                    return false;
                }
                Out::Done(res) => {
                    let ok = utf8(&rest);
                    let exp = if ok { format!("{pre}{}", std::str::from_utf8(&rest).unwrap()) } else { pre.clone() };
                    ensure!(buf == exp, "read_to_string: the string is {buf:?}, expected {exp:?}");
                    match (res, end) {
                        (Ok(k), None) => ensure!(ok && k == rest.len(), "read_to_string reports {k} for {rest:?}"),
                        (Err(e), None) => ensure!(!ok && e.kind() == io::ErrorKind::InvalidData, "read_to_string fails with {e} for {rest:?}"),
                        (Err(e), Some(k)) => ensure!(same_err(&e, k), "read_to_string fails with {e}, expected E{k}"),
                        (Ok(k), Some(e)) => vio!("read_to_string reports {k}, expected error E{e}"),
                    }
                    m.skip_run();
                }
            }
        }
        _ => {
            c.count("lines", 1);
            let k = 1 + c.rng.below(5);
            let mut l = r.as_mut().lines();
            for _ in 0..k {
                let (rest, end) = m.rest();
                let line = rest.iter().position(|b| *b == b'\n').map(|i| i + 1);
                let raw = rest[..line.unwrap_or(rest.len())].to_vec();
                let got = match d.drive(|cx| l.poll_next_unpin(cx)) {
                    wd::Drive::Done(x) => x,
                    _ => return false,
                };
                let end = line.is_none().then_some(end).flatten();
                match got {
                    None => {
                        ensure!(raw.is_empty() && end.is_none(), "lines ends before {raw:?} {end:?}");
                        break;
                    }
                    Some(Ok(s)) => {
                        let mut w = raw.clone();
                        if w.last() == Some(&b'\n') {
                            w.pop();
                            if w.last() == Some(&b'\r') {
                                w.pop();
                            }
                        }
                        ensure!(end.is_none() && !raw.is_empty() && s.as_bytes() == w, "lines gives {s:?}, expected {w:?} {end:?}");
                    }
                    Some(Err(e)) => match end {
                        Some(k) => ensure!(same_err(&e, k), "lines gives error {e}, expected E{k}"),
                        None => ensure!(!utf8(&raw) && e.kind() == io::ErrorKind::InvalidData, "lines gives error {e} for {raw:?}"),
                    },
                }
                if line.is_some() {
                    m.skip(raw.len());
                } else {
                    m.skip_run();
                }
                if mon::violated() {
                    return false;
                }
            }
        }
    }
    !mon::violated()
}
fn readers(c: &mut Case) {
    let big = c.rng.chance(1, 20);
    let RPipe { mut r, model, .. } = iow::random_reader(c, 3, if big { 120 } else { 16 });
    let mut m = Model { evs: model, at: 0 };
    let mut d = wd::Driver::new();
    c.nontrivial = !m.evs.is_empty();
    for _ in 0..1 + c.rng.below(8) {
        if !step(c, &mut d, &mut r, &mut m) {
            break;
        }
    }
    drop(r);
    drop(d);
    mon::check_released();
}

// ------------------------------------------------------------------ seeking
struct Sr {
    read: wd::Gate,
    seek: wd::Gate,
    data: Vec<u8>,
    pos: u64,
}
impl AsyncRead for Sr {
    fn poll_read(mut self: Pin<&mut Self>, cx: &mut Context<'_>, buf: &mut [u8]) -> Poll<io::Result<usize>> {
        if self.read.poll(cx).is_pending() {
            return Poll::Pending;
        }
        let p = (self.pos as usize).min(self.data.len());
        let n = (self.data.len() - p).min(buf.len()).min(1 + wd::rnd(6));
        buf[..n].copy_from_slice(&self.data[p..p + n]);
        self.pos += n as u64;
        Poll::Ready(Ok(n))
    }
}
fn target(pos: SeekFrom, cur: u64, len: usize) -> Option<u64> {
    match pos {
        SeekFrom::Start(n) => Some(n),
        SeekFrom::End(n) => (len as u64).checked_add_signed(n),
        SeekFrom::Current(n) => cur.checked_add_signed(n),
    }
}
impl AsyncSeek for Sr {
    fn poll_seek(mut self: Pin<&mut Self>, cx: &mut Context<'_>, pos: SeekFrom) -> Poll<io::Result<u64>> {
        if self.seek.poll(cx).is_pending() {
            return Poll::Pending;
        }
        match target(pos, self.pos, self.data.len()) {
            Some(p) => {
                self.pos = p;
                Poll::Ready(Ok(p))
            }
            None => Poll::Ready(Err(io::ErrorKind::InvalidInput.into())),
        }
    }
}
fn seeking(c: &mut Case) {
    let len = c.rng.below(30);
    let data: Vec<u8> = (0..len).map(|i| i as u8 + 1).collect();
    let cap = 1 + c.rng.below(8);
    c.desc = format!("len {len}, capacity {cap}");
    c.nontrivial = true;
    let leaf = Sr { read: wd::gate("read"), seek: wd::gate("seek"), data: data.clone(), pos: 0 };
    let mut r = Box::pin(BufReader::with_capacity(cap, leaf));
    let mut d = wd::Driver::new();
    let mut pos = 0u64;
    for _ in 0..1 + c.rng.below(12) {
        let at = (pos as usize).min(len);
        let rest = &data[at..];
        match c.rng.below(6) {
            0 => {
                let n = 1 + c.rng.below(8);
                let mut b = vec![0; n];
                match op(&mut d, r.read(&mut b), None) {
                    Out::Done(Ok(k)) => {
                        ensure!(rest.starts_with(&b[..k]) && (k > 0 || rest.is_empty()), "at {pos}: read gives {:?}, expected {rest:?}", &b[..k]);
                        pos += k as u64;
                    }
                    _ => return,
                }
            }
            1 => {
                let k = match op(&mut d, r.fill_buf(), None) {
                    Out::Done(Ok(w)) => {
                        ensure!(rest.starts_with(w) && (!w.is_empty() || rest.is_empty()), "at {pos}: fill_buf shows {w:?}, expected {rest:?}");
                        wd::rnd(w.len() + 1)
                    }
                    _ => return,
                };
                r.consume_unpin(k);
                pos += k as u64;
            }
            2 | 3 => {
                let to = match c.rng.below(9) {
                    0 => SeekFrom::Current(i64::MIN),
                    1 | 2 => SeekFrom::Start(c.rng.below(len + 5) as u64),
                    3 | 4 => SeekFrom::End(c.rng.below(8) as i64 - 6),
                    _ => SeekFrom::Current(c.rng.below(21) as i64 - 10),
                };
                let want = target(to, pos, len);
                match op(&mut d, r.seek(to), None) {
                    Out::Done(Ok(p)) => {
                        ensure!(Some(p) == want, "seek({to:?}) at {pos} gives {p}, expected {want:?}");
                        pos = p;
                        ensure!(r.buffer().is_empty(), "seek left {} bytes in the buffer", r.buffer().len());
                    }
                    Out::Done(Err(e)) => ensure!(want.is_none(), "seek({to:?}) at {pos} fails: {e}"),
                    _ => return,
                }
            }
            4 => {
                let off = match c.rng.below(10) {
                    0 => i64::MIN,
                    1 => c.rng.below(40) as i64 - 20,
                    _ => c.rng.below(9) as i64 - 4,
                };
                let want = pos.checked_add_signed(off);
                let f = r.as_mut().seek_relative(off);
                match op(&mut d, f, None) {
                    Out::Done(Ok(())) => match want {
                        Some(p) => pos = p,
                        None => vio!("seek_relative({off}) at {pos} succeeds"),
                    },
                    Out::Done(Err(e)) => ensure!(want.is_none(), "seek_relative({off}) at {pos} fails: {e}"),
                    _ => return,
                }
            }
            _ => match op(&mut d, r.stream_position(), None) {
                Out::Done(Ok(p)) => ensure!(p == pos, "stream_position gives {p}, expected {pos}"),
                Out::Done(Err(e)) => vio!("stream_position fails: {e}"),
                _ => return,
            },
        }
        if mon::violated() {
            return;
        }
    }
    drop(r);
    drop(d);
    mon::check_released();
}

/// Cursor against std's Cursor.
fn cursor(c: &mut Case) {
    let n = c.rng.below(20);
    let data: Vec<u8> = (0..n).map(|_| c.rng.below(5) as u8 + b'a').collect();
    let mut a = Cursor::new(data.clone());
    let mut b = io::Cursor::new(data);
    c.nontrivial = true;
    let mut d = wd::Driver::new();
    use std::io::{BufRead as _, Read as _, Seek as _};
    for _ in 0..1 + c.rng.below(8) {
        match c.rng.below(6) {
            0 => {
                let k = c.rng.below(8);
                let (mut x, mut y) = (vec![0; k], vec![0; k]);
                let Out::Done(r) = op(&mut d, a.read(&mut x), None) else { return };
                let s = b.read(&mut y);
                ensure!(r.ok() == s.ok() && x == y, "Cursor::read differs from std");
            }
            1 => {
                let to = match c.rng.below(3) {
                    0 => SeekFrom::Start(c.rng.below(30) as u64),
                    1 => SeekFrom::End(c.rng.below(30) as i64 - 25),
                    _ => SeekFrom::Current(c.rng.below(30) as i64 - 15),
                };
                let Out::Done(r) = op(&mut d, a.seek(to), None) else { return };
                let s = b.seek(to);
                ensure!(r.map_err(|e| e.kind()) == s.map_err(|e| e.kind()), "Cursor::seek differs from std");
            }
            2 => {
                let Out::Done(r) = op(&mut d, a.fill_buf(), None) else { return };
                let w = r.unwrap().to_vec();
                ensure!(w == b.fill_buf().unwrap(), "Cursor::fill_buf differs from std");
                let k = c.rng.below(w.len() + 1);
                a.consume_unpin(k);
                b.consume(k);
            }
            3 => {
                let (mut x, mut y) = (vec![], vec![]);
                let Out::Done(r) = op(&mut d, a.read_until(b'c', &mut x), None) else { return };
                let s = b.read_until(b'c', &mut y);
                ensure!(r.ok() == s.ok() && x == y, "Cursor::read_until differs from std");
            }
            4 => {
                let p = c.rng.below(30) as u64;
                a.set_position(p);
                b.set_position(p);
            }
            _ => {
                let k = c.rng.below(8);
                let (mut x, mut y) = (vec![0; k], vec![0; k]);
                let Out::Done(r) = op(&mut d, a.read_exact(&mut x), None) else { return };
                let s = b.read_exact(&mut y);
                ensure!(r.is_ok() == s.is_ok(), "Cursor::read_exact differs from std");
                if s.is_ok() {
                    ensure!(x == y, "Cursor::read_exact differs from std");
                } else {
                    let p = b.get_ref().len() as u64;
                    a.set_position(p);
                    b.set_position(p);
                }
            }
        }
        ensure!(a.position() == b.position(), "Cursor position {} differs from std's {}", a.position(), b.position());
        if mon::violated() {
            return;
        }
    }
    // Window
    let v: Vec<u8> = (0..10).collect();
    let mut w = futures::io::Window::new(v.clone());
    let s = c.rng.below(11);
    let e = s + c.rng.below(11 - s);
    match c.rng.below(4) {
        0 => w.set(s..e),
        1 if e < 10 => w.set(s..=e),
        2 => w.set(s..),
        _ => w.set(..e),
    }
    ensure!(w.as_ref() == &v[w.start()..w.end()], "Window shows {:?}", w.as_ref());
    drop(d);
}
/// The write half can be used while the read half reads: no byte of either direction is lost.
fn halves(c: &mut Case) {
    use futures::io::AsyncWriteExt;
    let m = iow::data(c, 20, false);
    let (want, _) = run_of(&m);
    struct Both(iow::Lr, iow::Lw);
    impl AsyncRead for Both {
        fn poll_read(mut self: Pin<&mut Self>, cx: &mut Context<'_>, buf: &mut [u8]) -> Poll<io::Result<usize>> {
            Pin::new(&mut self.0).poll_read(cx, buf)
        }
    }
    impl futures::io::AsyncWrite for Both {
        fn poll_write(mut self: Pin<&mut Self>, cx: &mut Context<'_>, buf: &[u8]) -> Poll<io::Result<usize>> {
            Pin::new(&mut self.1).poll_write(cx, buf)
        }
        fn poll_flush(mut self: Pin<&mut Self>, cx: &mut Context<'_>) -> Poll<io::Result<()>> {
            Pin::new(&mut self.1).poll_flush(cx)
        }
        fn poll_close(mut self: Pin<&mut Self>, cx: &mut Context<'_>) -> Poll<io::Result<()>> {
            Pin::new(&mut self.1).poll_close(cx)
        }
    }
    let (lw, st) = iow::writer(1 + c.rng.below(5), 0, 0);
    let (mut rd, mut wr) = Both(iow::reader(m.clone()), lw).split();
    let out: Vec<u8> = (0..c.rng.below(20)).map(|i| i as u8).collect();
    let o2 = out.clone();
    c.desc = format!("reads {want:?} writes {out:?}");
    c.nontrivial = true;
    let f = futures::future::join(
        async move {
            let mut v = Vec::new();
            let r = rd.read_to_end(&mut v).await;
            (v, r, rd)
        },
        async move {
            for ch in o2.chunks(3) {
                wr.write_all(ch).await.unwrap();
            }
            wr.close().await.unwrap();
            wr
        },
    );
    let Some(((v, r, rd), wr)) = wd::run(f) else { return };
    ensure!(r.ok() == Some(want.len()) && v == want, "read half gives {v:?}, expected {want:?}");
    ensure!(st.borrow().got == out && st.borrow().closed, "write half passed on {:?}, expected {out:?}", st.borrow().got);
    ensure!(wr.reunite(rd).is_ok(), "reunite failed");
    mon::check_released();
}
#[allow(unused)]
fn _unused(e: Ev) -> bool {
    matches!(e, B(_) | E(_))
}
fn main() {
    hv::main(
        "C23",
        vec![
            hv::w("readers", 12_000_000, 250_000_000, readers),
            hv::w("seeking", 2_000_000, 80_000_000, seeking),
            hv::w("cursor", 500_000, 10_000_000, cursor),
            hv::w("halves", 500_000, 20_000_000, halves),
        ],
    );
}
