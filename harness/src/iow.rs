//! Byte sources and sinks with scripted chunking, pendings, short writes and errors.

use crate::world as wd;
use crate::{ensure, logf, vio, Case};
use futures::io::{AsyncBufRead, AsyncRead, AsyncReadExt, AsyncWrite, BufReader, BufWriter, Cursor};
use futures::{future::Either, TryStreamExt};
use std::cell::RefCell;
use std::collections::VecDeque;
use std::io;
use std::pin::Pin;
use std::rc::Rc;
use std::task::{Context, Poll};

#[derive(Clone, Copy, PartialEq, Debug)]
pub enum Ev {
    B(u8),
    E(u32),
}
pub use Ev::{B, E};
pub fn err(c: u32) -> io::Error {
    io::Error::other(format!("E{c}"))
}
pub fn data(c: &mut Case, max: usize, errors: bool) -> Vec<Ev> {
    let n = c.rng.below(max + 1);
    let style = c.rng.below(4);
    let mut v = Vec::new();
    let mut code = c.rng.below(1000) as u32 * 10;
    while v.len() < n {
        if errors && c.rng.chance(1, 12) {
            code += 1;
            v.push(E(code));
        }
        match c.rng.below(if style == 0 { 12 } else { 8 }) {
            0 | 1 => v.push(B(b'\n')),
            2 => v.push(B(b'\r')),
            3 => v.extend([B(0xC3), B(0xA9)]),
            8 => v.push(B(0xFF)),
            9 => v.push(B(0xC3)),
            k => v.push(B(b'a' + k as u8 + (c.rng.below(10) as u8))),
        }
        if style == 1 && c.rng.chance(1, 3) {
            v.extend([B(b'\r'), B(b'\n')]);
        }
    }
    if errors && c.rng.chance(1, 8) {
        v.push(E(code + 1));
    }
    v
}
/// Leading bytes and what ends them (None: end of file).
pub fn run_of(m: &[Ev]) -> (Vec<u8>, Option<u32>) {
    let mut v = Vec::new();
    for e in m {
        match e {
            B(b) => v.push(*b),
            E(c) => return (v, Some(*c)),
        }
    }
    (v, None)
}
pub fn bytes(v: &[u8]) -> Vec<Ev> {
    v.iter().map(|b| B(*b)).collect()
}

// ------------------------------------------------------------------ readers
pub struct Lr {
    gate: wd::Gate,
    evs: VecDeque<Ev>,
    chunk: usize,
}
pub fn reader(evs: Vec<Ev>) -> Lr {
    Lr { gate: wd::gate("read"), evs: evs.into(), chunk: 1 + wd::rnd(6) }
}
impl AsyncRead for Lr {
    fn poll_read(mut self: Pin<&mut Self>, cx: &mut Context<'_>, buf: &mut [u8]) -> Poll<io::Result<usize>> {
        if self.gate.poll(cx).is_pending() {
            return Poll::Pending;
        }
        if buf.is_empty() {
            return Poll::Ready(Ok(0));
        }
        if let Some(E(c)) = self.evs.front() {
            let c = *c;
            self.evs.pop_front();
            return Poll::Ready(Err(err(c)));
        }
        let want = (1 + wd::rnd(self.chunk)).min(buf.len());
        let mut n = 0;
        while n < want {
            match self.evs.front() {
                Some(B(b)) => {
                    buf[n] = *b;
                    n += 1;
                    self.evs.pop_front();
                }
                _ => break,
            }
        }
        logf!("    leaf read: {n} bytes");
        // bytes beyond what is reported may be scribbled on
        if n < buf.len() && wd::chance(1, 2) {
            buf[n] = b'#';
        }
        Poll::Ready(Ok(n))
    }
    fn poll_read_vectored(mut self: Pin<&mut Self>, cx: &mut Context<'_>, bufs: &mut [io::IoSliceMut<'_>]) -> Poll<io::Result<usize>> {
        if self.chunk % 2 == 0 {
            // a reader with real vectored reads
            let total: usize = bufs.iter().map(|b| b.len()).sum();
            let mut tmp = vec![0; total];
            let r = self.as_mut().poll_read(cx, &mut tmp);
            if let Poll::Ready(Ok(n)) = &r {
                let mut rest = &tmp[..*n];
                for b in bufs {
                    let k = rest.len().min(b.len());
                    b[..k].copy_from_slice(&rest[..k]);
                    rest = &rest[k..];
                }
            }
            return r;
        }
        for b in bufs {
            if !b.is_empty() {
                return self.poll_read(cx, b);
            }
        }
        self.poll_read(cx, &mut [])
    }
}
/// Buffered reader with windows of random size.
pub struct Lb {
    inner: Lr,
    win: Vec<u8>,
    pos: usize,
}
pub fn buf_reader(evs: Vec<Ev>) -> Lb {
    Lb { inner: reader(evs), win: Vec::new(), pos: 0 }
}
impl AsyncRead for Lb {
    fn poll_read(mut self: Pin<&mut Self>, cx: &mut Context<'_>, buf: &mut [u8]) -> Poll<io::Result<usize>> {
        let n = match self.as_mut().poll_fill_buf(cx) {
            Poll::Pending => return Poll::Pending,
            Poll::Ready(Err(e)) => return Poll::Ready(Err(e)),
            Poll::Ready(Ok(w)) => {
                let n = w.len().min(buf.len());
                buf[..n].copy_from_slice(&w[..n]);
                n
            }
        };
        self.pos += n;
        Poll::Ready(Ok(n))
    }
}
impl AsyncBufRead for Lb {
    fn poll_fill_buf(self: Pin<&mut Self>, cx: &mut Context<'_>) -> Poll<io::Result<&[u8]>> {
        let this = self.get_mut();
        if this.pos == this.win.len() {
            let mut b = [0; 5];
            match Pin::new(&mut this.inner).poll_read(cx, &mut b) {
                Poll::Pending => return Poll::Pending,
                Poll::Ready(Err(e)) => return Poll::Ready(Err(e)),
                Poll::Ready(Ok(n)) => {
                    this.win = b[..n].to_vec();
                    this.pos = 0;
                }
            }
        }
        Poll::Ready(Ok(&this.win[this.pos..]))
    }
    fn consume(mut self: Pin<&mut Self>, amt: usize) {
        ensure!(amt <= self.win.len() - self.pos, "consume({amt}) of a reader that showed only {} bytes", self.win.len() - self.pos);
        self.pos = (self.pos + amt).min(self.win.len());
    }
}
/// std::io source; `Interrupted` at random.
pub struct StdR {
    evs: VecDeque<Ev>,
    win: Vec<u8>,
    pos: usize,
}
fn intr() -> bool {
    wd::chance(1, 5)
}
impl io::Read for StdR {
    fn read(&mut self, buf: &mut [u8]) -> io::Result<usize> {
        if intr() {
            return Err(io::ErrorKind::Interrupted.into());
        }
        let w = io::BufRead::fill_buf(self)?;
        let n = w.len().min(buf.len());
        buf[..n].copy_from_slice(&w[..n]);
        self.pos += n;
        Ok(n)
    }
}
impl io::BufRead for StdR {
    fn fill_buf(&mut self) -> io::Result<&[u8]> {
        if intr() {
            return Err(io::ErrorKind::Interrupted.into());
        }
        if self.pos == self.win.len() {
            if let Some(E(c)) = self.evs.front() {
                let c = *c;
                self.evs.pop_front();
                return Err(err(c));
            }
            self.win.clear();
            self.pos = 0;
            let k = 1 + wd::rnd(4);
            while self.win.len() < k {
                match self.evs.front() {
                    Some(B(b)) => {
                        self.win.push(*b);
                        self.evs.pop_front();
                    }
                    _ => break,
                }
            }
        }
        Ok(&self.win[self.pos..])
    }
    fn consume(&mut self, amt: usize) {
        ensure!(amt <= self.win.len() - self.pos, "consume({amt}) of a reader that showed only {} bytes", self.win.len() - self.pos);
        self.pos += amt;
    }
}

pub type BR = Pin<Box<dyn AsyncBufRead>>;
pub struct RPipe {
    pub r: BR,
    pub model: Vec<Ev>,
    pub desc: Vec<String>,
}
/// Both directions in one object; writes go nowhere.
struct Rw(BR);
impl AsyncRead for Rw {
    fn poll_read(mut self: Pin<&mut Self>, cx: &mut Context<'_>, buf: &mut [u8]) -> Poll<io::Result<usize>> {
        self.0.as_mut().poll_read(cx, buf)
    }
    fn poll_read_vectored(mut self: Pin<&mut Self>, cx: &mut Context<'_>, bufs: &mut [io::IoSliceMut<'_>]) -> Poll<io::Result<usize>> {
        self.0.as_mut().poll_read_vectored(cx, bufs)
    }
}
impl AsyncBufRead for Rw {
    fn poll_fill_buf(self: Pin<&mut Self>, cx: &mut Context<'_>) -> Poll<io::Result<&[u8]>> {
        self.get_mut().0.as_mut().poll_fill_buf(cx)
    }
    fn consume(mut self: Pin<&mut Self>, amt: usize) {
        self.0.as_mut().consume(amt)
    }
}
impl AsyncWrite for Rw {
    fn poll_write(self: Pin<&mut Self>, _: &mut Context<'_>, buf: &[u8]) -> Poll<io::Result<usize>> {
        Poll::Ready(Ok(buf.len()))
    }
    fn poll_flush(self: Pin<&mut Self>, _: &mut Context<'_>) -> Poll<io::Result<()>> {
        Poll::Ready(Ok(()))
    }
    fn poll_close(self: Pin<&mut Self>, _: &mut Context<'_>) -> Poll<io::Result<()>> {
        Poll::Ready(Ok(()))
    }
}
struct With<R, T>(R, #[allow(dead_code)] T);
impl<R: AsyncRead + Unpin, T: Unpin> AsyncRead for With<R, T> {
    fn poll_read(mut self: Pin<&mut Self>, cx: &mut Context<'_>, buf: &mut [u8]) -> Poll<io::Result<usize>> {
        Pin::new(&mut self.0).poll_read(cx, buf)
    }
    fn poll_read_vectored(mut self: Pin<&mut Self>, cx: &mut Context<'_>, bufs: &mut [io::IoSliceMut<'_>]) -> Poll<io::Result<usize>> {
        Pin::new(&mut self.0).poll_read_vectored(cx, bufs)
    }
}
pub fn source(c: &mut Case, max: usize) -> RPipe {
    let m = data(c, max, true);
    let cap = 1 + c.rng.below(7);
    match c.rng.below(9) {
        0..=2 => RPipe { r: Box::pin(BufReader::with_capacity(cap, reader(m.clone()))), desc: vec![format!("BufReader({cap}, leaf {m:?})")], model: m },
        3 | 4 => RPipe { r: Box::pin(buf_reader(m.clone())), desc: vec![format!("buf leaf {m:?}")], model: m },
        5 => {
            // a stream of chunks, some empty
            let mut chunks: Vec<io::Result<Vec<u8>>> = Vec::new();
            let mut model = Vec::new();
            let mut cur = Vec::new();
            for e in &m {
                match e {
                    B(b) => {
                        cur.push(*b);
                        model.push(*e);
                        if c.rng.chance(1, 3) {
                            chunks.push(Ok(std::mem::take(&mut cur)));
                        }
                        if c.rng.chance(1, 6) {
                            chunks.push(Ok(vec![]));
                        }
                    }
                    E(k) => {
                        chunks.push(Ok(std::mem::take(&mut cur)));
                        chunks.push(Err(err(*k)));
                        model.push(*e);
                        break;
                    }
                }
            }
            if !cur.is_empty() {
                chunks.push(Ok(cur));
            }
            RPipe { r: Box::pin(wd::stream(chunks).into_async_read()), desc: vec![format!("into_async_read {model:?}")], model }
        }
        6 => {
            let r = futures::io::AllowStdIo::new(StdR { evs: m.clone().into(), win: vec![], pos: 0 });
            RPipe { r: Box::pin(r), desc: vec![format!("AllowStdIo {m:?}")], model: m }
        }
        7 => {
            let (v, _) = run_of(&m);
            let r: BR = Box::pin(Cursor::new(v.clone()));
            RPipe { r, desc: vec![format!("Cursor {v:?}")], model: bytes(&v) }
        }
        _ => {
            let n = c.rng.below(6);
            let r: BR = if n == 0 { Box::pin(futures::io::empty()) } else { Box::pin(BufReader::with_capacity(cap, futures::io::repeat(b'r').take(n as u64))) };
            RPipe { r, desc: vec![format!("repeat x {n}")], model: bytes(&vec![b'r'; n]) }
        }
    }
}
impl RPipe {
    pub fn adapt(self, c: &mut Case) -> RPipe {
        let RPipe { r, model, mut desc } = self;
        let cap = 1 + c.rng.below(7);
        let (r, model): (BR, Vec<Ev>) = match c.rng.below(7) {
            0 => {
                desc.push(format!("BufReader({cap})"));
                (Box::pin(BufReader::with_capacity(cap, r)), model)
            }
            1 => {
                let lim = c.rng.below(model.len() + 3);
                desc.push(format!("take({lim})"));
                let mut left = lim;
                let mut m = Vec::new();
                for e in model {
                    if left == 0 {
                        break;
                    }
                    if let B(_) = e {
                        left -= 1;
                    }
                    m.push(e);
                }
                (Box::pin(r.take(lim as u64)), m)
            }
            2 => {
                let o = source(c, 8);
                desc.push(format!("chain({:?})", o.desc));
                let mut m = model;
                m.extend(o.model);
                (Box::pin(r.chain(o.r)), m)
            }
            3 => {
                desc.push("split".into());
                let (rd, wr) = Rw(r).split();
                ensure!(rd.is_pair_of(&wr), "split: halves are not a pair");
                if c.rng.chance(1, 2) {
                    (Box::pin(BufReader::with_capacity(cap, With(rd, Some(wr)))), model)
                } else if c.rng.chance(1, 2) {
                    drop(wr);
                    (Box::pin(BufReader::with_capacity(cap, rd)), model)
                } else {
                    match rd.reunite(wr) {
                        Ok(rw) => (Box::pin(rw), model),
                        Err(_) => {
                            vio!("reunite of the two halves failed");
                            (Box::pin(futures::io::empty()), vec![])
                        }
                    }
                }
            }
            4 => {
                desc.push("BufWriter".into());
                (Box::pin(BufWriter::new(Rw(r))), model)
            }
            5 => {
                desc.push("Either".into());
                let e: BR = if c.rng.chance(1, 2) { Box::pin(Either::<BR, Lb>::Left(r)) } else { Box::pin(Either::<Lb, BR>::Right(r)) };
                (e, model)
            }
            _ => {
                desc.push("Box".into());
                (Box::pin(Box::new(r)), model)
            }
        };
        RPipe { r, model, desc }
    }
}
pub fn random_reader(c: &mut Case, depth: usize, max: usize) -> RPipe {
    let mut p = source(c, max);
    for _ in 0..c.rng.below(depth + 1) {
        p = p.adapt(c);
    }
    c.desc = format!("{:?}", p.desc);
    p
}

// ------------------------------------------------------------------ writers
#[derive(Default, Debug)]
pub struct Wst {
    pub got: Vec<u8>,
    pub flushed: usize,
    pub closed: bool,
    pub errs: u32,
    pub zeros: u32,
    pub last_err: u32,
}
pub type Wr = Rc<RefCell<Wst>>;
pub struct Lw {
    write: wd::Gate,
    flush: wd::Gate,
    close: wd::Gate,
    st: Wr,
    chunk: usize,
    /// chance (1/16) of an error / of Ok(0)
    bad: usize,
    zero: usize,
    vectored: bool,
    code: u32,
}
pub fn writer(chunk: usize, bad: usize, zero: usize) -> (Lw, Wr) {
    let st: Wr = Default::default();
    (Lw { write: wd::gate("write"), flush: wd::gate("wflush"), close: wd::gate("wclose"), st: st.clone(), chunk, bad, zero, vectored: wd::chance(1, 2), code: 1_000_000 }, st)
}
impl Lw {
    fn fail(&mut self) -> Option<io::Error> {
        if wd::chance(self.bad, 16) {
            self.code += 1;
            let mut s = self.st.borrow_mut();
            s.errs += 1;
            s.last_err = self.code;
            logf!("    leaf writer fails with E{}", self.code);
            return Some(err(self.code));
        }
        None
    }
    fn put(&mut self, bufs: &[&[u8]]) -> io::Result<usize> {
        let total: usize = bufs.iter().map(|b| b.len()).sum();
        if self.st.borrow().closed {
            vio!("write to a writer that is closed");
        }
        if let Some(e) = self.fail() {
            return Err(e);
        }
        if total == 0 {
            return Ok(0);
        }
        if wd::chance(self.zero, 16) {
            self.st.borrow_mut().zeros += 1;
            return Ok(0);
        }
        let mut k = if self.chunk == 0 { total } else { (1 + wd::rnd(self.chunk)).min(total) };
        let n = k;
        let mut s = self.st.borrow_mut();
        for b in bufs {
            let t = k.min(b.len());
            s.got.extend_from_slice(&b[..t]);
            k -= t;
        }
        logf!("    leaf writer takes {n} of {total}");
        Ok(n)
    }
}
impl AsyncWrite for Lw {
    fn poll_write(mut self: Pin<&mut Self>, cx: &mut Context<'_>, buf: &[u8]) -> Poll<io::Result<usize>> {
        if self.write.poll(cx).is_pending() {
            return Poll::Pending;
        }
        Poll::Ready(self.put(&[buf]))
    }
    fn poll_write_vectored(mut self: Pin<&mut Self>, cx: &mut Context<'_>, bufs: &[io::IoSlice<'_>]) -> Poll<io::Result<usize>> {
        if !self.vectored {
            let b = bufs.iter().find(|b| !b.is_empty()).map_or(&[][..], |b| &b[..]);
            return self.poll_write(cx, b);
        }
        if self.write.poll(cx).is_pending() {
            return Poll::Pending;
        }
        let v: Vec<&[u8]> = bufs.iter().map(|b| &b[..]).collect();
        Poll::Ready(self.put(&v))
    }
    fn poll_flush(mut self: Pin<&mut Self>, cx: &mut Context<'_>) -> Poll<io::Result<()>> {
        if self.flush.poll(cx).is_pending() {
            return Poll::Pending;
        }
        if let Some(e) = self.fail() {
            return Poll::Ready(Err(e));
        }
        let mut s = self.st.borrow_mut();
        s.flushed = s.got.len();
        Poll::Ready(Ok(()))
    }
    fn poll_close(mut self: Pin<&mut Self>, cx: &mut Context<'_>) -> Poll<io::Result<()>> {
        if self.close.poll(cx).is_pending() {
            return Poll::Pending;
        }
        if let Some(e) = self.fail() {
            return Poll::Ready(Err(e));
        }
        let mut s = self.st.borrow_mut();
        s.flushed = s.got.len();
        s.closed = true;
        Poll::Ready(Ok(()))
    }
}
/// std::io writer below AllowStdIo.
pub struct StdW(pub Wr, pub usize);
impl io::Write for StdW {
    fn write(&mut self, buf: &[u8]) -> io::Result<usize> {
        if intr() {
            return Err(io::ErrorKind::Interrupted.into());
        }
        let k = (1 + wd::rnd(self.1)).min(buf.len());
        self.0.borrow_mut().got.extend_from_slice(&buf[..k]);
        Ok(k)
    }
    fn flush(&mut self) -> io::Result<()> {
        if intr() {
            return Err(io::ErrorKind::Interrupted.into());
        }
        let mut s = self.0.borrow_mut();
        s.flushed = s.got.len();
        s.closed = true; // close of AllowStdIo is flush
        Ok(())
    }
}
