//! A sparse in-memory block device with an operation log and fault injection.
use std::sync::atomic::{AtomicBool, Ordering};
use std::cell::RefCell;
use std::collections::BTreeMap;
use std::io::{Error, ErrorKind, Read, Result, Seek, SeekFrom, Write};
use std::rc::Rc;

pub const PAGE: u64 = 512;

#[derive(Clone, Debug, PartialEq)]
pub enum Op {
    Seek(u64),
    Read(u64, u64),
    Write(u64, u64),
    Flush,
}

#[derive(Clone, Copy, Debug, PartialEq)]
pub enum Mode {
    Fail,          // error, no effect
    Partial(u16),  // a write takes effect for that many 1/65536 and then errors
    Zero,          // a write accepts nothing / a read returns nothing
}

#[derive(Clone, Default)]
pub struct State {
    pub len: u64,
    pub pages: BTreeMap<u64, [u8; 512]>,
    pub bg: u8, // 0: unwritten pages are zero, else a pattern
    pub pos: u64,
    pub log: Vec<Op>,
    pub ops: u64,
    pub fault: Option<(u64, Mode)>, // op number since `arm`
    pub faulted: bool,
    pub persist: bool, // once faulted every later op fails too
    pub limit: u64,
    pub hi: u64,    // furthest byte reached
    pub stale: u64, // operations since then
    pub chop: u64, // at most this many bytes per read/write call (0: no limit)
    pub intr: u64, // every intr-th read/write call is interrupted (0: never)
    pub cap: u64,  // writes past this end are refused like a full disk
}

impl State {
    pub fn page(&self, n: u64) -> [u8; 512] {
        match self.pages.get(&n) {
            Some(p) => *p,
            None => bg_page(self.bg, n),
        }
    }
    pub fn byte(&self, at: u64) -> u8 {
        self.page(at / PAGE)[(at % PAGE) as usize]
    }
    pub fn get(&self, at: u64, len: usize) -> Vec<u8> {
        let mut v = Vec::with_capacity(len);
        let mut a = at;
        while v.len() < len {
            let p = self.page(a / PAGE);
            let o = (a % PAGE) as usize;
            let n = (512 - o).min(len - v.len());
            v.extend_from_slice(&p[o..o + n]);
            a += n as u64;
        }
        v
    }
    /// None past the end
    pub fn try_get(&self, at: u128, len: usize) -> Option<Vec<u8>> {
        if at + len as u128 > self.len as u128 {
            return None;
        }
        Some(self.get(at as u64, len))
    }
    pub fn put(&mut self, at: u64, data: &[u8]) {
        let mut a = at;
        let mut d = data;
        while !d.is_empty() {
            let o = (a % PAGE) as usize;
            let n = (512 - o).min(d.len());
            let bg = self.bg;
            let k = a / PAGE;
            let p = self.pages.entry(k).or_insert_with(|| bg_page(bg, k));
            p[o..o + n].copy_from_slice(&d[..n]);
            d = &d[n..];
            a += n as u64;
        }
    }
    /// positions of the bytes that differ, as (first, last) runs per page
    pub fn diff(&self, o: &State) -> Vec<u64> {
        let mut v = Vec::new();
        let mut keys: Vec<u64> = self.pages.keys().chain(o.pages.keys()).cloned().collect();
        keys.sort_unstable();
        keys.dedup();
        for k in keys {
            let (a, b) = (self.page(k), o.page(k));
            if a != b {
                for i in 0..512 {
                    if a[i] != b[i] {
                        v.push(k * PAGE + i as u64);
                    }
                }
            }
        }
        v
    }
}

fn bg_page(bg: u8, n: u64) -> [u8; 512] {
    if bg == 0 {
        return [0; 512];
    }
    let mut x = n.wrapping_mul(0x9e37_79b9_7f4a_7c15) ^ (bg as u64) << 32 | 1;
    let mut p = [0u8; 512];
    for b in p.iter_mut() {
        x ^= x << 13;
        x ^= x >> 7;
        x ^= x << 17;
        *b = (x >> 24) as u8 | 1;
    }
    p
}

#[derive(Clone)]
pub struct Dev(pub Rc<RefCell<State>>);

impl std::fmt::Debug for Dev {
    fn fmt(&self, f: &mut std::fmt::Formatter<'_>) -> std::fmt::Result {
        write!(f, "Dev")
    }
}

impl Dev {
    pub fn new(len: u64, bg: u8) -> Self {
        Dev(Rc::new(RefCell::new(State {
            len,
            bg,
            limit: 2_000_000,
            cap: u64::MAX,
            ..Default::default()
        })))
    }
    pub fn of(s: &State) -> Self {
        let mut s = s.clone();
        s.log.clear();
        s.ops = 0;
        s.hi = 0;
        s.stale = 0;
        s.fault = None;
        s.faulted = false;
        s.persist = false;
        Dev(Rc::new(RefCell::new(s)))
    }
    pub fn snap(&self) -> State {
        self.0.borrow().clone()
    }
    pub fn put(&self, at: u64, data: &[u8]) {
        self.0.borrow_mut().put(at, data)
    }
    pub fn log(&self) -> Vec<Op> {
        self.0.borrow().log.clone()
    }
    /// restart the log and arm a fault
    pub fn arm(&self, fault: Option<(u64, Mode)>) {
        let mut s = self.0.borrow_mut();
        s.log.clear();
        s.ops = 0;
        s.hi = 0;
        s.stale = 0;
        s.fault = fault;
        s.faulted = false;
    }
    pub fn ops(&self) -> u64 {
        self.0.borrow().ops
    }
    pub fn faulted(&self) -> bool {
        self.0.borrow().faulted
    }
}

/// errors come in many kinds (which one depends on the device and the operation); `Interrupted` only where std does not retry
fn eio(s: &State, retried: bool) -> Error {
    use ErrorKind::*;
    let kinds = [Other, Interrupted, Other, WouldBlock, InvalidInput, Other, Unsupported, UnexpectedEof, PermissionDenied, Other, WriteZero, TimedOut, BrokenPipe, NotFound, InvalidData];
    let k = kinds[((s.ops / 2 + s.len / 512 + s.len % 512) % kinds.len() as u64) as usize];
    let k = if k == Interrupted && retried { Other } else { k };
    Error::new(k, "injected device error")
}

/// the case takes too many (useful) device operations to be followed
pub static GAVE_UP: AtomicBool = AtomicBool::new(false);

impl State {
    fn reached(&mut self, end: u64) {
        if end > self.hi {
            self.hi = end;
            self.stale = 0;
        }
    }
    fn step(&mut self) -> Option<Mode> {
        let n = self.ops;
        self.ops += 1;
        self.stale += 1;
        if self.stale > self.limit {
            panic!("endless device operations");
        }
        if self.ops > self.limit {
            // still going forward: a huge table on a huge device, nothing to judge
            GAVE_UP.store(true, Ordering::Relaxed);
            panic!("given up");
        }
        if let Some((k, m)) = self.fault {
            if n == k || (self.faulted && self.persist) {
                self.faulted = true;
                return Some(m);
            }
        }
        None
    }
}

impl Seek for Dev {
    fn seek(&mut self, p: SeekFrom) -> Result<u64> {
        let mut s = self.0.borrow_mut();
        if s.step().is_some() {
            return Err(eio(&s, false));
        }
        let t = match p {
            SeekFrom::Start(x) => x as i128,
            SeekFrom::End(d) => s.len as i128 + d as i128,
            SeekFrom::Current(d) => s.pos as i128 + d as i128,
        };
        if t < 0 || t > u64::MAX as i128 {
            return Err(Error::new(ErrorKind::InvalidInput, "seek out of range"));
        }
        s.pos = t as u64;
        let at = s.pos;
        s.log.push(Op::Seek(at));
        Ok(at)
    }
}

impl Read for Dev {
    fn read(&mut self, buf: &mut [u8]) -> Result<usize> {
        let mut s = self.0.borrow_mut();
        match s.step() {
            Some(Mode::Zero) => return Ok(0),
            Some(_) => return Err(eio(&s, true)),
            None => {}
        }
        if s.intr > 0 && s.ops % s.intr == 0 {
            return Err(Error::new(ErrorKind::Interrupted, "interrupted"));
        }
        let left = s.len.saturating_sub(s.pos);
        let mut n = (buf.len() as u64).min(left);
        if s.chop > 0 {
            n = n.min(s.chop);
        }
        let (at, n) = (s.pos, n as usize);
        let v = s.get(at, n);
        buf[..n].copy_from_slice(&v);
        s.pos += n as u64;
        let end = s.pos;
        s.reached(end);
        s.log.push(Op::Read(at, n as u64));
        Ok(n)
    }
}

impl Write for Dev {
    fn write(&mut self, buf: &[u8]) -> Result<usize> {
        let mut s = self.0.borrow_mut();
        let f = s.step();
        if buf.is_empty() {
            return match f {
                Some(Mode::Zero) | None => Ok(0),
                _ => Err(eio(&s, true)),
            };
        }
        match f {
            Some(Mode::Zero) => return Ok(0),
            Some(Mode::Fail) => return Err(eio(&s, true)),
            Some(Mode::Partial(x)) => {
                let n = (buf.len() as u64 * x as u64 / 65536) as usize;
                let at = s.pos;
                if at as u128 + n as u128 <= s.cap as u128 {
                    s.put(at, &buf[..n]);
                    s.len = s.len.max(at + n as u64);
                    s.pos += n as u64;
                    s.log.push(Op::Write(at, n as u64));
                }
                return Err(eio(&s, true));
            }
            None => {}
        }
        if s.intr > 0 && s.ops % s.intr == 0 {
            return Err(Error::new(ErrorKind::Interrupted, "interrupted"));
        }
        let mut n = buf.len();
        if s.chop > 0 {
            n = n.min(s.chop as usize);
        }
        let at = s.pos;
        let end = at as u128 + n as u128;
        if end > s.cap as u128 || end > u64::MAX as u128 {
            return Err(Error::new(ErrorKind::Other, "device full"));
        }
        s.put(at, &buf[..n]);
        s.len = s.len.max(at + n as u64);
        s.pos += n as u64;
        let end = s.pos;
        s.reached(end);
        s.log.push(Op::Write(at, n as u64));
        Ok(n)
    }
    fn flush(&mut self) -> Result<()> {
        let mut s = self.0.borrow_mut();
        if s.step().is_some() {
            return Err(eio(&s, false));
        }
        s.log.push(Op::Flush);
        Ok(())
    }
}
