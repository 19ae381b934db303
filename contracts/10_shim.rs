// ---------------------------------------------------------------------------
// Contract shims: the assumed contracts of everything /repo calls outside of
// itself (std::io devices, std collections and strings, uuid, simple-bytes, crc).
// Everything marked external_body / uninterp here is assumed; each run lists
// it in the evidence.  The module vsb (simple-bytes) is not left at that: every
// run proves its contracts against that crate's own source (tools/deps.py).
// ---------------------------------------------------------------------------
global size_of usize == 8;

pub mod vprelude {
    pub use crate::vuuid as uuid;
    pub use crate::vcrc as crc;
    pub use crate::vsb as simple_bytes;
    pub use crate::vstr::VStr;
    pub use crate::vstr::VText;
    pub use crate::vshim::*;
    pub use crate::vspec::*;
    pub use crate::vdisk::*;
    pub use crate::vwrite::*;
    pub use crate::vmbr::*;
    pub use crate::vio::{Dev, same_dev, spliced, WOp};
    pub use crate::vstr::{str_bytes, utf16, utf16_lossy, utf8_lossy, efi_part_bytes, lemma_utf16_roundtrip, lemma_lossy_efi, lemma_efi_bytes};
    pub use crate::vsb::{took, wrote, BDev};
    pub use crate::vmap::{keyseq, lemma_keyseq};
    pub use crate::vit::VIntoIter;
    pub use crate::vle::VLe;
    pub use crate::vsl::*;
    pub use crate::vuuid::from_rng;
    pub use crate::vfs::AsRef;
}

pub mod vshim {
    use vstd::prelude::*;
    /// `?` converts the error with From::from (vstd leaves the relation open)
    pub broadcast axiom fn axiom_question_mark<S, T: vstd::std_specs::convert::FromSpec<S>>(v: S, r: T)
        ensures
            #[trigger] vstd::std_specs::control_flow::spec_from::<T, S>(v, r) && <T as vstd::std_specs::convert::FromSpec<S>>::obeys_from_spec()
                ==> r == <T as vstd::std_specs::convert::FromSpec<S>>::from_spec(v);
    /// assert!/assert_eq! of the code under verification: must be provable
    pub fn rt_assert(b: bool)
        requires b,
    {
    }
    /// panic!/unreachable! of the code under verification: must be unreachable
    #[verifier::external_body]
    pub fn rt_panic() -> !
        requires false,
    {
        panic!()
    }
    /// `(x as f64).log2() as u32`; f64 has no SMT theory here.  Exact for powers of two.
    #[verifier::external_body]
    pub fn f64_log2_as_u32(x: u64) -> (r: u32)
        ensures
            x == 2048 ==> r == 11,
            x == 1024 ==> r == 10,
            x == 4096 ==> r == 12,
            x == 1 ==> r == 0,
    {
        (x as f64).log2() as u32
    }
}

pub mod vmem {
    use vstd::prelude::*;
    #[verifier::external_body]
    pub fn replace<T>(dest: &mut T, src: T) -> (r: T)
        ensures r == *old(dest), *final(dest) == src,
    {
        std::mem::replace(dest, src)
    }
    #[verifier::external_body]
    pub fn take<K, V>(dest: &mut crate::vmap::BTreeMap<K, V>) -> (r: crate::vmap::BTreeMap<K, V>)
        ensures r@ == old(dest)@, final(dest)@ == Map::<K, V>::empty(),
    {
        unimplemented!()
    }
}

// ------------------------------------------------------------------ std::io
pub mod vio {
    use vstd::prelude::*;
    #[verifier::external_body]
    pub struct Error { x: std::io::Error }
    pub enum ErrorKind { Other, UnexpectedEof, InvalidData, InvalidInput, NotFound, PermissionDenied, WriteZero, Interrupted, Unsupported }
    impl Error {
        #[verifier::external_body]
        pub fn new(k: ErrorKind, m: &'static str) -> Error { unimplemented!() }
        #[verifier::external_body]
        pub fn kind(&self) -> ErrorKind { unimplemented!() }
    }
    impl From<ErrorKind> for Error {
        #[verifier::external_body]
        fn from(k: ErrorKind) -> Error { unimplemented!() }
    }
    pub type Result<T> = std::result::Result<T, Error>;
    pub enum SeekFrom { Start(u64), End(i64), Current(i64) }

    /// b with d put at p (the gap, if any, filled with zeros)
    pub open spec fn spliced(b: Seq<u8>, p: nat, d: Seq<u8>) -> Seq<u8> {
        if d.len() == 0 { b } else {
        Seq::new(if p + d.len() > b.len() { (p + d.len()) as nat } else { b.len() }, |i: int|
            if p <= i < p + d.len() { d[i - p] } else if i < b.len() { b[i] } else { 0u8 }) }
    }
    pub struct WOp { pub at: nat, pub len: nat }

    /// Ghost state of a device. Every operation may fail; a failed write may have
    /// changed any part of the addressed range.
    pub trait Dev: Sized {
        spec fn bytes(&self) -> Seq<u8>;
        spec fn pos(&self) -> nat;
        /// operations inside the device never fail
        spec fn reliable(&self) -> bool;
        /// number of operations that reported an error so far
        spec fn errors(&self) -> nat;
        /// write_all calls so far
        spec fn wlog(&self) -> Seq<WOp>;
        /// flush succeeded after the last write
        spec fn flushed(&self) -> bool;
        /// file sync succeeded after the last write
        spec fn synced(&self) -> bool;
    }
    pub open spec fn same_dev<D: Dev>(a: &D, b: &D) -> bool {
        &&& a.bytes() == b.bytes()
        &&& a.wlog() == b.wlog()
        &&& a.flushed() == b.flushed()
        &&& a.synced() == b.synced()
        &&& a.reliable() == b.reliable()
    }
    pub trait VBuf {
        spec fn vb(&self) -> Seq<u8>;
    }
    impl VBuf for Vec<u8> { open spec fn vb(&self) -> Seq<u8> { self@ } }
    impl VBuf for [u8] { open spec fn vb(&self) -> Seq<u8> { self@ } }
    impl<const N: usize> VBuf for [u8; N] { open spec fn vb(&self) -> Seq<u8> { self@ } }

    pub trait Read: Dev {
        fn read_exact<B: VBuf + ?Sized>(&mut self, buf: &mut B) -> (r: Result<()>)
            ensures
                same_dev(final(self), old(self)),
                final(self).errors() == old(self).errors() + (if r is Ok { 0nat } else { 1nat }),
                final(buf).vb().len() == old(buf).vb().len(),
                r is Ok ==> final(self).pos() == old(self).pos() + old(buf).vb().len(),
                // an empty read succeeds anywhere
                r is Ok && old(buf).vb().len() > 0 ==> old(self).pos() + old(buf).vb().len() <= old(self).bytes().len()
                    && final(buf).vb() == old(self).bytes().subrange(old(self).pos() as int, (old(self).pos() + old(buf).vb().len()) as int),
                old(self).reliable() && (old(buf).vb().len() == 0 || old(self).pos() + old(buf).vb().len() <= old(self).bytes().len()) ==> r is Ok,
        ;
    }
    pub trait Write: Dev {
        fn write_all<B: VBuf + ?Sized>(&mut self, buf: &B) -> (r: Result<()>)
            ensures
                final(self).reliable() == old(self).reliable(),
                final(self).errors() == old(self).errors() + (if r is Ok { 0nat } else { 1nat }),
                final(self).wlog() == old(self).wlog().push(WOp { at: old(self).pos(), len: buf.vb().len() }),
                !final(self).flushed(),
                !final(self).synced(),
                r is Ok ==> final(self).pos() == old(self).pos() + buf.vb().len(),
                // (writing nothing behind the end may or may not enlarge the device)
                r is Ok && (buf.vb().len() > 0 || old(self).pos() <= old(self).bytes().len())
                    ==> final(self).bytes() == spliced(old(self).bytes(), old(self).pos(), buf.vb()),
                // a failed write stays inside the addressed range
                final(self).bytes().len() >= old(self).bytes().len(),
                final(self).bytes().len() <= old(self).bytes().len() || final(self).bytes().len() <= old(self).pos() + buf.vb().len(),
                forall|i: int| 0 <= i < old(self).bytes().len() && !(old(self).pos() <= i < old(self).pos() + buf.vb().len())
                    ==> #[trigger] final(self).bytes()[i] == old(self).bytes()[i],
                old(self).reliable() && old(self).pos() + buf.vb().len() <= old(self).bytes().len() ==> r is Ok,
        ;
        fn flush(&mut self) -> (r: Result<()>)
            ensures
                final(self).bytes() == old(self).bytes(),
                final(self).reliable() == old(self).reliable(),
                final(self).errors() == old(self).errors() + (if r is Ok { 0nat } else { 1nat }),
                final(self).wlog() == old(self).wlog(),
                final(self).pos() == old(self).pos(),
                final(self).synced() == old(self).synced(),
                r is Ok ==> final(self).flushed(),
                old(self).reliable() ==> r is Ok,
        ;
    }
    pub trait Seek: Dev {
        fn seek(&mut self, pos: SeekFrom) -> (r: Result<u64>)
            ensures
                same_dev(final(self), old(self)),
                final(self).errors() == old(self).errors() + (if r is Ok { 0nat } else { 1nat }),
                r is Ok ==> (match pos {
                    SeekFrom::Start(n) => final(self).pos() == n && r->Ok_0 == n,
                    SeekFrom::End(i) => final(self).pos() == final(self).bytes().len() + i && r->Ok_0 == final(self).bytes().len() + i,
                    SeekFrom::Current(i) => final(self).pos() == old(self).pos() + i && r->Ok_0 == old(self).pos() + i,
                }),
                // a reliable device can be positioned anywhere
                old(self).reliable() ==> (match pos {
                    SeekFrom::Start(n) => r is Ok,
                    SeekFrom::End(i) => (0 <= final(self).bytes().len() + i <= u64::MAX) ==> r is Ok,
                    SeekFrom::Current(i) => (0 <= old(self).pos() + i <= u64::MAX) ==> r is Ok,
                }),
        ;
        fn stream_position(&mut self) -> (r: Result<u64>)
            ensures
                same_dev(final(self), old(self)),
                final(self).pos() == old(self).pos(),
                final(self).errors() == old(self).errors() + (if r is Ok { 0nat } else { 1nat }),
                r is Ok ==> r->Ok_0 == final(self).pos(),
                old(self).reliable() ==> r is Ok,
        ;
    }

    impl Dev for Vec<u8> {
        open spec fn bytes(&self) -> Seq<u8> { self@ }
        open spec fn pos(&self) -> nat { self@.len() }
        open spec fn reliable(&self) -> bool { true }
        uninterp spec fn errors(&self) -> nat;
        uninterp spec fn wlog(&self) -> Seq<WOp>;
        uninterp spec fn flushed(&self) -> bool;
        uninterp spec fn synced(&self) -> bool;
    }
    impl Write for Vec<u8> {
        /// io::Write for Vec<u8> appends and never fails
        #[verifier::external_body]
        fn write_all<B: VBuf + ?Sized>(&mut self, buf: &B) -> (r: Result<()>)
            ensures r is Ok, final(self)@ == old(self)@ + buf.vb(),
        {
            unimplemented!()
        }
        #[verifier::external_body]
        fn flush(&mut self) -> (r: Result<()>) { unimplemented!() }
    }
}

// ------------------------------------------------------- std::fs, std::path
pub mod vfs {
    use vstd::prelude::*;
    use crate::vio::*;
    /// files are devices whose ghost state is unknown
    #[verifier::external_body]
    pub struct File { f: std::fs::File }
    pub struct Path {}
    impl Path {
        #[verifier::external_body]
        pub fn display(&self) -> u8 { unimplemented!() }
    }
    pub trait AsRef<T> { fn as_ref(&self) -> &T; }
    impl Dev for File {
        uninterp spec fn bytes(&self) -> Seq<u8>;
        uninterp spec fn pos(&self) -> nat;
        uninterp spec fn reliable(&self) -> bool;
        uninterp spec fn errors(&self) -> nat;
        uninterp spec fn wlog(&self) -> Seq<WOp>;
        uninterp spec fn flushed(&self) -> bool;
        uninterp spec fn synced(&self) -> bool;
    }
    impl Read for File {
        #[verifier::external_body]
        fn read_exact<B: VBuf + ?Sized>(&mut self, buf: &mut B) -> (r: Result<()>) { unimplemented!() }
    }
    impl Write for File {
        #[verifier::external_body]
        fn write_all<B: VBuf + ?Sized>(&mut self, buf: &B) -> (r: Result<()>) { unimplemented!() }
        #[verifier::external_body]
        fn flush(&mut self) -> (r: Result<()>) { unimplemented!() }
    }
    impl Seek for File {
        #[verifier::external_body]
        fn seek(&mut self, pos: SeekFrom) -> (r: Result<u64>) { unimplemented!() }
        #[verifier::external_body]
        fn stream_position(&mut self) -> (r: Result<u64>) { unimplemented!() }
    }
    impl core::fmt::Debug for File {
        #[verifier::external_body]
        fn fmt(&self, f: &mut core::fmt::Formatter<'_>) -> core::fmt::Result { unimplemented!() }
    }
    impl File {
        #[verifier::external_body]
        pub fn open<P>(p: P) -> (r: Result<File>) { unimplemented!() }
        #[verifier::external_body]
        pub fn sync_all(&mut self) -> (r: Result<()>)
            ensures
                final(self).bytes() == old(self).bytes(),
                final(self).wlog() == old(self).wlog(),
                final(self).flushed() == old(self).flushed(),
                final(self).reliable() == old(self).reliable(),
                final(self).errors() == old(self).errors() + (if r is Ok { 0nat } else { 1nat }),
                r is Ok ==> final(self).synced(),
        { unimplemented!() }
    }
    pub struct OpenOptions {}
    impl OpenOptions {
        #[verifier::external_body]
        pub fn new() -> OpenOptions { unimplemented!() }
        #[verifier::external_body]
        pub fn write(self, b: bool) -> OpenOptions { unimplemented!() }
        #[verifier::external_body]
        pub fn read(self, b: bool) -> OpenOptions { unimplemented!() }
        #[verifier::external_body]
        pub fn open<P>(self, p: P) -> Result<File> { unimplemented!() }
    }
    /// stands for the type `fn(&mut D) -> io::Result<()>` (R5)
    #[verifier::external_body]
    #[verifier::accept_recursive_types(D)]
    pub struct SyncFn<D> { f: fn(&mut D) -> std::io::Result<()> }
    impl<D> Clone for SyncFn<D> { #[verifier::external_body] fn clone(&self) -> (r: Self) ensures r == *self { unimplemented!() } }
    impl<D> Copy for SyncFn<D> {}
    impl<D: Dev> SyncFn<D> {
        /// a pointer to a function with the contract of file_sync_all
        pub uninterp spec fn durable(&self) -> bool;
        #[verifier::external_body]
        pub fn call(self, d: &mut D) -> (r: Result<()>)
            ensures
                final(d).bytes() == old(d).bytes(),
                final(d).wlog() == old(d).wlog(),
                final(d).flushed() == old(d).flushed(),
                final(d).reliable() == old(d).reliable(),
                final(d).errors() == old(d).errors() + (if r is Ok { 0nat } else { 1nat }),
                self.durable() && r is Ok ==> final(d).synced(),
        { unimplemented!() }
    }
    impl SyncFn<File> {
        /// `file_sync_all as fn(..)`: its contract is checked at its definition
        #[verifier::external_body]
        pub fn file_sync_all() -> (r: Self) ensures r.durable() { unimplemented!() }
    }
}

// ----------------------------------------------------------------- iterators
pub mod vit {
    use vstd::prelude::*;
    /// The elements an iterator yields, taken in advance (what is iterated over is borrowed or owned
    /// for as long as the iterator lives, so this yields the same).
    pub struct VIter<T> { v: Vec<T>, s: Ghost<Seq<T>>, i: Ghost<nat> }
    /// the elements of v, last first
    fn reversed<T>(v: Vec<T>) -> (r: Vec<T>)
        ensures r@ == v@.reverse(),
    {
        let ghost o = v@;
        let mut v = v;
        let mut r: Vec<T> = Vec::new();
        let mut go = true;
        while go
            invariant
                v@.len() <= o.len(), v@ == o.take(v@.len() as int), r@ == o.skip(v@.len() as int).reverse(), !go ==> v@.len() == 0,
            decreases v@.len() + (if go { 1int } else { 0 }),
        {
            let ghost n = v@.len() as int;
            match v.pop() {
                Some(x) => {
                    r.push(x);
                    proof {
                        assert(v@ =~= o.take(n - 1));
                        assert(r@ =~= o.skip(n - 1).reverse());
                    }
                }
                None => { go = false; }
            }
        }
        proof { assert(r@ =~= o.reverse()); }
        r
    }
    impl<T> VIter<T> {
        #[verifier::type_invariant]
        closed spec fn inv(self) -> bool { self.i@ <= self.s@.len() && self.v@ == self.s@.skip(self.i@ as int).reverse() }
        pub closed spec fn seq(&self) -> Seq<T> { self.s@ }
        pub closed spec fn idx(&self) -> nat { self.i@ }
        pub fn of(v: Vec<T>) -> (r: VIter<T>)
            ensures r.seq() == v@, r.idx() == 0, r.seq().len() <= usize::MAX,
        {
            let ghost s = v@;
            let n = v.len();
            proof { assert(s.skip(0) =~= s); }
            VIter { v: reversed(v), s: Ghost(s), i: Ghost(0) }
        }
        pub fn next(&mut self) -> (r: Option<T>)
            ensures
                final(self).seq() == old(self).seq(),
                old(self).idx() < old(self).seq().len() ==> r == Some(old(self).seq()[old(self).idx() as int]) && final(self).idx() == old(self).idx() + 1,
                old(self).idx() >= old(self).seq().len() ==> r is None && final(self).idx() == old(self).idx(),
        {
            proof { use_type_invariant(&*self); }
            let mut v: Vec<T> = Vec::new();
            let ghost s = self.s@;
            let ghost i = self.i@;
            let mut me = VIter { v: Vec::new(), s: Ghost(Seq::empty()), i: Ghost(0) };
            core::mem::swap(self, &mut me);
            proof { use_type_invariant(&me); }
            let VIter { v: mut v, s: gs, i: gi } = me;
            let r = v.pop();
            let ghost j: nat = if gi@ < gs@.len() { gi@ + 1 } else { gi@ };
            proof {
                if gi@ < gs@.len() { assert(v@ =~= gs@.skip(j as int).reverse()); }
            }
            *self = VIter { v, s: gs, i: Ghost(j) };
            r
        }
        pub fn take(self, n: usize) -> (r: VIter<T>)
            requires self.idx() == 0,
            ensures r.idx() == 0, r.seq() == self.seq().take(if n < self.seq().len() { n as int } else { self.seq().len() as int }),
        {
            proof { use_type_invariant(&self); }
            let ghost s = self.s@;
            let VIter { v, s: gs, i: gi } = self;
            let mut v = v;
            let mut r: Vec<T> = Vec::new();
            let mut k: usize = 0;
            let ghost m: int = if n < s.len() { n as int } else { s.len() as int };
            let total = v.len();
            let bound = if n < total { n } else { total };
            proof { assert(s.skip(0) =~= s); }
            while k < bound
                invariant k <= bound, bound == m, m <= s.len(), v@ == s.skip(k as int).reverse(), r@ == s.take(k as int),
                decreases bound - k,
            {
                let x = v.pop();
                proof { assert(v@ =~= s.skip(k + 1).reverse()); }
                if let Some(y) = x { r.push(y); }
                k = k + 1;
                proof { assert(r@ =~= s.take(k as int)); }
            }
            VIter::of(r)
        }
        /// Iterator::find: the first element for which the predicate holds
        pub fn find<F: Fn(&T) -> bool>(&mut self, f: F) -> (r: Option<T>)
            requires old(self).idx() == 0, forall|i: int| 0 <= i < old(self).seq().len() ==> call_requires(f, (&#[trigger] old(self).seq()[i],)),
            ensures
                r is None ==> forall|i: int| 0 <= i < old(self).seq().len() ==> call_ensures(f, (&#[trigger] old(self).seq()[i],), false),
                r is Some ==> exists|k: int| 0 <= k < old(self).seq().len() && r->0 == #[trigger] old(self).seq()[k]
                    && call_ensures(f, (&old(self).seq()[k],), true)
                    && forall|i: int| 0 <= i < k ==> call_ensures(f, (&#[trigger] old(self).seq()[i],), false),
        {
            let ghost s = self.seq();
            loop
                invariant
                    s == old(self).seq(), self.seq() == s, self.idx() <= s.len(),
                    forall|i: int| 0 <= i < s.len() ==> call_requires(f, (&#[trigger] s[i],)),
                    forall|i: int| 0 <= i < self.idx() ==> call_ensures(f, (&#[trigger] s[i],), false),
                decreases s.len() - self.idx(),
            {
                let ghost k = self.idx() as int;
                match self.next() {
                    Some(x) => { if f(&x) { return Some(x); } }
                    None => { return None; }
                }
            }
        }
    }
    pub trait VIntoIter: Sized {
        type VItem;
        spec fn vok(self, s: Seq<Self::VItem>) -> bool;
        fn viter(self) -> (r: VIter<Self::VItem>)
            ensures r.idx() == 0, r.seq().len() <= usize::MAX, self.vok(r.seq());
    }
    impl<T> VIntoIter for VIter<T> {
        type VItem = T;
        open spec fn vok(self, s: Seq<T>) -> bool { self.idx() == 0 ==> s == self.seq() }
        fn viter(self) -> (r: VIter<T>) {
            proof { use_type_invariant(&self); assert(self.s@.skip(0) =~= self.s@); assert(self.s@.skip(self.i@ as int).reverse().reverse() =~= self.s@.skip(self.i@ as int)); }
            VIter::of(reversed(self.v))
        }
    }
    impl<T> VIntoIter for Vec<T> {
        type VItem = T;
        open spec fn vok(self, s: Seq<T>) -> bool { s == self@ }
        fn viter(self) -> (r: VIter<T>) {
            let ghost o = self@;
            let mut v: Vec<T> = Vec::new();
            let w = self.into_iter();
            for x in it: w invariant it.seq() == o, v@ == o.take(it.index@ as int) { v.push(x); }
            proof { assert(v@ =~= o); }
            VIter::of(v)
        }
    }
    impl<'a, T> VIntoIter for &'a Vec<T> {
        type VItem = &'a T;
        open spec fn vok(self, s: Seq<&'a T>) -> bool { s.len() == self@.len() && forall|i: int| 0 <= i < s.len() ==> *#[trigger] s[i] == self@[i] }
        fn viter(self) -> (r: VIter<&'a T>) {
            let mut v: Vec<&'a T> = Vec::new();
            for x in it: self.iter() invariant v@ == it.seq().take(it.index@ as int) { v.push(x); }
            VIter::of(v)
        }
    }
    impl<'a, T, const N: usize> VIntoIter for &'a [T; N] {
        type VItem = &'a T;
        open spec fn vok(self, s: Seq<&'a T>) -> bool { s.len() == N && forall|i: int| 0 <= i < s.len() ==> *#[trigger] s[i] == self@[i] }
        fn viter(self) -> (r: VIter<&'a T>) {
            let mut v: Vec<&'a T> = Vec::new();
            for x in it: self.iter() invariant v@ == it.seq().take(it.index@ as int) { v.push(x); }
            VIter::of(v)
        }
    }
    impl VIntoIter for core::ops::Range<u32> {
        type VItem = u32;
        open spec fn vok(self, s: Seq<u32>) -> bool {
            &&& s.len() == (if self.end > self.start { self.end - self.start } else { 0 })
            &&& forall|i: int| 0 <= i < s.len() ==> #[trigger] s[i] == self.start + i
        }
        fn viter(self) -> (r: VIter<u32>) {
            let mut v: Vec<u32> = Vec::new();
            for x in it: self invariant v@ == it.seq().take(it.index@ as int) { v.push(x); }
            VIter::of(v)
        }
    }
    impl VIntoIter for core::ops::RangeInclusive<u32> {
        type VItem = u32;
        open spec fn vok(self, s: Seq<u32>) -> bool {
            &&& s.len() == (if self@.end >= self@.start && !self@.exhausted { self@.end - self@.start + 1 } else { 0 })
            &&& forall|i: int| 0 <= i < s.len() ==> #[trigger] s[i] == self@.start + i
        }
        // (vstd does not say that an empty range yields nothing)
        #[verifier::external_body]
        fn viter(self) -> (r: VIter<u32>) { VIter::of(self.collect()) }
    }
}

// ---------------------------------------------------------- std::collections
pub mod vmap {
    use vstd::prelude::*;
    use vstd::std_specs::iter::IteratorSpec;
    use vstd::std_specs::cmp::*;
    use vstd::std_specs::btree::*;
    use crate::vit::*;
    #[verifier::reject_recursive_types(K)]
    pub struct BTreeMap<K, V> { m: std::collections::BTreeMap<K, V> }
    impl<K, V> View for BTreeMap<K, V> {
        type V = Map<K, V>;
        closed spec fn view(&self) -> Map<K, V> { self.m@ }
    }
    /// the keys from `lo` on, in ascending order
    pub closed spec fn keys_from<V>(m: Map<u32, V>, lo: int) -> Seq<u32>
        decreases 0x1_0000_0000 - lo,
    {
        if lo >= 0x1_0000_0000 { Seq::empty() }
        else if lo >= 0 && m.dom().contains(lo as u32) { seq![lo as u32] + keys_from(m, lo + 1) }
        else { keys_from(m, lo + 1) }
    }
    /// the keys in ascending order
    pub closed spec fn keyseq<V>(m: Map<u32, V>) -> Seq<u32> { keys_from(m, 0) }
    proof fn lemma_keys_from<V>(m: Map<u32, V>, lo: int)
        requires 0 <= lo <= 0x1_0000_0000,
        ensures
            forall|i: int, j: int| 0 <= i < j < keys_from(m, lo).len() ==> #[trigger] keys_from(m, lo)[i] < #[trigger] keys_from(m, lo)[j],
            forall|i: int| 0 <= i < keys_from(m, lo).len() ==> m.dom().contains(#[trigger] keys_from(m, lo)[i]) && keys_from(m, lo)[i] >= lo,
            forall|k: u32| m.dom().contains(k) && k >= lo ==> keys_from(m, lo).contains(k),
        decreases 0x1_0000_0000 - lo,
    {
        if lo < 0x1_0000_0000 {
            lemma_keys_from(m, lo + 1);
            let rest = keys_from(m, lo + 1);
            let all = keys_from(m, lo);
            if m.dom().contains(lo as u32) {
                assert(all == seq![lo as u32] + rest);
                assert forall|i: int| 0 <= i < all.len() implies m.dom().contains(#[trigger] all[i]) && all[i] >= lo by { if i > 0 { assert(all[i] == rest[i - 1]); } }
                assert forall|i: int, j: int| 0 <= i < j < all.len() implies #[trigger] all[i] < #[trigger] all[j] by { assert(all[j] == rest[j - 1]); if i > 0 { assert(all[i] == rest[i - 1]); } }
                assert forall|k: u32| m.dom().contains(k) && k >= lo implies all.contains(k) by {
                    if k == lo { assert(all[0] == k); } else { let i = choose|i: int| 0 <= i < rest.len() && rest[i] == k; assert(rest.contains(k)); assert(all[i + 1] == k); }
                }
            } else {
                assert(all == rest);
            }
        }
    }
    pub broadcast proof fn lemma_keyseq<V>(m: Map<u32, V>)
        ensures
            (#[trigger] keyseq(m)).len() == m.dom().len(),
            forall|i: int, j: int| 0 <= i < j < keyseq(m).len() ==> #[trigger] keyseq(m)[i] < #[trigger] keyseq(m)[j],
            forall|i: int| 0 <= i < keyseq(m).len() ==> m.dom().contains(#[trigger] keyseq(m)[i]),
            forall|k: u32| m.dom().contains(k) ==> exists|i: int| 0 <= i < keyseq(m).len() && #[trigger] keyseq(m)[i] == k,
    {
        lemma_keys_from(m, 0);
        let s = keyseq(m);
        assert(s.no_duplicates());
        assert(s.to_set() =~= m.dom());
        s.unique_seq_to_set();
        assert forall|k: u32| m.dom().contains(k) implies exists|i: int| 0 <= i < keyseq(m).len() && #[trigger] keyseq(m)[i] == k by { assert(s.contains(k)); }
    }
    // the bodies are checked against what vstd says about the standard library's map
    broadcast use vstd::std_specs::btree::group_btree_axioms;
    /// a strictly ascending sequence of all keys is the sequence of keys
    proof fn lemma_same_keys<V>(m: Map<u32, V>, s: Seq<u32>)
        requires
            increasing_seq(s),
            m.dom().finite(),
            s.len() == m.dom().len(),
            forall|i: int| 0 <= i < s.len() ==> m.dom().contains(#[trigger] s[i]),
        ensures s == keyseq(m), s.len() == keyseq(m).len(),
    {
        lemma_keyseq(m);
        lemma_asc(s);
        let k = keyseq(m);
        assert(s.no_duplicates());
        s.unique_seq_to_set();
        assert(s.to_set().subset_of(m.dom()));
        vstd::set_lib::lemma_subset_equality(s.to_set(), m.dom());
        assert forall|a: int| 0 <= a < s.len() implies k.contains(#[trigger] s[a]) by {
            assert(m.dom().contains(s[a]));
        }
        assert forall|a: int| 0 <= a < k.len() implies s.contains(#[trigger] k[a]) by {
            assert(m.dom().contains(k[a]));
            assert(s.to_set().contains(k[a]));
        }
        lemma_same_upto(s, k, s.len() as int);
        assert(s =~= k);
    }
    spec fn firsts<V>(s: Seq<(&u32, &V)>) -> Seq<u32> { s.map_values(|p: (&u32, &V)| *p.0) }
    /// vstd's increasing sequences of `u32` are the ascending ones
    proof fn lemma_asc(s: Seq<u32>)
        requires increasing_seq(s),
        ensures forall|i: int, j: int| 0 <= i < j < s.len() ==> #[trigger] s[i] < #[trigger] s[j],
    {
        axiom_increasing_seq_meaning(s);
        assert forall|i: int, j: int| 0 <= i < j < s.len() implies #[trigger] s[i] < #[trigger] s[j] by {
            assert(OrdSpec::cmp_spec(&s[i], &s[j]) is Less);
        }
    }
    proof fn lemma_same_upto(s: Seq<u32>, k: Seq<u32>, n: int)
        requires
            0 <= n <= s.len(), s.len() == k.len(),
            forall|a: int, b: int| 0 <= a < b < s.len() ==> #[trigger] s[a] < #[trigger] s[b],
            forall|a: int, b: int| 0 <= a < b < k.len() ==> #[trigger] k[a] < #[trigger] k[b],
            forall|a: int| 0 <= a < s.len() ==> k.contains(#[trigger] s[a]),
            forall|a: int| 0 <= a < k.len() ==> s.contains(#[trigger] k[a]),
        ensures forall|j: int| 0 <= j < n ==> #[trigger] s[j] == k[j],
        decreases n,
    {
        if n > 0 {
            lemma_same_upto(s, k, n - 1);
            let i = n - 1;
            assert(k.contains(s[i]));
            assert(s.contains(k[i]));
            let b = choose|b: int| 0 <= b < k.len() && k[b] == s[i];
            let a = choose|a: int| 0 <= a < s.len() && s[a] == k[i];
            assert(b >= i) by { if b < i { assert(s[b] == k[b]); assert(s[b] < s[i]); } }
            assert(a >= i) by { if a < i { assert(s[a] == k[a]); assert(k[a] < k[i]); } }
            assert(s[i] == k[i]) by {
                if b > i { assert(k[i] < k[b]); if a > i { assert(s[i] < s[a]); } }
                if a > i { assert(s[i] < s[a]); }
            }
        }
    }
    impl<V> BTreeMap<u32, V> {
        pub fn new() -> (r: Self)
            ensures r@ == Map::<u32, V>::empty(),
        { BTreeMap { m: std::collections::BTreeMap::new() } }
        pub fn len(&self) -> (r: usize)
            ensures r == self@.dom().len(),
        { self.m.len() }
        pub fn is_empty(&self) -> (r: bool)
            ensures r == (self@.dom().len() == 0), r == (self@ == Map::<u32, V>::empty()),
        {
            proof {
                if self@.dom().len() == 0 { assert(self@ =~= Map::<u32, V>::empty()) by { assert(self@.dom() =~= Set::empty()); } }
            }
            self.m.is_empty()
        }
        pub fn insert(&mut self, k: u32, v: V) -> (r: Option<V>)
            ensures
                final(self)@ == old(self)@.insert(k, v),
                r == (if old(self)@.dom().contains(k) { Some(old(self)@[k]) } else { None }),
        { self.m.insert(k, v) }
        pub fn remove(&mut self, k: &u32) -> (r: Option<V>)
            ensures
                final(self)@ == old(self)@.remove(*k),
                r == (if old(self)@.dom().contains(*k) { Some(old(self)@[*k]) } else { None }),
        { self.m.remove(k) }
        pub fn get(&self, k: &u32) -> (r: Option<&V>)
            ensures
                self@.dom().contains(*k) ==> r is Some && *(r->0) == self@[*k],
                !self@.dom().contains(*k) ==> r is None,
        { self.m.get(k) }
        pub fn contains_key(&self, k: &u32) -> (r: bool)
            ensures r == self@.dom().contains(*k),
        { self.m.contains_key(k) }
        pub fn iter(&self) -> (r: VIter<(&u32, &V)>)
            ensures
                r.idx() == 0, r.seq().len() <= usize::MAX,
                r.seq().len() == keyseq(self@).len(),
                forall|i: int| #![trigger r.seq()[i]] #![trigger keyseq(self@)[i]] 0 <= i < r.seq().len() ==> *r.seq()[i].0 == keyseq(self@)[i] && *r.seq()[i].1 == self@[keyseq(self@)[i]],
        {
            let mut v: Vec<(&u32, &V)> = Vec::new();
            let ghost m0 = self@;
            let w = self.m.iter();
            for x in it: w
                invariant
                    it.seq().len() == m0.len(), m0.dom().finite(), m0 == self@,
                    increasing_seq(firsts(it.seq())),
                    forall|i: int| 0 <= i < it.seq().len() ==> m0.contains_key(*(#[trigger] it.seq()[i]).0) && m0[*it.seq()[i].0] == *it.seq()[i].1,
                    v@ == it.seq().take(it.index@ as int),
                    it.index@ == it.seq().len() ==> v@ == it.seq(),
            { v.push(x); }
            proof {
                let ks = firsts(v@);
                lemma_same_keys(m0, ks);
                assert(forall|i: int| 0 <= i < v@.len() ==> ks[i] == *(#[trigger] v@[i]).0);
            }
            VIter::of(v)
        }
        pub fn values(&self) -> (r: VIter<&V>)
            ensures
                r.idx() == 0, r.seq().len() <= usize::MAX,
                r.seq().len() == keyseq(self@).len(),
                forall|i: int| #![trigger r.seq()[i]] #![trigger keyseq(self@)[i]] 0 <= i < r.seq().len() ==> *r.seq()[i] == self@[keyseq(self@)[i]],
        {
            let mut v: Vec<&V> = Vec::new();
            let ghost m0 = self@;
            let w = self.m.values();
            for x in it: w invariant it.seq() == w.remaining(), v@ == it.seq().take(it.index@ as int) { v.push(x); }
            proof {
                let k = choose|k: Seq<u32>| #[trigger] increasing_seq(k) && k.to_set() == m0.dom() && k.len() == v@.len() && forall|i: int| 0 <= i < k.len() ==> *v@[i] == m0[#[trigger] k[i]];
                assert(forall|i: int| 0 <= i < k.len() ==> k.to_set().contains(#[trigger] k[i]));
                lemma_same_keys(m0, k);
            }
            VIter::of(v)
        }
        pub fn keys(&self) -> (r: VIter<&u32>)
            ensures
                r.idx() == 0, r.seq().len() <= usize::MAX,
                r.seq().len() == keyseq(self@).len(),
                forall|i: int| #![trigger r.seq()[i]] #![trigger keyseq(self@)[i]] 0 <= i < r.seq().len() ==> *r.seq()[i] == keyseq(self@)[i],
        {
            let mut v: Vec<&u32> = Vec::new();
            let mut w = self.iter();
            let ghost q = w.seq();
            loop
                invariant
                    w.seq() == q, 0 <= w.idx() <= q.len(), q.len() == keyseq(self@).len(), q.len() <= usize::MAX,
                    v@.len() == w.idx(),
                    forall|i: int| #![trigger q[i]] #![trigger keyseq(self@)[i]] 0 <= i < q.len() ==> *q[i].0 == keyseq(self@)[i],
                    forall|i: int| 0 <= i < v@.len() ==> *(#[trigger] v@[i]) == keyseq(self@)[i],
                ensures v@.len() == q.len(),
                decreases q.len() - w.idx(),
            {
                match w.next() {
                    Some(p) => { v.push(p.0); }
                    None => { break; }
                }
            }
            VIter::of(v)
        }
    }
    impl<K, V> Clone for BTreeMap<K, V> {
        #[verifier::external_body]
        fn clone(&self) -> (r: Self)
            ensures r@ == self@,
        { unimplemented!() }
    }
    impl<'a, V> VIntoIter for &'a BTreeMap<u32, V> {
        type VItem = (&'a u32, &'a V);
        open spec fn vok(self, s: Seq<(&'a u32, &'a V)>) -> bool {
            s.len() == keyseq(self@).len() && forall|i: int| #![trigger s[i]] #![trigger keyseq(self@)[i]] 0 <= i < s.len() ==> *s[i].0 == keyseq(self@)[i] && *s[i].1 == self@[keyseq(self@)[i]]
        }
        fn viter(self) -> (r: VIter<(&'a u32, &'a V)>) { self.iter() }
    }
}

// ----------------------------------------------------------------- strings
pub mod vstr {
    use vstd::prelude::*;
    use vstd::utf8::*;
    use crate::vit::*;
    /// UTF-16 code units of a string
    pub open spec fn utf16(s: Seq<char>) -> Seq<u16>
        decreases s.len(),
    {
        if s.len() == 0 { seq![] } else { utf16(s.drop_last()) + utf16_char(s.last()) }
    }
    pub open spec fn utf16_char(c: char) -> Seq<u16> {
        let x = c as u32;
        if x < 0x10000 { seq![x as u16] } else { seq![(0xD800 + ((x - 0x10000) / 0x400)) as u16, (0xDC00 + ((x - 0x10000) % 0x400)) as u16] }
    }
    /// the first scalar of a non-empty sequence of code units, and how many units it takes;
    /// an unpaired surrogate reads as U+FFFD
    pub open spec fn utf16_first(u: Seq<u16>) -> (char, int) {
        if u[0] < 0xD800 || u[0] > 0xDFFF { (u[0] as char, 1) }
        else if u[0] < 0xDC00 && u.len() >= 2 && 0xDC00 <= u[1] <= 0xDFFF {
            ((0x10000 + (u[0] - 0xD800) * 0x400 + (u[1] - 0xDC00)) as u32 as char, 2)
        } else { ('\u{FFFD}', 1) }
    }
    /// String::from_utf16_lossy
    #[verifier::opaque]
    pub open spec fn utf16_lossy(u: Seq<u16>) -> Seq<char>
        decreases u.len(),
    {
        if u.len() == 0 { seq![] } else { seq![utf16_first(u).0] + utf16_lossy(u.skip(utf16_first(u).1)) }
    }
    proof fn lemma_utf16_front(s: Seq<char>)
        requires s.len() > 0,
        ensures utf16(s) == utf16_char(s[0]) + utf16(s.skip(1)),
        decreases s.len(),
    {
        if s.len() == 1 {
            assert(s.skip(1) =~= Seq::<char>::empty());
            assert(s.drop_last() =~= Seq::<char>::empty());
            assert(utf16(s) =~= utf16_char(s[0]) + utf16(s.skip(1)));
        } else {
            lemma_utf16_front(s.drop_last());
            assert(s.drop_last().skip(1) =~= s.skip(1).drop_last());
            assert(utf16(s) =~= utf16_char(s[0]) + utf16(s.skip(1)));
        }
    }
    proof fn lemma_utf16_first(c: char, rest: Seq<u16>)
        ensures utf16_first(utf16_char(c) + rest) == (c, utf16_char(c).len() as int),
    {
        let x = c as u32;
        let u = utf16_char(c) + rest;
        if x < 0x10000 {
            assert(u[0] == x as u16);
            assert(u[0] as char as u32 == x);
        } else {
            let h = ((x - 0x10000) / 0x400) as int;
            let l = ((x - 0x10000) % 0x400) as int;
            assert(0 <= h < 0x400);
            assert(u[0] == 0xD800 + h);
            assert(u[1] == 0xDC00 + l);
            assert(h * 0x400 + l == x - 0x10000);
            assert(0x10000 + (u[0] - 0xD800) * 0x400 + (u[1] - 0xDC00) == x);
            assert(x as char as u32 == x);
        }
    }
    pub broadcast proof fn lemma_utf16_roundtrip(s: Seq<char>)
        ensures utf16_lossy(#[trigger] utf16(s)) == s,
        decreases s.len(),
    {
        reveal(utf16_lossy);
        assert(s.len() == 0 ==> s =~= Seq::<char>::empty());
        if s.len() > 0 {
            let t = utf16(s.skip(1));
            lemma_utf16_front(s);
            lemma_utf16_first(s[0], t);
            assert((utf16_char(s[0]) + t).skip(utf16_char(s[0]).len() as int) =~= t);
            lemma_utf16_roundtrip(s.skip(1));
            assert(seq![s[0]] + s.skip(1) =~= s);
        }
    }
    /// String::from_utf8_lossy
    pub uninterp spec fn utf8_lossy(b: Seq<u8>) -> Seq<char>;
    /// what String::from_utf8_lossy documents: valid text as it is, every invalid sequence as U+FFFD
    pub axiom fn axiom_utf8_lossy(b: Seq<u8>)
        ensures
            valid_utf8(b) ==> utf8_lossy(b) == decode_utf8(b),
            !valid_utf8(b) ==> utf8_lossy(b).contains('\u{FFFD}');
    pub open spec fn efi_part_bytes() -> Seq<u8> { seq![0x45u8, 0x46u8, 0x49u8, 0x20u8, 0x50u8, 0x41u8, 0x52u8, 0x54u8] }
    /// the UTF-8 bytes of a text (vstd::utf8)
    #[verifier::opaque]
    pub open spec fn str_bytes(s: Seq<char>) -> Seq<u8> { encode_utf8(s) }
    pub broadcast proof fn lemma_efi_bytes()
        ensures #[trigger] str_bytes("EFI PART"@) == efi_part_bytes(),
    {
        reveal(str_bytes);
        reveal_strlit("EFI PART");
        let e = "EFI PART"@;
        assert(e =~= seq!['E', 'F', 'I', ' ', 'P', 'A', 'R', 'T']);
        assert(is_ascii_chars(e));
        is_ascii_chars_encode_utf8(e);
        assert(encode_utf8(e) =~= efi_part_bytes());
    }
    pub broadcast proof fn lemma_lossy_efi(b: Seq<u8>)
        ensures (#[trigger] utf8_lossy(b)) == "EFI PART"@ <==> b == efi_part_bytes(),
    {
        reveal(str_bytes);
        reveal_strlit("EFI PART");
        broadcast use lemma_efi_bytes;
        assert(str_bytes("EFI PART"@) == efi_part_bytes());
        axiom_utf8_lossy(b);
        broadcast use group_utf8_lib;
        encode_utf8_decode_utf8("EFI PART"@);
        if valid_utf8(b) { decode_utf8_encode_utf8(b); }
    }

    pub struct Cow { pub s: String }
    impl Cow {
        pub fn into_owned(self) -> (r: String)
            ensures r == self.s,
        { self.s }
    }
    #[verifier::external_body]
    pub fn from_utf8_lossy(b: &[u8]) -> (r: Cow)
        ensures r.s@ == utf8_lossy(b@),
    { unimplemented!() }
    #[verifier::external_body]
    pub fn from_utf16_lossy(b: &[u16]) -> (r: String)
        ensures r@ == utf16_lossy(b@),
    { unimplemented!() }
    pub trait VStr {
        spec fn chars_of(&self) -> Seq<char>;
        fn encode_utf16(&self) -> (r: VIter<u16>)
            ensures r.idx() == 0, r.seq() == utf16(self.chars_of());
    }
    impl VStr for String {
        open spec fn chars_of(&self) -> Seq<char> { self@ }
        #[verifier::external_body]
        fn encode_utf16(&self) -> (r: VIter<u16>) { unimplemented!() }
    }
    pub assume_specification [ String::as_bytes ](s: &String) -> (r: &[u8])
        ensures r@ == str_bytes(s@);
    pub open spec fn up(c: char) -> char {
        if c == 'a' { 'A' } else if c == 'b' { 'B' } else if c == 'c' { 'C' } else if c == 'd' { 'D' } else if c == 'e' { 'E' } else if c == 'f' { 'F' }
        else if 'g' <= c <= 'z' { ((c as u32 - 32) as u8) as char } else { c }
    }
    #[verifier::opaque]
    pub open spec fn upper(s: Seq<char>) -> Seq<char> { s.map(|i: int, c: char| up(c)) }
    pub assume_specification [ str::to_ascii_uppercase ](s: &str) -> (r: String)
        ensures r@ == upper(s@);
    /// the text of a string, however it is borrowed
    pub trait VText {
        spec fn vchars(&self) -> Seq<char>;
        fn vtext(&self) -> (r: &str)
            ensures r@ == self.vchars();
    }
    impl VText for String {
        open spec fn vchars(&self) -> Seq<char> { self@ }
        #[verifier::external_body]
        fn vtext(&self) -> (r: &str) { unimplemented!() }
    }
    impl VText for str {
        open spec fn vchars(&self) -> Seq<char> { self@ }
        #[verifier::external_body]
        fn vtext(&self) -> (r: &str) { unimplemented!() }
    }
    /// an arm of a match on texts
    #[verifier::external_body]
    pub fn text_is(s: &str, o: &str) -> (r: bool)
        ensures r == (s@ == o@),
    { unimplemented!() }
    /// `s == "literal"`
    #[verifier::external_body]
    pub fn str_eq(s: &String, o: &str) -> (r: bool)
        ensures r == (s@ == o@),
    { unimplemented!() }
}

// -------------------------------------------------------------------- uuid
pub mod vuuid {
    use vstd::prelude::*;
    /// the four UUID fields (RFC 4122)
    pub struct Uuid { pub d1: u32, pub d2: u16, pub d3: u16, pub d4: [u8; 8] }
    impl Clone for Uuid { #[verifier::external_body] fn clone(&self) -> (r: Self) ensures r == *self { unimplemented!() } }
    impl Copy for Uuid {}
    impl vstd::std_specs::cmp::PartialEqSpecImpl for Uuid {
        open spec fn obeys_eq_spec() -> bool { true }
        open spec fn eq_spec(&self, o: &Uuid) -> bool { *self == *o }
    }
    impl PartialEq for Uuid {
        #[verifier::external_body]
        fn eq(&self, o: &Uuid) -> (r: bool)
        { unimplemented!() }
    }
    /// came out of the random generator during this call
    pub uninterp spec fn from_rng(u: Uuid) -> bool;
    impl Uuid {
        #[verifier::external_body]
        pub fn new_v4() -> (r: Uuid) ensures from_rng(r) { unimplemented!() }
        pub fn nil() -> (r: Uuid)
            ensures r.d1 == 0, r.d2 == 0, r.d3 == 0, r.d4@ == Seq::new(8, |i: int| 0u8),
        {
            let r = Uuid { d1: 0, d2: 0, d3: 0, d4: [0; 8] };
            proof { assert(r.d4@ =~= Seq::new(8, |i: int| 0u8)); }
            r
        }
        pub fn as_fields(&self) -> (r: (u32, u16, u16, &[u8; 8]))
            ensures r.0 == self.d1, r.1 == self.d2, r.2 == self.d3, *r.3 == self.d4,
        { (self.d1, self.d2, self.d3, &self.d4) }
        pub fn from_fields(d1: u32, d2: u16, d3: u16, d4: &[u8; 8]) -> (r: Uuid)
            ensures r.d1 == d1, r.d2 == d2, r.d3 == d3, r.d4 == *d4,
        { Uuid { d1, d2, d3, d4: *d4 } }
        #[verifier::external_body]
        pub fn as_hyphenated(&self) -> (r: Hyph) { unimplemented!() }
        #[verifier::external_body]
        pub fn from_str(s: &str) -> (r: Result<Uuid, ParseError>)
            ensures (match uuid_text(s@) { Some(u) => r is Ok && r->Ok_0 == u, None => r is Err }),
        { unimplemented!() }
    }
    /// the GUID a text denotes for the uuid crate
    pub uninterp spec fn uuid_text(s: Seq<char>) -> Option<Uuid>;
    pub struct ParseError {}
    pub struct Hyph {}
    impl Hyph {
        #[verifier::external_body]
        pub fn to_string(&self) -> String { unimplemented!() }
    }
}

// --------------------------------------------------------------------- crc
pub mod vcrc {
    use vstd::prelude::*;
    use crate::vio::VBuf;
    pub struct Algorithm { pub id: u32 }
    pub const CRC_32_ISO_HDLC: Algorithm = Algorithm { id: 1 };
    /// CRC-32/ISO-HDLC, bit by bit: reflected polynomial 0x04C11DB7, start and
    /// final value 0xFFFFFFFF.  tools/deps.py proves that the crc crate computes it.
    pub open spec fn crc_step(v: u32) -> u32 { if v & 1 == 1 { (v >> 1) ^ 0xEDB88320 } else { v >> 1 } }
    pub open spec fn crc_steps(v: u32, n: nat) -> u32 decreases n { if n == 0 { v } else { crc_step(crc_steps(v, (n - 1) as nat)) } }
    pub open spec fn crc_fold(s: u32, b: Seq<u8>) -> u32 decreases b.len() {
        if b.len() == 0 { s } else { crc_steps(crc_fold(s, b.drop_last()) ^ (b.last() as u32), 8) }
    }
    /// the algorithm with this id, applied to the bytes
    #[verifier::opaque]
    pub open spec fn crc32_of(alg: u32, b: Seq<u8>) -> u32 { if alg == 1 { crc_fold(0xffff_ffff, b) ^ 0xffff_ffff } else { arbitrary() } }
    pub open spec fn crc32(b: Seq<u8>) -> u32 { crc32_of(1, b) }
    pub struct Crc<W> { pub id: u32, pub w: core::marker::PhantomData<W> }
    impl<W> Crc<W> {
        pub open spec fn alg(&self) -> u32 { self.id }
        pub const fn new(a: &'static Algorithm) -> (r: Crc<W>)
            ensures r.alg() == a.id,
        { Crc { id: a.id, w: core::marker::PhantomData } }
        #[verifier::external_body]
        pub fn digest(&self) -> (r: Digest)
            ensures r.alg() == self.alg(), r.data() == Seq::<u8>::empty(),
        { unimplemented!() }
        #[verifier::external_body]
        pub fn checksum<B: VBuf + ?Sized>(&self, b: &B) -> (r: u32)
            ensures r == crc32_of(self.alg(), b.vb()),
        { unimplemented!() }
    }
    #[verifier::external_body]
    pub struct Digest { x: u32 }
    impl Digest {
        pub uninterp spec fn alg(&self) -> u32;
        pub uninterp spec fn data(&self) -> Seq<u8>;
        #[verifier::external_body]
        pub fn update<B: VBuf + ?Sized>(&mut self, b: &B)
            ensures final(self).alg() == old(self).alg(), final(self).data() == old(self).data() + b.vb(),
        { unimplemented!() }
        #[verifier::external_body]
        pub fn finalize(self) -> (r: u32)
            ensures r == crc32_of(self.alg(), self.data()),
        { unimplemented!() }
    }
}

// ------------------------------------------------------------ simple-bytes
pub mod vsb {
    use vstd::prelude::*;
    use crate::vspec::*;
    pub trait BDev: Sized {
        spec fn data(&self) -> Seq<u8>;
        spec fn bpos(&self) -> nat;
    }
    pub trait BArg { spec fn ab(&self) -> Seq<u8>; }
    impl BArg for &[u8] { open spec fn ab(&self) -> Seq<u8> { self@ } }
    impl<const N: usize> BArg for [u8; N] { open spec fn ab(&self) -> Seq<u8> { self@ } }
    impl<const N: usize> BArg for &[u8; N] { open spec fn ab(&self) -> Seq<u8> { self@ } }
    impl BArg for Vec<u8> { open spec fn ab(&self) -> Seq<u8> { self@ } }
    impl BArg for &Vec<u8> { open spec fn ab(&self) -> Seq<u8> { self@ } }

    pub open spec fn wrote<T: BDev>(a: &T, b: &T, d: Seq<u8>) -> bool {
        &&& b.data() == crate::vio::spliced(a.data(), a.bpos(), d)
        &&& b.data().len() == a.data().len()
        &&& b.bpos() == a.bpos() + d.len()
    }
    pub open spec fn took<T: BDev>(a: &T, b: &T, n: nat) -> bool {
        &&& b.data() == a.data()
        &&& b.bpos() == a.bpos() + n
    }
    pub trait BytesRead: BDev {
        fn as_slice(&self) -> (r: &[u8])
            ensures r@ == self.data();
        fn remaining(&self) -> (r: &[u8])
            requires self.bpos() <= self.data().len(),
            ensures r@ == self.data().subrange(self.bpos() as int, self.data().len() as int);
        fn read(&mut self, len: usize) -> (r: &[u8])
            requires old(self).bpos() + len <= old(self).data().len(),
            ensures took(old(self), final(self), len as nat), r@ == old(self).data().subrange(old(self).bpos() as int, old(self).bpos() + len);
        fn read_u8(&mut self) -> (r: u8)
            requires old(self).bpos() + 1 <= old(self).data().len(),
            ensures took(old(self), final(self), 1), r == old(self).data()[old(self).bpos() as int];
        fn read_le_u16(&mut self) -> (r: u16)
            requires old(self).bpos() + 2 <= old(self).data().len(),
            ensures took(old(self), final(self), 2), r == d16(old(self).data(), old(self).bpos() as int);
        fn read_le_u32(&mut self) -> (r: u32)
            requires old(self).bpos() + 4 <= old(self).data().len(),
            ensures took(old(self), final(self), 4), r == d32(old(self).data(), old(self).bpos() as int);
        fn read_le_u64(&mut self) -> (r: u64)
            requires old(self).bpos() + 8 <= old(self).data().len(),
            ensures took(old(self), final(self), 8), r == d64(old(self).data(), old(self).bpos() as int);
        /// big endian variants: value unspecified
        fn read_u16(&mut self) -> (r: u16)
            requires old(self).bpos() + 2 <= old(self).data().len(),
            ensures took(old(self), final(self), 2), r == be16(old(self).data(), old(self).bpos() as int);
        fn read_u32(&mut self) -> (r: u32)
            requires old(self).bpos() + 4 <= old(self).data().len(),
            ensures took(old(self), final(self), 4);
        fn read_u64(&mut self) -> (r: u64)
            requires old(self).bpos() + 8 <= old(self).data().len(),
            ensures took(old(self), final(self), 8);
    }
    pub trait BytesWrite: BDev {
        fn as_mut(&mut self) -> (r: &mut [u8])
            ensures r@ == old(self).data(), final(self).data() == final(r)@, final(self).bpos() == old(self).bpos();
        fn write<B: BArg>(&mut self, slice: B)
            requires old(self).bpos() + slice.ab().len() <= old(self).data().len(),
            ensures wrote(old(self), final(self), slice.ab());
        fn write_u8(&mut self, num: u8)
            requires old(self).bpos() + 1 <= old(self).data().len(),
            ensures wrote(old(self), final(self), seq![num]);
        fn write_le_u16(&mut self, num: u16)
            requires old(self).bpos() + 2 <= old(self).data().len(),
            ensures wrote(old(self), final(self), le16(num));
        fn write_le_u32(&mut self, num: u32)
            requires old(self).bpos() + 4 <= old(self).data().len(),
            ensures wrote(old(self), final(self), le32(num));
        fn write_le_u64(&mut self, num: u64)
            requires old(self).bpos() + 8 <= old(self).data().len(),
            ensures wrote(old(self), final(self), le64(num));
        fn write_u16(&mut self, num: u16)
            requires old(self).bpos() + 2 <= old(self).data().len(),
            ensures wrote(old(self), final(self), seq![((num >> 8) & 0xff) as u8, (num & 0xff) as u8]);
        fn write_u32(&mut self, num: u32)
            requires old(self).bpos() + 4 <= old(self).data().len(),
            ensures wrote(old(self), final(self), seq![((num >> 24) & 0xff) as u8, ((num >> 16) & 0xff) as u8, ((num >> 8) & 0xff) as u8, (num & 0xff) as u8]);
        fn write_u64(&mut self, num: u64)
            requires old(self).bpos() + 8 <= old(self).data().len(),
            ensures wrote(old(self), final(self), seq![((num >> 56) & 0xff) as u8, ((num >> 48) & 0xff) as u8, ((num >> 40) & 0xff) as u8, ((num >> 32) & 0xff) as u8,
                ((num >> 24) & 0xff) as u8, ((num >> 16) & 0xff) as u8, ((num >> 8) & 0xff) as u8, (num & 0xff) as u8]);
    }
    pub trait BytesSeek: BDev {
        fn position(&self) -> (r: usize)
            ensures r == self.bpos();
        fn seek(&mut self, pos: usize)
            requires pos <= old(self).data().len(), old(self).bpos() <= old(self).data().len(),
            ensures final(self).data() == old(self).data(), final(self).bpos() == pos;
    }
    #[verifier::external_body]
    pub struct BytesArray<const N: usize> { d: [u8; N], p: usize }
    impl<const N: usize> BDev for BytesArray<N> {
        uninterp spec fn data(&self) -> Seq<u8>;
        uninterp spec fn bpos(&self) -> nat;
    }
    impl<const N: usize> BytesArray<N> {
        #[verifier::external_body]
        pub fn from(b: [u8; N]) -> (r: Self)
            ensures r.data() == b@, r.bpos() == 0,
        { unimplemented!() }
        #[verifier::external_body]
        pub fn into_array(self) -> (r: [u8; N])
            ensures r@ == self.data(),
        { unimplemented!() }
    }
    impl<const N: usize> BytesRead for BytesArray<N> {
        #[verifier::external_body] fn as_slice(&self) -> (r: &[u8]) { unimplemented!() }
        #[verifier::external_body] fn remaining(&self) -> (r: &[u8]) { unimplemented!() }
        #[verifier::external_body] fn read(&mut self, len: usize) -> (r: &[u8]) { unimplemented!() }
        #[verifier::external_body] fn read_u8(&mut self) -> (r: u8) { unimplemented!() }
        #[verifier::external_body] fn read_le_u16(&mut self) -> (r: u16) { unimplemented!() }
        #[verifier::external_body] fn read_le_u32(&mut self) -> (r: u32) { unimplemented!() }
        #[verifier::external_body] fn read_le_u64(&mut self) -> (r: u64) { unimplemented!() }
        #[verifier::external_body] fn read_u16(&mut self) -> (r: u16) { unimplemented!() }
        #[verifier::external_body] fn read_u32(&mut self) -> (r: u32) { unimplemented!() }
        #[verifier::external_body] fn read_u64(&mut self) -> (r: u64) { unimplemented!() }
    }
    impl<const N: usize> BytesWrite for BytesArray<N> {
        #[verifier::external_body] fn as_mut(&mut self) -> (r: &mut [u8]) { unimplemented!() }
        #[verifier::external_body] fn write<B: BArg>(&mut self, slice: B) { unimplemented!() }
        #[verifier::external_body] fn write_u8(&mut self, num: u8) { unimplemented!() }
        #[verifier::external_body] fn write_le_u16(&mut self, num: u16) { unimplemented!() }
        #[verifier::external_body] fn write_le_u32(&mut self, num: u32) { unimplemented!() }
        #[verifier::external_body] fn write_le_u64(&mut self, num: u64) { unimplemented!() }
        #[verifier::external_body] fn write_u16(&mut self, num: u16) { unimplemented!() }
        #[verifier::external_body] fn write_u32(&mut self, num: u32) { unimplemented!() }
        #[verifier::external_body] fn write_u64(&mut self, num: u64) { unimplemented!() }
    }
    impl<const N: usize> BytesSeek for BytesArray<N> {
        #[verifier::external_body] fn position(&self) -> (r: usize) { unimplemented!() }
        #[verifier::external_body] fn seek(&mut self, pos: usize) { unimplemented!() }
    }
    #[verifier::external_body]
    pub struct Bytes<'a> { d: &'a [u8], p: usize }
    impl<'a> BDev for Bytes<'a> {
        uninterp spec fn data(&self) -> Seq<u8>;
        uninterp spec fn bpos(&self) -> nat;
    }
    impl<'a> Bytes<'a> {
        #[verifier::external_body]
        pub fn from(s: &'a [u8]) -> (r: Self)
            ensures r.data() == s@, r.bpos() == 0,
        { unimplemented!() }
    }
    impl<'a> BytesRead for Bytes<'a> {
        #[verifier::external_body] fn as_slice(&self) -> (r: &[u8]) { unimplemented!() }
        #[verifier::external_body] fn remaining(&self) -> (r: &[u8]) { unimplemented!() }
        #[verifier::external_body] fn read(&mut self, len: usize) -> (r: &[u8]) { unimplemented!() }
        #[verifier::external_body] fn read_u8(&mut self) -> (r: u8) { unimplemented!() }
        #[verifier::external_body] fn read_le_u16(&mut self) -> (r: u16) { unimplemented!() }
        #[verifier::external_body] fn read_le_u32(&mut self) -> (r: u32) { unimplemented!() }
        #[verifier::external_body] fn read_le_u64(&mut self) -> (r: u64) { unimplemented!() }
        #[verifier::external_body] fn read_u16(&mut self) -> (r: u16) { unimplemented!() }
        #[verifier::external_body] fn read_u32(&mut self) -> (r: u32) { unimplemented!() }
        #[verifier::external_body] fn read_u64(&mut self) -> (r: u64) { unimplemented!() }
    }
    impl<'a> BytesSeek for Bytes<'a> {
        #[verifier::external_body] fn position(&self) -> (r: usize) { unimplemented!() }
        #[verifier::external_body] fn seek(&mut self, pos: usize) { unimplemented!() }
    }
}

// ------------------------------------- std functions without a vstd contract
pub assume_specification<T, E> [ std::result::Result::<T, E>::unwrap_unchecked ](s: std::result::Result<T, E>) -> (r: T)
    requires s is Ok,
    ensures r == s->Ok_0;
pub assume_specification<T, E> [ std::result::Result::<T, E>::as_mut ](s: &mut std::result::Result<T, E>) -> (r: std::result::Result<&mut T, &mut E>)
    ensures
        ((*old(s)) is Ok ==> r is Ok && *r->Ok_0 == (*old(s))->Ok_0 && (*final(s)) is Ok && (*final(s))->Ok_0 == *final(r->Ok_0)),
        ((*old(s)) is Err ==> r is Err && *r->Err_0 == (*old(s))->Err_0 && (*final(s)) is Err && (*final(s))->Err_0 == *final(r->Err_0));
pub assume_specification<T, E, F> [ std::result::Result::<T, E>::or ](s: std::result::Result<T, E>, o: std::result::Result<T, F>) -> (r: std::result::Result<T, F>)
    ensures
        s is Ok ==> r is Ok && r->Ok_0 == s->Ok_0,
        s is Err ==> r == o;
pub mod vle {
    use vstd::prelude::*;
    use crate::vspec::*;
    /// the inherent uN::to_le_bytes / to_be_bytes
    pub trait VLe<const N: usize> {
        spec fn le(self) -> Seq<u8>;
        spec fn be(self) -> Seq<u8>;
        fn v_to_le_bytes(self) -> (r: [u8; N]) ensures r@ == self.le();
        fn v_to_be_bytes(self) -> (r: [u8; N]) ensures r@ == self.be();
    }
    impl VLe<2> for u16 {
        open spec fn le(self) -> Seq<u8> { le16(self) }
        open spec fn be(self) -> Seq<u8> { le16(self).reverse() }
        #[verifier::external_body] fn v_to_le_bytes(self) -> (r: [u8; 2]) { self.to_le_bytes() }
        #[verifier::external_body] fn v_to_be_bytes(self) -> (r: [u8; 2]) { self.to_be_bytes() }
    }
    impl VLe<4> for u32 {
        open spec fn le(self) -> Seq<u8> { le32(self) }
        open spec fn be(self) -> Seq<u8> { le32(self).reverse() }
        #[verifier::external_body] fn v_to_le_bytes(self) -> (r: [u8; 4]) { self.to_le_bytes() }
        #[verifier::external_body] fn v_to_be_bytes(self) -> (r: [u8; 4]) { self.to_be_bytes() }
    }
    impl VLe<8> for u64 {
        open spec fn le(self) -> Seq<u8> { le64(self) }
        open spec fn be(self) -> Seq<u8> { le64(self).reverse() }
        #[verifier::external_body] fn v_to_le_bytes(self) -> (r: [u8; 8]) { self.to_le_bytes() }
        #[verifier::external_body] fn v_to_be_bytes(self) -> (r: [u8; 8]) { self.to_be_bytes() }
    }
}

pub mod vsl {
    use vstd::prelude::*;
    pub trait VTryInto<T> {
        spec fn tries(self) -> bool;
        spec fn gives(self, t: T) -> bool;
        fn v_try_into(self) -> (r: Result<T, SliceErr>)
            ensures r is Ok <==> self.tries(), r is Ok ==> self.gives(r->Ok_0);
    }
    #[derive(Debug)]
    pub struct SliceErr {}
    impl<const N: usize> VTryInto<[u8; N]> for &[u8] {
        open spec fn tries(self) -> bool { self@.len() == N }
        open spec fn gives(self, t: [u8; N]) -> bool { t@ == self@ }
        #[verifier::external_body]
        fn v_try_into(self) -> (r: Result<[u8; N], SliceErr>) { unimplemented!() }
    }
    /// vec![x; n]
    #[verifier::external_body]
    pub fn vec_of<T: Copy>(x: T, n: usize) -> (r: Vec<T>)
        requires n <= isize::MAX, // "capacity overflow" panic
        ensures r@ == crate::vspec::filled(x, n as nat),
    { vec![x; n] }
    /// the whole of a vector, array or slice as a slice that can be written
    /// (Verus has no specification for `v[range]` of a vector in a place that is written)
    pub trait VSliceMut<T> {
        spec fn elems(&self) -> Seq<T>;
        fn v_slice_mut(&mut self) -> (r: &mut [T])
            ensures r@ == old(self).elems(), final(self).elems() == final(r)@;
    }
    impl<T> VSliceMut<T> for Vec<T> {
        open spec fn elems(&self) -> Seq<T> { self@ }
        fn v_slice_mut(&mut self) -> (r: &mut [T]) { self.as_mut_slice() }
    }
    impl<T> VSliceMut<T> for [T] {
        open spec fn elems(&self) -> Seq<T> { self@ }
        fn v_slice_mut(&mut self) -> (r: &mut [T]) { self }
    }
    impl<T, const N: usize> VSliceMut<T> for [T; N] {
        open spec fn elems(&self) -> Seq<T> { self@ }
        fn v_slice_mut(&mut self) -> (r: &mut [T]) { &mut self[..] }
    }
    /// lexicographic order of pairs
    pub open spec fn lex_le(a: (u64, u64), b: (u64, u64)) -> bool { a.0 < b.0 || (a.0 == b.0 && a.1 <= b.1) }
    /// [T]::sort and sort_unstable
    pub trait VSort {
        spec fn sorted_from(&self, o: &Self) -> bool;
        fn v_sort(&mut self)
            ensures final(self).sorted_from(old(self));
    }
    impl VSort for Vec<(u64, u64)> {
        open spec fn sorted_from(&self, o: &Self) -> bool {
            &&& self@.to_multiset() == o@.to_multiset()
            &&& self@.len() == o@.len()
            &&& forall|i: int, j: int| 0 <= i <= j < self@.len() ==> lex_le(#[trigger] self@[i], #[trigger] self@[j])
        }
        #[verifier::external_body]
        fn v_sort(&mut self) { unimplemented!() }
    }
    pub assume_specification<T, E, F> [std::result::Result::<T, E>::unwrap_or_else] (s: std::result::Result<T, E>, f: F) -> (r: T)
        where F: std::ops::FnOnce(E,) -> T + std::marker::Destruct,
        requires s is Err ==> call_requires(f, (s->Err_0,)),
        ensures
            s is Ok ==> r == s->Ok_0,
            s is Err ==> call_ensures(f, (s->Err_0,), r);
    pub assume_specification<T, E> [std::result::Result::<T, E>::unwrap_or] (s: std::result::Result<T, E>, d: T) -> (r: T)
        where E: std::marker::Destruct, T: std::marker::Destruct,
        ensures r == (if s is Ok { s->Ok_0 } else { d });
    pub assume_specification<'a, T: Clone, E> [std::result::Result::<&'a T, E>::cloned] (s: std::result::Result<&'a T, E>) -> (r: std::result::Result<T, E>)
        ensures
            s is Ok ==> r is Ok && cloned(*s->Ok_0, r->Ok_0),
            s is Err ==> r is Err && r->Err_0 == s->Err_0;
    pub assume_specification [ u64::pow ] (b: u64, e: u32) -> (r: u64)
        requires vstd::arithmetic::power::pow(b as int, e as nat) <= u64::MAX,
        ensures r == vstd::arithmetic::power::pow(b as int, e as nat);
}
