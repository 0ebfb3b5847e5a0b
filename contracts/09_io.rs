/// std's I/O as the tool uses it. A token of the process's I/O records what was read, what each
/// output has taken, and whether any operation failed.
pub mod vio {
use vstd::prelude::*;
use crate::vspec::*;
use crate::cli::args::Args;
verus! {
/// Where bytes go: standard output, or the file with this path
pub enum Sink { Out, File(Seq<u8>) }
/// The process's I/O so far: the arguments it was given; the source read last (None: standard input) and the
/// text it held; the bytes each output has accepted; the outputs all whose bytes have been handed to the
/// system; whether an operation has failed; whether a message has gone to standard error.
pub tracked struct Io { pub ghost args: Option<Args>, pub ghost inp: Option<(Option<Seq<u8>>, Seq<char>)>, pub ghost acc: Map<Sink, Seq<u8>>, pub ghost clean: Set<Sink>, pub ghost failed: bool, pub ghost said: bool }
impl Io {
    /// the process has just started
    pub open spec fn fresh(&self) -> bool { self.args is None && self.inp is None && self.acc == Map::<Sink, Seq<u8>>::empty().insert(Sink::Out, Seq::empty()) && self.clean.contains(Sink::Out) && !self.failed && !self.said }
}
/// an operation on one output: nothing else changes, and a failure is recorded
pub open spec fn io_op(a: Io, b: Io, k: Sink, ok: bool) -> bool {
    &&& b.args == a.args && b.inp == a.inp && b.said == a.said && b.failed == (a.failed || !ok)
    &&& b.acc.dom() == a.acc.dom().insert(k)
    &&& forall|x: Sink| x != k ==> #[trigger] b.acc[x] == a.acc[x]
    &&& forall|x: Sink| x != k ==> #[trigger] b.clean.contains(x) == a.clean.contains(x)
}
/// an accepted write of the bytes d; the output hands everything on at once if `direct`
pub open spec fn io_write(a: Io, b: Io, k: Sink, d: Seq<u8>, direct: bool, ok: bool) -> bool {
    &&& io_op(a, b, k, ok)
    &&& ok ==> b.acc == a.acc.insert(k, a.acc[k] + d)
    &&& ok && direct ==> b.clean.contains(k)
}
pub broadcast proof fn l_bytes1(a: Seq<u8>, b: Seq<u8>, c: Seq<u8>) ensures #[trigger] ((a + b) + c) == a + (b + c) { assert((a + b) + c =~= a + (b + c)); }
pub broadcast proof fn l_bytes2(a: Seq<u8>) ensures #[trigger] (Seq::<u8>::empty() + a) == a { assert(Seq::<u8>::empty() + a =~= a); }
pub broadcast proof fn l_bytes3(a: Seq<u8>) ensures #[trigger] (a + Seq::<u8>::empty()) == a { assert(a + Seq::<u8>::empty() =~= a); }
/// eprintln!: a message on standard error
#[verifier::external_body]
pub fn v_eprintln(text: bool, Tracked(io): Tracked<&mut Io>)
    ensures final(io).said == (old(io).said || text), final(io).args == old(io).args, final(io).inp == old(io).inp, final(io).acc == old(io).acc, final(io).clean == old(io).clean, final(io).failed == old(io).failed
    opens_invariants none
{ unimplemented!() }
} // verus!
pub mod path {
use vstd::prelude::*;
use crate::vspec::*;
verus! {
#[verifier::external_body]
pub struct OsStr { p: u8 }
impl OsStr {
    pub uninterp spec fn osv(&self) -> Seq<u8>;
    #[verifier::external_body]
    pub fn v_is(&self, s: &str) -> (r: bool) ensures r == (self.osv() == enc(s@)) { unimplemented!() }
    #[verifier::external_body]
    pub fn to_string_lossy(&self) -> (r: String) ensures r@ == lossy(self.osv()) { unimplemented!() }
}
/// the text of a name, with what is not UTF-8 replaced
pub uninterp spec fn lossy(b: Seq<u8>) -> Seq<char>;
/// the extension of the last name in a path
pub uninterp spec fn ext_of(b: Seq<u8>) -> Option<Seq<u8>>;
/// lower case
pub uninterp spec fn lower(s: Seq<char>) -> Seq<char>;
pub trait VLower { spec fn lws(&self) -> Seq<char>; fn v_to_lowercase(&self) -> (r: String) ensures r@ == lower(self.lws()); }
impl VLower for str { open spec fn lws(&self) -> Seq<char> { self@ }
    #[verifier::external_body]
    fn v_to_lowercase(&self) -> (r: String) { unimplemented!() } }
/// Path and PathBuf are one type here: a sequence of bytes
#[verifier::external_body]
pub struct Path { p: u8 }
pub type PathBuf = Path;
impl Path {
    pub uninterp spec fn pv(&self) -> Seq<u8>;
    #[verifier::external_body]
    pub fn as_os_str(&self) -> (r: &OsStr) ensures r.osv() == self.pv() { unimplemented!() }
    #[verifier::external_body]
    pub fn extension(&self) -> (r: Option<&OsStr>) ensures match r { Some(x) => ext_of(self.pv()) == Some(x.osv()), None => ext_of(self.pv()) is None } { unimplemented!() }
    #[verifier::external_body]
    pub fn to_path_buf(&self) -> (r: PathBuf) ensures r == *self { unimplemented!() }
    #[verifier::external_body]
    pub fn as_path(&self) -> (r: &Path) ensures *r == *self { unimplemented!() }
    #[verifier::external_body]
    pub fn display(&self) -> (r: Display) { unimplemented!() }
}
impl Clone for Path {
    #[verifier::external_body]
    fn clone(&self) -> (r: Self) ensures r == *self { unimplemented!() }
}
#[verifier::external_body]
pub struct Display { p: u8 }
impl Display {
    #[verifier::external_body]
    pub fn v_to_string(&self) -> (r: String) { unimplemented!() }
}
} // verus!
}
pub mod io {
use vstd::prelude::*;
use crate::vspec::*;
use super::*;
verus! {
#[verifier::external_body]
pub struct Error { p: u8 }
pub type Result<T> = std::result::Result<T, Error>;
/// The write side of std's writers
pub trait Write {
    spec fn sink(&self) -> Sink;
    /// after accepting these bytes nothing is left in the process's buffers
    spec fn direct(d: Seq<u8>) -> bool;
    fn write_all(&mut self, d: &[u8], Tracked(io): Tracked<&mut Io>) -> (r: Result<()>)
        ensures final(self).sink() == old(self).sink(), io_write(*old(io), *final(io), old(self).sink(), d@, Self::direct(d@), r is Ok);
    fn flush(&mut self, Tracked(io): Tracked<&mut Io>) -> (r: Result<()>)
        ensures final(self).sink() == old(self).sink(), io_write(*old(io), *final(io), old(self).sink(), Seq::empty(), true, r is Ok);
}
/// the read side
pub trait Read {
    spec fn source(&self) -> Option<Seq<u8>>;
    fn read_to_string(&mut self, s: &mut String, Tracked(io): Tracked<&mut Io>) -> (r: Result<usize>)
        ensures final(io).args == old(io).args, final(io).acc == old(io).acc, final(io).clean == old(io).clean, final(io).said == old(io).said, final(io).failed == (old(io).failed || r is Err),
          r is Ok ==> exists|t: Seq<char>| #[trigger] fin(t) && final(s)@ == old(s)@ + t && final(io).inp == Some((old(self).source(), t));
}
pub open spec fn fin(t: Seq<char>) -> bool { true }
#[verifier::external_body]
pub struct Stdin { p: u8 }
#[verifier::external_body]
pub fn stdin() -> (r: Stdin) { unimplemented!() }
impl Read for Stdin {
    open spec fn source(&self) -> Option<Seq<u8>> { None }
    #[verifier::external_body]
    fn read_to_string(&mut self, s: &mut String, Tracked(io): Tracked<&mut Io>) -> (r: Result<usize>) { unimplemented!() }
}
#[verifier::external_body]
pub struct Stdout { p: u8 }
#[verifier::external_body]
pub fn stdout() -> (r: Stdout) { unimplemented!() }
#[verifier::external_body]
pub struct StdoutLock { p: u8 }
impl Stdout {
    #[verifier::external_body]
    pub fn lock(&self) -> (r: StdoutLock) { unimplemented!() }
}
/// standard output is line buffered: an accepted write that ends in a newline has been handed on, with all before it
pub open spec fn line_end(d: Seq<u8>) -> bool { d.len() > 0 && d.last() == 10 }
impl Write for StdoutLock {
    open spec fn sink(&self) -> Sink { Sink::Out }
    open spec fn direct(d: Seq<u8>) -> bool { line_end(d) }
    #[verifier::external_body]
    fn write_all(&mut self, d: &[u8], Tracked(io): Tracked<&mut Io>) -> (r: Result<()>) { unimplemented!() }
    #[verifier::external_body]
    fn flush(&mut self, Tracked(io): Tracked<&mut Io>) -> (r: Result<()>) { unimplemented!() }
}
impl Write for Stdout {
    open spec fn sink(&self) -> Sink { Sink::Out }
    open spec fn direct(d: Seq<u8>) -> bool { line_end(d) }
    #[verifier::external_body]
    fn write_all(&mut self, d: &[u8], Tracked(io): Tracked<&mut Io>) -> (r: Result<()>) { unimplemented!() }
    #[verifier::external_body]
    fn flush(&mut self, Tracked(io): Tracked<&mut Io>) -> (r: Result<()>) { unimplemented!() }
}
/// a buffer of its own: only a flush hands everything on, and dropping it hides an error
#[verifier::external_body]
#[verifier::accept_recursive_types(W)]
pub struct BufWriter<W: Write> { w: W }
impl<W: Write> BufWriter<W> {
    pub uninterp spec fn inner(&self) -> Sink;
    #[verifier::external_body]
    pub fn new(w: W) -> (r: Self) ensures r.inner() == w.sink() { unimplemented!() }
    #[verifier::external_body]
    pub fn with_capacity(n: usize, w: W) -> (r: Self) ensures r.inner() == w.sink() { unimplemented!() }
}
impl<W: Write> Write for BufWriter<W> {
    open spec fn sink(&self) -> Sink { self.inner() }
    open spec fn direct(d: Seq<u8>) -> bool { false }
    #[verifier::external_body]
    fn write_all(&mut self, d: &[u8], Tracked(io): Tracked<&mut Io>) -> (r: Result<()>) { unimplemented!() }
    #[verifier::external_body]
    fn flush(&mut self, Tracked(io): Tracked<&mut Io>) -> (r: Result<()>) { unimplemented!() }
}
} // verus!
}
pub mod fs {
use vstd::prelude::*;
use crate::vspec::*;
use super::*;
use super::path::*;
verus! {
#[verifier::external_body]
pub struct File { p: u8 }
impl File {
    pub uninterp spec fn name(&self) -> Seq<u8>;
    /// an empty file; the process creates a file once (so that one handle writes it)
    #[verifier::external_body]
    pub fn create(p: &Path, Tracked(io): Tracked<&mut Io>) -> (r: io::Result<File>)
        requires !old(io).acc.dom().contains(Sink::File(p.pv()))
        ensures io_op(*old(io), *final(io), Sink::File(p.pv()), r is Ok), r is Ok ==> r->Ok_0.name() == p.pv() && final(io).acc == old(io).acc.insert(Sink::File(p.pv()), Seq::empty()) && final(io).clean.contains(Sink::File(p.pv()))
    { unimplemented!() }
}
impl io::Write for File {
    open spec fn sink(&self) -> Sink { Sink::File(self.name()) }
    open spec fn direct(d: Seq<u8>) -> bool { true }
    #[verifier::external_body]
    fn write_all(&mut self, d: &[u8], Tracked(io): Tracked<&mut Io>) -> (r: io::Result<()>) { unimplemented!() }
    #[verifier::external_body]
    fn flush(&mut self, Tracked(io): Tracked<&mut Io>) -> (r: io::Result<()>) { unimplemented!() }
}
#[verifier::external_body]
pub fn read_to_string(p: &Path, Tracked(io): Tracked<&mut Io>) -> (r: io::Result<String>)
    ensures final(io).args == old(io).args, final(io).acc == old(io).acc, final(io).clean == old(io).clean, final(io).said == old(io).said, final(io).failed == (old(io).failed || r is Err),
      r is Ok ==> final(io).inp == Some((Some(p.pv()), r->Ok_0@))
{ unimplemented!() }
} // verus!
}
pub mod process {
use vstd::prelude::*;
use super::*;
verus! {
/// the process ends with this status: 0 is a claim of success, anything else comes with a message
#[verifier::external_body]
pub fn exit(code: i32, Tracked(io): Tracked<&mut Io>) -> !
    requires code % 256 == 0 ==> crate::cli::io_done(*old(io)), code % 256 != 0 ==> old(io).said
{ unimplemented!() }
} // verus!
}
}
/// serde_json as the library uses it
pub mod serde_json {
use vstd::prelude::*;
use crate::vutf::*;
use crate::vspec_json::{serde_str, show_json}; use crate::vspec::*;
use crate::vstubs::VDisp;
verus! {
#[verifier::external_body]
pub struct Error { p: u8 }
#[verifier::external_body]
pub struct Number { p: u8 }
impl Number {
    /// the f64 it stands for, when it has one
    pub uninterp spec fn num(&self) -> Option<f64>;
    pub uninterp spec fn text(&self) -> Seq<char>;
    #[verifier::external_body]
    pub fn as_f64(&self) -> (r: Option<f64>) ensures r == self.num() { unimplemented!() }
    #[verifier::external_body]
    pub fn from_f64(f: f64) -> (r: Option<Number>) ensures match r { Some(n) => f_is_finite(f) && n.num() == Some(f) && n.text() == show_json(f), None => !f_is_finite(f) } { unimplemented!() }
}
impl VDisp for Number {
    open spec fn disp(&self) -> Seq<char> { self.text() }
    #[verifier::external_body]
    fn v_disp(&self) -> (r: String) { unimplemented!() }
    #[verifier::external_body]
    fn v_to_string(&self) -> (r: String) { unimplemented!() }
}
pub enum Value { Null, Bool(bool), Number(Number), String(String), Array(Vec<Value>), Object(Map) }
/// an object's members in order (feature preserve_order)
pub struct Map { pub v: Vec<(String, Value)> }
impl Map {
    #[verifier::external_body]
    pub fn new() -> (r: Self) ensures r.v@.len() == 0 { unimplemented!() }
    #[verifier::external_body]
    pub fn len(&self) -> (r: usize) ensures r == self.v@.len() { unimplemented!() }
    /// a key that is there keeps its place and takes the new value
    #[verifier::external_body]
    pub fn insert(&mut self, k: String, x: Value) -> (r: Option<Value>) ensures members(final(self).v@) == m_put(members(old(self).v@), k@, x.jv()) { unimplemented!() }
}
impl IntoIterator for Map {
    type Item = (String, Value);
    type IntoIter = std::vec::IntoIter<(String, Value)>;
    fn into_iter(self) -> (r: std::vec::IntoIter<(String, Value)>) ensures r.remaining() == self.v@, r.obeys_prophetic_iter_laws(), r.decrease() is Some { self.v.into_iter() }
}
pub open spec fn m_put(m: Seq<(Seq<char>, SV)>, k: Seq<char>, x: SV) -> Seq<(Seq<char>, SV)> {
    let i = m_idx(m, k);
    if i < m.len() { m.update(i, (k, x)) } else { m.push((k, x)) }
}
/// the place of a key, or the number of members
pub open spec fn m_idx(m: Seq<(Seq<char>, SV)>, k: Seq<char>) -> int decreases m.len() { if m.len() == 0 { 0 } else if m[0].0 == k { 0 } else { 1 + m_idx(m.skip(1), k) } }
/// what the library takes a JSON number for
pub open spec fn num_of(n: &Number) -> SP { match n.num() { Some(f) => norm_num(f), None => match parse_f64(n.text()) { Some(f) => norm_num(f), None => SP::Null } } }
impl Value {
    /// the value as the library's own
    pub open spec fn jv(&self) -> SV decreases *self {
        match *self {
            Value::Null => SV::Prim(SP::Null),
            Value::Bool(b) => SV::Prim(SP::Bool(b)),
            Value::Number(n) => SV::Prim(num_of(&n)),
            Value::String(s) => SV::Prim(SP::Str(s@)),
            Value::Array(a) => SV::Arr(jvs(a@)),
            Value::Object(m) => SV::Obj(members(m.v@)),
        }
    }
}
pub open spec fn jvs(a: Seq<Value>) -> Seq<SV> decreases a { Seq::new(a.len(), |i: int| if 0 <= i < a.len() { a[i].jv() } else { arbitrary() }) }
pub open spec fn members(a: Seq<(String, Value)>) -> Seq<(Seq<char>, SV)> decreases a { Seq::new(a.len(), |i: int| if 0 <= i < a.len() { (a[i].0@, a[i].1.jv()) } else { arbitrary() }) }
/// The value serde_json holds for one of the library's: of a repeated key the last value, in the first place; a number that is not finite is null
pub open spec fn vj(v: SV) -> SV decreases v { match v { SV::Prim(p) => SV::Prim(norm_sp(p)), SV::Arr(a) => SV::Arr(vjs(a)), SV::Obj(f) => SV::Obj(vjf(f)) } }
pub open spec fn vjs(a: Seq<SV>) -> Seq<SV> decreases a { Seq::new(a.len(), |i: int| if 0 <= i < a.len() { vj(a[i]) } else { arbitrary() }) }
pub open spec fn vjf(f: Seq<(Seq<char>, SV)>) -> Seq<(Seq<char>, SV)> decreases f, f.len() { if f.len() == 0 { Seq::empty() } else { m_put(vjf(f.drop_last()), f.last().0, vj(f.last().1)) } }
/// the value a JSON text denotes (serde_json's reader)
pub uninterp spec fn json_read(t: Seq<char>) -> Option<SV>;
/// the compact JSON text of a value (serde_json's writer)
pub uninterp spec fn json_write(v: SV) -> Seq<char>;
#[verifier::external_body]
pub fn from_str(t: &str) -> (r: Result<Value, Error>) ensures match r { Ok(v) => json_read(t@) == Some(v.jv()), Err(_) => json_read(t@) is None } { unimplemented!() }
/// what serde_json writes for a value of a type
pub trait Ser { spec fn ser(&self) -> Seq<char>; }
impl Ser for String { open spec fn ser(&self) -> Seq<char> { serde_str(self@) } }
impl Ser for Value { open spec fn ser(&self) -> Seq<char> { json_write(self.jv()) } }
/// of a text or a value: never fails
#[verifier::external_body]
pub fn to_string<T: Ser>(v: &T) -> (r: Result<String, Error>) ensures r is Ok, r->Ok_0@ == v.ser() { unimplemented!() }
} // verus!
}
