//! Observation helpers linked into every generated program.
//! Everything is observed at the public boundary of whippyunits: the type parameters of
//! `Quantity` and its public value field.
use std::any::type_name;
use std::cell::RefCell;
use std::io::Write;
use std::panic::{AssertUnwindSafe, catch_unwind};
use whippyunits::quantity::*;

pub trait Bits {
    fn bits(&self) -> String;
    fn tname() -> &'static str;
}
macro_rules! ib { ($($t:ident),*) => { $(impl Bits for $t { fn bits(&self) -> String { self.to_string() } fn tname() -> &'static str { stringify!($t) } })* } }
ib!(i8, i16, i32, i64, i128, isize, u8, u16, u32, u64, u128, usize, bool);
impl Bits for f64 {
    fn bits(&self) -> String { if self.is_nan() { "nan".into() } else { format!("{:016x}", self.to_bits()) } }
    fn tname() -> &'static str { "f64" }
}
impl Bits for f32 {
    fn bits(&self) -> String { if self.is_nan() { "nan".into() } else { format!("{:08x}", self.to_bits()) } }
    fn tname() -> &'static str { "f32" }
}

/// The twelve exponents, storage type and brand of a quantity type.
pub trait Reflect {
    type T: Bits;
    const UNIT: [i16; 12];
    fn brand() -> &'static str;
    fn raw(&self) -> &Self::T;
    fn mk(v: Self::T) -> Self;
}
impl<const A: i16, const B: i16, const C: i16, const D: i16, const M: i16, const L: i16, const T_: i16, const I: i16, const TH: i16, const N: i16, const J: i16, const AN: i16, T: Bits, Br: 'static> Reflect
    for Quantity<Scale<_2<A>, _3<B>, _5<C>, _Pi<D>>, Dimension<_M<M>, _L<L>, _T<T_>, _I<I>, _Θ<TH>, _N<N>, _J<J>, _A<AN>>, T, Br>
{
    type T = T;
    const UNIT: [i16; 12] = [A, B, C, D, M, L, T_, I, TH, N, J, AN];
    fn brand() -> &'static str { let n = type_name::<Br>(); n.rsplit("::").next().unwrap() }
    fn raw(&self) -> &T { &self.unsafe_value }
    fn mk(v: T) -> Self { Self::new(v) }
}
pub fn unit_of<Q: Reflect>() -> String {
    let u = Q::UNIT;
    u.iter().map(|x| x.to_string()).collect::<Vec<_>>().join(",")
}
pub fn unit_v<Q: Reflect>(_: &Q) -> String { unit_of::<Q>() }

/// "unit;T;brand;value"
pub fn show<Q: Reflect>(q: &Q) -> String {
    format!("{};{};{};{}", unit_of::<Q>(), Q::T::tname(), Q::brand(), q.raw().bits())
}
pub fn ty<Q: Reflect>() -> String { format!("{};{};{}", unit_of::<Q>(), Q::T::tname(), Q::brand()) }

thread_local! { static OUT: RefCell<Vec<u8>> = RefCell::new(Vec::new()); }

fn esc(s: &str) -> String { s.replace('\\', "\\\\").replace('\t', "\\t").replace('\n', "\\n").replace('\r', "\\r") }
pub fn ev(fields: &[&str]) {
    OUT.with(|o| {
        let mut o = o.borrow_mut();
        let l = fields.iter().map(|f| esc(f)).collect::<Vec<_>>().join("\t");
        o.extend_from_slice(l.as_bytes());
        o.push(b'\n');
        if o.len() > 1 << 16 { flush_vec(&mut o) }
    })
}
fn flush_vec(o: &mut Vec<u8>) { let so = std::io::stdout(); let mut so = so.lock(); so.write_all(o).unwrap(); so.flush().unwrap(); o.clear(); }
pub fn flush() { OUT.with(|o| flush_vec(&mut o.borrow_mut())) }
pub fn init() { std::panic::set_hook(Box::new(|_| {})); }
pub fn done() { OUT.with(|o| o.borrow_mut().extend_from_slice(b"@done\n")); flush(); }

pub fn pmsg(e: Box<dyn std::any::Any + Send>) -> String {
    if let Some(s) = e.downcast_ref::<&str>() { s.to_string() } else if let Some(s) = e.downcast_ref::<String>() { s.clone() } else { "?".into() }
}
/// Run f, turning a panic into Err(message).
pub fn guard<R>(f: impl FnOnce() -> R) -> Result<R, String> { catch_unwind(AssertUnwindSafe(f)).map_err(pmsg) }
thread_local! { static SKIP: RefCell<Option<String>> = RefCell::new(std::env::var("PROBE_AFTER").ok()); }
pub fn case(id: &str, f: fn()) {
    let skip = SKIP.with(|s| { let mut s = s.borrow_mut(); match s.as_deref() { Some(x) => { if x == id { *s = None } true } None => false } });
    if skip { return }
    if let Ok(o) = std::env::var("PROBE_ONLY") { if o != id { return } }
    ev(&["@start", id]);
    flush();
    if let Err(m) = guard(f) { ev(&[id, "PANIC", &m]); }
}
/// Record a quantity produced by f (or the panic that prevented it).
pub fn q<Q: Reflect>(id: &str, key: &str, f: impl FnOnce() -> Q) {
    match guard(f) { Ok(v) => ev(&[id, key, "ok", &show(&v)]), Err(m) => ev(&[id, key, "panic", &m]) }
}
/// Record a bare value.
pub fn v<T: Bits>(id: &str, key: &str, f: impl FnOnce() -> T) {
    match guard(f) { Ok(v) => ev(&[id, key, "ok", &format!("{};{}", T::tname(), v.bits())]), Err(m) => ev(&[id, key, "panic", &m]) }
}
/// Record a string.
pub fn s(id: &str, key: &str, f: impl FnOnce() -> String) {
    match guard(f) { Ok(v) => ev(&[id, key, "ok", &v]), Err(m) => ev(&[id, key, "panic", &m]) }
}
