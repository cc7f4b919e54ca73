use super::verif_oracle::*;
use super::sequences::williamson::QuadSeq;
use super::sequences::symmetries::SequenceType;
use std::io::Write;
use std::sync::Mutex;
use std::collections::BTreeMap;

static STATS: Mutex<BTreeMap<String, u64>> = Mutex::new(BTreeMap::new());
static VIOLS: Mutex<u64> = Mutex::new(0);

pub fn put(s: &str) { let o = std::io::stdout(); let mut o = o.lock(); let _ = writeln!(o, "{s}"); }
pub fn stat(k: &str, v: u64) { *STATS.lock().unwrap().entry(k.to_string()).or_insert(0) += v; }
pub fn eval(k: &str) { stat("evals", 1); stat(k, 1); }
pub fn viol(s: String) { let mut v = VIOLS.lock().unwrap(); *v += 1; if *v <= 20 { put(&format!("VIOL {}", s.replace('\n', " "))); } }
pub fn key(s: &str) { put(&format!("KEY {s}")); }
pub fn sample(s: String) { put(&format!("SAMPLE {}", s.replace('\n', " "))); }
pub fn done() { for (k, v) in STATS.lock().unwrap().iter() { put(&format!("STAT {k} {v}")); } put("DONE"); }
/// one observation of the kind $k: counts it and reports when the condition fails
macro_rules! observe { ($k:expr, $c:expr, $($a:tt)*) => {{ $crate::verif_util::eval($k); if !($c) { $crate::verif_util::viol(format!("{}: {}", $k, format!($($a)*))); } }} }
pub(crate) use observe;

pub fn bits(a: u64, n: usize) -> Vec<i8> { (0..n).map(|i| if a >> i & 1 == 1 { 1 } else { -1 }).collect() }
/// None when an entry is no sign
pub fn mask_of(v: &[i8]) -> Option<u64> { let mut r = 0; for (i, &x) in v.iter().enumerate() { match x { 1 => r |= 1 << i, -1 => {}, _ => return None } } Some(r) }
pub fn qs_of(q: &Quad, n: usize) -> QuadSeq {
    let mut s = QuadSeq::new(n);
    s.set_all_values((&bits(q[0], n), &bits(q[1], n), &bits(q[2], n), &bits(q[3], n)));
    s
}
/// (an impossible value stands for something that is no quadruple of signs of equal length)
pub const NOQUAD: Quad = [u64::MAX; 4];
pub fn quad_of(s: &QuadSeq, n: usize) -> Quad {
    let (a, b, c, d) = s.sequences();
    if [&a, &b, &c, &d].iter().any(|v| v.len() != n) { return NOQUAD; }
    match (mask_of(&a), mask_of(&b), mask_of(&c), mask_of(&d)) { (Some(a), Some(b), Some(c), Some(d)) => [a, b, c, d], _ => NOQUAD }
}
pub fn show(q: &Quad, n: usize) -> String { if *q == NOQUAD { "(no quadruple of signs)".into() } else { quad_to_chars(q, n) } }
pub fn rand_quad(r: &mut Rng, n: usize) -> Quad { let m = mask(n); [r.next() & m, r.next() & m, r.next() & m, r.next() & m] }
pub fn stype(t: Ty) -> SequenceType { match t { Ty::Wts => SequenceType::WilliamsonType, Ty::Qts => SequenceType::QuaternionType, Ty::Ws => SequenceType::Williamson } }
pub fn tname(t: Ty) -> &'static str { match t { Ty::Wts => "wts", Ty::Qts => "qts", Ty::Ws => "ws" } }
pub fn stdin_lines() -> Vec<String> { use std::io::BufRead; std::io::stdin().lock().lines().map(|l| l.unwrap()).collect() }
/// stdin lines "type chars"
pub fn stdin_seqs() -> Vec<(Ty, Quad, usize)> {
    stdin_lines().iter().filter(|l| !l.is_empty()).map(|l| { let (t, s) = l.split_once(' ').unwrap(); let (q, n) = chars_to_quad(s).unwrap(); (ty(t), q, n) }).collect()
}
pub fn int(s: &str) -> usize { s.parse().unwrap() }
/// the quaternion as doubled integers; None when it is not a half-integer quaternion
pub fn qn(q: &cgmath::Quaternion<f32>) -> Option<Qn> {
    let mut r = [0i64; 4];
    for (i, x) in [q.s, q.v.x, q.v.y, q.v.z].iter().enumerate() { let d = 2.0 * x; if d.fract() != 0.0 || d.abs() > 1e6 { return None; } r[i] = d as i64; }
    Some(r)
}
pub fn quat(v: Qn) -> cgmath::Quaternion<f32> { cgmath::Quaternion::new(v[0] as f32 / 2., v[1] as f32 / 2., v[2] as f32 / 2., v[3] as f32 / 2.) }
/// the 24 units
pub fn units() -> Vec<Qn> {
    let mut v = vec![];
    for i in 0..4 { for s in [2, -2] { let mut q = [0i64; 4]; q[i] = s; v.push(q); } }
    for m in 0..16 { v.push([0, 1, 2, 3].map(|b| if m >> b & 1 == 1 { 1 } else { -1 })); }
    v
}
pub fn shuffle<T>(v: &mut Vec<T>, r: &mut Rng) { for i in (1..v.len()).rev() { let j = r.below(i + 1); v.swap(i, j); } }
/// does f panic?  (messages are suppressed)
pub fn panics<F: FnOnce() + std::panic::UnwindSafe>(f: F) -> bool {
    let h = std::panic::take_hook(); std::panic::set_hook(Box::new(|_| {}));
    let r = std::panic::catch_unwind(f).is_err();
    std::panic::set_hook(h); r
}
/// group by (type, length)
pub fn groups(v: &[(Ty, Quad, usize)]) -> Vec<(Ty, usize, Vec<Quad>)> {
    let mut r: Vec<(Ty, usize, Vec<Quad>)> = vec![];
    for (t, q, n) in v { match r.iter_mut().find(|g| g.0 == *t && g.1 == *n) { Some(g) => g.2.push(*q), None => r.push((*t, *n, vec![*q])) } }
    r
}
