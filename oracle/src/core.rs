// Independent exact-integer reference model.  Nothing here is shared with the
// code under test: sequences are bit masks (bit i set <=> entry i is +1),
// correlations are popcounts, quaternions are doubled integer 4-vectors.
use std::collections::HashSet;

#[derive(Clone, Copy, PartialEq, Eq, Debug)]
pub enum Ty { Wts, Qts, Ws }

pub fn ty(s: &str) -> Ty {
    match s { "wts" => Ty::Wts, "qts" => Ty::Qts, "ws" => Ty::Ws, _ => panic!("bad type {s}") }
}

pub type Quad = [u64; 4];

#[inline] pub fn mask(n: usize) -> u64 { if n == 64 { !0 } else { (1u64 << n) - 1 } }
/// (rotr_seq b)[i] = b[i - s]
#[inline] pub fn sh(b: u64, s: usize, n: usize) -> u64 {
    let s = s % n; if s == 0 { return b; }
    ((b << s) | (b >> (n - s))) & mask(n)
}
#[inline] pub fn cross(a: u64, b: u64, s: usize, n: usize) -> i64 {
    n as i64 - 2 * (a ^ sh(b, s, n)).count_ones() as i64
}
#[inline] pub fn paf(a: u64, s: usize, n: usize) -> i64 { cross(a, a, s, n) }
#[inline] pub fn cd(a: u64, b: u64, s: usize, n: usize) -> i64 { cross(a, b, s, n) - cross(b, a, s, n) }
#[inline] pub fn rs(a: u64, n: usize) -> i64 { 2 * a.count_ones() as i64 - n as i64 }

pub fn complementary(q: &Quad, n: usize) -> bool { (1..n).all(|s| q.iter().map(|&a| paf(a, s, n)).sum::<i64>() == 0) }
pub fn amicable(q: &Quad, n: usize) -> bool {
    (1..n).all(|s| (0..4).all(|i| (i + 1..4).all(|j| cd(q[i], q[j], s, n) == 0)))
}
pub fn qcross(q: &Quad, n: usize) -> bool {
    let [w, x, y, z] = *q;
    (1..n).all(|s| cd(w, x, s, n) == cd(z, y, s, n) && cd(w, y, s, n) == cd(x, z, s, n) && cd(w, z, s, n) == cd(y, x, s, n))
}
pub fn symmetric1(a: u64, n: usize) -> bool { (1..n).all(|i| (a >> i) & 1 == (a >> (n - i)) & 1) }
pub fn symmetric(q: &Quad, n: usize) -> bool { q.iter().all(|&a| symmetric1(a, n)) }
pub fn valid(t: Ty, q: &Quad, n: usize) -> bool {
    complementary(q, n) && match t {
        Ty::Wts => amicable(q, n), Ty::Qts => qcross(q, n), Ty::Ws => symmetric(q, n),
    }
}

// ---------------------------------------------------------------- quaternions
/// Quaternions with doubled integer components (so q = (1,1,1,1)).
pub type Qn = [i64; 4];
pub fn qmul(a: Qn, b: Qn) -> Qn { // result carries an extra factor 2
    [a[0]*b[0]-a[1]*b[1]-a[2]*b[2]-a[3]*b[3],
     a[0]*b[1]+a[1]*b[0]+a[2]*b[3]-a[3]*b[2],
     a[0]*b[2]-a[1]*b[3]+a[2]*b[0]+a[3]*b[1],
     a[0]*b[3]+a[1]*b[2]-a[2]*b[1]+a[3]*b[0]]
}
pub fn qconj(a: Qn) -> Qn { [a[0], -a[1], -a[2], -a[3]] }
/// README encoding table.
pub fn char_to_q(c: char) -> Option<Qn> {
    let one = [2, 0, 0, 0]; let i = [0, 2, 0, 0]; let j = [0, 0, 2, 0]; let k = [0, 0, 0, 2];
    let q = [1, 1, 1, 1];
    let half = |v: Qn| [v[0]/2, v[1]/2, v[2]/2, v[3]/2];
    let neg = |v: Qn| [-v[0], -v[1], -v[2], -v[3]];
    Some(match c {
        '+' => one, '-' => neg(one),
        'i' => i, 'j' => j, 'k' => k, 'q' => q,
        'x' => half(qmul(q, i)), 'y' => half(qmul(q, j)), 'z' => half(qmul(q, k)),
        'I' => neg(i), 'J' => neg(j), 'K' => neg(k), 'Q' => neg(q),
        'X' => neg(half(qmul(q, i))), 'Y' => neg(half(qmul(q, j))), 'Z' => neg(half(qmul(q, k))),
        _ => return None,
    })
}
/// the 24 unit quaternions as the quaternionic matrices are written: the other 8 are s = conj(q), u = s i, v = s j, w = s k
pub fn char24_to_q(c: char) -> Option<Qn> {
    let b = "sSuUvVwW".find(c);
    match b {
        None => char_to_q(c),
        Some(x) => { let u: Qn = [[2, 0, 0, 0], [0, 2, 0, 0], [0, 0, 2, 0], [0, 0, 0, 2]][x / 2]; let p = qmul([1, -1, -1, -1], u); let g = if x % 2 == 1 { -1 } else { 1 }; Some(p.map(|v| g * v / 2)) }
    }
}
pub fn q_to_char24(q: Qn) -> Option<char> { "+-iIjJkKqQxXyYzZsSuUvVwW".chars().find(|&c| char24_to_q(c) == Some(q)) }
pub const ALPHABET: &str = "+-iIjJkKqQxXyYzZ";
pub fn q_to_char(q: Qn) -> Option<char> { ALPHABET.chars().find(|&c| char_to_q(c) == Some(q)) }
pub fn perfect(v: &[Qn]) -> bool {
    let n = v.len();
    (1..n).all(|t| {
        let mut s = [0i64; 4];
        for i in 0..n { let p = qmul(v[i], qconj(v[(i + t) % n])); for c in 0..4 { s[c] += p[c]; } }
        s == [0; 4]
    })
}
pub fn odd_perfect(v: &[Qn]) -> bool {
    let n = v.len();
    (1..n).all(|t| {
        let mut s = [0i64; 4];
        for i in 0..n { let p = qmul(v[i], qconj(v[(i + t) % n])); let g = if i + t >= n { -1 } else { 1 }; for c in 0..4 { s[c] += g * p[c]; } }
        s == [0; 4]
    })
}
/// quadruple (w,x,y,z) of +-1 -> quaternion u*(w+xi+yj+zk)/2 with u=(-1+i+j+k)/2.
pub fn quad_to_q(e: [i64; 4]) -> Qn {
    let p = qmul([-1, 1, 1, 1], e);
    [p[0] / 2, p[1] / 2, p[2] / 2, p[3] / 2]
}
pub fn chars_to_quad(s: &str) -> Option<(Quad, usize)> {
    let mut q = [0u64; 4]; let mut n = 0;
    for c in s.chars() {
        let v = char_to_q(c)?;
        let mut hit = None;
        for m in 0..16u32 {
            let e = [0, 1, 2, 3].map(|b| if m >> b & 1 == 1 { 1i64 } else { -1 });
            if quad_to_q(e) == v { hit = Some(m); break; }
        }
        let m = hit?;
        for b in 0..4 { if m >> b & 1 == 1 { q[b] |= 1 << n; } }
        n += 1;
        if n > 63 { return None; }
    }
    if n == 0 { return None; }
    Some((q, n))
}
pub fn quad_to_chars(q: &Quad, n: usize) -> String {
    (0..n).map(|i| {
        let e = [0, 1, 2, 3].map(|b| if q[b] >> i & 1 == 1 { 1i64 } else { -1 });
        q_to_char(quad_to_q(e)).unwrap()
    }).collect()
}
pub fn pm(a: u64, n: usize) -> String { (0..n).map(|i| if a >> i & 1 == 1 { '+' } else { '-' }).collect() }
pub fn from_pm(s: &str) -> Option<(u64, usize)> {
    let mut a = 0; let mut n = 0;
    for c in s.chars() { match c { '+' => a |= 1 << n, '-' => {}, _ => return None }; n += 1; if n > 63 { return None; } }
    Some((a, n))
}

// ---------------------------------------------------------------- equivalence
pub fn gcd(a: usize, b: usize) -> usize { if b == 0 { a } else { gcd(b, a % b) } }
pub fn decimate(a: u64, k: usize, n: usize) -> u64 {
    let mut r = 0; for i in 0..n { if a >> (i * k % n) & 1 == 1 { r |= 1 << i; } } r
}
pub fn altmask(n: usize) -> u64 { let mut r = 0; let mut i = 1; while i < n { r |= 1 << i; i += 2; } r }

/// All images under the position part of the group (shift / decimation /
/// alternating negation / half-shifts), without sign & order operations.
pub fn position_orbit(t: Ty, q: &Quad, n: usize) -> Vec<Quad> {
    let m = mask(n);
    let mut v = vec![];
    let shifts: Vec<usize> = if t == Ty::Ws { vec![0] } else { (0..n).collect() };
    let alts: &[bool] = if n % 2 == 0 { &[false, true] } else { &[false] };
    let am = altmask(n);
    let subsets: Vec<u32> = if n % 2 == 1 { vec![0] } else if t == Ty::Qts { (0..16u32).filter(|s| s.count_ones() % 2 == 0).collect() } else { (0..16).collect() };
    for k in 1..=n {
        if gcd(k, n) != 1 { continue; }
        let d = q.map(|a| decimate(a, k, n));
        for &s in &shifts {
            let e = d.map(|a| sh(a, s, n));
            for &al in alts {
                let f = e.map(|a| if al { (a ^ am) & m } else { a });
                for &sub in &subsets {
                    let mut g = f;
                    for b in 0..4 { if sub >> b & 1 == 1 { g[b] = sh(g[b], n / 2, n); } }
                    v.push(g);
                }
            }
        }
    }
    v
}
pub const PERMS: [([usize; 4], bool); 24] = perms();
const fn perms() -> [([usize; 4], bool); 24] {
    let mut r = [([0usize; 4], false); 24]; let mut c = 0;
    let mut a = 0; while a < 4 { let mut b = 0; while b < 4 { let mut d = 0; while d < 4 {
        if a != b && a != d && b != d {
            let e = 6 - a - b - d;
            let p = [a, b, d, e];
            let mut inv = 0; let mut i = 0; while i < 4 { let mut j = i + 1; while j < 4 { if p[i] > p[j] { inv += 1; } j += 1; } i += 1; }
            r[c] = (p, inv % 2 == 1); c += 1;
        }
        d += 1; } b += 1; } a += 1; }
    r
}
/// minimum over the sign/order part of the group (brute force over the group for
/// qts, sorted normal form for wts/ws).
pub fn sign_order_min(t: Ty, q: &Quad, n: usize) -> Quad {
    let m = mask(n);
    if t == Ty::Qts {
        let mut best = [u64::MAX; 4];
        for (p, odd) in PERMS.iter() {
            for s in 0..16u32 {
                if (s.count_ones() % 2 == 1) != *odd { continue; }
                let mut g = [0; 4];
                for b in 0..4 { g[b] = q[p[b]]; if s >> b & 1 == 1 { g[b] = !g[b] & m; } }
                if g < best { best = g; }
            }
        }
        best
    } else {
        let mut g = q.map(|a| a.min(!a & m));
        g.sort();
        g
    }
}
pub fn class_id(t: Ty, q: &Quad, n: usize) -> Quad {
    position_orbit(t, q, n).iter().map(|g| sign_order_min(t, g, n)).min().unwrap()
}
/// The full orbit.
pub fn orbit(t: Ty, q: &Quad, n: usize) -> HashSet<Quad> {
    let m = mask(n);
    let mut r = HashSet::new();
    let pos: HashSet<Quad> = position_orbit(t, q, n).into_iter().collect();
    for g in pos {
        for (p, odd) in PERMS.iter() {
            for s in 0..16u32 {
                if t == Ty::Qts && (s.count_ones() % 2 == 1) != *odd { continue; }
                let mut h = [0; 4];
                for b in 0..4 { h[b] = g[p[b]]; if s >> b & 1 == 1 { h[b] = !h[b] & m; } }
                r.insert(h);
            }
        }
    }
    r
}

// ---------------------------------------------------------------- rng
pub struct Rng(pub u64);
impl Rng {
    pub fn next(&mut self) -> u64 {
        self.0 = self.0.wrapping_add(0x9E3779B97F4A7C15);
        let mut z = self.0;
        z = (z ^ (z >> 30)).wrapping_mul(0xBF58476D1CE4E5B9);
        z = (z ^ (z >> 27)).wrapping_mul(0x94D049BB133111EB);
        z ^ (z >> 31)
    }
    pub fn below(&mut self, k: usize) -> usize { (self.next() % k as u64) as usize }
    pub fn coin(&mut self) -> bool { self.next() & 1 == 1 }
}
/// A random element of the equivalence group applied to q.
pub fn random_equiv(t: Ty, q: &Quad, n: usize, r: &mut Rng) -> Quad {
    let m = mask(n);
    let mut g = *q;
    let ks: Vec<usize> = (1..=n).filter(|&k| gcd(k, n) == 1).collect();
    let k = ks[r.below(ks.len())];
    g = g.map(|a| decimate(a, k, n));
    if t != Ty::Ws { let s = r.below(n); g = g.map(|a| sh(a, s, n)); }
    if n % 2 == 0 {
        if r.coin() { let am = altmask(n); g = g.map(|a| (a ^ am) & m); }
        let mut sub = r.below(16) as u32;
        if t == Ty::Qts && sub.count_ones() % 2 == 1 { sub ^= 1; }
        for b in 0..4 { if sub >> b & 1 == 1 { g[b] = sh(g[b], n / 2, n); } }
    }
    let (p, odd) = PERMS[r.below(24)];
    let mut s = r.below(16) as u32;
    if t == Ty::Qts && (s.count_ones() % 2 == 1) != odd { s ^= 1; }
    let mut h = [0; 4];
    for b in 0..4 { h[b] = g[p[b]]; if s >> b & 1 == 1 { h[b] = !h[b] & m; } }
    h
}
