// Hadamard matrices: parsing, exact verification, invariants, and a complete
// equivalence decision (individualisation-refinement with explicit certificate).
use super::core::*;
use std::collections::{BTreeMap, HashMap};

#[derive(Clone)]
pub struct Hm { pub m: usize, pub rows: Vec<u128> } // bit j set <=> entry +1

pub fn parse_magma(l: &str) -> Option<Hm> {
    let b = l.trim().strip_prefix("M := Matrix([")?.strip_suffix("]);")?;
    let mut rows = vec![]; let mut m = 0;
    for r in b.split("],") {
        let r = r.trim().trim_start_matches('[').trim_end_matches(']');
        let v: Vec<&str> = r.split(',').collect();
        if m == 0 { m = v.len(); }
        if v.len() != m || m > 128 { return None; }
        let mut x = 0u128;
        for (j, e) in v.iter().enumerate() { match e.trim() { "1" => x |= 1 << j, "-1" => {}, _ => return None } }
        rows.push(x);
    }
    if rows.len() != m { return None; }
    Some(Hm { m, rows })
}
impl Hm {
    pub fn is_hadamard(&self) -> bool {
        (0..self.m).all(|i| (i + 1..self.m).all(|j| 2 * (self.rows[i] ^ self.rows[j]).count_ones() as usize == self.m))
    }
    pub fn get(&self, i: usize, j: usize) -> bool { self.rows[i] >> j & 1 == 1 }
    pub fn transpose(&self) -> Hm {
        let mut rows = vec![0u128; self.m];
        for i in 0..self.m { for j in 0..self.m { if self.get(i, j) { rows[j] |= 1 << i; } } }
        Hm { m: self.m, rows }
    }
    /// 4n x 4n with n x n circulant blocks in the quaternion-type arrangement
    /// rows (W X Y Z | X -W -Z Y | Y Z -W -X | Z -Y X -W): returns the quadruple.
    pub fn qt_structure(&self) -> Option<(Quad, usize)> {
        if self.m % 4 != 0 { return None; }
        let n = self.m / 4;
        let blk = |a: usize, b: usize| -> Option<u64> {
            let mut s = 0u64; for j in 0..n { if self.get(a * n, b * n + j) { s |= 1 << j; } }
            for i in 0..n { for j in 0..n { if self.get(a * n + i, b * n + (i + j) % n) != (s >> j & 1 == 1) { return None; } } }
            Some(s)
        };
        let mut g = [[0u64; 4]; 4];
        for a in 0..4 { for b in 0..4 { g[a][b] = blk(a, b)?; } }
        let neg = |x: u64| !x & mask(n);
        let [w, x, y, z] = g[0];
        let want = [[w, x, y, z], [x, neg(w), neg(z), y], [y, z, neg(w), neg(x)], [z, neg(y), x, neg(w)]];
        if g != want { return None; }
        Some(([w, x, y, z], n))
    }
}
pub fn from_quad(q: &Quad, n: usize) -> Hm {
    let neg = |x: u64| !x & mask(n);
    let [w, x, y, z] = *q;
    let g = [[w, x, y, z], [x, neg(w), neg(z), y], [y, z, neg(w), neg(x)], [z, neg(y), x, neg(w)]];
    let mut rows = vec![0u128; 4 * n];
    for a in 0..4 { for b in 0..4 { for i in 0..n { for j in 0..n {
        if g[a][b] >> j & 1 == 1 { rows[a * n + i] |= 1 << (b * n + (i + j) % n); }
    } } } }
    Hm { m: 4 * n, rows }
}
/// per row, a hash of the multiset over the other rows of the pair's profile: the histogram of
/// |sum of the 4-row product| over all completions of the pair to four rows
fn row_profiles(h: &Hm) -> Vec<u64> {
    let m = h.m; let r = &h.rows; let w = m / 4 + 1;
    let mut cnt = vec![0u32; m * m * w];
    for a in 0..m { for b in a + 1..m { let ab = r[a] ^ r[b]; for c in b + 1..m { let abc = ab ^ r[c]; for d in c + 1..m {
        let v = (m as i32 - 2 * (abc ^ r[d]).count_ones() as i32).unsigned_abs() as usize / 4;
        for (x, y) in [(a, b), (a, c), (a, d), (b, c), (b, d), (c, d)] { cnt[(x * m + y) * w + v] += 1; }
    } } } }
    let mut rows = vec![0u64; m];
    for x in 0..m { for y in x + 1..m {
        let mut k = 7u64; for v in &cnt[(x * m + y) * w..(x * m + y + 1) * w] { k = mix(k, *v as u64); }
        let k = mix(0x99, k); rows[x] = rows[x].wrapping_add(k); rows[y] = rows[y].wrapping_add(k);
    } }
    rows
}
pub struct Prof { rows: Vec<u64>, cols: Vec<u64>, pub print: u64 }
/// equivalence-invariant colours of rows and columns, and their common fingerprint
pub fn profile(h: &Hm) -> Prof {
    let rows = row_profiles(h); let cols = row_profiles(&h.transpose());
    let mut k = 1; for v in [&rows, &cols] { for x in hist(v) { k = mix(k, x); } }
    Prof { rows, cols, print: k }
}

// vertices: 0..m rows, m..2m negated rows, 2m..3m cols, 3m..4m negated cols
struct G { m: usize, adj: Vec<Vec<u16>> }
fn graph(h: &Hm) -> G {
    let m = h.m; let mut adj = vec![vec![]; 4 * m];
    for i in 0..m { for j in 0..m {
        let (p, q) = if h.get(i, j) { (2 * m + j, 3 * m + j) } else { (3 * m + j, 2 * m + j) };
        for (u, v) in [(i, p), (m + i, q)] { adj[u].push(v as u16); adj[v].push(u as u16); }
    } }
    G { m, adj }
}
fn partner(m: usize, v: usize) -> usize { if v < 2 * m { (v + m) % (2 * m) } else { 2 * m + (v - 2 * m + m) % (2 * m) } }
fn mix(a: u64, b: u64) -> u64 { let mut r = Rng(a ^ b.rotate_left(23)); r.next() ^ b.wrapping_mul(0x9E3779B97F4A7C15) }
/// colour refinement; colours are isomorphism-invariant hashes. returns number of cells
fn refine(g: &G, col: &mut Vec<u64>) -> usize {
    let nv = col.len(); let mut cells = count(col);
    loop {
        let mut nc = vec![0u64; nv];
        for v in 0..nv {
            let mut s = 0u64; for &u in &g.adj[v] { s = s.wrapping_add(mix(0x51, col[u as usize])); }
            nc[v] = mix(mix(col[v], s), mix(0x77, col[partner(g.m, v)]));
        }
        let c = count(&nc); *col = nc;
        if c == cells { return c; }
        cells = c;
    }
}
fn count(c: &[u64]) -> usize { let mut v = c.to_vec(); v.sort_unstable(); v.dedup(); v.len() }
fn hist(c: &[u64]) -> Vec<u64> { let mut v = c.to_vec(); v.sort_unstable(); v }

#[derive(PartialEq, Debug)]
pub enum Verdict { Equivalent, Inequivalent, Unknown }
pub fn equivalent(a: &Hm, b: &Hm, pa: &Prof, pb: &Prof, budget: &mut usize) -> Verdict {
    if a.m != b.m { return Verdict::Inequivalent; }
    if a.rows == b.rows { return Verdict::Equivalent; }
    let m = a.m; let ga = graph(a); let gb = graph(b);
    let init = |p: &Prof| (0..4 * m).map(|v| if v < 2 * m { mix(1, p.rows[v % m]) } else { mix(2, p.cols[v % m]) }).collect::<Vec<u64>>();
    let mut ca = init(pa); let mut cb = init(pb);
    refine(&ga, &mut ca); refine(&gb, &mut cb);
    if hist(&ca) != hist(&cb) { return Verdict::Inequivalent; }
    rec(a, b, &ga, &gb, ca, cb, 1, budget)
}
fn rec(a: &Hm, b: &Hm, ga: &G, gb: &G, ca: Vec<u64>, cb: Vec<u64>, depth: u64, budget: &mut usize) -> Verdict {
    let nv = ca.len();
    if count(&ca) == nv {
        // discrete: read off the map and verify it explicitly
        let pos: HashMap<u64, usize> = cb.iter().enumerate().map(|(i, &c)| (c, i)).collect();
        let m = a.m;
        let map: Option<Vec<usize>> = ca.iter().map(|c| pos.get(c).copied()).collect();
        let Some(map) = map else { return Verdict::Inequivalent };
        for i in 0..m { if map[i] >= 2 * m || partner(m, map[i]) != map[m + i] { return Verdict::Inequivalent; } }
        for j in 0..m { if map[2 * m + j] < 2 * m || partner(m, map[2 * m + j]) != map[3 * m + j] { return Verdict::Inequivalent; } }
        for i in 0..m { for j in 0..m {
            let (ri, sr) = (map[i] % m, map[i] >= m);
            let cj = map[2 * m + j] - 2 * m; let (cj, sc) = (cj % m, cj >= m);
            if a.get(i, j) ^ sr ^ sc != b.get(ri, cj) { return Verdict::Inequivalent; }
        } }
        return Verdict::Equivalent;
    }
    // smallest colour class of size > 1 (ties by colour), first vertex in A
    let mut cnt: HashMap<u64, usize> = HashMap::new();
    for &c in &ca { *cnt.entry(c).or_default() += 1; }
    let (&c, _) = cnt.iter().filter(|(_, &k)| k > 1).min_by_key(|(&c, &k)| (k, c)).unwrap();
    let v = ca.iter().position(|&x| x == c).unwrap();
    let mut ia = ca.clone(); ia[v] = mix(0xABCD + depth, c); refine(ga, &mut ia);
    let ha = hist(&ia);
    let mut unknown = false;
    for u in 0..nv {
        if cb[u] != c { continue; }
        if *budget == 0 { return Verdict::Unknown; }
        *budget -= 1;
        let mut ib = cb.clone(); ib[u] = mix(0xABCD + depth, c); refine(gb, &mut ib);
        if hist(&ib) != ha { continue; }
        match rec(a, b, ga, gb, ia.clone(), ib, depth + 1, budget) {
            Verdict::Equivalent => return Verdict::Equivalent,
            Verdict::Unknown => unknown = true,
            Verdict::Inequivalent => {}
        }
    }
    if unknown { Verdict::Unknown } else { Verdict::Inequivalent }
}
