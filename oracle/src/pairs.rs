// Pair files: exact keys, admissible halves, and arranged needles.
use crate::core::*;
use std::collections::{HashMap, HashSet};

pub fn parse_block(lines: &[String]) -> (usize, [Vec<u64>; 4]) {
    let mut c: [Vec<u64>; 4] = Default::default(); let mut n = 0;
    for l in lines {
        let (k, s) = l.split_once(' ').unwrap();
        let (b, m) = from_pm(s).unwrap(); n = m;
        c["WXYZ".find(k).unwrap()].push(b);
    }
    (n, c)
}
type V = [i8; 32];
fn pafv(a: u64, n: usize) -> V { let mut v = [0; 32]; for s in 1..=n / 2 { v[s] = paf(a, s, n) as i8; } v }
fn h(v: &[i16]) -> u64 { let mut r = 0x1234u64; for &x in v { r = (r ^ (x as u16 as u64)).wrapping_mul(0x9E3779B97F4A7C15).rotate_left(29); } r }
/// every valid quadruple of the product of the four candidate lists
pub fn solve(t: Ty, n: usize, c: &[Vec<u64>; 4]) -> Vec<Quad> {
    let mut c = c.clone(); for v in c.iter_mut() { v.sort_unstable(); v.dedup(); }
    let p: Vec<Vec<V>> = c.iter().map(|v| v.iter().map(|&a| pafv(a, n)).collect()).collect();
    let m = n / 2;
    let mut tab: Vec<(u64, u32, u32)> = vec![];
    let mut buf = vec![0i16; m];
    for (i, &w) in c[0].iter().enumerate() { for (j, &x) in c[1].iter().enumerate() {
        if t == Ty::Wts && (1..=m).any(|s| cd(w, x, s, n) != 0) { continue; }
        for s in 1..=m { buf[s - 1] = p[0][i][s] as i16 + p[1][j][s] as i16; }
        tab.push((h(&buf), i as u32, j as u32));
    } }
    tab.sort_unstable();
    let threads = 8;
    let chunk = (c[2].len() + threads - 1) / threads; if chunk == 0 { return vec![]; }
    let (c, p, tab) = (&c, &p, &tab);
    std::thread::scope(|sc| {
        let js: Vec<_> = (0..c[2].len()).collect::<Vec<_>>().chunks(chunk).map(|ks| { let ks = ks.to_vec(); sc.spawn(move || {
            let mut out = vec![]; let mut buf = vec![0i16; m];
            for k in ks { for (l, &z) in c[3].iter().enumerate() {
                let y = c[2][k];
                if t == Ty::Wts && (1..=m).any(|s| cd(y, z, s, n) != 0) { continue; }
                for s in 1..=m { buf[s - 1] = -(p[2][k][s] as i16) - p[3][l][s] as i16; }
                let hh = h(&buf);
                let mut i = tab.partition_point(|e| e.0 < hh);
                while i < tab.len() && tab[i].0 == hh { let q = [c[0][tab[i].1 as usize], c[1][tab[i].2 as usize], y, z]; if valid(t, &q, n) { out.push(q); } i += 1; }
            } }
            out
        }) }).collect();
        js.into_iter().flat_map(|j| j.join().unwrap()).collect()
    })
}
pub fn sorted_rowsums(t: Ty, r: &[i64; 4]) -> bool {
    let abs = [r[0], r[1], r[2], r[3].abs()];
    let ok = r[0] >= 0 && abs.windows(2).all(|w| w[0] <= w[1]);
    let dup = abs.windows(2).any(|w| w[0] == w[1]) || abs.contains(&0);
    ok && (r[3] >= 0 || (t == Ty::Qts && !dup))
}
/// an equivalent quadruple whose rowsums are one of the decompositions (None if there is none)
pub fn arrange(t: Ty, q: &Quad, n: usize, r: &mut Rng) -> Option<Quad> {
    let g = random_equiv(t, q, n, r);
    let mut v = vec![];
    for (p, odd) in PERMS.iter() { for s in 0..16u32 {
        if t == Ty::Qts && (s.count_ones() % 2 == 1) != *odd { continue; }
        let mut x = [0; 4];
        for b in 0..4 { x[b] = g[p[b]]; if s >> b & 1 == 1 { x[b] = !x[b] & mask(n); } }
        if sorted_rowsums(t, &x.map(|a| rs(a, n))) { v.push(x); }
    } }
    if v.is_empty() { None } else { Some(v[r.below(v.len())]) }
}
fn dft(a: u64, n: usize) -> Vec<(f64, f64)> {
    (0..=n / 2).map(|k| { let mut s = (0., 0.); for i in 0..n { let x = if a >> i & 1 == 1 { 1. } else { -1. }; let f = -2. * std::f64::consts::PI * ((k * i) % n) as f64 / n as f64; s.0 += x * f.cos(); s.1 += x * f.sin(); } s }).collect()
}
fn rounded(key: i64, exact: f64) -> bool { (key as f64 - exact).abs() <= 0.5 + 1e-6 }

/// Monitors one rowsum directory: pair files against the sequence files and the exact quantities.
pub fn pairdir(t: Ty, opt: &str, n: usize, dir: &str, do_solve: bool) {
    let mut st: HashMap<&str, u64> = HashMap::new();
    let mut nv = 0;
    let mut viol = |s: String| { nv += 1; if nv <= 10 { println!("VIOL {s}"); } };
    let base = dir.rsplit('/').next().unwrap().to_string();
    let rsum: Vec<i64> = base.strip_prefix("rowsum_").map(|x| x.split('_').filter_map(|v| v.parse().ok()).collect()).unwrap_or_default();
    let mut c: [Vec<u64>; 4] = Default::default();
    for (b, name) in ["W", "X", "Y", "Z"].iter().enumerate() {
        match std::fs::read_to_string(format!("{dir}/seq_{name}.seq")) {
            Err(e) => viol(format!("{base}: seq_{name}.seq: {e}")),
            Ok(s) => for l in s.lines() { match from_pm(l) { Some((a, m)) if m == n => c[b].push(a), _ => viol(format!("{base}: seq_{name}.seq holds {l:?}")) } },
        }
        let d: HashSet<u64> = c[b].iter().cloned().collect();
        if d.len() != c[b].len() { viol(format!("{base}: seq_{name}.seq holds a sequence twice")); }
        if rsum.len() == 4 { if let Some(a) = c[b].iter().find(|&&a| rs(a, n) != rsum[b]) { viol(format!("{base}: seq_{name}.seq holds {} of another sum", pm(*a, n))); } }
        *st.entry("sequences").or_default() += c[b].len() as u64;
    }
    // pair files
    let mut files: Vec<(usize, usize, HashMap<(u32, u32), String>)> = vec![]; let mut orient = vec![];
    let mut names: Vec<String> = std::fs::read_dir(dir).unwrap().filter_map(|e| e.ok()?.file_name().into_string().ok()).filter(|f| f.starts_with("pair_") && (f.ends_with(".pair") || f.ends_with(".pair.sorted"))).collect();
    names.sort();
    for f in &names {
        let tag: Vec<usize> = f[5..].chars().take(2).filter_map(|x| "WXYZ".find(x)).collect();
        if tag.len() != 2 || tag[0] == tag[1] { viol(format!("{base}: unexpected pair file {f}")); continue; }
        let (a, b) = (tag[0], tag[1]);
        let (da, db): (Vec<_>, Vec<_>) = (c[a].iter().map(|&x| dft(x, n)).collect(), c[b].iter().map(|&x| dft(x, n)).collect());
        let text = std::fs::read(format!("{dir}/{f}")).unwrap_or_default();
        let text = String::from_utf8_lossy(&text);
        if !text.is_empty() && !text.ends_with('\n') { viol(format!("{base}/{f}: last line incomplete")); }
        let mut map = HashMap::new();
        // orientation seen: first the auto part (left / right of the equation), then the cross part (sign)
        let mut auto_or = [true, true]; let mut cross_or = [true, true]; let mut strange = 0u64;
        let m = n / 2;
        for l in text.lines() {
            let Some((k, ij)) = l.split_once(':') else { viol(format!("{base}/{f}: line {l:?}")); continue };
            let idx: Vec<usize> = ij.split('_').filter(|x| !x.is_empty()).filter_map(|x| x.parse().ok()).collect();
            if idx.len() != 2 || idx[0] >= c[a].len() || idx[1] >= c[b].len() { viol(format!("{base}/{f}: line {l:?} refers to no pair of its sequence files")); continue; }
            let (i, j) = (idx[0], idx[1]);
            if map.insert((i as u32, j as u32), k.to_string()).is_some() { viol(format!("{base}/{f}: pair {i} {j} twice")); }
            let v: Vec<i64> = k.split('_').filter(|x| !x.is_empty()).filter_map(|x| x.parse().ok()).collect();
            let want = if t == Ty::Qts { 2 * m } else { m };
            *st.entry("keys").or_default() += 1;
            if v.len() != want { strange += 1; continue; }
            let (x, y) = (c[a][i], c[b][j]);
            for s in 1..=m {
                if opt == "psd" {
                    let e = da[i][s].0.powi(2) + da[i][s].1.powi(2) + db[j][s].0.powi(2) + db[j][s].1.powi(2);
                    auto_or[0] &= rounded(v[s - 1], e); auto_or[1] &= rounded(v[s - 1], 4. * n as f64 - e);
                } else {
                    let e = paf(x, s, n) + paf(y, s, n);
                    auto_or[0] &= v[s - 1] == e; auto_or[1] &= v[s - 1] == -e;
                }
                if t == Ty::Qts {
                    if opt == "psd" {
                        let (p, q) = (da[i][s], db[j][s]);
                        let e = 2. * (p.1 * q.0 - p.0 * q.1);
                        cross_or[0] &= rounded(v[m + s - 1], e); cross_or[1] &= rounded(v[m + s - 1], -e);
                    } else {
                        let e = cd(x, y, s, n);
                        cross_or[0] &= v[m + s - 1] == e; cross_or[1] &= v[m + s - 1] == -e;
                    }
                }
            }
            if auto_or == [false; 2] || cross_or == [false; 2] { viol(format!("{base}/{f}: key of the pair {} {} is wrong: {l}", pm(x, n), pm(y, n))); auto_or = [true; 2]; cross_or = [true; 2]; }
        }
        *st.entry("lines_of_unknown_format").or_default() += strange;
        files.push((a, b, map)); orient.push((auto_or, cross_or));
    }
    *st.entry("pair_files").or_default() += names.len() as u64;
    if files.len() != 2 || { let mut u = vec![files[0].0, files[0].1, files[1].0, files[1].1]; u.sort(); u != [0, 1, 2, 3] } {
        viol(format!("{base}: pair files {names:?}"));
    } else {
        // keys of the two files are comparable: sums of one against negated sums of the other.  (The signs of the
        // cross terms cannot matter: every QT sequence is amicable, so both halves of a genuine one have zeros there.)
        let (p, q) = (orient[0], orient[1]);
        let det = |o: [bool; 2]| if o == [true, false] { Some(1) } else if o == [false, true] { Some(-1) } else { None };
        if let (Some(x), Some(y)) = (det(p.0), det(q.0)) { *st.entry("auto_signs_compared").or_default() += 1; if x == y { viol(format!("{base}: the keys of {names:?} put the auto terms on the same side")); } }
    }
    if do_solve && files.len() == 2 {
        let ix: Vec<HashMap<u64, u32>> = c.iter().map(|v| v.iter().enumerate().map(|(i, &a)| (a, i as u32)).collect()).collect();
        for q in solve(t, n, &c) {
            *st.entry("genuine").or_default() += 1;
            let key = |f: &(usize, usize, HashMap<(u32, u32), String>)| f.2.get(&(ix[f.0][&q[f.0]], ix[f.1][&q[f.1]])).cloned();
            if !(0..4).all(|b| files.iter().any(|f| f.0 == b || f.1 == b)) { break; }
            match (key(&files[0]), key(&files[1])) {
                (Some(a), Some(b)) if a == b => {}
                (Some(a), Some(b)) => viol(format!("{base}: the halves of {} have the keys {a} and {b}", quad_to_chars(&q, n))),
                (a, _) => viol(format!("{base}: half {} of {} is missing", if a.is_none() { 1 } else { 2 }, quad_to_chars(&q, n))),
            }
        }
    }
    let ev: u64 = st.get("keys").copied().unwrap_or(0) + st.get("genuine").copied().unwrap_or(0) + st.get("sequences").copied().unwrap_or(0);
    println!("STAT evals {ev}");
    for (k, v) in st { println!("STAT {k} {v}"); }
    println!("KEY {n} {base}");
    println!("DONE");
}

/// letters of the 24 units
pub fn letters24() -> Vec<(char, Qn)> {
    let mut v: Vec<(char, Qn)> = "+-iIjJkKqQxXyYzZ".chars().map(|c| (c, char_to_q(c).unwrap())).collect();
    let s = [1, -1, -1, -1]; let half = |v: Qn| [v[0] / 2, v[1] / 2, v[2] / 2, v[3] / 2];
    for (c, q) in [('s', s), ('u', half(qmul(s, [0, 2, 0, 0]))), ('v', half(qmul(s, [0, 0, 2, 0]))), ('w', half(qmul(s, [0, 0, 0, 2])))] {
        v.push((c, q)); v.push((c.to_ascii_uppercase(), q.map(|x| -x)));
    }
    v
}
/// all perfect sequences over the first k letters, first entry 1, with the symmetry
pub fn perfects(k: usize, n: usize, sym: &str) -> Vec<String> {
    let al = &letters24()[..k];
    let free: Vec<usize> = match sym { "none" => (1..n).collect(), "I" => (1..(n + 1) / 2).collect(), _ => (1..n / 2).collect() };
    let total = (k as u64).pow(free.len() as u32);
    let th = 8u64;
    std::thread::scope(|sc| {
        let js: Vec<_> = (0..th).map(|w| { let free = &free; sc.spawn(move || {
            let mut out = vec![]; let mut ix = vec![0usize; n]; let mut v = vec![[2, 0, 0, 0]; n];
            let mut code = w;
            while code < total {
                let mut c = code; for &p in free { ix[p] = (c % k as u64) as usize; c /= k as u64; v[p] = al[ix[p]].1; }
                let h = n / 2;
                match sym {
                    "I" => for i in 0..n { v[n - 1 - i] = v[i.min(n - 1 - i)]; },
                    "II" => for i in 0..h { v[h + i] = if i % 2 == 1 { v[i].map(|x| -x) } else { v[i] }; },
                    "III" => for i in 0..h { v[h + i] = if i / 2 % 2 == 1 { v[i].map(|x| -x) } else { v[i] }; },
                    "IV" => for i in 0..h { v[h + i] = v[i].map(|x| -x); },
                    _ => {}
                }
                if perfect(&v) { out.push(v.iter().map(|q| al.iter().find(|a| a.1 == *q).unwrap().0).collect::<String>()); }
                code += th;
            }
            out
        }) }).collect();
        js.into_iter().flat_map(|j| j.join().unwrap()).collect()
    })
}
/// classes of Williamson sequences, by rowsum decomposition (any n up to 31)
pub fn wsenum(n: usize) -> Vec<Quad> {
    let half = n / 2; // free: 0..=half
    let mut by: HashMap<i64, Vec<u64>> = HashMap::new();
    for f in 0..1u64 << (half + 1) { let mut a = 0u64; for i in 0..=half { if f >> i & 1 == 1 { a |= 1 << i; a |= 1 << ((n - i) % n); } } let r = rs(a, n); if r >= 0 { by.entry(r).or_default().push(a); } }
    for v in by.values_mut() { v.sort_unstable(); v.dedup(); }
    let mut cl = HashSet::new(); let mut seen = HashSet::new();
    let m = 4 * n as i64; let lim = (m as f64).sqrt() as i64 + 1;
    for a in 0..=lim { for b in a..=lim { for c in b..=lim { for d in c..=lim {
        if a * a + b * b + c * c + d * d != m { continue; }
        let l = [a, b, c, d].map(|x| by.get(&x).cloned().unwrap_or_default());
        for q in solve(Ty::Ws, n, &l) {
            let s = sign_order_min(Ty::Ws, &q, n);
            if !seen.insert(s) { continue; }
            let mut min = s; for g in position_orbit(Ty::Ws, &s, n) { let h = sign_order_min(Ty::Ws, &g, n); seen.insert(h); if h < min { min = h; } }
            cl.insert(min);
        }
    } } } }
    let mut v: Vec<Quad> = cl.into_iter().collect(); v.sort(); v
}
