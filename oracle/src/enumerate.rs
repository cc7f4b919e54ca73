// Exhaustive reference enumeration of all valid quadruples up to equivalence.
use crate::core::*;
use std::collections::{HashMap, HashSet};

fn key_paf(a: u64, b: u64, n: usize, neg: bool) -> Vec<i16> {
    (1..=n / 2).map(|s| { let v = (paf(a, s, n) + paf(b, s, n)) as i16; if neg { -v } else { v } }).collect()
}

/// returns (class ids, number of distinct normalised solutions visited)
pub fn classes(t: Ty, n: usize) -> (Vec<Quad>, usize) {
    let m = mask(n);
    let mut seen: HashSet<Quad> = HashSet::new();
    let mut reps: Vec<Quad> = vec![];
    let mut visit = |q: Quad| {
        // q is normalised for signs/order
        if seen.contains(&q) { return; }
        assert!(valid(t, &q, n));
        let mut min = [u64::MAX; 4];
        for g in position_orbit(t, &q, n) {
            let h = sign_order_min(t, &g, n);
            if h < min { min = h; }
            seen.insert(h);
        }
        reps.push(min);
    };
    // normalised single sequences: leading entry -1 <=> bit 0 clear.
    let half: Vec<u64> = (0..=m).filter(|a| a & 1 == 0).collect();
    match t {
        Ty::Wts | Ty::Ws => {
            let base: Vec<u64> = if t == Ty::Ws { half.into_iter().filter(|&a| symmetric1(a, n)).collect() } else { half };
            let mut tab: HashMap<Vec<i16>, Vec<(u64, u64)>> = HashMap::new();
            let bound = 4.0 * n as f64;
            let _ = bound;
            for (i, &a) in base.iter().enumerate() {
                for &b in &base[i..] {
                    if t == Ty::Wts && (1..n).any(|s| cd(a, b, s, n) != 0) { continue; }
                    tab.entry(key_paf(a, b, n, false)).or_default().push((a, b));
                }
            }
            for (k, v) in &tab {
                let nk: Vec<i16> = k.iter().map(|x| -x).collect();
                let Some(w) = tab.get(&nk) else { continue };
                for &(a, b) in v { for &(c, d) in w {
                    if b > c { continue; } // sorted a<=b<=c<=d (all pairings are in the table)
                    let q = [a, b, c, d];
                    if t == Ty::Wts && !amicable(&q, n) { continue; }
                    visit(sign_order_min(t, &q, n));
                } }
            }
        }
        Ty::Qts => {
            // W,X,Y lead with -1 and W<=X ; Z arbitrary: covers every NS-orbit.
            let key = |a: u64, b: u64, neg: bool| -> Vec<i16> {
                let mut v = key_paf(a, b, n, neg);
                // cd(w,x) must equal cd(z,y) = -cd(y,z)
                for s in 1..=n / 2 { let c = cd(a, b, s, n) as i16; v.push(if neg { -c } else { c }); }
                v
            };
            let mut tab: HashMap<Vec<i16>, Vec<(u64, u64)>> = HashMap::new();
            for (i, &a) in half.iter().enumerate() { for &b in &half[i..] { tab.entry(key(a, b, false)).or_default().push((a, b)); } }
            for &y in &half {
                for z in 0..=m {
                    let k = key(y, z, true);
                    let Some(v) = tab.get(&k) else { continue };
                    for &(w, x) in v {
                        let q = [w, x, y, z];
                        if !qcross(&q, n) { continue; }
                        visit(sign_order_min(t, &q, n));
                    }
                }
            }
        }
    }
    reps.sort();
    let c = seen.len();
    (reps, c)
}
