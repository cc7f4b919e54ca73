// C08 predicates
use super::verif_oracle::*;
use super::verif_util::*;
use super::sequences::williamson::{QuadSeq, periodic_autocorrelation, cross_correlation};
use super::sequences::sequence::QS;
use super::sequences::symmetries::SequenceType;

fn quad(q: &Quad, n: usize, deep: bool) {
    let s = qs_of(q, n);
    let (c, a, x, y) = (complementary(q, n), amicable(q, n), qcross(q, n), symmetric(q, n));
    observe!("is_periodic_complementary", s.is_periodic_complementary() == c, "{} should be {c}", show(q, n));
    observe!("is_amicable", s.is_amicable() == a, "{} should be {a}", show(q, n));
    observe!("verify_cross_correlation", s.verify_cross_correlation() == x, "{} should be {x}", show(q, n));
    observe!("is_symmetric", s.is_symmetric() == y, "{} should be {y}", show(q, n));
    observe!("verify_qts", s.verify_qts() == (c && x), "{} should be {}", show(q, n), c && x);
    observe!("verify_wts", s.verify_wts() == (c && a), "{} should be {}", show(q, n), c && a);
    observe!("verify_ws", s.verify_ws() == (c && y), "{} should be {}", show(q, n), c && y);
    for (t, w) in [(SequenceType::QuaternionType, c && x), (SequenceType::WilliamsonType, c && a), (SequenceType::Williamson, c && y)] { observe!("verify", s.verify(t) == w, "{} as {} should be {w}", show(q, n), t.to_string()); }
    let p = s.to_qs();
    observe!("qt_iff_perfect", p.is_perfect() == (c && x), "{} should be {}", show(q, n), c && x);
    stat(match (c, x, a, y) { (true, _, true, true) => "seen_ws", (true, _, true, _) => "seen_wts", (true, true, _, _) => "seen_qts", (true, _, _, _) => "seen_complementary_only", (_, _, true, _) => "seen_amicable_only", (_, true, _, _) => "seen_qcross_only", _ => "seen_none" }, 1);
    if deep {
        for i in 0..4 { for j in 0..4 { for o in 0..=n {
            let g = cross_correlation(&bits(q[i], n), &bits(q[j], n), o);
            observe!("cross_correlation", g as i64 == cross(q[i], q[j], o, n), "{} {} offset {o}: {g}", pm(q[i], n), pm(q[j], n));
        } }
            for o in 0..=n { let g = periodic_autocorrelation(&bits(q[i], n), o); observe!("periodic_autocorrelation", g as i64 == paf(q[i], o, n), "{} offset {o}: {g}", pm(q[i], n)); }
        }
    }
}
fn quaternions(v: &[Qn]) {
    let n = v.len();
    let mut s = QS::new(n, None);
    s.set_values(v.iter().map(|&x| quat(x)).collect());
    let txt = || v.iter().map(|x| format!("{x:?}")).collect::<Vec<_>>().join("");
    let (p, o) = (perfect(v), odd_perfect(v));
    observe!("is_perfect", s.is_perfect() == p, "{} should be {p}", txt());
    observe!("is_odd_perfect", s.is_odd_perfect() == o, "{} should be {o}", txt());
    let sy = (1..n).all(|i| v[i] == v[n - i]);
    observe!("qs_is_symmetric", s.is_symmetric() == sy, "{} should be {sy}", txt());
    if p { stat("seen_perfect", 1); } if o { stat("seen_odd_perfect", 1); } if sy { stat("seen_symmetric_qs", 1); }
    for t in 0..n {
        let (mut e, mut d) = ([0i64; 4], [0i64; 4]);
        for i in 0..n { let m = qmul(v[i], qconj(v[(i + t) % n])); let g = if i + t >= n { -1 } else { 1 }; for c in 0..4 { e[c] += m[c]; d[c] += g * m[c]; } }
        // doubled twice: four times the value
        let g = qn(&(s.periodic_autocorrelation(t) * 2.0)); observe!("qs_autocorrelation", g == Some(e), "{} at {t}: {g:?} instead of {e:?}", txt());
        let g = qn(&(s.odd_periodic_autocorrelation(t) * 2.0)); observe!("qs_odd_autocorrelation", g == Some(d), "{} at {t}: {g:?} instead of {d:?}", txt());
    }
}
pub fn run(a: &[String]) {
    let mut r = Rng(a[0].parse().unwrap()); let rounds = int(&a[1]); let maxall = int(&a[2]);
    // every quadruple of small lengths
    for n in 1..=maxall { let m = mask(n); for w in 0..=m { for x in 0..=m { for y in 0..=m { for z in 0..=m { quad(&[w, x, y, z], n, false); } } } } key(&format!("all{n}")); }
    let u = units();
    for n in 1..=3usize { let tot = 24usize.pow(n as u32); for mut k in 0..tot { let mut v = vec![]; for _ in 0..n { v.push(u[k % 24]); k /= 24; } quaternions(&v); } }
    let inp = stdin_seqs();
    for (t, q0, n) in &inp {
        for i in 0..rounds {
            let q = if i == 0 { *q0 } else { random_equiv(*t, q0, *n, &mut r) };
            quad(&q, *n, i == 0); key(&show(&q, *n));
            // near misses: one entry, two entries, a shifted / reversed / replaced component
            for kind in 0..6 {
                let mut g = q; let b = r.below(4);
                match kind {
                    0 => g[b] ^= 1 << r.below(*n),
                    1 => { g[b] ^= 1 << r.below(*n); g[r.below(4)] ^= 1 << r.below(*n); }
                    2 => g[b] = sh(g[b], 1 + r.below(*n), *n),
                    3 => g[b] = decimate(g[b], n - 1, *n),
                    4 => { let k = (1..=*n).filter(|&k| gcd(k, *n) == 1).nth(r.below((1..=*n).filter(|&k| gcd(k, *n) == 1).count())).unwrap(); g[b] = decimate(g[b], k, *n) }
                    _ => g.swap(b, (b + 1) % 4),
                }
                quad(&g, *n, false); stat("near_misses", 1);
                let v: Vec<Qn> = quad_to_chars(&g, *n).chars().map(|c| char_to_q(c).unwrap()).collect();
                if kind < 2 { quaternions(&v); }
            }
            if t == &Ty::Qts || t == &Ty::Wts {
                let v: Vec<Qn> = quad_to_chars(&q, *n).chars().map(|c| char_to_q(c).unwrap()).collect();
                quaternions(&v);
                // the same sequence times a unit from the left and right stays perfect, over all 24
                let (l, w) = (u[r.below(24)], u[r.below(24)]);
                let h = |x: Qn| [x[0] / 2, x[1] / 2, x[2] / 2, x[3] / 2];
                let z: Vec<Qn> = v.iter().map(|&x| h(qmul(h(qmul(l, x)), w))).collect();
                quaternions(&z);
                let mut z2 = z.clone(); let i = r.below(*n); z2[i] = u[r.below(24)]; quaternions(&z2);
            }
        }
    }
    // random quadruples and symmetric quadruples of every length, random quaternion sequences
    for n in 1..=31usize { for _ in 0..rounds.max(2) {
        quad(&rand_quad(&mut r, n), n, true);
        let q = rand_quad(&mut r, n).map(|a| a | decimate(a, n - 1 + (n == 1) as usize, n)); quad(&q, n, true);
        let mut q3 = q; q3[r.below(4)] ^= 1 << r.below(n); quad(&q3, n, false);
        let v: Vec<Qn> = (0..n).map(|_| u[r.below(24)]).collect(); quaternions(&v);
        let mut w = v.clone(); for i in 1..n { w[n - i] = w[i]; } quaternions(&w);
        let mut w2 = w.clone(); w2[r.below(n)] = u[r.below(24)]; quaternions(&w2);
        // constant and alternating sequences reach the extreme correlations
        quad(&[mask(n), 0, altmask(n), mask(n) ^ altmask(n)], n, true);
        key(&format!("rand{n} {}", show(&q3, n)));
    } }
}
