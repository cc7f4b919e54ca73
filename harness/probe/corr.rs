// C24 correlations, transforms, filters and the in-memory matching table.  One length per process (the program
// plans its transforms once).
use super::verif_oracle::*;
use super::verif_util::*;
use super::find::find_write::EquationSide;
use super::sequences::fourier::*;
use super::sequences::matching::*;
use super::sequences::williamson::SequenceTag;
use num_complex::Complex;

const TAGS: [SequenceTag; 4] = [SequenceTag::W, SequenceTag::X, SequenceTag::Y, SequenceTag::Z];
/// sign of the cross term of a pair of tags: Z before anything, and W, X, Y in cyclic order, count positively
fn sg(s: usize, t: usize) -> i64 { match (s, t) { (3, _) | (0, 1) | (1, 2) | (2, 0) => 1, _ => -1 } }
fn dft(a: u64, n: usize) -> Vec<Complex<f64>> {
    (0..=n / 2).map(|k| { let mut s = Complex::new(0., 0.); for i in 0..n { let f = -2. * std::f64::consts::PI * ((k * i) % n) as f64 / n as f64; s += Complex::new(f.cos(), f.sin()) * if a >> i & 1 == 1 { 1. } else { -1. }; } s }).collect()
}
fn close(a: &[f64], b: &[f64]) -> bool { a.len() == b.len() && a.iter().zip(b).all(|(x, y)| (x - y).abs() < 1e-7) }
fn ints(v: &[isize]) -> Vec<i64> { v.iter().map(|&x| x as i64).collect() }
fn pair(a: u64, b: u64, n: usize, r: &mut Rng) {
    let (va, vb) = (bits(a, n), bits(b, n)); let m = n / 2;
    let w = || format!("{} {}", pm(a, n), pm(b, n));
    let (ea, eb) = (dft(a, n), dft(b, n));
    // transforms
    let (fa, fb) = (dft_sequence(&va), dft_sequence(&vb));
    observe!("dft_sequence", fa.len() == m + 1 && fa.iter().zip(&ea).all(|(x, y)| (x - y).norm() < 1e-9), "{}: {fa:?}", pm(a, n));
    let inv = inverse_dft(&fa, n);
    observe!("inverse_dft", close(&inv, &va.iter().map(|&x| x as f64).collect::<Vec<_>>()), "{}: {inv:?}", pm(a, n));
    let (na, nb): (Vec<f64>, Vec<f64>) = (fa.iter().map(|x| x.norm_sqr()).collect(), fb.iter().map(|x| x.norm_sqr()).collect());
    // sums of autocorrelations
    let auto: Vec<i64> = (1..=m).map(|s| paf(a, s, n) + paf(b, s, n)).collect(); let one: Vec<i64> = (1..=m).map(|s| paf(a, s, n)).collect();
    let neg = |v: &Vec<i64>| v.iter().map(|x| -x).collect::<Vec<_>>();
    let g = ints(&compute_auto_correlation(&va)); observe!("compute_auto_correlation", g == one, "{}: {g:?}", pm(a, n));
    let g = ints(&compute_auto_correlation_pair(&va, &vb)); observe!("compute_auto_correlation_pair", g == auto, "{}: {g:?}", w());
    let g = ints(&compute_auto_correlation_dft(&na, n)); observe!("compute_auto_correlation_dft", g.len() == n && (0..n).all(|s| g[s] == paf(a, s, n)), "{}: {g:?}", pm(a, n));
    let g = ints(&compute_auto_correlation_pair_dft(&na, n, &nb, n)); observe!("compute_auto_correlation_pair_dft", g == auto, "{}: {g:?}", w());
    let g = ints(&compute_complementary_auto_correlations(&va, &vb)); observe!("compute_complementary_auto_correlations", g == neg(&auto), "{}: {g:?}", w());
    let psd: Vec<f64> = (1..=m).map(|k| ea[k].norm_sqr() + eb[k].norm_sqr()).collect();
    let g = compute_psd_pair(&na, &nb, n, EquationSide::LEFT); observe!("compute_psd_pair_left", close(&g, &psd), "{}: {g:?}", w());
    let g = compute_psd_pair(&na, &nb, n, EquationSide::RIGHT); observe!("compute_psd_pair_right", close(&g, &psd.iter().map(|x| 4. * n as f64 - x).collect::<Vec<_>>()), "{}: {g:?}", w());
    // cross terms
    let g = compute_cross_psd(&fa, &fb); observe!("compute_cross_psd", g.len() == m + 1 && (0..=m).all(|k| (g[k] - ea[k] * eb[k].conj()).norm() < 1e-7), "{}: {g:?}", w());
    for s in 0..4 { for t in 0..4 { if s != t {
        let tg = (TAGS[s].clone(), TAGS[t].clone()); let q = sg(s, t);
        let cr: Vec<i64> = (1..=m).map(|o| q * cd(a, b, o, n)).collect();
        let g = ints(&compute_cross_correlations(&va, &vb, &tg)); observe!("compute_cross_correlations", g == cr, "{} as {tg:?}: {g:?} instead of {cr:?}", w());
        let g = ints(&compute_cross_correlations_dft(&fa, &fb, &tg, n)); observe!("compute_cross_correlations_dft", g == cr, "{} as {tg:?}: {g:?} instead of {cr:?}", w());
        let g = ints(&compute_complementary_cross_correlations(&va, &vb, &tg)); observe!("compute_complementary_cross_correlations", g == neg(&cr), "{} as {tg:?}: {g:?}", w());
        let g = compute_cross_psd_pair(fa.clone(), fb.clone(), &tg, n);
        let e: Vec<f64> = (1..=m).map(|k| q as f64 * 2. * (ea[k] * eb[k].conj()).im).collect();
        observe!("compute_cross_psd_pair", close(&g.iter().map(|x| x.im).collect::<Vec<_>>(), &e) && g.iter().all(|x| x.re.abs() < 1e-7), "{} as {tg:?}: {g:?} instead of {e:?}", w());
        if cr.iter().any(|&x| x != 0) { stat("nonzero_cross_terms", 1); }
        // equal data make equal keys, and only they
        let (c, d) = (r.next() & mask(n), r.next() & mask(n)); let (u, v) = (r.below(4), r.below(4));
        let (c, d, u, v) = if r.coin() || u == v { (sh(a, 1, n), sh(b, 1, n), s, t) } else { (c, d, u, v) };
        let same = (1..=m).all(|o| paf(c, o, n) + paf(d, o, n) == auto[o - 1] && sg(u, v) * cd(c, d, o, n) == cr[o - 1]);
        let x = MatchData::from(&va, &vb, &tg); let y = MatchData::from(&bits(c, n), &bits(d, n), &(TAGS[u].clone(), TAGS[v].clone()));
        observe!("match_data", (x == y) == same, "{} as {tg:?} against {} {} as {u} {v}: should be {same}", w(), pm(c, n), pm(d, n));
    } } }
}
fn idx(v: &Vec<i8>, l: &Vec<Vec<i8>>) -> Option<usize> { l.iter().position(|x| std::ptr::eq(x, v)) }
/// the filters: everything within the bound, nothing beyond it, in order, with the right indices
fn filters(l1: &[u64], l2: &[u64], n: usize, bound: f64, kind: &str) {
    let (s1, s2): (Vec<Vec<i8>>, Vec<Vec<i8>>) = (l1.iter().map(|&a| bits(a, n)).collect(), l2.iter().map(|&a| bits(a, n)).collect());
    let (p1, p2): (Vec<Vec<f64>>, Vec<Vec<f64>>) = (l1.iter().map(|&a| dft(a, n).iter().map(|x| x.norm_sqr()).collect()).collect(), l2.iter().map(|&a| dft(a, n).iter().map(|x| x.norm_sqr()).collect()).collect());
    let top = |i: usize, j: usize, from: usize| (from..=n / 2).map(|k| p1[i][k] + p2[j][k]).fold(f64::MIN, f64::max);
    let judge = |name: &str, got: Vec<(usize, usize)>, from: usize| {
        observe!(name, got.windows(2).all(|w| w[0] < w[1]), "{kind}: couples out of order or twice: {got:?}");
        let set: std::collections::HashSet<(usize, usize)> = got.iter().cloned().collect();
        for i in 0..l1.len() { for j in 0..l2.len() {
            let x = top(i, j, from); let inside = set.contains(&(i, j));
            let w = || format!("{kind}: {} {} with the largest sum {x} against {bound} is {}", pm(l1[i], n), pm(l2[j], n), if inside { "kept" } else { "dropped" });
            if x <= bound + 1e-10 { observe!(name, inside, "{}", w()); stat(if x > bound - 1e-10 { "couples_at_the_bound" } else { "couples_inside" }, 1); }
            else if x > bound + 1e-6 { observe!(name, !inside, "{}", w()); stat("couples_outside", 1); }
        } }
    };
    let mut ok = true;
    let a: Vec<(usize, usize)> = iter_over_filtered_couples(&s1, &s2, bound).map(|(x, y)| match (idx(x, &s1), idx(y, &s2)) { (Some(i), Some(j)) => (i, j), _ => { ok = false; (0, 0) } }).collect();
    observe!("references", ok, "a filtered couple is no element of the lists");
    judge("iter_over_filtered_couples", a, 0);
    let mut ok = true;
    let a: Vec<(usize, usize)> = iter_over_enumerate_filtered_couples(&s1, &s2, bound).map(|((i, x), (j, y))| { ok &= idx(x, &s1) == Some(i) && idx(y, &s2) == Some(j); (i, j) }).collect();
    observe!("references", ok, "an enumerated couple carries the wrong index");
    judge("iter_over_enumerate_filtered_couples", a, 0);
    let mut ok = true;
    let a: Vec<(usize, usize)> = iter_over_enumerate_filtered_couples_psds(&s1, &s2, bound).map(|d| {
        let (i, j) = (d.seq_enum1.0, d.seq_enum2.0);
        ok &= idx(d.seq_enum1.1, &s1) == Some(i) && idx(d.seq_enum2.1, &s2) == Some(j) && close(&d.norm1, &p1[i]) && close(&d.norm2, &p2[j])
            && close(&d.dft1.iter().map(|x| x.norm_sqr()).collect::<Vec<_>>(), &p1[i]) && close(&d.dft2.iter().map(|x| x.norm_sqr()).collect::<Vec<_>>(), &p2[j])
            && d.dft1.iter().zip(dft(l1[i], n)).all(|(x, y)| (x - y).norm() < 1e-9) && d.dft2.iter().zip(dft(l2[j], n)).all(|(x, y)| (x - y).norm() < 1e-9);
        (i, j)
    }).collect();
    observe!("references", ok, "a couple with spectra carries the wrong index or spectrum");
    judge("iter_over_enumerate_filtered_couples_psds", a, 1);
    // single sequences: |dft| against the square root
    let b = bound.sqrt();
    let a: Vec<Option<usize>> = iter_over_filtered_dft(&s1, b).map(|x| idx(x, &s1)).collect();
    observe!("iter_over_filtered_dft", a.iter().all(|x| x.is_some()) && a.windows(2).all(|w| w[0] < w[1]), "{kind}: out of order: {a:?}");
    for i in 0..l1.len() {
        let x = p1[i].iter().cloned().fold(0., f64::max); let inside = a.contains(&Some(i));
        if x <= bound + 1e-10 { observe!("iter_over_filtered_dft", inside, "{kind}: {} with the largest {x} against {bound} is dropped", pm(l1[i], n)); }
        else if x > bound + 1e-6 { observe!("iter_over_filtered_dft", !inside, "{kind}: {} with the largest {x} against {bound} is kept", pm(l1[i], n)); }
    }
}
/// the matching table holds each admitted couple once, under its data; looking up complementary data finds the sequences
fn table(c: &[Vec<u64>; 4], n: usize, r: &mut Rng) {
    let l: Vec<Vec<Vec<i8>>> = c.iter().map(|v| v.iter().map(|&a| bits(a, n)).collect()).collect();
    let p: Vec<Vec<Vec<f64>>> = c.iter().map(|v| v.iter().map(|&a| dft(a, n).iter().map(|x| x.norm_sqr()).collect()).collect()).collect();
    let o = { let mut o = vec![0, 1, 2, 3]; shuffle(&mut o, r); o };
    let tags: Vec<SequenceTag> = o.iter().map(|&i| TAGS[i].clone()).collect();
    let t = generate_matching_table(&l[o[2]], &l[o[3]], &(tags[2].clone(), tags[3].clone()), n);
    let mut seen = std::collections::HashMap::new(); let mut wrong = 0;
    for (k, v) in &t { for (x, y) in v {
        if *k != MatchData::from(x, y, &(tags[2].clone(), tags[3].clone())) { wrong += 1; }
        *seen.entry((idx(x, &l[o[2]]), idx(y, &l[o[3]]))).or_insert(0) += 1;
    } }
    observe!("generate_matching_table", wrong == 0, "{wrong} couples under foreign data");
    for i in 0..c[o[2]].len() { for j in 0..c[o[3]].len() {
        let x = (0..=n / 2).map(|k| p[o[2]][i][k] + p[o[3]][j][k]).fold(0., f64::max); let g = seen.get(&(Some(i), Some(j))).copied().unwrap_or(0);
        if x <= 4. * n as f64 + 1e-10 { observe!("generate_matching_table", g == 1, "{} {} as {:?} {:?} is listed {g} times", pm(c[o[2]][i], n), pm(c[o[3]][j], n), tags[2], tags[3]); }
        else if x > 4. * n as f64 + 1e-6 { observe!("generate_matching_table", g == 0, "{} {} beyond the bound is listed", pm(c[o[2]][i], n), pm(c[o[3]][j], n)); }
    } }
    // the in-memory search
    let mut found = std::collections::HashSet::new();
    for (x, y) in iter_over_filtered_couples(&l[o[0]], &l[o[1]], 4. * n as f64) {
        let d = MatchData::new(compute_complementary_auto_correlations(x, y), compute_complementary_cross_correlations(x, y, &(tags[0].clone(), tags[1].clone())));
        for (z, v) in t.get(&d).into_iter().flatten() {
            if verify_cross_correlation(&[x, y, z, v], &tags) { let mut q: Quad = [0; 4]; for (k, s) in [x, y, *z, *v].iter().enumerate() { q[o[k]] = mask_of(s).unwrap(); } found.insert(q); }
        }
    }
    for &w in &c[0] { for &x in &c[1] { for &y in &c[2] { for &z in &c[3] {
        let q = [w, x, y, z];
        if valid(Ty::Qts, &q, n) { stat("genuine", 1); observe!("in_memory_search", found.contains(&q), "{} is not found with the tags {tags:?}", show(&q, n)); }
    } } } }
    for q in &found { observe!("in_memory_search", complementary(q, n), "{} is found but not complementary", show(q, n)); }
}
fn tagged(q: &Quad, n: usize) {
    for (p, _) in PERMS.iter() {
        let tags: Vec<SequenceTag> = p.iter().map(|&i| TAGS[i].clone()).collect();
        let v: Vec<Vec<i8>> = p.iter().map(|&i| bits(q[i], n)).collect();
        let g = verify_cross_correlation(&[&v[0], &v[1], &v[2], &v[3]], &tags);
        if amicable(q, n) { observe!("verify_cross_correlation", g, "{} with {tags:?} is refused", show(q, n)); }
        // the condition of the pairing of the first two tags is the caller's; each other one must hold (in either sign)
        let own = (p[0], p[1]); let mut broken = false;
        for h in [(0, 1, 2, 3), (0, 2, 1, 3), (0, 3, 1, 2)] {
            if [(h.0, h.1), (h.1, h.0), (h.2, h.3), (h.3, h.2)].contains(&own) { continue; }
            broken |= (1..n).any(|s| cd(q[h.0], q[h.1], s, n) != cd(q[h.2], q[h.3], s, n)) && (1..n).any(|s| cd(q[h.0], q[h.1], s, n) != -cd(q[h.2], q[h.3], s, n));
        }
        if broken { observe!("verify_cross_correlation", !g, "{} with {tags:?} is accepted", show(q, n)); stat("broken_conditions", 1); }
    }
}
/// args: <n> <seed> <rounds>; stdin "type chars" of that length
pub fn run(a: &[String]) {
    let n = int(&a[0]); let mut r = Rng(a[1].parse().unwrap()); let rounds = int(&a[2]);
    let inp: Vec<(Ty, Quad)> = stdin_seqs().into_iter().map(|(t, q, m)| { assert!(m == n); (t, q) }).collect();
    let m = mask(n);
    // every pair of small lengths, random and extreme ones else
    if n <= 5 { for x in 0..=m { for y in 0..=m { pair(x, y, n, &mut r); } } key(&format!("all{n}")); }
    for i in 0..rounds * 4 {
        let (x, y) = (r.next() & m, r.next() & m);
        let (x, y) = match i % 6 { 0 => (x, x), 1 => (x, decimate(x, (n - 1).max(1), n)), 2 => (altmask(n), x), 3 => (m, y), _ => (x, y) };
        pair(x, y, n, &mut r); key(&format!("pair {} {}", pm(x, n), pm(y, n)));
        tagged(&[x, y, r.next() & m, r.next() & m], n);
    }
    for (t, q0) in &inp {
        let q = random_equiv(*t, q0, n, &mut r);
        pair(q[r.below(4)], q[r.below(4)], n, &mut r); key(&show(&q, n));
        tagged(&q, n);
        let mut g = q; g[r.below(4)] ^= 1 << r.below(n); tagged(&g, n);
        let mut g = q; let b = r.below(4); g[b] = sh(g[b], 1, n); tagged(&g, n);
    }
    for _ in 0..rounds {
        let k = 2 + r.below(10);
        let mut l: [Vec<u64>; 2] = Default::default();
        for v in l.iter_mut() { for _ in 0..k { v.push(match r.below(8) { 0 => altmask(n), 1 => m, 2 => !altmask(n) & m, 3 if !inp.is_empty() => inp[r.below(inp.len())].1[r.below(4)], _ => r.next() & m }); } v.sort_unstable(); v.dedup(); }
        filters(&l[0], &l[1], n, 4. * n as f64, "4n");
        // a bound that one of the couples attains exactly
        let (x, y) = (l[0][r.below(l[0].len())], l[1][r.below(l[1].len())]);
        let top = dft(x, n).iter().zip(&dft(y, n)).map(|(a, b)| a.norm_sqr() + b.norm_sqr()).fold(0., f64::max);
        if (top - top.round()).abs() < 1e-9 { filters(&l[0], &l[1], n, top.round(), "attained"); }
        filters(&l[0], &l[1], n, 1. + r.below(4 * n * n) as f64 / n as f64, "any");
    }
    let q: Vec<&(Ty, Quad)> = inp.iter().filter(|x| x.0 == Ty::Qts).collect();
    for _ in 0..rounds.min(40) { if q.is_empty() { break; }
        let mut c: [Vec<u64>; 4] = Default::default();
        for _ in 0..1 + r.below(3) { let g = random_equiv(Ty::Qts, &q[r.below(q.len())].1, n, &mut r); for b in 0..4 { c[b].push(g[b]); } }
        for v in c.iter_mut() { for _ in 0..4 { v.push(r.next() & m); if r.coin() { let x = v[0] ^ 1 << r.below(n); v.push(x); } } v.sort_unstable(); v.dedup(); shuffle(v, &mut r); }
        table(&c, n, &mut r); stat("tables", 1);
    }
}
