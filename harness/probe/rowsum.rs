// C10 rowsums and candidates
use super::verif_oracle::*;
use super::verif_util::*;
use super::sequences::rowsum::{generate_rowsums, generate_sequences_with_rowsum, has_sorted_rowsums, rowsum, sum_of_four_squares};
use super::find::find_write::symmetric as sym;

/// args: <seed> <max length for all sums> <random lists> <most sequences per sum beyond that length>
pub fn run(a: &[String]) {
    let mut r = Rng(a[0].parse().unwrap()); let maxn = int(&a[1]); let extra = int(&a[2]); let limit = int(&a[3]) as u64;
    for n in 1..=31usize {
        let p = (n % 2) as isize;
        for t in [Ty::Wts, Ty::Qts, Ty::Ws] {
            let mut want: Vec<(isize, isize, isize, isize)> = vec![];
            for d in 0..=12isize { for c in 0..=d { for b in 0..=c { for aa in 0..=b {
                if aa * aa + b * b + c * c + d * d == 4 * n as isize && [aa, b, c, d].iter().all(|x| x % 2 == p) {
                    want.push((aa, b, c, d));
                    if t == Ty::Qts && aa != 0 && aa < b && b < c && c < d { want.push((aa, b, c, -d)); }
                }
            } } } }
            let mut got = generate_rowsums(n, stype(t));
            got.sort(); want.sort();
            observe!("rowsums", got == want, "{} n={n}: {got:?} instead of {want:?}", tname(t));
            key(&format!("{}{n}", tname(t)));
        }
    }
    for p in 0..=400usize {
        let mut want = vec![]; let m = (p as f64).sqrt() as isize + 1;
        for d in 0..=m { for c in 0..=d { for b in 0..=c { let x = p as isize - d * d - c * c - b * b; if x >= 0 { let s = (x as f64).sqrt().round() as isize; if s * s == x && s <= b { want.push((s, b, c, d)); } } } } }
        let mut got = sum_of_four_squares(p); got.sort(); want.sort();
        observe!("four_squares", got == want, "{p}: {got:?} instead of {want:?}");
    }
    let check = |n: usize, s: isize| {
        let v = generate_sequences_with_rowsum(s, n);
        let mut set: Vec<u64> = v.iter().filter_map(|x| if x.len() == n { mask_of(x) } else { None }).collect(); set.sort_unstable(); set.dedup();
        let fits = s.unsigned_abs() <= n && (s + n as isize) % 2 == 0;
        let mut want = 0u64; if fits { want = 1; let k = ((n as isize + s) / 2) as u64; for i in 0..k { want = want * (n as u64 - i) / (i + 1); } }
        // (each sum counted once and of the right weight: the set is complete by its size)
        let ok = set.len() as u64 == want && v.len() as u64 == want && set.iter().all(|&b| rs(b, n) as isize == s);
        observe!("candidates", ok, "length {n} sum {s}: {} sequences, {} distinct, instead of {want}", v.len(), set.len());
        stat("candidate_sequences", v.len() as u64);
        key(&format!("{n}:{s}"));
    };
    for n in 1..=maxn { for s in -(n as isize) - 2..=n as isize + 2 { check(n, s); } }
    for n in maxn + 1..=31 { let mut ways = 1u64; for k in 0..=(n / 2) as u64 {
        if k > 0 { ways = ways * (n as u64 - k + 1) / k; }
        // (where every sum is too much: the sums with few sequences, and at random one of each sign with many)
        if ways > limit || (ways > limit / 20 && r.below(3) > 0) { continue; }
        check(n, n as isize - 2 * k as isize); check(n, 2 * k as isize - n as isize); stat("long_sums", 2);
    } }
    for _ in 0..extra {
        let n = 1 + r.below(31);
        let q = rand_quad(&mut r, n);
        for b in 0..4 {
            observe!("rowsum", rowsum(bits(q[b], n)) as i64 == rs(q[b], n), "{}", pm(q[b], n));
            let z = if r.coin() { q[b] | decimate(q[b], n - 1 + (n == 1) as usize, n) } else { q[b] };
            for z in [z, z ^ 1 << r.below(n)] { let w = symmetric1(z, n); observe!("symmetric", sym(&bits(z, n)) == w, "{} should be {w}", pm(z, n)); stat(if w { "seen_symmetric" } else { "seen_asymmetric" }, 1); }
        }
    }
    for (t, q0, n) in stdin_seqs() { for _ in 0..8 {
        let q = random_equiv(t, &q0, n, &mut r);
        let mut any = 0;
        // every genuine sequence has an equivalent one whose rowsums are among the generated ones
        for (p, odd) in PERMS.iter() { for s in 0..16u32 {
            if t == Ty::Qts && (s.count_ones() % 2 == 1) != *odd { continue; }
            let mut g = [0; 4]; for b in 0..4 { g[b] = q[p[b]]; if s >> b & 1 == 1 { g[b] = !g[b] & mask(n); } }
            let v = g.map(|b| rs(b, n) as isize);
            if generate_rowsums(n, stype(t)).contains(&(v[0], v[1], v[2], v[3])) { any += 1; }
            let dup = (0..4).any(|i| (i + 1..4).any(|j| v[i] == v[j])) || v.contains(&0);
            let want = 0 <= v[0] && v[0] <= v[1] && v[1] <= v[2] && v[2] <= if dup { v[3] } else { v[3].abs() };
            observe!("has_sorted_rowsums", has_sorted_rowsums(&qs_of(&g, n)) == want, "{} {} should be {want}", tname(t), show(&g, n));
        } }
        observe!("rowsums_cover", any > 0, "{} {}: no arrangement has one of the generated rowsums", tname(t), show(&q, n));
    } }
}
