// C18 / C17 concurrent execution
use super::verif_oracle::*;
use super::verif_util::*;
use super::sequences::fourier::{dft_sequence, inverse_dft};
use super::find::find_unique::reduce_to_canonical_reps;
use num_complex::Complex;

fn dft(seq: &[i8]) -> Vec<(f64, f64)> {
    let n = seq.len();
    (0..=n / 2).map(|k| { let (mut re, mut im) = (0., 0.); for i in 0..n { let t = 2. * std::f64::consts::PI * ((i * k % n) as f64) / n as f64; re += seq[i] as f64 * t.cos(); im += seq[i] as f64 * t.sin(); } (re, im) }).collect()
}
/// args: <n> <threads> <iterations> <seed>: transforms of different sequences at the same time
fn transforms(n: usize, threads: usize, iters: usize, seed: u64) {
    let barrier = std::sync::Barrier::new(threads);
    std::thread::scope(|s| { for th in 0..threads { let barrier = &barrier; s.spawn(move || {
        let mut r = Rng(seed ^ (th as u64 + 1) * 0x9E37);
        barrier.wait();
        for it in 0..iters {
            let b = r.next() & mask(n); let v = bits(b, n);
            if r.below(8) == 0 { std::thread::yield_now(); }
            let f = dft_sequence(&v); let w = dft(&v);
            // either orientation of the transform is one; it must be one of this sequence
            let close = |c: f64| f.len() == w.len() && f.iter().zip(&w).all(|(x, y)| (x.re - y.0).abs() < 1e-9 && (x.im - c * y.1).abs() < 1e-9);
            observe!("dft", close(1.) || close(-1.), "length {n} thread {th} round {it}: {} is not transformed correctly", pm(b, n));
            // the inverse of a power spectrum is the autocorrelation
            let p: Vec<Complex<f64>> = f.iter().map(|x| Complex::new(x.norm_sqr(), 0.)).collect();
            if r.below(8) == 0 { std::thread::yield_now(); }
            let g = inverse_dft(&p, n);
            observe!("inverse_dft", g.len() == n && (0..n).all(|o| (g[o] - paf(b, o, n) as f64).abs() < 1e-8), "length {n} thread {th} round {it}: {} has another autocorrelation", pm(b, n));
            let g = inverse_dft(&f, n);
            observe!("round_trip", g.len() == n && (0..n).all(|o| (g[o] - v[o] as f64).abs() < 1e-9), "length {n} thread {th} round {it}: {}", pm(b, n));
        }
    }); } });
    key(&format!("n{n} t{threads}")); stat("threads", threads as u64);
}
/// args: <threads> <seed>: reductions of the same lists at the same time
fn reductions(threads: usize, seed: u64) {
    let gs = groups(&stdin_seqs());
    let barrier = std::sync::Barrier::new(threads);
    std::thread::scope(|s| { for th in 0..threads { let (barrier, gs) = (&barrier, &gs); s.spawn(move || {
        let mut r = Rng(seed + th as u64);
        barrier.wait();
        for (t, n, qs) in gs {
            let mut l: Vec<Quad> = qs.iter().flat_map(|q| vec![*q, *q]).collect();
            for q in l.iter_mut() { *q = random_equiv(*t, q, *n, &mut r); }
            shuffle(&mut l, &mut r);
            let red = reduce_to_canonical_reps(&l.iter().map(|q| qs_of(q, *n)).collect(), stype(*t));
            let mut got: Vec<Quad> = red.iter().map(|s| { let q = quad_of(s, *n); if q == NOQUAD { q } else { class_id(*t, &q, *n) } }).collect(); got.sort();
            let mut want: Vec<Quad> = l.iter().map(|q| class_id(*t, q, *n)).collect(); want.sort(); want.dedup();
            observe!("reduction", got == want, "{} n={n} thread {th}: {} instead of {} classes", tname(*t), got.len(), want.len());
        }
    }); } });
    key(&format!("red t{threads}"));
}
/// args: <n> <threads> <seed>: the very first transforms of the process, in both directions at once
fn first(n: usize, threads: usize, seed: u64) {
    let barrier = std::sync::Barrier::new(threads);
    std::thread::scope(|s| { for th in 0..threads { let barrier = &barrier; s.spawn(move || {
        let mut r = Rng(seed ^ (th as u64 + 1) * 0x9E37); let b = r.next() & mask(n); let v = bits(b, n); let w = dft(&v);
        let spin = r.below(400); barrier.wait(); for _ in 0..spin { std::hint::spin_loop(); }
        let p: Vec<Complex<f64>> = w.iter().map(|x| Complex::new(x.0 * x.0 + x.1 * x.1, 0.)).collect();
        for k in 0..3 { if (th + k) % 2 == 0 {
            let f = dft_sequence(&v); let close = |c: f64| f.len() == w.len() && f.iter().zip(&w).all(|(x, y)| (x.re - y.0).abs() < 1e-9 && (x.im - c * y.1).abs() < 1e-9);
            observe!("first_dft", close(1.) || close(-1.), "length {n} thread {th} call {k}: {} is not transformed correctly", pm(b, n));
        } else {
            let g = inverse_dft(&p, n);
            observe!("first_inverse_dft", g.len() == n && (0..n).all(|o| (g[o] - paf(b, o, n) as f64).abs() < 1e-8), "length {n} thread {th} call {k}: {} has another autocorrelation", pm(b, n));
        } }
    }); } });
    key(&format!("first n{n} t{threads} s{seed}"));
}
pub fn run(a: &[String]) {
    match a[0].as_str() {
        "dft" => transforms(int(&a[1]), int(&a[2]), int(&a[3]), a[4].parse().unwrap()),
        "first" => first(int(&a[1]), int(&a[2]), a[3].parse().unwrap()),
        "red" => reductions(int(&a[1]), a[2].parse().unwrap()),
        x => panic!("no mode {x}"),
    }
}
