// C19 products, C20 operators
use super::verif_oracle::*;
use super::verif_util::*;
use super::sequences::sequence::QS;
use super::sequences::matrices::QHM;
use super::sequences::mum::*;
use super::sequences::product::*;
use num_complex::Complex;

type C = (f64, f64);
type Mx = Vec<Vec<C>>;
/// the entries of an operator, from its text
fn parse(o: &Operator) -> Option<Mx> {
    let s = o.to_string();
    let m: Option<Mx> = s.lines().map(|l| {
        let l = l.trim(); let l = l.strip_prefix('|')?.strip_suffix('|')?;
        l.split_whitespace().map(|e| { let e = e.strip_suffix('i')?; let k = 1 + e.get(1..)?.find(|c| c == '+' || c == '-')?; let im = &e[k..]; let im = if im.starts_with("+-") { &im[1..] } else { im }; Some((e[..k].parse().ok()?, im.parse().ok()?)) }).collect()
    }).collect();
    let m = m?;
    if m.len() == o.size() && m.iter().all(|r| r.len() == m.len()) { Some(m) } else { None }
}
fn cm(a: C, b: C) -> C { (a.0 * b.0 - a.1 * b.1, a.0 * b.1 + a.1 * b.0) }
fn ca(a: C, b: C) -> C { (a.0 + b.0, a.1 + b.1) }
fn mul(a: &Mx, b: &Mx) -> Mx { let n = a.len(); (0..n).map(|i| (0..n).map(|j| (0..n).fold((0., 0.), |s, k| if a[i][k] == (0., 0.) { s } else { ca(s, cm(a[i][k], b[k][j])) })).collect()).collect() }
fn dag(a: &Mx) -> Mx { let n = a.len(); (0..n).map(|i| (0..n).map(|j| (a[j][i].0, -a[j][i].1)).collect()).collect() }
fn tens(a: &Mx, b: &Mx) -> Mx { let (n, m) = (a.len(), b.len()); (0..n * m).map(|i| (0..n * m).map(|j| cm(a[i / m][j / m], b[i % m][j % m])).collect()).collect() }
fn sc(a: &Mx, c: C) -> Mx { a.iter().map(|r| r.iter().map(|&x| cm(x, c)).collect()).collect() }
fn same(a: &Mx, b: &Mx) -> bool { a.len() == b.len() && a.iter().zip(b).all(|(x, y)| x.len() == y.len() && x.iter().zip(y).all(|(p, q)| (p.0 - q.0).abs() < 1e-6 && (p.1 - q.1).abs() < 1e-6)) }
fn is(o: &Operator, m: &Mx) -> bool { parse(o).map_or(false, |p| same(&p, m)) && o.size() == m.len() }
fn build(m: &Mx) -> Operator {
    let mut o = Operator::empty(m.len());
    for i in 0..m.len() { for j in 0..m.len() { o = o + &(computational_basis(m.len(), i, j) * Complex::new(m[i][j].0 as f32, m[i][j].1 as f32)); } }
    o
}
fn rnd(n: usize, r: &mut Rng) -> Mx { (0..n).map(|_| (0..n).map(|_| (r.below(9) as f64 - 4., r.below(9) as f64 - 4.)).collect()).collect() }
fn qs_from(v: &[Qn]) -> QS { let mut s = QS::new(v.len(), None); s.set_values(v.iter().map(|&x| quat(x)).collect()); s }
fn chars(q: &Quad, n: usize) -> Vec<Qn> { quad_to_chars(q, n).chars().map(|c| char_to_q(c).unwrap()).collect() }

fn operators(seed: u64, rounds: usize, maxn: usize) {
    let mut r = Rng(seed);
    let mut qs = units(); for _ in 0..rounds { let e = r.coin(); qs.push([0; 4].map(|_| 2 * (r.below(9) as i64 - 4) + e as i64)); }
    let phi = |q: Qn| parse(&quaternion_to_operator(&quat(q)));
    for (i, &p) in qs.iter().enumerate() { for &q in &qs[..] {
        if i >= 24 && r.below(4) != 0 { continue; }
        let (Some(a), Some(b)) = (phi(p), phi(q)) else { viol(format!("image of {p:?} or {q:?} unreadable")); continue };
        // p, q are doubled: the product is doubled twice
        let pq = qmul(p, q); let m = mul(&a, &b);
        let want: Qn = pq; // four times the product's value, i.e. doubled value of 2pq
        observe!("product", phi(want).map_or(false, |x| same(&x, &sc(&m, (2., 0.)))), "{p:?} * {q:?}");
        let s: Qn = [0, 1, 2, 3].map(|k| p[k] + q[k]);
        let add: Mx = a.iter().zip(&b).map(|(x, y)| x.iter().zip(y).map(|(&u, &v)| ca(u, v)).collect()).collect();
        observe!("sum", phi(s).map_or(false, |x| same(&x, &add)), "{p:?} + {q:?}");
    }
        let a = phi(p); let c = phi(qconj(p));
        observe!("conjugate", matches!((&a, &c), (Some(a), Some(c)) if same(&dag(a), c)), "{p:?}");
        observe!("faithful", a.as_ref().map_or(false, |a| (a.iter().flatten().all(|x| *x == (0., 0.))) == (p == [0; 4])), "{p:?}");
        key(&format!("{p:?}"));
    }
    observe!("unit", phi([2, 0, 0, 0]).map_or(false, |x| same(&x, &vec![vec![(1., 0.), (0., 0.)], vec![(0., 0.), (1., 0.)]])), "image of 1");
    for _ in 0..rounds {
        let (n, m) = (1 + r.below(5), 1 + r.below(4));
        let (a, a2, b) = (rnd(n, &mut r), rnd(n, &mut r), rnd(m, &mut r)); let c = (r.below(9) as f64 - 4., r.below(9) as f64 - 4.);
        let (oa, oa2, ob) = (build(&a), build(&a2), build(&b));
        observe!("build", is(&oa, &a) && is(&ob, &b), "{a:?} {b:?}");
        observe!("tensor", is(&oa.tensor(&ob), &tens(&a, &b)) && is(&ob.tensor(&oa), &tens(&b, &a)), "{a:?} x {b:?}");
        observe!("conjugate_transpose", is(&oa.conjugate_transpose(), &dag(&a)), "{a:?}");
        observe!("scaling", is(&(oa.clone() * Complex::new(c.0 as f32, c.1 as f32)), &sc(&a, c)), "{a:?} * {c:?}");
        let sum: Mx = a.iter().zip(&a2).map(|(x, y)| x.iter().zip(y).map(|(&u, &v)| ca(u, v)).collect()).collect();
        observe!("addition", is(&(oa.clone() + &oa2), &sum), "{a:?} + {a2:?}");
        let h = HMUO::new(n, oa.clone()); let g = HMUO::new(m, ob.clone()); let t = h.tensor(&g);
        observe!("hmuo_tensor", t.matrix_size() == n * m && is(&t.value(), &tens(&a, &b)), "orders {n}, {m}: order {} reported", t.matrix_size());
        let e = HMUO::empty(n); observe!("hmuo_empty", e.matrix_size() == n && is(&e.value(), &vec![vec![(0., 0.); n]; n]), "{n}");
        let e = MUM::empty(m, n); observe!("mum_empty", e.matrix_size() == n && e.length() == m && e.values().iter().all(|o| is(o, &vec![vec![(0., 0.); n]; n])), "{m} of order {n}");
    }
    for (t, q0, n) in stdin_seqs() {
        if n > maxn || t == Ty::Ws { continue; }
        let q = random_equiv(t, &q0, n, &mut r); let v = chars(&q, n); let w = show(&q, n);
        let qhm = QHM::from_pqs(qs_from(&v));
        let m = MUM::from_qhm(&qhm);
        observe!("mum_sizes", m.matrix_size() == 2 * n && m.length() == n && m.values().len() == n && m.values().iter().all(|o| o.size() == 2 * n), "{w}: order {}, length {}", m.matrix_size(), m.length());
        for (k, o) in m.values().iter().enumerate() {
            let Some(x) = parse(o) else { viol(format!("operator {k} of {w} unreadable")); continue };
            observe!("mum_hermitian", same(&x, &dag(&x)), "{w} operator {k}");
            observe!("mum_square", same(&mul(&x, &x), &sc(&x, (n as f64, 0.))), "{w} operator {k}");
            observe!("mum_rank", { let tr = (0..2 * n).fold((0., 0.), |s, i| ca(s, x[i][i])); (tr.0 - 2. * n as f64).abs() < 1e-6 && tr.1.abs() < 1e-6 }, "{w} operator {k}");
        }
        let u = HMUO::from_qhm(&qhm);
        let Some(x) = parse(&u.value()) else { viol(format!("unitary of {w} unreadable")); continue };
        let id: Mx = (0..2 * n).map(|i| (0..2 * n).map(|j| if i == j { (n as f64, 0.) } else { (0., 0.) }).collect()).collect();
        observe!("hmuo_unitary", u.matrix_size() == 2 * n && u.value().size() == 2 * n && same(&mul(&x, &dag(&x)), &id) && same(&mul(&dag(&x), &x), &id), "{w}: order {}", u.matrix_size());
        key(&w);
    }
}
fn products(seed: u64, rounds: usize) {
    let mut r = Rng(seed); let inp: Vec<_> = stdin_seqs();
    let u = units(); let h = |x: Qn| [x[0] / 2, x[1] / 2, x[2] / 2, x[3] / 2]; let mut seen = std::collections::HashSet::new();
    for i in 0..inp.len() { for j in 0..inp.len() {
        let (n, m) = (inp[i].2, inp[j].2);
        if gcd(n, m) != 1 { continue; }
        // (long products now and then, at least one of every kind of lengths)
        let long = n * m > 200; if long && !seen.insert((n, m)) && r.below(8) != 0 { continue; }
        if long { stat("long_products", 1); }
        for _ in 0..if long { 1 } else { rounds } {
            let mut a = chars(&random_equiv(inp[i].0, &inp[i].1, n, &mut r), n); let mut b = chars(&random_equiv(inp[j].0, &inp[j].1, m, &mut r), m);
            // also over the 24 units
            if r.coin() { let (x, y) = (u[r.below(24)], u[r.below(24)]); a = a.iter().map(|&z| h(qmul(h(qmul(x, z)), y))).collect(); }
            if r.coin() { let (x, y) = (u[r.below(24)], u[r.below(24)]); b = b.iter().map(|&z| h(qmul(h(qmul(x, z)), y))).collect(); }
            // (a non-perfect factor now and then: the entries must still be right)
            if r.below(4) == 0 { let k = r.below(n); a[k] = u[r.below(24)]; }
            let p = sequence_product(&qs_from(&a), &qs_from(&b));
            let got: Option<Vec<Qn>> = p.values().iter().map(qn).collect();
            let want: Vec<Qn> = (0..n * m).map(|k| h(qmul(a[k % n], b[k % m]))).collect();
            let w = || format!("lengths {n} and {m}: {a:?} x {b:?}");
            observe!("product_entries", p.size() == n * m && got.as_ref() == Some(&want), "{}", w());
            let both = perfect(&a) && perfect(&b);
            if both { stat("perfect_factors", 1); observe!("product_perfect", p.is_perfect() && got.as_ref().map_or(false, |g| perfect(g)), "{}", w()); }
            else { stat("imperfect_factors", 1); }
            key(&format!("{n}x{m} {:?}", &want[..want.len().min(4)]));
        }
    } }
    for _ in 0..rounds {
        let wide = r.coin(); let (p, q) = if wide { (1 + r.below(40), 1 + r.below(40)) } else { (1 + r.below(5), 1 + r.below(5)) }; let (n, m) = if wide { (1, 1 + r.below(2)) } else { (1 + r.below(3), 1 + r.below(3)) };
        let a: Vec<Mx> = (0..p).map(|_| rnd(n, &mut r)).collect(); let b: Vec<Mx> = (0..q).map(|_| rnd(m, &mut r)).collect();
        let x = MUM::new(n, &a.iter().map(build).collect()); let y = MUM::new(m, &b.iter().map(build).collect());
        let z = mum_product(&x, &y);
        observe!("mum_product", z.length() == p * q && z.matrix_size() == n * m && z.values().iter().enumerate().all(|(k, o)| is(o, &tens(&a[k % p], &b[k % q]))), "lengths {p}, {q}, orders {n}, {m}: length {}, order {}", z.length(), z.matrix_size());
    }
}
pub fn run(a: &[String]) {
    match a[0].as_str() { "ops" => operators(a[1].parse().unwrap(), int(&a[2]), int(&a[3])), "prod" => products(a[1].parse().unwrap(), int(&a[2])), x => panic!("no mode {x}") }
}
