// C12 quaternionic Hadamard matrices
use super::verif_oracle::*;
use super::verif_util::*;
use super::sequences::matrices::QHM;
use super::sequences::sequence::QS;

type M = Vec<Vec<Qn>>;
fn h(x: Qn) -> Qn { [x[0] / 2, x[1] / 2, x[2] / 2, x[3] / 2] }
fn mat(m: &QHM) -> Option<M> { (0..m.size()).map(|i| (0..m.size()).map(|j| qn(&m.get(i, j))).collect()).collect() }
fn orth(m: &M) -> bool {
    let n = m.len();
    (0..n).all(|i| (0..n).all(|j| { let mut s = [0i64; 4]; for k in 0..n { let p = qmul(m[i][k], qconj(m[j][k])); for c in 0..4 { s[c] += p[c]; } } s == [if i == j { 4 * n as i64 } else { 0 }, 0, 0, 0] }))
}
fn noncomm(m: &M) -> bool {
    let mut u: Vec<Qn> = vec![]; for r in &m[1..] { for &x in &r[1..] { if !u.contains(&x) { u.push(x); } } }
    u.iter().any(|&a| u.iter().any(|&b| qmul(a, b) != qmul(b, a)))
}
fn one(v: &[Qn]) {
    let n = v.len(); let w = || v.iter().map(|x| q_to_char(*x).map_or("?".to_string(), |c| c.to_string())).collect::<String>();
    let mut s = QS::new(n, None); s.set_values(v.iter().map(|&x| quat(x)).collect());
    let q = QHM::from_pqs(s);
    let circ: M = (0..n).map(|i| (0..n).map(|j| v[(j + n - i) % n]).collect()).collect();
    observe!("circulant", mat(&q).as_ref() == Some(&circ), "{}", w());
    let c: M = (0..n).map(|i| (0..n).map(|j| h(qmul(circ[i][j], qconj(circ[0][j])))).collect()).collect();
    let d: M = (0..n).map(|i| (0..n).map(|j| h(qmul(qconj(c[i][0]), c[i][j]))).collect()).collect();
    let a = q.dephased();
    let o = orth(&circ);
    observe!("verify", q.verify() == o, "{} should be {o}", w());
    stat(if o { "seen_orthogonal" } else { "seen_not_orthogonal" }, 1);
    let mut b = q; b.dephase();
    observe!("dephased", mat(&a).as_ref() == Some(&d), "{}", w());
    observe!("dephase", mat(&b).as_ref() == Some(&d), "{}", w());
    observe!("dephase_keeps_orthogonality", a.verify() == orth(&d) && orth(&d) == o, "{}", w());
    let nc = noncomm(&d);
    observe!("contains_non_commuting_elements", b.contains_non_commuting_elements() == nc, "{} should be {nc}", w());
    stat(if nc { "seen_non_commuting" } else { "seen_commuting" }, 1);
    key(&w());
}
/// args: <seed> <rounds>
pub fn run(a: &[String]) {
    let mut r = Rng(a[0].parse().unwrap()); let rounds = int(&a[1]);
    let u = units();
    for (t, q0, n) in stdin_seqs() { for k in 0..rounds {
        let q = if k == 0 { q0 } else { random_equiv(t, &q0, n, &mut r) };
        let v: Vec<Qn> = quad_to_chars(&q, n).chars().map(|c| char_to_q(c).unwrap()).collect();
        one(&v);
        let mut z = v.clone(); z[r.below(n)] = u[r.below(24)]; one(&z);
    } }
    for n in 1..=12usize { for _ in 0..rounds {
        one(&(0..n).map(|_| u[r.below(24)]).collect::<Vec<_>>());
        // entries of a commutative subgroup
        let g: Vec<Qn> = match r.below(3) { 0 => vec![[2, 0, 0, 0], [-2, 0, 0, 0]], 1 => vec![[2, 0, 0, 0], [-2, 0, 0, 0], [0, 0, 2, 0], [0, 0, -2, 0]], _ => vec![[2, 0, 0, 0], [-1, 1, 1, 1], [-1, -1, -1, -1], [1, 1, 1, 1], [1, -1, -1, -1], [-2, 0, 0, 0]] };
        one(&(0..n).map(|_| g[r.below(g.len())]).collect::<Vec<_>>());
    } }
}
