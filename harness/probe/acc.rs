// accessors: quadruples (C07), matrices (C11, C12), operations on arbitrary quadruples (C06), sorted sums (C10)
use super::verif_oracle::*;
use super::verif_util::*;
use super::sequences::williamson::{QuadSeq, SequenceTag};
use super::sequences::symmetries::SequenceType;
use super::sequences::equivalence as eqv;
use super::sequences::matrices::{HM, QHM};
use super::sequences::sequence::QS;
use std::collections::HashSet;

const TAGS: [SequenceTag; 4] = [SequenceTag::W, SequenceTag::X, SequenceTag::Y, SequenceTag::Z];
fn sg(b: bool) -> i8 { if b { 1 } else { -1 } }
/// a random history of assignments against a plain model
fn quad(r: &mut Rng, rounds: usize) {
    for round in 0..rounds {
        let n = 1 + r.below(if round % 8 == 0 { 63 } else { 31 });
        let mut s = QuadSeq::new(n); let mut m: Quad = [0; 4];
        let mut log = format!("n={n}");
        for _ in 0..1 + r.below(40) {
            match r.below(5) {
                0 => { let b = r.below(4); m[b] = r.next() & mask(n); s.set_sequence(&bits(m[b], n), &TAGS[b]); log += &format!(" S{b}"); }
                1 => { let b = r.below(4); let i = r.below(n); let v = r.coin(); m[b] = m[b] & !(1 << i) | (v as u64) << i; s.set_single_value(sg(v), &TAGS[b], i); log += &format!(" V{b},{i}"); }
                2 => { let i = r.below(n); let v = [r.coin(), r.coin(), r.coin(), r.coin()]; for b in 0..4 { m[b] = m[b] & !(1 << i) | (v[b] as u64) << i; } s.set_sequence_value(&(sg(v[0]), sg(v[1]), sg(v[2]), sg(v[3])), i); log += &format!(" Q{i}"); }
                3 => { m = rand_quad(r, n); s.set_all_values((&bits(m[0], n), &bits(m[1], n), &bits(m[2], n), &bits(m[3], n))); log += " A"; }
                _ => { s = s.clone(); }
            }
            let (i, b) = (r.below(n), r.below(4));
            let v = s.values(i);
            observe!("quadruple_history", quad_of(&s, n) == m && s.size() == n && s.sequence(TAGS[b].clone()) == bits(m[b], n) && v == (sg(m[0] >> i & 1 == 1), sg(m[1] >> i & 1 == 1), sg(m[2] >> i & 1 == 1), sg(m[3] >> i & 1 == 1)), "{log}: {} instead of {}", show(&quad_of(&s, n), n), show(&m, n));
            observe!("quadruple_text", s.to_qs().to_string_raw() == quad_to_chars(&m, n), "{log}: {} instead of {}", s.to_qs().to_string_raw(), quad_to_chars(&m, n));
            let dup = (0..4).any(|x| (0..x).any(|y| m[x] == m[y]));
            observe!("has_duplicate_seq", s.has_duplicate_seq() == dup, "{}", show(&m, n));
        }
        // duplicates are rare in random histories
        let (x, y) = (r.below(4), r.below(4)); m[x] = m[y]; let s = qs_of(&m, n);
        let dup = (0..4).any(|x| (0..x).any(|y| m[x] == m[y]));
        observe!("has_duplicate_seq", s.has_duplicate_seq() == dup, "{}", show(&m, n));
        let other = rand_quad(r, n);
        observe!("quadruples_equal", (s == qs_of(&other, n)) == (m == other) && s == qs_of(&m, n), "{} {}", show(&m, n), show(&other, n));
        key(&format!("history {}", show(&m, n)));
    }
}
fn swp(q: &Quad, i: usize, j: usize) -> Quad { let mut g = *q; g.swap(i, j); g }
fn ng(q: &Quad, n: usize, b: u32) -> Quad { let mut g = *q; for i in 0..4 { if b >> i & 1 == 1 { g[i] = !g[i] & mask(n); } } g }
fn hs(q: &Quad, n: usize, b: u32) -> Quad { let mut g = *q; for i in 0..4 { if b >> i & 1 == 1 { g[i] = sh(g[i], n / 2, n); } } g }
const PAIRS: [(usize, usize); 6] = [(0, 1), (0, 2), (0, 3), (1, 2), (1, 3), (2, 3)];
type Op = fn(&QuadSeq, SequenceType, bool) -> HashSet<QuadSeq>;
/// the operations act on every quadruple alike, valid or not, when the predicate is not to be looked at
fn sym(r: &mut Rng, rounds: usize) {
    let ops: Vec<(&str, Op, fn(&Quad, usize) -> Vec<Quad>)> = vec![
        ("negate", eqv::equivalent_negate as Op, |q, n| (0..4).map(|b| ng(q, n, 1 << b)).collect()),
        ("double_negate", eqv::equivalent_double_negate, |q, n| PAIRS.iter().map(|&(i, j)| ng(q, n, 1 << i | 1 << j)).collect()),
        ("reorder", eqv::equivalent_reorder, |q, _| PAIRS.iter().map(|&(i, j)| swp(q, i, j)).collect()),
        ("double_reorder", eqv::equivalent_double_reorder, |q, _| PAIRS.iter().flat_map(|&(i, j)| PAIRS.iter().map(move |&(k, l)| swp(&swp(q, i, j), k, l))).collect()),
        ("disjoint_swaps", eqv::equivalent_disjoint_swaps, |q, _| vec![swp(&swp(q, 0, 1), 2, 3), swp(&swp(q, 0, 2), 1, 3), swp(&swp(q, 0, 3), 1, 2)]),
        ("negate_swap", eqv::equivalent_negate_swap, |q, n| (0..4).flat_map(|b| PAIRS.iter().map(move |&(i, j)| swp(&ng(q, n, 1 << b), i, j))).collect()),
        ("uniform_shift", eqv::equivalent_uniform_shift, |q, n| (1..n).map(|s| q.map(|a| sh(a, s, n))).collect()),
        ("single_half_shift", eqv::equivalent_single_half_shift, |q, n| if n % 2 == 1 { vec![] } else { (0..4).map(|b| hs(q, n, 1 << b)).collect() }),
        ("uniform_half_shift", eqv::equivalent_uniform_half_shift, |q, n| if n % 2 == 1 { vec![] } else { (0..4).map(|b| hs(q, n, 1 << b)).collect() }),
        ("dual_half_shift", eqv::equivalent_dual_half_shift, |q, n| if n % 2 == 1 { vec![] } else { PAIRS.iter().map(|&(i, j)| hs(q, n, 1 << i | 1 << j)).chain([hs(q, n, 15)]).collect() }),
        ("even_alternated_negation", eqv::equivalent_even_alternated_negation, |q, n| if n % 2 == 1 { vec![] } else { vec![q.map(|a| (a ^ altmask(n)) & mask(n))] }),
        ("alternated_negation", eqv::equivalent_alternated_negation, |q, n| vec![q.map(|a| (a ^ altmask(n)) & mask(n))]),
        ("automorphism", eqv::equivalent_automorphism, |q, n| (1..=n).filter(|&k| gcd(k, n) == 1).map(|k| q.map(|a| decimate(a, k, n))).collect()),
        ("reverse", eqv::equivalent_reverse, |q, n| vec![q.map(|a| (0..n).filter(|i| a >> (n - 1 - i) & 1 == 1).map(|i| 1 << i).sum())]),
    ];
    for _ in 0..rounds {
        let n = 1 + r.below(31); let q = rand_quad(r, n); let s = qs_of(&q, n);
        for (name, f, def) in &ops { for t in [Ty::Qts, Ty::Wts, Ty::Ws] {
            let got: HashSet<Quad> = f(&s, stype(t), true).into_iter().map(|x| quad_of(&x, n)).collect();
            let mut want: HashSet<Quad> = def(&q, n).into_iter().collect(); want.insert(q);
            observe!("op_any", got == want, "{name} ({}) on {}: {} images instead of {}, {} foreign", tname(t), show(&q, n), got.len(), want.len(), got.difference(&want).count());
        } }
        key(&format!("any {}", show(&q, n)));
    }
}
fn sum(a: u64, n: usize) -> i64 { 2 * a.count_ones() as i64 - n as i64 }
/// the sequences whose sums are sorted and not negative (the last one may be negative only when the sums are distinct and not zero)
fn sorted(r: &mut Rng, rounds: usize) {
    for _ in 0..rounds {
        let n = 1 + r.below(31);
        let list: Vec<Quad> = (0..r.below(40)).map(|_| {
            let mut q = rand_quad(r, n); q.sort_by_key(|&a| sum(a, n).abs());
            for a in q.iter_mut() { if sum(*a, n) < 0 && r.below(8) > 0 { *a = !*a & mask(n); } }
            if r.below(4) == 0 { q.swap(r.below(4), r.below(4)); } q }).collect();
        let want: Vec<Quad> = list.iter().filter(|q| {
            let s = q.map(|a| sum(a, n)); let free = !s.contains(&0) && (0..4).all(|i| (0..i).all(|j| s[i] != s[j]));
            0 <= s[0] && s[0] <= s[1] && s[1] <= s[2] && s[2] <= if free { s[3].abs() } else { s[3] } }).cloned().collect();
        let got: Vec<Quad> = eqv::filter_by_rowsums(&list.iter().map(|q| qs_of(q, n)).collect()).iter().map(|s| quad_of(s, n)).collect();
        stat("filtered", list.len() as u64); stat("filtered_kept", want.len() as u64);
        observe!("filter_by_rowsums", got == want, "n={n}: {} of {} kept instead of {}: {}", got.len(), list.len(), want.len(), list.iter().map(|q| show(q, n)).collect::<Vec<_>>().join(","));
    }
}
/// entries, rows, columns and blocks
fn mats(r: &mut Rng, rounds: usize) {
    for _ in 0..rounds {
        let m = 1 + r.below(24); let mut h = HM::new(m); let mut w = vec![vec![1i8; m]; m];
        for _ in 0..r.below(3 * m * m) { let (i, j, v) = (r.below(m), r.below(m), sg(r.coin())); h.set_value(i, j, v); w[i][j] = v; }
        observe!("hm_entries", h.size() == m && (0..m).all(|i| h.row(i) == w[i] && (0..m).all(|j| h.get(i, j) == w[i][j])), "order {m}");
        let text: Vec<Vec<i8>> = h.to_string().lines().filter(|l| l.chars().any(|c| c == '+' || c == '-')).map(|l| l.chars().filter_map(|c| match c { '+' => Some(1), '-' => Some(-1), _ => None }).collect()).collect();
        observe!("hm_text", text == w, "order {m}: {}", h.to_string());
        let s: Vec<i8> = (0..m).map(|_| sg(r.coin())).collect();
        let c = HM::from_sequence(&s);
        observe!("hm_circulant", c.size() == m && (0..m).all(|i| (0..m).all(|j| c.get(i, j) == s[(j + m - i) % m])), "{s:?}");
        use super::sequences::matrices::OpMat::*;
        let k = m + r.below(9); let (x, y) = (r.below(k - m + 1), r.below(k - m + 1)); let mut big = HM::new(k);
        let which = r.below(4);
        big.copy_block_to(&h, x, y, match which { 0 => &NONE, 1 => &MINUS, 2 => &TRANSPOSE, _ => &MINUSTRANSPOSE });
        observe!("hm_block", (0..k).all(|i| (0..k).all(|j| big.get(i, j) == if i < x || j < y || i >= x + m || j >= y + m { 1 } else { let v = if which < 2 { w[i - x][j - y] } else { w[j - y][i - x] }; if which % 2 == 1 { -v } else { v } })), "order {m} at {x},{y} kind {which}");
        let n = 1 + r.below(12); let u = units(); let v: Vec<Qn> = (0..n).map(|_| u[r.below(24)]).collect();
        let mut q = QS::new(n, None); q.set_values(v.iter().map(|&x| quat(x)).collect());
        let q = QHM::from_pqs(q); let at = |i: usize, j: usize| Some(v[(j + n - i) % n]);
        observe!("qhm_entries", q.size() == n && (0..n).all(|i| { let (a, b) = (q.row(i), q.col(i)); a.len() == n && b.len() == n && (0..n).all(|j| qn(&q.get(i, j)) == at(i, j) && qn(&a[j]) == at(i, j) && qn(&b[j]) == at(j, i)) }), "order {n}");
        key(&format!("matrix {m} {x} {y} {which}"));
    }
}
pub fn run(a: &[String]) {
    let mut r = Rng(a[1].parse().unwrap()); let k = int(&a[2]);
    match a[0].as_str() { "quad" => quad(&mut r, k), "sym" => sym(&mut r, k), "sorted" => sorted(&mut r, k), "mats" => mats(&mut r, k), x => panic!("no mode {x}") }
}
