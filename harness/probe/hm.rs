// C11 Hadamard matrices
use super::verif_oracle::*;
use super::verif_om::hm as oh;
use super::verif_util::*;
use super::sequences::matrices::HM;
use super::sequences::matrix_equivalence::*;
use super::sequences::symmetries::SequenceType;

fn of(h: &oh::Hm) -> HM { let mut m = HM::new(h.m); for i in 0..h.m { for j in 0..h.m { m.set_value(i, j, if h.get(i, j) { 1 } else { -1 }); } } m }
fn to(m: &HM) -> Option<oh::Hm> {
    let k = m.size(); let mut rows = vec![0u128; k];
    for i in 0..k { for j in 0..k { match m.get(i, j) { 1 => rows[i] |= 1 << j, -1 => {}, _ => return None } } }
    Some(oh::Hm { m: k, rows })
}
fn scramble(h: &oh::Hm, r: &mut Rng) -> oh::Hm {
    let m = h.m; let mut p: Vec<usize> = (0..m).collect(); let mut c = p.clone(); shuffle(&mut p, r); shuffle(&mut c, r);
    let sr: Vec<bool> = (0..m).map(|_| r.coin()).collect(); let sc: Vec<bool> = (0..m).map(|_| r.coin()).collect();
    let mut rows = vec![0u128; m];
    for i in 0..m { for j in 0..m { if h.get(p[i], c[j]) ^ sr[i] ^ sc[j] { rows[i] |= 1 << j; } } }
    oh::Hm { m, rows }
}
fn eq(a: &oh::Hm, b: &oh::Hm) -> bool { a.m == b.m && a.rows == b.rows }
fn decide(a: &oh::Hm, b: &oh::Hm) -> oh::Verdict {
    let (pa, pb) = (oh::profile(a), oh::profile(b));
    if pa.print != pb.print { return oh::Verdict::Inequivalent; }
    let mut budget = 3000; oh::equivalent(a, b, &pa, &pb, &mut budget)
}
/// args: <seed> <rounds>
pub fn run(a: &[String]) {
    let mut r = Rng(a[0].parse().unwrap()); let rounds = int(&a[1]);
    for (t, n, qs) in groups(&stdin_seqs()) {
        let hs: Vec<oh::Hm> = qs.iter().map(|q| oh::from_quad(q, n)).collect();
        for (q, h) in qs.iter().zip(&hs) {
            let m = HM::from_williamson(&qs_of(q, n), SequenceType::QuaternionType);
            let w = || show(q, n);
            observe!("from_sequence", m.size() == 4 * n && to(&m).map_or(false, |x| eq(&x, h)), "{}", w());
            let back = m.get_qts();
            observe!("get_qts", quad_of(&back, n) == *q, "{} -> {}", w(), show(&quad_of(&back, n), n));
            let had = h.is_hadamard();
            observe!("verify", m.verify() == had, "{} should be {had}", w());
            stat(if had { "seen_hadamard" } else { "seen_other" }, 1);
            // a scrambled matrix: normalisation, text, verification after damage
            let s = scramble(h, &mut r); let ms = of(&s);
            let mut want = s.clone();
            for i in 0..s.m { for j in 0..s.m { let b = s.get(i, j) ^ s.get(0, j) ^ s.get(i, 0) ^ s.get(0, 0); if b { want.rows[i] &= !(1 << j); } else { want.rows[i] |= 1 << j; } } }
            let d1 = ms.dephased(); let mut d2 = ms.clone(); d2.dephase();
            observe!("dephased", to(&d1).map_or(false, |x| eq(&x, &want)), "scrambled {}", w());
            observe!("dephase", to(&d2).map_or(false, |x| eq(&x, &want)), "scrambled {}", w());
            observe!("dephase_again", to(&d2.dephased()).map_or(false, |x| eq(&x, &want)), "scrambled {}", w());
            observe!("magma_text", oh::parse_magma(&ms.to_string_magma()).map_or(false, |x| eq(&x, &s)), "scrambled {}", w());
            if n > 1 {
                let mut bad = s.clone(); bad.rows[r.below(s.m)] ^= 1 << r.below(s.m);
                observe!("verify_damaged", of(&bad).verify() == bad.is_hadamard(), "one entry of scrambled {} changed", w());
            }
            key(&format!("{n} {}", w()));
        }
        // equivalence decisions
        let had: Vec<&oh::Hm> = hs.iter().filter(|h| h.is_hadamard()).collect();
        if had.is_empty() { continue; }
        for _ in 0..if n > 14 { 1 } else { rounds } {
            let (i, j) = (r.below(had.len()), r.below(had.len()));
            let (x, y) = (scramble(had[i], &mut r), scramble(had[j], &mut r));
            match if i == j { oh::Verdict::Equivalent } else { decide(had[i], had[j]) } {
                oh::Verdict::Unknown => stat("undecided_by_reference", 1),
                v => { let want = v == oh::Verdict::Equivalent;
                    stat(if want { "pairs_equivalent" } else { "pairs_inequivalent" }, 1);
                    observe!("are_isomorphic", are_isomorphic(graph_from_hm(&of(&x)), graph_from_hm(&of(&y))) == want, "order {} matrices from sequences {} and {} scrambled: should be {want}", 4 * n, i, j); }
            }
        }
        let mut ms: Vec<oh::Hm> = vec![]; for h in had.iter().take(if n > 20 { 1 } else if n > 14 { 2 } else { 12 }) { ms.push(scramble(h, &mut r)); ms.push(scramble(h, &mut r)); }
        shuffle(&mut ms, &mut r);
        let mut reps: Vec<usize> = vec![]; let mut unknown = false;
        for i in 0..ms.len() { let mut hit = false; for &k in &reps { match decide(&ms[k], &ms[i]) { oh::Verdict::Equivalent => { hit = true; break; } oh::Verdict::Unknown => unknown = true, _ => {} } } if !hit { reps.push(i); } }
        if !unknown {
            let list: Vec<HM> = ms.iter().map(of).collect();
            let red = reduce_to_hadamard_equivalence(&list);
            observe!("reduce_to_hadamard_equivalence", red.len() == reps.len(), "order {}: {} matrices of {} classes reduced to {}", 4 * n, list.len(), reps.len(), red.len());
        }
        // reduction by negate-and-swap keeps one sequence per such class
        let mut list: Vec<Quad> = vec![]; for q in qs.iter().take(10) { for _ in 0..3 { let (p, odd) = PERMS[r.below(24)]; let mut s = r.below(16) as u32; if (s.count_ones() % 2 == 1) != odd { s ^= 1; } let mut h = [0; 4]; for b in 0..4 { h[b] = q[p[b]]; if s >> b & 1 == 1 { h[b] = !h[b] & mask(n); } } list.push(h); } }
        let want: std::collections::HashSet<Quad> = list.iter().map(|q| sign_order_min(Ty::Qts, q, n)).collect();
        let red = reduce_to_ns_equivalence(&list.iter().map(|q| qs_of(q, n)).collect());
        let got: std::collections::HashSet<Quad> = red.iter().map(|s| { let q = quad_of(s, n); if q == NOQUAD { q } else { sign_order_min(Ty::Qts, &q, n) } }).collect();
        observe!("reduce_to_ns_equivalence", red.len() == want.len() && got == want, "{} of {} {} classes", red.len(), want.len(), tname(t));
    }
}
