// C05 canonical form, C06 equivalence operations
use super::verif_oracle::*;
use super::verif_util::*;
use super::sequences::williamson::QuadSeq;
use super::sequences::symmetries::SequenceType;
use super::sequences::equivalence::*;
use super::find::find_unique::*;
use std::collections::{HashMap, HashSet};

fn set_of(v: impl IntoIterator<Item = QuadSeq>, n: usize) -> HashSet<Quad> { v.into_iter().map(|s| quad_of(&s, n)).collect() }

/// C05: args: canon <seed> <rounds> <max orbit for the class-generating routines> [length of the long lists]
fn canon(seed: u64, rounds: usize, cap: usize, long: usize) {
    let mut r = Rng(seed);
    for (t, n, qs) in groups(&stdin_seqs()) {
        let st = stype(t);
        // distinct classes only
        let mut cls: Vec<(Quad, Quad)> = vec![];
        for q in qs { let id = class_id(t, &q, n); if !cls.iter().any(|c| c.1 == id) { cls.push((q, id)); } }
        let id_of: HashMap<Quad, usize> = cls.iter().enumerate().map(|(i, c)| (c.1, i)).collect();
        let mut reps: Vec<Option<Quad>> = vec![None; cls.len()];
        let small = orbit_size(t, n) <= cap;
        for round in 0..rounds {
            // a list with several members of a random set of classes, in random order, some repeated
            let mut list: Vec<Quad> = vec![]; let mut used = HashSet::new();
            let kc = 1 + r.below(cls.len().min(8));
            for _ in 0..kc {
                let c = r.below(cls.len()); used.insert(c);
                let k = 1 + r.below(4);
                for _ in 0..k {
                    let e = random_equiv(t, &cls[c].0, n, &mut r);
                    list.push(e);
                    if r.below(4) == 0 { list.push(e); }
                    if r.below(4) == 0 { list.push(cls[c].0); }
                }
            }
            shuffle(&mut list, &mut r);
            let ql: Vec<QuadSeq> = list.iter().map(|q| qs_of(q, n)).collect();
            let what = || format!("{} {}", tname(t), list.iter().map(|q| show(q, n)).collect::<Vec<_>>().join(","));
            key(&format!("{}{} {}", tname(t), n, show(&list[0], n)));
            // the routine the join uses
            let red = reduce_to_canonical_reps(&ql, st);
            check_reduced("reduce_to_canonical_reps", t, n, &red, &used, &id_of, &what(), Some(&mut reps));
            if small && (round == 0 || orbit_size(t, n) <= 8000) {
                let eqs = st.equivalences();
                check_reduced("reduce_to_equivalence", t, n, &reduce_to_equivalence(&ql, st, &eqs), &used, &id_of, &what(), None);
                check_reduced("reduce_to_equivalence_par", t, n, &reduce_to_equivalence_par(&ql, st, &eqs), &used, &id_of, &what(), None);
                check_reduced("reduce_to_equivalence_set_dif", t, n, &reduce_to_equivalence_set_dif(&ql, st, &eqs), &used, &id_of, &what(), None);
                // canonical representative through the whole class
                let a = quad_of(&generate_canonical_representative(&ql[0], st), n);
                let b = quad_of(&generate_canonical_representative(&qs_of(&random_equiv(t, &list[0], n, &mut r), n), st), n);
                observe!("generate_canonical_representative", a == b && a != NOQUAD && class_id(t, &a, n) == class_id(t, &list[0], n), "{} {} -> {} / {}", tname(t), show(&list[0], n), show(&a, n), show(&b, n));
            }
            // pairwise test
            for _ in 0..2 {
                let (i, j) = (r.below(list.len()), r.below(list.len()));
                let want = class_id(t, &list[i], n) == class_id(t, &list[j], n);
                observe!("equiv", equiv(&ql[i], &ql[j], st) == want, "{} {} ~ {} should be {}", tname(t), show(&list[i], n), show(&list[j], n), want);
                stat(if want { "pairs_equivalent" } else { "pairs_inequivalent" }, 1);
                if small && round % 4 == 0 { observe!("equivalent_to", ql[i].equivalent_to(ql[j].clone(), st) == want, "{} {} ~ {} should be {}", tname(t), show(&list[i], n), show(&list[j], n), want); }
            }
            // first-stage normal forms: invariant under the sign/order part, and inside the class
            let q = list[0];
            let mut h = q; // random sign/order image
            let (p, odd) = PERMS[r.below(24)]; let mut s = r.below(16) as u32;
            if t == Ty::Qts && (s.count_ones() % 2 == 1) != odd { s ^= 1; }
            for b in 0..4 { h[b] = q[p[b]]; if s >> b & 1 == 1 { h[b] = !h[b] & mask(n); } }
            let f = |x: &Quad| quad_of(&if t == Ty::Qts { ns_canonical(&qs_of(x, n)) } else { sn_ss_canonical(&qs_of(x, n)) }, n);
            let (a, b) = (f(&q), f(&h));
            observe!("normal_form", a == b && a != NOQUAD && sign_order_min(t, &a, n) == sign_order_min(t, &q, n), "{} {} / {} -> {} / {}", tname(t), show(&q, n), show(&h, n), show(&a, n), show(&b, n));
        }
        // one list as long as those of real searches, on which parts, buffers and tables of any size have to work together
        if long > 0 && (3..=8).contains(&n) {
            let mut list: Vec<Quad> = vec![]; let used: HashSet<usize> = (0..cls.len()).collect();
            while list.len() < long { for c in &cls { list.push(random_equiv(t, &c.0, n, &mut r)); } }
            shuffle(&mut list, &mut r);
            let ql: Vec<QuadSeq> = list.iter().map(|q| qs_of(q, n)).collect(); let eqs = st.equivalences(); let what = || format!("{} n={n}: {} members of {} classes", tname(t), list.len(), cls.len());
            check_reduced("reduce_to_canonical_reps", t, n, &reduce_to_canonical_reps(&ql, st), &used, &id_of, &what(), Some(&mut reps));
            if small && n <= 4 {
                check_reduced("reduce_to_equivalence", t, n, &reduce_to_equivalence(&ql, st, &eqs), &used, &id_of, &what(), None);
                check_reduced("reduce_to_equivalence_par", t, n, &reduce_to_equivalence_par(&ql, st, &eqs), &used, &id_of, &what(), None);
                check_reduced("reduce_to_equivalence_set_dif", t, n, &reduce_to_equivalence_set_dif(&ql, st, &eqs), &used, &id_of, &what(), None);
            }
            stat("long_lists", 1); stat("long_list_members", list.len() as u64);
        }
        // separating: all representatives seen of distinct classes are distinct
        let seen: Vec<Quad> = reps.iter().flatten().cloned().collect();
        let d: HashSet<Quad> = seen.iter().cloned().collect();
        observe!("separating", d.len() == seen.len(), "{} n={} two classes share a representative", tname(t), n);
        stat("classes", seen.len() as u64);
    }
}
fn check_reduced(f: &str, t: Ty, n: usize, red: &Vec<QuadSeq>, used: &HashSet<usize>, id_of: &HashMap<Quad, usize>, what: &str, reps: Option<&mut Vec<Option<Quad>>>) {
    let mut got = HashMap::new(); let mut bad = None;
    for s in red {
        let q = quad_of(s, n);
        if q == NOQUAD || !valid(t, &q, n) { bad = Some(format!("holds the invalid {}", show(&q, n))); break; }
        match id_of.get(&class_id(t, &q, n)) {
            Some(c) if used.contains(c) => { *got.entry(*c).or_insert(0) += 1; if let Some(rp) = &reps { if let Some(p) = rp[*c] { if p != q { bad = Some(format!("two representatives {} and {} of one class", show(&p, n), show(&q, n))); } } } }
            _ => bad = Some(format!("holds {} of a class that was not in the list", show(&q, n))),
        }
    }
    if bad.is_none() && (got.len() != used.len() || got.values().any(|&k| k != 1)) { bad = Some(format!("{} classes in, {} sequences of {} classes out", used.len(), red.len(), got.len())); }
    if bad.is_none() { if let Some(rp) = reps { for s in red { let q = quad_of(s, n); rp[id_of[&class_id(t, &q, n)]] = Some(q); } } }
    eval(f);
    if let Some(b) = bad { viol(format!("{f}: {b}: {what}")); }
}
/// an upper bound of the size of a class
fn orbit_size(t: Ty, n: usize) -> usize {
    let phi = (1..=n).filter(|&k| gcd(k, n) == 1).count();
    let so = if t == Ty::Qts { 192 } else { 384 };
    let even = if n % 2 == 1 { 1 } else if t == Ty::Qts { 16 } else { 32 };
    so * phi * even * if t == Ty::Ws { 1 } else { n }
}

// ---------------------------------------------------------------- C06
fn neg(q: &Quad, n: usize, bitsx: u32) -> Quad { let mut g = *q; for b in 0..4 { if bitsx >> b & 1 == 1 { g[b] = !g[b] & mask(n); } } g }
fn swp(q: &Quad, i: usize, j: usize) -> Quad { let mut g = *q; g.swap(i, j); g }
fn hs(q: &Quad, n: usize, bitsx: u32) -> Quad { let mut g = *q; for b in 0..4 { if bitsx >> b & 1 == 1 { g[b] = sh(g[b], n / 2, n); } } g }
const PAIRS: [(usize, usize); 6] = [(0, 1), (0, 2), (0, 3), (1, 2), (1, 3), (2, 3)];
type Op = fn(&QuadSeq, SequenceType, bool) -> HashSet<QuadSeq>;
/// name, function, types it applies to (wts, qts, ws), images by definition (besides the identity)
fn ops() -> Vec<(&'static str, Op, [bool; 3], fn(&Quad, usize) -> Vec<Quad>)> {
    vec![
        ("negate", equivalent_negate as Op, [true, false, true], |q, n| (0..4).map(|b| neg(q, n, 1 << b)).collect()),
        ("double_negate", equivalent_double_negate, [true, true, true], |q, n| PAIRS.iter().map(|&(i, j)| neg(q, n, 1 << i | 1 << j)).collect()),
        ("reorder", equivalent_reorder, [true, false, true], |q, _| PAIRS.iter().map(|&(i, j)| swp(q, i, j)).collect()),
        ("double_reorder", equivalent_double_reorder, [true, true, true], |q, _| PAIRS.iter().flat_map(|&(i, j)| PAIRS.iter().map(move |&(k, l)| (i, j, k, l))).map(|(i, j, k, l)| swp(&swp(q, i, j), k, l)).collect()),
        ("disjoint_swaps", equivalent_disjoint_swaps, [true, true, true], |q, _| vec![swp(&swp(q, 0, 1), 2, 3), swp(&swp(q, 0, 2), 1, 3), swp(&swp(q, 0, 3), 1, 2)]),
        ("negate_swap", equivalent_negate_swap, [true, true, true], |q, n| (0..4).flat_map(|b| PAIRS.iter().map(move |&(i, j)| swp(&neg(q, n, 1 << b), i, j))).collect()),
        ("uniform_shift", equivalent_uniform_shift, [true, true, false], |q, n| (1..n).map(|s| q.map(|a| sh(a, s, n))).collect()),
        ("single_half_shift", equivalent_single_half_shift, [true, false, true], |q, n| if n % 2 == 1 { vec![] } else { (0..4).map(|b| hs(q, n, 1 << b)).collect() }),
        ("uniform_half_shift", equivalent_uniform_half_shift, [true, false, true], |q, n| if n % 2 == 1 { vec![] } else { (0..4).map(|b| hs(q, n, 1 << b)).collect() }),
        ("dual_half_shift", equivalent_dual_half_shift, [true, true, true], |q, n| if n % 2 == 1 { vec![] } else { let mut v: Vec<Quad> = PAIRS.iter().map(|&(i, j)| hs(q, n, 1 << i | 1 << j)).collect(); v.push(hs(q, n, 15)); v }),
        ("even_alternated_negation", equivalent_even_alternated_negation, [true, true, true], |q, n| if n % 2 == 1 { vec![] } else { vec![q.map(|a| (a ^ altmask(n)) & mask(n))] }),
        ("automorphism", equivalent_automorphism, [true, true, true], |q, n| (1..=n).filter(|&k| gcd(k, n) == 1).map(|k| q.map(|a| decimate(a, k, n))).collect()),
        ("reverse", equivalent_reverse, [true, true, false], |q, n| vec![q.map(|a| { let mut r = 0; for i in 0..n { if a >> (n - 1 - i) & 1 == 1 { r |= 1 << i; } } r })]),
    ]
}
/// args: ops <seed> <per sequence>
fn opscheck(seed: u64, k: usize) {
    let mut r = Rng(seed);
    for (t, q0, n) in stdin_seqs() {
        let st = stype(t);
        for i in 0..k {
            let q = if i == 0 { q0 } else { random_equiv(t, &q0, n, &mut r) };
            let s = qs_of(&q, n);
            for (name, f, ap, def) in ops() {
                if !ap[match t { Ty::Wts => 0, Ty::Qts => 1, Ty::Ws => 2 }] { continue; }
                let got = set_of(f(&s, st, false), n);
                let mut want: HashSet<Quad> = def(&q, n).into_iter().collect(); want.insert(q);
                observe!("op", got == want, "{name} on {} {}: {} images instead of {}, {} foreign", tname(t), show(&q, n), got.len(), want.len(), got.difference(&want).count());
                stat(&format!("op_{name}"), 1);
                for g in &got { stat("images", 1); if *g == NOQUAD || !valid(t, g, n) { viol(format!("op: {name} maps the valid {} {} to the invalid {}", tname(t), show(&q, n), show(g, n))); } }
            }
            key(&format!("{}{} {}", tname(t), n, show(&q, n)));
        }
        // half_shift, negated, alt_negated on single sequences
        for b in 0..4 {
            let v = bits(q0[b], n);
            observe!("negated", mask_of(&negated(&v)) == Some(!q0[b] & mask(n)), "{}", pm(q0[b], n));
            if n % 2 == 0 {
                observe!("half_shift", mask_of(&half_shift(&v)) == Some(sh(q0[b], n / 2, n)), "{}", pm(q0[b], n));
                observe!("alt_negated", mask_of(&alt_negated(&v, 2)) == Some((q0[b] ^ altmask(n)) & mask(n)), "{}", pm(q0[b], n));
            }
        }
    }
    for n in 1..=100usize { for k in 1..=n { eval("coprime"); if coprime(k, n) != (gcd(k, n) == 1) || coprime(n, k) != (gcd(k, n) == 1) { viol(format!("coprime({k},{n})")); } } }
}
/// everything reached by the operations on positions alone, from their definitions
fn position_closure(t: Ty, q: &Quad, n: usize) -> HashSet<Quad> {
    let units: Vec<usize> = (1..=n).filter(|&k| gcd(k, n) == 1).collect();
    let halves: Vec<u32> = if n % 2 == 1 { vec![] } else if t == Ty::Qts { vec![3, 5, 9] } else { vec![1, 2, 4, 8] };
    let mut seen = HashSet::from([*q]); let mut todo = vec![*q];
    while let Some(q) = todo.pop() {
        let mut next: Vec<Quad> = units.iter().map(|&k| q.map(|a| decimate(a, k, n))).collect();
        if t != Ty::Ws { next.push(q.map(|a| sh(a, 1 % n, n))); }
        if n % 2 == 0 { next.push(q.map(|a| (a ^ altmask(n)) & mask(n))); }
        next.extend(halves.iter().map(|&b| hs(&q, n, b)));
        for g in next { if seen.insert(g) { todo.push(g); } }
    }
    seen
}
/// args: class <seed> <cap> <cap of the step-by-step generation>: generated classes against orbits
fn classcheck(seed: u64, cap: usize, slowcap: usize) {
    let mut r = Rng(seed);
    let mut groups_made: HashMap<(u8, usize), HashSet<QuadSeq>> = HashMap::new();
    for (t, q0, n) in stdin_seqs() {
        let st = stype(t);
        let q = random_equiv(t, &q0, n, &mut r);
        let s = qs_of(&q, n);
        let size = orbit_size(t, n);
        // position part of the group: table-driven generation for every length
        let posops: Vec<Op> = match t {
            Ty::Wts => vec![equivalent_automorphism, equivalent_even_alternated_negation, equivalent_uniform_shift, equivalent_uniform_half_shift],
            Ty::Qts => vec![equivalent_automorphism, equivalent_even_alternated_negation, equivalent_uniform_shift, equivalent_dual_half_shift],
            Ty::Ws => vec![equivalent_automorphism, equivalent_even_alternated_negation, equivalent_uniform_half_shift],
        };
        let gk = (match t { Ty::Wts => 0u8, Ty::Qts => 1, Ty::Ws => 2 }, n);
        let pg = groups_made.entry(gk).or_insert_with(|| generate_symmetry_group(n, st, &posops));
        let got = set_of(generate_equivalence_class_fast(&s, pg), n);
        let want = position_closure(t, &q, n);
        observe!("position_class", got == want, "{} {}: {} members instead of {}", tname(t), show(&q, n), got.len(), want.len());
        if size <= cap {
            let want = orbit(t, &q, n);
            let fast = set_of(generate_equivalence_class_fast(&s, groups_made.entry((gk.0 + 3, n)).or_insert_with(|| generate_symmetry_group(n, st, &st.equivalences()))), n);
            observe!("class_by_table", fast == want, "{} {}: {} members instead of {}", tname(t), show(&q, n), fast.len(), want.len());
            stat("class_members", want.len() as u64);
            if size <= slowcap {
                let slow = set_of(generate_equivalence_class(&s, st, &st.equivalences(), false), n);
                observe!("class_step_by_step", slow == want, "{} {}: {} members instead of {}", tname(t), show(&q, n), slow.len(), want.len());
                let q2 = random_equiv(t, &q, n, &mut r);
                let lv = generate_equivalent_quad_seqs(&vec![s.clone(), qs_of(&q2, n)], st);
                let ls = set_of(lv.clone(), n);
                observe!("class_of_list", ls == want && lv.len() == want.len(), "{} {} + {}: {} entries, {} distinct instead of {}", tname(t), show(&q, n), show(&q2, n), lv.len(), ls.len(), want.len());
            }
        }
        key(&format!("{}{} {}", tname(t), n, show(&q, n)));
    }
}
pub fn run(a: &[String]) {
    let seed: u64 = a[1].parse().unwrap();
    match a[0].as_str() {
        "canon" => canon(seed, int(&a[2]), int(&a[3]), a.get(4).map_or(0, |x| int(x))),
        "ops" => opscheck(seed, int(&a[2])),
        "class" => classcheck(seed, int(&a[2]), int(&a[3])),
        x => panic!("no mode {x}"),
    }
}
