// C25 equation systems for the completions of two components
use super::verif_oracle::*;
use super::verif_util::*;
use super::sequences::equations::*;
use super::sequences::symmetries::SequenceType;
use super::sequences::williamson::SequenceTag;

const TAGS: [SequenceTag; 4] = [SequenceTag::W, SequenceTag::X, SequenceTag::Y, SequenceTag::Z];
pub struct Eq { terms: Vec<(i64, Vec<usize>)>, rhs: i64 }
/// the equations of a text; Err names the line that is none
fn parse(text: &str, nvars: usize) -> Result<Vec<Eq>, String> {
    let mut v = vec![];
    for l in text.lines() {
        let l = l.trim();
        if l.is_empty() || l.starts_with('*') { continue; }
        let e = || format!("not an equation over x1..x{nvars}: {l:?}");
        let (a, b) = l.strip_suffix(';').and_then(|l| l.split_once('=')).ok_or_else(e)?;
        let mut eq = Eq { terms: vec![], rhs: b.trim().parse().map_err(|_| e())? };
        for t in a.split_whitespace() {
            if let Some(i) = t.strip_prefix('x') {
                let i: usize = i.parse().map_err(|_| e())?;
                if i == 0 || i > nvars || eq.terms.is_empty() { return Err(e()); }
                eq.terms.last_mut().unwrap().1.push(i - 1);
            } else { eq.terms.push((t.parse().map_err(|_| e())?, vec![])); }
        }
        if eq.terms.is_empty() || eq.terms.iter().any(|t| t.1.is_empty()) { return Err(e()); }
        v.push(eq);
    }
    Ok(v)
}
fn holds(eqs: &[Eq], x: u64) -> bool { eqs.iter().all(|e| e.terms.iter().map(|(c, v)| if v.iter().all(|&i| x >> i & 1 == 1) { *c } else { 0 }).sum::<i64>() == e.rhs) }
/// which components the variables stand for, from the comment of the text
fn unknowns(text: &str) -> Option<(usize, usize)> {
    let l = text.lines().find(|l| l.contains("x1 ... xn is"))?;
    let w: Vec<usize> = l.split(|c: char| !c.is_alphanumeric()).filter(|w| w.len() == 1).filter_map(|w| "WXYZ".find(w)).collect();
    if w.len() == 2 && w[0] != w[1] { Some((w[0], w[1])) } else { None }
}
struct Sys { eqs: Vec<Eq>, u: (usize, usize), s: usize, t: usize, a: u64, b: u64, rs: [i64; 4] }
fn sys(text: &str, s: usize, t: usize, a: u64, b: u64, rs: [i64; 4], n: usize) -> Option<Sys> {
    let w = || format!("{} as {:?}, {} as {:?}, sums {rs:?}", pm(a, n), TAGS[s], pm(b, n), TAGS[t]);
    let u = unknowns(text);
    observe!("variables_named", u.map_or(false, |u| { let mut k = [s, t, u.0, u.1]; k.sort(); k == [0, 1, 2, 3] }), "{}: {:?}", w(), text.lines().take(3).collect::<Vec<_>>());
    match (parse(text, 2 * n), u) {
        (Ok(eqs), Some(u)) => Some(Sys { eqs, u, s, t, a, b, rs }),
        (Err(e), _) => { eval("parsed"); viol(format!("parsed: {}: {e}", w())); None }
        _ => None,
    }
}
fn generate(s: usize, t: usize, a: u64, b: u64, rs: [i64; 4], n: usize) -> Option<Sys> {
    let text = generate_equations(&bits(a, n), &TAGS[s], &bits(b, n), &TAGS[t], &SequenceType::QuaternionType, &(rs[0] as isize, rs[1] as isize, rs[2] as isize, rs[3] as isize));
    sys(&text, s, t, a, b, rs, n)
}
fn completion(y: &Sys, x: u64, n: usize) -> Quad { let mut q: Quad = [0; 4]; q[y.s] = y.a; q[y.t] = y.b; q[y.u.0] = x & mask(n); q[y.u.1] = x >> n & mask(n); q }
fn judge(y: &Sys, x: u64, n: usize) {
    let q = completion(y, x, n);
    let want = complementary(&q, n) && qcross(&q, n) && rs(q[y.u.0], n) == y.rs[y.u.0] && rs(q[y.u.1], n) == y.rs[y.u.1];
    stat(if want { "solutions" } else { "non_solutions" }, 1);
    observe!("system", holds(&y.eqs, x) == want, "{} given as {:?} {:?} with the sums {:?} should {}satisfy the system", show(&q, n), TAGS[y.s], TAGS[y.t], y.rs, if want { "" } else { "not " });
}
/// args: gen <seed> <rounds> <exhaustive up to>; stdin "type chars"
///       search <n> (writes below the working directory) | files <directory> <n>
pub fn run(a: &[String]) {
    if a[0] == "search" { super::find::find_with_rowsum::find(int(&a[1]), SequenceType::QuaternionType); return; }
    if a[0] == "files" { return files(&a[1], int(&a[2])); }
    let mut r = Rng(a[1].parse().unwrap()); let rounds = int(&a[2]); let ex = int(&a[3]);
    let tagp = [(0, 1), (0, 2), (0, 3), (1, 2), (1, 3), (2, 3)];
    // every completion of small lengths
    for n in 2..=ex {
        let m = mask(n);
        for (s, t) in tagp { for i in 0..if n <= 4 { 1 << (2 * n) } else { rounds } {
            let (x, y) = if n <= 4 { (i as u64 & m, i as u64 >> n) } else { (r.next() & m, r.next() & m) };
            let mut sums = [0; 4]; for b in 0..4 { sums[b] = rs(r.next() & m, n); } sums[s] = rs(x, n); sums[t] = rs(y, n);
            if let Some(e) = generate(s, t, x, y, sums, n) { for z in 0..1u64 << (2 * n) { judge(&e, z, n); } key(&format!("{n} {s} {t} {x} {y}")); }
        } }
    }
    for (t0, q0, n) in stdin_seqs() {
        for _ in 0..rounds {
            let q = random_equiv(t0, &q0, n, &mut r); let (s, t) = tagp[r.below(6)]; let sums = q.map(|a| rs(a, n));
            let Some(e) = generate(s, t, q[s], q[t], sums, n) else { continue };
            key(&show(&q, n)); stat(&format!("tags_{s}{t}"), 1);
            let code = |q: &Quad| q[e.u.0] | q[e.u.1] << n;
            judge(&e, code(&q), n);
            for kind in 0..8 {
                let mut g = q;
                match kind {
                    0 => g[e.u.0] = sh(g[e.u.0], 1 + r.below(n), n),
                    1 => g[e.u.1] = sh(g[e.u.1], 1 + r.below(n), n),
                    2 => { let k = 1 + r.below(n); g[e.u.0] = sh(g[e.u.0], k, n); g[e.u.1] = sh(g[e.u.1], k, n); }
                    3 => g.swap(e.u.0, e.u.1),
                    4 => g[e.u.0] = decimate(g[e.u.0], n - (n > 1) as usize, n),
                    5 => { let b = if r.coin() { e.u.0 } else { e.u.1 }; g[b] ^= 1 << r.below(n); }
                    6 => { let b = if r.coin() { e.u.0 } else { e.u.1 }; let (i, j) = (r.below(n), r.below(n)); if g[b] >> i & 1 != g[b] >> j & 1 { g[b] ^= 1 << i | 1 << j; } }
                    _ => { let b = if r.coin() { e.u.0 } else { e.u.1 }; g[b] = !g[b] & mask(n); }
                }
                judge(&e, code(&g), n);
            }
            if n <= 8 { for _ in 0..20 { judge(&e, r.next() & mask(2 * n), n); } }
            // other sums rule the sequence out
            let mut other = sums; let b = if r.coin() { e.u.0 } else { e.u.1 }; other[b] += 2;
            if let Some(e) = generate(s, t, q[s], q[t], other, n) { judge(&e, q[e.u.0] | q[e.u.1] << n, n); }
        }
    }
}
/// the files of a search for one length: every file names its components, and its system has exactly their completions
fn files(dir: &str, n: usize) {
    let mut seen = 0;
    for d in std::fs::read_dir(dir).unwrap() { for f in std::fs::read_dir(d.unwrap().path()).unwrap() {
        let p = f.unwrap().path(); let text = std::fs::read_to_string(&p).unwrap(); seen += 1;
        let mut known = vec![]; let mut sums = None;
        for l in text.lines() {
            let l = l.trim_start_matches('*').trim();
            if let Some((k, v)) = l.split_once(':') {
                if let (1, Some(i), Some((b, m))) = (k.len(), "WXYZ".find(k), from_pm(v.trim())) { if m == n { known.push((i, b)); } }
                if k.trim() == "rowsum" { let v: Vec<i64> = v.trim().trim_matches(|c| c == '(' || c == ')').split(',').filter_map(|x| x.trim().parse().ok()).collect(); if v.len() == 4 { sums = Some([v[0], v[1], v[2], v[3]]); } }
            }
        }
        let ok = known.len() == 2 && sums.is_some();
        observe!("file_comment", ok, "{p:?}: {:?}", text.lines().take(4).collect::<Vec<_>>());
        if !ok { continue; }
        let sums = sums.unwrap();
        observe!("file_sums", sums.iter().map(|x| x * x).sum::<i64>() == 4 * n as i64 && known.iter().all(|&(i, b)| rs(b, n) == sums[i]), "{p:?}: {sums:?}");
        if let Some(e) = sys(&text, known[0].0, known[1].0, known[0].1, known[1].1, sums, n) { for z in 0..1u64 << (2 * n) { judge(&e, z, n); } key(&format!("file {n} {:?} {:?}", known, sums)); }
        put(&format!("FILE {} {} {} {} {:?}", known[0].0, pm(known[0].1, n), known[1].0, pm(known[1].1, n), sums));
    } }
    stat("files", seen);
}
