mod core;
mod enumerate;
mod hm;
mod pairs;
use crate::core::*;
use std::io::{BufRead, Write};

fn stdin_lines() -> Vec<String> { std::io::stdin().lock().lines().map(|l| l.unwrap()).collect() }

fn main() {
    let a: Vec<String> = std::env::args().collect();
    let out = std::io::stdout(); let mut out = std::io::BufWriter::new(out.lock());
    match a[1].as_str() {
        // self-check of the model against first principles
        "selftest" => {
            let mut c = 0u64;
            for n in 1..=4usize {
                let m = mask(n);
                for w in 0..=m { for x in 0..=m { for y in 0..=m { for z in 0..=m {
                    let q = [w, x, y, z];
                    let s = quad_to_chars(&q, n);
                    assert_eq!(chars_to_quad(&s), Some((q, n)));
                    let v: Vec<Qn> = s.chars().map(|c| char_to_q(c).unwrap()).collect();
                    assert_eq!(perfect(&v), valid(Ty::Qts, &q, n));
                    c += 1;
                } } } }
            }
            for t in [Ty::Wts, Ty::Qts, Ty::Ws] { for n in 2..=6 {
                let (cl, _) = enumerate::classes(t, n);
                for q in &cl {
                    let o = orbit(t, q, n);
                    for g in &o { assert!(valid(t, g, n)); }
                    let mut r = Rng(7);
                    for _ in 0..20 { let g = random_equiv(t, q, n, &mut r); assert!(o.contains(&g)); assert_eq!(class_id(t, &g, n), *q); }
                }
            } }
            writeln!(out, "selftest ok {c}").unwrap();
        }
        // enum <type> <n>
        "enum" => {
            let n: usize = a[3].parse().unwrap();
            let (v, c) = enumerate::classes(ty(&a[2]), n);
            writeln!(out, "# {} classes, {} normalised solutions", v.len(), c).unwrap();
            for q in v { writeln!(out, "{}", quad_to_chars(&q, n)).unwrap(); }
        }
        // classify <type> : stdin char-sequences -> "<n> <valid> <perfect> <classid>"
        "classify" => {
            let t = ty(&a[2]);
            for l in stdin_lines() {
                match chars_to_quad(&l) {
                    None => writeln!(out, "bad").unwrap(),
                    Some((q, n)) => {
                        let v: Vec<Qn> = l.chars().map(|c| char_to_q(c).unwrap()).collect();
                        writeln!(out, "{} {} {} {}", n, valid(t, &q, n) as u8, perfect(&v) as u8, quad_to_chars(&class_id(t, &q, n), n)).unwrap()
                    }
                }
            }
        }
        // facts : stdin char-sequences -> "n wts qts ws perfect oddperfect rowsums W X Y Z"
        "facts" => {
            for l in stdin_lines() {
                match chars_to_quad(&l) {
                    None => writeln!(out, "bad").unwrap(),
                    Some((q, n)) => {
                        let v: Vec<Qn> = l.chars().map(|c| char_to_q(c).unwrap()).collect();
                        writeln!(out, "{} {} {} {} {} {} {},{},{},{} {} {} {} {}", n, valid(Ty::Wts, &q, n) as u8, valid(Ty::Qts, &q, n) as u8, valid(Ty::Ws, &q, n) as u8,
                            perfect(&v) as u8, odd_perfect(&v) as u8, rs(q[0], n), rs(q[1], n), rs(q[2], n), rs(q[3], n), pm(q[0], n), pm(q[1], n), pm(q[2], n), pm(q[3], n)).unwrap()
                    }
                }
            }
        }
        // quads : stdin lines "W X Y Z" (+-) -> chars
        "quads" => {
            for l in stdin_lines() {
                let v: Option<Vec<(u64, usize)>> = l.split_whitespace().map(from_pm).collect();
                match v { Some(v) if v.len() == 4 && v.iter().all(|x| x.1 == v[0].1 && x.1 > 0) => writeln!(out, "{}", quad_to_chars(&[v[0].0, v[1].0, v[2].0, v[3].0], v[0].1)).unwrap(), _ => writeln!(out, "bad").unwrap() }
            }
        }
        // randeq <type> <k> <seed> : stdin chars -> k random equivalents each
        "randeq" => {
            let t = ty(&a[2]); let k: usize = a[3].parse().unwrap(); let mut r = Rng(a[4].parse().unwrap());
            for l in stdin_lines() { let (q, n) = chars_to_quad(&l).unwrap(); for _ in 0..k { writeln!(out, "{}", quad_to_chars(&random_equiv(t, &q, n, &mut r), n)).unwrap(); } }
        }
        // orbit <type> : stdin chars -> whole orbit (one class per input line, blank line separated)
        "orbit" => {
            let t = ty(&a[2]);
            for l in stdin_lines() { let (q, n) = chars_to_quad(&l).unwrap(); let mut o: Vec<Quad> = orbit(t, &q, n).into_iter().collect(); o.sort(); for g in o { writeln!(out, "{}", quad_to_chars(&g, n)).unwrap(); } writeln!(out).unwrap(); }
        }
        // hm : stdin lines either magma matrices or "seq <chars>" -> structural facts and fingerprint
        "hm" => {
            let mut hs: Vec<Option<hm::Hm>> = vec![];
            for l in stdin_lines() {
                let h = if let Some(s) = l.strip_prefix("seq ") { chars_to_quad(s).map(|(q, n)| hm::from_quad(&q, n)) } else { hm::parse_magma(&l) };
                hs.push(h);
            }
            let info: Vec<Option<(bool, Option<(Quad, usize)>, hm::Prof)>> = std::thread::scope(|sc| {
                let js: Vec<_> = hs.iter().map(|h| h.as_ref()).collect::<Vec<_>>().chunks((hs.len() + 7) / 8 + 1).map(|c| { let c = c.to_vec(); sc.spawn(move || c.into_iter().map(|h| h.map(|h| (h.is_hadamard(), h.qt_structure(), hm::profile(h)))).collect::<Vec<_>>()) }).collect();
                js.into_iter().flat_map(|j| j.join().unwrap()).collect()
            });
            // partition
            let mut reps: Vec<usize> = vec![]; let mut cls: Vec<i64> = vec![];
            for i in 0..hs.len() {
                let mut c = -1i64;
                if let (Some(h), Some(fi)) = (&hs[i], &info[i]) {
                    if fi.0 {
                        let mut unk = false;
                        for (k, &r) in reps.iter().enumerate() {
                            let pr = &info[r].as_ref().unwrap().2;
                            if pr.print != fi.2.print { continue; }
                            let mut budget = 20_000_000 / (4 * h.m * h.m);
                            match hm::equivalent(hs[r].as_ref().unwrap(), h, pr, &fi.2, &mut budget) {
                                hm::Verdict::Equivalent => { c = k as i64; break; }
                                hm::Verdict::Unknown => unk = true,
                                hm::Verdict::Inequivalent => {}
                            }
                        }
                        if c < 0 { if unk { c = -2; } else { c = reps.len() as i64; reps.push(i); } }
                    }
                }
                cls.push(c);
            }
            for i in 0..hs.len() {
                match (&hs[i], &info[i]) {
                    (Some(h), Some((had, st, fp))) => {
                        let s = match st { Some((q, n)) => quad_to_chars(q, *n), None => "-".into() };
                        writeln!(out, "{} {} {} {:016x} {}", h.m, *had as u8, s, fp.print, cls[i]).unwrap();
                    }
                    _ => writeln!(out, "bad").unwrap(),
                }
            }
        }
        // solve <type> : stdin lines "W <pm>" / "X <pm>" / ... candidate components -> every valid quadruple of the product, as chars
        "solve" => {
            let t = ty(&a[2]);
            let (n, c) = pairs::parse_block(&stdin_lines());
            for q in pairs::solve(t, n, &c) { writeln!(out, "{}", quad_to_chars(&q, n)).unwrap(); }
        }
        // arrange <type> <k> <seed> : stdin chars -> k times "a,b,c,d W X Y Z", equivalent and with the rowsums of a decomposition
        "arrange" => {
            let t = ty(&a[2]); let k: usize = a[3].parse().unwrap(); let mut r = Rng(a[4].parse().unwrap());
            for l in stdin_lines() { let (q, n) = chars_to_quad(&l).unwrap(); for _ in 0..k { match pairs::arrange(t, &q, n, &mut r) {
                None => writeln!(out, "none").unwrap(),
                Some(g) => writeln!(out, "{} {} {} {} {}", g.map(|x| rs(x, n).to_string()).join(","), pm(g[0], n), pm(g[1], n), pm(g[2], n), pm(g[3], n)).unwrap(),
            } } }
        }
        // pairdir <type> <psd|correlation> <n> <dir> <solve 0|1>
        "pairdir" => { drop(out); pairs::pairdir(ty(&a[2]), &a[3], a[4].parse().unwrap(), &a[5], a[6] == "1"); }
        // perfect <16|24> <n> <none|I|II|III|IV>
        "perfect" => for s in pairs::perfects(a[2].parse().unwrap(), a[3].parse().unwrap(), &a[4]) { writeln!(out, "{s}").unwrap(); },
        // wtsqt : stdin chars of Williamson-type sequences -> per line the ids of all QT classes in the Williamson-type class
        "wtsqt" => {
            for l in stdin_lines() {
                let (q, n) = chars_to_quad(&l).unwrap(); let m = mask(n);
                let mut v = vec![];
                for k in 0..if n % 2 == 0 { 4 } else { 2 } {
                    let mut g = q; if k & 1 == 1 { g[0] = !g[0] & m; } if k & 2 == 2 { g[0] = sh(g[0], n / 2, n); }
                    v.push(quad_to_chars(&class_id(Ty::Qts, &g, n), n));
                }
                v.sort(); v.dedup();
                writeln!(out, "{}", v.join(" ")).unwrap();
            }
        }
        // product : stdin "chars chars" -> chars of the product (16-letter results only)
        "product" => {
            for l in stdin_lines() {
                let (x, y) = l.split_once(' ').unwrap();
                let f = |s: &str| s.chars().map(|c| char_to_q(c).unwrap()).collect::<Vec<Qn>>(); let (x, y) = (f(x), f(y));
                let r: Option<String> = (0..x.len() * y.len()).map(|i| { let p = qmul(x[i % x.len()], y[i % y.len()]); q_to_char(p.map(|v| v / 2)) }).collect();
                writeln!(out, "{}", r.unwrap_or("none".into())).unwrap();
            }
        }
        // qhm : stdin chars -> "<rows joined by /> <orthogonal> <non-commuting>" of the normalised circulant matrix
        "qhm" => {
            for l in stdin_lines() {
                let v: Option<Vec<Qn>> = l.chars().map(char_to_q).collect();
                match v { Some(v) if !v.is_empty() => {
                    let n = v.len(); let h = |x: Qn| x.map(|c| c / 2);
                    let c: Vec<Vec<Qn>> = (0..n).map(|i| (0..n).map(|j| h(qmul(v[(j + n - i) % n], qconj(v[j])))).collect()).collect();
                    let d: Vec<Vec<Qn>> = (0..n).map(|i| (0..n).map(|j| h(qmul(qconj(c[i][0]), c[i][j]))).collect()).collect();
                    let orth = (0..n).all(|i| (0..n).all(|j| { let mut s = [0i64; 4]; for k in 0..n { let p = qmul(d[i][k], qconj(d[j][k])); for e in 0..4 { s[e] += p[e]; } } s == [if i == j { 4 * n as i64 } else { 0 }, 0, 0, 0] }));
                    let mut u: Vec<Qn> = vec![]; for r in &d[1..] { for &x in &r[1..] { if !u.contains(&x) { u.push(x); } } }
                    let nc = u.iter().any(|&a| u.iter().any(|&b| qmul(a, b) != qmul(b, a)));
                    writeln!(out, "{} {} {}", d.iter().map(|r| r.iter().map(|&x| q_to_char24(x).unwrap_or('?')).collect::<String>()).collect::<Vec<_>>().join("/"), orth as u8, nc as u8).unwrap();
                } _ => writeln!(out, "bad").unwrap() }
            }
        }
        // wsenum <n> : classes of Williamson sequences
        "wsenum" => { let n: usize = a[2].parse().unwrap(); for q in pairs::wsenum(n) { writeln!(out, "{}", quad_to_chars(&q, n)).unwrap(); } }
        x => panic!("unknown command {x}"),
    }
}
