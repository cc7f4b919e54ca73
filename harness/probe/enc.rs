// C07 encoding
use super::verif_oracle::*;
use super::verif_util::*;
use super::sequences::williamson::{QuadSeq, quaternion_to_quad};
use super::sequences::sequence::{QS, quaternion_to_string};

fn one(s: &str) {
    let (q, n) = chars_to_quad(s).unwrap();
    let owned = s.to_string();
    let qs = QS::from_str(&owned);
    observe!("parse_print", qs.to_string_raw() == s, "{s} -> {}", qs.to_string_raw());
    observe!("print_brackets", qs.to_string() == format!("[{s}]"), "{s} -> {}", qs.to_string());
    let vals: Vec<Option<Qn>> = qs.values().iter().map(qn).collect();
    let want: Vec<Option<Qn>> = s.chars().map(char_to_q).collect();
    observe!("table", qs.size() == n && vals == want, "{s} -> {vals:?}");
    let quad = QuadSeq::from_pqs(&qs);
    observe!("to_quadruple", quad.size() == n && quad_of(&quad, n) == q, "{s} -> {}", show(&quad_of(&quad, n), n));
    let back = quad.to_qs();
    observe!("round_trip", back.size() == n && back.to_string_raw() == s, "{s} -> {}", back.to_string_raw());
    let direct = qs_of(&q, n).to_qs().to_string_raw();
    observe!("from_quadruple", direct == s, "{s} built from its quadruple prints {direct}");
    observe!("from_parts_equal", qs_of(&q, n) == quad, "{s}: the parsed quadruple differs from the one set from its components");
    let text = quad.to_string();
    let rows: Vec<String> = text.lines().map(|l| l.trim().trim_matches(|c| c == '[' || c == ']').to_string()).filter(|l| !l.is_empty()).collect();
    observe!("quadruple_text", rows == q.iter().map(|&a| pm(a, n)).collect::<Vec<_>>(), "{s} prints {text}");
}
pub fn run(a: &[String]) {
    let mut r = Rng(a[0].parse().unwrap()); let count = int(&a[1]);
    let al: Vec<char> = ALPHABET.chars().collect();
    for c in &al {
        one(&c.to_string());
        let v = char_to_q(*c).unwrap();
        observe!("letter", quaternion_to_string(&quat(v)) == c.to_string(), "{c}");
        let w = quaternion_to_quad(&quat(v));
        let (q, _) = chars_to_quad(&c.to_string()).unwrap();
        observe!("letter_quadruple", [w.0, w.1, w.2, w.3] == q.map(|b| if b & 1 == 1 { 1 } else { -1 }), "{c} -> {w:?}");
        key(&c.to_string());
    }
    for x in &al { for y in &al { one(&format!("{x}{y}")); } }
    for (_, q, n) in stdin_seqs() { one(&quad_to_chars(&q, n)); }
    for _ in 0..count {
        let m = if r.below(4) == 0 { 63 } else { 31 };
        let n = 1 + r.below(m);
        let s: String = (0..n).map(|_| al[r.below(16)]).collect();
        one(&s); key(&s);
        // one foreign character anywhere must be rejected before a quadruple comes out
        let foreign = ['s', 'u', 'V', 'w', 'W', 'a', '0', ' ', '1', '*', 'é', '−', '\t', 'p', '[', '\u{1}'];
        let f = foreign[r.below(foreign.len())];
        let mut v: Vec<char> = s.chars().collect();
        if r.coin() { let i = r.below(n); v[i] = f; } else { let i = r.below(n + 1); v.insert(i, f); }
        let bad: String = v.into_iter().collect();
        observe!("foreign_rejected", panics(|| { let q = QuadSeq::from_pqs(&QS::from_str(&bad)); std::hint::black_box(&q); }), "{bad:?} is accepted");
    }
}
