// writes candidate directories with the routines of the pair generation (monitored from outside)
use super::verif_oracle::*;
use super::verif_util::*;
use super::find::find_write::{write_sequences, write_seq_pairs, EquationSide, MatchOption};
use super::sequences::williamson::SequenceTag;
use super::sequences::symmetries::SequenceType;

/// args: <type> <psd|correlation> <WX|WY|WZ> <root>; stdin "R a b c d", then "W <pm>" ... lines
pub fn run(a: &[String]) {
    let t = ty(&a[0]);
    let root = &a[3];
    let mut blocks: Vec<([isize; 4], [Vec<Vec<i8>>; 4])> = vec![];
    for l in stdin_lines() {
        let (k, s) = l.split_once(' ').unwrap();
        if k == "R" { let v: Vec<isize> = s.split(' ').map(|x| x.parse().unwrap()).collect(); blocks.push(([v[0], v[1], v[2], v[3]], Default::default())); }
        else { let (b, n) = from_pm(s).unwrap(); blocks.last_mut().unwrap().1["WXYZ".find(k).unwrap()].push(bits(b, n)); }
    }
    let tags = [SequenceTag::W, SequenceTag::X, SequenceTag::Y, SequenceTag::Z];
    let (i, j, k, l) = match a[2].as_str() { "WX" => (0, 1, 2, 3), "WY" => (0, 2, 1, 3), _ => (0, 3, 1, 2) };
    for (r, c) in &blocks {
        let dir = format!("{root}/rowsum_{}_{}_{}_{}", r[0], r[1], r[2], r[3]);
        std::fs::create_dir_all(&dir).unwrap();
        for b in 0..4 { write_sequences(&c[b], &tags[b], &dir); }
        let n = c[0][0].len();
        let opt = || if a[1] == "psd" { MatchOption::PSD } else { MatchOption::CORRELATION };
        for (x, y, side) in [(i, j, EquationSide::LEFT), (k, l, EquationSide::RIGHT)] {
            write_seq_pairs((&c[x], &c[y]), (&tags[x], &tags[y]), stype(t), (r[0], r[1], r[2], r[3]), n, &dir, side, opt());
        }
        eval("directories");
    }
}
