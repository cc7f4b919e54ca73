// C21 brute-force finders: they print what they find; the lines are judged from outside
use super::verif_util::*;
use super::find::{find_naive, find_optim, find_unique, find_williamson};
use super::sequences::symmetries::Symmetry;
use super::sequences::williamson::QuadSeq;

/// args: <which> <n> <none|I|II|III|IV | condition>
pub fn run(a: &[String]) {
    let n = int(&a[1]);
    let sym = match a.get(2).map(|s| s.as_str()) { Some("I") => Some(Symmetry::I), Some("II") => Some(Symmetry::II), Some("III") => Some(Symmetry::III), Some("IV") => Some(Symmetry::IV), _ => None };
    let k = match a[0].as_str() {
        "naive" => find_naive::find(n, sym),
        "optim" => find_optim::find(n, sym),
        "q24" => find_optim::find_q24(n, sym),
        "williamson" => match a[2].as_str() {
            "ws" => find_williamson::find(n, |w: &QuadSeq| w.is_symmetric() && w.is_periodic_complementary()),
            "wts" => find_williamson::find(n, |w: &QuadSeq| w.is_amicable() && w.is_periodic_complementary()),
            "any" => find_williamson::find(n, |_| true),
            _ => find_williamson::find(n, |w: &QuadSeq| w.values(w.size() - 1).0 == 1),
        },
        "unique" => { let s = find_unique::find(n); print!("{s}"); s.lines().count() }
        x => panic!("no finder {x}"),
    };
    put(&format!("COUNT {k}"));
}
