// Monitors compiled into the program by the feature `verif` (see /verif/harness).
// verif_main() takes over when the first argument starts with "verif:".
mod verif_om {
    #![allow(dead_code)]
    pub mod core { include!(concat!(env!("VERIF_PROBE_DIR"), "/../../oracle/src/core.rs")); }
    pub mod hm { include!(concat!(env!("VERIF_PROBE_DIR"), "/../../oracle/src/hm.rs")); }
}
use verif_om::core as verif_oracle;
mod verif_util {
    #![allow(dead_code)]
    include!(concat!(env!("VERIF_PROBE_DIR"), "/util.rs"));
}
#[cfg(feature = "p_equiv")]
mod verif_equiv {
    #![allow(dead_code, unused_imports, unused_variables)]
    include!(concat!(env!("VERIF_PROBE_DIR"), "/equiv.rs"));
}
#[cfg(feature = "p_enc")]
mod verif_enc {
    #![allow(dead_code, unused_imports, unused_variables)]
    include!(concat!(env!("VERIF_PROBE_DIR"), "/enc.rs"));
}
#[cfg(feature = "p_pred")]
mod verif_pred {
    #![allow(dead_code, unused_imports, unused_variables)]
    include!(concat!(env!("VERIF_PROBE_DIR"), "/pred.rs"));
}
#[cfg(feature = "p_match")]
mod verif_match {
    #![allow(dead_code, unused_imports, unused_variables)]
    include!(concat!(env!("VERIF_PROBE_DIR"), "/match.rs"));
}
#[cfg(feature = "p_rowsum")]
mod verif_rowsum {
    #![allow(dead_code, unused_imports, unused_variables)]
    include!(concat!(env!("VERIF_PROBE_DIR"), "/rowsum.rs"));
}
#[cfg(feature = "p_hm")]
mod verif_hm {
    #![allow(dead_code, unused_imports, unused_variables)]
    include!(concat!(env!("VERIF_PROBE_DIR"), "/hm.rs"));
}
#[cfg(feature = "p_qhm")]
mod verif_qhm {
    #![allow(dead_code, unused_imports, unused_variables)]
    include!(concat!(env!("VERIF_PROBE_DIR"), "/qhm.rs"));
}
#[cfg(feature = "p_par")]
mod verif_par {
    #![allow(dead_code, unused_imports, unused_variables)]
    include!(concat!(env!("VERIF_PROBE_DIR"), "/par.rs"));
}
#[cfg(feature = "p_mum")]
mod verif_mum {
    #![allow(dead_code, unused_imports, unused_variables)]
    include!(concat!(env!("VERIF_PROBE_DIR"), "/mum.rs"));
}
#[cfg(feature = "p_find")]
mod verif_find {
    #![allow(dead_code, unused_imports, unused_variables)]
    include!(concat!(env!("VERIF_PROBE_DIR"), "/find.rs"));
}
#[cfg(feature = "p_corr")]
mod verif_corr {
    #![allow(dead_code, unused_imports, unused_variables)]
    include!(concat!(env!("VERIF_PROBE_DIR"), "/corr.rs"));
}
#[cfg(feature = "p_eqn")]
mod verif_eqn {
    #![allow(dead_code, unused_imports, unused_variables)]
    include!(concat!(env!("VERIF_PROBE_DIR"), "/eqn.rs"));
}
#[cfg(feature = "p_acc")]
mod verif_acc {
    #![allow(dead_code, unused_imports, unused_variables)]
    include!(concat!(env!("VERIF_PROBE_DIR"), "/acc.rs"));
}
fn verif_main() -> bool {
    let a: Vec<String> = std::env::args().collect();
    if a.len() < 2 || !a[1].starts_with("verif:") { return false; }
    match &a[1][6..] {
        #[cfg(feature = "p_equiv")] "equiv" => verif_equiv::run(&a[2..]),
        #[cfg(feature = "p_enc")] "enc" => verif_enc::run(&a[2..]),
        #[cfg(feature = "p_pred")] "pred" => verif_pred::run(&a[2..]),
        #[cfg(feature = "p_match")] "match" => verif_match::run(&a[2..]),
        #[cfg(feature = "p_rowsum")] "rowsum" => verif_rowsum::run(&a[2..]),
        #[cfg(feature = "p_hm")] "hm" => verif_hm::run(&a[2..]),
        #[cfg(feature = "p_qhm")] "qhm" => verif_qhm::run(&a[2..]),
        #[cfg(feature = "p_par")] "par" => verif_par::run(&a[2..]),
        #[cfg(feature = "p_mum")] "mum" => verif_mum::run(&a[2..]),
        #[cfg(feature = "p_corr")] "corr" => verif_corr::run(&a[2..]),
        #[cfg(feature = "p_eqn")] "eqn" => verif_eqn::run(&a[2..]),
        #[cfg(feature = "p_acc")] "acc" => verif_acc::run(&a[2..]),
        #[cfg(feature = "p_find")] "find" => verif_find::run(&a[2..]),
        x => { eprintln!("no probe component {x}"); std::process::exit(3); }
    }
    verif_util::done();
    true
}
