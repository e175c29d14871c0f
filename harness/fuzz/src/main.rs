//! Coverage-guided search for one property: the fuzzer's bytes are the choices
//! the generators make. The property is named by VERIF_FUZZ_PROP; a failure is
//! written to VERIF_FUZZ_OUT (signature, message, choices), counts to
//! VERIF_FUZZ_STAT.
#![no_main]

use claxon_verif::engine::*;
use claxon_verif::props;
use claxon_verif::src::Src;
use libfuzzer_sys::fuzz_target;
use std::cell::RefCell;
use std::collections::HashSet;
use std::sync::OnceLock;

struct Cfg { prop: &'static Prop, out: String, stat: String, record: Option<String>, known: Vec<String> }
static CFG: OnceLock<Cfg> = OnceLock::new();

#[derive(Default)]
struct Stat { n: u64, runs: u64, distinct: HashSet<u64>, since: u64 }
thread_local! { static STAT: RefCell<Stat> = RefCell::default(); }

fn cfg() -> &'static Cfg {
    CFG.get_or_init(|| {
        let id = std::env::var("VERIF_FUZZ_PROP").expect("VERIF_FUZZ_PROP");
        let prop = props::ALL.iter().find(|p| p.id == id).expect("property");
        let pre = format!("known: property={} sig=", id);
        let known = std::env::var("VERIF_FUZZ_KNOWN").ok().and_then(|f| std::fs::read_to_string(f).ok()).unwrap_or_default()
            .lines().filter_map(|l| l.strip_prefix(&pre[..]).map(|r| r.split_whitespace().next().unwrap_or("").to_string())).collect();
        Cfg { prop, out: std::env::var("VERIF_FUZZ_OUT").expect("VERIF_FUZZ_OUT"), stat: std::env::var("VERIF_FUZZ_STAT").expect("VERIF_FUZZ_STAT"),
              record: std::env::var("VERIF_FUZZ_RECORD").ok(), known }
    })
}

fuzz_target!(init: {
    // libFuzzer's hook aborts on any panic, also on those that are caught.
    let _ = std::panic::take_hook();
    install_hook();
    cfg();
}, |data: &[u8]| {
    let k = cfg();
    let mut s = Src::from_bytes(data);
    if let Some(ref f) = k.record { s.rec_file = Some(std::fs::File::create(f).expect("record file")); }
    let mut c = Ctx::new(false, true);
    match run_case(k.prop, &mut s, &mut c) {
        Outcome::Ok => {}
        Outcome::Fail(f) => if !k.known.contains(&f.sig) {
            let ch: Vec<String> = s.into_choices().iter().map(|c| c.to_string()).collect();
            std::fs::write(&k.out, format!("{}\n{}\n{}\n", f.sig, f.msg.replace('\n', " "), ch.join(" "))).expect("failure file");
            std::process::abort();
        },
        Outcome::Bug(m) => {
            std::fs::write(&k.out, format!("BUG\n{}\n\n", m)).expect("failure file");
            std::process::abort();
        }
    }
    STAT.with(|st| {
        let mut st = st.borrow_mut();
        st.n += 1;
        st.runs += c.runs;
        if c.nontrivial { st.distinct.insert(c.fingerprint()); }
        st.since += 1;
        if st.since == 200 {
            st.since = 0;
            let _ = std::fs::write(&k.stat, format!("{} {} {}\n", st.n, st.distinct.len(), st.runs));
        }
    });
});
