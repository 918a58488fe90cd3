pub mod decode;
pub mod delivery;
pub mod misc;
pub mod purity;
pub mod robust;
pub mod text;
pub mod views;

use crate::run::CaseFn;

pub struct Spec {
    pub id: &'static str,
    pub f: CaseFn,
    /// cases for the quick and the thorough tier
    pub quick: u64,
    pub thorough: u64,
    pub rule: &'static str,
}

/// With PEDMON_ONLY set at build time only that property is compiled (it takes a fraction of the
/// time); the others answer that they are not there.
const ONLY: Option<&str> = option_env!("PEDMON_ONLY");

const fn only(id: &str, f: CaseFn) -> CaseFn {
    let (a, b) = match ONLY {
        None => return f,
        Some(o) => (id.as_bytes(), o.as_bytes()),
    };
    if a.len() != b.len() {
        return absent;
    }
    let mut i = 0;
    while i < a.len() {
        if a[i] != b[i] {
            return absent;
        }
        i += 1;
    }
    f
}

fn absent(_: u64, _: &mut crate::run::Ctx) -> Result<(), crate::run::Viol> {
    eprintln!("this property is not part of this build");
    std::process::exit(2)
}

pub const SPECS: &[Spec] = &[
    Spec { id: "C01", f: only("C01", robust::c01), quick: 5_000_000, thorough: 30_000_000, rule: "hostile record/attr/primitive inputs x configs x byte orders x sources; every object returned is read, formatted, cloned and dropped. Non-trivial: distinct (operation, source kind, outcome, record shape)." },
    Spec { id: "C02", f: only("C02", decode::c02), quick: 4_000_000, thorough: 20_000_000, rule: "well-formed records of all non-SAMPLE types from the ABI model; non-trivial: distinct (type, config, part lengths, record size)." },
    Spec { id: "C03", f: only("C03", decode::c03), quick: 4_000_000, thorough: 20_000_000, rule: "well-formed SAMPLE records; all single flags, flag pairs and complements first, then random subsets; non-trivial: distinct (config, part lengths, record size)." },
    Spec { id: "C04", f: only("C04", delivery::c04), quick: 3_000_000, thorough: 15_000_000, rule: "each input parsed contiguously and then through several other deliveries; non-trivial: distinct (record shape, delivery) pairs with more than the plain aligned slice." },
    Spec { id: "C05", f: only("C05", delivery::c05), quick: 4_000_000, thorough: 20_000_000, rule: "each wire program encoded little- and big-endian and parsed with every matching byte-order type; non-trivial: distinct (shape, outcome)." },
    Spec { id: "C06", f: only("C06", delivery::c06), quick: 2_000_000, thorough: 10_000_000, rule: "streams of valid, malformed and padded records through one parser; non-trivial: distinct streams (types, sizes, outcomes, delivery)." },
    Spec { id: "C07", f: only("C07", decode::c07), quick: 3_000_000, thorough: 15_000_000, rule: "every record type x all 64 trailer flag subsets x sample_id_all; non-trivial: distinct (type, trailer subset, body size)." },
    Spec { id: "C08", f: only("C08", decode::c08), quick: 1_000_000, thorough: 5_000_000, rule: "truncations, count edits, header-size edits, config faults and random mutations judged by the reference decoder; non-trivial: distinct (type, config, edit, verdict)." },
    Spec { id: "C09", f: only("C09", robust::c09), quick: 4_000_000, thorough: 20_000_000, rule: "hostile inputs with the allocator monitored; non-trivial: distinct (shape, outcome, source) with at least one claimed count edited or a source without size hint." },
    Spec { id: "C10", f: only("C10", robust::c10), quick: 4_000_000, thorough: 20_000_000, rule: "hostile inputs through the monitored source; non-trivial: distinct request traces." },
    Spec { id: "C11", f: only("C11", misc::c11), quick: 4_000_000, thorough: 20_000_000, rule: "valid and malformed records of known and unknown types through full, partial and empty visitors; non-trivial: distinct (type, visitor, outcome, misc)." },
    Spec { id: "C12", f: only("C12", misc::c12), quick: 4_000_000, thorough: 20_000_000, rule: "serialized attrs of all ABI sizes, larger sizes, odd sizes, truncations; non-trivial: distinct (size, tail, truncation, delivery)." },
    Spec { id: "C13", f: only("C13", misc::c13), quick: 4_000_000, thorough: 20_000_000, rule: "random 64-bit attr settings; accessors and parse behaviour compared before and after parse histories; non-trivial: distinct (sample type, read format, flags)." },
    Spec { id: "C14", f: only("C14", views::c14), quick: 3_000_000, thorough: 15_000_000, rule: "histories of clone, convert, drop in random order over parsed records; non-trivial: distinct (record shape, history)." },
    Spec { id: "C15", f: only("C15", views::c15), quick: 3_000_000, thorough: 15_000_000, rule: "counter groups with iterator call histories against a deque model; non-trivial: distinct (group length, format, call history)." },
    Spec { id: "C16", f: only("C16", robust::c16), quick: 1_000_000, thorough: 5_000_000, rule: "a source failure injected at every request of every parse; non-trivial: distinct (shape, delivery, failure point, failure kind)." },
    Spec { id: "C17", f: only("C17", text::c17), quick: 2_000_000, thorough: 10_000_000, rule: "records and errors formatted and the text parsed back; non-trivial: distinct (record shape)." },
    Spec { id: "C18", f: only("C18", misc::c18), quick: 4_000_000, thorough: 20_000_000, rule: "histories of primitive reads against a cursor model; non-trivial: distinct (operation history, delivery)." },
    Spec { id: "C19", f: only("C19", misc::c19), quick: 4_000_000, thorough: 20_000_000, rule: "words: all single bits, all pairs, runs, random; each in every packed position; non-trivial: distinct words." },
    Spec { id: "C20", f: only("C20", delivery::c20), quick: 12_000, thorough: 40_000, rule: "per-case outcome digests compared between hosts; non-trivial: distinct (shape, outcome)." },
    Spec { id: "C21", f: only("C21", views::c21), quick: 3_000_000, thorough: 15_000_000, rule: "records within one borrowed chunk; the address of every non-empty returned slice is checked against the input; non-trivial: distinct (shape, alignment, byte order)." },
    Spec { id: "C22", f: only("C22", delivery::c22), quick: 4_000_000, thorough: 20_000_000, rule: "each input through all six entry points; non-trivial: distinct (shape, outcome)." },
    Spec { id: "C23", f: only("C23", purity::c23), quick: 400_000, thorough: 3_000_000, rule: "groups of parses repeated in other histories, inside each other's data sources and in several threads at once; records, errors and configurations shared by and moved to threads. Non-trivial: distinct groups of inputs with their thread plans." },
];
