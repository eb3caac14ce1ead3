//! The instrumented instantiation of the library.
use hllcore::*;
use std::any::Any;
use std::io::{Read, Write};

wrap!();
hllcore::imp3!(hll_step::HyperLogLogPF);
hllcore::imp3!(hll_step::HyperLogLogPlus);

pub fn create(spec: Spec, key: u64) -> Result<Box<dyn Dut>, String> {
    let sim = SimBuilder { key };
    match (spec.kind, spec.vt) {
        (Kind::Pf, Vt::U64) => hllcore::mk!(spec, key, hll_step::HyperLogLogPF, u64, sim),
        (Kind::Pf, Vt::Text) => hllcore::mk!(spec, key, hll_step::HyperLogLogPF, String, sim),
        (Kind::Pf, Vt::Sip) => hllcore::mk!(spec, key, hll_step::HyperLogLogPF, String, SipBuilder),
        (Kind::Pp, Vt::U64) => hllcore::mk!(spec, key, hll_step::HyperLogLogPlus, u64, sim),
        (Kind::Pp, Vt::Text) => hllcore::mk!(spec, key, hll_step::HyperLogLogPlus, String, sim),
        (Kind::Pp, Vt::Sip) => hllcore::mk!(spec, key, hll_step::HyperLogLogPlus, String, SipBuilder),
    }
}
