//! The builds of the library under test.
pub use hllcore::*;
use std::any::Any;
use std::io::{Read, Write};

wrap!();
hllcore::imp3!(hyperloglogplus::HyperLogLogPF);
hllcore::imp3!(hyperloglogplus::HyperLogLogPlus);
hllcore::imp3!(hll_ship::HyperLogLogPF);
hllcore::imp3!(hll_ship::HyperLogLogPlus);

#[cfg(feature = "variants")]
mod more {
    use super::*;
    hllcore::imp!(hll_cl::HyperLogLogPF, u64, SimBuilder, u64, [(u64, SimBuilder)]);
    hllcore::imp!(hll_cl::HyperLogLogPlus, u64, SimBuilder, u64, [(u64, SimBuilder)]);
    hllcore::imp!(hll_ns::HyperLogLogPF, u64, SimBuilder, u64, [(u64, SimBuilder)]);
    hllcore::imp!(hll_nscl::HyperLogLogPF, u64, SimBuilder, u64, [(u64, SimBuilder)]);
}

/// A new sketch. `Err` is the library's refusal.
pub fn create(spec: Spec, key: u64) -> Result<Box<dyn Dut>, String> {
    let sim = SimBuilder { key };
    match (spec.build, spec.kind, spec.vt) {
        (0, Kind::Pf, Vt::U64) => hllcore::mk!(spec, key, hyperloglogplus::HyperLogLogPF, u64, sim),
        (0, Kind::Pf, Vt::Text) => hllcore::mk!(spec, key, hyperloglogplus::HyperLogLogPF, String, sim),
        (0, Kind::Pf, Vt::Sip) => hllcore::mk!(spec, key, hyperloglogplus::HyperLogLogPF, String, SipBuilder),
        (0, Kind::Pp, Vt::U64) => hllcore::mk!(spec, key, hyperloglogplus::HyperLogLogPlus, u64, sim),
        (0, Kind::Pp, Vt::Text) => hllcore::mk!(spec, key, hyperloglogplus::HyperLogLogPlus, String, sim),
        (0, Kind::Pp, Vt::Sip) => hllcore::mk!(spec, key, hyperloglogplus::HyperLogLogPlus, String, SipBuilder),
        (SHIP, Kind::Pf, Vt::U64) => hllcore::mk!(spec, key, hll_ship::HyperLogLogPF, u64, sim),
        (SHIP, Kind::Pf, Vt::Text) => hllcore::mk!(spec, key, hll_ship::HyperLogLogPF, String, sim),
        (SHIP, Kind::Pf, Vt::Sip) => hllcore::mk!(spec, key, hll_ship::HyperLogLogPF, String, SipBuilder),
        (SHIP, Kind::Pp, Vt::U64) => hllcore::mk!(spec, key, hll_ship::HyperLogLogPlus, u64, sim),
        (SHIP, Kind::Pp, Vt::Text) => hllcore::mk!(spec, key, hll_ship::HyperLogLogPlus, String, sim),
        (SHIP, Kind::Pp, Vt::Sip) => hllcore::mk!(spec, key, hll_ship::HyperLogLogPlus, String, SipBuilder),
        (STEP, ..) => hllstep::create(spec, key),
        #[cfg(feature = "variants")]
        (1, Kind::Pf, _) => hllcore::mk!(spec, key, hll_cl::HyperLogLogPF, u64, sim),
        #[cfg(feature = "variants")]
        (1, Kind::Pp, _) => hllcore::mk!(spec, key, hll_cl::HyperLogLogPlus, u64, sim),
        #[cfg(feature = "variants")]
        (2, Kind::Pf, _) => hllcore::mk!(spec, key, hll_ns::HyperLogLogPF, u64, sim),
        #[cfg(feature = "variants")]
        (3, Kind::Pf, _) => hllcore::mk!(spec, key, hll_nscl::HyperLogLogPF, u64, sim),
        _ => panic!("harness: no such sketch {:?}", spec),
    }
}
