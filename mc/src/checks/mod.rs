use crate::runner::Check;

pub mod attrs;
pub mod life;
pub mod lists;
pub mod names;
pub mod output;
#[cfg(feature = "parser")]
pub mod parse;
pub mod robust;
pub mod shapes;
pub mod strings;
pub mod text;
pub mod tree;
pub mod trees;
pub mod types;
pub mod worlds;
#[cfg(feature = "parser")]
pub mod xml;

const MODEL: &str = "the reference model in mc/src/model.rs states the documented behaviour; every transition explored was executed by the library and compared with it";
const BOUNDS: &str = "nodes, names, values and depths beyond the listed worlds are not explored";
const HASH: &str = "model states are merged by a 128-bit hash of the whole state";

pub const DOM: &[Check] = &[
    Check { id: "P01", run: tree::p01, assumptions: &[MODEL, BOUNDS, HASH] },
    Check { id: "P02", run: tree::p02, assumptions: &[MODEL, BOUNDS, HASH] },
    Check { id: "P03", run: tree::p03, assumptions: &[MODEL, BOUNDS, HASH] },
    Check { id: "P04", run: tree::p04, assumptions: &[MODEL, BOUNDS, HASH] },
    Check { id: "P05", run: tree::p05, assumptions: &[MODEL, BOUNDS, HASH] },
    Check { id: "P06", run: attrs::p06, assumptions: &[MODEL, BOUNDS, HASH] },
    Check { id: "P07", run: attrs::p07, assumptions: &[MODEL, BOUNDS, HASH] },
    Check { id: "P08", run: attrs::p08, assumptions: &[MODEL, BOUNDS, HASH] },
    Check { id: "P09", run: trees::p09, assumptions: &[MODEL, BOUNDS, HASH] },
    Check { id: "P10", run: trees::p10, assumptions: &[MODEL, BOUNDS, HASH] },
    Check { id: "P11", run: trees::p11, assumptions: &[MODEL, BOUNDS, HASH] },
    Check { id: "P12", run: text::p12, assumptions: &[MODEL, BOUNDS, HASH] },
    Check { id: "P13", run: text::p13, assumptions: &[MODEL, BOUNDS, HASH] },
    Check { id: "P14", run: text::p14, assumptions: &[MODEL, BOUNDS, HASH] },
    Check { id: "P15", run: output::p15, assumptions: &[MODEL, BOUNDS, HASH] },
    Check { id: "P16", run: output::p16, assumptions: &[MODEL, BOUNDS] },
    Check { id: "P17", run: names::p17, assumptions: &[MODEL, BOUNDS] },
    Check { id: "P18", run: names::p18, assumptions: &[MODEL, BOUNDS] },
    Check { id: "P19", run: types::p19, assumptions: &[MODEL, BOUNDS, HASH] },
    Check { id: "P20", run: types::p20, assumptions: &[MODEL, BOUNDS] },
    Check { id: "P24", run: robust::p24, assumptions: &[BOUNDS] },
    Check { id: "P25", run: robust::p25, assumptions: &[MODEL, BOUNDS, HASH] },
    Check { id: "P26", run: life::p26, assumptions: &[MODEL, BOUNDS, HASH] },
];

#[cfg(feature = "parser")]
const READER: &str = "a strict XML reader written for this check (mc/src/checks/xml.rs) says what each text means, that it is not well-formed, or that it is outside the claims";

#[cfg(feature = "parser")]
pub const PARSER: &[Check] = &[
    Check { id: "P21", run: parse::p21, assumptions: &[READER, BOUNDS] },
    Check { id: "P22", run: parse::p22, assumptions: &[READER, BOUNDS] },
    Check { id: "P23", run: parse::p23, assumptions: &[READER, MODEL, BOUNDS, HASH] },
];
