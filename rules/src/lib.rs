//! Rules derived by `pest3::Parser`, one per shape of the code its generator emits for a rule.
#![allow(dead_code)]
use pest3::Parser;

#[derive(Parser)]
#[grammar_inline = r##"
~ = " "
^ = "\n"
rof(e) = e
rtwo(e, f) = e - f
rleaf = "x"
rhidden = _{ "y" }
rchain = rleaf ~ rhidden
rcall = rof("z")
rrec = rleaf - (rrec | rhidden)?
"##]
pub struct Rules;
