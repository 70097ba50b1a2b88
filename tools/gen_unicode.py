#!/usr/bin/env python3
"""Contracts for the Unicode-property terminals (one per `unicode!` node of core/src/typed/unicode.rs)."""
import re,sys
names=[l.strip() for l in open('/verif/contracts/unicode_names.txt') if l.strip()]
o=["// generated by tools/gen_unicode.py",
"/// TRUSTED: pest's property tables, one uninterpreted class of characters each.",
]
for n in names:
    o.append(f"pub uninterp spec fn unicode_in_{n}(c: char) -> bool;\n#[verifier::external_body]\npub fn unicode_{n}(c: char) -> (r: bool) ensures r == unicode_in_{n}(c) {{ unimplemented!() }}")
o.append("""pub open spec fn n_class<'i>(p: Position<'i>, ok: bool) -> Option<int> { if p.rest().len() > 0 && ok { Some(1) } else { None } }""")
for n in names:
    pf="    proof { if input.rest().len() > 0 { lemma_term(input, 1); lemma_first(input); } }"
    o.append(f"""//@item core {n}
//@open core impl TypedNode for {n}
    open spec fn sem(input: Position<'i>, st: St<'i>) -> Sem<'i> {{ term(input, st, n_class(input, unicode_in_{n}(input.rest()[0]))) }}
    open spec fn trk(input: Position<'i>, st: St<'i>, t: TV<'i, R>) -> TV<'i, R> {{ t }}
    open spec fn node_ok(&self, input: Position<'i>, st: St<'i>) -> bool {{ input.rest().len() > 0 && self.content == input.rest()[0] }}
//@fn try_parse_with_partial
//@start
{pf}
//@fn check_with_partial
//@start
{pf}
//@close""")
open('/verif/contracts/core/80_unicode.rs','w').write("\n".join(o)+"\n")
