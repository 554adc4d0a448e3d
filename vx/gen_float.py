# writes contracts/floatimpl.vc: num_traits::Float implemented for f32 and f64 (results uninterpreted), from the trait as restated in prelude_num.rs
import re
t = open("prelude_num.rs").read(); b = t[t.index("pub trait Float: "):]; b = b[b.index("{") + 1:b.index("\n}")]
print("// generated by gen_float.py\n### for T in f32,f64: verbatim\nimpl Float for $T {")
for m in re.finditer(r"(spec )?fn (\w+)(\([^)]*\)) -> (\((?:\w+: )?[^()]*(?:\([^)]*\))?\)|\w+)", b):
    if m.group(1): print("    uninterp spec fn %s%s -> bool;" % (m.group(2), m.group(3)))
    else: print("    #[verifier::external_body] fn %s%s -> %s { unimplemented!() }" % (m.group(2), m.group(3), m.group(4)))
print("}")
