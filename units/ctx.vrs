//@include common.vrs
//@include sem.vrs
//@include model_types.vrs
//@include syntax_types.vrs
pub type SName = Name;
//@include rules_merge.vrs
//@include rules_check.vrs
//@include ctx_part.vrs
//@include compile_part.vrs
//@include compile_fns.vrs
}
}
fn main() {}
