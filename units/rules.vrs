//@include common.vrs
//@include sem.vrs
//@include model_types.vrs

//@include rules_merge.vrs
//@include rules_check.vrs
}
fn main() {}
