//@include common.vrs
//@include sem.vrs
//@include deriv_sem.vrs
//@include model_types.vrs
//@include iter.vrs
//@file v relaxng-validator/src/lib.rs
//@include xmlp.vrs
//@include valid_part.vrs
//@include doc_part.vrs
//@include stream_part.vrs
//@include docs_part.vrs
}
fn main() {}
