//@include common.vrs
//@include sem.vrs
//@include deriv_sem.vrs
//@include model_types.vrs
//@file v relaxng-validator/src/lib.rs
//@typemap *const Option<relaxng_model::model::DefineRule> => usize
//@include pat_sem.vrs
//@include store_part.vrs
}
fn main() {}
