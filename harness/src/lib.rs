//! Thin driver around the real crates: compile a schema held in memory, validate a document, catch panics.
pub mod gen;
pub mod print;
pub mod rnd;
pub mod sem;
pub mod sx;
use relaxng_model::model::DefineRule;
use relaxng_model::{Compiler, Files, RelaxError, Syntax};
use relaxng_validator::Validator;
use std::cell::RefCell;
use std::collections::HashMap;
use std::panic::{catch_unwind, AssertUnwindSafe};
use std::path::Path;
use std::rc::Rc;

pub struct Mem(pub HashMap<String, String>);
impl Files for Mem {
    fn load(&self, name: &Path) -> Result<String, RelaxError> {
        let n = name.to_str().unwrap().trim_start_matches("./").to_string();
        self.0.get(&n).cloned().ok_or_else(|| {
            RelaxError::Io(name.to_path_buf(), std::io::Error::from(std::io::ErrorKind::NotFound))
        })
    }
}
pub type Model = Rc<RefCell<Option<DefineRule>>>;

#[derive(Debug, Clone, PartialEq, Eq)]
pub enum Out {
    Valid,
    Invalid(String),
    SchemaErr(String),
    Panic(String),
}
impl Out {
    pub fn kind(&self) -> &'static str {
        match self {
            Out::Valid => "valid",
            Out::Invalid(_) => "invalid",
            Out::SchemaErr(_) => "schema-error",
            Out::Panic(_) => "panic",
        }
    }
}
fn pmsg(e: Box<dyn std::any::Any + Send>) -> String {
    e.downcast_ref::<String>().cloned().or_else(|| e.downcast_ref::<&str>().map(|s| s.to_string())).unwrap_or_default()
}
pub fn compile_files(files: &[(&str, &str)], main: &str, xml: bool) -> Result<Model, Out> {
    let m = Mem(files.iter().map(|(a, b)| (a.to_string(), b.to_string())).collect());
    match catch_unwind(AssertUnwindSafe(|| {
        let mut c = Compiler::new(m, if xml { Syntax::Xml } else { Syntax::Compact });
        c.compile(Path::new(main))
    })) {
        Ok(Ok(m)) => Ok(m),
        Ok(Err(e)) => Err(Out::SchemaErr(format!("{e:?}"))),
        Err(p) => Err(Out::Panic(format!("compile: {}", pmsg(p)))),
    }
}
pub fn compile(schema: &str) -> Result<Model, Out> {
    let xml = schema.trim_start().starts_with('<');
    let n = if xml { "main.rng" } else { "main.rnc" };
    compile_files(&[(n, schema)], n, xml)
}
pub fn run_model(m: &Model, doc: &str) -> Out {
    match catch_unwind(AssertUnwindSafe(|| {
        let mut v = Validator::new(m.clone(), xmlparser::Tokenizer::from(doc));
        while let Some(i) = v.validate_next() {
            if let Err(e) = i {
                return Some(format!("{e:?}"));
            }
        }
        None
    })) {
        Ok(None) => Out::Valid,
        Ok(Some(e)) => Out::Invalid(e),
        Err(p) => Out::Panic(pmsg(p)),
    }
}
pub fn run(schema: &str, doc: &str) -> Out {
    match compile(schema) {
        Ok(m) => run_model(&m, doc),
        Err(o) => o,
    }
}
pub fn quiet() {
    if std::env::var("H_PANICS").is_err() { std::panic::set_hook(Box::new(|_| {})); }
}
