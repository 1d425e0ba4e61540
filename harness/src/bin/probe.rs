use harness::*;
// usage: probe file ; file has records separated by lines "----": schema, line "==", doc, optional '## expect'
fn main() {
    quiet();
    let txt = std::fs::read_to_string(std::env::args().nth(1).unwrap()).unwrap();
    for rec in txt.split("\n----\n") {
        let Some((s, d)) = rec.split_once("\n==\n") else { continue };
        let (d, exp) = d.split_once("\n##").unwrap_or((d, ""));
        let o = run(s, d.trim_end_matches('\n'));
        println!("expect{:10} got {:?}\n    {} <- {}", exp.trim_end(), o, s.replace('\n', " "), d.replace('\n', "\\n"));
    }
}
