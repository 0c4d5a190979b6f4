use cvm::{c_fault, c_io, c_more, c_num, c_state, c_sys, c_user, rep::*};

#[global_allocator]
static A: c_more::Counting = c_more::Counting;

fn arg(a: &[String], k: &str) -> Option<String> {
    a.iter().position(|x| x == k).and_then(|i| a.get(i + 1)).cloned()
}
fn main() {
    let a: Vec<String> = std::env::args().collect();
    install_panic_hook();
    let id = a[1].clone();
    if id == "child" {
        std::process::exit(c_fault::child(&a));
    }
    if id == "trace" {
        std::process::exit(c_sys::child(&a));
    }
    let seed = arg(&a, "--seed").and_then(|s| s.parse().ok()).unwrap_or(1);
    let thorough = arg(&a, "--tier").as_deref() == Some("thorough");
    let only = arg(&a, "--only").map(|s| {
        let (f, i) = s.rsplit_once(':').expect("--only family:index");
        (f.to_string(), i.parse().expect("index"))
    });
    let scratch = std::path::PathBuf::from(arg(&a, "--scratch").unwrap_or_else(|| "/nonexistent".into()));
    let rep = Rep::new(&id, seed, thorough, only, scratch);
    match id.as_str() {
        "C01" => c_num::c01(&rep),
        "C02" => c_num::c02(&rep),
        "C03" => c_num::c03(&rep),
        "C04" => c_num::c04(&rep),
        "C05" => c_num::c05(&rep),
        "C06" => c_num::c06(&rep),
        "C07" => c_num::c07(&rep),
        "C08" => c_num::c08(&rep),
        "C09" => c_num::c09(&rep),
        "C10" => c_num::c10(&rep),
        "C11" => c_io::c11(&rep),
        "C12" => c_io::c12(&rep),
        "C13" => c_io::c13(&rep),
        "C14" => c_io::c14(&rep),
        "C15" => c_fault::c15(&rep),
        "C16" => c_io::c16(&rep),
        "C17" => c_io::c17(&rep),
        "C18" => c_state::c18(&rep),
        "C19" => c_state::c19(&rep),
        "C20" => c_state::c20(&rep),
        "C21" => c_state::c21(&rep),
        "C22" => c_sys::c22(&rep, arg(&a, "--alt")),
        "C23" => c_sys::c23(&rep),
        "C24" => c_state::c24(&rep),
        "C26" => c_state::c26(&rep),
        "C25" => c_fault::c25(&rep),
        "C29" => c_more::c29(&rep),
        "C30" => c_more::c30(&rep),
        "C31" => c_user::c31(&rep),
        "C32" => c_more::c32(&rep),
        "C33" => c_more::c33(&rep),
        "C35" => c_fault::c35(&rep),
        "C34" => c_more::c34(&rep),
        "C27" => c_num::c27(&rep),
        "C28" => c_num::c28(&rep),
        x => panic!("unknown property {x}"),
    }
    let out = rep.finish();
    match arg(&a, "--out") {
        Some(p) => std::fs::write(p, serde_json::to_string_pretty(&out).unwrap()).unwrap(),
        None => eprintln!("{}", serde_json::to_string_pretty(&out).unwrap()),
    }
}
