//! `gen embedded <kind> <dir>`: the dictionary to embed for a kind.
//! `gen stdin`: one request per line, "kind TAB d|u TAB source TAB destination"; answers a line each.
#![allow(dead_code)]
#[path = "../../mc/src/dictkit.rs"]
mod dictkit;
#[path = "../../mc/src/fw.rs"]
mod fw;
#[path = "../../mc/src/rich.rs"]
mod rich;
#[path = "../../emb/src/sources.rs"]
mod sources;
#[path = "../../mc/src/worlds.rs"]
mod worlds;
use lindera_core::dictionary_builder::DictionaryBuilder;
use std::io::BufRead;
use std::path::Path;

fn builder(kind: &str) -> Box<dyn DictionaryBuilder> {
    match kind {
        "ipadic" => Box::new(lindera_ipadic_builder::ipadic_builder::IpadicBuilder::new()),
        "ipadic-neologd" => Box::new(lindera_ipadic_neologd_builder::ipadic_neologd_builder::IpadicNeologdBuilder::new()),
        "unidic" => Box::new(lindera_unidic_builder::unidic_builder::UnidicBuilder::new()),
        "ko-dic" => Box::new(lindera_ko_dic_builder::ko_dic_builder::KoDicBuilder::new()),
        "cc-cedict" => Box::new(lindera_cc_cedict_builder::cc_cedict_builder::CcCedictBuilder::new()),
        k => panic!("no kind {k}"),
    }
}
fn build(kind: &str, what: &str, src: &Path, dst: &Path) -> Result<(), String> {
    match fw::guard(|| match what {
        "u" => builder(kind).build_user_dictionary(src, dst),
        _ => builder(kind).build_dictionary(src, dst),
    }) {
        Ok(Ok(())) => Ok(()),
        Ok(Err(e)) => Err(format!("refused: {e}")),
        Err(p) => Err(format!("panicked: {p}")),
    }
}

fn main() {
    fw::install_panic_hook();
    let args: Vec<String> = std::env::args().skip(1).collect();
    if args[0] == "embedded" {
        let kind = dictkit::KINDS.iter().find(|k| k.as_str() == args[1]).expect("kind");
        let sc = fw::Scratch::new();
        sources::emb_src(kind).write(kind, &sc.0);
        if let Err(e) = build(&args[1], "d", &sc.0, Path::new(&args[2])) {
            eprintln!("{e}");
            drop(sc);
            std::process::exit(1);
        }
        return;
    }
    for l in std::io::stdin().lock().lines() {
        let l = l.unwrap();
        let f: Vec<&str> = l.split('\t').collect();
        match build(f[0], f[1], Path::new(f[2]), Path::new(f[3])) {
            Ok(()) => println!("ok"),
            Err(e) => println!("err {}", e.replace('\n', " ")),
        }
    }
}
