fn main() {
    let e = std::env::args().nth(1).expect("entry");
    match harness_fs::ENTRIES.iter().find(|x| x.0 == e) {
        Some((_, f)) => {
            f();
            println!("REPLAY-OK");
        }
        None => {
            eprintln!("no entry {e}");
            std::process::exit(2)
        }
    }
}
