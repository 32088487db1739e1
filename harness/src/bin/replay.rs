//! replay <harness> <file>: runs one harness natively on the solver's values.
//! exit 0: the assertion held; 77/78: assumption failed / value stream misaligned; else: violated.
fn main() {
    #[cfg(not(kani))]
    {
        use skyk::vp::rt;
        let a: Vec<String> = std::env::args().collect();
        let f = std::fs::read_to_string(&a[2]).unwrap();
        let vals: Vec<Vec<u8>> = f
            .lines()
            .map(|l| l.split_whitespace().map(|x| x.parse().unwrap()).collect())
            .collect();
        let f = {
            let reg = rt::REG.lock().unwrap();
            reg.iter().find(|(n, _)| *n == a[1]).map(|(_, f)| *f)
        };
        let Some(f) = f else {
            eprintln!("REPLAY-UNKNOWN-HARNESS");
            std::process::exit(79)
        };
        rt::load(vals);
        f();
        println!("REPLAY-OK");
    }
}
