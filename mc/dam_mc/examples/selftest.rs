fn main() {
    dam_mc::panic::install_quiet_hook();
    let n: usize = std::env::args().nth(1).and_then(|x| x.parse().ok()).unwrap_or(200);
    let seed: u64 = std::env::args().nth(2).and_then(|x| x.parse().ok()).unwrap_or(1);
    match dam_mc::selftest::run(seed, n) {
        Ok(s) => println!("ok programs={} dpor={} brute={} litmus={}", s.programs, s.dpor_execs, s.brute_execs, s.litmus),
        Err(e) => {
            println!("{e}");
            std::process::exit(1)
        }
    }
}
