use harness::run_main;
fn main() {
    std::process::exit(run_main());
}
