fn main() {
    std::process::exit(csig::runner::main());
}
