fn main() {
    let tables = [h_srp::TABLE, h_spake2::TABLE, h_aucpace::TABLE].concat();
    std::process::exit(symenv::native::main(&tables, cfg!(feature = "real")))
}
