fn main() {
    std::process::exit(xv::driver::main())
}
