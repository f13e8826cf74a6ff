fn main() {
    dessmon::run_main(Default::default())
}
