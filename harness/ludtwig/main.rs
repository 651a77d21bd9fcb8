fn main() { hl::verif_harness::native_main() }
