fn main() { hp::native_main() }
