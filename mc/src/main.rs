fn main() {
    mc::main_with(mc::props::ALL)
}
