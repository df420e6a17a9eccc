fn main() {
    mc::runner::main(mc::checks::DOM);
}
