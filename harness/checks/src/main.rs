fn main() {
    checks::main(checks::world::dispatch);
}
