mod audit;
mod misc;
mod par;
mod seal;

#[global_allocator]
static A: simrt::hooks::SimAlloc = simrt::hooks::SimAlloc;

fn main() {
    simrt::driver::main(vec![
        Box::new(seal::C08),
        Box::new(seal::C09),
        Box::new(audit::C10),
        Box::new(audit::C11),
        Box::new(misc::C12),
        Box::new(misc::C13),
        Box::new(seal::C14),
        Box::new(misc::C15),
        Box::new(seal::C16),
    ])
}
