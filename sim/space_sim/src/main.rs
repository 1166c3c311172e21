mod net;
mod refm;
mod table;
mod two;
/// The protocol with the small constants of cfg(verif_sim), for many runs.
#[path = "."]
mod small {
    pub use pospace_small as pos;
    #[path = "session.rs"]
    pub mod session;
    #[path = "byz.rs"]
    pub mod byz;
}
/// The protocol as shipped (N = 20, 50 of 100 challenges), for few runs.
#[allow(dead_code)]
#[path = "."]
mod full {
    pub use pospace_real as pos;
    #[path = "session.rs"]
    pub mod session;
    #[path = "byz.rs"]
    pub mod byz;
}
use two::Two;

#[global_allocator]
static A: simrt::hooks::SimAlloc = simrt::hooks::SimAlloc;

fn main() {
    simrt::driver::main(vec![
        Box::new(table::C01),
        Box::new(table::C02),
        Box::new(table::C03),
        Box::new(table::C04),
        Box::new(Two { small: small::session::C05, full: full::session::C05 }),
        Box::new(Two { small: small::session::C06, full: full::session::C06 }),
        Box::new(Two { small: small::byz::C07, full: full::byz::C07 }),
    ])
}
