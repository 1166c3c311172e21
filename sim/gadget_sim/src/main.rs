mod gadget;
#[path = "../../space_sim/src/net.rs"]
mod net;
#[allow(dead_code)]
#[path = "../../space_sim/src/refm.rs"]
mod refm;

#[global_allocator]
static A: simrt::hooks::SimAlloc = simrt::hooks::SimAlloc;

fn main() {
    simrt::driver::main(vec![Box::new(gadget::C18)])
}
