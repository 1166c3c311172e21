//! One property simulated at two scales: the first few runs at production size, the rest small.
use serde::{Deserialize, Serialize};
use simrt::driver::{Ctx, Res, Sim, Tier};
use simrt::Rng;

#[derive(Serialize, Deserialize, Clone)]
pub enum Scale<A, B> {
    Small(A),
    Full(B),
}
pub struct Two<A, B> {
    pub small: A,
    pub full: B,
}
impl<A: Sim, B: Sim> Sim for Two<A, B> {
    type Plan = Scale<A::Plan, B::Plan>;
    fn id(&self) -> &'static str {
        self.small.id()
    }
    fn rule(&self) -> &'static str {
        self.small.rule()
    }
    fn runs(&self, t: Tier) -> u64 {
        self.small.runs(t) + self.full.runs(t)
    }
    fn warm(&self) {
        self.small.warm()
    }
    fn limit_s(&self) -> u64 {
        self.small.limit_s().max(self.full.limit_s())
    }
    fn gen(&self, r: &mut Rng, t: Tier, index: u64) -> Self::Plan {
        let k = self.full.runs(t);
        if index < k {
            Scale::Full(self.full.gen(r, t, index))
        } else {
            Scale::Small(self.small.gen(r, t, index - k))
        }
    }
    fn run(&self, p: &Self::Plan, ctx: &mut Ctx) -> Res {
        match p {
            Scale::Small(p) => self.small.run(p, ctx),
            Scale::Full(p) => {
                ctx.probe("production-size-run");
                self.full.run(p, ctx)
            }
        }
    }
    fn shrink(&self, p: &Self::Plan) -> Vec<Self::Plan> {
        match p {
            Scale::Small(p) => self.small.shrink(p).into_iter().map(Scale::Small).collect(),
            Scale::Full(p) => self.full.shrink(p).into_iter().map(Scale::Full).collect(),
        }
    }
    fn real(&self) -> Vec<&'static str> {
        self.small.real()
    }
    fn stub(&self) -> Vec<&'static str> {
        self.small.stub()
    }
}
