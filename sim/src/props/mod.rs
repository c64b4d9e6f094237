use crate::engine::*;
use crate::rng::Rng;
use crate::{Env, Stats, Violation};
use serde::{de::DeserializeOwned, Serialize};
use serde_json::Value;

pub mod c01;
pub mod common;
pub mod c02;
pub mod c03;
pub mod c04;
pub mod c05;
pub mod c06;
pub mod c07;
pub mod c08;
pub mod c09;
pub mod c10;
pub mod c11;
pub mod c12;
pub mod c13;
pub mod c14;
pub mod c15;
pub mod c24;
pub mod c25;

/// One property: how cases are made, run and judged.
pub trait Prop: Sync + Send {
    type Case: Serialize + DeserializeOwned + Clone + 'static;
    const ID: &'static str;
    fn gen(&self, env: &Env, r: &mut Rng, n: u64) -> Self::Case;
    fn run(&self, env: &Env, w: &mut World, c: &Self::Case, st: &mut Stats) -> R<Option<Violation>>;
    fn shrink(&self, _c: &Self::Case) -> Vec<Self::Case> {
        vec![]
    }
    /// The same case with the given explicit schedules in place of seeded ones.
    fn explicit(&self, _c: &Self::Case, _s: &[Sched]) -> Option<Self::Case> {
        None
    }
    fn summary(&self, _c: &Self::Case) -> String {
        String::new()
    }
    fn rule(&self) -> &'static str;
    fn level(&self) -> &'static str {
        "exploration"
    }
    fn assumptions(&self) -> Vec<&'static str> {
        vec!["operations that are not faulted behave as the kernel's tmpfs does", "system calls are made through libc (true for Rust's standard library)"]
    }
    /// (cases, seconds)
    fn budget(&self, thorough: bool) -> (u64, u64) {
        if thorough {
            (u64::MAX, 600)
        } else {
            (u64::MAX, 40)
        }
    }
    fn always_nontrivial(&self) -> bool {
        false
    }
}

pub trait DynProp: Sync + Send {
    fn id(&self) -> &'static str;
    fn gen(&self, env: &Env, r: &mut Rng, n: u64) -> Value;
    fn run(&self, env: &Env, w: &mut World, c: &Value, st: &mut Stats) -> R<Option<Violation>>;
    /// Lazily, as a case may carry a long schedule.
    fn shrink(&self, c: &Value) -> Box<dyn Iterator<Item = Value>>;
    fn explicit(&self, c: &Value, s: &[Sched]) -> Option<Value>;
    fn summary(&self, c: &Value) -> String;
    fn rule(&self) -> &'static str;
    fn level(&self) -> &'static str;
    fn assumptions(&self) -> Vec<&'static str>;
    fn budget(&self, thorough: bool) -> (u64, u64);
    fn always_nontrivial(&self) -> bool;
}
impl<P: Prop> DynProp for P {
    fn id(&self) -> &'static str {
        P::ID
    }
    fn gen(&self, env: &Env, r: &mut Rng, n: u64) -> Value {
        serde_json::to_value(Prop::gen(self, env, r, n)).unwrap()
    }
    fn run(&self, env: &Env, w: &mut World, c: &Value, st: &mut Stats) -> R<Option<Violation>> {
        Prop::run(self, env, w, &serde_json::from_value(c.clone())?, st)
    }
    fn shrink(&self, c: &Value) -> Box<dyn Iterator<Item = Value>> {
        match serde_json::from_value(c.clone()) {
            Ok(c) => Box::new(Prop::shrink(self, &c).into_iter().map(|c| serde_json::to_value(c).unwrap())),
            Err(_) => Box::new(std::iter::empty()),
        }
    }
    fn explicit(&self, c: &Value, s: &[Sched]) -> Option<Value> {
        let c = serde_json::from_value(c.clone()).ok()?;
        Some(serde_json::to_value(Prop::explicit(self, &c, s)?).unwrap())
    }
    fn summary(&self, c: &Value) -> String {
        serde_json::from_value(c.clone()).map(|c| Prop::summary(self, &c)).unwrap_or_default()
    }
    fn rule(&self) -> &'static str {
        Prop::rule(self)
    }
    fn level(&self) -> &'static str {
        Prop::level(self)
    }
    fn assumptions(&self) -> Vec<&'static str> {
        Prop::assumptions(self)
    }
    fn budget(&self, thorough: bool) -> (u64, u64) {
        Prop::budget(self, thorough)
    }
    fn always_nontrivial(&self) -> bool {
        Prop::always_nontrivial(self)
    }
}

pub fn all() -> Vec<Box<dyn DynProp>> {
    vec![Box::new(c01::C01), Box::new(c02::C02), Box::new(c03::C03), Box::new(c04::C04), Box::new(c05::C05), Box::new(c06::C06), Box::new(c07::C07), Box::new(c08::C08), Box::new(c09::C09), Box::new(c10::C10), Box::new(c11::C11), Box::new(c12::C12), Box::new(c13::C13), Box::new(c14::C14), Box::new(c15::C15), Box::new(c24::C24), Box::new(c25::C25)]
}
