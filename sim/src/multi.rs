//! A check made of several parts (each itself a check); every run draws one of them.
use crate::runner::{Check, Stats, Tier, Viol};
use crate::util::*;
use serde_json::{json, Value};

pub struct Multi {
    pub id: &'static str,
    pub runs: (u64, u64),
    pub parts: fn() -> Vec<(&'static str, u64, Box<dyn Check>)>,
    pub about: &'static str,
}
impl Multi {
    fn part(&self, name: &str) -> Box<dyn Check> {
        (self.parts)().into_iter().find(|p| p.0 == name).expect("part").2
    }
}
impl Check for Multi {
    fn id(&self) -> &'static str {
        self.id
    }
    fn runs(&self, t: Tier) -> u64 {
        if t == Tier::Quick {
            self.runs.0
        } else {
            self.runs.1
        }
    }
    fn plan(&self, seed: u64, k: u64, t: Tier) -> Value {
        let v = (self.parts)();
        let total: u64 = v.iter().map(|p| p.1).sum();
        let mut x = Rg::new(mix2(seed ^ 0x6d75_6c74, k)).below(total as usize) as u64;
        for (name, w, c) in &v {
            if x < *w {
                return json!({"part": name, "plan": c.plan(seed, k, t)});
            }
            x -= w;
        }
        unreachable!()
    }
    fn exec(&self, plan: &Value, st: &mut Stats) -> Result<(), Viol> {
        let name = plan["part"].as_str().expect("part");
        st.inc(&format!("sys.part {}", name));
        self.part(name).exec(&plan["plan"], st)
    }
    fn shrink(&self, plan: &Value) -> Vec<Value> {
        let name = plan["part"].as_str().expect("part");
        self.part(name).shrink(&plan["plan"]).into_iter().map(|p| json!({"part": name, "plan": p})).collect()
    }
    fn rule(&self) -> String {
        self.about.into()
    }
    fn components(&self) -> Value {
        let m: serde_json::Map<String, Value> = (self.parts)().into_iter().map(|(n, _, c)| (n.to_string(), c.components())).collect();
        Value::Object(m)
    }
    fn assumptions(&self) -> Vec<String> {
        let mut v: Vec<String> = vec![];
        for (_, _, c) in (self.parts)() {
            for a in c.assumptions() {
                if !v.contains(&a) {
                    v.push(a)
                }
            }
        }
        v
    }
}
