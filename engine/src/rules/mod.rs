//! Per-property rules.
use crate::eng::*;
use crate::prog::*;
use crate::val::*;
use std::cell::RefCell;
use std::collections::{BTreeMap, BTreeSet, HashMap, HashSet};
use std::rc::Rc;

pub mod client;
pub mod label;
pub mod join;
pub mod wake;
pub mod controller;
pub mod deadline;
pub mod debug;
pub mod errno;
pub mod fds;
pub mod flags;
pub mod util;
pub mod wire;
pub mod rx;
pub mod msg;
pub mod region;
pub mod registry;
pub mod ffi;
pub mod js;
mod node;

#[derive(Default)]
pub struct Rep {
    pub viol: BTreeMap<String, Violation>,
    pub cov: BTreeMap<String, u64>,
    pub sites: BTreeMap<String, BTreeSet<String>>,
    pub fns: BTreeSet<String>,
    pub roots: BTreeSet<String>,
    pub programs: BTreeSet<String>,
    pub rule: String,
    /// some fixpoint was not reached within the budget: what was reported holds, silence says less
    pub incomplete: bool,
}

impl Rep {
    pub fn add(&mut self, k: &str, n: u64) {
        *self.cov.entry(k.to_string()).or_default() += n;
    }
    pub fn site(&mut self, k: &str, s: String) {
        self.sites.entry(k.to_string()).or_default().insert(s);
    }
    pub fn bad(&mut self, key: &str, msg: String, loc: String) {
        self.viol.entry(key.to_string()).or_insert(Violation { key: key.to_string(), msg, loc, trace: vec![] });
    }
    /// Fail closed when a rule found fewer instances than were confirmed by reading the code.
    pub fn floor(&mut self, what: &str, min: usize) {
        let n = self.sites.get(what).map_or(0, |s| s.len());
        if n < min && !self.incomplete {
            self.bad(&format!("anchor: {what}"), format!("the rule found {n} instance(s) of `{what}`, at least {min} confirmed on the reviewed code: the construct the property is anchored in is gone"), "whole program".into());
        }
    }
    pub fn absorb(&mut self, e: &mut Eng) {
        for (k, v) in std::mem::take(&mut e.viol) {
            self.viol.entry(k).or_insert(v);
        }
        for (k, v) in std::mem::take(&mut e.samples) {
            self.sites.entry(v).or_default().insert(k);
        }
        for (k, v) in std::mem::take(&mut e.counters) {
            *self.cov.entry(k).or_default() += v;
        }
        self.add("abstract_states", e.stats.states);
        self.add("blocks_interpreted", e.stats.blocks);
        if e.stats.exhausted {
            self.incomplete = true;
        }
        let fs: Vec<FnId> = e.stats.fns.iter().copied().collect();
        for f in fs {
            if is_repo(e.f(f)) {
                self.fns.insert(e.f(f).p.clone());
            }
        }
        self.programs.insert(e.prog.krate.clone());
        e.stats = Stats::default();
    }
}

pub struct Env {
    pub dir: String,
    pub thorough: bool,
    progs: RefCell<HashMap<String, Rc<Prog>>>,
}

impl Env {
    pub fn new(dir: &str, thorough: bool) -> Self {
        Env { dir: dir.into(), thorough, progs: Default::default() }
    }
    pub fn prog(&self, n: &str) -> Rc<Prog> {
        if let Some(p) = self.progs.borrow().get(n) {
            return p.clone();
        }
        let p = crate::load(&self.dir, n);
        self.progs.borrow_mut().insert(n.to_string(), p.clone());
        p
    }
    pub fn core(&self) -> Eng {
        Eng::new(self.prog("ipmb_fixture"))
    }
    pub fn ffi(&self) -> Eng {
        Eng::new(self.prog("ipmb_ffi"))
    }
    pub fn js(&self) -> Eng {
        Eng::new(self.prog("ipmb_js"))
    }
}

/// Run a monitor from one root.
pub fn run(e: &mut Eng, rep: &mut Rep, f: FnId, m: Box<dyn Mon>, prep: &mut dyn FnMut(&mut Eng, &mut State)) {
    e.mon = Some(m);
    rep.roots.insert(e.f(f).p.clone());
    let t = std::time::Instant::now();
    e.run_root(f, prep);
    e.mon = None;
    if std::env::var("SA_TIME").is_ok() {
        if std::env::var("SA_HOT").is_ok() {
            for x in e.hot(40) {
                eprintln!("   hot {x}");
            }
        }
        eprintln!("{:8.2}s {:8} blocks {}", t.elapsed().as_secs_f64(), e.stats.blocks, e.f(f).p);
    }
    rep.absorb(e);
}

pub fn dispatch(id: &str, env: &Env, rep: &mut Rep) -> bool {
    match id {
        "C24" => flags::c24(env, rep),
        "C25" => fds::c25(env, rep),
        "C26" => flags::c26(env, rep),
        "C01" => {
            controller::routing("C01", env, rep);
            label::versions(env, rep);
            join::join("C01", env, rep);
        }
        "C02" => {
            controller::routing("C02", env, rep);
            client::client("C02", env, rep);
            join::join("C02", env, rep);
            rx::reader("C02", env, rep);
        }
        "C09" => controller::routing("C09", env, rep),
        "C03" => label::c03(env, rep),
        "C04" => {
            controller::routing("C04", env, rep);
            join::join("C04", env, rep);
        }
        "C05" => controller::routing("C05", env, rep),
        "C06" => controller::routing("C06", env, rep),
        "C07" => controller::routing("C07", env, rep),
        "C08" => controller::routing("C08", env, rep),
        "C34" => {
            wire::tx("C34", env, rep);
            client::client("C34", env, rep);
            controller::routing("C34", env, rep);
        }
        "C33" => {
            wire::tx("C33", env, rep);
            deadline::c21("C33", env, rep);
        }
        "C21" => deadline::c21("C21", env, rep),
        "C22" => deadline::c22(env, rep),
        "C23" => {
            client::client("C23", env, rep);
            wake::c23(env, rep);
            join::join("C23", env, rep);
        }
        "C20" => client::client("C20", env, rep),
        "C19" => {
            client::client("C19", env, rep);
            join::join("C19", env, rep);
        }
        "C27" => join::join("C27", env, rep),
        "C35" => join::join("C35", env, rep),
        "C14" => {
            wire::tx("C14", env, rep);
            rx::reader("C14", env, rep);
            region::lives("C14", env, rep);
            region::owned(env, rep);
        }
        "C15" => region::lives("C15", env, rep),
        "C28" => ffi::c28(env, rep),
        "C29" => {
            ffi::bindings("C29", env, rep);
            client::client("C29", env, rep);
        }
        "C30" => {
            ffi::bindings("C30", env, rep);
            node::node(env, rep)
        }
        "C31" => js::c31(env, rep),
        "C32" => js::c32(env, rep),
        "C16" => registry::registry("C16", env, rep),
        "C17" => registry::registry("C17", env, rep),
        "C18" => {
            wire::tx("C18", env, rep);
            client::client("C18", env, rep);
        }
        "C10" => {
            rep.rule = "taint of received lengths and counts: every access to the received bytes is preceded on its path by a check against the number of bytes received, and no path ends in a panic".into();
            rx::reader("C10", env, rep);
        }
        "C13" => {
            msg::messages("C13", env, rep);
            msg::derive(env, rep);
        }
        "C11" => rx::c11(env, rep),
        "C12" => {
            wire::tx("C12", env, rep);
            rx::reader("C12", env, rep);
            rx::writer("C12", env, rep);
            msg::messages("C12", env, rep);
        }
        _ => return false,
    }
    true
}
#[allow(unused)]
fn _u(_: &HashSet<u32>, _: Val) {}
