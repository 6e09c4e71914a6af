//! Shrinks a failing scenario by editing its JSON form: drop list elements
//! and map entries, empty options, shrink numbers and strings, as long as the
//! same kind of disagreement remains.

use std::time::{Duration, Instant};

use serde_json::Value as J;

use crate::exec::Mismatch;
use crate::scen::{Phase, Scenario};
use crate::worker::{blame, overlap, Ended, Server};

struct M {
    srv: Option<Server>,
    want: Vec<Mismatch>,
    until: Instant,
    last: Vec<Mismatch>,
    evals: u32,
    /// a fresh process each time
    isolated: bool,
    /// part of the property
    feats: Option<J>,
}

impl M {
    fn over(&self) -> bool {
        Instant::now() > self.until
    }

    fn fails(&mut self, j: &J) -> bool {
        if j.get("feats") != self.feats.as_ref() {
            return false;
        }
        let Ok(sc) = serde_json::from_value::<Scenario>(j.clone()) else { return false };
        self.evals += 1;
        let line = serde_json::to_string(&sc).unwrap();
        let mut srv = self.srv.take().unwrap_or_else(|| Server::start_in(sc.feats, &["eval".to_string()]));
        let e = match srv.ask(&line, Duration::from_secs(6)) {
            Ok(o) => {
                if !self.isolated {
                    self.srv = Some(srv);
                }
                if !o.valid {
                    return false;
                }
                Ended::Out(o)
            }
            Err(Ended::Harness(_)) => return false,
            Err(e) => e,
        };
        if sc.feats.is_none() && !overlap(&e.mism(), &self.want) {
            return false;
        }
        let m = blame(&sc, e).mism();
        if overlap(&m, &self.want) {
            self.last = m;
            return true;
        }
        false
    }
}

type Path = Vec<Step>;

#[derive(Clone)]
enum Step {
    I(usize),
    K(String),
}

fn at<'a>(j: &'a mut J, p: &[Step]) -> Option<&'a mut J> {
    let mut j = j;
    for s in p {
        j = match s {
            Step::I(i) => j.get_mut(*i)?,
            Step::K(k) => j.get_mut(k.as_str())?,
        };
    }
    Some(j)
}

fn walk(j: &J, p: &mut Path, out: &mut Vec<(usize, Path)>) {
    out.push((j_size(j), p.clone()));
    match j {
        J::Array(v) => {
            for (i, x) in v.iter().enumerate() {
                p.push(Step::I(i));
                walk(x, p, out);
                p.pop();
            }
        }
        J::Object(m) => {
            for (k, x) in m {
                p.push(Step::K(k.clone()));
                walk(x, p, out);
                p.pop();
            }
        }
        _ => {}
    }
}

fn j_size(j: &J) -> usize {
    match j {
        J::Array(v) => 1 + v.iter().map(j_size).sum::<usize>(),
        J::Object(m) => 1 + m.values().map(j_size).sum::<usize>(),
        J::String(s) => 1 + s.len(),
        _ => 1,
    }
}

fn paths(j: &J) -> Vec<Path> {
    let mut v = Vec::new();
    walk(j, &mut vec![], &mut v);
    v.sort_by_key(|x| std::cmp::Reverse(x.0));
    v.into_iter().map(|x| x.1).collect()
}

fn shrink_array(m: &mut M, j: &mut J, p: &Path) -> bool {
    let mut any = false;
    let Some(J::Array(v)) = at(j, p) else { return false };
    let mut chunk = v.len().max(1);
    while chunk >= 1 {
        let mut i = 0;
        loop {
            let Some(J::Array(v)) = at(j, p) else { return any };
            if i >= v.len() || m.over() {
                break;
            }
            let mut c = j.clone();
            if let Some(J::Array(v)) = at(&mut c, p) {
                let n = v.len();
                v.drain(i..(i + chunk).min(n));
            }
            if m.fails(&c) {
                *j = c;
                any = true;
            } else {
                i += chunk;
            }
        }
        chunk /= 2;
    }
    any
}

fn try_with(m: &mut M, j: &mut J, p: &Path, v: J) -> bool {
    let mut c = j.clone();
    match at(&mut c, p) {
        Some(x) if *x != v => *x = v,
        _ => return false,
    }
    if m.fails(&c) {
        *j = c;
        return true;
    }
    false
}

fn pass(m: &mut M, j: &mut J) -> bool {
    let mut any = false;
    for p in paths(j) {
        if m.over() {
            return any;
        }
        // The allowance of a memory comparison is part of the property.
        if matches!(p.last(), Some(Step::K(k)) if k == "slack") {
            continue;
        }
        let Some(x) = at(j, &p) else { continue };
        let x = x.clone();
        match &x {
            J::Array(v) if !v.is_empty() => any |= shrink_array(m, j, &p),
            J::Object(o) => {
                if o.len() == 1 {
                    // Perhaps an enum wrapping something that can stand alone.
                    if let Some(J::Object(_)) = o.values().next() {
                        any |= try_with(m, j, &p, J::Null);
                    }
                }
                for k in o.keys() {
                    if m.over() {
                        return any;
                    }
                    let mut c = j.clone();
                    let Some(J::Object(o)) = at(&mut c, &p) else { break };
                    o.remove(k);
                    if m.fails(&c) {
                        *j = c;
                        any = true;
                    }
                }
                any |= try_with(m, j, &p, J::Null);
            }
            J::String(s) if !s.is_empty() => {
                let half: String = s.chars().take(s.chars().count() / 2).collect();
                if try_with(m, j, &p, J::String(String::new())) {
                    any = true;
                } else if s.len() > 1 && s.len() < 4000 {
                    any |= try_with(m, j, &p, J::String(half));
                }
            }
            J::Number(n) => {
                if n.as_f64() != Some(0.0) {
                    if try_with(m, j, &p, J::from(0)) {
                        any = true;
                    } else if let Some(k) = n.as_u64() {
                        if k > 1 {
                            any |= try_with(m, j, &p, J::from(k / 2));
                        }
                    }
                }
            }
            J::Bool(true) => any |= try_with(m, j, &p, J::Bool(false)),
            _ => {}
        }
    }
    any
}

pub fn minimise(sc: &Scenario, found: &[Mismatch], cap: Duration, isolated: bool) -> (Scenario, Vec<Mismatch>) {
    let mut m = M {
        srv: None,
        want: found.to_vec(),
        until: Instant::now() + cap,
        last: found.to_vec(),
        evals: 0,
        isolated,
        feats: sc.feats.map(J::from),
    };
    let mut sc = sc.clone();
    // Pin the schedule, so that it can be edited too.
    if sc.phases.iter().any(|p| matches!(p, Phase::Par { .. })) {
        let mut srv = Server::start(&["eval".to_string()]);
        if let Ok(o) = srv.ask(&serde_json::to_string(&sc).unwrap(), Duration::from_secs(20)) {
            let mut it = o.choices.into_iter();
            let mut pinned = sc.clone();
            for p in &mut pinned.phases {
                if let Phase::Par { sched, .. } = p {
                    sched.choices = it.next();
                }
            }
            if m.fails(&serde_json::to_value(&pinned).unwrap()) {
                sc = pinned;
            }
        }
    }
    let mut j = serde_json::to_value(&sc).unwrap();
    let mut best = m.last.clone();
    while !m.over() {
        if !pass(&mut m, &mut j) {
            break;
        }
        best = m.last.clone();
    }
    if m.over() {
        best = m.last.clone();
    }
    let out: Scenario = serde_json::from_value(j).unwrap();
    let _ = m.evals;
    (out, best)
}
