//! Structure-directed minimisation of a failing case, on its JSON form.
//!
//! Works for every case type: drops array elements (in halving chunks), drops
//! pieces of strings, simplifies characters, and moves numbers towards zero. A
//! candidate that no longer deserialises, or no longer fails, is discarded.
use serde_json::Value;
use std::time::{Duration, Instant};

#[derive(Clone, Debug)]
enum Step {
    Key(String),
    Idx(usize),
}

fn paths(v: &Value, cur: &mut Vec<Step>, out: &mut Vec<Vec<Step>>) {
    out.push(cur.clone());
    match v {
        Value::Array(a) => {
            for (i, x) in a.iter().enumerate() {
                cur.push(Step::Idx(i));
                paths(x, cur, out);
                cur.pop();
            }
        }
        Value::Object(o) => {
            for (k, x) in o {
                cur.push(Step::Key(k.clone()));
                paths(x, cur, out);
                cur.pop();
            }
        }
        _ => {}
    }
}

fn get<'a>(v: &'a Value, path: &[Step]) -> Option<&'a Value> {
    let mut v = v;
    for s in path {
        v = match s {
            Step::Key(k) => v.get(k)?,
            Step::Idx(i) => v.get(*i)?,
        }
    }
    Some(v)
}

fn set(v: &Value, path: &[Step], new: Value) -> Value {
    let mut root = v.clone();
    {
        let mut p = &mut root;
        for s in path {
            p = match s {
                Step::Key(k) => p.get_mut(k).unwrap(),
                Step::Idx(i) => p.get_mut(*i).unwrap(),
            };
        }
        *p = new;
    }
    root
}

/// Minimise `start` under `fails`, within the given time.
pub fn shrink(start: Value, budget: Duration, fails: &mut dyn FnMut(&Value) -> bool) -> Value {
    let t0 = Instant::now();
    let mut best = start;
    let left = || t0.elapsed() < budget;
    loop {
        let before = best.clone();
        // Arrays first, outermost first: the largest reductions.
        let mut ps = Vec::new();
        paths(&best, &mut Vec::new(), &mut ps);
        for path in &ps {
            if !left() {
                return best;
            }
            match get(&best, path) {
                Some(Value::Array(a)) if !a.is_empty() => {
                    let mut chunk = a.len();
                    while chunk >= 1 {
                        let mut i = 0;
                        loop {
                            let Some(Value::Array(a)) = get(&best, path) else { break };
                            if i >= a.len() || !left() {
                                break;
                            }
                            let mut b = a.clone();
                            b.drain(i..(i + chunk).min(a.len()));
                            let cand = set(&best, path, Value::Array(b));
                            if fails(&cand) {
                                best = cand;
                            } else {
                                i += chunk;
                            }
                        }
                        chunk /= 2;
                    }
                }
                _ => {}
            }
        }
        let mut ps = Vec::new();
        paths(&best, &mut Vec::new(), &mut ps);
        for path in &ps {
            if !left() {
                return best;
            }
            match get(&best, path).cloned() {
                Some(Value::String(s)) if !s.is_empty() => {
                    let is_tag = false;
                    if is_tag {
                        continue;
                    }
                    let n = s.chars().count();
                    let mut chunk = n;
                    while chunk >= 1 {
                        let mut i = 0;
                        loop {
                            let Some(Value::String(s)) = get(&best, path) else { break };
                            let cs: Vec<char> = s.chars().collect();
                            if i >= cs.len() || !left() {
                                break;
                            }
                            let mut b = cs.clone();
                            b.drain(i..(i + chunk).min(cs.len()));
                            let cand = set(&best, path, Value::String(b.iter().collect()));
                            if fails(&cand) {
                                best = cand;
                            } else {
                                i += chunk;
                            }
                        }
                        chunk /= 2;
                    }
                    let Some(Value::String(s)) = get(&best, path).cloned() else { continue };
                    let cs: Vec<char> = s.chars().collect();
                    for i in 0..cs.len().min(200) {
                        if cs[i] == 'a' || !left() {
                            continue;
                        }
                        let Some(Value::String(s)) = get(&best, path) else { break };
                        let mut b: Vec<char> = s.chars().collect();
                        b[i] = 'a';
                        let cand = set(&best, path, Value::String(b.iter().collect()));
                        if fails(&cand) {
                            best = cand;
                        }
                    }
                }
                Some(Value::Number(x)) => {
                    if let Some(v) = x.as_u64() {
                        let mut hi = v;
                        for c in [0, 1, 2, v / 2, v.saturating_sub(1)] {
                            if c < hi {
                                let cand = set(&best, path, Value::from(c));
                                if fails(&cand) {
                                    best = cand;
                                    hi = c;
                                }
                            }
                        }
                    } else if let Some(v) = x.as_i64() {
                        for c in [0, -1, v / 2] {
                            if c > v {
                                let cand = set(&best, path, Value::from(c));
                                if fails(&cand) {
                                    best = cand;
                                    break;
                                }
                            }
                        }
                    }
                }
                Some(Value::Bool(true)) => {
                    let cand = set(&best, path, Value::Bool(false));
                    if fails(&cand) {
                        best = cand;
                    }
                }
                _ => {}
            }
        }
        if best == before || !left() {
            return best;
        }
    }
}
