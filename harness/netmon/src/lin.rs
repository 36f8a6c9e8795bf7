//! Is there an order of the operations, consistent with real time, that explains every answer?
use crate::core::h64;
use crate::spec::{apply, Ans, Op, State};
use std::collections::HashSet;

#[derive(Clone, Debug)]
pub struct Ev {
    pub thread: usize,
    pub call: u64,
    /// None: never answered
    pub ret: Option<u64>,
    pub op: Op,
    pub ans: Option<Ans>,
}

pub enum Verdict {
    Ok,
    No,
    TooHard,
}

/// most steps before giving up
const LIMIT: usize = 3_000_000;

pub fn check(init: &State, evs: &[Ev]) -> (Verdict, usize) {
    assert!(evs.len() <= 128, "history too long");
    let mut idx: Vec<usize> = (0..evs.len()).collect();
    idx.sort_by_key(|i| evs[*i].call);
    let evs: Vec<&Ev> = idx.iter().map(|i| &evs[*i]).collect();
    let must: u128 = evs.iter().enumerate().filter(|(_, e)| e.ret.is_some()).fold(0, |a, (i, _)| a | 1 << i);
    let mut seen: HashSet<(u128, u64)> = HashSet::new();
    let mut stack: Vec<(u128, State)> = vec![(0, init.clone())];
    let mut steps = 0;
    while let Some((done, s)) = stack.pop() {
        if done & must == must {
            return (Verdict::Ok, steps);
        }
        steps += 1;
        if steps > LIMIT {
            return (Verdict::TooHard, steps);
        }
        // the earliest answer among the operations not yet placed bounds what can come next
        let bound = evs.iter().enumerate().filter(|(i, e)| done >> i & 1 == 0 && e.ret.is_some()).map(|(_, e)| e.ret.unwrap_or(u64::MAX)).min().unwrap_or(u64::MAX);
        for (i, e) in evs.iter().enumerate().rev() {
            if done >> i & 1 == 1 || e.call > bound {
                continue;
            }
            let mut n = s.clone();
            let a = apply(&mut n, &e.op);
            if let Some(want) = &e.ans {
                if a != *want {
                    continue;
                }
            }
            let d = done | 1 << i;
            if seen.insert((d, h64(&n))) {
                stack.push((d, n));
            }
        }
    }
    (Verdict::No, steps)
}

pub fn show(evs: &[Ev]) -> String {
    let mut e: Vec<&Ev> = evs.iter().collect();
    e.sort_by_key(|e| e.call);
    let t0 = e.first().map_or(0, |e| e.call);
    e.iter()
        .map(|e| {
            let ret = e.ret.map_or("-".into(), |r| format!("{}", (r - t0) / 1000));
            format!("[{}..{} us] thread {}: {:?} -> {:?}", (e.call - t0) / 1000, ret, e.thread, e.op, e.ans)
        })
        .collect::<Vec<_>>()
        .join("\n")
}
