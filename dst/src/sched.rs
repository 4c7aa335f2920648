//! Who runs when: chosen from a measured run.
use crate::rng::Rng;
use crate::sim::{Res, C_ATOMICS};
use serde::{Deserialize, Serialize};

fn no<T: Default + PartialEq>(x: &T) -> bool {
    *x == T::default()
}

#[derive(Clone, Debug, Default, PartialEq, Serialize, Deserialize)]
#[serde(default)]
pub struct Sched {
    /// (execution step, which other thread goes on)
    #[serde(skip_serializing_if = "no")]
    pub preempt: Vec<(u64, u64)>,
    /// which thread goes on when the running one stops
    #[serde(skip_serializing_if = "no")]
    pub picks: Vec<u64>,
    /// at the end of system calls: 0 go on, else which other thread goes on
    #[serde(skip_serializing_if = "no")]
    pub yields: Vec<u64>,
    /// (basic block, from which of its executions on, every how many (0: once), which other thread goes on)
    #[serde(skip_serializing_if = "no")]
    pub sites: Vec<(u32, u32, u32, u64)>,
    /// (which point before or after an atomic access, which other thread goes on)
    #[serde(skip_serializing_if = "no")]
    pub atoms: Vec<(u64, u64)>,
}

pub fn before(r: &mut Rng, k: &mut Sched) {
    k.picks = (0..64).map(|_| r.next() % 60).collect();
    if r.chance(1, 2) {
        let one_in = r.range(1, 6) as u32;
        k.yields = (0..r.range(5, 200)).map(|_| if r.chance(1, one_in) { 1 + r.next() % 60 } else { 0 }).collect();
    }
}
/// `b` is a run of the same program with what `before` chose.
pub fn choose(r: &mut Rng, b: &Res, k: &mut Sched) {
    let total = b.steps.max(2);
    let n = b.ctr[C_ATOMICS];
    if n > 0 && r.chance(1, 2) {
        // around what threads use to come to terms with each other
        let mut at: Vec<u64> = match r.below(3) {
            0 => (0..r.range(1, 5)).map(|_| 1 + r.next() % n).collect(),
            1 => {
                let from = 1 + r.next() % n;
                (from..from + r.range(2, 60) as u64).filter(|_| r.chance(1, 2)).collect()
            }
            _ => {
                let one_in = *r.pick(&[2u32, 5, 20, 100]);
                (1..2 * n + 20).take(20_000).filter(|_| r.chance(1, one_in)).collect()
            }
        };
        at.sort();
        at.dedup();
        k.atoms = at.into_iter().map(|x| (x, r.next() % 60)).collect();
        if r.chance(2, 3) {
            return;
        }
    }
    let mut at: Vec<u64> = vec![];
    match r.below(11) {
        0 | 1 => {
            for _ in 0..r.range(1, 6) {
                at.push(1 + r.next() % total);
            }
        }
        2 => {
            let step = 1 + total / r.range(20, 1500) as u64;
            let mut x = r.next() % step;
            while x < total * 2 && at.len() < 3000 {
                at.push(x + 1);
                x += 1 + r.next() % (2 * step);
            }
        }
        3 | 4 => {
            // bursts: many switches close to each other
            for _ in 0..r.range(1, 4) {
                let mut x = 1 + r.next() % total;
                let gap = r.range(1, 60) as u64;
                for _ in 0..r.range(2, 400) {
                    at.push(x);
                    x += 1 + r.next() % gap;
                }
            }
        }
        5 => {
            let period = *r.pick(&[7u64, 50, 333, 1000]);
            let from = r.next() % total;
            for i in 0..r.range(10, 2000) as u64 {
                at.push(1 + from + i * period);
            }
        }
        6..=9 => {
            // at chosen places of the code, however rarely they are reached
            let rare = *r.pick(&[2u8, 12, 40, 254, 255]);
            let c: Vec<u32> = (1..b.cov.len()).filter(|g| b.cov[*g] > 0 && b.cov[*g] <= rare).map(|g| g as u32).collect();
            if !c.is_empty() {
                // neighbours in the code are neighbours here, too
                let near = r.below(c.len());
                let local = r.chance(1, 2);
                for _ in 0..*r.pick(&[1usize, 3, 8, 20, 50]) {
                    let g = if local { c[(near + r.below(30)) % c.len()] } else { c[r.below(c.len())] };
                    let n = b.cov[g as usize] as usize;
                    let from = if r.chance(1, 2) { 1 } else { 1 + r.below(if n == 255 { 2000 } else { n }) };
                    let every = if r.chance(1, 2) { 0 } else { *r.pick(&[1u32, 1, 2, 3, 7]) };
                    k.sites.push((g, from as u32, every, r.next() % 60));
                }
            }
        }
        _ => {}
    }
    at.sort();
    at.dedup();
    k.preempt = at.into_iter().map(|x| (x, r.next() % 60)).collect();
}
