//! Offline checkers over recorded concurrent histories.

use std::collections::{BTreeMap, HashMap, HashSet};

use crate::model::{Answer, Level, Model, Op};

/// One request of a concurrent history. Times are in nanoseconds on one clock.
#[derive(Clone, Debug)]
pub struct Event {
    pub start: u64,
    /// None if no definite answer came; it may still have taken effect, once, at any later time
    pub end: Option<u64>,
    pub ops: Vec<Op>,
    pub answer: Option<Answer>,
}

#[derive(Debug, PartialEq)]
pub enum Verdict {
    Linearizable,
    NotLinearizable,
    /// gave up
    TooHard,
}

/// Is there an order, compatible with real time, in which the specification gives these answers?
pub fn linearizable(init: &Model, evs: &[Event], now: i128, budget: usize) -> Verdict {
    assert!(evs.len() <= 128);
    let must: u128 = evs.iter().enumerate().filter(|(_, e)| e.end.is_some()).fold(0, |m, (i, _)| m | 1 << i);
    let mut seen: HashSet<(u128, Model)> = HashSet::new();
    let mut stack = vec![(0u128, init.clone())];
    while let Some((done, state)) = stack.pop() {
        if done & must == must {
            return Verdict::Linearizable;
        }
        if seen.len() > budget {
            return Verdict::TooHard;
        }
        // an event can come next if no other pending one ended before it started
        let horizon = evs
            .iter()
            .enumerate()
            .filter(|(i, _)| done >> i & 1 == 0)
            .filter_map(|(_, e)| e.end)
            .min()
            .unwrap_or(u64::MAX);
        for (i, e) in evs.iter().enumerate() {
            if done >> i & 1 == 1 || e.start > horizon {
                continue;
            }
            let mut next = state.clone();
            let (want, _) = next.apply_batch(&e.ops, Level::Admin, now);
            if let Some(a) = &e.answer {
                if !want.allows(a) {
                    continue;
                }
            }
            let key = (done | 1 << i, next);
            if !seen.contains(&key) {
                seen.insert(key.clone());
                stack.push(key);
            }
        }
    }
    Verdict::NotLinearizable
}

/// An append of a unique number to one or more lists, answered with the content of the first list
#[derive(Clone, Debug)]
pub struct Append {
    pub start: u64,
    pub end: Option<u64>,
    pub id: i64,
    pub lists: Vec<usize>,
    pub saw: Option<Vec<i64>>,
}

/// A read of one list
#[derive(Clone, Debug)]
pub struct ListRead {
    pub start: u64,
    pub end: u64,
    pub list: usize,
    pub saw: Vec<i64>,
}

/// Check appends and reads against the final content of the lists
pub fn check_appends(appends: &[Append], reads: &[ListRead], fin: &[Vec<i64>]) -> Result<(), String> {
    let mut pos: Vec<HashMap<i64, usize>> = vec![];
    for (l, xs) in fin.iter().enumerate() {
        let mut m = HashMap::new();
        for (i, x) in xs.iter().enumerate() {
            if m.insert(*x, i).is_some() {
                return Err(format!("append {} took effect twice on list {}", x, l));
            }
        }
        pos.push(m);
    }
    let by_id: BTreeMap<i64, &Append> = appends.iter().map(|a| (a.id, a)).collect();
    for (l, xs) in fin.iter().enumerate() {
        for x in xs {
            match by_id.get(x) {
                Some(a) if a.lists.contains(&l) => (),
                _ => return Err(format!("list {} holds {}, which nobody appended to it", l, x)),
            }
        }
    }
    for a in appends {
        let there: Vec<bool> = a.lists.iter().map(|l| pos[*l].contains_key(&a.id)).collect();
        if a.end.is_some() && there.iter().any(|t| !t) {
            return Err(format!("acknowledged append {} to lists {:?} is lost from {:?}", a.id, a.lists, there));
        }
        if there.iter().any(|t| *t) != there.iter().all(|t| *t) {
            return Err(format!("append {} to lists {:?} is torn: {:?}", a.id, a.lists, there));
        }
        if let Some(saw) = &a.saw {
            let l = a.lists[0];
            if saw.last() != Some(&a.id) {
                return Err(format!("request appending {} to list {} read it without its own append at the end: {:?}", a.id, l, tail(saw)));
            }
            if saw.len() > fin[l].len() || saw[..] != fin[l][..saw.len()] {
                return Err(format!("request appending {} saw list {} in a state it was never in: ...{:?}", a.id, l, tail(saw)));
            }
        }
    }
    for r in reads {
        let f = &fin[r.list];
        if r.saw.len() > f.len() || r.saw[..] != f[..r.saw.len()] {
            return Err(format!("a read saw list {} in a state it was never in: ...{:?}", r.list, tail(&r.saw)));
        }
    }
    // appends to several lists are in the same order on all of them
    for a in 0..fin.len() {
        for b in a + 1..fin.len() {
            let ab: Vec<i64> = fin[a].iter().filter(|x| pos[b].contains_key(x)).cloned().collect();
            let ba: Vec<i64> = fin[b].iter().filter(|x| pos[a].contains_key(x)).cloned().collect();
            if ab != ba {
                return Err(format!("lists {} and {} hold the appends made to both in different orders", a, b));
            }
        }
    }
    // real time order: an append that ended before something started is seen by it
    for l in 0..fin.len() {
        // (time, position): things that ended, by end; things that started, by start
        let mut ends: Vec<(u64, usize, i64)> = vec![];
        let mut starts: Vec<(u64, usize, String)> = vec![];
        for a in appends.iter().filter(|a| a.lists.contains(&l)) {
            if let Some(p) = pos[l].get(&a.id) {
                if let Some(e) = a.end {
                    ends.push((e, *p + 1, a.id));
                }
                starts.push((a.start, *p, format!("append {}", a.id)));
            }
        }
        for r in reads.iter().filter(|r| r.list == l) {
            starts.push((r.start, r.saw.len(), format!("a read of {} elements", r.saw.len())));
            ends.push((r.end, r.saw.len(), -1));
        }
        ends.sort();
        starts.sort();
        let (mut i, mut most, mut who) = (0, 0, 0);
        for (t, p, what) in starts {
            while i < ends.len() && ends[i].0 < t {
                if ends[i].1 > most {
                    most = ends[i].1;
                    who = ends[i].2;
                }
                i += 1;
            }
            if p < most {
                return Err(format!("on list {}, {} comes before {} although it started after that was answered", l, what, if who < 0 { "what a read saw".to_string() } else { format!("append {}", who) }));
            }
        }
    }
    Ok(())
}

fn tail(xs: &[i64]) -> &[i64] {
    &xs[xs.len().saturating_sub(6)..]
}

#[cfg(test)]
mod tests {
    use super::*;
    use crate::model::{Resp, Val};

    fn ev(start: u64, end: u64, op: Op, a: Answer) -> Event {
        Event { start, end: Some(end), ops: vec![op], answer: Some(a) }
    }

    #[test]
    fn stale_read_is_found() {
        let set = |v| Op::Set("a".into(), Val::Int(v), None);
        let h = |read: i64, at: u64| {
            vec![
                ev(0, 10, set(1), Ok(Resp::Message)),
                ev(20, 30, set(2), Ok(Resp::Message)),
                ev(at, at + 20, Op::Get("a".into()), Ok(Resp::Value(Val::Int(read)))),
            ]
        };
        assert_eq!(linearizable(&Model::new(), &h(1, 25), 0, 10000), Verdict::Linearizable);
        assert_eq!(linearizable(&Model::new(), &h(2, 25), 0, 10000), Verdict::Linearizable);
        assert_eq!(linearizable(&Model::new(), &h(1, 35), 0, 10000), Verdict::NotLinearizable);
        assert_eq!(linearizable(&Model::new(), &h(2, 35), 0, 10000), Verdict::Linearizable);
    }

    #[test]
    fn append_anomalies_are_found() {
        let ap = |id, start, end: Option<u64>, saw: Vec<i64>| Append { start, end, id, lists: vec![0], saw: end.map(|_| saw) };
        let a = vec![ap(1, 0, Some(5), vec![1]), ap(2, 10, Some(15), vec![1, 2])];
        assert!(check_appends(&a, &[], &[vec![1, 2]]).is_ok());
        assert!(check_appends(&a, &[], &[vec![2, 1]]).is_err());
        assert!(check_appends(&a, &[], &[vec![1]]).is_err());
        assert!(check_appends(&a, &[], &[vec![1, 2, 2]]).is_err());
        let r = ListRead { start: 20, end: 30, list: 0, saw: vec![1] };
        assert!(check_appends(&a, &[r.clone()], &[vec![1, 2]]).is_err());
        assert!(check_appends(&a, &[ListRead { start: 12, ..r }], &[vec![1, 2]]).is_ok());
        let open = vec![ap(1, 0, Some(5), vec![1]), ap(2, 1, None, vec![])];
        assert!(check_appends(&open, &[], &[vec![1]]).is_ok());
        assert!(check_appends(&open, &[], &[vec![1, 2]]).is_ok());
    }
}
