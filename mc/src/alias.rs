//! The topic alias tables of both directions against plain maps: every operation sequence up to a
//! length over small topic/alias alphabets, all queries after every sequence.
use crate::explore::*;
use crate::report::Ctx;
use mqtt_protocol_core::mqtt::packet::{TopicAliasRecv, TopicAliasSend};
use std::collections::BTreeMap;

const TOPICS: [&str; 3] = ["a", "b/c", "a-topic-name-longer-than-an-inline-buffer-of-forty-eight-bytes"];

#[derive(Clone, Copy, Debug)]
enum Op {
    Put(usize, u16),
    Get(u16),
    Clear,
}

fn ops(max: u16) -> Vec<Op> {
    let mut o = vec![Op::Clear];
    for a in 1..=max {
        for t in 0..TOPICS.len() {
            o.push(Op::Put(t, a));
        }
        o.push(Op::Get(a));
    }
    o.push(Op::Get(0));
    o.push(Op::Get(max + 1));
    o
}

/// alias -> topic, and the aliases in the order of their last use
#[derive(Default)]
struct Ref {
    bound: BTreeMap<u16, &'static str>,
    order: Vec<u16>,
}
impl Ref {
    fn touch(&mut self, a: u16) {
        self.order.retain(|x| *x != a);
        self.order.push(a);
    }
}

fn one(seq: &[Op], max: u16) -> Result<u64, Bad> {
    let bad = |sig: &str, m: String| Err(Bad::new(format!("C13/table-{sig}"), format!("maximum {max}, {seq:?}: {m}")));
    let mut s = TopicAliasSend::new(max);
    let mut v = TopicAliasRecv::new(max);
    let mut r = Ref::default();
    let mut rr: BTreeMap<u16, &'static str> = BTreeMap::new();
    for o in seq {
        match *o {
            Op::Put(t, a) => {
                s.insert_or_update(TOPICS[t], a);
                v.insert_or_update(TOPICS[t], a);
                r.bound.insert(a, TOPICS[t]);
                r.touch(a);
                rr.insert(a, TOPICS[t]);
            }
            Op::Get(a) => {
                let (g, w) = (s.get(a).map(|x| x.to_string()), r.bound.get(&a).map(|x| x.to_string()));
                if g != w {
                    return bad("get", format!("get({a}) = {g:?}, bound is {w:?}"));
                }
                if w.is_some() {
                    r.touch(a);
                }
                let (g, w) = (v.get(a), rr.get(&a).copied());
                if g != w {
                    return bad("recv-get", format!("receiver get({a}) = {g:?}, bound is {w:?}"));
                }
            }
            Op::Clear => {
                s.clear();
                v.clear();
                r = Ref::default();
                rr.clear();
            }
        }
    }
    for a in 0..=max + 1 {
        let (g, w) = (s.peek(a), r.bound.get(&a).copied());
        if g != w {
            return bad("peek", format!("then peek({a}) = {g:?}, bound is {w:?}"));
        }
        let (g, w) = (v.peek(a), rr.get(&a).copied());
        if g != w {
            return bad("recv-peek", format!("then receiver peek({a}) = {g:?}, bound is {w:?}"));
        }
    }
    let mut out = 0u64;
    for t in TOPICS {
        let f = s.find_by_topic(t);
        let any = r.bound.values().any(|x| *x == t);
        match f {
            Some(a) if r.bound.get(&a) != Some(&t) => return bad("find", format!("then find_by_topic({t}) = {a}, bound to {:?}", r.bound.get(&a))),
            None if any => return bad("find", format!("then find_by_topic({t}) finds nothing")),
            _ => {}
        }
        out = out * 5 + f.unwrap_or(0) as u64;
    }
    if max > 0 {
        let l = s.get_lru_alias();
        let want = (1..=max).find(|a| !r.bound.contains_key(a)).unwrap_or_else(|| r.order[0]);
        if l != want {
            return bad("lru", format!("then the alias to (re)use is {l}, expected {want}"));
        }
        out = out * 5 + l as u64;
    }
    if s.max() != max || v.max() != max {
        return bad("max", "max() differs from the maximum given".into());
    }
    Ok(out)
}

pub fn run(ctx: &mut Ctx) {
    for (max, len) in if ctx.quick() { [(1u16, 6usize), (2, 5), (3, 4)] } else { [(1, 8), (2, 7), (3, 6)] } {
        let al = ops(max);
        let k = al.len();
        let n: usize = (0..=len).map(|l| k.pow(l as u32)).sum();
        enumerate(ctx, &format!("C13: alias tables, maximum {max}, every sequence of {k} operations up to {len}"), n, |mut i| {
            let mut l = 0;
            while i >= k.pow(l) {
                i -= k.pow(l);
                l += 1;
            }
            let seq: Vec<Op> = (0..l).map(|j| al[i / k.pow(j) % k]).collect();
            match guarded(|| one(&seq, max)) {
                Ok(r) => r,
                Err(e) => Err(Bad::new("C13/table-panic", format!("maximum {max}, {seq:?}: panic {e}"))),
            }
        });
    }
}
