//! C20: the value allocator against a plain set of free integers.
use crate::explore::*;
use crate::report::Ctx;
use mqtt_protocol_core::mqtt::common::ValueAllocator;
use std::collections::BTreeSet;

macro_rules! alloc_model {
    ($t:ty, $m:ident) => {
        pub mod $m {
            use super::*;
            #[derive(Clone)]
            pub struct S {
                a: ValueAllocator<$t>,
                free: BTreeSet<i128>,
                lo: i128,
                hi: i128,
                last: String,
            }
            /// free values are represented explicitly when the range is small, else as the complement
            /// of `used`
            pub struct M {
                pub lo: i128,
                pub hi: i128,
                /// values reserved / released individually
                pub vals: Vec<i128>,
                /// values queried in every state
                pub query: Vec<i128>,
            }
            #[derive(Clone, Copy, Debug)]
            pub enum A {
                Alloc,
                Use(i128),
                Free(i128),
                Clear,
            }
            fn runs(f: &BTreeSet<i128>) -> usize {
                let mut n = 0;
                let mut prev: Option<i128> = None;
                for x in f {
                    if prev.map(|p| p + 1 != *x).unwrap_or(true) {
                        n += 1;
                    }
                    prev = Some(*x);
                }
                n
            }
            impl M {
                pub fn check(&self, s: &S) -> Option<Bad> {
                    let fv = s.a.first_vacant().map(|x| x as i128);
                    let want = s.free.iter().next().copied();
                    if fv != want {
                        return Some(Bad::new("C20/first-vacant", format!("first_vacant() = {fv:?}, smallest free value is {want:?}")));
                    }
                    for q in &self.query {
                        let u = s.a.is_used(*q as $t);
                        let w = s.lo <= *q && *q <= s.hi && !s.free.contains(q);
                        if u != w {
                            return Some(Bad::new("C20/is-used", format!("is_used({q}) = {u}, expected {w} (range {}..={})", s.lo, s.hi)));
                        }
                        // reserving succeeds exactly for free values
                        let mut c = s.a.clone();
                        match guarded(|| {
                            let r = c.use_value(*q as $t);
                            (r, c.is_used(*q as $t))
                        }) {
                            Err(e) => return Some(Bad::new("C20/panic", format!("use_value({q}): {e}"))),
                            Ok((r, after)) => {
                                let w = s.free.contains(q);
                                if r != w {
                                    return Some(Bad::new("C20/use", format!("use_value({q}) = {r}, expected {w}")));
                                }
                                let inr = s.lo <= *q && *q <= s.hi;
                                if after != inr {
                                    return Some(Bad::new("C20/is-used", format!("after use_value({q}) is_used = {after}")));
                                }
                            }
                        }
                    }
                    let n = s.a.interval_count();
                    let w = runs(&s.free);
                    if n != w {
                        return Some(Bad::new("C20/intervals", format!("interval_count() = {n}, but the free set {} has {w} maximal runs", render(&s.free))));
                    }
                    #[cfg(feature = "hook")]
                    {
                        // the internal run list is sorted, disjoint and maximally merged
                        let d = format!("{:?}", s.a);
                        let mut want = String::new();
                        let mut it = s.free.iter().copied().peekable();
                        while let Some(l) = it.next() {
                            let mut h = l;
                            while it.peek() == Some(&(h + 1)) {
                                h = it.next().unwrap();
                            }
                            if !want.is_empty() {
                                want.push_str(", ");
                            }
                            want.push_str(&format!("ValueInterval {{ low: {l}, high: {h} }}"));
                        }
                        let want = format!("pool: {{{want}}}");
                        if d.contains("ValueAllocator { pool: {") && d.contains("lowest:") && (d.contains("ValueInterval { low:") || d.contains("pool: {}")) && !d.contains(&want) {
                            return Some(Bad::new("C20/runs", format!("internal representation {d} does not equal {want}")));
                        }
                    }
                    None
                }
            }
            pub fn render(f: &BTreeSet<i128>) -> String {
                if f.len() > 20 {
                    format!("({} values)", f.len())
                } else {
                    format!("{f:?}")
                }
            }
            impl Model for M {
                type S = S;
                type A = A;
                fn name(&self) -> String {
                    format!("C20:{} {}..={} values {:?}", stringify!($t), self.lo, self.hi, self.vals)
                }
                fn init(&self) -> S {
                    S { a: ValueAllocator::<$t>::new(self.lo as $t, self.hi as $t), free: (self.lo..=self.hi).collect(), lo: self.lo, hi: self.hi, last: String::new() }
                }
                fn actions(&self, _s: &S) -> Vec<A> {
                    let mut o = vec![A::Alloc, A::Clear];
                    for v in &self.vals {
                        o.push(A::Use(*v));
                        // releasing is defined for values of the range only
                        if self.lo <= *v && *v <= self.hi {
                            o.push(A::Free(*v));
                        }
                    }
                    o
                }
                fn step(&self, s: &S, a: &A) -> Out<S> {
                    let mut n = s.clone();
                    let r = guarded(|| match a {
                        A::Alloc => {
                            let g = n.a.allocate().map(|x| x as i128);
                            let w = n.free.iter().next().copied();
                            n.last = format!("{g:?}");
                            if g != w {
                                return Some(Bad::new("C20/allocate", format!("allocate() = {g:?}, smallest free value is {w:?}")));
                            }
                            if let Some(w) = w {
                                n.free.remove(&w);
                            }
                            None
                        }
                        A::Use(v) => {
                            let g = n.a.use_value(*v as $t);
                            let w = n.free.remove(v);
                            n.last = format!("{g}");
                            if g != w {
                                return Some(Bad::new("C20/use", format!("use_value({v}) = {g}, expected {w}")));
                            }
                            None
                        }
                        A::Free(v) => {
                            n.a.deallocate(*v as $t);
                            n.free.insert(*v);
                            n.last = String::new();
                            None
                        }
                        A::Clear => {
                            n.a.clear();
                            n.free = (n.lo..=n.hi).collect();
                            n.last = String::new();
                            None
                        }
                    });
                    match r {
                        Err(e) => return Out::Bad(Bad::new("C20/panic", format!("{a:?}: {e}"))),
                        Ok(Some(b)) => return Out::Bad(b),
                        Ok(None) => {}
                    }
                    match self.check(&n) {
                        Some(mut b) => {
                            b.msg = format!("after {a:?}: {}", b.msg);
                            Out::Bad(b)
                        }
                        None => Out::Next(n),
                    }
                }
                fn key(&self, s: &S) -> u128 {
                    #[cfg(feature = "hook")]
                    {
                        h128(&(format!("{:?}", s.a), &s.free))
                    }
                    #[cfg(not(feature = "hook"))]
                    {
                        h128(&(s.a.interval_count(), &s.free))
                    }
                }
                fn outcome(&self, s: &S) -> u64 {
                    h128(&(s.last.len(), s.a.interval_count())) as u64
                }
                fn explain(&self, s: &S) -> String {
                    format!("{} free={}", s.last, render(&s.free))
                }
            }
            /// every value in the range individually, plus out-of-range neighbours
            pub fn full(lo: i128, hi: i128) -> M {
                let mut q: Vec<i128> = (lo..=hi).collect();
                for x in [lo - 1, lo - 2, hi + 1, hi + 2, 0, 1, <$t>::MIN as i128, <$t>::MAX as i128] {
                    if x >= <$t>::MIN as i128 && x <= <$t>::MAX as i128 && !q.contains(&x) {
                        q.push(x);
                    }
                }
                let mut v = q.clone();
                v.retain(|x| *x >= lo - 1 && *x <= hi + 1);
                M { lo, hi, vals: v, query: q }
            }
        }
    };
}
alloc_model!(u8, m_u8);
alloc_model!(i8, m_i8);
alloc_model!(u16, m_u16);
alloc_model!(u32, m_u32);

/// The full ranges of u16/u32 identifiers (1..=MAX), with the free set kept as a complement.
mod big {
    use super::*;
    #[derive(Clone)]
    pub struct S {
        a: ValueAllocator<u32>,
        used: BTreeSet<u32>,
    }
    pub struct M {
        pub lo: u32,
        pub hi: u32,
        pub vals: Vec<u32>,
    }
    #[derive(Clone, Copy, Debug)]
    pub enum A {
        Alloc,
        Use(u32),
        Free(u32),
        Clear,
    }
    impl M {
        fn smallest(&self, used: &BTreeSet<u32>) -> Option<u32> {
            let mut x = self.lo as u64;
            while x <= self.hi as u64 && used.contains(&(x as u32)) {
                x += 1;
            }
            (x <= self.hi as u64).then_some(x as u32)
        }
        fn runs(&self, used: &BTreeSet<u32>) -> usize {
            let mut n = 0;
            let mut p = self.lo as u64; // next candidate free value
            for u in used {
                if p < *u as u64 {
                    n += 1;
                }
                p = *u as u64 + 1;
            }
            n + (p <= self.hi as u64) as usize
        }
    }
    impl Model for M {
        type S = S;
        type A = A;
        fn name(&self) -> String {
            format!("C20:u32 {}..={} values {:?}", self.lo, self.hi, self.vals)
        }
        fn init(&self) -> S {
            S { a: ValueAllocator::new(self.lo, self.hi), used: BTreeSet::new() }
        }
        fn actions(&self, _: &S) -> Vec<A> {
            let mut o = vec![A::Alloc, A::Clear];
            for v in &self.vals {
                o.push(A::Use(*v));
                if *v >= self.lo && *v <= self.hi {
                    o.push(A::Free(*v));
                }
            }
            o
        }
        fn step(&self, s: &S, a: &A) -> Out<S> {
            let mut n = s.clone();
            let r = guarded(|| {
                match a {
                    A::Alloc => {
                        let g = n.a.allocate();
                        let w = self.smallest(&n.used);
                        if g != w {
                            return Some(Bad::new("C20/allocate", format!("allocate() = {g:?}, expected {w:?}")));
                        }
                        if let Some(w) = w {
                            n.used.insert(w);
                        }
                    }
                    A::Use(v) => {
                        let g = n.a.use_value(*v);
                        let w = *v >= self.lo && *v <= self.hi && !n.used.contains(v);
                        if g != w {
                            return Some(Bad::new("C20/use", format!("use_value({v}) = {g}, expected {w}")));
                        }
                        if w {
                            n.used.insert(*v);
                        }
                    }
                    A::Free(v) => {
                        n.a.deallocate(*v);
                        n.used.remove(v);
                    }
                    A::Clear => {
                        n.a.clear();
                        n.used.clear();
                    }
                }
                for v in &self.vals {
                    let g = n.a.is_used(*v);
                    let w = n.used.contains(v);
                    if g != w {
                        return Some(Bad::new("C20/is-used", format!("is_used({v}) = {g}, expected {w}")));
                    }
                }
                let g = n.a.first_vacant();
                let w = self.smallest(&n.used);
                if g != w {
                    return Some(Bad::new("C20/first-vacant", format!("first_vacant() = {g:?}, expected {w:?}")));
                }
                let (g, w) = (n.a.interval_count(), self.runs(&n.used));
                if g != w {
                    return Some(Bad::new("C20/intervals", format!("interval_count() = {g}, expected {w} (used {:?})", n.used)));
                }
                None
            });
            match r {
                Err(e) => Out::Bad(Bad::new("C20/panic", format!("{a:?}: {e}"))),
                Ok(Some(mut b)) => {
                    b.msg = format!("after {a:?}: {}", b.msg);
                    Out::Bad(b)
                }
                Ok(None) => Out::Next(n),
            }
        }
        fn key(&self, s: &S) -> u128 {
            #[cfg(feature = "hook")]
            {
                h128(&(format!("{:?}", s.a), &s.used))
            }
            #[cfg(not(feature = "hook"))]
            {
                h128(&(s.a.interval_count(), &s.used))
            }
        }
        fn explain(&self, s: &S) -> String {
            format!("used {:?}", s.used)
        }
    }
}

/// Exhaust, drain and refill the full range of `u8` and `u16` in every one of a set of orders.
fn sweeps(ctx: &mut Ctx, quick: bool) {
    // all u8 bounds: construct, exhaust by allocate, release in two orders, check run count each step
    let n = 256 * 256;
    enumerate(ctx, "C20:u8 every (low, high), allocate to exhaustion, release up/down/stride", n * 3, |i| {
        let (lo, hi, ord) = ((i / 3 / 256) as u32, (i / 3 % 256) as u32, i % 3);
        if lo > hi || (quick && (hi - lo) > 24 && !(lo < 2 && hi > 250)) {
            return Ok(0);
        }
        let r = guarded(|| -> Result<u64, Bad> {
            let mut a = ValueAllocator::<u8>::new(lo as u8, hi as u8);
            let mut free = vec![true; 256];
            let n = hi - lo + 1;
            for k in 0..n {
                let g = a.allocate();
                if g != Some((lo + k) as u8) {
                    return Err(Bad::new("C20/allocate", format!("u8 {lo}..={hi}: allocation {k} returned {g:?}")));
                }
                free[(lo + k) as usize] = false;
                let want = (lo + k < hi) as usize;
                if a.interval_count() != want {
                    return Err(Bad::new("C20/intervals", format!("u8 {lo}..={hi}: interval_count {} after {} allocations", a.interval_count(), k + 1)));
                }
            }
            if a.allocate().is_some() || a.first_vacant().is_some() {
                return Err(Bad::new("C20/allocate", format!("u8 {lo}..={hi}: value handed out although none is free")));
            }
            let order: Vec<u32> = match ord {
                0 => (lo..=hi).collect(),
                1 => (lo..=hi).rev().collect(),
                _ => (lo..=hi).step_by(2).chain((lo..=hi).skip(1).step_by(2)).collect(),
            };
            for v in order {
                a.deallocate(v as u8);
                free[v as usize] = true;
                let mut runs = 0;
                for x in lo..=hi {
                    if free[x as usize] && (x == lo || !free[x as usize - 1]) {
                        runs += 1;
                    }
                }
                if a.interval_count() != runs {
                    return Err(Bad::new("C20/intervals", format!("u8 {lo}..={hi}: interval_count {} after releasing {v}, expected {runs}", a.interval_count())));
                }
                let f = (lo..=hi).find(|x| free[*x as usize]).map(|x| x as u8);
                if a.first_vacant() != f {
                    return Err(Bad::new("C20/first-vacant", format!("u8 {lo}..={hi}: first_vacant {:?}, expected {f:?}", a.first_vacant())));
                }
            }
            for x in 0..256u32 {
                if a.is_used(x as u8) {
                    return Err(Bad::new("C20/is-used", format!("u8 {lo}..={hi}: is_used({x}) after releasing everything")));
                }
            }
            Ok(1)
        });
        match r {
            Ok(x) => x,
            Err(e) => Err(Bad::new("C20/panic", format!("u8 {lo}..={hi}: {e}"))),
        }
    });
    // u16 identifiers: full exhaustion
    enumerate(ctx, "C20:u16 1..=65535 exhaustion and release", 2, |i| {
        match guarded(|| -> Result<u64, Bad> {
            let mut a = ValueAllocator::<u16>::new(1, u16::MAX);
            for k in 1..=u16::MAX {
                if a.allocate() != Some(k) {
                    return Err(Bad::new("C20/allocate", format!("u16: allocation of {k}")));
                }
            }
            if a.allocate().is_some() || a.is_used(0) {
                return Err(Bad::new("C20/allocate", "u16: exhausted allocator".to_string()));
            }
            let order: Box<dyn Iterator<Item = u16>> = if i == 0 { Box::new(1..=u16::MAX) } else { Box::new((1..=u16::MAX).rev()) };
            for v in order {
                a.deallocate(v);
                if a.interval_count() != 1 || a.is_used(v) {
                    return Err(Bad::new("C20/intervals", format!("u16: after releasing {v}")));
                }
            }
            Ok(i as u64)
        }) {
            Ok(x) => x,
            Err(e) => Err(Bad::new("C20/panic", e)),
        }
    });
}

/// Free sets with many runs: three blocks, each in one of six patterns, built in three ways (every
/// step checked); from each of them every reserve, release and allocate is made and the result
/// compared in full.
fn fragmented(ctx: &mut Ctx, w: usize) {
    const PAT: usize = 6;
    let n = 3 * w;
    let free_at = |pats: usize, i: usize| -> bool {
        let (p, j) = (pats / PAT.pow((i / w) as u32) % PAT, i % w);
        match p {
            0 => true,
            1 => false,
            2 => j % 2 == 0,
            3 => j % 2 == 1,
            4 => j % 3 != 2,
            _ => j != w / 2,
        }
    };
    macro_rules! go {
        ($t:ident, $lo:expr) => {{
            let lo: i128 = $lo;
            let hi = lo + n as i128 - 1;
            let v = |i: usize| (lo + i as i128) as $t;
            // compares everything observable with the free set `f`
            let check = |a: &ValueAllocator<$t>, f: &[bool], all: bool| -> Option<Bad> {
                let runs = (0..n).filter(|i| f[*i] && (*i == 0 || !f[*i - 1])).count();
                if a.interval_count() != runs {
                    return Some(Bad::new("C20/intervals", format!("interval_count() = {}, but the free set has {runs} maximal runs", a.interval_count())));
                }
                let first = f.iter().position(|x| *x).map(v);
                if a.first_vacant() != first {
                    return Some(Bad::new("C20/first-vacant", format!("first_vacant() = {:?}, expected {first:?}", a.first_vacant())));
                }
                if !all {
                    return None;
                }
                for i in 0..n {
                    if a.is_used(v(i)) == f[i] {
                        return Some(Bad::new("C20/is-used", format!("is_used({}) = {}", v(i), f[i])));
                    }
                }
                #[cfg(feature = "hook")]
                {
                    let d = format!("{a:?}");
                    let mut want = vec![];
                    let mut i = 0;
                    while i < n {
                        if f[i] {
                            let s = i;
                            while i + 1 < n && f[i + 1] {
                                i += 1;
                            }
                            want.push(format!("ValueInterval {{ low: {}, high: {} }}", v(s), v(i)));
                        }
                        i += 1;
                    }
                    let want = format!("pool: {{{}}}", want.join(", "));
                    if d.contains("ValueAllocator { pool: {") && d.contains("lowest:") && (d.contains("ValueInterval { low:") || d.contains("pool: {}")) && !d.contains(&want) {
                        return Some(Bad::new("C20/runs", format!("internal representation {d} does not equal {want}")));
                    }
                }
                None
            };
            enumerate(ctx, &format!("C20:fragmented {} {lo}..={hi} (up to {} runs)", stringify!($t), n / 2), PAT.pow(3) * 3, |i| {
                let (pats, how) = (i / 3, i % 3);
                let r = guarded(|| -> Result<u64, Bad> {
                    let mut a = ValueAllocator::<$t>::new(lo as $t, hi as $t);
                    let mut f = vec![true; n];
                    let ctxt = |what: String, f: &[bool], b: Bad| Bad::new(b.sig, format!("{what}: {}; free set before: {}", b.msg, f.iter().map(|x| if *x { 'f' } else { 'u' }).collect::<String>()));
                    // 0: reserve what is used; 1/2: allocate everything, then release what is free, upwards/downwards
                    let order: Vec<usize> = if how == 2 { (0..n).rev().collect() } else { (0..n).collect() };
                    if how > 0 {
                        for k in 0..n {
                            if a.allocate() != Some(v(k)) {
                                return Err(Bad::new("C20/allocate", format!("allocation {k} of {lo}..={hi}")));
                            }
                        }
                        f = vec![false; n];
                    }
                    for k in order {
                        let before = f.clone();
                        if how == 0 && !free_at(pats, k) {
                            if !a.use_value(v(k)) {
                                return Err(ctxt(format!("use_value({})", v(k)), &before, Bad::new("C20/use", "false for a free value")));
                            }
                            f[k] = false;
                        } else if how > 0 && free_at(pats, k) {
                            a.deallocate(v(k));
                            f[k] = true;
                        } else {
                            continue;
                        }
                        if let Some(b) = check(&a, &f, false) {
                            return Err(ctxt(format!("{} {}", if how == 0 { "use_value" } else { "deallocate" }, v(k)), &before, b));
                        }
                    }
                    if let Some(b) = check(&a, &f, true) {
                        return Err(ctxt("construction".into(), &f, b));
                    }
                    for k in 0..n {
                        let mut c = a.clone();
                        let mut g = f.clone();
                        let r = c.use_value(v(k));
                        if r != f[k] {
                            return Err(ctxt(format!("use_value({})", v(k)), &f, Bad::new("C20/use", format!("returned {r}"))));
                        }
                        g[k] = false;
                        if let Some(b) = check(&c, &g, true) {
                            return Err(ctxt(format!("use_value({})", v(k)), &f, b));
                        }
                        let mut c = a.clone();
                        c.deallocate(v(k));
                        g[k] = true;
                        if let Some(b) = check(&c, &g, true) {
                            return Err(ctxt(format!("deallocate({})", v(k)), &f, b));
                        }
                    }
                    let mut g = f.clone();
                    while let Some(k) = g.iter().position(|x| *x) {
                        let x = a.allocate();
                        if x != Some(v(k)) {
                            return Err(ctxt("allocate".into(), &g, Bad::new("C20/allocate", format!("returned {x:?}, expected {}", v(k)))));
                        }
                        let before = g.clone();
                        g[k] = false;
                        if let Some(b) = check(&a, &g, false) {
                            return Err(ctxt("allocate".into(), &before, b));
                        }
                    }
                    if let Some(x) = a.allocate() {
                        return Err(Bad::new("C20/allocate", format!("{x} handed out although none is free")));
                    }
                    a.clear();
                    if let Some(b) = check(&a, &vec![true; n], true) {
                        return Err(ctxt("clear".into(), &g, b));
                    }
                    Ok(pats as u64)
                });
                match r {
                    Ok(x) => x,
                    Err(e) => Err(Bad::new("C20/panic", format!("fragmented {lo}..={hi} pattern {pats} way {how}: {e}"))),
                }
            });
        }};
    }
    go!(u16, 1);
    go!(u16, 65_536 - n as i128);
    go!(u32, 1);
    go!(u32, (1i128 << 32) - n as i128);
    if n <= 128 {
        go!(u8, 0);
        go!(u8, 256 - n as i128);
        go!(i8, -128);
        go!(i8, -(n as i128) / 2);
    }
    go!(u64, (1i128 << 64) - n as i128);
    go!(i64, (1i128 << 63) - n as i128);
}

pub fn run(ctx: &mut Ctx) {
    let quick = ctx.quick();
    let k = if quick { 11 } else { 15 };
    let lim = Limits { depth: 1000, states: 20_000_000, min_depth: 0, secs: 0.0 };
    // every run of BFS below ends in a fixpoint: all reachable free sets
    for n in 1..=k {
        bfs(ctx, &m_u8::full(0, n - 1), &lim);
    }
    for n in [1, 2, 5, k] {
        bfs(ctx, &m_u8::full(1, n), &lim);
        bfs(ctx, &m_u8::full(256 - n, 255), &lim);
        bfs(ctx, &m_i8::full(-3, n - 4), &lim);
        bfs(ctx, &m_i8::full(-128, -129 + n), &lim);
        bfs(ctx, &m_i8::full(128 - n, 127), &lim);
        bfs(ctx, &m_u16::full(1, n), &lim);
        bfs(ctx, &m_u16::full(65536 - n, 65535), &lim);
        bfs(ctx, &m_u32::full(1, n), &lim);
        bfs(ctx, &m_u32::full((1i128 << 32) - n, (1i128 << 32) - 1), &lim);
    }
    let l2 = Limits { depth: if quick { 9 } else { 12 }, states: 20_000_000, min_depth: 0, secs: 0.0 };
    for (lo, hi) in [(1u32, u32::MAX), (0, u32::MAX), (1, 65535), (1, 255)] {
        let vals: Vec<u32> = [0, 1, 2, 3, 5, hi / 2, hi / 2 + 1, hi - 2, hi - 1, hi, hi.saturating_add(1)].into_iter().collect::<BTreeSet<_>>().into_iter().collect();
        bfs(ctx, &big::M { lo, hi, vals }, &l2);
    }
    sweeps(ctx, quick);
    fragmented(ctx, 14);
    fragmented(ctx, if quick { 42 } else { 200 });
    ctx.bounds.push(format!("all operation sequences (fixpoint) over ranges of up to {k} consecutive values at the bottom, inside and top of u8/i8/u16/u32"));
    ctx.bounds.push(format!("all sequences to depth {} over 11 boundary values of the ranges 1..=2^32-1, 0..=2^32-1, 1..=65535, 1..=255", l2.depth));
    ctx.bounds.push("fragmented free sets: three blocks of 14 and 42 (thorough 200) values x six patterns, built in three ways, up to 63 (300) runs; every single operation from each of them, over the bottom and top of u8/i8/u16/u32/u64/i64".into());
    ctx.bounds.push("allocate to exhaustion and release in three orders for every u8 range; u16 full range".into());
}
