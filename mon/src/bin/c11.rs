//! C11: push pipelines compute what the equivalent list operations compute.
//! Random compositions are built from the library's adapters and reducers behind boxes, so that every
//! shape and depth of composition occurs; a trace records what reaches each user function.
use matchit::fromgenerator::{FromAdaptFn, FromAdaptFnCall};
use matchit::generator::adapter::{AdaptFnTrait, Adapter, AdapterTrait, Filter, Map, NilAdapter};
use matchit::generator::generator::Generator;
use matchit::generator::groupby::{GroupBy, Merge};
use matchit::generator::reducer::{Fork, Reducer, ReducerTrait, Split};
use mon::hints;
use mon::ensure;
use mon::rng::{fnv, Rng};
use mon::rt::*;
use std::cell::RefCell;
use std::collections::{BTreeMap, VecDeque};
use std::ops::ControlFlow;
use std::rc::Rc;

type V = (i64, i64);
type Flow = ControlFlow<(), Option<V>>;

trait Stage {
    fn a(&mut self, v: V) -> Flow;
    fn f(&mut self) -> Flow;
}
struct Wrap<A>(A);
impl<A: AdapterTrait<Input = V, Output = V>> Stage for Wrap<A> {
    fn a(&mut self, v: V) -> Flow {
        self.0.adapt(v)
    }
    fn f(&mut self) -> Flow {
        self.0.finalize()
    }
}
struct Dyn(Box<dyn Stage>);
fn dy<A: AdapterTrait<Input = V, Output = V> + 'static>(a: A) -> Dyn {
    Dyn(Box::new(Wrap(a)))
}
impl AdapterTrait for Dyn {
    type Input = V;
    type Output = V;
    fn adapt(&mut self, v: V) -> Flow {
        self.0.a(v)
    }
    fn finalize(&mut self) -> Flow {
        self.0.f()
    }
}

#[derive(Debug, Clone, PartialEq)]
enum Val {
    N(i64),
    L(Vec<V>),
    F(Box<Val>, Box<Val>),
    S(BTreeMap<i64, Val>),
}
trait Red {
    fn n(&mut self, v: V);
    fn f(self: Box<Self>) -> Val;
}
struct WrapR<R, F>(R, F);
impl<R: ReducerTrait<Input = V>, F: Fn(R::Reduced) -> Val> Red for WrapR<R, F> {
    fn n(&mut self, v: V) {
        self.0.next(v)
    }
    fn f(self: Box<Self>) -> Val {
        (self.1)(self.0.finalize())
    }
}
struct DynR(Box<dyn Red>);
fn dr<R: ReducerTrait<Input = V> + 'static>(r: R, f: impl Fn(R::Reduced) -> Val + 'static) -> DynR {
    DynR(Box::new(WrapR(r, f)))
}
impl ReducerTrait for DynR {
    type Input = V;
    type Reduced = Val;
    fn next(&mut self, v: V) {
        self.0.n(v)
    }
    fn finalize(self) -> Val {
        self.0.f()
    }
}

// ---- descriptions of pipelines

#[derive(Debug, Clone)]
enum St {
    Map(u8, i64),
    Filter(u8, i64),
    /// relation, then the pair folded into a value
    Group(u8, i64),
    /// normalise to keys modulo k, then combine equal keys
    Merge(i64),
}
#[derive(Debug, Clone)]
enum Rd {
    Count,
    Sum,
    Fold(u8),
    Collect,
    Fork(Box<Pipe>, Box<Pipe>),
    Split(u8, i64, Box<Pipe>),
}
#[derive(Debug, Clone)]
struct Pipe {
    id: u64,
    st: Vec<St>,
    rd: Rd,
}

fn map(k: u8, p: i64, v: V) -> V {
    match k {
        0 => (v.0.wrapping_add(p), v.1),
        1 => (v.1, v.0),
        2 => (v.0.wrapping_mul(p), v.1 ^ 1),
        3 => (v.0 / 2, v.1.wrapping_add(v.0)),
        _ => v,
    }
}
fn keep(k: u8, p: i64, v: &V) -> bool {
    match k {
        0 => v.0 % 2 == 0,
        1 => v.0 > p,
        2 => v.1.rem_euclid(p.abs() + 1) != 0,
        3 => false,
        _ => true,
    }
}
fn rel(k: u8, p: i64, a: &V, b: &V) -> bool {
    match k {
        0 => b.0 >= a.0,
        1 => b.0 > a.0,
        2 => b.0 != a.0,
        3 => b.0.wrapping_sub(a.0).wrapping_abs() <= p.abs(),
        4 => b.0.rem_euclid(p.abs() + 1) == a.0.rem_euclid(p.abs() + 1),
        5 => false,
        _ => true,
    }
}
fn pair(r: &(V, V)) -> V {
    (r.0 .0.wrapping_sub(r.1 .0), r.0 .1.wrapping_add(r.1 .1.wrapping_mul(3)))
}
fn foldf(k: u8, acc: i64, v: V) -> i64 {
    match k {
        0 => acc.wrapping_mul(31).wrapping_add(v.0),
        1 => acc.max(v.0),
        _ => acc.wrapping_mul(7).wrapping_sub(v.1),
    }
}
fn keyf(k: u8, p: i64, v: &V) -> i64 {
    match k {
        0 => v.0.rem_euclid(p.abs() + 1),
        1 => v.1,
        _ => v.0 / (p.abs() + 1),
    }
}

fn gen_pipe(r: &mut Rng, depth: usize, ids: &mut u64) -> Pipe {
    *ids += 100;
    let id = *ids;
    let n = *r.pick(&[0, 0, 1, 1, 2, 3, 4]);
    let st = (0..n)
        .map(|_| {
            let p = r.below(9) as i64 - 2;
            match r.below(8) {
                0 | 1 => St::Map(r.below(5) as u8, p),
                2 | 3 => St::Filter(r.below(5) as u8, p),
                4..=6 => St::Group(r.below(7) as u8, p),
                _ => St::Merge(r.range(1, 6) as i64),
            }
        })
        .collect();
    let rd = match r.below(if depth == 0 { 5 } else { 10 }) {
        0 => Rd::Count,
        1 => Rd::Sum,
        2 => Rd::Fold(r.below(3) as u8),
        3 | 4 => Rd::Collect,
        5..=7 => Rd::Fork(Box::new(gen_pipe(r, depth - 1, ids)), Box::new(gen_pipe(r, depth - 1, ids))),
        _ => Rd::Split(r.below(3) as u8, r.below(4) as i64, Box::new(gen_pipe(r, depth - 1, ids))),
    };
    Pipe { id, st, rd }
}

// ---- built from the library

/// (function, split instance, value) in the order in which they are called
type Trace = Rc<RefCell<BTreeMap<(u64, Vec<i64>), Vec<V>>>>;
#[derive(Clone)]
struct Tr {
    t: Trace,
    path: Vec<i64>,
}
impl Tr {
    fn hit(&self, id: u64, v: V) {
        self.t.borrow_mut().entry((id, self.path.clone())).or_default().push(v)
    }
}

fn build(p: &Pipe, t: Tr) -> DynR {
    // the first stage starts a pipeline, the others extend it
    let mut a: Option<Dyn> = None;
    for (i, s) in p.st.iter().enumerate() {
        let id = p.id + i as u64;
        let t = t.clone();
        a = Some(match s.clone() {
            St::Map(k, q) => {
                let f = move |v: &V| {
                    t.hit(id, *v);
                    map(k, q, *v)
                };
                match a {
                    None => dy(Generator::map(f)),
                    Some(a) => dy(a.map(f)),
                }
            }
            St::Filter(k, q) => {
                let f = move |v: &V| {
                    t.hit(id, *v);
                    keep(k, q, v)
                };
                match a {
                    None => dy(Generator::filter(f)),
                    Some(a) => dy(a.filter(f)),
                }
            }
            St::Group(k, q) => {
                let f = move |a: &V, b: &V| rel(k, q, a, b);
                match a {
                    None => dy(Generator::groupby(f).map(pair)),
                    Some(a) => dy(a.groupby(f).map(pair)),
                }
            }
            St::Merge(k) => {
                let norm = move |v: &V| (v.0.rem_euclid(k), v.1);
                let f = |a: &V, b: &V| (a.0 == b.0).then(|| (a.0, a.1.wrapping_add(b.1)));
                match a {
                    None => dy(Generator::map(norm).merge(f, |v: &V| v.0)),
                    Some(a) => dy(a.map(norm).merge(f, |v: &V| v.0)),
                }
            }
        });
    }
    let id = p.id + 50;
    match (&p.rd, a) {
        (Rd::Count, None) => dr(Generator::<V>::count(), |n| Val::N(n as i64)),
        (Rd::Count, Some(a)) => dr(a.map(|v| *v).count(), |n| Val::N(n as i64)),
        (Rd::Sum, None) => dr(Generator::map(|v: &V| v.0 as u32 as usize).sum(), |n| Val::N(n as i64)),
        (Rd::Sum, Some(a)) => dr(a.map(|v: &V| v.0 as u32 as usize).sum(), |n| Val::N(n as i64)),
        (Rd::Fold(k), a) => {
            let k = *k;
            let f = move |acc: i64, v: V| {
                t.hit(id, v);
                foldf(k, acc, v)
            };
            match a {
                None => dr(Generator::fold(1i64, f), Val::N),
                Some(a) => dr(a.fold(1i64, f), Val::N),
            }
        }
        (Rd::Collect, None) => dr(Generator::filter(|_: &V| true).collect(), Val::L),
        (Rd::Collect, Some(a)) => dr(a.map(|v| *v).collect(), Val::L),
        (Rd::Fork(x, y), a) => {
            let (x, y) = (build(x, t.clone()), build(y, t));
            let f = |r: (Val, Val)| Val::F(Box::new(r.0), Box::new(r.1));
            match a {
                None => dr(Generator::fork(x, y), f),
                Some(a) if p.id % 200 == 0 => dr(a.fork(x, y), f),
                Some(a) => dr(Reducer::new(Fork::new(x, y), a), f),
            }
        }
        (Rd::Split(k, q, inner), a) => {
            let (k, q) = (*k, *q);
            let inner = inner.clone();
            let keyfn = move |v: &V| {
                keyf(k, q, v)
            };
            let redfn = move |key: &i64| {
                let mut t = t.clone();
                t.path.push(*key);
                build(&inner, t)
            };
            match a {
                None => dr(Generator::split(keyfn, redfn), Val::S),
                Some(a) if p.id % 200 == 0 => dr(a.split(keyfn, redfn), Val::S),
                Some(a) => dr(Reducer::new(Split::new(keyfn, redfn), a), Val::S),
            }
        }
    }
}

// ---- the same on lists

fn group(v: &[V], r: impl Fn(&V, &V) -> bool) -> Vec<(V, V)> {
    let mut o = vec![];
    let mut i = 0;
    while i < v.len() {
        let mut j = i;
        while j + 1 < v.len() && r(&v[j], &v[j + 1]) {
            j += 1;
        }
        if j > i || r(&v[i], &v[i]) {
            o.push((v[i], v[j]));
        }
        i = j + 1;
    }
    o
}

/// what the operations give for the list; of a list that is not complete, what is certain by then
fn list(p: &Pipe, input: &[V], t: &Tr, complete: bool) -> Val {
    let mut v = input.to_vec();
    for (i, s) in p.st.iter().enumerate() {
        let id = p.id + i as u64;
        if matches!(s, St::Map(..) | St::Filter(..)) {
            v.iter().for_each(|x| t.hit(id, *x));
        }
        v = match s {
            St::Map(k, q) => v.into_iter().map(|x| map(*k, *q, x)).collect(),
            St::Filter(k, q) => v.into_iter().filter(|x| keep(*k, *q, x)).collect(),
            St::Group(k, q) => {
                if !complete {
                    // the last run may go on
                    let r = |a: &V, b: &V| rel(*k, *q, a, b);
                    let open = v.windows(2).rposition(|w| !r(&w[0], &w[1])).map_or(0, |i| i + 1);
                    v.truncate(open);
                }
                group(&v, |a, b| rel(*k, *q, a, b)).iter().map(pair).collect()
            }
            // anything may still merge
            St::Merge(_) if !complete => vec![],
            St::Merge(k) => {
                let mut m: BTreeMap<i64, i64> = BTreeMap::new();
                for x in v {
                    let e = m.entry(x.0.rem_euclid(*k)).or_insert(0);
                    *e = e.wrapping_add(x.1);
                }
                m.into_iter().collect()
            }
        };
    }
    match &p.rd {
        Rd::Count => Val::N(v.len() as i64),
        Rd::Sum => Val::N(v.iter().fold(0usize, |a, x| a.wrapping_add(x.0 as u32 as usize)) as i64),
        Rd::Fold(k) => {
            v.iter().for_each(|x| t.hit(p.id + 50, *x));
            Val::N(v.iter().fold(1, |a, x| foldf(*k, a, *x)))
        }
        Rd::Collect => Val::L(v),
        Rd::Fork(x, y) => Val::F(Box::new(list(x, &v, t, complete)), Box::new(list(y, &v, t, complete))),
        Rd::Split(k, q, inner) => {
            let mut by: BTreeMap<i64, Vec<V>> = BTreeMap::new();
            for x in &v {
                by.entry(keyf(*k, *q, x)).or_default().push(*x);
            }
            Val::S(
                by.into_iter()
                    .map(|(k, x)| {
                        let mut t = t.clone();
                        t.path.push(k);
                        let r = list(inner, &x, &t, complete);
                        (k, r)
                    })
                    .collect(),
            )
        }
    }
}

fn values(r: &mut Rng) -> Vec<V> {
    let n = match r.below(10) {
        _ if r.below(400) == 0 => r.range(200, 2_500),
        0 => 0,
        1 => 1,
        2 => 2,
        3..=7 => r.below(20),
        _ => r.below(200),
    };
    let n = if r.hinted() && r.raw(60) == 0 { hints::size(r, 20_000).unwrap_or(n) } else { n };
    let span = *r.pick(&[2, 5, 20, 1_000_000]);
    (0..n).map(|i| (r.below(span) as i64 - span as i64 / 3, i as i64)).collect()
}

fn dynamic(c: &mut Case) -> Res {
    let mut ids = 0;
    let p = gen_pipe(&mut c.rng, 3, &mut ids);
    let v = values(&mut c.rng);
    c.note(format!("{:?} on {:?}", p, &v[..v.len().min(60)]));
    let tr = |()| Tr { t: Rc::new(RefCell::new(BTreeMap::new())), path: vec![] };
    let (t1, t2) = (tr(()), tr(()));
    let mut r = build(&p, t1.clone());
    let stop = c.rng.below(v.len() + 1);
    for (i, x) in v.iter().enumerate() {
        if i == stop {
            let t = tr(());
            list(&p, &v[..i], &t, false);
            let (a, b) = (t1.t.borrow(), t.t.borrow());
            ensure!(*a == *b, "after {} of the values, the stages have seen {:?} instead of {:?}", i, a, b);
            c.ev("traces compared before the end", 1);
        }
        r.next(*x);
    }
    let got = r.finalize();
    let want = list(&p, &v, &t2, true);
    ensure!(got == want, "pipeline result {:?} instead of {:?}", got, want);
    let (a, b) = (t1.t.borrow(), t2.t.borrow());
    if *a != *b {
        for (k, x) in b.iter() {
            let g = a.get(k);
            ensure!(g == Some(x), "stage {} of split path {:?} saw {:?} instead of {:?}", k.0, k.1, g, x);
        }
        return Err("a stage saw values that should not reach it".into());
    }
    let calls: usize = a.values().map(|x| x.len()).sum();
    c.ev("values fed", v.len());
    c.ev("calls of stages traced", calls);
    c.ev("stages", p.st.len());
    let shape: String = format!("{:?}", p).chars().filter(|x| x.is_alphabetic() || "[]()".contains(*x)).collect();
    c.seen("distinct pipeline shapes", fnv(shape.as_bytes()));
    c.judged((v.len() > 1 && calls > 0).then(|| fnv(format!("{:?}{:?}", p, v).as_bytes())));
    if v.len() > 2 && p.st.len() > 1 {
        c.sample(|| format!("{:?} on {:?} gives {:?}", p, v, got));
    }
    Ok(())
}

/// pipelines in the form users write them, without boxes, and pulled from iterators
fn fixed(c: &mut Case) -> Res {
    let v = values(&mut c.rng);
    c.note(format!("{:?}", v));
    let feed = |v: &[V], x: &mut dyn FnMut(V)| v.iter().for_each(|y| x(*y));
    let p = c.rng.below(5) as i64;
    let ge = |a: &V, b: &V| b.0 >= a.0;
    let runs: Vec<V> = group(&v, ge).iter().map(pair).collect();
    // nested splits and forks as in ripdlt
    let mut r = Generator::split(
        |x: &V| x.0.rem_euclid(3),
        |_| Generator::fork(Generator::groupby(ge).map(pair).split(|k: &V| k.0, |_| Generator::count()), Generator::<V>::count()),
    );
    feed(&v, &mut |x| r.next(x));
    let got = r.finalize();
    let mut by: BTreeMap<i64, Vec<V>> = BTreeMap::new();
    v.iter().for_each(|x| by.entry(x.0.rem_euclid(3)).or_default().push(*x));
    let want: BTreeMap<i64, (BTreeMap<i64, usize>, usize)> = by
        .iter()
        .map(|(k, w)| {
            let mut h = BTreeMap::new();
            group(w, ge).iter().map(pair).for_each(|x| *h.entry(x.0).or_insert(0) += 1);
            (*k, (h, w.len()))
        })
        .collect();
    ensure!(got == want, "split of fork of groups: {:?} instead of {:?}", got, want);
    // split pulled from an iterator
    let got = v.iter().copied().split(|x| x.0.rem_euclid(3), |_| Generator::map(|x: &V| x.1).filter(move |x: &i64| *x % 2 == 0).collect());
    let want: BTreeMap<i64, Vec<i64>> = by.iter().map(|(k, w)| (*k, w.iter().map(|x| x.1).filter(|x| x % 2 == 0).collect())).collect();
    ensure!(got == want, "split of an iterator: {:?} instead of {:?}", got, want);
    // reducers whose key is passed to their constructor
    let got = v.iter().copied().split(|x| x.0, |k| { let k = *k; Generator::fold(k, move |a: i64, x: V| a.wrapping_add(x.1).wrapping_add(k)) });
    let mut want: BTreeMap<i64, i64> = BTreeMap::new();
    v.iter().for_each(|x| { let e = want.entry(x.0).or_insert(x.0); *e = e.wrapping_add(x.1).wrapping_add(x.0) });
    ensure!(got == want, "split with keyed reducers: {:?} instead of {:?}", got, want);
    // held back values pass the later stages
    let mut r = Generator::groupby(ge).map(pair).groupby(ge).filter(move |r: &(V, V)| r.0 .0 != p).map(|r: &(V, V)| *r).collect();
    feed(&v, &mut |x| r.next(x));
    let want: Vec<(V, V)> = group(&runs, ge).into_iter().filter(|r| r.0 .0 != p).collect();
    let got = r.finalize();
    ensure!(got == want, "groups of groups: {:?} instead of {:?}", got, want);
    // merge, then group, then map, then split
    let mut r = Generator::map(|x: &V| (x.0.rem_euclid(9), 1i64))
        .merge(|a: &V, b: &V| (a.0 == b.0).then(|| (a.0, a.1 + b.1)), |v: &V| v.0)
        .groupby(|a: &V, b: &V| b.1 >= a.1)
        .map(pair)
        .split(|x: &V| x.1, |_| Generator::<V>::count());
    feed(&v, &mut |x| r.next(x));
    let mut m: BTreeMap<i64, i64> = BTreeMap::new();
    v.iter().for_each(|x| *m.entry(x.0.rem_euclid(9)).or_insert(0) += 1);
    let m: Vec<V> = m.into_iter().collect();
    let mut want: BTreeMap<i64, usize> = BTreeMap::new();
    group(&m, |a, b| b.1 >= a.1).iter().map(pair).for_each(|x| *want.entry(x.1).or_insert(0) += 1);
    let got = r.finalize();
    ensure!(got == want, "groups of merged values: {:?} instead of {:?}", got, want);
    // adapters pulled from iterators
    let got: Vec<V> = FromAdaptFn::new(Map::new(|x: &V| map(0, 3, *x)), v.iter().copied()).collect();
    ensure!(got == v.iter().map(|x| map(0, 3, *x)).collect::<Vec<_>>(), "map of an iterator: {:?}", got);
    let got: Vec<V> = FromAdaptFn::new(Filter::new(|x: &V| x.1 % 3 == 1), v.iter().copied()).collect();
    ensure!(got == v.iter().copied().filter(|x| x.1 % 3 == 1).collect::<Vec<_>>(), "filter of an iterator: {:?}", got);
    let got: Vec<V> = FromAdaptFn::new(Map::new(|r: &(V, V)| pair(r)), FromAdaptFn::new(GroupBy::new(ge), v.iter().copied())).collect();
    ensure!(got == runs, "groups of an iterator: {:?} instead of {:?}", got, runs);
    let got: Vec<V> = FromAdaptFn::new(Merge::new(|a: &V, b: &V| (a.0 == b.0).then(|| (a.0, a.1 + b.1)), |v: &V| v.0), v.iter().map(|x| (x.0.rem_euclid(9), 1))).collect();
    ensure!(got == m, "merge of an iterator: {:?} instead of {:?}", got, m);
    // count, sum, nothing
    let mut r = Generator::<V>::count();
    feed(&v, &mut |x| r.next(x));
    let n = r.finalize();
    ensure!(n == v.len(), "count of {} values is {}", v.len(), n);
    let mut r = Generator::<usize>::sum();
    v.iter().for_each(|x| r.next(x.1 as usize));
    let n = r.finalize();
    ensure!(n == v.iter().map(|x| x.1 as usize).sum::<usize>(), "sum is {}", n);
    let mut r: Reducer<_, NilAdapter<V>> = Generator::fold(String::new(), |mut s: String, x: V| {
        s.push_str(&x.1.to_string());
        s
    });
    feed(&v, &mut |x| r.next(x));
    let n = r.finalize();
    ensure!(n == v.iter().map(|x| x.1.to_string()).collect::<String>(), "fold gives {}", n);
    own(c, &v)?;
    c.ev("fixed pipelines", 12);
    c.ev("values fed", v.len() * 12);
    c.judged((v.len() > 1).then(|| fnv(format!("{:?}", v).as_bytes())));
    Ok(())
}

/// a stage as a user may write one: holds some values back until the end, and may have nothing to give in between
struct Hold {
    every: i64,
    gaps: u32,
    n: u32,
    held: VecDeque<V>,
}
impl Hold {
    fn new(every: i64, gaps: u32) -> Hold {
        Hold { every, gaps, n: 0, held: VecDeque::new() }
    }
    fn holds(&self, v: &V) -> bool {
        v.1.rem_euclid(self.every) == 0
    }
    fn of(every: i64, v: &[V]) -> Vec<V> {
        let h = Hold::new(every, 0);
        let (a, b): (Vec<V>, Vec<V>) = v.iter().partition(|x| h.holds(x));
        [b, a].concat()
    }
}
impl AdaptFnTrait for Hold {
    type Input = V;
    type Output = V;
    fn adapt(&mut self, v: V) -> Flow {
        if self.holds(&v) {
            self.held.push_back(v);
            return ControlFlow::Continue(None);
        }
        ControlFlow::Continue(Some(v))
    }
    fn finalize(&mut self) -> Flow {
        self.n += 1;
        if self.gaps > 0 && self.n % (self.gaps + 1) != 0 {
            return ControlFlow::Continue(None);
        }
        self.held.pop_front().map_or(ControlFlow::Break(()), |v| ControlFlow::Continue(Some(v)))
    }
}

/// the user's own stages, between those of the library, pushed and pulled
fn own(c: &mut Case, v: &[V]) -> Res {
    let kg = |c: &mut Case| (c.rng.range(1, 4) as i64, c.rng.below(4) as u32);
    let ((k1, g1), (k2, g2)) = (kg(c), kg(c));
    let ge = |a: &V, b: &V| b.0 >= a.0;
    let one = Hold::of(k1, v);
    let got: Vec<V> = FromAdaptFn::new(Hold::new(k1, g1), v.iter().copied()).collect();
    ensure!(got == one, "stage of the user ({} {}), of an iterator: {:?} instead of {:?}", k1, g1, got, one);
    let got: Vec<V> = FromAdaptFn::new(Map::new(|x: &V| (x.1, x.0)), FromAdaptFn::new(Hold::new(k1, g1), v.iter().copied())).collect();
    ensure!(got == one.iter().map(|x| (x.1, x.0)).collect::<Vec<_>>(), "map of a stage of the user ({} {}), of an iterator: {:?}", k1, g1, got);
    let mut r = Adapter::new(Hold::new(k1, g1), NilAdapter::new()).collect();
    v.iter().for_each(|x| r.next(*x));
    let got: Vec<V> = r.finalize();
    ensure!(got == one, "stage of the user ({} {}): {:?} instead of {:?}", k1, g1, got, one);
    // stages before, between and behind
    let add = |x: &V| (x.0, x.1.wrapping_add(1));
    let want = Hold::of(k2, &group(&Hold::of(k1, v), ge).iter().map(pair).map(|x| add(&x)).collect::<Vec<_>>());
    let a = Adapter::new(Hold::new(k1, g1), NilAdapter::new()).groupby(ge).map(pair).map(add);
    let mut r = Adapter::new(Hold::new(k2, g2), a).collect();
    v.iter().for_each(|x| r.next(*x));
    let got: Vec<V> = r.finalize();
    ensure!(got == want, "groups between stages of the user ({} {}, {} {}): {:?} instead of {:?}", k1, g1, k2, g2, got, want);
    let runs: Vec<V> = group(v, ge).iter().map(pair).collect();
    let mut r = Adapter::new(Hold::new(k2, g2), Generator::groupby(ge).map(pair)).fork(Generator::map(|x: &V| *x).collect(), Generator::<V>::count());
    v.iter().for_each(|x| r.next(*x));
    let (all, n): (Vec<V>, usize) = r.finalize();
    ensure!(all == Hold::of(k2, &runs) && n == runs.len(), "stage of the user ({} {}) behind groups: {:?}, {}", k2, g2, all, n);
    // in the branches of a split
    let mut r = Generator::split(|x: &V| x.0 & 1, move |_| Adapter::new(Hold::new(k1, g1), NilAdapter::new()).map(add).collect());
    v.iter().for_each(|x| r.next(*x));
    let got: BTreeMap<i64, Vec<V>> = r.finalize();
    let mut want: BTreeMap<i64, Vec<V>> = BTreeMap::new();
    v.iter().for_each(|x| want.entry(x.0 & 1).or_default().push(*x));
    want.values_mut().for_each(|l| *l = Hold::of(k1, l).iter().map(add).collect());
    ensure!(got == want, "stages of the user ({} {}) in the branches of a split: {:?} instead of {:?}", k1, g1, got, want);
    c.ev("pipelines with stages of the user", 6);
    Ok(())
}

/// sequences longer than 16 bits count
fn long(c: &mut Case) -> Res {
    let n = 65_536 + c.rng.raw(3_000);
    let n = if c.rng.hinted() { hints::size(&mut c.rng, 200_000).unwrap_or(n) * c.rng.range(1, 3) } else { n }.max(64);
    let span = *c.rng.pick(&[1, 2, 300, 1_000_000]);
    let v: Vec<V> = (0..n).map(|i| (c.rng.below(span) as i64, i as i64)).collect();
    c.note(format!("{} values below {}", n, span));
    let ge = |a: &V, b: &V| b.0 >= a.0;
    let seen: RefCell<(Vec<V>, Vec<V>)> = Default::default();
    let mut r = Generator::map(|x: &V| (x.0 + 1, x.1)).filter(|x: &V| x.1 % 3 != 0).fork(
        Generator::fork(Generator::fold((), |_, x: V| seen.borrow_mut().0.push(x)), Generator::groupby(ge).map(pair).fold((), |_, x: V| seen.borrow_mut().1.push(x))),
        Generator::split(|x: &V| x.1, |_| Generator::<V>::count()),
    );
    v.iter().for_each(|x| r.next(*x));
    let (_, single) = r.finalize();
    let want: Vec<V> = v.iter().filter(|x| x.1 % 3 != 0).map(|x| (x.0 + 1, x.1)).collect();
    let runs: Vec<V> = group(&want, ge).iter().map(pair).collect();
    ensure!(seen.borrow().0 == want, "{} of {} values reach the first branch, or others", seen.borrow().0.len(), want.len());
    ensure!(seen.borrow().1 == runs, "{} of {} groups reach the second branch, or others", seen.borrow().1.len(), runs.len());
    ensure!(single == want.iter().map(|x| (x.1, 1)).collect(), "split into {} instead of {} keys", single.len(), want.len());
    // few keys, many values each, pulled
    let got = v.iter().copied().split(|x| x.1 % 2, |_| Generator::fork(Generator::<V>::count(), Generator::map(|x: &V| x.1 as usize).sum()));
    let of = |k: i64| (v.iter().filter(|x| x.1 % 2 == k).count(), v.iter().filter(|x| x.1 % 2 == k).map(|x| x.1 as usize).sum::<usize>());
    ensure!(got == BTreeMap::from([(0, of(0)), (1, of(1))]), "split of an iterator: {:?}", got);
    let mut r = Generator::<V>::count();
    v.iter().for_each(|x| r.next(*x));
    let (got, sum) = (r.finalize(), v.iter().map(|x| x.1 as usize).sum::<usize>());
    ensure!(got == n, "count of {} values gives {}", n, got);
    let mut r = Generator::fork(Generator::<V>::count(), Generator::map(|x: &V| x.1 as usize).sum());
    v.iter().for_each(|x| r.next(*x));
    let got = r.finalize();
    ensure!(got == (n, sum), "count and sum of {} values give {:?}", n, got);
    let mut r = Generator::map(|x: &V| x.1).collect();
    v.iter().for_each(|x| r.next(*x));
    let got: Vec<i64> = r.finalize();
    ensure!(got.iter().copied().eq(v.iter().map(|x| x.1)), "{} of {} values are collected, or others", got.len(), n);
    let k = c.rng.range(2, 40) as i64;
    let mut r = Generator::map(|x: &V| (x.1 % k, 1i64)).merge(|a: &V, b: &V| (a.0 == b.0).then(|| (a.0, a.1 + b.1)), |v: &V| v.0).collect();
    v.iter().for_each(|x| r.next(*x));
    let got = r.finalize();
    let want: Vec<V> = (0..k).map(|i| (i, v.iter().filter(|x| x.1 % k == i).count() as i64)).collect();
    ensure!(got == want, "merged by key: {:?}", got);
    let mut it = FromAdaptFn::new(Map::new(|x: &V| x.1), v.iter().copied());
    ensure!(it.by_ref().enumerate().all(|(i, x)| i as i64 == x) && it.next().is_none(), "map of an iterator");
    c.ev("sequences of more than 65,536 values", 1);
    c.ev("values fed", 3 * n);
    c.judged(Some(fnv(format!("{} {} {:?}", n, span, v[1]).as_bytes())));
    Ok(())
}

fn main() {
    run("C11", (400_000, 20_000_000), |c| match c.n % 8 {
        _ if c.n % 50_000 == 4_321 || c.rng.hinted() && c.rng.raw(4_000) == 0 => long(c),
        0 => fixed(c),
        _ => dynamic(c),
    })
}
