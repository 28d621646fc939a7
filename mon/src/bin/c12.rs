//! C12: grouping splits a stream into its maximal runs and loses nothing
use matchit::fromgenerator::{FromAdaptFn, FromAdaptFnCall};
use matchit::generator::adapter::{AdaptFnTrait, AdapterTrait};
use matchit::generator::generator::Generator;
use matchit::generator::groupby::GroupBy;
use matchit::generator::reducer::ReducerTrait;
use mon::hints;
use mon::ensure;
use mon::rng::fnv;
use mon::rt::*;
use std::ops::ControlFlow;

/// value and identity
type V = (i64, usize);

fn expect(v: &[V], r: &dyn Fn(&V, &V) -> bool) -> Vec<(V, V)> {
    let mut o = vec![];
    let mut i = 0;
    while i < v.len() {
        let mut j = i;
        while j + 1 < v.len() && r(&v[j], &v[j + 1]) {
            j += 1;
        }
        if j > i || r(&v[i], &v[i]) {
            o.push((v[i], v[j]));
        }
        i = j + 1;
    }
    o
}

/// sequences and groups longer than 16 bits count
fn long(c: &mut Case) -> Res {
    let n = 65_536 + c.rng.raw(3_000);
    let n = if c.rng.hinted() { hints::size(&mut c.rng, 200_000).unwrap_or(n) } else { n }.max(64);
    // runs of any length up to all
    let cut = *c.rng.pick(&[1, 2, 100, 65_536, 1_000_000]);
    let v: Vec<V> = (0..n).map(|i| (if c.rng.below(cut) == 0 { 0 } else { 1 }, i)).collect();
    let rel = |_: &V, b: &V| b.0 != 0;
    c.note(format!("{} values, runs of about {}", n, cut));
    let want = expect(&v, &rel);
    let mut it = v.iter().copied().groupby(rel);
    let got: Vec<_> = it.by_ref().collect();
    ensure!(got == want && it.next().is_none(), "iterator: {} groups instead of {}, or others", got.len(), want.len());
    let got = std::cell::RefCell::new(vec![]);
    let mut r = Generator::map(|x: &V| *x).groupby(rel).fold((), |_, x: (V, V)| got.borrow_mut().push(x));
    v.iter().for_each(|x| r.next(*x));
    r.finalize();
    ensure!(*got.borrow() == want, "pipeline: {} groups instead of {}, or others", got.borrow().len(), want.len());
    c.ev("sequences of more than 65,536 values", 1);
    c.ev("longest group", 0usize.max(want.iter().map(|r| r.1 .1 - r.0 .1 + 1).max().unwrap_or(0)));
    c.judged(Some(fnv(format!("{:?}", want.len()).as_bytes())));
    Ok(())
}

fn main() {
    run("C12", (400_000, 20_000_000), |c| {
        if c.n % 50_000 == 40_001 || c.rng.hinted() && c.rng.raw(4_000) == 0 {
            return long(c);
        }
        let dom = *c.rng.pick(&[1usize, 2, 3, 4, 8, 1000]);
        // every sequence over three values up to length 7 comes first, with every small relation drawn at random
        let n = if c.n < 30_000 { (c.n % 8) as usize } else { *c.rng.pick(&[0, 1, 2, 5, 10, 30, 200]) };
        let n = if c.n % 1_000 == 999 { c.rng.range(200, 3_000) } else { n };
        let n = if c.rng.hinted() && c.rng.raw(40) == 0 { hints::size(&mut c.rng, 5_000).unwrap_or(n) } else { n };
        let dom = if c.n < 30_000 { 3 } else { dom };
        let v: Vec<V> = (0..n).map(|i| (c.rng.below(dom) as i64, i)).collect();
        let k = c.rng.below(12);
        let p = c.rng.below(4) as i64;
        let table: Vec<bool> = (0..64).map(|_| c.rng.pct(50)).collect();
        let rel = move |a: &V, b: &V| -> bool {
            match k {
                0 => b.0 >= a.0,
                1 => b.0 > a.0,
                2 => b.0 != a.0,
                3 => b.0 == a.0,
                4 => (b.0 - a.0).abs() <= p,
                5 => b.0 < a.0,
                6 => true,
                7 => false,
                8 => b.0 == a.0 + 1,
                // any relation at all, also one that holds for some values with themselves only
                _ => table[((a.0 % 8) * 8 + b.0 % 8) as usize],
            }
        };
        c.note(format!("relation {} {} on {:?}", k, p, v.iter().map(|x| x.0).collect::<Vec<_>>()));
        let want = expect(&v, &rel);
        let show = |x: &[(V, V)]| x.iter().map(|r| (r.0 .1, r.1 .1)).collect::<Vec<_>>();
        let judge = |what: &str, got: Vec<(V, V)>| -> Res {
            ensure!(got == want, "{}: groups (first, last position) {:?} instead of {:?}", what, show(&got), show(&want));
            Ok(())
        };
        // pushed
        let mut r = Generator::groupby(rel.clone()).collect();
        v.iter().for_each(|x| r.next(*x));
        judge("generator", r.finalize())?;
        // behind another stage
        let mut r = Generator::map(|x: &V| *x).groupby(rel.clone()).collect();
        v.iter().for_each(|x| r.next(*x));
        judge("pipeline", r.finalize())?;
        // behind a stage that holds back values until finalization
        let mut r = Generator::groupby(|_: &V, _: &V| false).map(|x: &(V, V)| x.0).count();
        v.iter().for_each(|x| r.next(*x));
        ensure!(r.finalize() == 0, "a relation that never holds yields groups");
        let id = Generator::groupby(|a: &V, b: &V| a.1 == b.1).map(|x: &(V, V)| x.0);
        let mut r = id.groupby(rel.clone()).collect();
        v.iter().for_each(|x| r.next(*x));
        judge("pipeline behind held back values", r.finalize())?;
        // pulled from a source that counts what is taken: a group comes with the value that ends it
        let taken = std::cell::Cell::new(0);
        let mut it = v.iter().copied().inspect(|_| taken.set(taken.get() + 1)).groupby(rel.clone());
        for (i, w) in want.iter().enumerate() {
            let g = it.next();
            ensure!(g == Some(*w), "iterator: group {} is {:?} instead of {:?}", i, g, w);
            ensure!(taken.get() <= (w.1 .1 + 2).min(v.len()), "iterator: {} values are taken for the group that ends with value {} of {}", taken.get(), w.1 .1 + 1, v.len());
        }
        drop(it);
        // pulled, and pulled again after the end
        let mut it = v.iter().copied().groupby(rel.clone());
        let mut got = vec![];
        while let Some(x) = it.next() {
            got.push(x);
            ensure!(got.len() <= v.len() + 1, "iterator: {} groups of {} values", got.len(), v.len());
        }
        judge("iterator", got)?;
        ensure!(it.next().is_none() && it.next().is_none(), "iterator: yields a group after it was exhausted");
        protocol(c, "iterator", || FromAdaptFnCall::groupby(v.iter().copied(), rel.clone()), |x| x, &want)?;
        let got: Vec<_> = FromAdaptFn::new(GroupBy::new(rel.clone()), v.iter().copied()).collect();
        judge("adapted iterator", got)?;
        // stepwise: what is yielded when
        let mut g = GroupBy::new(rel.clone());
        let mut got = vec![];
        for x in &v {
            if let ControlFlow::Continue(Some(o)) = g.adapt(*x) {
                got.push(o);
                ensure!(o.1 .1 + 1 == x.1, "steps: the group up to value {} is yielded at value {}", o.1 .1, x.1);
            }
        }
        let mut left = 0;
        while let ControlFlow::Continue(o) = g.finalize() {
            got.extend(o);
            left += 1;
            ensure!(left <= v.len() + 1, "finalization does not end");
        }
        judge("steps", got)?;
        c.ev("values", v.len() * 6);
        c.ev("groups", want.len());
        c.ev("groups of one value", want.iter().filter(|r| r.0 .1 == r.1 .1).count());
        let members: usize = want.iter().map(|r| r.1 .1 - r.0 .1 + 1).sum();
        c.ev("values in no group", v.len() - members);
        c.judged((v.len() > 1).then(|| fnv(format!("{} {} {:?}", k, p, v).as_bytes())));
        if want.len() > 1 {
            c.sample(|| format!("relation {}: {:?} has groups {:?}", k, v.iter().map(|x| x.0).collect::<Vec<_>>(), show(&want)));
        }
        Ok(())
    })
}
