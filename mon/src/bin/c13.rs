//! C13: merging leaves values of which no two merge, in key order, and drops none
use matchit::fromgenerator::FromAdaptFn;
use matchit::generator::adapter::AdapterTrait;
use matchit::generator::generator::Generator;
use matchit::generator::groupby::Merge;
use matchit::generator::reducer::ReducerTrait;
use mon::hints;
use mon::ensure;
use mon::rng::fnv;
use mon::rt::*;
use std::cmp::Reverse;
use std::collections::BTreeMap;
use std::fmt::Debug;

fn all_forms<T: Clone + Debug + PartialEq, K: Ord + Clone>(v: &[T], f: impl Fn(&T, &T) -> Option<T> + Clone, key: impl Fn(&T) -> K + Clone, form: usize) -> Vec<T> {
    match form {
        0 => {
            let mut r = Generator::merge(f, key).collect();
            v.iter().for_each(|x| r.next(x.clone()));
            r.finalize()
        }
        1 => {
            let mut r = Generator::map(|x: &T| x.clone()).merge(f, key).map(|x: &T| x.clone()).collect();
            v.iter().for_each(|x| r.next(x.clone()));
            r.finalize()
        }
        2 => FromAdaptFn::new(Merge::new(f, key), v.iter().cloned()).collect(),
        _ => {
            // per key of a split, here always the same
            let mut r = Generator::split(|_: &T| 0u8, move |_: &u8| Generator::merge(f.clone(), key.clone()).collect());
            v.iter().for_each(|x| r.next(x.clone()));
            r.finalize().remove(&0).unwrap_or_default()
        }
    }
}

/// inputs carry their number; a merged value carries those of all its parts
#[derive(Clone, Debug, PartialEq)]
struct Iv {
    lo: i64,
    hi: i64,
    ids: Vec<usize>,
}
fn union(a: &Iv, b: &Iv) -> Option<Iv> {
    (a.lo <= b.hi && b.lo <= a.hi).then(|| Iv { lo: a.lo.min(b.lo), hi: a.hi.max(b.hi), ids: [&a.ids[..], &b.ids[..]].concat() })
}

fn parts(ids: impl Iterator<Item = Vec<usize>>, n: usize) -> Res {
    let mut all: Vec<usize> = ids.flatten().collect();
    all.sort();
    ensure!(all == (0..n).collect::<Vec<_>>(), "the inputs in the results are {:?} instead of each of {} once", all, n);
    Ok(())
}

fn intervals(c: &mut Case) -> Res {
    let mut n = *c.rng.pick(&[0, 1, 2, 3, 4, 6, 10, 40]);
    let mut span = *c.rng.pick(&[4, 10, 30, 1000]);
    if c.n % 3_000 == 3 {
        n = c.rng.range(60, 600);
        span = *c.rng.pick(&[1_000, 100_000]);
    }
    let mut wide = *c.rng.pick(&[1, 3, 8]);
    if c.rng.hinted() && c.rng.raw(20) == 0 {
        // that many, that far apart, that long
        if let Some(k) = hints::size(&mut c.rng, 10_000_000) {
            match c.rng.raw(3) {
                0 if k <= 2_000 => n = k,
                1 => span = 3 * k + 4,
                _ => {
                    span = 4 * k + 4;
                    wide = k + 2;
                }
            }
        }
    }
    let mut v: Vec<Iv> = (0..n)
        .map(|i| {
            let lo = c.rng.below(span) as i64;
            Iv { lo, hi: lo + c.rng.below(wide) as i64, ids: vec![i] }
        })
        .collect();
    if c.rng.pct(20) && n > 0 {
        // one that connects everything, at the end
        v[n - 1].lo = 0;
        v[n - 1].hi = span as i64;
    }
    // reference: sweep over the points
    let mut s: Vec<(i64, i64)> = v.iter().map(|x| (x.lo, x.hi)).collect();
    s.sort();
    let mut want: Vec<(i64, i64)> = vec![];
    for (lo, hi) in s {
        match want.last_mut() {
            Some(l) if lo <= l.1 => l.1 = l.1.max(hi),
            _ => want.push((lo, hi)),
        }
    }
    for turn in 0..3 {
        if turn > 0 {
            c.rng.shuffle(&mut v);
        }
        let form = c.rng.below(4);
        let k = c.rng.below(4);
        c.note(format!("intervals {:?} form {} key {}", v.iter().map(|x| (x.lo, x.hi)).collect::<Vec<_>>(), form, k));
        let got = match k {
            0 => all_forms(&v, union, |x: &Iv| (x.lo, x.hi), form),
            1 => all_forms(&v, union, |x: &Iv| x.lo, form),
            2 => all_forms(&v, union, |x: &Iv| x.hi, form),
            _ => {
                let mut g = all_forms(&v, union, |x: &Iv| Reverse((x.lo, x.hi)), form);
                g.reverse();
                g
            }
        };
        let g: Vec<(i64, i64)> = got.iter().map(|x| (x.lo, x.hi)).collect();
        ensure!(g == want, "merged to {:?} instead of {:?}", g, want);
        parts(got.iter().map(|x| x.ids.clone()), n)?;
        for x in &got {
            for i in &x.ids {
                let o = v.iter().find(|y| y.ids[0] == *i).unwrap();
                ensure!(x.lo <= o.lo && o.hi <= x.hi, "[{}, {}] became part of [{}, {}]", o.lo, o.hi, x.lo, x.hi);
            }
        }
        c.ev("values merged", n);
        c.ev("results", got.len());
        c.judged((n > 1).then(|| fnv(format!("{:?}{}{}", v, form, k).as_bytes())));
        c.seen("orders of arrival", fnv(format!("{:?}", v).as_bytes()));
    }
    if n > 2 {
        c.sample(|| format!("intervals {:?} merge to {:?}", v.iter().map(|x| (x.lo, x.hi)).collect::<Vec<_>>(), want));
    }
    Ok(())
}

/// sets that overlap: the union may connect sets that were apart
fn sets(c: &mut Case) -> Res {
    let n = *c.rng.pick(&[1, 2, 3, 4, 6, 12]);
    let n = if c.rng.hinted() && c.rng.raw(50) == 0 { hints::size(&mut c.rng, 400).unwrap_or(n) } else { n };
    let mut v: Vec<(u64, Vec<usize>)> = (0..n)
        .map(|i| {
            let mut m = 0;
            for _ in 0..c.rng.range(1, 3) {
                m |= 1 << c.rng.below(24);
            }
            (m, vec![i])
        })
        .collect();
    // connected components
    let mut want: Vec<u64> = vec![];
    for (m, _) in &v {
        let mut m = *m;
        while let Some(i) = want.iter().position(|x| x & m != 0) {
            m |= want.remove(i);
        }
        want.push(m);
    }
    want.sort();
    for _ in 0..2 {
        c.rng.shuffle(&mut v);
        let form = c.rng.below(4);
        c.note(format!("sets {:x?} form {}", v.iter().map(|x| x.0).collect::<Vec<_>>(), form));
        type S = (u64, Vec<usize>);
        let got = all_forms(&v, |a: &S, b: &S| (a.0 & b.0 != 0).then(|| (a.0 | b.0, [&a.1[..], &b.1[..]].concat())), |x: &S| x.0, form);
        let g: Vec<u64> = got.iter().map(|x| x.0).collect();
        ensure!(g == want, "merged to {:x?} instead of {:x?}", g, want);
        parts(got.iter().map(|x| x.1.clone()), n)?;
        c.ev("values merged", n);
        c.ev("results", got.len());
        c.judged((n > 1).then(|| fnv(format!("{:?}{}", v, form).as_bytes())));
        c.seen("orders of arrival", fnv(format!("{:?}", v).as_bytes()));
    }
    Ok(())
}

fn keyed(c: &mut Case) -> Res {
    let mut n = c.rng.below(60);
    let mut keys = c.rng.range(1, 10);
    if c.rng.hinted() && c.rng.raw(30) == 0 {
        if let Some(k) = hints::size(&mut c.rng, 3_000) {
            n = k;
            keys = if c.rng.pct(50) { keys } else { k + 1 };
        }
    }
    let v: Vec<(i32, Vec<usize>)> = (0..n).map(|i| (c.rng.below(keys) as i32 - 3, vec![i])).collect();
    let form = c.rng.below(4);
    c.note(format!("keys {:?} form {}", v.iter().map(|x| x.0).collect::<Vec<_>>(), form));
    type S = (i32, Vec<usize>);
    let got = all_forms(&v, |a: &S, b: &S| (a.0 == b.0).then(|| (a.0, [&a.1[..], &b.1[..]].concat())), |x: &S| x.0, form);
    let mut want: BTreeMap<i32, usize> = BTreeMap::new();
    v.iter().for_each(|x| *want.entry(x.0).or_insert(0) += 1);
    let g: Vec<(i32, usize)> = got.iter().map(|x| (x.0, x.1.len())).collect();
    ensure!(g == want.into_iter().collect::<Vec<_>>(), "merged to (key, number) {:?}", g);
    parts(got.iter().map(|x| x.1.clone()), n)?;
    ensure!(got.iter().all(|x| x.1.iter().all(|i| v[*i].0 == x.0)), "a value became part of another key: {:?}", got);
    c.ev("values merged", n);
    c.ev("results", got.len());
    c.judged((n > 1).then(|| fnv(format!("{:?}{}", v, form).as_bytes())));
    Ok(())
}

/// more values than 16 bits count
fn many(c: &mut Case) -> Res {
    let n = 65_536 + c.rng.raw(3_000);
    let n = if c.rng.hinted() { hints::size(&mut c.rng, 200_000).unwrap_or(n) } else { n }.max(64);
    let n = n as i64;
    let keys = c.rng.range(1, 50) as i64;
    let form = c.rng.below(4);
    c.note(format!("{} values of {} keys, form {}", n, keys, form));
    type S = (i64, i64);
    let v: Vec<S> = (0..n).map(|i| (i % keys, 1)).collect();
    let got = all_forms(&v, |a: &S, b: &S| (a.0 == b.0).then(|| (a.0, a.1 + b.1)), |x: &S| x.0, form);
    let want: Vec<S> = (0..keys).map(|k| (k, n / keys + (k < n % keys) as i64)).collect();
    ensure!(got == want, "merged to (key, number) {:?} instead of {:?}", got, want);
    // all but a few intervals touch
    let gap = *c.rng.pick(&[1_000, 10_000, 100_000]);
    let v: Vec<S> = (0..n).map(|i| (i, i + (i % gap != gap - 1) as i64)).collect();
    let got = all_forms(&v, |a: &S, b: &S| (a.0 <= b.1 && b.0 <= a.1).then(|| (a.0.min(b.0), a.1.max(b.1))), |x: &S| x.0, form);
    let want: Vec<S> = (0..n).step_by(gap as usize).map(|i| (i, (i + gap - 1).min(n - 1 + ((n - 1) % gap != gap - 1) as i64))).collect();
    ensure!(got == want, "intervals merged to {:?} instead of {:?}", got, want);
    // more than 15 bits count that do not merge
    if c.n % 200_000 == 4_444 {
        let n = n.min(33_500);
        let v: Vec<i64> = (0..n).map(|i| i * 7919 % n).collect();
        let d = v.iter().collect::<std::collections::BTreeSet<_>>().len() as i64;
        if d == n {
            let got = all_forms(&v, |_: &i64, _: &i64| None, |x: &i64| *x, c.rng.below(4));
            ensure!(got == (0..n).collect::<Vec<_>>(), "{} values that do not merge: {} are left, or others", n, got.len());
            c.ev("more than 32,768 values that do not merge", 1);
        }
    }
    c.ev("more than 65,536 values", 2);
    c.judged(Some(fnv(format!("{} {} {} {}", n, keys, form, gap).as_bytes())));
    Ok(())
}

/// nothing merges: all stay, in key order
fn never(c: &mut Case) -> Res {
    let n = if c.n % 3_000 == 2 { c.rng.range(250, 1_500) } else { c.rng.below(40) };
    let n = if c.rng.hinted() && c.rng.raw(50) == 0 { hints::size(&mut c.rng, 2_000).unwrap_or(n) } else { n };
    let mut v: Vec<i64> = (0..n as i64).collect();
    c.rng.shuffle(&mut v);
    let form = c.rng.below(4);
    let got = all_forms(&v, |_: &i64, _: &i64| None, |x: &i64| *x, form);
    ensure!(got == (0..n as i64).collect::<Vec<_>>(), "values that do not merge: {:?} of {:?}", got, v);
    c.judged((n > 1).then(|| fnv(format!("{:?}{}", v, form).as_bytes())));
    c.ev("values that do not merge", n);
    Ok(())
}

fn main() {
    run("C13", (300_000, 15_000_000), |c| match c.n % 6 {
        _ if c.n % 50_000 == 4_444 || c.rng.hinted() && c.rng.raw(4_000) == 0 => many(c),
        0 => sets(c),
        1 => keyed(c),
        2 => never(c),
        _ => intervals(c),
    })
}
