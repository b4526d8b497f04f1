//! Consuming iterators in lock step with a model: the same generic consumer runs on the iterator
//! under test and on an iterator of the standard library.

use crate::rng::Rng;

/// One step of a consumer that borrows the iterator.
#[derive(Clone, Copy, Debug)]
pub enum Step {
    Next,
    Nth(usize),
    Take(usize),
    Skip(usize, usize),
    StepBy(usize, usize),
    Find(usize),
    Position(usize),
    All(usize),
    Zip(usize),
    Peek(usize),
    TryFold(usize),
    TakeWhile(usize),
    Chunk(usize),
}

/// A consumer that uses up the iterator.
#[derive(Clone, Copy, Debug)]
pub enum End {
    Count,
    Last,
    Fold,
    ForEach,
    Collect,
    Reduce,
    Partition,
    SkipFold(usize),
    StepCollect(usize),
    TakeFold(usize),
    ChainFold,
    Drop,
}

pub fn random_step(rng: &mut Rng, n: usize) -> Step {
    let a = rng.below(n.min(9) + 2);
    let b = rng.range(1, 4);
    match rng.below(14) {
        0 | 1 => Step::Next,
        2 => Step::Nth(a),
        3 => Step::Take(a),
        4 => Step::Skip(a, b),
        5 => Step::StepBy(b, a),
        6 => Step::Find(a),
        7 => Step::Position(a),
        8 => Step::All(a),
        9 => Step::Zip(a),
        10 => Step::Peek(a),
        11 => Step::TryFold(a),
        12 => Step::TakeWhile(a),
        _ => Step::Chunk(a),
    }
}

pub fn random_end(rng: &mut Rng, n: usize) -> End {
    let a = rng.below(n + 2);
    match rng.below(12) {
        0 => End::Count,
        1 => End::Last,
        2 => End::Fold,
        3 => End::ForEach,
        4 => End::Collect,
        5 => End::Reduce,
        6 => End::Partition,
        7 => End::SkipFold(a),
        8 => End::StepCollect(a.clamp(1, 5)),
        9 => End::TakeFold(a),
        10 => End::ChainFold,
        _ => End::Drop,
    }
}

/// Carries out a step; returns the items that the consumer got to see.
pub fn step<I: ExactSizeIterator>(it: &mut I, s: Step) -> Vec<I::Item> {
    let mut out = Vec::new();
    match s {
        Step::Next => out.extend(it.next()),
        Step::Nth(k) => out.extend(it.nth(k)),
        Step::Take(k) => out.extend(it.by_ref().take(k)),
        Step::Skip(a, b) => out.extend(it.by_ref().skip(a).take(b)),
        Step::StepBy(s, k) => {
            let mut i = it.by_ref().step_by(s);
            for _ in 0..k {
                out.extend(i.next());
            }
        }
        Step::Find(k) => {
            let mut c = 0;
            out.extend(it.find(|_| {
                c += 1;
                c > k
            }));
        }
        Step::Position(k) => {
            let mut c = 0;
            let p = it.position(|x| {
                out.push(x);
                c += 1;
                c > k
            });
            assert!(p == if c > k { Some(k) } else { None }, "position is {p:?} after {c} items");
        }
        Step::All(k) => {
            let mut c = 0;
            it.all(|x| {
                out.push(x);
                c += 1;
                c <= k
            });
        }
        Step::Zip(k) => {
            // The standard library asks the first iterator first.
            let v: Vec<_> = (0..k).zip(it.by_ref()).collect();
            for (i, (j, x)) in v.into_iter().enumerate() {
                assert!(i == j);
                out.push(x);
            }
        }
        Step::Peek(k) => {
            let mut p = it.by_ref().peekable();
            for _ in 0..k {
                let some = p.peek().is_some();
                let x = p.next();
                assert!(some == x.is_some(), "peek and next disagree");
                out.extend(x);
            }
        }
        Step::TryFold(k) => {
            let _ = it.try_fold(0, |c, x| {
                out.push(x);
                if c < k { Ok(c + 1) } else { Err(()) }
            });
        }
        Step::TakeWhile(k) => {
            let mut c = 0;
            out.extend(it.by_ref().take_while(|_| {
                c += 1;
                c <= k
            }));
        }
        Step::Chunk(k) => {
            for _ in 0..k {
                match it.next() {
                    Some(x) => out.push(x),
                    None => break,
                }
            }
        }
    }
    out
}

/// Uses up the iterator; returns the items that the consumer got to see and a number.
pub fn end<I: ExactSizeIterator>(it: I, e: End) -> (Vec<I::Item>, usize) {
    let mut out = Vec::new();
    let mut num = 0;
    match e {
        End::Count => num = it.count(),
        End::Last => out.extend(it.last()),
        End::Fold => {
            num = it.fold(0, |c, x| {
                out.push(x);
                c + 1
            })
        }
        End::ForEach => it.for_each(|x| out.push(x)),
        End::Collect => out = it.collect(),
        End::Reduce => {
            let mut c = 0;
            out.extend(it.reduce(|x, y| {
                c += 1;
                if c % 2 == 0 { x } else { y }
            }));
            num = c;
        }
        End::Partition => {
            let mut c = 0;
            let (a, b): (Vec<_>, Vec<_>) = it.partition(|_| {
                c += 1;
                c % 3 == 0
            });
            num = a.len();
            out.extend(a);
            out.extend(b);
        }
        End::SkipFold(k) => {
            num = it.skip(k).fold(0, |c, x| {
                out.push(x);
                c + 1
            })
        }
        End::StepCollect(k) => out = it.step_by(k).collect(),
        End::TakeFold(k) => {
            num = it.take(k).fold(0, |c, x| {
                out.push(x);
                c + 1
            })
        }
        End::ChainFold => it.chain(None).for_each(|x| out.push(x)),
        End::Drop => drop(it),
    }
    (out, num)
}

/// Runs a random script on both iterators and compares all observations. `check` is called after
/// each step with the number of items that remain.
pub fn lockstep<I, J, E, F>(rng: &mut Rng, what: &str, mut it: I, mut model: J, eq: E, mut check: F)
where
    I: ExactSizeIterator,
    J: ExactSizeIterator,
    I::Item: std::fmt::Debug,
    J::Item: std::fmt::Debug,
    E: Fn(&I::Item, &J::Item) -> bool,
    F: FnMut(usize),
{
    let n = model.len();
    for _ in 0..rng.range(0, 5) {
        let h = it.size_hint();
        assert!(h == (model.len(), Some(model.len())), "{what}: size_hint is {h:?}, expected {}", model.len());
        let s = random_step(rng, n);
        let (a, b) = (step(&mut it, s), step(&mut model, s));
        assert!(a.len() == b.len() && a.iter().zip(&b).all(|(x, y)| eq(x, y)), "{what}: {s:?} gives {a:?}, expected {b:?}");
        drop(a);
        drop(b);
        assert!(it.len() == model.len(), "{what}: {} items remain after {s:?}, expected {}", it.len(), model.len());
        check(model.len());
    }
    let e = random_end(rng, n);
    let ((a, x), (b, y)) = (end(it, e), end(model, e));
    assert!(x == y, "{what}: {e:?} counts {x}, expected {y}");
    assert!(a.len() == b.len() && a.iter().zip(&b).all(|(x, y)| eq(x, y)), "{what}: {e:?} gives {a:?}, expected {b:?}");
    drop(a);
    drop(b);
    check(0);
}
