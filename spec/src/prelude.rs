//! What the lazy producers of the standard library deliver, written as loops: an iterator made from a
//! function with a state of its own is judged as the loop that drives it to its end.

pub fn map_while<T, R>(it: impl Iterator<Item = T>, mut f: impl FnMut(T) -> Option<R>) -> Vec<R> {
    let mut out = Vec::new();
    for x in it {
        match f(x) {
            Some(r) => out.push(r),
            None => break,
        }
    }
    out
}

pub fn from_fn<R>(mut f: impl FnMut() -> Option<R>) -> Vec<R> {
    let mut out = Vec::new();
    while let Some(r) = f() {
        out.push(r);
    }
    out
}

pub fn successors<R: Clone>(first: Option<R>, mut f: impl FnMut(&R) -> Option<R>) -> Vec<R> {
    let mut out = Vec::new();
    let mut next = first;
    while let Some(r) = next {
        next = f(&r);
        out.push(r);
    }
    out
}

pub fn scan<S, T, R>(it: impl Iterator<Item = T>, mut state: S, mut f: impl FnMut(&mut S, T) -> Option<R>) -> Vec<R> {
    let mut out = Vec::new();
    for x in it {
        match f(&mut state, x) {
            Some(r) => out.push(r),
            None => break,
        }
    }
    out
}

pub fn each<I: Iterator>(it: &mut I) -> Vec<I::Item> {
    let mut out = Vec::new();
    while let Some(x) = it.next() {
        out.push(x);
    }
    out
}
