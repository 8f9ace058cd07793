//! Reference definitions of library functions (never executed: their MIR is interpreted
//! abstractly where the analysed code calls the function they are named after).
#![allow(non_snake_case, non_camel_case_types, dead_code, unused, clippy::all)]
use std::cmp::Ordering;
use std::collections::{BTreeMap, HashMap};

// ---- primitives provided by the analyser
pub fn __elem<T>(v: &[T], i: usize) -> T { loop {} }
pub fn __velem<T>(v: &Vec<T>, i: usize) -> T { loop {} }
pub fn __eref<T>(v: &[T], i: usize) -> &T { loop {} }
pub fn __eref_mut<T>(v: &mut [T], i: usize) -> &mut T { loop {} }
pub fn __sub<T>(v: &[T], lo: usize, n: usize) -> &[T] { loop {} }
pub fn __sub_mut<T>(v: &mut [T], lo: usize, n: usize) -> &mut [T] { loop {} }
pub fn __ssub(v: &str, lo: usize, n: usize) -> &str { loop {} }
pub fn __slen<T>(v: &[T]) -> usize { loop {} }
pub fn __strlen(v: &str) -> usize { loop {} }
pub fn __byte(v: &str, i: usize) -> u8 { loop {} }
pub fn __wide_char(v: &str, i: usize) -> (char, usize) { loop {} }
pub fn __wide_char_back(v: &str, n: usize) -> (char, usize) { loop {} }
pub fn __mkey<M, K>(m: &M, i: usize) -> K { loop {} }
pub fn __mval<M, V>(m: &M, i: usize) -> V { loop {} }
pub fn __mvalm<M, V>(m: &M, i: usize) -> V { loop {} }
pub fn __mlen<M>(m: &M) -> usize { loop {} }
pub fn __iter<I: IntoIterator>(i: I) -> I::IntoIter { loop {} }
pub fn __havoc<T>() -> T { loop {} }
pub fn __retry<T>() -> T { loop {} }

// ---- Option
pub fn Option__map<T, U, F: FnOnce(T) -> U>(o: Option<T>, f: F) -> Option<U> { match o { Some(x) => Some(f(x)), None => None } }
pub fn Option__map_or<T, U, F: FnOnce(T) -> U>(o: Option<T>, d: U, f: F) -> U { match o { Some(x) => f(x), None => d } }
pub fn Option__map_or_else<T, U, D: FnOnce() -> U, F: FnOnce(T) -> U>(o: Option<T>, d: D, f: F) -> U { match o { Some(x) => f(x), None => d() } }
pub fn Option__and_then<T, U, F: FnOnce(T) -> Option<U>>(o: Option<T>, f: F) -> Option<U> { match o { Some(x) => f(x), None => None } }
pub fn Option__and<T, U>(o: Option<T>, p: Option<U>) -> Option<U> { match o { Some(_) => p, None => None } }
pub fn Option__or<T>(o: Option<T>, p: Option<T>) -> Option<T> { match o { Some(x) => Some(x), None => p } }
pub fn Option__or_else<T, F: FnOnce() -> Option<T>>(o: Option<T>, f: F) -> Option<T> { match o { Some(x) => Some(x), None => f() } }
pub fn Option__xor<T>(o: Option<T>, p: Option<T>) -> Option<T> { match (o, p) { (Some(x), None) => Some(x), (None, Some(y)) => Some(y), _ => None } }
pub fn Option__unwrap<T>(o: Option<T>) -> T { match o { Some(x) => x, None => panic!("unwrap") } }
pub fn Option__expect<T>(o: Option<T>, m: &str) -> T { match o { Some(x) => x, None => panic!("expect") } }
pub fn Option__unwrap_or<T>(o: Option<T>, d: T) -> T { match o { Some(x) => x, None => d } }
pub fn Option__unwrap_or_default<T: Default>(o: Option<T>) -> T { match o { Some(x) => x, None => T::default() } }
pub fn Option__unwrap_or_else<T, F: FnOnce() -> T>(o: Option<T>, f: F) -> T { match o { Some(x) => x, None => f() } }
pub fn Option__is_some<T>(o: &Option<T>) -> bool { match o { Some(_) => true, None => false } }
pub fn Option__is_none<T>(o: &Option<T>) -> bool { match o { Some(_) => false, None => true } }
pub fn Option__is_some_and<T, F: FnOnce(T) -> bool>(o: Option<T>, f: F) -> bool { match o { Some(x) => f(x), None => false } }
pub fn Option__is_none_or<T, F: FnOnce(T) -> bool>(o: Option<T>, f: F) -> bool { match o { Some(x) => f(x), None => true } }
pub fn Option__filter<T, F: FnOnce(&T) -> bool>(o: Option<T>, f: F) -> Option<T> { match o { Some(x) => if f(&x) { Some(x) } else { None }, None => None } }
pub fn Option__ok_or<T, E>(o: Option<T>, e: E) -> Result<T, E> { match o { Some(x) => Ok(x), None => Err(e) } }
pub fn Option__ok_or_else<T, E, F: FnOnce() -> E>(o: Option<T>, f: F) -> Result<T, E> { match o { Some(x) => Ok(x), None => Err(f()) } }
pub fn Option__as_ref<T>(o: &Option<T>) -> Option<&T> { match o { Some(x) => Some(x), None => None } }
pub fn Option__as_mut<T>(o: &mut Option<T>) -> Option<&mut T> { match o { Some(x) => Some(x), None => None } }
pub fn Option__take<T>(o: &mut Option<T>) -> Option<T> { std::mem::replace(o, None) }
pub fn Option__replace<T>(o: &mut Option<T>, v: T) -> Option<T> { std::mem::replace(o, Some(v)) }
pub fn Option__insert<T>(o: &mut Option<T>, v: T) -> &mut T { *o = Some(v); match o { Some(x) => x, None => loop {} } }
pub fn Option__get_or_insert_with<T, F: FnOnce() -> T>(o: &mut Option<T>, f: F) -> &mut T { if let None = o { *o = Some(f()); } match o { Some(x) => x, None => loop {} } }
pub fn Option__copied<T: Copy>(o: Option<&T>) -> Option<T> { match o { Some(x) => Some(*x), None => None } }
pub fn Option__cloned<T: Clone>(o: Option<&T>) -> Option<T> { match o { Some(x) => Some(x.clone()), None => None } }
pub fn Option__clone<T: Clone>(o: &Option<T>) -> Option<T> { match o { Some(x) => Some(x.clone()), None => None } }
pub fn Option__flatten<T>(o: Option<Option<T>>) -> Option<T> { match o { Some(x) => x, None => None } }
pub fn Option__zip<T, U>(o: Option<T>, p: Option<U>) -> Option<(T, U)> { match (o, p) { (Some(x), Some(y)) => Some((x, y)), _ => None } }
pub fn Option__branch<T>(o: Option<T>) -> std::ops::ControlFlow<Option<std::convert::Infallible>, T> { match o { Some(x) => std::ops::ControlFlow::Continue(x), None => std::ops::ControlFlow::Break(None) } }
pub fn Option__eq<T: PartialEq>(a: &Option<T>, b: &Option<T>) -> bool { match (a, b) { (Some(x), Some(y)) => x == y, (None, None) => true, _ => false } }
pub fn Option__ne<T: PartialEq>(a: &Option<T>, b: &Option<T>) -> bool { match (a, b) { (Some(x), Some(y)) => x != y, (None, None) => false, _ => true } }
pub struct OptIter<T> { o: Option<T> }
pub fn Option__into_iter<T>(o: Option<T>) -> OptIter<T> { OptIter { o } }
pub fn OptIter__next<T>(s: &mut OptIter<T>) -> Option<T> { std::mem::replace(&mut s.o, None) }

// ---- Result
pub fn Result__map<T, U, E, F: FnOnce(T) -> U>(o: Result<T, E>, f: F) -> Result<U, E> { match o { Ok(x) => Ok(f(x)), Err(e) => Err(e) } }
pub fn Result__map_err<T, U, E, F: FnOnce(E) -> U>(o: Result<T, E>, f: F) -> Result<T, U> { match o { Ok(x) => Ok(x), Err(e) => Err(f(e)) } }
pub fn Result__map_or<T, U, E, F: FnOnce(T) -> U>(o: Result<T, E>, d: U, f: F) -> U { match o { Ok(x) => f(x), Err(_) => d } }
pub fn Result__and_then<T, U, E, F: FnOnce(T) -> Result<U, E>>(o: Result<T, E>, f: F) -> Result<U, E> { match o { Ok(x) => f(x), Err(e) => Err(e) } }
pub fn Result__or<T, E, G>(a: Result<T, E>, b: Result<T, G>) -> Result<T, G> { match a { Ok(x) => Ok(x), Err(_) => b } }
pub fn Result__and<T, U, E>(a: Result<T, E>, b: Result<U, E>) -> Result<U, E> { match a { Ok(_) => b, Err(e) => Err(e) } }
pub fn Result__map_or_else<T, U, E, D: FnOnce(E) -> U, F: FnOnce(T) -> U>(o: Result<T, E>, d: D, f: F) -> U { match o { Ok(x) => f(x), Err(e) => d(e) } }
pub fn Result__is_err_and<T, E, F: FnOnce(E) -> bool>(o: Result<T, E>, f: F) -> bool { match o { Ok(_) => false, Err(e) => f(e) } }
pub fn Result__inspect<T, E, F: FnOnce(&T)>(o: Result<T, E>, f: F) -> Result<T, E> { if let Ok(x) = &o { f(x); } o }
pub fn Result__inspect_err<T, E, F: FnOnce(&E)>(o: Result<T, E>, f: F) -> Result<T, E> { if let Err(x) = &o { f(x); } o }
pub fn Option__inspect<T, F: FnOnce(&T)>(o: Option<T>, f: F) -> Option<T> { if let Some(x) = &o { f(x); } o }
pub fn Option__transpose<T, E>(o: Option<Result<T, E>>) -> Result<Option<T>, E> { match o { Some(Ok(x)) => Ok(Some(x)), Some(Err(e)) => Err(e), None => Ok(None) } }
pub fn Result__transpose<T, E>(o: Result<Option<T>, E>) -> Option<Result<T, E>> { match o { Ok(Some(x)) => Some(Ok(x)), Ok(None) => None, Err(e) => Some(Err(e)) } }
pub fn Result__copied<T: Copy, E>(o: Result<&T, E>) -> Result<T, E> { match o { Ok(x) => Ok(*x), Err(e) => Err(e) } }
pub fn Result__cloned<T: Clone, E>(o: Result<&T, E>) -> Result<T, E> { match o { Ok(x) => Ok(x.clone()), Err(e) => Err(e) } }
pub fn Result__or_else<T, E, G, F: FnOnce(E) -> Result<T, G>>(o: Result<T, E>, f: F) -> Result<T, G> { match o { Ok(x) => Ok(x), Err(e) => f(e) } }
pub fn Result__ok<T, E>(o: Result<T, E>) -> Option<T> { match o { Ok(x) => Some(x), Err(_) => None } }
pub fn Result__err<T, E>(o: Result<T, E>) -> Option<E> { match o { Ok(_) => None, Err(e) => Some(e) } }
pub fn Result__unwrap<T, E>(o: Result<T, E>) -> T { match o { Ok(x) => x, Err(_) => panic!("unwrap") } }
pub fn Result__expect<T, E>(o: Result<T, E>, m: &str) -> T { match o { Ok(x) => x, Err(_) => panic!("expect") } }
pub fn Result__unwrap_err<T, E>(o: Result<T, E>) -> E { match o { Ok(_) => panic!("unwrap_err"), Err(e) => e } }
pub fn Result__unwrap_or<T, E>(o: Result<T, E>, d: T) -> T { match o { Ok(x) => x, Err(_) => d } }
pub fn Result__unwrap_or_default<T: Default, E>(o: Result<T, E>) -> T { match o { Ok(x) => x, Err(_) => T::default() } }
pub fn Result__unwrap_or_else<T, E, F: FnOnce(E) -> T>(o: Result<T, E>, f: F) -> T { match o { Ok(x) => x, Err(e) => f(e) } }
pub fn Result__is_ok<T, E>(o: &Result<T, E>) -> bool { match o { Ok(_) => true, Err(_) => false } }
pub fn Result__is_err<T, E>(o: &Result<T, E>) -> bool { match o { Ok(_) => false, Err(_) => true } }
pub fn Result__is_ok_and<T, E, F: FnOnce(T) -> bool>(o: Result<T, E>, f: F) -> bool { match o { Ok(x) => f(x), Err(_) => false } }
pub fn Result__as_ref<T, E>(o: &Result<T, E>) -> Result<&T, &E> { match o { Ok(x) => Ok(x), Err(e) => Err(e) } }
pub fn Result__branch<T, E>(o: Result<T, E>) -> std::ops::ControlFlow<Result<std::convert::Infallible, E>, T> { match o { Ok(x) => std::ops::ControlFlow::Continue(x), Err(e) => std::ops::ControlFlow::Break(Err(e)) } }

// ---- slices
pub struct SIter<'a, T> { s: &'a [T], i: usize, n: usize }
pub fn __siter<T>(s: &[T]) -> SIter<T> { SIter { s, i: 0, n: __slen(s) } }
pub fn SIter__next<'a, T>(s: &mut SIter<'a, T>) -> Option<&'a T> { if s.i < s.n { let r = __eref(s.s, s.i); s.i += 1; Some(r) } else { None } }
pub fn SIter__next_back<'a, T>(s: &mut SIter<'a, T>) -> Option<&'a T> { if s.i < s.n { s.n -= 1; Some(__eref(s.s, s.n)) } else { None } }
pub fn SIter__len<'a, T>(s: &SIter<'a, T>) -> usize { s.n - s.i }
pub fn SIter__as_slice<'a, T>(s: &SIter<'a, T>) -> &'a [T] { __sub(s.s, s.i, s.n - s.i) }
pub fn SIter__nth<'a, T>(s: &mut SIter<'a, T>, k: usize) -> Option<&'a T> { if k < s.n - s.i { let r = __eref(s.s, s.i + k); s.i += k + 1; Some(r) } else { s.i = s.n; None } }
pub fn SIter__count<'a, T>(s: SIter<'a, T>) -> usize { s.n - s.i }
pub fn SIter__last<'a, T>(s: SIter<'a, T>) -> Option<&'a T> { if s.i < s.n { Some(__eref(s.s, s.n - 1)) } else { None } }
pub fn SIter__clone<'a, T>(s: &SIter<'a, T>) -> SIter<'a, T> { SIter { s: s.s, i: s.i, n: s.n } }
pub struct SIterMut<'a, T> { s: &'a mut [T], i: usize, n: usize }
pub fn __siter_mut<T>(s: &mut [T]) -> SIterMut<T> { let n = __slen(s); SIterMut { s, i: 0, n } }
pub fn SIterMut__next<'a, T>(s: &'a mut SIterMut<'a, T>) -> Option<&'a mut T> { if s.i < s.n { let k = s.i; s.i += 1; Some(__eref_mut(s.s, k)) } else { None } }
pub fn SIterMut__next_back<'a, T>(s: &'a mut SIterMut<'a, T>) -> Option<&'a mut T> { if s.i < s.n { s.n -= 1; let k = s.n; Some(__eref_mut(s.s, k)) } else { None } }
pub fn SIterMut__len<'a, T>(s: &SIterMut<'a, T>) -> usize { s.n - s.i }
pub struct VIter<T> { v: Vec<T>, i: usize, n: usize }
pub fn __viter<T>(v: Vec<T>) -> VIter<T> { let n = v.len(); VIter { v, i: 0, n } }
pub fn VIter__next<T>(s: &mut VIter<T>) -> Option<T> { if s.i < s.n { let r = __velem(&s.v, s.i); s.i += 1; Some(r) } else { None } }
pub fn VIter__next_back<T>(s: &mut VIter<T>) -> Option<T> { if s.i < s.n { s.n -= 1; Some(__velem(&s.v, s.n)) } else { None } }
pub fn VIter__len<T>(s: &VIter<T>) -> usize { s.n - s.i }

pub struct PChunks<'a, T> { s: &'a [T], i: usize, n: usize, k: usize }
pub fn __chunks<T>(s: &[T], k: usize) -> PChunks<T> { if k == 0 { panic!("chunk size 0") } PChunks { s, i: 0, n: __slen(s), k } }
pub fn PChunks__next<'a, T>(s: &mut PChunks<'a, T>) -> Option<&'a [T]> {
    if s.i >= s.n { return None; }
    let left = s.n - s.i;
    if left >= s.k { let r = __sub(s.s, s.i, s.k); s.i += s.k; Some(r) } else { let r = __sub(s.s, s.i, left); s.i = s.n; Some(r) }
}
pub struct PChunksExact<'a, T> { s: &'a [T], i: usize, n: usize, k: usize }
pub fn __chunks_exact<T>(s: &[T], k: usize) -> PChunksExact<T> { if k == 0 { panic!("chunk size 0") } PChunksExact { s, i: 0, n: __slen(s), k } }
pub fn PChunksExact__next<'a, T>(s: &mut PChunksExact<'a, T>) -> Option<&'a [T]> {
    if s.n - s.i >= s.k { let r = __sub(s.s, s.i, s.k); s.i += s.k; Some(r) } else { None }
}
pub struct PChunksMut<'a, T> { s: &'a mut [T], i: usize, n: usize, k: usize }
pub fn __chunks_mut<T>(s: &mut [T], k: usize) -> PChunksMut<T> { if k == 0 { panic!("chunk size 0") } let n = __slen(s); PChunksMut { s, i: 0, n, k } }
pub fn PChunksMut__next<'a, T>(s: &'a mut PChunksMut<'a, T>) -> Option<&'a mut [T]> {
    if s.i >= s.n { return None; }
    let left = s.n - s.i;
    let k = if left >= s.k { s.k } else { left };
    let i = s.i; s.i += k; Some(__sub_mut(s.s, i, k))
}
pub struct PWindows<'a, T> { s: &'a [T], i: usize, n: usize, k: usize }
pub fn __windows<T>(s: &[T], k: usize) -> PWindows<T> { if k == 0 { panic!("window size 0") } PWindows { s, i: 0, n: __slen(s), k } }
pub fn PWindows__next<'a, T>(s: &mut PWindows<'a, T>) -> Option<&'a [T]> { if s.n - s.i >= s.k { let r = __sub(s.s, s.i, s.k); s.i += 1; Some(r) } else { None } }
pub struct PSplitSl<'a, T, F> { s: &'a [T], i: usize, done: bool, f: F }

// ---- maps
pub struct MIter<'a, M> { m: &'a M, i: usize, n: usize }
pub fn __miter<M>(m: &M) -> MIter<M> { MIter { m, i: 0, n: __mlen(m) } }
pub fn MIter__next<'a, M, K, V>(s: &mut MIter<'a, M>) -> Option<(&'a K, &'a V)> { if s.i < s.n { let i = s.i; s.i += 1; Some((__mkey(s.m, i), __mval(s.m, i))) } else { None } }
pub fn MIter__next_back<'a, M, K, V>(s: &mut MIter<'a, M>) -> Option<(&'a K, &'a V)> { if s.i < s.n { s.n -= 1; Some((__mkey(s.m, s.n), __mval(s.m, s.n))) } else { None } }
pub fn MIter__len<'a, M>(s: &MIter<'a, M>) -> usize { s.n - s.i }
pub struct MIterMut<'a, M> { m: &'a M, i: usize, n: usize }
pub fn __miter_mut<M>(m: &M) -> MIterMut<M> { MIterMut { m, i: 0, n: __mlen(m) } }
pub fn MIterMut__next<'a, M, K, V>(s: &mut MIterMut<'a, M>) -> Option<(&'a K, &'a mut V)> { if s.i < s.n { let i = s.i; s.i += 1; Some((__mkey(s.m, i), __mvalm(s.m, i))) } else { None } }
pub struct MKeys<'a, M> { m: &'a M, i: usize, n: usize }
pub fn __mkeys<M>(m: &M) -> MKeys<M> { MKeys { m, i: 0, n: __mlen(m) } }
pub fn MKeys__next<'a, M, K>(s: &mut MKeys<'a, M>) -> Option<&'a K> { if s.i < s.n { let i = s.i; s.i += 1; Some(__mkey(s.m, i)) } else { None } }
pub struct MVals<'a, M> { m: &'a M, i: usize, n: usize }
pub fn __mvals<M>(m: &M) -> MVals<M> { MVals { m, i: 0, n: __mlen(m) } }
pub fn MVals__next<'a, M, V>(s: &mut MVals<'a, M>) -> Option<&'a V> { if s.i < s.n { let i = s.i; s.i += 1; Some(__mval(s.m, i)) } else { None } }
pub struct MValsMut<'a, M> { m: &'a M, i: usize, n: usize }
pub fn __mvals_mut<M>(m: &M) -> MValsMut<M> { MValsMut { m, i: 0, n: __mlen(m) } }
pub fn MValsMut__next<'a, M, V>(s: &mut MValsMut<'a, M>) -> Option<&'a mut V> { if s.i < s.n { let i = s.i; s.i += 1; Some(__mvalm(s.m, i)) } else { None } }

// ---- strings
pub struct PChars<'a> { s: &'a str, i: usize, n: usize }
pub fn __chars(s: &str) -> PChars { PChars { s, i: 0, n: __strlen(s) } }
pub fn PChars__next(s: &mut PChars) -> Option<char> {
    if s.i < s.n {
        let b = __byte(s.s, s.i);
        if b < 0x80 { s.i += 1; Some(b as char) } else { let (c, w) = __wide_char(s.s, s.i); s.i += w; Some(c) }
    } else { None }
}
pub fn PChars__next_back(s: &mut PChars) -> Option<char> {
    if s.i < s.n {
        let b = __byte(s.s, s.n - 1);
        if b < 0x80 { s.n -= 1; Some(b as char) } else { let (c, w) = __wide_char_back(s.s, s.n); s.n -= w; Some(c) }
    } else { None }
}
pub fn PChars__as_str<'a>(s: &PChars<'a>) -> &'a str { __ssub(s.s, s.i, s.n - s.i) }
pub struct PCharIdx<'a> { c: PChars<'a> }
pub fn __char_indices(s: &str) -> PCharIdx { PCharIdx { c: __chars(s) } }
pub fn PCharIdx__next(s: &mut PCharIdx) -> Option<(usize, char)> { let i = s.c.i; match PChars__next(&mut s.c) { Some(c) => Some((i, c)), None => None } }
pub struct PBytes<'a> { s: &'a str, i: usize, n: usize }
pub fn __bytes(s: &str) -> PBytes { PBytes { s, i: 0, n: __strlen(s) } }
pub fn PBytes__next(s: &mut PBytes) -> Option<u8> { if s.i < s.n { let b = __byte(s.s, s.i); s.i += 1; Some(b) } else { None } }
pub fn PBytes__next_back(s: &mut PBytes) -> Option<u8> { if s.i < s.n { s.n -= 1; Some(__byte(s.s, s.n)) } else { None } }
pub fn PBytes__len(s: &PBytes) -> usize { s.n - s.i }

// ---- ranges
pub fn Range__next(r: &mut std::ops::Range<usize>) -> Option<usize> { if r.start < r.end { let x = r.start; r.start += 1; Some(x) } else { None } }
pub fn Range__next_back(r: &mut std::ops::Range<usize>) -> Option<usize> { if r.start < r.end { r.end -= 1; Some(r.end) } else { None } }
pub fn Range__len(r: &std::ops::Range<usize>) -> usize { if r.start < r.end { r.end - r.start } else { 0 } }
pub fn Range__is_empty(r: &std::ops::Range<usize>) -> bool { !(r.start < r.end) }
pub fn RangeFrom__next(r: &mut std::ops::RangeFrom<usize>) -> Option<usize> { let x = r.start; r.start += 1; Some(x) }
pub struct PRangeIncl { start: usize, end: usize, lim: usize }
pub fn RangeInclusive__new(a: usize, b: usize) -> PRangeIncl { PRangeIncl { start: a, end: b, lim: b + 1 } }
pub fn PRangeIncl__next(r: &mut PRangeIncl) -> Option<usize> { if r.start < r.lim { let x = r.start; r.start += 1; Some(x) } else { None } }
pub fn PRangeIncl__next_back(r: &mut PRangeIncl) -> Option<usize> { if r.start < r.lim { r.lim -= 1; Some(r.lim) } else { None } }
pub fn PRangeIncl__contains(r: &PRangeIncl, x: &usize) -> bool { r.start <= *x && *x < r.lim }
pub fn PRangeIncl__start(r: &PRangeIncl) -> &usize { &r.start }
pub fn PRangeIncl__end(r: &PRangeIncl) -> &usize { &r.end }

// ---- adapters
pub struct PRev<I> { it: I }
pub fn Iterator__rev<I>(it: I) -> PRev<I> { PRev { it } }
pub fn PRev__next<I: DoubleEndedIterator>(s: &mut PRev<I>) -> Option<I::Item> { s.it.next_back() }
pub fn PRev__next_back<I: DoubleEndedIterator>(s: &mut PRev<I>) -> Option<I::Item> { s.it.next() }
pub struct PMap<I, F> { it: I, f: F }
pub fn Iterator__map<I, F>(it: I, f: F) -> PMap<I, F> { PMap { it, f } }
pub fn PMap__next<I: Iterator, B, F: FnMut(I::Item) -> B>(s: &mut PMap<I, F>) -> Option<B> { match s.it.next() { Some(x) => Some((s.f)(x)), None => None } }
pub fn PMap__next_back<I: DoubleEndedIterator, B, F: FnMut(I::Item) -> B>(s: &mut PMap<I, F>) -> Option<B> { match s.it.next_back() { Some(x) => Some((s.f)(x)), None => None } }
pub fn PMap__len<I: ExactSizeIterator, F>(s: &PMap<I, F>) -> usize { s.it.len() }
pub struct PFilter<I, F> { it: I, f: F }
pub fn Iterator__filter<I, F>(it: I, f: F) -> PFilter<I, F> { PFilter { it, f } }
pub fn PFilter__next<I: Iterator, F: FnMut(&I::Item) -> bool>(s: &mut PFilter<I, F>) -> Option<I::Item> { loop { match s.it.next() { Some(x) => if (s.f)(&x) { return Some(x); }, None => return None } } }
pub fn PFilter__next_back<I: DoubleEndedIterator, F: FnMut(&I::Item) -> bool>(s: &mut PFilter<I, F>) -> Option<I::Item> { loop { match s.it.next_back() { Some(x) => if (s.f)(&x) { return Some(x); }, None => return None } } }
pub struct PFilterMap<I, F> { it: I, f: F }
pub fn Iterator__filter_map<I, F>(it: I, f: F) -> PFilterMap<I, F> { PFilterMap { it, f } }
pub fn PFilterMap__next<I: Iterator, B, F: FnMut(I::Item) -> Option<B>>(s: &mut PFilterMap<I, F>) -> Option<B> { loop { match s.it.next() { Some(x) => if let Some(y) = (s.f)(x) { return Some(y); }, None => return None } } }
pub fn PFilter__step<I: Iterator, F: FnMut(&I::Item) -> bool>(s: &mut PFilter<I, F>) -> Option<I::Item> { match s.it.next() { Some(x) => if (s.f)(&x) { Some(x) } else { __retry() }, None => None } }
pub fn PFilterMap__step<I: Iterator, B, F: FnMut(I::Item) -> Option<B>>(s: &mut PFilterMap<I, F>) -> Option<B> { match s.it.next() { Some(x) => match (s.f)(x) { Some(y) => Some(y), None => __retry() }, None => None } }
pub struct PEnumerate<I> { it: I, k: usize }
pub fn Iterator__enumerate<I>(it: I) -> PEnumerate<I> { PEnumerate { it, k: 0 } }
pub fn PEnumerate__next<I: Iterator>(s: &mut PEnumerate<I>) -> Option<(usize, I::Item)> { match s.it.next() { Some(x) => { let k = s.k; s.k += 1; Some((k, x)) } None => None } }
pub struct PZip<I, J> { a: I, b: J }
pub fn Iterator__zip<I, J: IntoIterator>(a: I, b: J) -> PZip<I, J::IntoIter> { PZip { a, b: b.into_iter() } }
pub fn PZip__next<I: Iterator, J: Iterator>(s: &mut PZip<I, J>) -> Option<(I::Item, J::Item)> { match s.a.next() { Some(x) => match s.b.next() { Some(y) => Some((x, y)), None => None }, None => None } }
pub fn PZip__next_back<I: DoubleEndedIterator + ExactSizeIterator, J: DoubleEndedIterator + ExactSizeIterator>(s: &mut PZip<I, J>) -> Option<(I::Item, J::Item)> {
    let (x, y) = (s.a.len(), s.b.len());
    if x > y { let mut k = x - y; while k > 0 { s.a.next_back(); k -= 1; } }
    if y > x { let mut k = y - x; while k > 0 { s.b.next_back(); k -= 1; } }
    match s.a.next_back() { Some(x) => match s.b.next_back() { Some(y) => Some((x, y)), None => None }, None => None }
}
pub struct PChain<I, J> { a: I, b: J, first: bool }
pub fn Iterator__chain<I, J: IntoIterator>(a: I, b: J) -> PChain<I, J::IntoIter> { PChain { a, b: b.into_iter(), first: true } }
pub fn PChain__next<T, I: Iterator<Item = T>, J: Iterator<Item = T>>(s: &mut PChain<I, J>) -> Option<T> { if s.first { match s.a.next() { Some(x) => return Some(x), None => s.first = false } } s.b.next() }
pub struct PRepeat<T> { x: T }
pub fn iter__repeat<T: Clone>(x: T) -> PRepeat<T> { PRepeat { x } }
pub fn PRepeat__next<T: Clone>(s: &mut PRepeat<T>) -> Option<T> { Some(s.x.clone()) }
pub struct PRepeatWith<F> { f: F }
pub fn iter__repeat_with<T, F: FnMut() -> T>(f: F) -> PRepeatWith<F> { PRepeatWith { f } }
pub fn PRepeatWith__next<T, F: FnMut() -> T>(s: &mut PRepeatWith<F>) -> Option<T> { Some((s.f)()) }
pub struct PFromFn<F> { f: F }
pub fn iter__from_fn<T, F: FnMut() -> Option<T>>(f: F) -> PFromFn<F> { PFromFn { f } }
pub fn PFromFn__next<T, F: FnMut() -> Option<T>>(s: &mut PFromFn<F>) -> Option<T> { (s.f)() }
pub fn iter__once<T>(x: T) -> OptIter<T> { OptIter { o: Some(x) } }
pub fn iter__empty<T>() -> OptIter<T> { OptIter { o: None } }
pub struct PTake<I> { it: I, n: usize }
pub fn Iterator__take<I>(it: I, n: usize) -> PTake<I> { PTake { it, n } }
pub fn PTake__next<I: Iterator>(s: &mut PTake<I>) -> Option<I::Item> { if s.n > 0 { s.n -= 1; s.it.next() } else { None } }
pub struct PSkip<I> { it: I, n: usize }
pub fn Iterator__skip<I>(it: I, n: usize) -> PSkip<I> { PSkip { it, n } }
pub fn PSkip__next<I: Iterator>(s: &mut PSkip<I>) -> Option<I::Item> { while s.n > 0 { s.n -= 1; if let None = s.it.next() { s.n = 0; return None; } } s.it.next() }
pub struct PMapWhile<I, F> { it: I, f: F }
pub fn Iterator__map_while<I, F>(it: I, f: F) -> PMapWhile<I, F> { PMapWhile { it, f } }
pub fn PMapWhile__next<I: Iterator, B, F: FnMut(I::Item) -> Option<B>>(s: &mut PMapWhile<I, F>) -> Option<B> { match s.it.next() { Some(x) => (s.f)(x), None => None } }
pub fn Iterator__reduce<I: Iterator, F: FnMut(I::Item, I::Item) -> I::Item>(mut it: I, mut f: F) -> Option<I::Item> { let mut acc = match it.next() { Some(x) => x, None => return None }; while let Some(x) = it.next() { acc = f(acc, x); } Some(acc) }
pub fn Iterator__rfind<I: DoubleEndedIterator, F: FnMut(&I::Item) -> bool>(it: &mut I, mut f: F) -> Option<I::Item> { while let Some(x) = it.next_back() { if f(&x) { return Some(x); } } None }
pub struct PTakeWhile<I, F> { it: I, f: F, done: bool }
pub fn Iterator__take_while<I, F>(it: I, f: F) -> PTakeWhile<I, F> { PTakeWhile { it, f, done: false } }
pub fn PTakeWhile__next<I: Iterator, F: FnMut(&I::Item) -> bool>(s: &mut PTakeWhile<I, F>) -> Option<I::Item> { if s.done { return None; } match s.it.next() { Some(x) => if (s.f)(&x) { Some(x) } else { s.done = true; None }, None => None } }
pub struct PSkipWhile<I, F> { it: I, f: F, done: bool }
pub fn Iterator__skip_while<I, F>(it: I, f: F) -> PSkipWhile<I, F> { PSkipWhile { it, f, done: false } }
pub fn PSkipWhile__next<I: Iterator, F: FnMut(&I::Item) -> bool>(s: &mut PSkipWhile<I, F>) -> Option<I::Item> { loop { match s.it.next() { Some(x) => { if s.done || !(s.f)(&x) { s.done = true; return Some(x); } } None => return None } } }
pub struct PCloned<I> { it: I }
pub fn Iterator__cloned<I>(it: I) -> PCloned<I> { PCloned { it } }
pub fn Iterator__copied<I>(it: I) -> PCloned<I> { PCloned { it } }
pub fn PCloned__next<'a, T: Clone + 'a, I: Iterator<Item = &'a T>>(s: &mut PCloned<I>) -> Option<T> { match s.it.next() { Some(x) => Some(x.clone()), None => None } }
pub fn PCloned__next_back<'a, T: Clone + 'a, I: DoubleEndedIterator<Item = &'a T>>(s: &mut PCloned<I>) -> Option<T> { match s.it.next_back() { Some(x) => Some(x.clone()), None => None } }
pub fn PCloned__len<I: ExactSizeIterator>(s: &PCloned<I>) -> usize { s.it.len() }
pub struct PInspect<I, F> { it: I, f: F }
pub fn Iterator__inspect<I, F>(it: I, f: F) -> PInspect<I, F> { PInspect { it, f } }
pub fn PInspect__next<I: Iterator, F: FnMut(&I::Item)>(s: &mut PInspect<I, F>) -> Option<I::Item> { match s.it.next() { Some(x) => { (s.f)(&x); Some(x) } None => None } }
pub struct PPeek<I, T> { it: I, p: Option<Option<T>> }
pub fn Iterator__peekable<I: Iterator>(it: I) -> PPeek<I, I::Item> { PPeek { it, p: None } }
pub fn PPeek__next<I: Iterator>(s: &mut PPeek<I, I::Item>) -> Option<I::Item> { match std::mem::replace(&mut s.p, None) { Some(x) => x, None => s.it.next() } }
pub fn PPeek__peek<I: Iterator>(s: &mut PPeek<I, I::Item>) -> Option<&I::Item> { if let None = s.p { let x = s.it.next(); s.p = Some(x); } match &s.p { Some(Some(x)) => Some(x), _ => None } }
pub struct PStepBy<I> { it: I, k: usize, first: bool }
pub fn Iterator__step_by<I>(it: I, k: usize) -> PStepBy<I> { if k == 0 { panic!("step 0") } PStepBy { it, k, first: true } }
pub fn PStepBy__next<I: Iterator>(s: &mut PStepBy<I>) -> Option<I::Item> { if s.first { s.first = false; return s.it.next(); } let mut j = s.k - 1; while j > 0 { j -= 1; if let None = s.it.next() { return None; } } s.it.next() }
pub struct PFlatMap<I, F, J> { it: I, f: F, cur: Option<J> }
pub fn Iterator__flat_map<I: Iterator, U: IntoIterator, F: FnMut(I::Item) -> U>(it: I, f: F) -> PFlatMap<I, F, U::IntoIter> { PFlatMap { it, f, cur: None } }
pub fn PFlatMap__next<I: Iterator, U: IntoIterator, F: FnMut(I::Item) -> U>(s: &mut PFlatMap<I, F, U::IntoIter>) -> Option<U::Item> {
    loop {
        if let Some(c) = &mut s.cur { if let Some(x) = c.next() { return Some(x); } s.cur = None; }
        match s.it.next() { Some(x) => s.cur = Some((s.f)(x).into_iter()), None => return None }
    }
}
pub fn IntoIterator__into_iter<I>(it: I) -> I { it }
pub fn Iterator__by_ref<I>(it: &mut I) -> &mut I { it }
pub fn Iterator__fuse<I>(it: I) -> I { it }

// ---- consumers
pub fn Iterator__for_each<I: Iterator, F: FnMut(I::Item)>(mut it: I, mut f: F) { while let Some(x) = it.next() { f(x); } }
pub fn Iterator__fold<I: Iterator, B, F: FnMut(B, I::Item) -> B>(mut it: I, init: B, mut f: F) -> B { let mut acc = init; while let Some(x) = it.next() { acc = f(acc, x); } acc }
pub fn Iterator__try_fold_opt<I: Iterator, B, F: FnMut(B, I::Item) -> Option<B>>(it: &mut I, init: B, mut f: F) -> Option<B> { let mut acc = init; while let Some(x) = it.next() { match f(acc, x) { Some(a) => acc = a, None => return None } } Some(acc) }
pub fn Iterator__try_fold_res<I: Iterator, B, E, F: FnMut(B, I::Item) -> Result<B, E>>(it: &mut I, init: B, mut f: F) -> Result<B, E> { let mut acc = init; while let Some(x) = it.next() { match f(acc, x) { Ok(a) => acc = a, Err(e) => return Err(e) } } Ok(acc) }
pub fn Iterator__try_for_each<I: Iterator, E, F: FnMut(I::Item) -> Result<(), E>>(it: &mut I, mut f: F) -> Result<(), E> { while let Some(x) = it.next() { match f(x) { Ok(()) => {} Err(e) => return Err(e) } } Ok(()) }
pub fn Iterator__count<I: Iterator>(mut it: I) -> usize { let mut n = 0; while let Some(_) = it.next() { n += 1; } n }
pub fn Iterator__last<I: Iterator>(mut it: I) -> Option<I::Item> { let mut r = None; while let Some(x) = it.next() { r = Some(x); } r }
pub fn Iterator__nth<I: Iterator>(it: &mut I, mut n: usize) -> Option<I::Item> { while n > 0 { if let None = it.next() { return None; } n -= 1; } it.next() }
pub fn Iterator__all<I: Iterator, F: FnMut(I::Item) -> bool>(it: &mut I, mut f: F) -> bool { while let Some(x) = it.next() { if !f(x) { return false; } } true }
pub fn Iterator__any<I: Iterator, F: FnMut(I::Item) -> bool>(it: &mut I, mut f: F) -> bool { while let Some(x) = it.next() { if f(x) { return true; } } false }
pub fn Iterator__find<I: Iterator, F: FnMut(&I::Item) -> bool>(it: &mut I, mut f: F) -> Option<I::Item> { while let Some(x) = it.next() { if f(&x) { return Some(x); } } None }
pub fn Iterator__find_map<I: Iterator, B, F: FnMut(I::Item) -> Option<B>>(it: &mut I, mut f: F) -> Option<B> { while let Some(x) = it.next() { if let Some(y) = f(x) { return Some(y); } } None }
pub fn Iterator__position<I: Iterator, F: FnMut(I::Item) -> bool>(it: &mut I, mut f: F) -> Option<usize> { let mut i = 0; while let Some(x) = it.next() { if f(x) { return Some(i); } i += 1; } None }
pub fn Iterator__rposition<I: DoubleEndedIterator + ExactSizeIterator, F: FnMut(I::Item) -> bool>(it: &mut I, mut f: F) -> Option<usize> { let mut i = (*it).len(); while let Some(x) = it.next_back() { i -= 1; if f(x) { return Some(i); } } None }
pub fn Iterator__min_by<I: Iterator, F: FnMut(&I::Item, &I::Item) -> Ordering>(mut it: I, mut f: F) -> Option<I::Item> {
    let mut best = match it.next() { Some(x) => x, None => return None };
    while let Some(x) = it.next() { best = match f(&best, &x) { Ordering::Greater => x, _ => best }; }
    Some(best)
}
pub fn Iterator__max_by<I: Iterator, F: FnMut(&I::Item, &I::Item) -> Ordering>(mut it: I, mut f: F) -> Option<I::Item> {
    let mut best = match it.next() { Some(x) => x, None => return None };
    while let Some(x) = it.next() { best = match f(&best, &x) { Ordering::Greater => best, _ => x }; }
    Some(best)
}
pub fn Iterator__min_by_key<I: Iterator, K: Ord, F: FnMut(&I::Item) -> K>(mut it: I, mut f: F) -> Option<I::Item> {
    let mut best = match it.next() { Some(x) => x, None => return None };
    let mut bk = f(&best);
    while let Some(x) = it.next() { let k = f(&x); match bk.cmp(&k) { Ordering::Greater => { best = x; bk = k; } _ => {} } }
    Some(best)
}
pub fn Iterator__max_by_key<I: Iterator, K: Ord, F: FnMut(&I::Item) -> K>(mut it: I, mut f: F) -> Option<I::Item> {
    let mut best = match it.next() { Some(x) => x, None => return None };
    let mut bk = f(&best);
    while let Some(x) = it.next() { let k = f(&x); match bk.cmp(&k) { Ordering::Greater => {} _ => { best = x; bk = k; } } }
    Some(best)
}
pub fn Iterator__min<I: Iterator>(mut it: I) -> Option<I::Item> where I::Item: Ord {
    let mut best = match it.next() { Some(x) => x, None => return None };
    while let Some(x) = it.next() { best = match best.cmp(&x) { Ordering::Greater => x, _ => best }; }
    Some(best)
}
pub fn Iterator__max<I: Iterator>(mut it: I) -> Option<I::Item> where I::Item: Ord {
    let mut best = match it.next() { Some(x) => x, None => return None };
    while let Some(x) = it.next() { best = match best.cmp(&x) { Ordering::Greater => best, _ => x }; }
    Some(best)
}
pub fn Iterator__sum<I: Iterator<Item = usize>>(mut it: I) -> usize { let mut n = 0; while let Some(x) = it.next() { n = n + x; } n }
pub fn __collect_vec<I: Iterator>(mut it: I) -> Vec<I::Item> { let mut v = Vec::new(); while let Some(x) = it.next() { v.push(x); } v }
pub fn __collect_string<I: Iterator<Item = char>>(mut it: I) -> String { let mut v = String::new(); while let Some(x) = it.next() { v.push(x); } v }
pub fn __collect_string_s<'a, I: Iterator<Item = &'a str>>(mut it: I) -> String { let mut v = String::new(); while let Some(x) = it.next() { v.push_str(x); } v }
pub fn __collect_btree<K: Ord, V, I: Iterator<Item = (K, V)>>(mut it: I) -> BTreeMap<K, V> { let mut m = BTreeMap::new(); while let Some((k, v)) = it.next() { m.insert(k, v); } m }
pub fn __collect_hash<K: Eq + std::hash::Hash, V, I: Iterator<Item = (K, V)>>(mut it: I) -> HashMap<K, V> { let mut m = HashMap::new(); while let Some((k, v)) = it.next() { m.insert(k, v); } m }
pub fn __collect_opt_vec<T, I: Iterator<Item = Option<T>>>(mut it: I) -> Option<Vec<T>> { let mut v = Vec::new(); while let Some(x) = it.next() { match x { Some(y) => v.push(y), None => return None } } Some(v) }
pub fn __collect_opt_string<I: Iterator<Item = Option<char>>>(mut it: I) -> Option<String> { let mut v = String::new(); while let Some(x) = it.next() { match x { Some(y) => v.push(y), None => return None } } Some(v) }
pub fn __collect_opt_btree<K: Ord, V, I: Iterator<Item = Option<(K, V)>>>(mut it: I) -> Option<BTreeMap<K, V>> { let mut m = BTreeMap::new(); while let Some(x) = it.next() { match x { Some((k, v)) => { m.insert(k, v); } None => return None } } Some(m) }
pub fn __collect_opt_hash<K: Eq + std::hash::Hash, V, I: Iterator<Item = Option<(K, V)>>>(mut it: I) -> Option<HashMap<K, V>> { let mut m = HashMap::new(); while let Some(x) = it.next() { match x { Some((k, v)) => { m.insert(k, v); } None => return None } } Some(m) }
pub fn __collect_res_string<E, I: Iterator<Item = Result<char, E>>>(mut it: I) -> Result<String, E> { let mut v = String::new(); while let Some(x) = it.next() { match x { Ok(y) => v.push(y), Err(e) => return Err(e) } } Ok(v) }
pub fn __collect_res_btree<K: Ord, V, E, I: Iterator<Item = Result<(K, V), E>>>(mut it: I) -> Result<BTreeMap<K, V>, E> { let mut m = BTreeMap::new(); while let Some(x) = it.next() { match x { Ok((k, v)) => { m.insert(k, v); } Err(e) => return Err(e) } } Ok(m) }
pub fn __collect_res_hash<K: Eq + std::hash::Hash, V, E, I: Iterator<Item = Result<(K, V), E>>>(mut it: I) -> Result<HashMap<K, V>, E> { let mut m = HashMap::new(); while let Some(x) = it.next() { match x { Ok((k, v)) => { m.insert(k, v); } Err(e) => return Err(e) } } Ok(m) }
pub fn __collect_res_vec<T, E, I: Iterator<Item = Result<T, E>>>(mut it: I) -> Result<Vec<T>, E> { let mut v = Vec::new(); while let Some(x) = it.next() { match x { Ok(y) => v.push(y), Err(e) => return Err(e) } } Ok(v) }
pub fn __extend_vec<T, I: Iterator<Item = T>>(v: &mut Vec<T>, mut it: I) { while let Some(x) = it.next() { v.push(x); } }
pub fn __extend_vec_ref<'a, T: Copy + 'a, I: Iterator<Item = &'a T>>(v: &mut Vec<T>, mut it: I) { while let Some(x) = it.next() { v.push(*x); } }
pub fn __extend_string<I: Iterator<Item = char>>(v: &mut String, mut it: I) { while let Some(x) = it.next() { v.push(x); } }
pub fn __extend_map<K: Ord, V, I: Iterator<Item = (K, V)>>(m: &mut BTreeMap<K, V>, mut it: I) { while let Some((k, v)) = it.next() { m.insert(k, v); } }
pub fn Vec__retain<T, F: FnMut(&T) -> bool>(v: &mut Vec<T>, mut f: F) { let mut out = Vec::new(); let n = v.len(); let mut i = 0; while i < n { let x = __velem(v, i); if f(&x) { out.push(x); } i += 1; } *v = out; }

// ---- comparisons
pub fn Ordering__then(a: Ordering, b: Ordering) -> Ordering { match a { Ordering::Equal => b, _ => a } }
pub fn Ordering__then_with<F: FnOnce() -> Ordering>(a: Ordering, f: F) -> Ordering { match a { Ordering::Equal => f(), _ => a } }
pub fn Ordering__reverse(a: Ordering) -> Ordering { match a { Ordering::Less => Ordering::Greater, Ordering::Equal => Ordering::Equal, Ordering::Greater => Ordering::Less } }
pub fn Ordering__is_lt(a: Ordering) -> bool { match a { Ordering::Less => true, _ => false } }
pub fn Ordering__is_gt(a: Ordering) -> bool { match a { Ordering::Greater => true, _ => false } }
pub fn Ordering__is_le(a: Ordering) -> bool { match a { Ordering::Greater => false, _ => true } }
pub fn Ordering__is_ge(a: Ordering) -> bool { match a { Ordering::Less => false, _ => true } }
pub fn Ordering__is_eq(a: Ordering) -> bool { match a { Ordering::Equal => true, _ => false } }
pub fn Ordering__is_ne(a: Ordering) -> bool { match a { Ordering::Equal => false, _ => true } }
// ---- patterns
/// 0 or 1 when the predicate gives that answer for every character that is not ASCII, else 2
pub fn __wide_const<F: FnMut(char) -> bool>(f: &mut F) -> u8 { loop {} }
pub fn str__contains_fn<F: FnMut(char) -> bool>(s: &str, f: F) -> bool { let mut it = __chars(s); PChars__any(&mut it, f) }
/// bytes of 0x80 and above are parts of characters that are not ASCII
pub fn PChars__any<F: FnMut(char) -> bool>(s: &mut PChars, mut f: F) -> bool {
    if __wide_const(&mut f) == 0 {
        while s.i < s.n { let b = __byte(s.s, s.i); s.i += 1; if b < 0x80 && f(b as char) { return true; } }
        return false;
    }
    while let Some(c) = PChars__next(s) { if f(c) { return true; } }
    false
}
pub fn PChars__all<F: FnMut(char) -> bool>(s: &mut PChars, mut f: F) -> bool {
    let w = __wide_const(&mut f);
    if w == 1 {
        while s.i < s.n { let b = __byte(s.s, s.i); s.i += 1; if b < 0x80 && !f(b as char) { return false; } }
        return true;
    }
    if w == 0 {
        while s.i < s.n { let b = __byte(s.s, s.i); s.i += 1; if b >= 0x80 || !f(b as char) { return false; } }
        return true;
    }
    while let Some(c) = PChars__next(s) { if !f(c) { return false; } }
    true
}
pub fn str__contains_byte(s: &str, p: u8) -> bool { let n = __strlen(s); let mut i = 0; while i < n { if __byte(s, i) == p { return true; } i += 1; } false }
pub fn str__find_byte(s: &str, p: u8) -> Option<usize> { let n = __strlen(s); let mut i = 0; while i < n { if __byte(s, i) == p { return Some(i); } i += 1; } None }
pub fn str__rfind_byte(s: &str, p: u8) -> Option<usize> { let mut i = __strlen(s); while i > 0 { i -= 1; if __byte(s, i) == p { return Some(i); } } None }
pub fn str__find_set(s: &str, a: u8, b: u8, c: u8, d: u8) -> Option<usize> { let n = __strlen(s); let mut i = 0; while i < n { let x = __byte(s, i); if x == a || x == b || x == c || x == d { return Some(i); } i += 1; } None }
pub fn str__rfind_set(s: &str, a: u8, b: u8, c: u8, d: u8) -> Option<usize> { let mut i = __strlen(s); while i > 0 { i -= 1; let x = __byte(s, i); if x == a || x == b || x == c || x == d { return Some(i); } } None }
pub fn str__find_fn<F: FnMut(char) -> bool>(s: &str, mut f: F) -> Option<usize> {
    if __wide_const(&mut f) == 0 {
        let n = __strlen(s);
        let mut i = 0;
        while i < n { let b = __byte(s, i); if b < 0x80 && f(b as char) { return Some(i); } i += 1; }
        return None;
    }
    let mut it = __chars(s);
    loop { let i = it.i; match PChars__next(&mut it) { Some(c) => if f(c) { return Some(i); }, None => return None } }
}
pub fn str__rfind_fn<F: FnMut(char) -> bool>(s: &str, mut f: F) -> Option<usize> {
    if __wide_const(&mut f) == 0 {
        let mut i = __strlen(s);
        while i > 0 { i -= 1; let b = __byte(s, i); if b < 0x80 && f(b as char) { return Some(i); } }
        return None;
    }
    let mut it = __chars(s);
    let mut r = None;
    loop { let i = it.i; match PChars__next(&mut it) { Some(c) => if f(c) { r = Some(i); }, None => return r } }
}
pub fn str__contains_ch(s: &str, p: char) -> bool { let mut it = __chars(s); while let Some(c) = PChars__next(&mut it) { if c == p { return true; } } false }
