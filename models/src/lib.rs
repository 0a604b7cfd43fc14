//! Reference semantics of the std combinators the repository uses, written in the
//! small subset of Rust the analyser interprets natively (matches, loops, calls).
//! The fact driver dumps their MIR; `ar/models.py` maps a std path to a function here.
#![allow(dead_code, clippy::all)]
use std::cmp::Ordering;

// ---------------------------------------------------------------- Option
pub fn option_map<T, U, F: FnOnce(T) -> U>(o: Option<T>, f: F) -> Option<U> {
  match o {
    Some(x) => Some(f(x)),
    None => None,
  }
}
pub fn option_inspect<T, F: FnOnce(&T)>(o: Option<T>, f: F) -> Option<T> {
  match o {
    Some(x) => {
      f(&x);
      Some(x)
    }
    None => None,
  }
}
pub fn option_map_or<T, U, F: FnOnce(T) -> U>(o: Option<T>, d: U, f: F) -> U {
  match o {
    Some(x) => f(x),
    None => d,
  }
}
pub fn option_map_or_else<T, U, D: FnOnce() -> U, F: FnOnce(T) -> U>(o: Option<T>, d: D, f: F) -> U {
  match o {
    Some(x) => f(x),
    None => d(),
  }
}
pub fn option_and_then<T, U, F: FnOnce(T) -> Option<U>>(o: Option<T>, f: F) -> Option<U> {
  match o {
    Some(x) => f(x),
    None => None,
  }
}
pub fn option_and<T, U>(o: Option<T>, d: Option<U>) -> Option<U> {
  match o {
    Some(_) => d,
    None => None,
  }
}
pub fn option_or<T>(o: Option<T>, d: Option<T>) -> Option<T> {
  match o {
    Some(x) => Some(x),
    None => d,
  }
}
pub fn option_or_else<T, F: FnOnce() -> Option<T>>(o: Option<T>, f: F) -> Option<T> {
  match o {
    Some(x) => Some(x),
    None => f(),
  }
}
pub fn option_unwrap_or<T>(o: Option<T>, d: T) -> T {
  match o {
    Some(x) => x,
    None => d,
  }
}
pub fn option_unwrap_or_else<T, F: FnOnce() -> T>(o: Option<T>, f: F) -> T {
  match o {
    Some(x) => x,
    None => f(),
  }
}
pub fn option_ok_or<T, E>(o: Option<T>, e: E) -> Result<T, E> {
  match o {
    Some(x) => Ok(x),
    None => Err(e),
  }
}
pub fn option_ok_or_else<T, E, F: FnOnce() -> E>(o: Option<T>, f: F) -> Result<T, E> {
  match o {
    Some(x) => Ok(x),
    None => Err(f()),
  }
}
pub fn option_filter<T, F: FnOnce(&T) -> bool>(o: Option<T>, f: F) -> Option<T> {
  match o {
    Some(x) => {
      if f(&x) {
        Some(x)
      } else {
        None
      }
    }
    None => None,
  }
}
pub fn option_is_some_and<T, F: FnOnce(T) -> bool>(o: Option<T>, f: F) -> bool {
  match o {
    Some(x) => f(x),
    None => false,
  }
}
pub fn option_is_none_or<T, F: FnOnce(T) -> bool>(o: Option<T>, f: F) -> bool {
  match o {
    Some(x) => f(x),
    None => true,
  }
}
pub fn option_xor<T>(a: Option<T>, b: Option<T>) -> Option<T> {
  match (a, b) {
    (Some(x), None) => Some(x),
    (None, Some(x)) => Some(x),
    _ => None,
  }
}
pub fn option_zip<T, U>(a: Option<T>, b: Option<U>) -> Option<(T, U)> {
  match (a, b) {
    (Some(x), Some(y)) => Some((x, y)),
    _ => None,
  }
}
pub fn option_transpose<T, E>(a: Option<Result<T, E>>) -> Result<Option<T>, E> {
  match a {
    Some(Ok(x)) => Ok(Some(x)),
    Some(Err(e)) => Err(e),
    None => Ok(None),
  }
}
pub fn option_flatten<T>(a: Option<Option<T>>) -> Option<T> {
  match a {
    Some(x) => x,
    None => None,
  }
}
pub fn option_as_ref<T>(o: &Option<T>) -> Option<&T> {
  match o {
    Some(x) => Some(x),
    None => None,
  }
}
pub fn option_as_mut<T>(o: &mut Option<T>) -> Option<&mut T> {
  match o {
    Some(x) => Some(x),
    None => None,
  }
}
pub fn option_is_some<T>(o: &Option<T>) -> bool {
  match o {
    Some(_) => true,
    None => false,
  }
}
pub fn option_is_none<T>(o: &Option<T>) -> bool {
  match o {
    Some(_) => false,
    None => true,
  }
}
pub fn option_get_or_insert_with<T, F: FnOnce() -> T>(o: &mut Option<T>, f: F) -> &mut T {
  if let None = o {
    *o = Some(f());
  }
  match o {
    Some(x) => x,
    None => panic!(),
  }
}
pub fn option_insert<T>(o: &mut Option<T>, v: T) -> &mut T {
  *o = Some(v);
  match o {
    Some(x) => x,
    None => panic!(),
  }
}

// ---------------------------------------------------------------- Result
pub fn result_map<T, U, E, F: FnOnce(T) -> U>(o: Result<T, E>, f: F) -> Result<U, E> {
  match o {
    Ok(x) => Ok(f(x)),
    Err(e) => Err(e),
  }
}
pub fn result_map_err<T, E, G, F: FnOnce(E) -> G>(o: Result<T, E>, f: F) -> Result<T, G> {
  match o {
    Ok(x) => Ok(x),
    Err(e) => Err(f(e)),
  }
}
pub fn result_inspect<T, E, F: FnOnce(&T)>(o: Result<T, E>, f: F) -> Result<T, E> {
  match o {
    Ok(x) => {
      f(&x);
      Ok(x)
    }
    Err(e) => Err(e),
  }
}
pub fn result_inspect_err<T, E, F: FnOnce(&E)>(o: Result<T, E>, f: F) -> Result<T, E> {
  match o {
    Ok(x) => Ok(x),
    Err(e) => {
      f(&e);
      Err(e)
    }
  }
}
pub fn result_map_or<T, E, U, F: FnOnce(T) -> U>(o: Result<T, E>, d: U, f: F) -> U {
  match o {
    Ok(x) => f(x),
    Err(_) => d,
  }
}
pub fn result_map_or_else<T, E, U, D: FnOnce(E) -> U, F: FnOnce(T) -> U>(o: Result<T, E>, d: D, f: F) -> U {
  match o {
    Ok(x) => f(x),
    Err(e) => d(e),
  }
}
pub fn result_and_then<T, U, E, F: FnOnce(T) -> Result<U, E>>(o: Result<T, E>, f: F) -> Result<U, E> {
  match o {
    Ok(x) => f(x),
    Err(e) => Err(e),
  }
}
pub fn result_and<T, U, E>(o: Result<T, E>, d: Result<U, E>) -> Result<U, E> {
  match o {
    Ok(_) => d,
    Err(e) => Err(e),
  }
}
pub fn result_or_else<T, E, G, F: FnOnce(E) -> Result<T, G>>(o: Result<T, E>, f: F) -> Result<T, G> {
  match o {
    Ok(x) => Ok(x),
    Err(e) => f(e),
  }
}
pub fn result_or<T, E, G>(o: Result<T, E>, d: Result<T, G>) -> Result<T, G> {
  match o {
    Ok(x) => Ok(x),
    Err(_) => d,
  }
}
pub fn result_unwrap_or<T, E>(o: Result<T, E>, d: T) -> T {
  match o {
    Ok(x) => x,
    Err(_) => d,
  }
}
pub fn result_unwrap_or_else<T, E, F: FnOnce(E) -> T>(o: Result<T, E>, f: F) -> T {
  match o {
    Ok(x) => x,
    Err(e) => f(e),
  }
}
pub fn result_ok<T, E>(o: Result<T, E>) -> Option<T> {
  match o {
    Ok(x) => Some(x),
    Err(_) => None,
  }
}
pub fn result_err<T, E>(o: Result<T, E>) -> Option<E> {
  match o {
    Ok(_) => None,
    Err(e) => Some(e),
  }
}
pub fn result_is_ok<T, E>(o: &Result<T, E>) -> bool {
  match o {
    Ok(_) => true,
    Err(_) => false,
  }
}
pub fn result_is_err<T, E>(o: &Result<T, E>) -> bool {
  match o {
    Ok(_) => false,
    Err(_) => true,
  }
}
pub fn result_is_ok_and<T, E, F: FnOnce(T) -> bool>(o: Result<T, E>, f: F) -> bool {
  match o {
    Ok(x) => f(x),
    Err(_) => false,
  }
}
pub fn result_is_err_and<T, E, F: FnOnce(E) -> bool>(o: Result<T, E>, f: F) -> bool {
  match o {
    Ok(_) => false,
    Err(e) => f(e),
  }
}
pub fn result_as_ref<T, E>(o: &Result<T, E>) -> Result<&T, &E> {
  match o {
    Ok(x) => Ok(x),
    Err(e) => Err(e),
  }
}
pub fn bool_then<T, F: FnOnce() -> T>(b: bool, f: F) -> Option<T> {
  if b {
    Some(f())
  } else {
    None
  }
}
pub fn bool_then_some<T>(b: bool, v: T) -> Option<T> {
  if b {
    Some(v)
  } else {
    None
  }
}

// ---------------------------------------------------------------- iterator adapters
pub trait It {
  type Item;
  fn next(&mut self) -> Option<Self::Item>;
}
pub struct Map<I, F> {
  it: I,
  f: F,
}
impl<I: It, B, F: FnMut(I::Item) -> B> It for Map<I, F> {
  type Item = B;
  fn next(&mut self) -> Option<B> {
    match self.it.next() {
      Some(x) => Some((self.f)(x)),
      None => None,
    }
  }
}
pub fn iter_map<I, F>(it: I, f: F) -> Map<I, F> {
  Map { it, f }
}
pub struct Filter<I, F> {
  it: I,
  f: F,
}
impl<I: It, F: FnMut(&I::Item) -> bool> It for Filter<I, F> {
  type Item = I::Item;
  fn next(&mut self) -> Option<I::Item> {
    loop {
      match self.it.next() {
        Some(x) => {
          if (self.f)(&x) {
            return Some(x);
          }
        }
        None => return None,
      }
    }
  }
}
pub fn iter_filter<I, F>(it: I, f: F) -> Filter<I, F> {
  Filter { it, f }
}
pub struct FilterMap<I, F> {
  it: I,
  f: F,
}
impl<I: It, B, F: FnMut(I::Item) -> Option<B>> It for FilterMap<I, F> {
  type Item = B;
  fn next(&mut self) -> Option<B> {
    loop {
      match self.it.next() {
        Some(x) => {
          if let Some(y) = (self.f)(x) {
            return Some(y);
          }
        }
        None => return None,
      }
    }
  }
}
pub fn iter_filter_map<I, F>(it: I, f: F) -> FilterMap<I, F> {
  FilterMap { it, f }
}
pub struct TakeWhile<I, F> {
  it: I,
  f: F,
  done: bool,
}
impl<I: It, F: FnMut(&I::Item) -> bool> It for TakeWhile<I, F> {
  type Item = I::Item;
  fn next(&mut self) -> Option<I::Item> {
    if self.done {
      return None;
    }
    match self.it.next() {
      Some(x) => {
        if (self.f)(&x) {
          Some(x)
        } else {
          self.done = true;
          None
        }
      }
      None => None,
    }
  }
}
pub fn iter_take_while<I, F>(it: I, f: F) -> TakeWhile<I, F> {
  TakeWhile { it, f, done: false }
}
pub struct SkipWhile<I, F> {
  it: I,
  f: F,
  started: bool,
}
impl<I: It, F: FnMut(&I::Item) -> bool> It for SkipWhile<I, F> {
  type Item = I::Item;
  fn next(&mut self) -> Option<I::Item> {
    loop {
      match self.it.next() {
        Some(x) => {
          if self.started {
            return Some(x);
          }
          if !(self.f)(&x) {
            self.started = true;
            return Some(x);
          }
        }
        None => return None,
      }
    }
  }
}
pub fn iter_skip_while<I, F>(it: I, f: F) -> SkipWhile<I, F> {
  SkipWhile { it, f, started: false }
}
pub struct Inspect<I, F> {
  it: I,
  f: F,
}
impl<I: It, F: FnMut(&I::Item)> It for Inspect<I, F> {
  type Item = I::Item;
  fn next(&mut self) -> Option<I::Item> {
    match self.it.next() {
      Some(x) => {
        (self.f)(&x);
        Some(x)
      }
      None => None,
    }
  }
}
pub fn iter_inspect<I, F>(it: I, f: F) -> Inspect<I, F> {
  Inspect { it, f }
}
pub struct Enumerate<I> {
  it: I,
  i: usize,
}
/// the position of the element the underlying iterator just produced (intrinsic)
pub fn iter_index<I>(_it: &I, _n: usize) -> usize {
  loop {}
}
impl<I: It> It for Enumerate<I> {
  type Item = (usize, I::Item);
  fn next(&mut self) -> Option<(usize, I::Item)> {
    match self.it.next() {
      Some(x) => {
        let i = iter_index(&self.it, self.i);
        Some((i, x))
      }
      None => None,
    }
  }
}
pub fn iter_enumerate<I>(it: I) -> Enumerate<I> {
  Enumerate { it, i: 0 }
}
pub struct Chain<A, B> {
  a: Option<A>,
  b: B,
}
impl<A: It, B: It<Item = A::Item>> It for Chain<A, B> {
  type Item = A::Item;
  fn next(&mut self) -> Option<A::Item> {
    if let Some(a) = &mut self.a {
      match a.next() {
        Some(x) => return Some(x),
        None => {
          self.a = None;
        }
      }
    }
    self.b.next()
  }
}
pub fn into_iter_any<I>(it: I) -> I {
  it
}
pub struct Zip<A, B> {
  a: A,
  b: B,
}
impl<A: It, B: It> It for Zip<A, B> {
  type Item = (A::Item, B::Item);
  fn next(&mut self) -> Option<(A::Item, B::Item)> {
    match self.a.next() {
      Some(x) => match self.b.next() {
        Some(y) => Some((x, y)),
        None => None,
      },
      None => None,
    }
  }
}
pub struct FlatMap<I, F, J> {
  it: I,
  f: F,
  cur: Option<J>,
}
impl<I: It, J: It, F: FnMut(I::Item) -> J> It for FlatMap<I, F, J> {
  type Item = J::Item;
  fn next(&mut self) -> Option<J::Item> {
    loop {
      if let Some(c) = &mut self.cur {
        match c.next() {
          Some(x) => return Some(x),
          None => {
            self.cur = None;
          }
        }
      }
      match self.it.next() {
        Some(x) => {
          let j = (self.f)(x);
          self.cur = Some(into_iter_any(j));
        }
        None => return None,
      }
    }
  }
}
pub fn iter_flat_map<I, F, J>(it: I, f: F) -> FlatMap<I, F, J> {
  FlatMap { it, f, cur: None }
}
pub fn iter_flatten<I, J>(it: I) -> Flatten<I, J> {
  Flatten { it, cur: None }
}
pub struct Flatten<I, J> {
  it: I,
  cur: Option<J>,
}
impl<I: It<Item = J>, J: It> It for Flatten<I, J> {
  type Item = J::Item;
  fn next(&mut self) -> Option<J::Item> {
    loop {
      if let Some(c) = &mut self.cur {
        match c.next() {
          Some(x) => return Some(x),
          None => {
            self.cur = None;
          }
        }
      }
      match self.it.next() {
        Some(x) => {
          self.cur = Some(into_iter_any(x));
        }
        None => return None,
      }
    }
  }
}
pub fn iter_chain_<A, B>(a: A, b: B) -> Chain<A, B> {
  Chain { a: Some(a), b }
}
pub fn iter_chain<A, B>(a: A, b: B) -> Chain<A, B> {
  let b = into_iter_any(b);
  Chain { a: Some(a), b }
}
pub fn iter_zip<A, B>(a: A, b: B) -> Zip<A, B> {
  let b = into_iter_any(b);
  Zip { a, b }
}
pub fn iter_identity<I>(it: I) -> I {
  it
}

// ---------------------------------------------------------------- iterator consumers
pub fn iter_find<I: It, F: FnMut(&I::Item) -> bool>(it: &mut I, mut f: F) -> Option<I::Item> {
  loop {
    match it.next() {
      Some(x) => {
        if f(&x) {
          return Some(x);
        }
      }
      None => return None,
    }
  }
}
pub fn iter_find_map<I: It, B, F: FnMut(I::Item) -> Option<B>>(it: &mut I, mut f: F) -> Option<B> {
  loop {
    match it.next() {
      Some(x) => {
        if let Some(y) = f(x) {
          return Some(y);
        }
      }
      None => return None,
    }
  }
}
pub fn iter_any<I: It, F: FnMut(I::Item) -> bool>(it: &mut I, mut f: F) -> bool {
  loop {
    match it.next() {
      Some(x) => {
        if f(x) {
          return true;
        }
      }
      None => return false,
    }
  }
}
pub fn iter_all<I: It, F: FnMut(I::Item) -> bool>(it: &mut I, mut f: F) -> bool {
  loop {
    match it.next() {
      Some(x) => {
        if !f(x) {
          return false;
        }
      }
      None => return true,
    }
  }
}
pub fn iter_for_each<I: It, F: FnMut(I::Item)>(mut it: I, mut f: F) {
  loop {
    match it.next() {
      Some(x) => f(x),
      None => return,
    }
  }
}
pub fn iter_try_for_each_res<I: It, E, F: FnMut(I::Item) -> Result<(), E>>(it: &mut I, mut f: F) -> Result<(), E> {
  loop {
    match it.next() {
      Some(x) => match f(x) {
        Ok(_) => {}
        Err(e) => return Err(e),
      },
      None => return Ok(()),
    }
  }
}
pub fn iter_try_for_each_opt<I: It, F: FnMut(I::Item) -> Option<()>>(it: &mut I, mut f: F) -> Option<()> {
  loop {
    match it.next() {
      Some(x) => match f(x) {
        Some(_) => {}
        None => return None,
      },
      None => return Some(()),
    }
  }
}
pub fn iter_try_for_each_cf<I: It, E, F: FnMut(I::Item) -> std::ops::ControlFlow<E, ()>>(it: &mut I, mut f: F) -> std::ops::ControlFlow<E, ()> {
  loop {
    match it.next() {
      Some(x) => match f(x) {
        std::ops::ControlFlow::Continue(_) => {}
        std::ops::ControlFlow::Break(e) => return std::ops::ControlFlow::Break(e),
      },
      None => return std::ops::ControlFlow::Continue(()),
    }
  }
}
pub fn iter_try_fold_res<I: It, E, B, F: FnMut(B, I::Item) -> Result<B, E>>(it: &mut I, init: B, mut f: F) -> Result<B, E> {
  let mut acc = init;
  loop {
    match it.next() {
      Some(x) => match f(acc, x) {
        Ok(v) => acc = v,
        Err(e) => return Err(e),
      },
      None => return Ok(acc),
    }
  }
}
pub fn iter_try_fold_opt<I: It, B, F: FnMut(B, I::Item) -> Option<B>>(it: &mut I, init: B, mut f: F) -> Option<B> {
  let mut acc = init;
  loop {
    match it.next() {
      Some(x) => match f(acc, x) {
        Some(v) => acc = v,
        None => return None,
      },
      None => return Some(acc),
    }
  }
}
pub fn iter_try_fold_cf<I: It, E, B, F: FnMut(B, I::Item) -> std::ops::ControlFlow<E, B>>(it: &mut I, init: B, mut f: F) -> std::ops::ControlFlow<E, B> {
  let mut acc = init;
  loop {
    match it.next() {
      Some(x) => match f(acc, x) {
        std::ops::ControlFlow::Continue(v) => acc = v,
        std::ops::ControlFlow::Break(e) => return std::ops::ControlFlow::Break(e),
      },
      None => return std::ops::ControlFlow::Continue(acc),
    }
  }
}
pub fn iter_nth<I: It>(it: &mut I, n: usize) -> Option<I::Item> {
  let mut i = 0;
  loop {
    match it.next() {
      Some(x) => {
        if i == n {
          return Some(x);
        }
        i += 1;
      }
      None => return None,
    }
  }
}
pub fn iter_reduce<I: It, F: FnMut(I::Item, I::Item) -> I::Item>(mut it: I, mut f: F) -> Option<I::Item> {
  let mut acc = match it.next() {
    Some(x) => x,
    None => return None,
  };
  loop {
    match it.next() {
      Some(x) => {
        acc = f(acc, x);
      }
      None => return Some(acc),
    }
  }
}
pub fn iter_unzip<A, B, I: It<Item = (A, B)>>(mut it: I) -> (Seq<A>, Seq<B>) {
  let mut a = seq_new();
  let mut b = seq_new();
  loop {
    match it.next() {
      Some((x, y)) => {
        seq_push(&mut a, x);
        seq_push(&mut b, y);
      }
      None => return (a, b),
    }
  }
}
pub fn result_transpose<T, E>(r: Result<Option<T>, E>) -> Option<Result<T, E>> {
  match r {
    Ok(Some(x)) => Some(Ok(x)),
    Ok(None) => None,
    Err(e) => Some(Err(e)),
  }
}
pub fn result_flatten<T, E>(r: Result<Result<T, E>, E>) -> Result<T, E> {
  match r {
    Ok(x) => x,
    Err(e) => Err(e),
  }
}
pub fn option_get_or_insert<T>(o: &mut Option<T>, v: T) -> &mut T {
  if let None = o {
    *o = Some(v);
  }
  match o {
    Some(x) => x,
    None => panic!(),
  }
}
pub fn set_is_subset<T: Eq + std::hash::Hash>(a: &std::collections::HashSet<T>, b: &std::collections::HashSet<T>) -> bool {
  for x in a.iter() {
    if !b.contains(x) {
      return false;
    }
  }
  true
}
pub fn set_is_superset<T: Eq + std::hash::Hash>(a: &std::collections::HashSet<T>, b: &std::collections::HashSet<T>) -> bool {
  set_is_subset(b, a)
}
pub fn set_is_disjoint<T: Eq + std::hash::Hash>(a: &std::collections::HashSet<T>, b: &std::collections::HashSet<T>) -> bool {
  for x in a.iter() {
    if b.contains(x) {
      return false;
    }
  }
  true
}
pub fn iter_fold<I: It, B, F: FnMut(B, I::Item) -> B>(mut it: I, init: B, mut f: F) -> B {
  let mut acc = init;
  loop {
    match it.next() {
      Some(x) => {
        acc = f(acc, x);
      }
      None => return acc,
    }
  }
}
pub fn iter_count<I: It>(mut it: I) -> usize {
  let mut n = 0;
  loop {
    match it.next() {
      Some(_) => n += 1,
      None => return n,
    }
  }
}
pub fn iter_last<I: It>(mut it: I) -> Option<I::Item> {
  let mut r = None;
  loop {
    match it.next() {
      Some(x) => r = Some(x),
      None => return r,
    }
  }
}
pub fn iter_position<I: It, F: FnMut(I::Item) -> bool>(it: &mut I, mut f: F) -> Option<usize> {
  let mut i = 0;
  loop {
    match it.next() {
      Some(x) => {
        if f(x) {
          return Some(i);
        }
        i += 1;
      }
      None => return None,
    }
  }
}
/// minimum/maximum by an opaque order: the element is one of those produced
pub fn opaque_bool() -> bool {
  loop {}
}
pub fn le_key<K>(_a: &K, _b: &K) -> bool {
  loop {}
}
pub fn iter_min_by_key<I: It, K, F: FnMut(&I::Item) -> K>(mut it: I, mut f: F) -> Option<I::Item> {
  let mut best: Option<(K, I::Item)> = None;
  loop {
    match it.next() {
      Some(x) => {
        let k = f(&x);
        match &best {
          Some((bk, _)) => {
            if !le_key(bk, &k) {
              best = Some((k, x));
            }
          }
          None => {
            best = Some((k, x));
          }
        }
      }
      None => break,
    }
  }
  match best {
    Some((_, x)) => Some(x),
    None => None,
  }
}
pub fn iter_max_by_key<I: It, K, F: FnMut(&I::Item) -> K>(mut it: I, mut f: F) -> Option<I::Item> {
  let mut best: Option<(K, I::Item)> = None;
  loop {
    match it.next() {
      Some(x) => {
        let k = f(&x);
        match &best {
          Some((bk, _)) => {
            if le_key(bk, &k) {
              best = Some((k, x));
            }
          }
          None => {
            best = Some((k, x));
          }
        }
      }
      None => break,
    }
  }
  match best {
    Some((_, x)) => Some(x),
    None => None,
  }
}
pub fn iter_min_by<I: It, F: FnMut(&I::Item, &I::Item) -> Ordering>(mut it: I, mut f: F) -> Option<I::Item> {
  let mut best: Option<I::Item> = None;
  loop {
    match it.next() {
      Some(x) => match &best {
        Some(b) => match f(b, &x) {
          Ordering::Greater => best = Some(x),
          _ => {}
        },
        None => best = Some(x),
      },
      None => break,
    }
  }
  best
}

pub fn iter_max_by<I: It, F: FnMut(&I::Item, &I::Item) -> Ordering>(mut it: I, mut f: F) -> Option<I::Item> {
  let mut best: Option<I::Item> = None;
  loop {
    match it.next() {
      Some(x) => match &best {
        Some(b) => match f(b, &x) {
          Ordering::Greater => {}
          _ => best = Some(x),
        },
        None => best = Some(x),
      },
      None => break,
    }
  }
  best
}
pub fn option_take_if<T, F: FnOnce(&mut T) -> bool>(o: &mut Option<T>, f: F) -> Option<T> {
  match o {
    Some(x) => {
      if f(x) {
        o.take()
      } else {
        None
      }
    }
    None => None,
  }
}
pub fn option_unzip<A, B>(o: Option<(A, B)>) -> (Option<A>, Option<B>) {
  match o {
    Some((a, b)) => (Some(a), Some(b)),
    None => (None, None),
  }
}

// native growable sequence / map; the functions below are intrinsics of the analyser
pub struct Seq<T>(Vec<T>);
pub struct Hm<K, V>(Vec<(K, V)>);
pub fn seq_new<T>() -> Seq<T> {
  loop {}
}
pub fn seq_push<T>(_s: &mut Seq<T>, _x: T) {
  loop {}
}
pub fn hm_new<K, V>() -> Hm<K, V> {
  loop {}
}
pub fn hm_insert<K, V>(_s: &mut Hm<K, V>, _k: K, _v: V) {
  loop {}
}
pub fn collect_seq<I: It>(mut it: I) -> Seq<I::Item> {
  let mut v = seq_new();
  loop {
    match it.next() {
      Some(x) => seq_push(&mut v, x),
      None => return v,
    }
  }
}
pub fn collect_hm<I: It<Item = (K, V)>, K, V>(mut it: I) -> Hm<K, V> {
  let mut v = hm_new();
  loop {
    match it.next() {
      Some((k, x)) => hm_insert(&mut v, k, x),
      None => return v,
    }
  }
}
pub fn collect_hset<I: It<Item = K>, K>(mut it: I) -> Hm<K, ()> {
  let mut v = hm_new();
  loop {
    match it.next() {
      Some(k) => hm_insert(&mut v, k, ()),
      None => return v,
    }
  }
}
pub fn collect_result_seq<I: It<Item = Result<T, E>>, T, E>(mut it: I) -> Result<Seq<T>, E> {
  let mut v = seq_new();
  loop {
    match it.next() {
      Some(Ok(x)) => seq_push(&mut v, x),
      Some(Err(e)) => return Err(e),
      None => return Ok(v),
    }
  }
}
pub fn collect_result_hm<I: It<Item = Result<(K, V), E>>, K, V, E>(mut it: I) -> Result<Hm<K, V>, E> {
  let mut v = hm_new();
  loop {
    match it.next() {
      Some(Ok((k, x))) => hm_insert(&mut v, k, x),
      Some(Err(e)) => return Err(e),
      None => return Ok(v),
    }
  }
}
pub fn collect_option_seq<I: It<Item = Option<T>>, T>(mut it: I) -> Option<Seq<T>> {
  let mut v = seq_new();
  loop {
    match it.next() {
      Some(Some(x)) => seq_push(&mut v, x),
      Some(None) => return None,
      None => return Some(v),
    }
  }
}
pub fn seq_extend<T, J, I: It<Item = T>>(s: &mut Seq<T>, j: J)
where
  J: Into<I>,
{
  let mut it: I = into_iter_conv(j);
  loop {
    match it.next() {
      Some(x) => seq_push(s, x),
      None => return,
    }
  }
}
pub fn into_iter_conv<A, B>(_a: A) -> B {
  loop {}
}
pub fn hm_extend<K, V, J, I: It<Item = (K, V)>>(s: &mut Hm<K, V>, j: J)
where
  J: Into<I>,
{
  let mut it: I = into_iter_conv(j);
  loop {
    match it.next() {
      Some((k, x)) => hm_insert(s, k, x),
      None => return,
    }
  }
}
// move every element out of a sequence / put it back (intrinsics)
pub fn seq_take<T, I>(_s: &mut Seq<T>) -> I {
  loop {}
}
pub fn seq_restore<T>(_s: &mut Seq<T>, _v: Seq<T>) {
  loop {}
}
pub fn vec_retain<T, F: FnMut(&T) -> bool, I: It<Item = T>>(s: &mut Seq<T>, mut f: F) {
  let mut it: I = seq_take(s);
  let mut v = seq_new();
  loop {
    match it.next() {
      Some(x) => {
        if f(&x) {
          seq_push(&mut v, x);
        }
      }
      None => break,
    }
  }
  seq_restore(s, v);
}
pub fn hm_take<T, I>(_s: &mut T) -> I {
  loop {}
}
pub fn hm_restore<K, V>(_s: &mut Hm<K, V>, _v: Hm<K, V>) {
  loop {}
}
pub fn hm_retain<K, V, F: FnMut(&K, &mut V) -> bool, I: It<Item = (K, V)>>(s: &mut Hm<K, V>, mut f: F) {
  let mut it: I = hm_take(s);
  let mut v = hm_new();
  loop {
    match it.next() {
      Some((k, mut x)) => {
        if f(&k, &mut x) {
          hm_insert(&mut v, k, x);
        }
      }
      None => break,
    }
  }
  hm_restore(s, v);
}
// ---------------------------------------------------------------- map entry API
pub fn hm_get_mut<'a, M, K, V>(_m: &'a mut M, _k: &K) -> Option<&'a mut V> {
  loop {}
}
pub fn hm_ins<M, K, V>(_m: &mut M, _k: K, _v: V) -> Option<V> {
  loop {}
}
pub struct Entry<'a, M, K> {
  m: &'a mut M,
  k: K,
}
pub fn hm_entry_unused<M, K>(m: &mut M, k: K) -> Entry<'_, M, K> {
  Entry { m, k }
}
pub fn key_copy<K>(_k: &K) -> K {
  loop {}
}
pub fn entry_or_insert<'a, M, K, V>(e: Entry<'a, M, K>, d: V) -> &'a mut V {
  let Entry { m, k } = e;
  if let None = hm_get_mut::<M, K, V>(m, &k) {
    hm_ins(m, key_copy(&k), d);
  }
  match hm_get_mut::<M, K, V>(m, &k) {
    Some(x) => x,
    None => panic!(),
  }
}
pub fn entry_or_insert_with<'a, M, K, V, F: FnOnce() -> V>(e: Entry<'a, M, K>, f: F) -> &'a mut V {
  let Entry { m, k } = e;
  if let None = hm_get_mut::<M, K, V>(m, &k) {
    hm_ins(m, key_copy(&k), f());
  }
  match hm_get_mut::<M, K, V>(m, &k) {
    Some(x) => x,
    None => panic!(),
  }
}
pub fn entry_and_modify<'a, M, K, V, F: FnOnce(&mut V)>(e: Entry<'a, M, K>, f: F) -> Entry<'a, M, K> {
  let Entry { m, k } = e;
  if let Some(x) = hm_get_mut::<M, K, V>(m, &k) {
    f(x);
  }
  Entry { m, k }
}
pub fn hm_del<M, K, V>(_m: &mut M, _k: &K) -> Option<V> {
  loop {}
}
pub fn occ_get<'a, M, K, V>(e: &'a mut Entry<'a, M, K>) -> &'a mut V {
  match hm_get_mut::<M, K, V>(e.m, &e.k) {
    Some(x) => x,
    None => panic!(),
  }
}
pub fn occ_into_mut<'a, M, K, V>(e: Entry<'a, M, K>) -> &'a mut V {
  let Entry { m, k } = e;
  match hm_get_mut::<M, K, V>(m, &k) {
    Some(x) => x,
    None => panic!(),
  }
}
pub fn occ_insert<M, K, V>(e: &mut Entry<'_, M, K>, v: V) -> V {
  match hm_ins(e.m, key_copy(&e.k), v) {
    Some(x) => x,
    None => panic!(),
  }
}
pub fn occ_remove<M, K, V>(e: Entry<'_, M, K>) -> V {
  let Entry { m, k } = e;
  match hm_del(m, &k) {
    Some(x) => x,
    None => panic!(),
  }
}
pub fn entry_key<'a, M, K>(e: &'a Entry<'a, M, K>) -> &'a K {
  &e.k
}
pub fn vac_insert<'a, M, K, V>(e: Entry<'a, M, K>, v: V) -> &'a mut V {
  let Entry { m, k } = e;
  hm_ins(m, key_copy(&k), v);
  match hm_get_mut::<M, K, V>(m, &k) {
    Some(x) => x,
    None => panic!(),
  }
}
pub fn std_default<V>() -> V {
  loop {}
}
pub fn entry_or_default<'a, M, K, V>(e: Entry<'a, M, K>) -> &'a mut V {
  entry_or_insert_with(e, std_default)
}
pub fn once_get_or_init<T: 'static, F: FnOnce() -> T>(o: &Option<T>, f: F) -> &T {
  match o {
    Some(x) => x,
    None => leak(f()),
  }
}
pub fn leak<T>(_t: T) -> &'static T {
  loop {}
}
pub fn iter_partition<I: It, F: FnMut(&I::Item) -> bool>(mut it: I, mut f: F) -> (Seq<I::Item>, Seq<I::Item>) {
  let mut a = seq_new();
  let mut b = seq_new();
  loop {
    match it.next() {
      Some(x) => {
        if f(&x) {
          seq_push(&mut a, x);
        } else {
          seq_push(&mut b, x);
        }
      }
      None => return (a, b),
    }
  }
}

// ---------------------------------------------------------------- process builders
pub fn cmd_env<C, K, V>(c: C, _k: K, _v: V) -> C {
  let _ = c;
  loop {}
}
pub fn cmd_envs<C, I: It<Item = (K, V)>, K, V>(mut c: C, it: I) -> C {
  let mut it = into_iter_any(it);
  loop {
    match it.next() {
      Some((k, v)) => c = cmd_env(c, k, v),
      None => return c,
    }
  }
}
