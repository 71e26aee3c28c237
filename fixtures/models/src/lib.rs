//! Small functions for the self-test of the abstract interpreter (tools/selftest.py).
#![allow(clippy::all)]
use rayon::prelude::*;
#[derive(Clone, Debug, PartialEq)]
pub struct P { a: f64, b: Vec<f64>, k: usize }
impl P {
  fn bump(&mut self, d: f64) -> &mut f64 { self.k += 1; self.a += d; &mut self.a }
  fn elem(&mut self, i: usize) -> Option<&mut f64> { self.b.get_mut(i) }
  fn total(&self) -> f64 { self.a + self.b.iter().sum::<f64>() }
}
#[derive(Clone)]
pub enum S { One(f64), Many(Vec<f64>), Pair { l: f64, r: f64 }, Nil }
impl S {
  fn size(&self) -> usize { match self { S::One(_) => 1, S::Many(v) => v.len(), S::Pair { .. } => 2, S::Nil => 0 } }
}
trait Shape { fn area(&self, k: f64) -> f64; fn twice(&self, k: f64) -> f64 { 2.0 * self.area(k) } }
struct Sq(f64);
struct Re(f64, f64);
impl Shape for Sq { fn area(&self, k: f64) -> f64 { self.0 * self.0 * k } }
impl Shape for Re { fn area(&self, k: f64) -> f64 { self.0 * self.1 + k } fn twice(&self, k: f64) -> f64 { self.area(k) } }
fn apply<F: FnMut(f64)>(x: &[f64], mut f: F) { for a in x { f(*a); } }
const DIMS: (usize, usize) = (2, 3);
const TABLE: [f64; 3] = [1.0, -2.0, 0.5];
const GRID: [[usize; 2]; 2] = [[1, 2], [3, 4]];
const PT: Q = Q { u: 1.5, v: (2, true) };
const OPT: Option<usize> = Some(4);
const SIDE: Side = Side::Right;
#[derive(Clone, Copy)]
struct Q { u: f64, v: (usize, bool) }
#[derive(Clone, Copy, PartialEq)]
enum Side { Left, Right }
fn rec(n: usize) -> f64 { if n == 0 { 1.0 } else { 2.0 * rec(n - 1) } }
macro_rules! cases {
  ($($name:ident ($x:ident, $y:ident, $n:ident) $body:block)*) => {
    $( pub fn $name($x: &[f64], $y: &[f64], $n: usize) -> Vec<f64> { let _ = ($x, $y, $n); $body } )*
    pub static ALL: &[(&str, fn(&[f64], &[f64], usize) -> Vec<f64>)] = &[ $( (stringify!($name), $name) ),* ];
  };
}
cases! {
  map_collect(x, y, n) { x.iter().map(|a| a * 2.0).collect() }
  zip_add(x, y, n) { x.iter().zip(y.iter()).map(|(a, b)| a + b).collect() }
  zip_uneven_rev(x, y, n) { x.iter().rev().zip(y).map(|(a, b)| a - b).collect() }
  rev_enum(x, y, n) { x.iter().enumerate().rev().map(|(i, a)| a + i as f64).collect() }
  enum_rev(x, y, n) { x.iter().rev().enumerate().map(|(i, a)| a * i as f64).collect() }
  skip_take(x, y, n) { x.iter().skip(1).take(n).cloned().collect() }
  take_skip(x, y, n) { x.iter().take(n).skip(1).cloned().collect() }
  step2(x, y, n) { x.iter().step_by(2).copied().collect() }
  step3_off(x, y, n) { x.iter().skip(1).step_by(3).copied().collect() }
  range_step(x, y, n) { (0..x.len()).step_by(2).map(|i| x[i]).collect() }
  range_rev_step(x, y, n) { (0..x.len()).rev().step_by(2).map(|i| x[i]).collect() }
  chain(x, y, n) { x.iter().chain(y.iter()).copied().collect() }
  chain_rev(x, y, n) { x.iter().chain(y.iter()).rev().copied().collect() }
  sum(x, y, n) { vec![x.iter().sum::<f64>(), y.iter().map(|a| a * a).sum()] }
  product(x, y, n) { vec![x.iter().product()] }
  fold(x, y, n) { vec![x.iter().fold(1.0, |acc, a| acc * 2.0 + a)] }
  fold_pair(x, y, n) { let (a, b) = x.iter().fold((0.0, 1.0), |(p, q), e| (q + e, p - e)); vec![a, b] }
  fold_max(x, y, n) { vec![x.iter().fold(0.0, |m, a| if *a > m { *a } else { m })] }
  fold_arg(x, y, n) { let r = x.iter().enumerate().fold((0, 0.0), |m, (i, a)| if *a > m.1 { (i, *a) } else { m }); vec![r.0 as f64, r.1] }
  filter(x, y, n) { x.iter().filter(|a| **a > 1.0).copied().collect() }
  filter_count(x, y, n) { vec![x.iter().filter(|a| **a >= 1.0).count() as f64] }
  filter_map(x, y, n) { x.iter().filter_map(|a| if *a > 0.0 { Some(a + 1.0) } else { None }).collect() }
  flat_map(x, y, n) { x.iter().flat_map(|a| vec![*a; n]).collect() }
  flat_map_pair(x, y, n) { x.iter().flat_map(|a| [*a, -a]).collect() }
  flat_nested(x, y, n) { x.iter().flat_map(|a| y.iter().map(move |b| a * b)).collect() }
  any_all(x, y, n) { vec![x.iter().any(|a| *a == 2.0) as usize as f64, x.iter().all(|a| *a >= 0.0) as usize as f64] }
  position(x, y, n) { match x.iter().position(|a| *a == 2.0) { Some(i) => vec![i as f64], None => vec![] } }
  find(x, y, n) { match x.iter().find(|a| **a > 1.0) { Some(i) => vec![*i], None => vec![-1.0] } }
  last_nth(x, y, n) { let mut v = vec![]; if let Some(a) = x.iter().last() { v.push(*a) } if let Some(a) = x.iter().nth(n) { v.push(*a) } v }
  first_get(x, y, n) { let mut v = vec![]; if let Some(a) = x.first() { v.push(*a) } if let Some(a) = x.get(n) { v.push(*a) } v }
  next_twice(x, y, n) { let mut it = x.iter(); let a = it.next(); let b = it.next(); let mut v: Vec<f64> = it.copied().collect(); if let Some(b) = b { v.push(*b) } if let Some(a) = a { v.push(*a) } v }
  next_back(x, y, n) { let mut it = x.iter(); let a = it.next_back(); let mut v: Vec<f64> = it.copied().collect(); if let Some(a) = a { v.push(a * 10.0) } v }
  chunks(x, y, n) { x.chunks(2).map(|c| c.iter().sum()).collect() }
  chunks_n(x, y, n) { x.chunks(n + 1).map(|c| c.len() as f64).collect() }
  chunks_zero(x, y, n) { x.chunks(n).map(|c| c[0]).collect() }
  chunks_exact(x, y, n) { x.chunks_exact(2).map(|c| c[0] - c[1]).collect() }
  windows(x, y, n) { x.windows(2).map(|c| c[1] - c[0]).collect() }
  windows_n(x, y, n) { x.windows(n + 1).map(|c| c[n] - c[0]).collect() }
  chunks_mut(x, y, n) { let mut v = x.to_vec(); for c in v.chunks_mut(2) { c[0] += 10.0; } v }
  iter_mut(x, y, n) { let mut v = x.to_vec(); v.iter_mut().for_each(|a| *a *= 3.0); v }
  iter_mut_zip(x, y, n) { let mut v = x.to_vec(); for (a, b) in v.iter_mut().zip(y) { *a += *b; } v }
  iter_mut_enum(x, y, n) { let mut v = x.to_vec(); for (i, a) in v.iter_mut().enumerate() { if i >= n { *a = 0.0; } } v }
  iter_mut_rev(x, y, n) { let mut v = x.to_vec(); for (i, a) in v.iter_mut().rev().enumerate() { *a -= i as f64; } v }
  push_loop(x, y, n) { let mut v = Vec::new(); for i in 0..n { v.push(i as f64); v.push(1.0); } v }
  extend(x, y, n) { let mut v = x.to_vec(); v.extend(y.iter().map(|a| a + 1.0)); v.extend_from_slice(x); v }
  insert(x, y, n) { let mut v = x.to_vec(); v.insert(n, 9.0); v }
  remove(x, y, n) { let mut v = x.to_vec(); let a = v.remove(n); v.push(a); v }
  swap_remove(x, y, n) { let mut v = x.to_vec(); v.swap_remove(n); v }
  swap(x, y, n) { let mut v = x.to_vec(); v.swap(0, n); v }
  pop(x, y, n) { let mut v = x.to_vec(); let a = v.pop(); v.insert(0, a.unwrap_or(7.0)); v }
  truncate(x, y, n) { let mut v = x.to_vec(); v.truncate(n); v }
  resize(x, y, n) { let mut v = x.to_vec(); v.resize(n, 5.0); v }
  drain_front(x, y, n) { let mut v = x.to_vec(); let d: Vec<f64> = v.drain(0..n).collect(); v.extend(d); v }
  drain_all(x, y, n) { let mut v = x.to_vec(); let d: Vec<f64> = v.drain(..).map(|a| a + 1.0).collect(); v.extend(d); v }
  split_at(x, y, n) { let (a, b) = x.split_at(n); let mut v = b.to_vec(); v.extend_from_slice(a); v }
  split_off(x, y, n) { let mut v = x.to_vec(); let mut t = v.split_off(n); t.append(&mut v); t }
  slice_range(x, y, n) { x[n..].to_vec() }
  slice_to(x, y, n) { x[..n].to_vec() }
  slice_mid(x, y, n) { x[1..n].to_vec() }
  slice_incl(x, y, n) { x[0..=n].to_vec() }
  copy_slice(x, y, n) { let mut v = x.to_vec(); v[..y.len()].copy_from_slice(y); v }
  reverse(x, y, n) { let mut v = x.to_vec(); v.reverse(); v }
  fill(x, y, n) { let mut v = x.to_vec(); v.fill(n as f64); v }
  concat(x, y, n) { [x, y].concat() }
  vec_repeat(x, y, n) { vec![vec![2.0; n]; x.len()].into_iter().flatten().collect() }
  repeat_take(x, y, n) { std::iter::repeat(4.0).take(n).collect() }
  index_loop(x, y, n) { let mut v = vec![0.0; x.len()]; for i in 0..x.len() { v[x.len() - 1 - i] = x[i]; } v }
  index_stride(x, y, n) { let mut v = vec![0.0; 2 * x.len() + 1]; for i in 0..x.len() { v[2 * i + 1] = x[i]; } v }
  index_2d(x, y, n) { let w = y.len() + n; let mut v = vec![0.0; x.len() * w]; for i in 0..x.len() { for j in 0..y.len() { v[i * w + j] = x[i] * y[j]; } } v }
  index_2d_off(x, y, n) { let w = y.len() + 2 * n; let mut v = vec![0.0; (x.len() + 2 * n) * w]; for i in 0..x.len() { for j in 0..y.len() { v[(i + n) * w + j + n] = x[i] - y[j]; } } v }
  index_2d_stride(x, y, n) { let w = 3 * y.len(); let mut v = vec![0.0; 2 * x.len() * w]; for i in 0..x.len() { for j in 0..y.len() { v[(2 * i + 1) * w + 3 * j + 1] = x[i] + y[j]; } } v }
  index_overlap(x, y, n) { let mut v = vec![0.0; x.len() + y.len()]; for i in 0..x.len() { for j in 0..y.len() { v[i + j] = x[i] * y[j]; } } v }
  index_overlap_add(x, y, n) { let mut v = vec![0.0; x.len() + y.len()]; for i in 0..x.len() { for j in 0..y.len() { v[i + j] += x[i] * y[j]; } } v }
  index_same(x, y, n) { let mut v = vec![0.0; 1]; for i in 0..x.len() { v[0] = x[i]; } v }
  index_half(x, y, n) { let mut v = vec![0.0; x.len()]; for i in 0..x.len() { v[i / 2] = x[i]; } v }
  index_mod(x, y, n) { let mut v = vec![0.0; 2]; for i in 0..x.len() { v[i % 2] += x[i]; } v }
  shift(x, y, n) { let mut v = x.to_vec(); for i in 1..v.len() { v[i] = v[i - 1]; } v }
  prefix(x, y, n) { let mut v = x.to_vec(); for i in 1..v.len() { v[i] += v[i - 1]; } v }
  window_overlap(x, y, n) { let mut v = vec![0.0; x.len() + 2]; for i in 0..x.len() { for j in 0..2 { v[i + j] += x[i]; } } v }
  row_overwrite(x, y, n) { let mut v = vec![0.0; y.len() + x.len()]; for i in 0..x.len() { for j in 0..y.len() { v[j] = x[i] + y[j]; } } v }
  while_count(x, y, n) { let mut i = 0; let mut v = vec![]; while i < x.len() { v.push(x[i]); i += 2; } v }
  while_down(x, y, n) { let mut i = x.len(); let mut v = vec![]; while i > 0 { i -= 1; v.push(x[i]); } v }
  break_loop(x, y, n) { let mut v = vec![]; for a in x { if *a > 1.0 { break; } v.push(*a); } v }
  continue_loop(x, y, n) { let mut s = 0.0; for (i, a) in x.iter().enumerate() { if i == n { continue; } s += a; } vec![s] }
  early_return(x, y, n) { for (i, a) in x.iter().enumerate() { if *a == 2.0 { return vec![i as f64]; } } vec![] }
  nested_sum(x, y, n) { let mut s = 0.0; for a in x { for b in y { s += a * b; } } vec![s] }
  triangle(x, y, n) { let mut s = 0.0; for i in 0..x.len() { for j in 0..i { s += x[i] * x[j]; } } vec![s] }
  two_accs(x, y, n) { let mut a = 0.0; let mut b = 1.0; for e in x { a += b; b += e; } vec![a, b] }
  cond_acc(x, y, n) { let mut s = 0.0; let mut c = 0; for e in x { if *e > 1.0 { s += e; c += 1; } } vec![s, c as f64] }
  sub_panic(x, y, n) { vec![(x.len() - n) as f64] }
  div_rem(x, y, n) { vec![(x.len() / (n + 1)) as f64, (x.len() % (n + 1)) as f64] }
  div_zero(x, y, n) { vec![(x.len() / n) as f64] }
  sat_sub(x, y, n) { vec![x.len().saturating_sub(n) as f64, x.len().min(n) as f64, x.len().max(n) as f64, x.len().abs_diff(n) as f64] }
  checked(x, y, n) { match x.len().checked_sub(n) { Some(d) => vec![d as f64], None => vec![] } }
  pow(x, y, n) { vec![x.len().pow(2) as f64, x.iter().map(|a| a.powi(2)).sum()] }
  minmax(x, y, n) { vec![x.iter().fold(0.0f64, |m, a| m.max(*a)), x.iter().fold(9.0f64, |m, a| m.min(*a))] }
  max_by(x, y, n) { match x.iter().enumerate().max_by(|a, b| a.1.partial_cmp(b.1).unwrap()) { Some((i, _)) => vec![i as f64], None => vec![] } }
  min_by(x, y, n) { match x.iter().enumerate().min_by(|a, b| a.1.partial_cmp(b.1).unwrap()) { Some((i, _)) => vec![i as f64], None => vec![] } }
  unzip(x, y, n) { let (a, b): (Vec<f64>, Vec<f64>) = x.iter().map(|e| (e + 1.0, e - 1.0)).unzip(); a.into_iter().chain(b).collect() }
  inspect_none(x, y, n) { x.iter().copied().map(|a| a).collect::<Vec<_>>().into_iter().rev().collect() }
  option_chain(x, y, n) { x.get(n).map(|a| a + 1.0).or(y.get(n).copied()).into_iter().collect() }
  option_zip(x, y, n) { match (x.get(n), y.get(n)) { (Some(a), Some(b)) => vec![a * b], (Some(a), None) => vec![*a], _ => vec![] } }
  result_q(x, y, n) { fn g(x: &[f64], n: usize) -> Result<f64, ()> { let a = x.get(n).ok_or(())?; Ok(a + 1.0) } match g(x, n) { Ok(a) => vec![a], Err(_) => vec![-1.0] } }
  collect_result(x, y, n) { let r: Result<Vec<f64>, ()> = x.iter().map(|a| if *a < 3.0 { Ok(*a) } else { Err(()) }).collect(); r.unwrap_or_default() }
  collect_option(x, y, n) { let r: Option<Vec<f64>> = x.iter().map(|a| if *a < 3.0 { Some(*a) } else { None }).collect(); r.unwrap_or(vec![8.0]) }
  peek(x, y, n) { let mut it = x.iter().peekable(); let mut v = vec![]; while let Some(a) = it.next() { if it.peek().is_some() { v.push(*a); } } v }
  cycle_take(x, y, n) { x.iter().cycle().take(n).copied().collect() }
  mem_replace(x, y, n) { let mut v = x.to_vec(); let o = std::mem::replace(&mut v, y.to_vec()); v.extend(o); v }
  mem_take(x, y, n) { let mut v = x.to_vec(); let o = std::mem::take(&mut v); v.push(o.len() as f64); v }
  retain(x, y, n) { let mut v = x.to_vec(); v.retain(|a| *a != 2.0); v }
  eq(x, y, n) { vec![(x == y) as usize as f64, x.is_empty() as usize as f64, x.contains(&2.0) as usize as f64] }
  matrix_rows(x, y, n) { let m: Vec<Vec<f64>> = x.iter().map(|a| y.iter().map(|b| a + b).collect()).collect(); m.iter().rev().flat_map(|r| r.iter().rev().copied()).collect() }
  transpose(x, y, n) { let m: Vec<Vec<f64>> = x.iter().map(|a| y.iter().map(|b| a - b).collect()).collect(); (0..y.len()).flat_map(|j| m.iter().map(move |r| r[j])).collect() }
  inspect_effect(x, y, n) { let mut s = 0.0; let v: Vec<f64> = x.iter().inspect(|a| s += **a).map(|a| a + 1.0).collect(); let mut v = v; v.push(s); v }
  find_then_rest(x, y, n) { let mut it = x.iter(); let f = it.find(|a| **a == 2.0).copied(); let mut v: Vec<f64> = it.copied().collect(); v.push(f.unwrap_or(-5.0)); v }
  any_then_rest(x, y, n) { let mut it = x.iter(); let f = it.any(|a| *a == 2.0); let mut v: Vec<f64> = it.copied().collect(); v.push(f as usize as f64); v }
  all_then_rest(x, y, n) { let mut it = x.iter(); let f = it.all(|a| *a < 3.0); let mut v: Vec<f64> = it.copied().collect(); v.push(f as usize as f64); v }
  position_then_rest(x, y, n) { let mut it = x.iter(); let f = it.position(|a| *a == 2.0); let mut v: Vec<f64> = it.copied().collect(); v.push(f.unwrap_or(9) as f64); v }
  nth_then_rest(x, y, n) { let mut it = x.iter(); let f = it.nth(n).copied(); let mut v: Vec<f64> = it.copied().collect(); v.push(f.unwrap_or(9.0)); v }
  by_ref_take(x, y, n) { let mut it = x.iter(); let mut v: Vec<f64> = it.by_ref().take(n).copied().collect(); v.push(-1.0); v.extend(it.copied()); v }
  loop_then_rest(x, y, n) { let mut it = x.iter(); for _ in 0..n { it.next(); } it.copied().collect() }
  break_then_rest(x, y, n) { let mut it = x.iter(); for a in it.by_ref() { if *a == 2.0 { break; } } it.copied().collect() }
  take_while(x, y, n) { x.iter().take_while(|a| **a < 3.0).copied().collect() }
  skip_while(x, y, n) { x.iter().skip_while(|a| **a < 3.0).copied().collect() }
  map_while(x, y, n) { x.iter().map_while(|a| if *a < 3.0 { Some(a * 2.0) } else { None }).collect() }
  scan(x, y, n) { x.iter().scan(0.0, |s, a| { *s += a; Some(*s) }).collect() }
  try_for_each(x, y, n) { let mut v = vec![]; let r: Result<(), f64> = x.iter().try_for_each(|a| if *a < 3.0 { v.push(*a); Ok(()) } else { Err(*a) }); if let Err(e) = r { v.push(-e); } v }
  try_fold(x, y, n) { let r: Result<f64, f64> = x.iter().try_fold(0.0, |s, a| if *a < 3.0 { Ok(s + a) } else { Err(s) }); match r { Ok(a) => vec![a], Err(a) => vec![a, -1.0] } }
  try_fold_option(x, y, n) { let r: Option<f64> = x.iter().try_fold(1.0, |s, a| if *a != 0.0 { Some(s * a) } else { None }); r.into_iter().collect() }
  partition(x, y, n) { let (mut a, b): (Vec<f64>, Vec<f64>) = x.iter().partition(|a| **a > 1.0); a.push(-1.0); a.extend(b); a }
  filter_copied(x, y, n) { x.iter().copied().filter(|a| *a > 1.0).collect() }
  option_misc(x, y, n) { let a = x.first().copied(); let b = y.first().copied(); vec![a.or(b).unwrap_or(7.0), a.and(b).unwrap_or(8.0), a.xor(b).unwrap_or(9.0), a.filter(|e| *e > 1.0).unwrap_or(6.0), a.map_or(5.0, |e| e + 1.0), a.or_else(|| b).unwrap_or_default(), a.is_some_and(|e| e == 2.0) as usize as f64, a.zip(b).map(|(p, q)| p - q).unwrap_or(4.0)] }
  result_misc(x, y, n) { let r: Result<f64, usize> = x.get(n).copied().ok_or(n); let q = r.map(|a| a + 1.0).map_err(|e| e + 10); match q.and_then(|a| if a > 2.0 { Ok(a) } else { Err(0) }) { Ok(a) => vec![a], Err(e) => vec![e as f64, r.is_ok() as usize as f64, r.ok().unwrap_or(3.0), r.unwrap_or_else(|e| e as f64)] } }
  range_incl(x, y, n) { (0..=n).map(|i| i as f64).collect() }
  range_incl_rev(x, y, n) { (1..=n).rev().map(|i| i as f64).collect() }
  range_incl_for(x, y, n) { let mut v = vec![]; for i in 1..=x.len() { v.push(x[i - 1]); } v }
  rchunks(x, y, n) { x.rchunks(2).map(|c| c[0]).collect() }
  split_first(x, y, n) { match x.split_first() { Some((a, r)) => { let mut v = r.to_vec(); v.push(*a); v } None => vec![] } }
  split_last(x, y, n) { match x.split_last() { Some((a, r)) => { let mut v = vec![*a]; v.extend_from_slice(r); v } None => vec![] } }
  last_mut(x, y, n) { let mut v = x.to_vec(); if let Some(a) = v.last_mut() { *a = 7.0; } if let Some(a) = v.first_mut() { *a += 1.0; } v }
  get_mut(x, y, n) { let mut v = x.to_vec(); if let Some(a) = v.get_mut(n) { *a *= 2.0; } v }
  rotate(x, y, n) { let mut v = x.to_vec(); v.rotate_left(n); v }
  rotate_r(x, y, n) { let mut v = x.to_vec(); v.rotate_right(n); v }
  dedup_sort(x, y, n) { let mut v = x.to_vec(); v.sort_by(|a, b| a.partial_cmp(b).unwrap()); v }
  sum_filter(x, y, n) { vec![x.iter().filter(|a| **a > 1.0).sum(), x.iter().filter(|a| **a > 1.0).map(|a| a * a).sum()] }
  rev_loop(x, y, n) { let mut v = vec![]; for i in (0..x.len()).rev() { v.push(x[i]); } v }
  successors(x, y, n) { std::iter::successors(Some(1.0), |a| Some(a * 2.0)).take(n).collect() }
  from_fn(x, y, n) { let mut k = 0.0; std::iter::from_fn(|| { k += 1.0; Some(k) }).take(n).collect() }
  repeat_with(x, y, n) { let mut k = 0.0; std::iter::repeat_with(|| { k += 2.0; k }).take(n).collect() }
  once_chain(x, y, n) { std::iter::once(5.0).chain(x.iter().copied()).chain(std::iter::empty()).collect() }
  zip3(x, y, n) { x.iter().zip(y).zip(x.iter().rev()).map(|((a, b), c)| a * b + c).collect() }
  loop_label(x, y, n) { let mut v = vec![]; 'o: for a in x { for b in y { if a == b { break 'o; } v.push(a + b); } } v }
  loop_continue_label(x, y, n) { let mut v = vec![]; 'o: for a in x { for b in y { if a == b { continue 'o; } } v.push(*a); } v }
  bool_then(x, y, n) { (n > 1).then(|| x.to_vec()).unwrap_or_default() }
  matches_if(x, y, n) { match (x.len(), n) { (0, _) => vec![0.0], (1, 0) => vec![1.0], (a, b) if a > b => vec![2.0], _ => vec![3.0] } }
  option_map_or_else(x, y, n) { vec![x.get(n).map_or_else(|| 5.0, |a| a + 1.0)] }
  lazy_map_take(x, y, n) { (0..x.len() + 3).map(|i| x[i]).take(n).collect() }
  lazy_map_zip(x, y, n) { (0..4).map(|i| x[i]).zip(y).map(|(a, b)| a + b).collect() }
  lazy_unused(x, y, n) { let it = (0..4).map(|i| x[i]); let _ = it; vec![] }
  lazy_find(x, y, n) { match (0..9).map(|i| x[i]).find(|a| *a == 2.0) { Some(a) => vec![a], None => vec![] } }
  short_circuit(x, y, n) { if x.len() > n && x[n] > 1.0 { vec![x[n]] } else { vec![] } }
  filter_enum(x, y, n) { x.iter().enumerate().filter(|(i, _)| *i != n).map(|(_, a)| *a).collect() }
  effect_map(x, y, n) { let mut c = 0.0; let v: Vec<f64> = x.iter().map(|a| { c += 1.0; a + c }).collect(); v }
  effect_map_take(x, y, n) { let mut c = 0.0; let mut v: Vec<f64> = x.iter().map(|a| { c += 1.0; a + c }).take(n).collect(); v.push(c); v }
  pairs_loop(x, y, n) { let mut it = x.iter(); let mut v = vec![]; while let Some(a) = it.next() { if let Some(b) = it.next() { v.push(a + b); } else { v.push(*a); } } v }
  pairs_skip(x, y, n) { let mut it = x.iter(); let mut v = vec![]; while let Some(a) = it.next() { v.push(*a); it.nth(n); } v }
  iter_len_loop(x, y, n) { let mut it = x.iter(); let mut v = vec![]; while let Some(a) = it.next() { v.push(a + it.len() as f64); } v }
  clone_in_loop(x, y, n) { let mut it = x.iter(); let mut v = vec![]; while let Some(a) = it.next() { v.push(it.clone().fold(*a, |p, q| p + q)); } v }
  two_iters(x, y, n) { let mut it = y.iter(); let mut v = vec![]; for a in x { if let Some(b) = it.next() { v.push(a * b); } } v }
  extend_ref(x, y, n) { let mut v = vec![1.0]; v.extend(x.iter()); v.extend(&y[..]); v }
  for_mut_ref(x, y, n) { let mut it = x.iter(); let mut s = 0.0; for a in &mut it { s += a; if *a > 2.0 { break; } } let mut v: Vec<f64> = it.copied().collect(); v.push(s); v }
  struct_mut(x, y, n) { let mut p = P { a: 1.0, b: x.to_vec(), k: 0 }; *p.bump(2.0) += 5.0; p.bump(1.0); vec![p.a, p.k as f64, p.total()] }
  struct_elem(x, y, n) { let mut p = P { a: 1.0, b: x.to_vec(), k: 0 }; if let Some(e) = p.elem(n) { *e = 9.0; } p.b }
  struct_update(x, y, n) { let p = P { a: 1.0, b: x.to_vec(), k: 3 }; let q = P { a: 4.0, ..p.clone() }; vec![q.a, q.k as f64, q.b.len() as f64, (p == q) as usize as f64] }
  struct_vec(x, y, n) { let mut v: Vec<P> = x.iter().map(|a| P { a: *a, b: y.to_vec(), k: 0 }).collect(); for p in v.iter_mut() { p.b.push(p.a); p.k = p.b.len(); } v.iter().map(|p| p.total() + p.k as f64).collect() }
  struct_swap(x, y, n) { let mut p = P { a: 1.0, b: x.to_vec(), k: 0 }; let mut q = P { a: 2.0, b: y.to_vec(), k: 1 }; std::mem::swap(&mut p, &mut q); std::mem::swap(&mut p.b, &mut q.b); vec![p.a, p.b.len() as f64, q.a] }
  enum_match(x, y, n) { let s = if n == 0 { S::Nil } else if n == 1 { S::One(4.0) } else if n == 2 { S::Many(x.to_vec()) } else { S::Pair { l: 1.0, r: 2.0 } }; let z = s.size() as f64; match s { S::Many(v) if v.len() > 2 => v, S::Many(mut v) => { v.push(0.0); v } S::Pair { l, r } => vec![l - r], S::One(a) => vec![a, z], S::Nil => vec![z] } }
  enum_mut(x, y, n) { let mut s = S::Many(x.to_vec()); if let S::Many(v) = &mut s { v.push(1.0); v[0] += 2.0; } if n > 1 { s = S::One(3.0); } match &s { S::Many(v) => v.clone(), S::One(a) => vec![*a], _ => vec![] } }
  enum_list(x, y, n) { let l: Vec<S> = x.iter().map(|a| if *a > 1.0 { S::One(*a) } else { S::Many(vec![*a; n]) }).collect(); l.iter().map(|s| s.size() as f64).collect() }
  dyn_call(x, y, n) { let b: Box<dyn Shape> = if n > 1 { Box::new(Sq(3.0)) } else { Box::new(Re(2.0, 5.0)) }; vec![b.area(1.0), b.twice(2.0)] }
  dyn_list(x, y, n) { let l: Vec<Box<dyn Shape>> = vec![Box::new(Sq(1.0)), Box::new(Re(2.0, 3.0))]; l.iter().map(|s| s.twice(x.len() as f64)).collect() }
  closure_state(x, y, n) { let mut s = 0.0; let mut c = 0; apply(x, |a| { s += a; c += 1; }); vec![s, c as f64] }
  closure_push(x, y, n) { let mut v = vec![]; apply(x, |a| v.push(a + 1.0)); v }
  closure_ret(x, y, n) { let k = n as f64; let f = move |a: f64| move |b: f64| a * k + b; x.iter().map(|a| f(*a)(1.0)).collect() }
  fn_table(x, y, n) { let f: fn(f64) -> f64 = if n > 1 { f64::abs } else { |a| a + 1.0 }; x.iter().map(|a| f(*a)).collect() }
  recursion(x, y, n) { vec![rec(3)] }
  slice_pat(x, y, n) { match x { [] => vec![], [a] => vec![*a], [a, b] => vec![*b, *a], [a, .., b] => vec![a + b] } }
  slice_rest(x, y, n) { if let [a, rest @ ..] = x { let mut v = rest.to_vec(); v.push(*a); v } else { vec![] } }
  tuple_assign(x, y, n) { let (mut a, mut b) = (1.0, 2.0); for e in x { (a, b) = (b, a + e); } vec![a, b] }
  array(x, y, n) { let mut a = [1.0, 2.0, 3.0]; a[n] = 7.0; let b = a; a[0] = 0.0; vec![a[0], b[0], b[2], a.len() as f64] }
  array2(x, y, n) { let mut m = [[0.0; 2]; 2]; for i in 0..2 { for j in 0..2 { m[i][j] = (i * 2 + j) as f64; } } m.iter().flatten().copied().collect() }
  vec2(x, y, n) { let mut m = vec![vec![0.0; y.len()]; x.len()]; for i in 0..x.len() { for j in 0..y.len() { m[i][j] = x[i] * y[j]; } } m.concat() }
  vec2_t(x, y, n) { let mut m = vec![vec![0.0; x.len()]; y.len()]; for (i, a) in x.iter().enumerate() { for (j, b) in y.iter().enumerate() { m[j][i] = a - b; } } m.into_iter().flatten().collect() }
  casts(x, y, n) { vec![(n as f64 / 2.0) as usize as f64, (n as u8) as f64, (n as i32 - 2) as f64, (300 + n) as u8 as f64, (x.len() as f32) as f64] }
  shifts(x, y, n) { vec![(1usize << n) as f64, (13usize >> n) as f64, (n & 1) as f64] }
  floats(x, y, n) { x.iter().map(|a| (a - 1.5).abs() + a.powi(3) + a.max(1.0) - a.min(2.0) + a.mul_add(2.0, 1.0) + (a - 1.0).signum()).collect() }
  floor_ceil(x, y, n) { x.iter().flat_map(|a| [(a / 2.0).floor(), (a / 2.0).ceil(), (a * 0.75).trunc()]).collect() }
  neg_cmp(x, y, n) { x.iter().map(|a| if -a < -1.0 && !(*a == 3.0) || n == 0 { 1.0 } else { 0.0 }).collect() }
  lex_cmp(x, y, n) { vec![((1, n) < (1, 2)) as usize as f64, (x < y) as usize as f64] }
  shadow(x, y, n) { let v = 1.0; let v = { let v = v + 1.0; v * 3.0 }; vec![v] }
  early_q(x, y, n) { fn g(x: &[f64], n: usize) -> Option<f64> { let a = x.get(n)?; let b = x.get(n + 1)?; Some(a - b) } g(x, n).map(|a| vec![a]).unwrap_or_default() }
  let_else(x, y, n) { let Some(a) = x.get(n) else { return vec![]; }; vec![*a, 1.0] }
  loop_value(x, y, n) { let mut i = 0; let r = loop { if i >= n { break i * 2; } i += 1; }; vec![r as f64] }
  nested_mut(x, y, n) { let mut v = vec![x.to_vec(), y.to_vec()]; for r in v.iter_mut() { for e in r.iter_mut() { *e += 1.0; } r.push(-1.0); } v.concat() }
  split_mut(x, y, n) { let mut v = x.to_vec(); let (a, b) = v.split_at_mut(n); for (p, q) in a.iter_mut().zip(b.iter_mut()) { std::mem::swap(p, q); } v }
  chunk_zip_mut(x, y, n) { let mut v = vec![0.0; 2 * x.len()]; for (c, a) in v.chunks_mut(2).zip(x) { c[0] = *a; c[1] = -a; } v }
  par_map(x, y, n) { x.par_iter().map(|a| a * 2.0).collect() }
  par_zip(x, y, n) { x.into_par_iter().zip(y.par_iter()).map(|(a, b)| a * b).collect() }
  par_sum(x, y, n) { vec![x.par_iter().sum::<f64>(), x.par_iter().map(|a| a + 1.0).reduce(|| 0.0, |a, b| a + b)] }
  par_mut(x, y, n) { let mut v = x.to_vec(); v.par_iter_mut().enumerate().for_each(|(i, a)| *a += i as f64); v }
  par_chunks(x, y, n) { x.par_chunks(2).map(|c| c[0]).collect() }
  par_range(x, y, n) { (0..n).into_par_iter().map(|i| i as f64).filter(|a| *a != 1.0).collect() }
  par_flat(x, y, n) { x.par_iter().flat_map(|a| vec![*a; n]).collect() }
  par_fold(x, y, n) { vec![x.par_iter().fold(|| 0.0, |s, a| s + a).sum()] }
  par_any(x, y, n) { vec![x.par_iter().any(|a| *a == 2.0) as usize as f64, x.par_iter().filter(|a| **a > 1.0).count() as f64] }
  par_position(x, y, n) { match x.par_iter().position_first(|a| *a == 2.0) { Some(i) => vec![i as f64], None => vec![] } }
  ord_matches(x, y, n) { x.iter().map(|a| if matches!(a.partial_cmp(&2.0), Some(std::cmp::Ordering::Greater)) { 1.0 } else { 0.0 }).collect() }
  ord_match3(x, y, n) { use std::cmp::Ordering::*; x.iter().map(|a| match a.partial_cmp(&2.0) { Some(Less) => -1.0, Some(Equal) => 0.0, Some(Greater) => 1.0, None => 7.0 }).collect() }
  ord_eq(x, y, n) { x.iter().map(|a| (a.partial_cmp(&2.0) == Some(std::cmp::Ordering::Less)) as usize as f64).collect() }
  ord_int(x, y, n) { match n.cmp(&x.len()) { std::cmp::Ordering::Less => vec![-1.0], std::cmp::Ordering::Equal => vec![], o => vec![(o == std::cmp::Ordering::Greater) as usize as f64, o as i8 as f64] } }
  ord_reverse(x, y, n) { match n.cmp(&x.len()).reverse() { std::cmp::Ordering::Less => vec![-1.0], std::cmp::Ordering::Equal => vec![], _ => vec![1.0, 1.0] } }
  ord_then(x, y, n) { match n.cmp(&2).then(x.len().cmp(&1)) { std::cmp::Ordering::Less => vec![-1.0], std::cmp::Ordering::Equal => vec![], _ => vec![1.0, 1.0] } }
  ord_is(x, y, n) { let o = n.cmp(&2); vec![o.is_lt() as usize as f64, o.is_le() as usize as f64, o.is_gt() as usize as f64, o.is_ge() as usize as f64, o.is_eq() as usize as f64, o.is_ne() as usize as f64] }
  ord_unwrap(x, y, n) { x.iter().map(|a| if a.partial_cmp(&1.0).unwrap() == std::cmp::Ordering::Less { 5.0 } else { *a }).collect() }
  ord_map(x, y, n) { x.iter().map(|a| a.partial_cmp(&1.0).map_or(false, |o| o != std::cmp::Ordering::Less) as usize as f64).collect() }
  ord_maxby(x, y, n) { x.iter().enumerate().max_by(|a, b| a.1.partial_cmp(b.1).unwrap()).map(|p| vec![p.0 as f64, *p.1]).unwrap_or_default() }
  ord_minby(x, y, n) { x.iter().enumerate().min_by(|a, b| a.1.partial_cmp(b.1).unwrap()).map(|p| vec![p.0 as f64, *p.1]).unwrap_or_default() }
  ord_maxint(x, y, n) { vec![(0..n).max().unwrap_or(9) as f64, (0..n).min().unwrap_or(8) as f64, n.max(2) as f64, n.min(x.len()) as f64, n.clamp(1, 2) as f64] }
  neg_enum(x, y, n) { enum E { A = -2, B = 0, C = 3 } let e = if n == 0 { E::A } else if n == 1 { E::B } else { E::C }; let k = match e { E::A => 1.0, E::B => 2.0, E::C => 3.0 }; vec![k, e as i32 as f64] }
  neg_match(x, y, n) { let k = n as i32 - 2; vec![match k { -2 => 1.0, -1 => 2.0, 0 => 3.0, _ => 4.0 }] }
  max_idx(x, y, n) { x.iter().map(|a| *a as usize).max().map(|a| vec![a as f64]).unwrap_or_default() }
  max_ref(x, y, n) { let v: Vec<usize> = x.iter().map(|a| *a as usize).collect(); vec![*v.iter().max().unwrap_or(&7) as f64, *v.iter().min().unwrap_or(&7) as f64] }
  const_tuple(x, y, n) { vec![(DIMS.0 * n + DIMS.1) as f64] }
  const_array(x, y, n) { vec![TABLE[n], TABLE.iter().sum()] }
  const_grid(x, y, n) { GRID.iter().map(|r| (r[0] * 10 + r[1]) as f64).collect() }
  const_struct(x, y, n) { vec![PT.u, if PT.v.1 { PT.v.0 as f64 } else { 0.0 }] }
  const_option(x, y, n) { match OPT { Some(a) if a > n => vec![a as f64], _ => vec![] } }
  const_enum(x, y, n) { let s = if n == 0 { Side::Left } else { SIDE }; match s { Side::Left => vec![1.0], Side::Right => vec![] } }
}
