#![allow(unused)]
//! std idioms, run natively and by the verifier (see ../../tools/modeltest.py)
pub fn t_iter_rev(v: Vec<u64>, n: usize) -> Vec<u64> {
    let mut o = vec![]; for x in v.iter().rev() { o.push(*x ^ 1); } o
}
pub fn t_enumerate_rev(v: Vec<u64>, n: usize) -> Vec<u64> {
    let mut o = vec![]; for (i, x) in v.iter().enumerate().rev() { o.push(x.wrapping_mul(i as u64 + 1)); } o
}
pub fn t_zip_rev(v: Vec<u64>, n: usize) -> Vec<u64> {
    let w = [1u64, 2, 3]; let mut o = vec![]; for (a, b) in v.iter().zip(w.iter()).rev() { o.push(a.wrapping_add(*b)); } o
}
pub fn t_zip_short(v: Vec<u64>, n: usize) -> Vec<u64> {
    let w = vec![7u64; n]; v.iter().zip(w.iter()).map(|(a, b)| a ^ b).collect()
}
pub fn t_take_rev(v: Vec<u64>, n: usize) -> Vec<u64> {
    v.iter().take(n).rev().copied().collect()
}
pub fn t_take_back(v: Vec<u64>, n: usize) -> Vec<u64> {
    let mut it = v.iter().take(n); let mut o = vec![]; while let Some(x) = it.next_back() { o.push(*x); if let Some(y) = it.next() { o.push(!*y); } } o
}
pub fn t_skip(v: Vec<u64>, n: usize) -> Vec<u64> {
    v.iter().skip(n).cloned().collect()
}
pub fn t_skip_take(v: Vec<u64>, n: usize) -> Vec<u64> {
    v.iter().skip(2).take(n).cloned().collect()
}
pub fn t_step(v: Vec<u64>, n: usize) -> Vec<u64> {
    let mut o = vec![]; for i in (0..v.len()).step_by(n + 1) { o.push(v[i]); } o
}
pub fn t_stepit(v: Vec<u64>, n: usize) -> Vec<u64> {
    v.iter().step_by(n + 1).copied().collect()
}
pub fn t_chain(v: Vec<u64>, n: usize) -> Vec<u64> {
    v.iter().chain([n as u64, 5].iter()).copied().collect()
}
pub fn t_chunks(v: Vec<u64>, n: usize) -> Vec<u64> {
    let mut o = vec![]; for c in v.chunks(n + 1) { o.push(c.len() as u64); o.push(c[0]); o.push(c[c.len() - 1]); } o
}
pub fn t_chunks_exact(v: Vec<u64>, n: usize) -> Vec<u64> {
    let mut o = vec![]; for c in v.chunks_exact(n + 1) { o.push(c[0]); o.push(c[n]); } o
}
pub fn t_chunks_exact_rev(v: Vec<u64>, n: usize) -> Vec<u64> {
    let mut o = vec![]; for c in v.chunks_exact(n + 1).rev() { o.push(c[0]); o.push(c[n]); } o
}
pub fn t_chunks_rev(v: Vec<u64>, n: usize) -> Vec<u64> {
    let mut o = vec![]; for c in v.chunks(4).rev() { o.push(c[0]); o.push(c[3]); } o
}
pub fn t_chunks_mut(v: Vec<u64>, n: usize) -> Vec<u64> {
    let mut v = v; for (i, c) in v.chunks_mut(3).enumerate() { c[0] ^= i as u64; if c.len() > 2 { c.swap(1, 2); } } v
}
pub fn t_chunks_exact_mut(v: Vec<u64>, n: usize) -> Vec<u64> {
    let mut v = v; for c in v.chunks_exact_mut(2) { let (a, b) = c.split_at_mut(1); a[0] ^= b[0]; } v
}
pub fn t_windows(v: Vec<u64>, n: usize) -> Vec<u64> {
    let mut o = vec![]; for c in v.windows(3) { o.push(c[0] ^ c[2]); } o
}
pub fn t_map_sum(v: Vec<u64>, n: usize) -> Vec<u64> {
    vec![v.iter().map(|x| x & 0xff).sum::<u64>()]
}
pub fn t_fold(v: Vec<u64>, n: usize) -> Vec<u64> {
    vec![v.iter().take(n).fold(1u64, |a, x| a.rotate_left(3) ^ x)]
}
pub fn t_fold_rev(v: Vec<u64>, n: usize) -> Vec<u64> {
    vec![v.iter().rev().fold(0u64, |a, &x| (a << 8) | (x & 0xff))]
}
pub fn t_any(v: Vec<u64>, n: usize) -> Vec<u64> {
    vec![v.iter().any(|x| *x == 3) as u64, v.iter().all(|x| *x < 1 << 60) as u64]
}
pub fn t_position(v: Vec<u64>, n: usize) -> Vec<u64> {
    vec![v.iter().position(|x| x & 1 == 1).map(|i| i as u64).unwrap_or(99)]
}
pub fn t_minmax(v: Vec<u64>, n: usize) -> Vec<u64> {
    vec![*v.iter().max().unwrap(), *v.iter().min().unwrap(), v[0].min(v[1]), v[0].max(v[1])]
}
pub fn t_minmaxn(v: Vec<u64>, n: usize) -> Vec<u64> {
    vec![v.len().min(n) as u64, v.len().max(n) as u64, std::cmp::min(v[2], 100), std::cmp::max(v[3], 100)]
}
pub fn t_filter(v: Vec<u64>, n: usize) -> Vec<u64> {
    v.iter().enumerate().filter(|(i, _)| i % 2 == 0).map(|(_, x)| *x).collect()
}
pub fn t_find(v: Vec<u64>, n: usize) -> Vec<u64> {
    vec![*[1u64, 5, 9].iter().find(|x| **x > n as u64).unwrap_or(&77)]
}
pub fn t_copy_slice(v: Vec<u64>, n: usize) -> Vec<u64> {
    let mut o = vec![0; 8]; o[..n].copy_from_slice(&v[8 - n..]); o
}
pub fn t_clone_slice(v: Vec<u64>, n: usize) -> Vec<u64> {
    let mut o = [9u64; 8]; o[8 - n..].clone_from_slice(&v[..n]); o.to_vec()
}
pub fn t_copy_within(v: Vec<u64>, n: usize) -> Vec<u64> {
    let mut v = v; v.copy_within(0..n, 2); v
}
pub fn t_split(v: Vec<u64>, n: usize) -> Vec<u64> {
    let (a, b) = v.split_at(n); let mut o = b.to_vec(); o.extend_from_slice(a); o
}
pub fn t_split_mut(v: Vec<u64>, n: usize) -> Vec<u64> {
    let mut v = v; { let (a, b) = v.split_at_mut(4); for (x, y) in a.iter_mut().zip(b.iter()) { *x = x.wrapping_sub(*y); } b[0] = a[3]; } v
}
pub fn t_extend(v: Vec<u64>, n: usize) -> Vec<u64> {
    let mut o = vec![1u64]; o.extend(v.iter().take(n)); o.extend(vec![2, 3]); o.extend(v.iter().map(|x| x >> 3)); o
}
pub fn t_extend_ref(v: Vec<u64>, n: usize) -> Vec<u64> {
    let mut o: Vec<u64> = Vec::new(); o.extend(&v[..n]); o.extend_from_slice(&v[n..]); o
}
pub fn t_truncate(v: Vec<u64>, n: usize) -> Vec<u64> {
    let mut v = v; v.truncate(n); v
}
pub fn t_resize(v: Vec<u64>, n: usize) -> Vec<u64> {
    let mut v = v; v.resize(n + 4, 6); v
}
pub fn t_pushpop(v: Vec<u64>, n: usize) -> Vec<u64> {
    let mut v = v; let x = v.pop(); v.push(7); v.push(x.unwrap()); let y = v.remove(0); v.insert(n, y); v
}
pub fn t_clear(v: Vec<u64>, n: usize) -> Vec<u64> {
    let mut v = v; v.clear(); v.push(n as u64); v
}
pub fn t_vec_concat(v: Vec<u64>, n: usize) -> Vec<u64> {
    [&v[..n], &[1, 2], &v[..2]].concat()
}
pub fn t_append(v: Vec<u64>, n: usize) -> Vec<u64> {
    let mut v = v; let mut w = vec![1, 2]; v.append(&mut w); v.push(w.len() as u64); v
}
pub fn t_into_iter(v: Vec<u64>, n: usize) -> Vec<u64> {
    let mut o = vec![]; for x in v { o.push(x / 3); } o
}
pub fn t_into_take(v: Vec<u64>, n: usize) -> Vec<u64> {
    v.into_iter().take(n).collect()
}
pub fn t_into_rev(v: Vec<u64>, n: usize) -> Vec<u64> {
    v.into_iter().rev().collect()
}
pub fn t_drain(v: Vec<u64>, n: usize) -> Vec<u64> {
    let mut v = v; let w: Vec<u64> = v.drain(..n).collect(); v.extend(w); v
}
pub fn t_rotate(v: Vec<u64>, n: usize) -> Vec<u64> {
    let mut v = v; v.rotate_left(n % 8); v[..5].rotate_right(1); v
}
pub fn t_swaprev(v: Vec<u64>, n: usize) -> Vec<u64> {
    let mut v = v; v.swap(0, n % 8); v.reverse(); v
}
pub fn t_fill(v: Vec<u64>, n: usize) -> Vec<u64> {
    let mut v = v; v[2..n.max(2)].fill(5); v
}
pub fn t_firstlast(v: Vec<u64>, n: usize) -> Vec<u64> {
    vec![*v.first().unwrap(), *v.last().unwrap(), v.get(n).copied().unwrap_or(1), v.get(1..3).map(|s| s[1]).unwrap_or(0), v.get(9).is_some() as u64]
}
pub fn t_split_first(v: Vec<u64>, n: usize) -> Vec<u64> {
    if let Some((a, r)) = v.split_first() { vec![*a, r.len() as u64, r[0]] } else { vec![] }
}
pub fn t_slice_pat(v: Vec<u64>, n: usize) -> Vec<u64> {
    match &v[..n] { [] => vec![0], [a] => vec![*a], [a, .., b] => vec![*a, *b] }
}
pub fn t_try_into(v: Vec<u64>, n: usize) -> Vec<u64> {
    use std::convert::TryInto; let a: [u64; 4] = v[1..5].try_into().unwrap(); let b: Result<[u64; 2], _> = v[..n].try_into(); vec![a[3], b.is_ok() as u64]
}
pub fn t_bytes_le(v: Vec<u64>, n: usize) -> Vec<u64> {
    let mut o = vec![]; for x in v.iter() { for b in x.to_le_bytes().iter() { o.push(*b as u64); } for b in &x.to_be_bytes() { o.push(u64::from(*b)); } } o
}
pub fn t_from_bytes(v: Vec<u64>, n: usize) -> Vec<u64> {
    use std::convert::TryInto; let mut b = vec![]; for x in &v { b.extend_from_slice(&x.to_be_bytes()); } let mut o = vec![]; for c in b.chunks(8) { o.push(u64::from_le_bytes(c.try_into().unwrap())); o.push(u32::from_be_bytes([c[0], c[1], c[2], c[3]]) as u64); } o
}
pub fn t_swap_bytes(v: Vec<u64>, n: usize) -> Vec<u64> {
    v.iter().map(|x| x.swap_bytes() ^ (*x as u32).swap_bytes() as u64).collect()
}
pub fn t_to_le(v: Vec<u64>, n: usize) -> Vec<u64> {
    v.iter().map(|x| x.to_le() ^ x.to_be()).collect()
}
pub fn t_shifts(v: Vec<u64>, n: usize) -> Vec<u64> {
    let mut o = vec![]; for i in 0..8u32 { o.push(v[i as usize] << (i * 8)); o.push(v[i as usize] >> (i * 7 + 1)); o.push(((v[i as usize] as i64) >> (i * 5)) as u64); o.push(v[i as usize].wrapping_shl(60 + i)); } o
}
pub fn t_rots(v: Vec<u64>, n: usize) -> Vec<u64> {
    let mut o = vec![]; for (i, x) in v.iter().enumerate() { o.push(x.rotate_left(i as u32 * 9)); o.push(x.rotate_right(63)); o.push((*x as u32).rotate_left(i as u32 + 28) as u64); o.push((x >> 11) | (x << 53)); o.push(((*x as u32) << 7 | (*x as u32) >> 25) as u64); } o
}
pub fn t_casts(v: Vec<u64>, n: usize) -> Vec<u64> {
    let mut o = vec![]; for x in &v { o.push(*x as u8 as u64); o.push(*x as i8 as i64 as u64); o.push(*x as i32 as u64); o.push(*x as u16 as i16 as u32 as u64); o.push((*x as i64 as i128 >> 3) as u64); } o
}
pub fn t_wrapping(v: Vec<u64>, n: usize) -> Vec<u64> {
    let mut o = vec![]; for i in 0..7 { let (a, b) = (v[i], v[i + 1]); o.push(a.wrapping_add(b)); o.push(a.wrapping_sub(b)); o.push(a.wrapping_mul(b)); o.push(a.wrapping_neg()); o.push((a as i64).wrapping_sub(b as i64) as u64); o.push((a as u32).wrapping_mul(b as u32) as u64); o.push((a as i32).wrapping_neg() as u64); } o
}
pub fn t_checked(v: Vec<u64>, n: usize) -> Vec<u64> {
    let mut o = vec![]; for i in 0..7 { let (a, b) = (v[i], v[i + 1]); o.push(a.checked_add(b).unwrap_or(1)); o.push(a.checked_sub(b).is_none() as u64); o.push(a.checked_mul(b).unwrap_or_default()); o.push(a.checked_div(b & 7).unwrap_or(5)); o.push((a as i64).checked_add(b as i64).map_or(3, |x| x as u64)); } o
}
pub fn t_overflowing(v: Vec<u64>, n: usize) -> Vec<u64> {
    let mut o = vec![]; for i in 0..7 { let (a, b) = (v[i], v[i + 1]); let (s, c) = a.overflowing_add(b); o.push(s); o.push(c as u64); let (s, c) = a.overflowing_sub(b); o.push(s); o.push(c as u64); let (s, c) = (a as u32).overflowing_mul(b as u32); o.push(s as u64); o.push(c as u64); } o
}
pub fn t_saturating(v: Vec<u64>, n: usize) -> Vec<u64> {
    let mut o = vec![]; for i in 0..7 { let (a, b) = (v[i], v[i + 1]); o.push(a.saturating_add(b)); o.push(a.saturating_sub(b)); o.push((a as i64).saturating_sub(b as i64) as u64); o.push((a as i64).saturating_add(b as i64) as u64); o.push((a as u8).saturating_add(b as u8) as u64); } o
}
pub fn t_divrem(v: Vec<u64>, n: usize) -> Vec<u64> {
    let mut o = vec![]; for x in &v { o.push(x / 12); o.push(x % 12); o.push((*x as i64 / 7) as u64); o.push((*x as i64 % 7) as u64); o.push((*x as i64).rem_euclid(7) as u64); o.push((*x as i64).div_euclid(8) as u64); o.push((*x as i64).abs().wrapping_add(1) as u64); } o
}
pub fn t_divvar(v: Vec<u64>, n: usize) -> Vec<u64> {
    let mut o = vec![]; for i in 0..7 { let d = (v[i + 1] & 0xff) + 1; o.push(v[i] / d); o.push(v[i] % d); o.push((v[i] as i64 % d as i64) as u64); } o
}
pub fn t_bits(v: Vec<u64>, n: usize) -> Vec<u64> {
    let mut o = vec![]; for x in &v { o.push(x.count_ones() as u64); o.push(x.leading_zeros() as u64); o.push(x.trailing_zeros() as u64); o.push(x.is_power_of_two() as u64); } o
}
pub fn t_pow(v: Vec<u64>, n: usize) -> Vec<u64> {
    vec![(v[0] & 15).pow(3), 2u64.pow(n as u32), (v[1] & 0xffff).abs_diff(77), (v[2] as i64).signum() as u64, (v[3] & 0xff).next_power_of_two()]
}
pub fn t_absdiff(v: Vec<u64>, n: usize) -> Vec<u64> {
    vec![v[0].abs_diff(v[1]), (v[2] as i64).unsigned_abs(), (v[3] as i64).wrapping_abs() as u64, (v[4] as i32).is_negative() as u64]
}
pub fn t_memswap(v: Vec<u64>, n: usize) -> Vec<u64> {
    let mut a = v[0]; let mut b = v[1]; std::mem::swap(&mut a, &mut b); let c = std::mem::replace(&mut a, 9); let mut w = vec![1u64, 2]; let z = std::mem::take(&mut w); vec![a, b, c, z[1], w.len() as u64]
}
pub fn t_arr_map(v: Vec<u64>, n: usize) -> Vec<u64> {
    let a = [v[0], v[1], v[2]]; a.map(|x| x ^ 0xff).to_vec()
}
pub fn t_arr_from_fn(v: Vec<u64>, n: usize) -> Vec<u64> {
    let a: [u64; 8] = std::array::from_fn(|i| v[7 - i]); a.to_vec()
}
pub fn t_repeat(v: Vec<u64>, n: usize) -> Vec<u64> {
    std::iter::repeat(4u64).take(n).chain(v.iter().copied()).collect()
}
pub fn t_opts(v: Vec<u64>, n: usize) -> Vec<u64> {
    let f = |i: usize| -> Option<u64> { let a = v.get(i)?; let b = v.get(i + 1)?; Some(a ^ b) }; vec![f(0).unwrap(), f(n).unwrap_or(7), f(8).is_none() as u64, f(1).map(|x| x & 3).filter(|x| *x > 1).unwrap_or(0), f(n).and_then(|x| x.checked_sub(1)).unwrap_or_else(|| 6), f(2).ok_or(3u64).unwrap_or_else(|e| e)]
}
pub fn t_results(v: Vec<u64>, n: usize) -> Vec<u64> {
    fn g(x: u64) -> Result<u64, u64> { if x & 1 == 0 { Ok(x) } else { Err(x / 2) } } fn h(x: u64) -> Result<u64, u64> { let y = g(x)?; Ok(y + 0) } v.iter().map(|x| match h(*x) { Ok(a) => a, Err(e) => e ^ 7 }).collect()
}
pub fn t_closure_mut(v: Vec<u64>, n: usize) -> Vec<u64> {
    let mut acc = 5u64; let mut step = |x: u64| { acc = acc.rotate_left(7) ^ x; acc }; let mut o = vec![]; for x in &v { o.push(step(*x)); } o.push(acc); o
}
pub fn t_structs(v: Vec<u64>, n: usize) -> Vec<u64> {
    #[derive(Clone, Copy, Default, PartialEq)] struct P { a: u64, b: u32 } impl P { fn m(&mut self, x: u64) { self.a ^= x; self.b = self.b.wrapping_add(x as u32); } } let mut p = P::default(); let q = p; for x in &v { p.m(*x); } vec![p.a, p.b as u64, (p == q) as u64]
}
pub fn t_enums(v: Vec<u64>, n: usize) -> Vec<u64> {
    #[derive(Clone)] enum E { A, B(u64), C { x: u64, y: u8 } } let es = [E::A, E::B(v[0]), E::C { x: v[1], y: v[2] as u8 }]; es.iter().map(|e| match e { E::A => 1, E::B(x) => x ^ 1, E::C { x, y } => x.wrapping_add(*y as u64) }).collect()
}
pub fn t_traits(v: Vec<u64>, n: usize) -> Vec<u64> {
    trait S { fn s(&self, x: u64) -> u64; fn t(&self, x: u64) -> u64 { self.s(x) ^ 1 } } struct A; struct B(u64); impl S for A { fn s(&self, x: u64) -> u64 { x } } impl S for B { fn s(&self, x: u64) -> u64 { x ^ self.0 } fn t(&self, x: u64) -> u64 { x } } fn go<T: S>(t: &T, v: &[u64]) -> Vec<u64> { v.iter().map(|x| t.t(t.s(*x))).collect() } let mut o = go(&A, &v); o.extend(go(&B(v[0]), &v)); o
}
pub fn t_dynfn(v: Vec<u64>, n: usize) -> Vec<u64> {
    let fs: [fn(u64) -> u64; 2] = [|x| x ^ 1, |x| x.wrapping_add(2)]; v.iter().enumerate().map(|(i, x)| fs[i % 2](*x)).collect()
}
pub fn t_consts(v: Vec<u64>, n: usize) -> Vec<u64> {
    const TAB: [(u8, u64); 3] = [(1, 10), (2, 20), (3, 30)]; struct Q { p: u8, q: u64, r: [u16; 2] } const QS: [Q; 2] = [Q { p: 1, q: 2, r: [3, 4] }, Q { p: 5, q: 6, r: [7, 8] }]; let mut o = vec![]; for (a, b) in TAB.iter() { o.push(*a as u64 ^ b); } for q in QS.iter() { o.push(q.p as u64 + q.q + q.r[1] as u64); } const O: [Option<u32>; 3] = [Some(4), None, Some(0)]; for x in O.iter() { o.push(x.map(u64::from).unwrap_or(9)); } o.push(v[0]); o
}
pub fn t_while_loops(v: Vec<u64>, n: usize) -> Vec<u64> {
    let mut o = vec![]; let mut i = 0; 'a: loop { let mut j = i; while j < 8 { if j == 6 { i += 1; continue 'a; } if i == 4 { break 'a; } o.push(v[j] ^ i as u64); j += 2; } i += 1; } o
}
pub fn t_ranges(v: Vec<u64>, n: usize) -> Vec<u64> {
    let mut o = vec![]; for i in (1..=n).rev() { o.push(i as u64); } for i in (0..8).rev().step_by(3) { o.push(v[i]); } o.push((0..n).len() as u64); o.push((2..5).contains(&n) as u64); o
}
pub fn t_rangeinc(v: Vec<u64>, n: usize) -> Vec<u64> {
    let mut s = 0u64; for i in 0..=255u8 { s += i as u64; } let mut o = vec![s]; for x in &mut o { *x += 1; } o
}
pub fn t_peek(v: Vec<u64>, n: usize) -> Vec<u64> {
    let mut it = v.iter().peekable(); let mut o = vec![]; while let Some(x) = it.next() { if it.peek().is_some() { o.push(*x); } } o
}
pub fn t_lastnth(v: Vec<u64>, n: usize) -> Vec<u64> {
    vec![*v.iter().nth(n % 8).unwrap(), *v.iter().last().unwrap(), v.iter().count() as u64, v.iter().nth(8).is_none() as u64]
}
pub fn t_iter_mut(v: Vec<u64>, n: usize) -> Vec<u64> {
    let mut v = v; for (i, x) in v.iter_mut().enumerate().skip(n) { *x = x.wrapping_add(i as u64); } for x in v.iter_mut().rev().take(2) { *x ^= 1; } v
}
pub fn t_nested(v: Vec<u64>, n: usize) -> Vec<u64> {
    let mut m = vec![vec![0u64; 3]; 3]; for i in 0..3 { for j in 0..3 { m[i][j] = v[i] ^ v[j + 2]; } } let r: Vec<u64> = m.iter().flat_map(|r| r.iter().copied()).collect(); let mut q = m[1].clone(); q.extend(r); q
}
pub fn t_arr2(v: Vec<u64>, n: usize) -> Vec<u64> {
    let mut m = [[0u64; 4]; 2]; for (i, x) in v.iter().enumerate() { m[i / 4][i % 4] = *x; } m.swap(0, 1); let mut o = vec![]; for r in &m { o.extend_from_slice(r); } o
}
pub fn t_boxes(v: Vec<u64>, n: usize) -> Vec<u64> {
    let b = Box::new([v[0], v[1]]); let c = b.clone(); let s: Box<[u64]> = v.into_boxed_slice(); vec![b[0], c[1], s[7], s.len() as u64]
}
pub fn t_eqcmp(v: Vec<u64>, n: usize) -> Vec<u64> {
    vec![(v[..4] == v[4..]) as u64, (v[0] == v[1]) as u64, (v == vec![0; 8]) as u64, v[..2].contains(&3) as u64, (v[0] < v[1]) as u64, ([v[0], 1] == [v[1], 1]) as u64, v.starts_with(&[1]) as u64]
}
pub fn t_cmpmatch(v: Vec<u64>, n: usize) -> Vec<u64> {
    v.windows(2).map(|w| match w[0].cmp(&w[1]) { std::cmp::Ordering::Less => 1, std::cmp::Ordering::Equal => 2, std::cmp::Ordering::Greater => 3 }).collect()
}
pub fn t_strs(v: Vec<u64>, n: usize) -> Vec<u64> {
    let s = if n > 3 { "ab" } else { "xyz" }; let mut o: Vec<u64> = s.bytes().map(u64::from).collect(); o.push(s.len() as u64); o.push(v[0]); o
}
pub fn t_tuples(v: Vec<u64>, n: usize) -> Vec<u64> {
    let f = |a: u64, b: u64| (a ^ b, a.wrapping_add(b)); let (x, y) = f(v[0], v[1]); let (p, (q, _)) = (y, f(x, y)); vec![x, y, p, q]
}
pub fn t_takewhile(v: Vec<u64>, n: usize) -> Vec<u64> {
    [1u64, 2, 3, 4, 5].iter().take_while(|x| **x <= n as u64).chain([9, 1, 8].iter().skip_while(|x| **x > 5)).copied().collect()
}
pub fn t_unzip(v: Vec<u64>, n: usize) -> Vec<u64> {
    let (a, b): (Vec<u64>, Vec<u64>) = v.iter().map(|x| (x ^ 1, x >> 1)).unzip(); [a, b].concat()
}
pub fn t_scan(v: Vec<u64>, n: usize) -> Vec<u64> {
    v.iter().scan(0u64, |s, x| { *s ^= x; Some(*s) }).collect()
}
pub fn t_sortd(v: Vec<u64>, n: usize) -> Vec<u64> {
    let mut w = vec![3u64, 1, 2, n as u64]; w.sort(); w.dedup(); w.push(v[0]); w
}
pub fn t_index_oob(v: Vec<u64>, n: usize) -> Vec<u64> {
    vec![v[n + 3]]
}
pub fn t_slice_oob(v: Vec<u64>, n: usize) -> Vec<u64> {
    v[n..n * 2].to_vec()
}
pub fn t_sub_ovf(v: Vec<u64>, n: usize) -> Vec<u64> {
    vec![3 - (n as u64), v[0]]
}
pub fn t_unwrap_none(v: Vec<u64>, n: usize) -> Vec<u64> {
    vec![*v.get(n + 4).unwrap()]
}
pub fn t_div_zero(v: Vec<u64>, n: usize) -> Vec<u64> {
    vec![8 / (n as u64 - 1 + 1), v[0]]
}
pub fn t_copy_len(v: Vec<u64>, n: usize) -> Vec<u64> {
    let mut o = [0u64; 4]; o[..n.min(4)].copy_from_slice(&v[..3]); o.to_vec()
}
pub fn t_chunk0(v: Vec<u64>, n: usize) -> Vec<u64> {
    v.chunks(n).map(|c| c[0]).collect()
}
pub fn t_arith_ovf(v: Vec<u64>, n: usize) -> Vec<u64> {
    let a: u8 = (n as u8) * 60; vec![a as u64, v[0]]
}
pub fn t_i64min(v: Vec<u64>, n: usize) -> Vec<u64> {
    vec![((-(n as i64)) << 60 >> 60) as u64, (i64::MIN + n as i64).wrapping_neg() as u64, v[0]]
}
pub fn t_neg_ovf(v: Vec<u64>, n: usize) -> Vec<u64> {
    let x = i64::MIN + n as i64; vec![(-x) as u64, v[1]]
}
pub fn t_assert_eq(v: Vec<u64>, n: usize) -> Vec<u64> {
    assert_eq!(n % 2, 1, "odd {}", n); vec![v[0]]
}
pub fn t_split_off(v: Vec<u64>, n: usize) -> Vec<u64> {
    let mut v = v; let mut w = v.split_off(n); w.extend_from_slice(&v); w
}
pub fn t_rsplit(v: Vec<u64>, n: usize) -> Vec<u64> {
    let mut o = vec![]; for c in v.rchunks(3) { o.push(c[0]); } o
}
pub fn t_dedicated(v: Vec<u64>, n: usize) -> Vec<u64> {
    let mut v = v; v.retain(|x| x & 1 == 0); v
}
pub fn t_splice(v: Vec<u64>, n: usize) -> Vec<u64> {
    let mut h = [0u64; 12]; h[..8].copy_from_slice(&v); h[8] = n as u64; let (l, r) = h.split_at(6); l.iter().zip(r).map(|(a, b)| a ^ b).collect()
}
pub fn t_flat_map(v: Vec<u64>, n: usize) -> Vec<u64> {
    v.iter().take(n).flat_map(|w| w.to_le_bytes()).map(|b| b as u64).collect()
}
pub fn t_flat_map2(v: Vec<u64>, n: usize) -> Vec<u64> {
    let mut o: Vec<u8> = Vec::new(); for w in &v { o.extend(w.to_le_bytes().iter()); } o.into_iter().map(u64::from).collect()
}
pub fn t_flatten(v: Vec<u64>, n: usize) -> Vec<u64> {
    let g = [[v[0], v[1]], [v[2], n as u64]]; g.iter().flatten().copied().collect()
}
pub fn t_once(v: Vec<u64>, n: usize) -> Vec<u64> {
    std::iter::once(n as u64).chain(v.iter().copied()).collect()
}
pub fn t_cycle(v: Vec<u64>, n: usize) -> Vec<u64> {
    v.iter().take(3).cycle().take(n + 4).copied().collect()
}
pub fn t_repeat_n(v: Vec<u64>, n: usize) -> Vec<u64> {
    let mut v = v; v.extend(std::iter::repeat(0).take(n)); v
}
pub fn t_resize_with(v: Vec<u64>, n: usize) -> Vec<u64> {
    let mut v = v; let mut c = 0; v.resize_with(8 + n, || { c += 1; c }); v
}
pub fn t_successors(v: Vec<u64>, n: usize) -> Vec<u64> {
    std::iter::successors(Some(1u64), |x| if *x < 40 { Some(x * 3) } else { None }).chain(v.iter().copied()).collect()
}
pub fn t_from_fn(v: Vec<u64>, n: usize) -> Vec<u64> {
    let mut i = 0; let it = std::iter::from_fn(|| { i += 1; if i <= n { Some(v[(i - 1) % 8]) } else { None } }); it.collect()
}
pub fn t_chunk_try(v: Vec<u64>, n: usize) -> Vec<u64> {
    v.chunks_exact(2).map(|c| { let a: [u64; 2] = c.try_into().unwrap(); a[0] ^ a[1] }).collect()
}
pub fn t_bytes_chunks(v: Vec<u64>, n: usize) -> Vec<u64> {
    let b: Vec<u8> = v.iter().flat_map(|x| x.to_be_bytes()).collect(); b.chunks(8).map(|c| u64::from_be_bytes(c.try_into().unwrap()).rotate_left(1)).collect()
}
pub fn t_bytes_read(v: Vec<u64>, n: usize) -> Vec<u64> {
    let mut b = [0u8; 64]; for (d, x) in b.chunks_exact_mut(8).zip(v.iter()) { d.copy_from_slice(&x.to_le_bytes()); } let mut o = vec![]; for i in 0..8 { let mut w = [0u8; 8]; w.copy_from_slice(&b[8 * i..][..8]); o.push(u64::from_le_bytes(w)); } o
}
pub fn t_bytes_fold(v: Vec<u64>, n: usize) -> Vec<u64> {
    let b: Vec<u8> = v.iter().map(|x| *x as u8).collect(); vec![b.iter().rev().fold(0u64, |a, x| (a << 8) | *x as u64), b.iter().enumerate().fold(0u64, |a, (i, x)| a | (*x as u64) << (8 * i))]
}
pub fn t_skip_step(v: Vec<u64>, n: usize) -> Vec<u64> {
    v.iter().skip(1).step_by(2).zip(v.iter().step_by(2)).map(|(a, b)| a ^ b).collect()
}
pub fn t_rev_step(v: Vec<u64>, n: usize) -> Vec<u64> {
    let mut o = vec![]; for i in (0..8).rev().step_by(3) { o.push(v[i]); } o
}
pub fn t_range_rev(v: Vec<u64>, n: usize) -> Vec<u64> {
    let mut o = vec![]; for i in (n.min(7)..8).rev() { o.push(v[i]); } o
}
pub fn t_rangeinc_rev(v: Vec<u64>, n: usize) -> Vec<u64> {
    let mut o = vec![]; for i in (1..=n.min(7)).rev() { o.push(v[i]); } o
}
pub fn t_range_map(v: Vec<u64>, n: usize) -> Vec<u64> {
    (0..n).map(|i| v[i % 8].wrapping_add(i as u64)).collect()
}
pub fn t_range_fold(v: Vec<u64>, n: usize) -> Vec<u64> {
    vec![(0..n as u64).fold(v[0], |a, i| a.wrapping_mul(3) ^ i)]
}
pub fn t_for_each(v: Vec<u64>, n: usize) -> Vec<u64> {
    let mut o = vec![]; v.iter().for_each(|x| o.push(x ^ n as u64)); o
}
pub fn t_for_each_mut(v: Vec<u64>, n: usize) -> Vec<u64> {
    let mut v = v; v.iter_mut().enumerate().for_each(|(i, x)| *x = x.wrapping_add(i as u64)); v
}
pub fn t_zip3(v: Vec<u64>, n: usize) -> Vec<u64> {
    let w: Vec<u64> = v.iter().rev().copied().collect(); let mut o = vec![0; 8]; for ((d, a), b) in o.iter_mut().zip(&v).zip(&w) { *d = a ^ b; } o
}
pub fn t_zip_mut(v: Vec<u64>, n: usize) -> Vec<u64> {
    let mut v = v; let (a, b) = v.split_at_mut(4); for (x, y) in a.iter_mut().zip(b.iter_mut()) { std::mem::swap(x, y); *x ^= 1; } v
}
pub fn t_div_ceil(v: Vec<u64>, n: usize) -> Vec<u64> {
    vec![n.div_ceil(3) as u64, (v[0] & 0xff).div_ceil(7), (n as u64).next_multiple_of(8), (v[1] as i32).rem_euclid(7) as u64, (v[2] as i64).rem_euclid(5) as u64]
}
pub fn t_first_chunk(v: Vec<u64>, n: usize) -> Vec<u64> {
    let mut o = vec![]; if let Some(c) = v.first_chunk::<3>() { o.extend_from_slice(c); } if let Some((a, b)) = v.split_first() { o.push(*a ^ b.len() as u64); } o
}
pub fn t_get_range(v: Vec<u64>, n: usize) -> Vec<u64> {
    let mut o = vec![]; if let Some(s) = v.get(n..n + 2) { o.extend_from_slice(s); } else { o.push(1); } o.extend_from_slice(v.get(..n).unwrap_or(&[])); o
}
pub fn t_let_else(v: Vec<u64>, n: usize) -> Vec<u64> {
    let Some(x) = v.get(n) else { return vec![9] }; vec![*x]
}
pub fn t_matches(v: Vec<u64>, n: usize) -> Vec<u64> {
    v.iter().map(|x| matches!(x & 7, 0 | 3..=5) as u64).collect()
}
pub fn t_match_guard(v: Vec<u64>, n: usize) -> Vec<u64> {
    v.iter().map(|x| match x { 0 => 1, y if y & 1 == 1 => 2, 2 | 4 | 6 => 3, _ => 4 }).collect()
}
pub fn t_loop_val(v: Vec<u64>, n: usize) -> Vec<u64> {
    let mut i = 0; let r = loop { if i >= n || i == 7 { break v[i]; } i += 2; if i > 7 { break 5; } }; vec![r, i as u64]
}
pub fn t_const_gen(v: Vec<u64>, n: usize) -> Vec<u64> {
    fn g<const K: usize>(a: [u64; K]) -> u64 { let mut s = K as u64; for x in a { s = s.wrapping_mul(31).wrapping_add(x); } s } vec![g([v[0], v[1]]), g([v[2], v[3], n as u64]), g::<0>([])]
}
pub fn t_generic_fn(v: Vec<u64>, n: usize) -> Vec<u64> {
    fn ap<F: Fn(u64) -> u64>(f: F, x: u64) -> u64 { f(f(x)) } let k = v[0]; vec![ap(|x| x ^ k, v[1]), ap(|x| x.rotate_left(9), v[2]), ap(u64::swap_bytes, v[3])]
}
pub fn t_fnmut_ret(v: Vec<u64>, n: usize) -> Vec<u64> {
    fn mk(k: u64) -> impl FnMut(u64) -> u64 { let mut c = k; move |x| { c = c.wrapping_add(x); c } } let mut f = mk(n as u64); let mut g = mk(1); v.iter().map(|x| f(*x) ^ g(1)).collect()
}
pub fn t_impl_default(v: Vec<u64>, n: usize) -> Vec<u64> {
    #[derive(Clone, Default, PartialEq, Debug)] struct S { a: u64, b: [u64; 3], c: Vec<u64>, d: Option<u64> } let mut s = S::default(); s.b[1] = v[0]; s.c.push(v[1]); let t = s.clone(); s.a = 5; s.c.push(6); vec![s.a, t.a, t.b[1], t.c.len() as u64, s.c.len() as u64, (s == t) as u64, t.d.unwrap_or(3)]
}
pub fn t_derive_copy(v: Vec<u64>, n: usize) -> Vec<u64> {
    #[derive(Clone, Copy)] struct P { x: u64, y: u64 } let p = P { x: v[0], y: v[1] }; let mut q = p; q.x ^= 1; let r = P { y: 7, ..q }; vec![p.x, q.x, q.y, r.x, r.y]
}
pub fn t_op_traits(v: Vec<u64>, n: usize) -> Vec<u64> {
    use std::ops::*; #[derive(Clone, Copy)] struct W(u64); impl Add for W { type Output = W; fn add(self, o: W) -> W { W(self.0.wrapping_add(o.0)) } } impl BitXorAssign for W { fn bitxor_assign(&mut self, o: W) { self.0 ^= o.0 } } impl Index<usize> for W { type Output = u64; fn index(&self, _i: usize) -> &u64 { &self.0 } } let mut w = W(v[0]) + W(v[1]); w ^= W(v[2]); vec![w.0, w[3]]
}
pub fn t_wrapping_ty(v: Vec<u64>, n: usize) -> Vec<u64> {
    use std::num::Wrapping; let mut w = Wrapping(v[0]); w += Wrapping(v[1]); w = w * Wrapping(3) ^ Wrapping(v[2]); w = w << 3; vec![w.0, (w - Wrapping(1)).0]
}
pub fn t_iter_impl(v: Vec<u64>, n: usize) -> Vec<u64> {
    struct I { i: u64, n: u64 } impl Iterator for I { type Item = u64; fn next(&mut self) -> Option<u64> { if self.i < self.n { self.i += 1; Some(self.i) } else { None } } } let mut o: Vec<u64> = v; for x in (I { i: 0, n: n as u64 }) { o.push(x); } o
}
pub fn t_into_iter_arr(v: Vec<u64>, n: usize) -> Vec<u64> {
    let mut o = vec![]; for (i, x) in [v[0], v[1], v[2]].into_iter().enumerate() { o.push(x ^ i as u64); } o
}
pub fn t_arr_iter_rev(v: Vec<u64>, n: usize) -> Vec<u64> {
    let a = [v[0], v[1], v[2]]; a.iter().rev().chain(a.iter()).copied().collect()
}
pub fn t_swap_idx(v: Vec<u64>, n: usize) -> Vec<u64> {
    let mut v = v; for i in 0..4 { v.swap(i, 7 - i); } v[1..6].reverse(); v
}
pub fn t_copy_ranges(v: Vec<u64>, n: usize) -> Vec<u64> {
    let mut o = vec![0u64; 16]; let m = n.min(8); o[..m].copy_from_slice(&v[..m]); o[8..8 + m].clone_from_slice(&v[8 - m..]); o
}
pub fn t_extend_take(v: Vec<u64>, n: usize) -> Vec<u64> {
    let mut o: Vec<u64> = Vec::with_capacity(16); o.extend(v.iter().skip(n).take(2)); o.extend([1, 2].iter()); o.extend(vec![3; n]); o.extend(Some(4)); o
}
pub fn t_collect_arr(v: Vec<u64>, n: usize) -> Vec<u64> {
    let a: Vec<[u64; 2]> = v.chunks(2).map(|c| [c[1], c[0]]).collect(); a.concat()
}
pub fn t_vec_vec(v: Vec<u64>, n: usize) -> Vec<u64> {
    let mut m = vec![vec![0u64; 4]; 2]; for (i, x) in v.iter().enumerate() { m[i / 4][i % 4] = *x; } let r = m[0].clone(); m[1][0] ^= r[3]; m.concat()
}
pub fn t_vec_arr(v: Vec<u64>, n: usize) -> Vec<u64> {
    let mut m = vec![[0u64; 4]; 3]; for (i, x) in v.iter().enumerate() { m[i / 4][i % 4] = *x; } let (a, b) = m.split_at_mut(1); b[0][0] ^= a[0][1]; m.iter().flat_map(|r| r.iter().copied()).collect()
}
pub fn t_mut_ref_loop(v: Vec<u64>, n: usize) -> Vec<u64> {
    let mut s = [v[0], v[1]]; let p = &mut s; for x in v.iter() { p[0] ^= *x; p.swap(0, 1); } vec![s[0], s[1]]
}
pub fn t_ret_tuple(v: Vec<u64>, n: usize) -> Vec<u64> {
    fn h(x: &mut [u64; 4], k: u64) -> (u64, bool) { x[0] ^= k; (x[0].wrapping_add(x[3]), x[1] > x[2]) } let mut a = [v[0], v[1], v[2], v[3]]; let (p, q) = h(&mut a, n as u64); vec![a[0], p, q as u64]
}
pub fn t_try_from(v: Vec<u64>, n: usize) -> Vec<u64> {
    let mut o = vec![]; o.push(u32::try_from(v[0]).map(u64::from).unwrap_or(1)); o.push(u8::try_from(n).unwrap() as u64); o.push(i32::try_from(v[1]).is_ok() as u64); o.push(u64::try_from(v[2] as i64).unwrap_or(2)); o
}
pub fn t_question(v: Vec<u64>, n: usize) -> Vec<u64> {
    fn f(v: &[u64], n: usize) -> Option<u64> { let a = v.get(n)?; let b = v.get(n + 1)?; a.checked_sub(*b) } fn g(v: &[u64], n: usize) -> Result<u64, u8> { f(v, n).ok_or(3u8) } fn h(v: &[u64], n: usize) -> Result<u64, u8> { let x = g(v, n)?; Ok(x ^ 1) } vec![h(&v, n).unwrap_or_else(u64::from), f(&v, 0).map_or(0, |x| x | 1)]
}
pub fn t_ite_chain(v: Vec<u64>, n: usize) -> Vec<u64> {
    let m = if n < 3 { &v[..2] } else if n < 6 { &v[2..5] } else { &v[..] }; m.to_vec()
}
pub fn t_box_slice(v: Vec<u64>, n: usize) -> Vec<u64> {
    let b: Box<[u64]> = v.into_boxed_slice(); let mut o = b.to_vec(); o.push(b.len() as u64); o.push(b[n % 8]); o
}
pub fn t_box_arr(v: Vec<u64>, n: usize) -> Vec<u64> {
    let mut b = Box::new([0u64; 8]); for i in 0..8 { b[i] = v[i] ^ 1; } let c = *b; c.iter().map(|x| x ^ 2).collect()
}
pub fn t_cow(v: Vec<u64>, n: usize) -> Vec<u64> {
    use std::borrow::Cow; let c: Cow<[u64]> = if n > 3 { Cow::Borrowed(&v[..2]) } else { Cow::Owned(vec![n as u64]) }; c.to_vec()
}
pub fn t_rc(v: Vec<u64>, n: usize) -> Vec<u64> {
    use std::rc::Rc; use std::cell::{Cell, RefCell}; let c = Cell::new(v[0]); c.set(c.get() ^ 1); let r = RefCell::new(vec![v[1]]); r.borrow_mut().push(c.get()); r.into_inner()
}
pub fn t_u128(v: Vec<u64>, n: usize) -> Vec<u64> {
    let x = (v[0] as u128) * (v[1] as u128) + v[2] as u128; vec![x as u64, (x >> 64) as u64, (x % 97) as u64]
}
pub fn t_u32s(v: Vec<u64>, n: usize) -> Vec<u64> {
    v.iter().map(|x| { let (l, h) = (*x as u32, (*x >> 32) as u32); let l = l.wrapping_add(h).rotate_left(7); ((h ^ l) as u64) << 32 | l as u64 }).collect()
}
pub fn t_u32_pair(v: Vec<u64>, n: usize) -> Vec<u64> {
    let w: Vec<u32> = v.iter().flat_map(|x| [*x as u32, (*x >> 32) as u32]).collect(); w.chunks(2).map(|c| c[0] as u64 | (c[1] as u64) << 32).collect()
}
pub fn t_shl_assign(v: Vec<u64>, n: usize) -> Vec<u64> {
    let mut x = v[0]; x <<= 3; x |= 5; x ^= x >> 7; x &= !(0xff << 8); x = !x; vec![x, (x as i64 >> 5) as u64, (x as i32) as u64]
}
pub fn t_bool_arith(v: Vec<u64>, n: usize) -> Vec<u64> {
    let a = (v[0] > v[1]) as usize; let b = v[2] % 2 == 0 && n > 2 || v[3] == 0; vec![a as u64, b as u64, (a == 1) as u64 ^ b as u64, (!b & (a == 1)) as u64]
}
pub fn t_static_tab(v: Vec<u64>, n: usize) -> Vec<u64> {
    static TAB: [u64; 4] = [9, 8, 7, 6]; const IDX: &[usize] = &[3, 1, 0]; IDX.iter().map(|&i| TAB[i] ^ v[i]).collect()
}
pub fn t_macro_rot(v: Vec<u64>, n: usize) -> Vec<u64> {
    macro_rules! q { ($a:expr, $b:expr) => { $a = $a.wrapping_add($b).rotate_right(32) }; } let mut a = v.clone(); for i in 0..7 { q!(a[i], v[i + 1]); } a
}
pub fn t_trait_obj(v: Vec<u64>, n: usize) -> Vec<u64> {
    trait F { fn f(&self, x: u64) -> u64; } struct A(u64); struct B; impl F for A { fn f(&self, x: u64) -> u64 { x ^ self.0 } } impl F for B { fn f(&self, x: u64) -> u64 { !x } } let a = A(v[0]); let fs: [&dyn F; 2] = [&a, &B]; vec![fs[0].f(v[1]), fs[1].f(v[2])]
}
pub fn t_fn_ptr(v: Vec<u64>, n: usize) -> Vec<u64> {
    fn a(x: u64) -> u64 { x ^ 1 } fn b(x: u64) -> u64 { x.wrapping_add(2) } let fs: [fn(u64) -> u64; 2] = [a, b]; let f = if n > 2 { a } else { b as fn(u64) -> u64 }; v.iter().enumerate().map(|(i, x)| f(fs[i % 2](*x))).collect()
}
pub fn t_rec(v: Vec<u64>, n: usize) -> Vec<u64> {
    fn r(v: &[u64], k: usize) -> u64 { if k == 0 { 1 } else { r(v, k - 1).wrapping_mul(3) ^ v[k - 1] } } vec![r(&v, n)]
}
pub fn t_rchunks_exact(v: Vec<u64>, n: usize) -> Vec<u64> {
    let mut o = vec![]; let it = v.chunks_exact(3); let r = it.remainder(); for c in it { o.push(c[2]); } o.extend_from_slice(r); o
}
pub fn t_sum_prod(v: Vec<u64>, n: usize) -> Vec<u64> {
    vec![v.iter().map(|x| x & 7).product::<u64>(), v.iter().take(n).map(|x| x & 0xf).sum()]
}
pub fn t_xor_reduce(v: Vec<u64>, n: usize) -> Vec<u64> {
    vec![v.iter().copied().reduce(|a, b| a ^ b).unwrap(), v.iter().fold(0, |a, b| a ^ b)]
}
pub fn t_rposition(v: Vec<u64>, n: usize) -> Vec<u64> {
    vec![v.iter().rposition(|x| x & 1 == 1).map_or(99, |i| i as u64), v.iter().rev().position(|x| x & 1 == 1).map_or(99, |i| i as u64)]
}
pub fn t_count_filter(v: Vec<u64>, n: usize) -> Vec<u64> {
    vec![v.iter().filter(|x| **x > 3).count() as u64, v.iter().skip_while(|x| **x == 0).count() as u64]
}
pub fn t_mem_take(v: Vec<u64>, n: usize) -> Vec<u64> {
    let mut v = v; let w = std::mem::take(&mut v); let x = std::mem::replace(&mut v, vec![1]); let mut o = w; o.extend(x); o.extend(v); o
}
pub fn t_clamp(v: Vec<u64>, n: usize) -> Vec<u64> {
    vec![v[0].clamp(3, 9), (n as u64).min(4).max(2), v[1].saturating_sub(5), v[2].max(v[3]).min(v[4])]
}
pub fn t_is_mul(v: Vec<u64>, n: usize) -> Vec<u64> {
    vec![(n % 3 == 0) as u64, (v[0] & (v[0].wrapping_sub(1)) == 0) as u64, v[1].is_power_of_two() as u64]
}
pub fn t_assert_msg(v: Vec<u64>, n: usize) -> Vec<u64> {
    assert!(n < 6, "n is {} of {:?}", n, v); vec![n as u64]
}
pub fn t_expect(v: Vec<u64>, n: usize) -> Vec<u64> {
    let x: Option<&u64> = v.get(n); vec![*x.expect("in range")]
}
pub fn t_unreach(v: Vec<u64>, n: usize) -> Vec<u64> {
    if n > 8 { unreachable!() } if n == 5 { panic!("five") } vec![n as u64]
}
pub fn t_ovf_mul(v: Vec<u64>, n: usize) -> Vec<u64> {
    let k = (v[0] & 7) as usize * n; vec![k as u64, (k as u8 as usize * 40) as u64]
}
pub fn t_u8_ovf(v: Vec<u64>, n: usize) -> Vec<u64> {
    let a = n as u8 * 40; vec![a as u64]
}
pub fn t_shl_ovf(v: Vec<u64>, n: usize) -> Vec<u64> {
    vec![1u64 << (n * 9)]
}
pub fn t_usize_sub(v: Vec<u64>, n: usize) -> Vec<u64> {
    let k = n - 1; vec![k as u64]
}
pub fn t_slice_end(v: Vec<u64>, n: usize) -> Vec<u64> {
    let s = &v[n..]; vec![s[0], s.len() as u64]
}
pub fn t_slice_rev(v: Vec<u64>, n: usize) -> Vec<u64> {
    let s = &v[n..4]; s.to_vec()
}
pub fn t_split_at_p(v: Vec<u64>, n: usize) -> Vec<u64> {
    let (a, b) = v.split_at(n + 2); vec![a.len() as u64, b.len() as u64]
}
pub fn t_arr_try(v: Vec<u64>, n: usize) -> Vec<u64> {
    let a: [u64; 3] = v[..n].try_into().unwrap(); a.to_vec()
}
pub fn t_copy_mis(v: Vec<u64>, n: usize) -> Vec<u64> {
    let mut a = [0u64; 5]; a.copy_from_slice(&v[..n]); a.to_vec()
}
pub fn t_rem_zero(v: Vec<u64>, n: usize) -> Vec<u64> {
    vec![v[0] % n as u64]
}
pub fn t_step0(v: Vec<u64>, n: usize) -> Vec<u64> {
    let mut o = vec![]; for i in (0..8).step_by(n) { o.push(v[i]); } o
}
pub fn t_neg_idx(v: Vec<u64>, n: usize) -> Vec<u64> {
    let i = n as i64 - 3; vec![v[i as usize]]
}
pub fn t_sort(v: Vec<u64>, n: usize) -> Vec<u64> {
    let mut w = [v[0] & 3, v[1] & 3]; w.sort(); w.to_vec()
}
pub fn t_write_io(v: Vec<u64>, n: usize) -> Vec<u64> {
    use std::io::Write; let mut b: Vec<u8> = Vec::new(); b.write_all(&v[0].to_le_bytes()).unwrap(); b.write_all(&[1, 2]).unwrap(); b.into_iter().map(u64::from).collect()
}
pub fn t_read_io(v: Vec<u64>, n: usize) -> Vec<u64> {
    use std::io::Read; let b: Vec<u8> = v.iter().map(|x| *x as u8).collect(); let mut r = &b[..]; let mut w = [0u8; 4]; r.read_exact(&mut w).unwrap(); vec![u32::from_le_bytes(w) as u64, r.len() as u64]
}
pub fn t_slice_adv(v: Vec<u64>, n: usize) -> Vec<u64> {
    let mut s = &v[..]; let mut o = vec![]; while s.len() > n + 1 { let (a, b) = s.split_at(2); o.push(a[0] ^ a[1]); s = b; } o.extend_from_slice(s); o
}
pub fn t_slice_adv2(v: Vec<u64>, n: usize) -> Vec<u64> {
    let mut s = &v[..]; let mut o = vec![]; while let Some((a, b)) = s.split_first() { o.push(a ^ 1); s = b; } o
}
pub fn t_slice_adv3(v: Vec<u64>, n: usize) -> Vec<u64> {
    let mut s = &v[..]; let mut o = vec![]; while let [a, b, rest @ ..] = s { o.push(a ^ b); s = rest; } o
}
pub fn t_mut_adv(v: Vec<u64>, n: usize) -> Vec<u64> {
    let mut v = v; let mut s = &mut v[..]; let mut i = 0; while s.len() >= 2 { let (a, b) = s.split_at_mut(2); a[0] ^= i; i += 1; s = b; } v
}
pub fn t_mem_swap_slices(v: Vec<u64>, n: usize) -> Vec<u64> {
    let mut a = [v[0], v[1]]; let mut b = [v[2], v[3]]; a.swap_with_slice(&mut b); std::mem::swap(&mut a[0], &mut b[1]); vec![a[0], a[1], b[0], b[1]]
}
pub fn t_as_ref(v: Vec<u64>, n: usize) -> Vec<u64> {
    fn f(x: impl AsRef<[u64]>) -> u64 { x.as_ref().len() as u64 ^ x.as_ref()[0] } vec![f(&v), f(vec![v[1]]), f([v[2], 1])]
}
pub fn t_into_gen(v: Vec<u64>, n: usize) -> Vec<u64> {
    fn f(x: impl Into<u64>) -> u64 { x.into() ^ 1 } vec![f(v[0]), f(v[1] as u32), f(3u8), f(n > 2)]
}
pub fn t_iter_gen(v: Vec<u64>, n: usize) -> Vec<u64> {
    fn f<'a>(x: impl IntoIterator<Item = &'a u64>) -> u64 { x.into_iter().fold(0, |a, b| a.rotate_left(1) ^ b) } vec![f(&v), f(v[..3].iter()), f(&[v[0], v[1]])]
}
