// Mathematical lemmas the MIR verifier relies on, proved by Verus.  They mention no code of
// the crate: each is an instance scheme used by mirv/prover.py, or the argument by which a
// property follows from the function contracts.
use vstd::prelude::*;
use vstd::seq::*;

verus! {

// ---------------------------------------------------------------- products (prover.mono_lemmas)
pub proof fn mono_ge(f: int, x: int, k: int)
    requires f >= 0, x >= k
    ensures f * x >= k * f
{
    assert(f * x >= k * f) by (nonlinear_arith) requires f >= 0, x >= k;
}

pub proof fn mono_le(f: int, x: int, k: int)
    requires f >= 0, x <= k
    ensures f * x <= k * f
{
    assert(f * x <= k * f) by (nonlinear_arith) requires f >= 0, x <= k;
}

pub proof fn mono_lt(f: int, x: int, y: int)
    requires f >= 0, x < y
    ensures f * x + f <= f * y
{
    assert(f * x + f <= f * y) by (nonlinear_arith) requires f >= 0, x < y;
}

pub proof fn mono_pos(x: int, y: int)
    requires x >= 0, y >= 0
    ensures x * y >= 0
{
    assert(x * y >= 0) by (nonlinear_arith) requires x >= 0, y >= 0;
}

// ---------------------------------------------------------------- masks and powers of two
pub open spec fn pow2(w: int) -> bool
    decreases w
{
    w == 1 || (w > 1 && w % 2 == 0 && pow2(w / 2))
}

pub proof fn pow2_ge1(w: int)
    requires pow2(w)
    ensures w >= 1
{
}

pub proof fn pow2_even(w: int)
    requires pow2(w), w >= 2
    ensures w % 2 == 0
{
}

pub proof fn pow2_double(h: int)
    ensures pow2(2 * h) <==> pow2(h)
{
    assert((2 * h) / 2 == h && (2 * h) % 2 == 0);
    if pow2(h) {
        pow2_ge1(h);
        assert(pow2(2 * h));
    }
    if pow2(2 * h) {
        pow2_ge1(2 * h);
        assert(2 * h != 1);
        assert(pow2(h));
    }
}

pub proof fn and_le(a: u64, b: u64)
    ensures a & b <= a, a & b <= b
{
    assert(a & b <= a && a & b <= b) by (bit_vector);
}

// w = 2^n as a bit pattern
proof fn pow2_shift(w: int) -> (n: u64)
    requires pow2(w), w <= 0x8000_0000_0000_0000
    ensures n < 64, (1u64 << n) as int == w
    decreases w
{
    if w == 1 {
        assert(1u64 << 0u64 == 1) by (bit_vector);
        0
    } else {
        let n = pow2_shift(w / 2);
        let v = 1u64 << n;
        assert(v as int == w / 2);
        assert(w == 2 * (w / 2));
        assert(v <= 0x4000_0000_0000_0000);
        assert(n < 63) by (bit_vector) requires n < 64, v == 1u64 << n, v <= 0x4000_0000_0000_0000u64;
        assert(1u64 << (n + 1) as u64 == 2 * v && 2 * v <= 0x8000_0000_0000_0000u64) by (bit_vector)
            requires n < 63, v == 1u64 << n;
        (n + 1) as u64
    }
}

pub proof fn mask_low(x: u64, w: u64)
    requires pow2(w as int), w <= 0x8000_0000_0000_0000, x < w
    ensures x & (w - 1) as u64 == x
{
    let n = pow2_shift(w as int);
    pow2_ge1(w as int);
    let m = (w - 1) as u64;
    assert(x & m == x) by (bit_vector) requires n < 64, w == 1u64 << n, x < w, m == sub(w, 1);
}

pub proof fn mask_high(x: u64, w: u64)
    requires pow2(w as int), w <= 0x8000_0000_0000_0000, x >= w, x as int - w < w
    ensures x & (w - 1) as u64 == x - w
{
    let n = pow2_shift(w as int);
    pow2_ge1(w as int);
    let m = (w - 1) as u64;
    let d = (x - w) as u64;
    assert(x & m == d) by (bit_vector) requires n < 64, w == 1u64 << n, x >= w, d == sub(x, w), d < w, m == sub(w, 1);
}

// ---------------------------------------------------------------- the Wandering walk ends (lemma "orbit")
// row' = (row + s) & m, from row = 0, for any step s and mask m
pub open spec fn step(x: u64, s: u64, m: u64) -> u64 {
    add(x, s) & m
}

pub open spec fn walk(n: nat, s: u64, m: u64) -> u64
    decreases n
{
    if n == 0 { 0 } else { step(walk((n - 1) as nat, s, m), s, m) }
}

proof fn step_inj(x: u64, y: u64, s: u64, m: u64)
    requires x & m == x, y & m == y, step(x, s, m) == step(y, s, m)
    ensures x == y
{
    assert(x == y) by (bit_vector)
        requires x & m == x, y & m == y, add(x, s) & m == add(y, s) & m;
}

proof fn walk_mask(n: nat, s: u64, m: u64)
    ensures walk(n, s, m) & m == walk(n, s, m)
    decreases n
{
    if n == 0 {
        assert(0u64 & m == 0) by (bit_vector);
    } else {
        let x = walk((n - 1) as nat, s, m);
        assert((add(x, s) & m) & m == add(x, s) & m) by (bit_vector);
    }
}

// equal positions pull back to the start
proof fn pull_back(i: nat, j: nat, s: u64, m: u64)
    requires i < j, walk(i, s, m) == walk(j, s, m)
    ensures walk((j - i) as nat, s, m) == 0
    decreases i
{
    if i > 0 {
        let (a, b) = ((i - 1) as nat, (j - 1) as nat);
        walk_mask(a, s, m);
        walk_mask(b, s, m);
        step_inj(walk(a, s, m), walk(b, s, m), s, m);
        pull_back(a, b, s, m);
    }
}

pub open spec fn bound() -> nat { 0x1_0000_0000_0000_0000 }

// n+1 positions without repetition need n+1 values
proof fn distinct_bounded(n: nat, s: u64, m: u64)
    requires forall|i: nat, j: nat| i < j <= n ==> walk(i, s, m) != walk(j, s, m)
    ensures n < bound()
{
    let ix = Set::<int>::range(0, n as int + 1);
    let f = |i: int| walk(i as nat, s, m) as int;
    vstd::set_lib::range_set_properties::<int>(0, n as int + 1);
    let img = ix.map(f);
    assert forall|a: int, b: int| #[trigger] ix.contains(a) && #[trigger] ix.contains(b) && f(a) == f(b) implies a == b by {
        if a < b { assert(walk(a as nat, s, m) != walk(b as nat, s, m)); }
        if b < a { assert(walk(b as nat, s, m) != walk(a as nat, s, m)); }
    }
    vstd::set_lib::lemma_map_size(ix, img, f);
    let all = Set::<int>::range(0, bound() as int);
    vstd::set_lib::range_set_properties::<int>(0, bound() as int);
    assert(img.subset_of(all));
    vstd::set_lib::lemma_len_subset(img, all);
}

pub proof fn orbit(s: u64, m: u64) -> (n: nat)
    ensures n >= 1, n <= bound(), walk(n, s, m) == 0
{
    let N = bound();
    if forall|i: nat, j: nat| i < j <= N ==> walk(i, s, m) != walk(j, s, m) {
        distinct_bounded(N, s, m);
        0
    } else {
        let (i, j) = choose|i: nat, j: nat| i < j <= N && walk(i, s, m) == walk(j, s, m);
        pull_back(i, j, s, m);
        (j - i) as nat
    }
}

// ---------------------------------------------------------------- what is absorbed determines the arguments (C15)
// a = the whole words of the password, b = those of the salt; p, q their byte lengths
pub struct Args {
    pub a: Seq<u64>,
    pub b: Seq<u64>,
    pub k: u64,
    pub p: u64,
    pub q: u64,
    pub t: u64,
    pub r: u64,
    pub c: u64,
}

pub open spec fn wf(x: Args) -> bool {
    x.a.len() == x.p as int / 8 && x.b.len() == x.q as int / 8
}

pub open spec fn blocks(x: Args) -> int {
    (x.p as int + x.q as int + 48) / 64 + 1
}

pub open spec fn used(x: Args) -> int {
    x.a.len() as int + x.b.len() as int + 6
}

// word i of the padded input
pub open spec fn raw(x: Args, i: int) -> u64 {
    let n = x.a.len() as int;
    let w = n + x.b.len() as int;
    if i < n { x.a[i] }
    else if i < w { x.b[i - n] }
    else if i == w { x.k }
    else if i == w + 1 { x.p }
    else if i == w + 2 { x.q }
    else if i == w + 3 { x.t }
    else if i == w + 4 { x.r }
    else if i == w + 5 { x.c }
    else if i == w + 6 { 0x80 }
    else { 0 }
}

pub open spec fn word(x: Args, i: int) -> u64 {
    if i == 8 * blocks(x) - 1 { raw(x, i) ^ 0x0100_0000_0000_0000u64 } else { raw(x, i) }
}

pub open spec fn same(x: Args, y: Args) -> bool {
    blocks(x) == blocks(y) && forall|i: int| 0 <= i < 8 * blocks(x) ==> word(x, i) == word(y, i)
}

proof fn marker_inside(x: Args)
    requires wf(x)
    ensures used(x) <= 8 * blocks(x) - 1
{
}

proof fn marker_order(x: Args, y: Args)
    requires wf(x), wf(y), same(x, y)
    ensures !(used(x) < used(y))
{
    marker_inside(x);
    marker_inside(y);
    if used(x) < used(y) {
        let i = used(y);
        assert(word(x, i) == word(y, i));
        assert(raw(y, i) == 0x80);
        assert(raw(x, i) == 0);
        assert(0x80u64 ^ 0x0100_0000_0000_0000u64 != 0u64 ^ 0x0100_0000_0000_0000u64) by (bit_vector);
    }
}

pub proof fn binding(x: Args, y: Args)
    requires wf(x), wf(y), same(x, y)
    ensures x.k == y.k, x.p == y.p, x.q == y.q, x.t == y.t, x.r == y.r, x.c == y.c, x.a =~= y.a, x.b =~= y.b
{
    marker_order(x, y);
    marker_order(y, x);
    marker_inside(x);
    marker_inside(y);
    let u = used(x);
    assert(used(y) == u);
    // words below the marker are not touched by the final padding bit
    assert forall|i: int| 0 <= i < u implies raw(x, i) == raw(y, i) by {
        assert(word(x, i) == word(y, i));
    }
    let w = u - 6;
    assert(raw(x, w) == raw(y, w));
    assert(raw(x, w + 1) == raw(y, w + 1));
    assert(raw(x, w + 2) == raw(y, w + 2));
    assert(raw(x, w + 3) == raw(y, w + 3));
    assert(raw(x, w + 4) == raw(y, w + 4));
    assert(raw(x, w + 5) == raw(y, w + 5));
    assert(x.a.len() == y.a.len() && x.b.len() == y.b.len());
    assert forall|i: int| 0 <= i < x.a.len() implies x.a[i] == y.a[i] by {
        assert(raw(x, i) == raw(y, i));
    }
    assert forall|i: int| 0 <= i < x.b.len() implies x.b[i] == y.b[i] by {
        assert(raw(x, x.a.len() + i) == raw(y, x.a.len() + i));
    }
}

fn main() {}

} // verus!
