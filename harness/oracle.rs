//! Reference functions, written from the published descriptions (Lyra2 v2.5/v3, BLAKE2b,
//! CubeHash16/32-256, BMW-256); they share no code with the crate under test.  The four
//! external digests come from the same dependency crates the crate uses.

fn round(v: &mut [u64; 16]) {
    fn mix(v: &mut [u64; 16], a: usize, b: usize, c: usize, d: usize) {
        v[a] = v[a].wrapping_add(v[b]);
        v[d] = (v[d] ^ v[a]).rotate_right(32);
        v[c] = v[c].wrapping_add(v[d]);
        v[b] = (v[b] ^ v[c]).rotate_right(24);
        v[a] = v[a].wrapping_add(v[b]);
        v[d] = (v[d] ^ v[a]).rotate_right(16);
        v[c] = v[c].wrapping_add(v[d]);
        v[b] = (v[b] ^ v[c]).rotate_right(63);
    }
    for i in 0..4 {
        mix(v, i, 4 + i, 8 + i, 12 + i);
    }
    for i in 0..4 {
        mix(v, i, 4 + (i + 1) % 4, 8 + (i + 2) % 4, 12 + (i + 3) % 4);
    }
}

pub fn full(v: &mut [u64; 16]) {
    for _ in 0..12 {
        round(v);
    }
}

const IV: [u64; 8] = [
    0x6a09e667f3bcc908, 0xbb67ae8584caa73b, 0x3c6ef372fe94f82b, 0xa54ff53a5f1d36f1,
    0x510e527fade682d1, 0x9b05688c2b3e6c1f, 0x1f83d9abfb41bd6b, 0x5be0cd19137e2179,
];

pub fn fits(p: usize, s: usize, r: u64, c: u64) -> bool {
    let nb = (p as u128 + s as u128 + 48) / 64 + 1;
    8 * nb <= 12 * r as u128 * c as u128
}

pub fn admissible(p: usize, s: usize, t: u64, r: u64, c: u64) -> bool {
    t >= 1 && r >= 3 && c >= 1 && fits(p, s, r, c)
}

pub fn squeeze(mut st: [u64; 16], k: usize) -> Vec<u8> {
    let mut out = Vec::new();
    while out.len() < k {
        for w in &st[..12] {
            out.extend_from_slice(&w.to_le_bytes());
        }
        full(&mut st);
    }
    out.truncate(k);
    out
}

pub fn kdf(md: bool, k: u64, pwd: &[u8], salt: &[u8], t: u64, r: u64, c: u64) -> Vec<u8> {
    // padded input
    let nb = (pwd.len() + salt.len() + 48) / 64 + 1;
    let mut inp: Vec<u64> = Vec::new();
    for src in [pwd, salt] {
        for ch in src.chunks(8) {
            if ch.len() == 8 {
                inp.push(u64::from_le_bytes([ch[0], ch[1], ch[2], ch[3], ch[4], ch[5], ch[6], ch[7]]));
            }
        }
    }
    inp.extend_from_slice(&[k, pwd.len() as u64, salt.len() as u64, t, r, c, 0x80]);
    while inp.len() < 8 * nb {
        inp.push(0);
    }
    inp[8 * nb - 1] ^= 1u64 << 56;
    let mut st = [0u64; 16];
    st[8..].copy_from_slice(&IV);
    for b in inp.chunks(8) {
        for i in 0..8 {
            st[i] ^= b[i];
        }
        full(&mut st);
    }
    let (rows, cols) = (r as usize, c as usize);
    let mut m = vec![[0u64; 12]; rows * cols];
    let at = |row: usize, col: usize| row * cols + col;
    // Setup
    for i in 0..cols {
        m[at(0, cols - 1 - i)].copy_from_slice(&st[..12]);
        round(&mut st);
    }
    for i in 0..cols {
        let p = m[at(0, i)];
        for j in 0..12 {
            st[j] ^= p[j];
        }
        round(&mut st);
        for j in 0..12 {
            m[at(1, cols - 1 - i)][j] = p[j] ^ st[j];
        }
    }
    let (mut ra, mut step, mut win, mut gap) = (0i128, 1i128, 2i128, 1i128);
    for row in 2..rows {
        for i in 0..cols {
            let p = m[at(row - 1, i)];
            let a = m[at(ra as usize, i)];
            for j in 0..12 {
                st[j] ^= p[j].wrapping_add(a[j]);
            }
            round(&mut st);
            for j in 0..12 {
                m[at(row, cols - 1 - i)][j] = p[j] ^ st[j];
            }
            for j in 0..12 {
                m[at(ra as usize, i)][j] ^= st[(j + 11) % 12];
            }
        }
        ra = (ra + step).rem_euclid(win);
        if ra == 0 {
            step = win + gap;
            win *= 2;
            gap = -gap;
        }
    }
    // Wandering
    let mut prev = rows - 1;
    let mut row = 0usize;
    let mut idx = 0u64;
    let mut a_row = 0usize;
    for tau in 1..=t {
        let step: i128 = if tau % 2 == 1 { (r / 2) as i128 - 1 } else { -1 };
        loop {
            let pick = if md {
                idx = st[(idx % 16) as usize];
                st[(idx % 16) as usize]
            } else {
                st[0]
            };
            a_row = (pick & (r - 1)) as usize;
            for i in 0..cols {
                let p = m[at(prev, i)];
                let a = m[at(a_row, i)];
                for j in 0..12 {
                    st[j] ^= p[j].wrapping_add(a[j]);
                }
                round(&mut st);
                for j in 0..12 {
                    m[at(row, i)][j] ^= st[j];
                }
                for j in 0..12 {
                    m[at(a_row, i)][j] ^= st[(j + 11) % 12];
                }
            }
            prev = row;
            row = ((row as i128 + step) as u64 & (r - 1)) as usize;
            if row == 0 {
                break;
            }
        }
    }
    for j in 0..12 {
        st[j] ^= m[at(a_row, 0)][j];
    }
    full(&mut st);
    squeeze(st, k as usize)
}

// ---------------------------------------------------------------- CubeHash
fn cube_rounds(x: &mut [u32; 32], n: usize) {
    for _ in 0..n {
        for (rot, swp, perm) in [(7u32, 8usize, 2usize), (11, 4, 1)] {
            let o = *x;
            for i in 0..16 {
                x[16 + i] = o[16 + i].wrapping_add(o[i]);
            }
            let s = *x;
            for i in 0..16 {
                x[i] = s[i ^ swp].rotate_left(rot) ^ s[16 + i];
            }
            for i in 0..16 {
                x[16 + i] = s[16 + (i ^ perm)];
            }
        }
    }
}

pub fn cubehash(m: &[u8]) -> Vec<u8> {
    let mut x = [0u32; 32];
    x[0] = 32;
    x[1] = 32;
    x[2] = 16;
    cube_rounds(&mut x, 160);
    let mut p = m.to_vec();
    p.push(0x80);
    while p.len() % 32 != 0 {
        p.push(0);
    }
    for b in p.chunks(32) {
        for i in 0..8 {
            x[i] ^= u32::from_le_bytes([b[4 * i], b[4 * i + 1], b[4 * i + 2], b[4 * i + 3]]);
        }
        cube_rounds(&mut x, 16);
    }
    x[31] ^= 1;
    cube_rounds(&mut x, 160);
    x[..8].iter().flat_map(|w| w.to_le_bytes()).collect()
}

// ---------------------------------------------------------------- BMW-256
fn bmw_f(h: &[u32; 16], m: &[u32; 16]) -> [u32; 16] {
    let s = |n: usize, x: u32| -> u32 {
        match n {
            0 => (x >> 1) ^ (x << 3) ^ x.rotate_left(4) ^ x.rotate_left(19),
            1 => (x >> 1) ^ (x << 2) ^ x.rotate_left(8) ^ x.rotate_left(23),
            2 => (x >> 2) ^ (x << 1) ^ x.rotate_left(12) ^ x.rotate_left(25),
            3 => (x >> 2) ^ (x << 2) ^ x.rotate_left(15) ^ x.rotate_left(29),
            4 => (x >> 1) ^ x,
            _ => (x >> 2) ^ x,
        }
    };
    const W: [[(usize, bool); 5]; 16] = {
        const P: bool = true;
        const N: bool = false;
        [
            [(5, P), (7, N), (10, P), (13, P), (14, P)],
            [(6, P), (8, N), (11, P), (14, P), (15, N)],
            [(0, P), (7, P), (9, P), (12, N), (15, P)],
            [(0, P), (1, N), (8, P), (10, N), (13, P)],
            [(1, P), (2, P), (9, P), (11, N), (14, N)],
            [(3, P), (2, N), (10, P), (12, N), (15, P)],
            [(4, P), (0, N), (3, N), (11, N), (13, P)],
            [(1, P), (4, N), (5, N), (12, N), (14, N)],
            [(2, P), (5, N), (6, N), (13, P), (15, N)],
            [(0, P), (3, N), (6, P), (7, N), (14, P)],
            [(8, P), (1, N), (4, N), (7, N), (15, P)],
            [(8, P), (0, N), (2, N), (5, N), (9, P)],
            [(1, P), (3, P), (6, N), (9, N), (10, P)],
            [(2, P), (4, P), (7, P), (10, P), (11, P)],
            [(3, P), (5, N), (8, P), (11, N), (12, N)],
            [(12, P), (4, N), (6, N), (9, N), (13, P)],
        ]
    };
    let mut q = [0u32; 32];
    for i in 0..16 {
        let mut w = 0u32;
        for &(j, pos) in &W[i] {
            let v = m[j] ^ h[j];
            w = if pos { w.wrapping_add(v) } else { w.wrapping_sub(v) };
        }
        q[i] = s(i % 5, w).wrapping_add(h[(i + 1) % 16]);
    }
    const RR: [u32; 7] = [3, 7, 13, 16, 19, 23, 27];
    for i in 16..32 {
        let e = |k: usize| m[k % 16].rotate_left((k % 16) as u32 + 1);
        let add = e(i)
            .wrapping_add(e(i + 3))
            .wrapping_sub(e(i + 10))
            .wrapping_add((i as u32).wrapping_mul(0x05555555))
            ^ h[(i + 7) % 16];
        let mut t = add;
        if i < 18 {
            for j in 0..16 {
                t = t.wrapping_add(s([1, 2, 3, 0][j % 4], q[i - 16 + j]));
            }
        } else {
            for j in 0..14 {
                let v = q[i - 16 + j];
                t = t.wrapping_add(if j % 2 == 0 { v } else { v.rotate_left(RR[j / 2]) });
            }
            t = t.wrapping_add(s(4, q[i - 2])).wrapping_add(s(5, q[i - 1]));
        }
        q[i] = t;
    }
    let xl = q[16..24].iter().fold(0, |a, b| a ^ b);
    let xh = q[24..32].iter().fold(xl, |a, b| a ^ b);
    let sh = |x: u32, n: i32| -> u32 {
        if n >= 0 {
            x << n
        } else {
            x >> -n
        }
    };
    let a: [(i32, i32); 8] = [(5, -5), (-7, 8), (-5, 5), (-1, 5), (-3, 0), (6, -6), (-4, 6), (-11, 2)];
    let b: [i32; 8] = [8, -6, 6, 4, -3, -4, -7, -2];
    let mut o = [0u32; 16];
    for i in 0..8 {
        o[i] = (sh(xh, a[i].0) ^ sh(q[16 + i], a[i].1) ^ m[i]).wrapping_add(xl ^ q[24 + i] ^ q[i]);
    }
    for i in 0..8 {
        o[8 + i] = o[(4 + i) % 8]
            .rotate_left(9 + i as u32)
            .wrapping_add(xh ^ q[24 + i] ^ m[8 + i])
            .wrapping_add(sh(xl, b[i]) ^ q[if i == 0 { 23 } else { 15 + i }] ^ q[8 + i]);
    }
    o
}

pub fn bmw(msg: &[u8]) -> Vec<u8> {
    assert!(msg.len() <= 55);
    let mut p = msg.to_vec();
    p.push(0x80);
    p.resize(56, 0);
    p.extend_from_slice(&(8 * msg.len() as u64).to_le_bytes());
    let mut m = [0u32; 16];
    let mut h = [0u32; 16];
    let mut f = [0u32; 16];
    for i in 0..16 {
        m[i] = u32::from_le_bytes([p[4 * i], p[4 * i + 1], p[4 * i + 2], p[4 * i + 3]]);
        h[i] = 0x40414243 + 0x04040404 * i as u32;
        f[i] = 0xaaaaaaa0 + i as u32;
    }
    let h = bmw_f(&h, &m);
    let h = bmw_f(&f, &h);
    h[8..].iter().flat_map(|w| w.to_le_bytes()).collect()
}

// ---------------------------------------------------------------- chains
pub fn blake(x: &[u8]) -> Vec<u8> {
    use blake_hash::Digest;
    blake_hash::Blake256::digest(x).to_vec()
}
fn keccak(x: &[u8]) -> Vec<u8> {
    use sha3::Digest;
    sha3::Keccak256::digest(x).to_vec()
}
fn skein(x: &[u8]) -> Vec<u8> {
    use skein_hash::Digest;
    skein_hash::Skein512::<digest::generic_array::typenum::U32>::digest(x).to_vec()
}
fn groestl256(x: &[u8]) -> Vec<u8> {
    use groestl::Digest;
    groestl::Groestl256::digest(x).to_vec()
}

pub fn chain(which: &str, x: &[u8]) -> Vec<u8> {
    let l = |md: bool, y: &[u8], t, r, c| kdf(md, 32, y, y, t, r, c);
    match which {
        "sum" => l(false, x, 1, 4, 4),
        "summod" => l(true, x, 1, 4, 4),
        "z" => l(false, &blake(x), 8, 8, 8),
        "re" => groestl256(&skein(&l(false, &keccak(&blake(x)), 1, 8, 8))),
        "rev2" => bmw(&cubehash(&skein(&l(false, &cubehash(&keccak(&blake(x))), 1, 4, 4)))),
        "rev3" => bmw(&l(true, &cubehash(&l(true, &blake(x), 1, 4, 4)), 1, 4, 4)),
        _ => unreachable!(),
    }
}
