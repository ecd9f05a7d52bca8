//! Key universes with adversarial shapes, and values.
use crate::rec::{sha, INT_SEP, LEAF_SEP};
use crate::rng::Rng;

pub fn bit(k: &[u8; 32], d: usize) -> u8 {
    (k[d / 8] >> (7 - d % 8)) & 1
}
pub fn nibble(k: &[u8; 32], i: usize) -> u8 {
    if i % 2 == 0 {
        k[i / 2] >> 4
    } else {
        k[i / 2] & 15
    }
}
pub fn set_nibble(k: &mut [u8; 32], i: usize, n: u8) {
    if i % 2 == 0 {
        k[i / 2] = (k[i / 2] & 15) | (n << 4);
    } else {
        k[i / 2] = (k[i / 2] & 0xf0) | n;
    }
}
pub fn flip(k: &mut [u8; 32], d: usize) {
    k[d / 8] ^= 1 << (7 - d % 8);
}
pub fn lcp(a: &[u8; 32], b: &[u8; 32]) -> usize {
    (0..256).find(|&d| bit(a, d) != bit(b, d)).unwrap_or(256)
}

/// A key that shares exactly `d` leading bits with `k`; the rest is random.
pub fn branch(r: &mut Rng, k: &[u8; 32], d: usize) -> [u8; 32] {
    let mut x = r.bytes32();
    for i in 0..d {
        if bit(&x, i) != bit(k, i) {
            flip(&mut x, i);
        }
    }
    if bit(&x, d) == bit(k, d) {
        flip(&mut x, d);
    }
    x
}

/// The depth of a branch: mostly shallow, sometimes anywhere.
fn depth(r: &mut Rng, deep: bool) -> usize {
    if deep {
        match r.below(6) {
            0 => 255,
            1 => r.range(248, 254),
            2 => r.range(100, 250),
            3 => *r.pick(&[3, 4, 5, 7, 8, 9, 15, 16, 127, 128, 251, 252]),
            _ => r.below(256),
        }
    } else {
        match r.below(10) {
            0..=5 => r.below(9),
            6..=8 => r.below(24),
            _ => r.below(40),
        }
    }
}

pub fn universe(r: &mut Rng, n: usize) -> Vec<[u8; 32]> {
    let mut ks: Vec<[u8; 32]> = vec![];
    let fam = r.below(9);
    match fam {
        // all in one nibble below a common prefix, every bit pattern
        0 => {
            let b = r.bytes32();
            let at = *r.pick(&[0usize, 0, 0, 1, 2, 3, 62, 63]);
            let mut ns: Vec<u8> = (0..16).collect();
            r.shuffle(&mut ns);
            for &x in ns.iter().take(n.min(16)) {
                let mut k = b;
                set_nibble(&mut k, at, x);
                if r.pct(30) && at < 60 {
                    let y = r.bytes32();
                    for i in at + 1..64 {
                        set_nibble(&mut k, i, nibble(&y, i));
                    }
                }
                ks.push(k);
            }
        }
        // consecutive numbers, with carries
        1 => {
            let mut b = r.bytes32();
            if r.pct(50) {
                b[31] = 0xff - r.below(n) as u8;
                if r.pct(50) {
                    b[30] = 0xff;
                }
            }
            let step = *r.pick(&[1u8, 1, 2, 15, 16, 17]);
            for _ in 0..n {
                ks.push(b);
                let mut c = step as u16;
                for i in (0..32).rev() {
                    let s = b[i] as u16 + c;
                    b[i] = s as u8;
                    c = s >> 8;
                    if c == 0 {
                        break;
                    }
                }
            }
        }
        // extremes
        2 => {
            ks.push([0; 32]);
            ks.push([0xff; 32]);
            let mut one = [0; 32];
            one[31] = 1;
            ks.push(one);
            let mut m = [0xff; 32];
            m[31] = 0xfe;
            ks.push(m);
            let mut h = [0; 32];
            h[0] = 0x80;
            ks.push(h);
            let mut h = [0xff; 32];
            h[0] = 0x7f;
            ks.push(h);
            r.shuffle(&mut ks);
            ks.truncate(n.min(r.range(2, 6)));
            while ks.len() < n {
                let b = *r.pick(&ks.clone());
                let d = depth(r, false);
                ks.push(branch(r, &b, d));
            }
        }
        // deep: some pairs share very long prefixes
        3 => {
            ks.push(r.bytes32());
            let mut deep = 0;
            while ks.len() < n {
                let b = *r.pick(&ks.clone());
                let dp = deep < 3;
                deep += 1;
                let d = depth(r, dp);
                ks.push(branch(r, &b, d));
            }
        }
        // a comb: every key branches off the first one at another depth
        4 => {
            let b = r.bytes32();
            ks.push(b);
            let mut d = r.below(3);
            while ks.len() < n {
                ks.push(branch(r, &b, d));
                d += r.range(1, 3);
            }
        }
        // all in one half, quarter or 16th
        5 => {
            let b = r.bytes32();
            let c = r.range(1, 9);
            while ks.len() < n {
                let d = c + r.below(5);
                ks.push(branch(r, &b, d));
            }
        }
        // a random tree of branches
        6 | 7 => {
            ks.push(r.bytes32());
            while ks.len() < n {
                let b = *r.pick(&ks.clone());
                let d = depth(r, false);
                ks.push(branch(r, &b, d));
            }
        }
        // the same nibbles repeated
        _ => {
            let a = r.below(16) as u8;
            let b = r.below(16) as u8;
            let len = r.range(1, 4);
            for i in 0..n {
                let mut k = [0; 32];
                for j in 0..64 {
                    set_nibble(&mut k, j, if j % 2 == 0 { a } else { b });
                }
                for j in 0..len {
                    let y = (i * 7 + r.below(3) + j) as u8 % 16;
                    set_nibble(&mut k, j, if r.pct(60) { y } else { a });
                }
                ks.push(k);
            }
        }
    }
    ks.sort();
    ks.dedup();
    while ks.len() < 2 {
        ks.push(r.bytes32());
        ks.sort();
        ks.dedup();
    }
    ks
}

/// Very many keys, also very many below one node.
pub fn large(r: &mut Rng, n: usize) -> Vec<[u8; 32]> {
    let mut ks: Vec<[u8; 32]> = vec![];
    let b = r.bytes32();
    let common = *r.pick(&[0usize, 0, 2, 4, 5, 8]);
    let dense = r.pct(40);
    while ks.len() < n {
        if dense {
            // numbers in a row below a common prefix
            let mut k = b;
            let i = ks.len() as u16;
            k[30] = (i >> 8) as u8;
            k[31] = i as u8;
            ks.push(k);
        } else {
            let mut k = r.bytes32();
            if r.pct(95) {
                for d in 0..common {
                    if bit(&k, d) != bit(&b, d) {
                        flip(&mut k, d);
                    }
                }
            }
            ks.push(k);
        }
    }
    if dense && r.pct(50) {
        ks.push(r.bytes32());
    }
    ks.sort();
    ks.dedup();
    ks
}

/// Keys with known preimages: hashes of short strings, some sharing prefixes as long as a search finds.
pub fn hashed(r: &mut Rng, n: usize) -> Vec<([u8; 32], Vec<u8>)> {
    let salt = r.next();
    let style = r.below(8);
    let mut pool: Vec<([u8; 32], Vec<u8>)> = (0..4096u32)
        .map(|i| {
            let p = preimage(style, salt, i);
            (sha(&p), p)
        })
        .collect();
    pool.sort();
    let mut out: Vec<([u8; 32], Vec<u8>)> = vec![];
    let mode = r.below(3);
    let mut tries = 0;
    while out.len() < n {
        tries += 1;
        let mode = if tries > 40 || n > 36 { 0 } else { mode };
        let i = r.below(pool.len() - 1);
        match mode {
            0 => out.push(pool[i].clone()),
            1 => {
                for j in i..(i + 3).min(pool.len()) {
                    out.push(pool[j].clone());
                }
            }
            _ => {
                // the pair with the longest common prefix near i
                let mut best = (0, i);
                for j in i..(i + 200).min(pool.len() - 1) {
                    let l = lcp(&pool[j].0, &pool[j + 1].0);
                    if l > best.0 {
                        best = (l, j);
                    }
                }
                out.push(pool[best.1].clone());
                out.push(pool[best.1 + 1].clone());
            }
        }
        out.sort();
        out.dedup();
    }
    out
}

/// Preimages of any length, different for every i < 2^14.
pub fn preimage(style: usize, salt: u64, i: u32) -> Vec<u8> {
    let mut p = [salt.to_be_bytes().as_slice(), &i.to_be_bytes()].concat();
    match style {
        0 => p.resize(12 + i as usize % 50, b'x'),
        1 => p.resize([126, 127, 128, 129, 255, 256, 300, 1000][i as usize % 8], 0),
        2 => p = (i as u16 ^ salt as u16).to_be_bytes().to_vec(),
        3 if i < 256 => p = vec![i as u8],
        3 => p = ((i - 256) as u16).to_be_bytes().to_vec(),
        _ => {}
    }
    p
}

/// Values 1..m, pairwise different.
pub fn values(r: &mut Rng, m: usize, ks: &[[u8; 32]]) -> Vec<Vec<u8>> {
    let mut vs: Vec<Vec<u8>> = vec![vec![]]; // number 0 is not a value
    let mut pool: Vec<Vec<u8>> = vec![
        vec![1],
        vec![0],
        vec![0, 0],
        b"value".to_vec(),
        ks[0].to_vec(),
        [LEAF_SEP, &ks[0], &sha(b"value")].concat(),
        [INT_SEP, &ks[0], &ks[ks.len() - 1]].concat(),
        vec![0xab; 300],
        crate::rec::PLACEHOLDER.to_vec(),
        vec![],
        vec![7; *r.pick(&[31usize, 32, 33, 64, 127, 128, 129])],
        vec![8; *r.pick(&[255usize, 256, 257, 511, 512])],
    ];
    if r.pct(3) {
        pool.push(vec![9; *r.pick(&[16383usize, 16384, 65535, 65536, 70000])]);
    }
    r.shuffle(&mut pool);
    let nonempty = r.pct(60);
    for i in 0..m {
        if i < pool.len() && !(nonempty && pool[i].is_empty()) {
            vs.push(pool[i].clone());
        } else {
            vs.push(format!("v{}", i).into_bytes());
        }
    }
    vs
}
