"""Planted bugs (see seedgen.py).  Written from the property texts and the code of /repo."""
BUGS = {}

REF = r'''
#[allow(dead_code)]
fn qr(s: &mut [u32; 16], a: usize, b: usize, c: usize, d: usize) {
    s[a] = s[a].wrapping_add(s[b]); s[d] = (s[d] ^ s[a]).rotate_left(16);
    s[c] = s[c].wrapping_add(s[d]); s[b] = (s[b] ^ s[c]).rotate_left(12);
    s[a] = s[a].wrapping_add(s[b]); s[d] = (s[d] ^ s[a]).rotate_left(8);
    s[c] = s[c].wrapping_add(s[d]); s[b] = (s[b] ^ s[c]).rotate_left(7);
}
#[allow(dead_code)]
fn perm(rounds: usize, x: &mut [u32; 16]) {
    for _ in 0..rounds / 2 {
        qr(x,0,4,8,12); qr(x,1,5,9,13); qr(x,2,6,10,14); qr(x,3,7,11,15);
        qr(x,0,5,10,15); qr(x,1,6,11,12); qr(x,2,7,8,13); qr(x,3,4,9,14);
    }
}
#[allow(dead_code)]
fn st(key: &[u8], row: [u32; 4]) -> [u32; 16] {
    let mut s = [0x61707865, 0x3320646e, 0x79622d32, 0x6b206574, 0,0,0,0,0,0,0,0, row[0], row[1], row[2], row[3]];
    for i in 0..8 { s[4+i] = u32::from_le_bytes(key[4*i..4*i+4].try_into().unwrap()); }
    s
}
#[allow(dead_code)]
fn block(rounds: usize, key: &[u8], row: [u32; 4]) -> [u8; 64] {
    let s = st(key, row); let mut x = s; perm(rounds, &mut x);
    let mut o = [0u8; 64];
    for i in 0..16 { o[4*i..4*i+4].copy_from_slice(&x[i].wrapping_add(s[i]).to_le_bytes()); }
    o
}
#[allow(dead_code)]
fn le(b: &[u8]) -> u32 { u32::from_le_bytes(b[..4].try_into().unwrap()) }
/// keystream of the 64-bit counter variant
#[allow(dead_code)]
fn ks64(rounds: usize, key: &[u8], nonce: &[u8], start: u64, n: usize) -> Vec<u8> {
    (0..n as u64).flat_map(|i| { let c = start.wrapping_add(i);
        block(rounds, key, [c as u32, (c >> 32) as u32, le(nonce), le(&nonce[4..])]) }).collect()
}
/// keystream of the 32-bit counter variant
#[allow(dead_code)]
fn ks32(rounds: usize, key: &[u8], nonce: &[u8], start: u32, n: usize) -> Vec<u8> {
    (0..n as u32).flat_map(|i| block(rounds, key, [start.wrapping_add(i), le(nonce), le(&nonce[4..]), le(&nonce[8..])])).collect()
}
'''
CH = {"chacha20": ["cipher", "legacy", "xchacha"]}
RNG = {"chacha20": ["rng"]}
RC = ['rand_core = { version = "0.10", default-features = false }']


def bug(id, property, needs, breaks, edits, demo, **kw):
    BUGS[id] = dict(property=property, needs=needs, breaks=breaks, edits=edits, demo=demo, **kw)


bug("avx2-par-carry", "C02",
    "AVX2 backend, 64-bit counter, and the low counter word wrapping between one parallel batch and the next inside a single call",
    "The AVX2 parallel path advances the 64-bit counter with a 32-bit add, so after a batch that crosses a multiple of 2^32 blocks the AVX2 keystream differs from the other backends (repeats old keystream).",
    [("chacha20/src/backends/avx2.rs", '''    fn gen_par_ks_blocks(&mut self, blocks: &mut ParBlocks<Self>) {
        unsafe {
            let vs = rounds::<R>(&self.v, &self.ctr);

            let pb = PAR_BLOCKS as i32;
            for c in self.ctr.iter_mut() {
                *c = match size_of::<V::Counter>() {
                    4 => _mm256_add_epi32(*c, _mm256_set_epi32(0, 0, 0, pb, 0, 0, 0, pb)),
                    8 => {
                        _mm256_add_epi64(*c, _mm256_set_epi64x(0, i64::from(pb), 0, i64::from(pb)))
                    }
                    _ => unreachable!(),
                }
            }
''', '''    fn gen_par_ks_blocks(&mut self, blocks: &mut ParBlocks<Self>) {
        unsafe {
            let vs = rounds::<R>(&self.v, &self.ctr);

            // both lanes advance by the number of blocks just produced
            let step = _mm256_set_epi32(0, 0, 0, PAR_BLOCKS as i32, 0, 0, 0, PAR_BLOCKS as i32);
            for c in self.ctr.iter_mut() {
                *c = _mm256_add_epi32(*c, step);
            }
''')],
    REF + r'''
use chacha20::{ChaCha20Legacy, cipher::*};
fn main() {
    let key = [7u8; 32]; let n = [9u8; 8];
    let start = (5u64 << 32) - 3;
    let mut c = ChaCha20Legacy::new(&key.into(), &n.into());
    c.seek(start as u128 * 64);
    let mut b = [0u8; 64 * 11];
    c.apply_keystream(&mut b);
    assert!(b[..] == ks64(20, &key, &n, start, 11)[..]);
}
''', crates=CH, rustflags='')

bug("avx512-half-carry", "C02",
    "AVX-512 backend, 64-bit counter, a tail of exactly two blocks starting at a block position whose low word is 0xFFFFFFFF",
    "The two-block AVX-512 tail path adds 1 to the second lane's counter with a 32-bit add, so the second block uses a wrong counter at the 2^32 boundary.",
    [("chacha20/src/backends/avx512.rs", '''        match size_of::<V::Counter>() {
            4 => {
                ctr = _mm256_add_epi32(ctr, _mm256_set_epi32(0, 0, 0, 1, 0, 0, 0, 0));
            }
            8 => {
                ctr = _mm256_add_epi64(ctr, _mm256_set_epi64x(0, 1, 0, 0));
            }
            _ => unreachable!(),
        }
''', '''        // the second lane holds the next block
        ctr = _mm256_add_epi32(ctr, _mm256_set_epi32(0, 0, 0, 1, 0, 0, 0, 0));
''')],
    REF + r'''
use chacha20::{ChaCha20Legacy, cipher::*};
fn main() {
    let key = [7u8; 32]; let n = [9u8; 8];
    for back in 0..4u64 {
        let start = (5u64 << 32) - back;
        let mut c = ChaCha20Legacy::new(&key.into(), &n.into());
        c.seek(start as u128 * 64);
        let mut b = [0u8; 128];
        c.apply_keystream(&mut b);
        assert!(b[..] == ks64(20, &key, &n, start, 2)[..]);
    }
}
''', crates=CH, rustflags='--cfg chacha20_avx512')

bug("soft-ctr-nonce", "C03",
    "portable backend, 32-bit counter, core-level use that generates the block at position 2^32-1",
    "The portable backend writes the carry of the 32-bit counter into the first nonce word, so after the last block the cipher continues under a different nonce.",
    [("chacha20/src/backends/soft.rs", '''        self.0.state[12] = ctr as u32;
        if size_of::<V::Counter>() == 8 {
            self.0.state[13] = (ctr >> 32) as u32;
        }

        for (chunk''', '''        self.0.state[12] = ctr as u32;
        self.0.state[13] = (ctr >> 32) as u32;

        for (chunk''')],
    REF + r'''
use chacha20::{ChaChaCore, R20, variants::Ietf, cipher::*};
fn main() {
    let key = [7u8; 32]; let n = [9u8; 12];
    let mut c = <ChaChaCore<R20, Ietf> as KeyIvInit>::new(&key.into(), &n.into());
    c.set_block_pos(u32::MAX - 1);
    let mut b = [Default::default(); 4];
    c.write_keystream_blocks(&mut b);
    let flat: Vec<u8> = b.iter().flat_map(|x: &Block<ChaChaCore<R20, Ietf>>| x.to_vec()).collect();
    assert!(flat == ks32(20, &key, &n, u32::MAX - 1, 4));
    assert!(c.get_block_pos() == 2);
}
''', crates=CH, rustflags='--cfg chacha20_backend="soft"')

bug("avx2-ietf-epi64", "C03",
    "AVX2 backend, 32-bit counter, several blocks generated in one core-level call that crosses block position 2^32",
    "The AVX2 set-up of the per-lane counters uses 64-bit adds for the 32-bit-counter variant too, so lanes past the wrap use nonce+1.",
    [("chacha20/src/backends/avx2.rs", '''    F: StreamCipherClosure<BlockSize = U64>,
    V: Variant,
{
    let state_ptr = state.as_ptr().cast::<__m128i>();
    let v = [
        _mm256_broadcastsi128_si256(_mm_loadu_si128(state_ptr.add(0))),
        _mm256_broadcastsi128_si256(_mm_loadu_si128(state_ptr.add(1))),
        _mm256_broadcastsi128_si256(_mm_loadu_si128(state_ptr.add(2))),
    ];
    let mut c = _mm256_broadcastsi128_si256(_mm_loadu_si128(state_ptr.add(3)));
    c = match size_of::<V::Counter>() {
        4 => _mm256_add_epi32(c, _mm256_set_epi32(0, 0, 0, 1, 0, 0, 0, 0)),
        8 => _mm256_add_epi64(c, _mm256_set_epi64x(0, 1, 0, 0)),
        _ => unreachable!(),
    };
''', '''    F: StreamCipherClosure<BlockSize = U64>,
    V: Variant,
{
    let state_ptr = state.as_ptr().cast::<__m128i>();
    let v = [
        _mm256_broadcastsi128_si256(_mm_loadu_si128(state_ptr.add(0))),
        _mm256_broadcastsi128_si256(_mm_loadu_si128(state_ptr.add(1))),
        _mm256_broadcastsi128_si256(_mm_loadu_si128(state_ptr.add(2))),
    ];
    let mut c = _mm256_broadcastsi128_si256(_mm_loadu_si128(state_ptr.add(3)));
    // second lane starts one block later
    c = _mm256_add_epi64(c, _mm256_set_epi64x(0, 1, 0, 0));
''')],
    REF + r'''
use chacha20::{ChaChaCore, R20, variants::Ietf, cipher::*};
fn main() {
    let key = [7u8; 32]; let n = [9u8; 12];
    for back in 0..6u32 {
        let mut c = <ChaChaCore<R20, Ietf> as KeyIvInit>::new(&key.into(), &n.into());
        c.set_block_pos(u32::MAX - back);
        let mut b = [Default::default(); 9];
        c.write_keystream_blocks(&mut b);
        let flat: Vec<u8> = b.iter().flat_map(|x: &Block<ChaChaCore<R20, Ietf>>| x.to_vec()).collect();
        assert!(flat == ks32(20, &key, &n, u32::MAX - back, 9));
        assert!(c.get_block_pos() == 8 - back);
    }
}
''', crates=CH, rustflags='')

bug("salsa-stale-high", "C04",
    "a seek past block 2^32 followed by a seek back below it on the same object",
    "Setting a block position below 2^32 leaves the old high counter word in place, so seeking back produces the keystream of another position (and the wrong reported position).",
    [("salsa20/src/lib.rs", '''        self.state[8] = (pos & 0xffff_ffff) as u32;
        self.state[9] = ((pos >> 32) & 0xffff_ffff) as u32;
''', '''        self.state[8] = (pos & 0xffff_ffff) as u32;
        if pos > u64::from(u32::MAX) {
            self.state[9] = ((pos >> 32) & 0xffff_ffff) as u32;
        }
''')],
    r'''
use salsa20::{Salsa20, cipher::*};
fn main() {
    let key = [7u8; 32]; let n = [9u8; 8];
    let mut a = Salsa20::new(&key.into(), &n.into());
    let mut b = Salsa20::new(&key.into(), &n.into());
    let mut x = [0u8; 100]; let mut y = [0u8; 100];
    a.seek(3u128 << 38); a.apply_keystream(&mut x);
    x = [0u8; 100];
    a.seek(17u32); b.seek(17u32);
    a.apply_keystream(&mut x); b.apply_keystream(&mut y);
    assert!(x == y);
    assert!(a.current_pos::<u128>() == 117);
}
''', crates={"salsa20": []})

bug("ietf-last-block", "C05",
    "a 32-bit-counter cipher positioned at its very last block, asked for more data than remains",
    "remaining_blocks never reports zero for 32-bit-counter ChaCha, so one block past the end of the keystream is accepted and keystream from block 0 is reused.",
    [("chacha20/src/variants.rs", '''        let remaining = u32::MAX - block_pos;
''', '''        // the current block can always still be generated
        let remaining = (u32::MAX - block_pos).max(1);
''')],
    r'''
use chacha20::{ChaCha20, cipher::*};
fn main() {
    let key = [7u8; 32]; let n = [9u8; 12];
    let end = 64u64 * (1 << 32);
    for len in [1usize, 63, 64, 65, 200] {
        let mut c = ChaCha20::new(&key.into(), &n.into());
        c.seek(end - 64);
        let mut buf = [0u8; 256];
        assert!(c.try_apply_keystream(&mut buf[..len]).is_err(), "accepted {} bytes", len);
        assert!(buf == [0u8; 256]);
    }
}
''', crates=CH)

bug("xchacha-subkey20", "C06",
    "XChaCha with fewer than 20 rounds (XChaCha8 or XChaCha12)",
    "The subkey of every XChaCha variant is derived with the 20-round HChaCha, so XChaCha8 and XChaCha12 are not ChaCha8/12 keyed with HChaCha8/12.",
    [("chacha20/src/xchacha.rs", '''hchacha::<R>(''', '''hchacha::<R20>(''')],
    REF + r'''
use chacha20::{XChaCha8, XChaCha12, XChaCha20, cipher::*};
fn check<C: KeyIvInit + StreamCipher>(rounds: usize, key: &[u8; 32], iv: &[u8; 24]) {
    let mut x = st(key, [le(iv), le(&iv[4..]), le(&iv[8..]), le(&iv[12..])]);
    perm(rounds, &mut x);
    let sub: Vec<u8> = x[..4].iter().chain(&x[12..]).flat_map(|w| w.to_le_bytes()).collect();
    let mut n = [0u8; 12]; n[4..].copy_from_slice(&iv[16..]);
    let mut c = C::new_from_slices(key, iv).unwrap();
    let mut b = [0u8; 200]; c.apply_keystream(&mut b);
    assert!(b[..] == ks32(rounds, &sub, &n, 0, 4)[..200]);
}
fn main() {
    let key: [u8; 32] = core::array::from_fn(|i| i as u8 * 5); let iv: [u8; 24] = core::array::from_fn(|i| 200 - i as u8);
    check::<XChaCha8>(8, &key, &iv); check::<XChaCha12>(12, &key, &iv); check::<XChaCha20>(20, &key, &iv);
}
''', crates=CH)

SALSA = r'''
fn sqr(s: &mut [u32; 16], a: usize, b: usize, c: usize, d: usize) {
    s[b] ^= s[a].wrapping_add(s[d]).rotate_left(7); s[c] ^= s[b].wrapping_add(s[a]).rotate_left(9);
    s[d] ^= s[c].wrapping_add(s[b]).rotate_left(13); s[a] ^= s[d].wrapping_add(s[c]).rotate_left(18);
}
fn sperm(rounds: usize, x: &mut [u32; 16]) {
    for _ in 0..rounds / 2 {
        sqr(x,0,4,8,12); sqr(x,5,9,13,1); sqr(x,10,14,2,6); sqr(x,15,3,7,11);
        sqr(x,0,1,2,3); sqr(x,5,6,7,4); sqr(x,10,11,8,9); sqr(x,15,12,13,14);
    }
}
#[allow(dead_code)]
fn le(b: &[u8]) -> u32 { u32::from_le_bytes(b[..4].try_into().unwrap()) }
#[allow(dead_code)]
fn sst(key: &[u8], mid: [u32; 4]) -> [u32; 16] {
    let k: Vec<u32> = key.chunks(4).map(le).collect();
    [0x61707865, k[0], k[1], k[2], k[3], 0x3320646e, mid[0], mid[1], mid[2], mid[3], 0x79622d32, k[4], k[5], k[6], k[7], 0x6b206574]
}
fn sblock(rounds: usize, s: [u32; 16]) -> [u8; 64] {
    let mut x = s; sperm(rounds, &mut x); let mut o = [0u8; 64];
    for i in 0..16 { o[4*i..4*i+4].copy_from_slice(&x[i].wrapping_add(s[i]).to_le_bytes()); }
    o
}
'''

bug("xsalsa-subkey20", "C08",
    "XSalsa with fewer than 20 rounds (XSalsa8 or XSalsa12)",
    "The subkey of every XSalsa variant is derived with the 20-round HSalsa.",
    [("salsa20/src/xsalsa.rs", '''hsalsa::<R>(key''', '''hsalsa::<U10>(key''')],
    SALSA + r'''
use salsa20::{XSalsa8, XSalsa12, XSalsa20, cipher::*};
fn check<C: KeyIvInit + StreamCipher>(rounds: usize, key: &[u8; 32], iv: &[u8; 24]) {
    let mut x = sst(key, [le(iv), le(&iv[4..]), le(&iv[8..]), le(&iv[12..])]);
    sperm(rounds, &mut x);
    let sub: Vec<u8> = [0, 5, 10, 15, 6, 7, 8, 9].iter().flat_map(|&i| x[i as usize].to_le_bytes()).collect();
    let mut c = C::new_from_slices(key, iv).unwrap();
    let mut b = [0u8; 128]; c.apply_keystream(&mut b);
    for i in 0..2 { assert!(b[64*i..64*i+64] == sblock(rounds, sst(&sub, [le(&iv[16..]), le(&iv[20..]), i as u32, 0]))); }
}
fn main() {
    let key: [u8; 32] = core::array::from_fn(|i| i as u8 * 5); let iv: [u8; 24] = core::array::from_fn(|i| 200 - i as u8);
    check::<XSalsa8>(8, &key, &iv); check::<XSalsa12>(12, &key, &iv); check::<XSalsa20>(20, &key, &iv);
}
''', crates={"salsa20": []})

bug("rng-block-pos-noop", "C10",
    "set_block_pos called with the number of the block the generator is in the middle of",
    "set_block_pos treats a request for the current block as a no-op, although the generator may be part-way through that block, so the output does not restart at its first word.",
    [("chacha20/src/rng.rs", '''            pub fn set_block_pos(&mut self, block_pos: u64) {
                self.core.reset_and_skip(0);
''', '''            pub fn set_block_pos(&mut self, block_pos: u64) {
                if block_pos == self.get_block_pos() && self.core.word_offset() != 0 {
                    // already inside that block: keep the buffered keystream
                    return;
                }
                self.core.reset_and_skip(0);
''')],
    REF + r'''
use chacha20::ChaCha20Rng; use rand_core::*;
fn main() {
    let seed = [7u8; 32];
    let mut r = ChaCha20Rng::from_seed(seed);
    for _ in 0..21 { r.next_u32(); }
    r.set_block_pos(1);
    let mut b = [0u8; 64];
    r.fill_bytes(&mut b);
    assert!(b[..] == ks64(20, &seed, &[0; 8], 1, 1)[..]);
}
''', crates=RNG, deps=RC)

bug("rng-eq-low64", "C11",
    "two generators whose word positions differ by a multiple of 2^64 words",
    "Equality compares only the low 64 bits of the 68-bit word position, so generators with different future output compare equal.",
    [("chacha20/src/rng.rs", '''                    && (self.get_word_pos() == rhs.get_word_pos())
''', '''                    && (self.get_word_pos() as u64 == rhs.get_word_pos() as u64)
''')],
    r'''
use chacha20::ChaCha20Rng; use rand_core::*;
fn main() {
    let mut a = ChaCha20Rng::from_seed([1; 32]); let mut b = ChaCha20Rng::from_seed([1; 32]);
    a.set_word_pos(33); b.set_word_pos(33 + (6u128 << 64));
    let same = a.next_u32() == b.next_u32() && a.next_u64() == b.next_u64();
    assert!((a == b) == same);
}
''', crates=RNG, deps=RC)

bug("rng-deser-top", "C11",
    "serialising a generator whose word position is at least 2^64",
    "Deserialisation restores the word position from 8 of its 9 bytes, losing the top bits.",
    [("chacha20/src/rng.rs", '''                word_pos_buf[..9].copy_from_slice(word_pos_raw);
''', '''                word_pos_buf[..8].copy_from_slice(&word_pos_raw[..8]);
''')],
    r'''
use chacha20::ChaCha12Rng; use rand_core::*;
fn main() {
    let mut a = ChaCha12Rng::from_seed([1; 32]);
    a.set_word_pos((9u128 << 64) + 5);
    let mut b = ChaCha12Rng::deserialize_state(&a.serialize_state());
    assert!(a.get_word_pos() == b.get_word_pos() && a.next_u64() == b.next_u64());
}
''', crates=RNG, deps=RC)

HCREF = r'''
fn f1(x: u32) -> u32 { x.rotate_right(7) ^ x.rotate_right(18) ^ (x >> 3) }
fn f2(x: u32) -> u32 { x.rotate_right(17) ^ x.rotate_right(19) ^ (x >> 10) }
struct H { p: Vec<u32>, q: Vec<u32>, i: usize }
fn h(t: &[u32], x: u32) -> u32 {
    let b = x.to_le_bytes();
    t[b[0] as usize].wrapping_add(t[256 + b[1] as usize]).wrapping_add(t[512 + b[2] as usize]).wrapping_add(t[768 + b[3] as usize])
}
fn g(t: &[u32], x: u32, y: u32) -> u32 { (x.rotate_right(10) ^ y.rotate_right(23)).wrapping_add(t[((x ^ y) % 1024) as usize]) }
impl H {
    fn new(key: &[u8], iv: &[u8]) -> H {
        let mut w: Vec<u32> = key.chunks(4).chain(iv.chunks(4)).map(|c| u32::from_le_bytes(c.try_into().unwrap())).collect();
        for i in 16..2560 { w.push(f2(w[i-2]).wrapping_add(w[i-7]).wrapping_add(f1(w[i-15])).wrapping_add(w[i-16]).wrapping_add(i as u32)); }
        let mut s = H { p: w[512..1536].to_vec(), q: w[1536..2560].to_vec(), i: 0 };
        for _ in 0..4096 { s.word(); }
        s
    }
    fn word(&mut self) -> u32 {
        let i = self.i; self.i = (i + 1) % 2048;
        let (p, q) = if i < 1024 { (&mut self.p, &self.q) } else { (&mut self.q, &self.p) };
        let j = i % 1024; let at = |d: usize| (j + 1024 - d) % 1024;
        p[j] = p[j].wrapping_add(p[at(10)]).wrapping_add(g(q, p[at(3)], p[(j + 1) % 1024]));
        h(q, p[at(12)]) ^ p[j]
    }
}
'''
bug("hc256-iv-bytes", "C12",
    "an IV with a non-zero byte that is not the first of its word",
    "Two bytes of every IV word are taken from the same input byte, so the IV is not loaded as the specification says.",
    [("hc-256/src/lib.rs", '''((iv[(4 * i) + 2] as u32 & 0xff) << 16)''', '''((iv[(4 * i) + 1] as u32 & 0xff) << 16)''')],
    HCREF + r'''
use hc_256::{Hc256, cipher::*};
fn main() {
    let key: [u8; 32] = core::array::from_fn(|i| i as u8 * 5); let iv: [u8; 32] = core::array::from_fn(|i| 200 - i as u8);
    let mut c = Hc256::new(&key.into(), &iv.into());
    let mut b = [0u8; 4000]; c.apply_keystream(&mut b);
    let mut r = H::new(&key, &iv);
    for w in b.chunks(4) { assert!(w == r.word().to_le_bytes()); }
}
''', crates={"hc-256": []})

bug("hc256-long-run", "C12",
    "a single object that produces more than 63488 words",
    "The step index is kept as a running 16-bit count that is only reduced when it is used; when the count is about to overflow it is restarted at the wrong phase, so the keystream is wrong after a long run.",
    [("hc-256/src/lib.rs", '''        let i = self.idx as usize;
        let j = self.idx as usize & TABLE_MASK;

        self.idx = (self.idx + 1) & (2048 - 1);
''', '''        let i = self.idx as usize & (2 * TABLE_SIZE - 1);
        let j = self.idx as usize & TABLE_MASK;

        // keep a running count of steps
        self.idx = if self.idx == u32::from(u16::MAX) - 1 { 0 } else { self.idx + 1 };
''')],
    HCREF + r'''
use hc_256::{Hc256, cipher::*};
fn main() {
    let key: [u8; 32] = core::array::from_fn(|i| i as u8 * 5); let iv: [u8; 32] = core::array::from_fn(|i| 200 - i as u8);
    let mut c = Hc256::new(&key.into(), &iv.into());
    let mut b = vec![0u8; 4 * 70000]; c.apply_keystream(&mut b);
    let mut r = H::new(&key, &iv);
    for w in b.chunks(4) { assert!(w == r.word().to_le_bytes()); }
}
''', crates={"hc-256": []})

bug("rabbit-carry", "C13",
    "a counter word whose sum with its constant is exactly 2^32-1 while the incoming carry is set (about one step in 2^30)",
    "The counter update loses the carry when the incoming carry alone makes the addition overflow.",
    [("rabbit/src/lib.rs", '''            let t = self.c[j] as u64 + A[j] as u64 + self.carry_bit as u64;
            self.carry_bit = ((t / WORDSIZE) as u8) & 0b1;
            self.c[j] = (t % WORDSIZE) as u32;
''', '''            let (t, carry) = self.c[j].overflowing_add(A[j]);
            self.c[j] = t.wrapping_add(self.carry_bit as u32);
            self.carry_bit = carry as u8;
''')],
    r'''
use rabbit::{RabbitKeyOnly, cipher::*};
const A: [u32; 8] = [0x4D34D34D, 0xD34D34D3, 0x34D34D34, 0x4D34D34D, 0xD34D34D3, 0x34D34D34, 0x4D34D34D, 0xD34D34D3];
#[derive(Clone)]
struct R { x: [u32; 8], c: [u32; 8], b: u64, hit: bool }
impl R {
    fn new(key: [u8; 16]) -> R {
        let k: Vec<u32> = key.chunks(2).map(|p| u16::from_le_bytes([p[0], p[1]]) as u32).collect();
        let mut s = R { x: [0; 8], c: [0; 8], b: 0, hit: false };
        for j in 0..8 {
            if j % 2 == 0 { s.x[j] = k[(j + 1) % 8] << 16 | k[j]; s.c[j] = k[(j + 4) % 8] << 16 | k[(j + 5) % 8]; }
            else { s.x[j] = k[(j + 5) % 8] << 16 | k[(j + 4) % 8]; s.c[j] = k[j] << 16 | k[(j + 1) % 8]; }
        }
        for _ in 0..4 { s.next(); }
        for j in 0..8 { s.c[j] ^= s.x[(j + 4) % 8]; }
        s
    }
    #[inline(always)]
    fn ctr(&mut self) {
        for j in 0..8 {
            let t = self.c[j] as u64 + A[j] as u64 + self.b;
            self.hit |= self.b == 1 && t == 1 << 32;
            self.b = t >> 32; self.c[j] = t as u32;
        }
    }
    fn next(&mut self) {
        self.ctr();
        let g: Vec<u32> = (0..8).map(|j| { let q = self.x[j].wrapping_add(self.c[j]) as u64; let q = q * q; (q ^ (q >> 32)) as u32 }).collect();
        for j in 0..8 {
            let (p, r) = (g[(j + 7) % 8], g[(j + 6) % 8]);
            self.x[j] = if j % 2 == 0 { g[j].wrapping_add(p.rotate_left(16)).wrapping_add(r.rotate_left(16)) } else { g[j].wrapping_add(p.rotate_left(8)).wrapping_add(r) };
        }
    }
    fn block(&mut self) -> [u8; 16] {
        self.next(); let x = &self.x; let mut o = [0u8; 16];
        for i in 0..4 { let w = x[2 * i] ^ (x[(2 * i + 5) % 8] >> 16) ^ (x[(2 * i + 3) % 8] << 16); o[4 * i..4 * i + 4].copy_from_slice(&w.to_le_bytes()); }
        o
    }
}
fn main() {
    let key: [u8; 16] = [121, 4, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0];
    // find the step at which it happens by running only the counters
    let mut s = R::new(key); s.hit = false;
    let mut n = 0u64;
    while !s.hit && n < 40_000_000 { s.ctr(); n += 1; }
    assert!(s.hit, "no such step");
    let len = 16 * (n as usize + 2);
    let mut c = RabbitKeyOnly::new(&key.into());
    let mut b = vec![0u8; len]; c.apply_keystream(&mut b);
    let mut r = R::new(key);
    for (i, w) in b.chunks(16).enumerate() { assert!(w == r.block(), "block {i}"); }
    println!("{n} blocks");
}
''', crates={"rabbit": []}, profile="opt-level = 3")

bug("rc4-256", "C14",
    "a key of exactly 256 bytes",
    "Keys of the maximum length 256 are rejected.",
    [("rc4/src/lib.rs", '''key.len() > MAX_KEY_SIZE''', '''key.len() >= MAX_KEY_SIZE''')],
    r'''
use rc4::{Rc4, KeyInit};
fn main() {
    for n in 0..400 { assert!(Rc4::new_from_slice(&vec![3u8; n]).is_ok() == (n >= 1 && n <= 256), "{n}"); }
}
''', crates={"rc4": []})

bug("rc4-b2b", "C15",
    "buffer-to-buffer encryption into an output buffer that is not all zero",
    "RC4 XORs the keystream into the output buffer's previous content instead of the input when input and output differ.",
    [("rc4/src/lib.rs", '''            *b.get_out() = ks ^ *b.get_in();
''', '''            *b.get_out() ^= ks;
''')],
    r'''
use rc4::{Rc4, KeyInit, StreamCipher};
fn main() {
    let mut a = Rc4::new_from_slice(b"some key").unwrap(); let mut b = Rc4::new_from_slice(b"some key").unwrap();
    let inp: Vec<u8> = (0..4000u32).map(|i| (i * 7 + 1) as u8).collect();
    let mut o = vec![0xAAu8; 4000]; let mut p = inp.clone();
    a.apply_keystream_b2b(&inp, &mut o); b.apply_keystream(&mut p);
    assert!(o == p);
}
''', crates={"rc4": []})

bug("hc256-fill", "C16",
    "zeroize feature; an HC-256 object dropped after use",
    "Only the first half of the Q table is wiped on drop.",
    [("hc-256/src/lib.rs", '''        self.qtable.zeroize();
''', '''        self.qtable[..TABLE_SIZE / 2].zeroize();
''')],
    r'''
use hc_256::{Hc256Core, cipher::*};
use core::mem::{MaybeUninit, size_of};
fn image(key: u8) -> Vec<u8> {
    let mut m = Box::new(MaybeUninit::<Hc256Core>::zeroed());
    m.write(Hc256Core::new(&[key; 32].into(), &[9u8; 32].into()));
    unsafe {
        core::ptr::drop_in_place(m.as_mut_ptr());
        let p = std::hint::black_box(m.as_ptr().cast::<u8>());
        (0..size_of::<Hc256Core>()).map(|i| core::ptr::read_volatile(p.add(i))).collect()
    }
}
fn main() { assert!(image(1) == image(2)); }
''', crates={"hc-256": ["zeroize"]})

bug("rabbit-wipe", "C16",
    "zeroize feature; a Rabbit core dropped in a state whose carry bit is set",
    "The carry bit of the counter system survives drop.",
    [("rabbit/src/lib.rs", '''        self.c.zeroize();
        self.carry_bit.zeroize();
''', '''        self.c.zeroize();
''')],
    r'''
use rabbit::{RabbitKeyOnlyCore, cipher::*};
use core::mem::{MaybeUninit, size_of};
fn image(key: u8) -> Vec<u8> {
    let mut m = Box::new(MaybeUninit::<RabbitKeyOnlyCore>::zeroed());
    m.write(RabbitKeyOnlyCore::new(&core::array::from_fn::<u8, 16, _>(|i| key.wrapping_mul(73).wrapping_add(i as u8 * 29) ^ (key >> 3)).into()));
    unsafe {
        core::ptr::drop_in_place(m.as_mut_ptr());
        let p = std::hint::black_box(m.as_ptr().cast::<u8>());
        // the trailing padding is not compared
        (0..65).map(|i| core::ptr::read_volatile(p.add(i))).collect::<Vec<u8>>()
    }
}
fn main() { assert!(size_of::<RabbitKeyOnlyCore>() >= 65); let a = image(0); for k in 0..=255 { assert!(image(k) == a); } }
''', crates={"rabbit": ["zeroize"]})

bug("rng-buffer-wipe", "C16",
    "zeroize feature; a ChaCha RNG dropped while its buffer still holds words",
    "Only the first block of the four buffered keystream blocks is wiped when an RNG is dropped.",
    [("chacha20/src/rng.rs", '''        output.zeroize();
''', '''        output[..usize::from(BLOCK_WORDS)].zeroize();
''')],
    r'''
use chacha20::ChaCha20Rng; use rand_core::*;
use core::mem::{MaybeUninit, size_of};
fn image(key: u8) -> Vec<u8> {
    let mut m = Box::new(MaybeUninit::<ChaCha20Rng>::zeroed());
    m.write(ChaCha20Rng::from_seed([key; 32]));
    unsafe {
        (*m.as_mut_ptr()).next_u32();
        core::ptr::drop_in_place(m.as_mut_ptr());
        let p = std::hint::black_box(m.as_ptr().cast::<u8>());
        (0..size_of::<ChaCha20Rng>()).map(|i| core::ptr::read_volatile(p.add(i))).collect()
    }
}
fn main() { assert!(image(1) == image(2)); }
''', crates={"chacha20": ["rng", "zeroize"]}, deps=RC)

bug("rng-word-pos-sub", "C17",
    "a generator set to a block position in the last four blocks of its 64-bit counter, read from once, then asked for its word position, with overflow checks on",
    "get_word_pos subtracts the buffered blocks from the wrapped counter with a checked subtraction and panics.",
    [("chacha20/src/rng.rs", '''                    block_counter = block_counter.wrapping_sub(u64::from(BUF_BLOCKS));
''', '''                    block_counter -= u64::from(BUF_BLOCKS);
''')],
    r'''
use chacha20::ChaCha20Rng; use rand_core::*;
fn main() {
    let mut a = ChaCha20Rng::from_seed([1; 32]);
    a.set_block_pos(u64::MAX - 1);
    a.next_u32();
    assert!(a.get_word_pos() == ((u64::MAX - 1) as u128) * 16 + 1);
}
''', crates=RNG, deps=RC, profile="overflow-checks = true")

bug("hc256-idx16", "C17",
    "more than 61440 words from one object, with overflow checks on",
    "The step index becomes a 16-bit running count that is only masked on use; its increment overflows and panics on a long run.",
    [("hc-256/src/lib.rs", '''    idx: u32,
''', '''    idx: u16,
'''), ("hc-256/src/lib.rs", '''        let i = self.idx as usize;
        let j = self.idx as usize & TABLE_MASK;

        self.idx = (self.idx + 1) & (2048 - 1);
''', '''        let i = self.idx as usize & (2 * TABLE_SIZE - 1);
        let j = self.idx as usize & TABLE_MASK;

        self.idx += 1;
''')],
    r'''
use hc_256::{Hc256, cipher::*};
fn main() {
    let mut c = Hc256::new(&[1u8; 32].into(), &[2u8; 32].into());
    let mut b = [0u8; 4000];
    for _ in 0..100 { c.apply_keystream(&mut b); }
}
''', crates={"hc-256": []}, profile="overflow-checks = true")

bug("sse2-aligned-store", "C17",
    "SSE2 backend and a core-level call that writes keystream blocks into a buffer that is not 16-byte aligned",
    "Keystream blocks are stored with an aligned-store instruction, which faults for caller buffers of other alignments.",
    [("chacha20/src/backends/sse2.rs", '''                    _mm_storeu_si128(blocks_ptr.add(i + block * PAR_BLOCKS), res[block][i]);
                }
            }
        }
    }
}

#[inline]
#[target_feature(enable = "sse2")]
#[cfg(feature = "rng")]
pub(crate)''', '''                    _mm_store_si128(blocks_ptr.add(i + block * PAR_BLOCKS), res[block][i]);
                }
            }
        }
    }
}

#[inline]
#[target_feature(enable = "sse2")]
#[cfg(feature = "rng")]
pub(crate)''')],
    r'''
use chacha20::{ChaChaCore, R20, variants::Ietf, cipher::{*, array::Array}};
fn main() {
    let mut c = <ChaChaCore<R20, Ietf> as KeyIvInit>::new(&[1u8; 32].into(), &[2u8; 12].into());
    let mut mem = vec![0u8; 64 * 9];
    for off in 0..33 {
        let (b, _) = Array::<u8, _>::slice_as_chunks_mut(&mut mem[off..off + 64 * 8]);
        c.write_keystream_blocks(std::hint::black_box(b));
    }
}
''', crates=CH, rustflags='--cfg chacha20_backend="sse2"')

bug("sse2-pshufb", "C18",
    "an x86-64 CPU with SSE2 but without SSSE3, which takes the SSE2 path",
    "The SSE2 backend rotates by 8 with the SSSE3 byte shuffle although only SSE2 was detected.",
    [("chacha20/src/backends/sse2.rs", '''        *d = _mm_xor_si128(_mm_slli_epi32(*d, 8), _mm_srli_epi32(*d, 24));
''', '''        *d = _mm_shuffle_epi8(*d, _mm_set_epi64x(0x0e0d_0c0f_0a09_080b, 0x0605_0407_0201_0003));
''')],
    r'''
// The demo compiles the crate for a plain x86-64 with the SSE2 backend selected and looks at the instructions of the
// functions that end up in the program: an SSSE3 instruction cannot run on the CPUs the SSE2 path is chosen for.
use chacha20::{ChaCha20, cipher::*};
#[unsafe(no_mangle)]
#[inline(never)]
pub extern "C" fn vpdemo_entry(c: &mut ChaCha20, b: &mut [u8; 512]) { c.apply_keystream(b); }
fn main() {
    let mut c = ChaCha20::new(&[1u8; 32].into(), &[2u8; 12].into());
    let mut b = [0u8; 512]; vpdemo_entry(&mut c, &mut b);
    let exe = std::env::current_exe().unwrap();
    let out = std::process::Command::new("objdump").args(["-d", "--no-show-raw-insn"]).arg(exe).output().unwrap();
    assert!(out.status.success());
    let text = String::from_utf8_lossy(&out.stdout).to_string();
    let mut func = String::new(); let mut bad = 0;
    for l in text.lines() {
        if l.ends_with(">:") { func = l.to_string(); }
        let mine = func.contains("chacha") || func.contains("vpdemo") || func.contains("cipher") || func.contains("StreamCipher") || func.contains("ssse3") || func.contains("_mm_");
        if mine && (l.contains("pshufb") || l.contains("palignr")) { bad += 1; println!("{func} {l}"); }
    }
    assert!(bad == 0);
}
''', crates=CH, rustflags='--cfg chacha20_backend="sse2"')

bug("rng-debug-stream", "C19",
    "Debug-formatting a ChaCha RNG",
    "The Debug output of the RNGs contains the stream id and word position.",
    [("chacha20/src/rng.rs", '''                write!(f, concat!(stringify!($Rng), " {{ ... }}"))
''', '''                f.debug_struct(stringify!($Rng))
                    .field("word_pos", &self.get_word_pos())
                    .finish_non_exhaustive()
''')],
    r'''
use chacha20::*; use rand_core::*;
fn main() {
    let mut a = ChaCha20Rng::from_seed([1; 32]); let mut b = ChaCha20Rng::from_seed([2; 32]);
    a.set_stream(5); b.set_stream(1 << 40); b.set_word_pos(77);
    assert!(format!("{a:?}") == format!("{b:?}"));
}
''', crates=RNG, deps=RC)

bug("hc256-debug-idx", "C19",
    "Debug-formatting an HC-256 core after some words were produced",
    "The Debug output of the HC-256 core contains its internal step index.",
    [("hc-256/src/lib.rs", '''        f.write_str("Hc256Core { ... }")
''', '''        write!(f, "Hc256Core {{ phase: {}, ... }}", if self.idx < 1024 { 'P' } else { 'Q' })
''')],
    r'''
use hc_256::{Hc256Core, cipher::*};
fn main() {
    let mut c = Hc256Core::new(&[1u8; 32].into(), &[2u8; 32].into());
    let a = format!("{c:?}");
    for _ in 0..1500 { c.write_keystream_block(&mut Default::default()); }
    assert!(a == format!("{c:?}"));
}
''', crates={"hc-256": []})

CTDEMO = r'''
// ctgrind: the secret is marked undefined for valgrind's memcheck, which reports any branch or address that depends on it
unsafe fn undef(p: *const u8, n: usize) {
    let args: [u64; 6] = [0x4D430001, p as u64, n as u64, 0, 0, 0];
    unsafe { core::arch::asm!("rol rdi, 3", "rol rdi, 13", "rol rdi, 61", "rol rdi, 51", "xchg rbx, rbx",
        inout("rdx") 0u64 => _, in("rax") args.as_ptr(), lateout("rdi") _, options(nostack)); }
}
'''
bug("salsa-key-branch", "C20",
    "timing of key set-up: keys whose two halves are equal take another path",
    "Salsa20 key set-up compares the two halves of the key and branches on the result.",
    [("salsa20/src/lib.rs", '''        for (i, chunk) in key[16..].chunks(4).enumerate() {
            state[11 + i] = u32::from_le_bytes(chunk.try_into().unwrap());
        }
''', '''        if key[16..] == key[..16] {
            // a repeated 128-bit key: the words are already there
            state.copy_within(1..5, 11);
        } else {
            for (i, chunk) in key[16..].chunks(4).enumerate() {
                state[11 + i] = u32::from_le_bytes(chunk.try_into().unwrap());
            }
        }
''')],
    CTDEMO + r'''
use salsa20::{Salsa20, cipher::*};
fn main() {
    let key = std::hint::black_box([7u8; 32]);
    unsafe { undef(key.as_ptr(), 32); }
    let mut c = Salsa20::new(std::hint::black_box(&key).into(), &[9u8; 8].into());
    let mut b = [0u8; 64]; c.apply_keystream(&mut b); std::hint::black_box(b);
}
''', crates={"salsa20": []}, run=["valgrind", "-q", "--error-exitcode=9", "{exe}"])

bug("rabbit-skip-carry", "C20",
    "timing of a Rabbit step depends on the counter words",
    "The Rabbit key set-up stops its mixing rounds early depending on the counters, a secret-dependent branch.",
    [("rabbit/src/lib.rs", '''        for j in 0..8 {
            state.c[j] ^= state.x[(j + 4) % 8];
        }
''', '''        for j in 0..8 {
            let x = state.x[(j + 4) % 8];
            for bit in 0..32 {
                if (x >> bit) & 1 == 1 {
                    core::hint::black_box(&mut state.c)[j] ^= 1 << bit;
                }
            }
        }
''')],
    CTDEMO + r'''
use rabbit::{RabbitKeyOnly, cipher::*};
fn main() {
    let key = std::hint::black_box([7u8; 16]);
    unsafe { undef(key.as_ptr(), 16); }
    let mut c = RabbitKeyOnly::new(std::hint::black_box(&key).into());
    let mut b = [0u8; 64]; c.apply_keystream(&mut b); std::hint::black_box(b);
}
''', crates={"rabbit": []}, run=["valgrind", "-q", "--error-exitcode=9", "{exe}"])


bug("salsa-final64", "C07",
    "a block number and key for which the low counter word overflows in the final addition (about one block in 2^32/number)",
    "The final addition of the state treats the two counter words as one 64-bit number, so a carry out of the low word leaks into the high one.",
    [("salsa20/src/backends/soft.rs", '''    for (s1, s0) in res.iter_mut().zip(state.iter()) {
        *s1 = s1.wrapping_add(*s0);
    }
    res
''', '''    // the block counter occupies words 8 and 9
    let pos = (u64::from(state[9]) << 32) | u64::from(state[8]);
    let sum = ((u64::from(res[9]) << 32) | u64::from(res[8])).wrapping_add(pos);
    for (s1, s0) in res.iter_mut().zip(state.iter()) {
        *s1 = s1.wrapping_add(*s0);
    }
    res[8] = sum as u32;
    res[9] = (sum >> 32) as u32;
    res
''')],
    r'''
use salsa20::{Salsa20, cipher::*};
fn qr(a: usize, b: usize, c: usize, d: usize, s: &mut [u32; 16]) {
    s[b] ^= s[a].wrapping_add(s[d]).rotate_left(7); s[c] ^= s[b].wrapping_add(s[a]).rotate_left(9);
    s[d] ^= s[c].wrapping_add(s[b]).rotate_left(13); s[a] ^= s[d].wrapping_add(s[c]).rotate_left(18);
}
fn main() {
    let le = |b: &[u8]| u32::from_le_bytes(b[..4].try_into().unwrap());
    for i in 0..40u8 {
        let key = [i; 32]; let nonce = [i ^ 0x55; 8];
        let n = 0xffff_ff00u64 + i as u64;
        let mut s = [0u32; 16];
        s[0] = 0x61707865; s[5] = 0x3320646e; s[10] = 0x79622d32; s[15] = 0x6b206574;
        for j in 0..4 { s[1 + j] = le(&key[4 * j..]); s[11 + j] = le(&key[16 + 4 * j..]); }
        s[6] = le(&nonce); s[7] = le(&nonce[4..]); s[8] = n as u32; s[9] = (n >> 32) as u32;
        let mut x = s;
        for _ in 0..10 {
            qr(0,4,8,12,&mut x); qr(5,9,13,1,&mut x); qr(10,14,2,6,&mut x); qr(15,3,7,11,&mut x);
            qr(0,1,2,3,&mut x); qr(5,6,7,4,&mut x); qr(10,11,8,9,&mut x); qr(15,12,13,14,&mut x);
        }
        let mut c = Salsa20::new(&key.into(), &nonce.into());
        c.seek(64 * n);
        let mut b = [0u8; 64];
        c.apply_keystream(&mut b);
        for j in 0..16 { assert_eq!(le(&b[4 * j..]), x[j].wrapping_add(s[j]), "block {n} word {j}"); }
    }
}
''', crates={"salsa20": []})

bug("legacy-rem-sat", "C05",
    "a 64-bit-counter cipher asked whether more than 2^32 blocks remain",
    "The number of remaining blocks of the 64-bit-counter variant saturates at 2^32-1, so long requests that fit are refused.",
    [("chacha20/src/variants.rs", '''        let remaining = u64::MAX - block_pos;
        remaining.try_into().ok()
''', '''        let remaining = u64::MAX - block_pos;
        u32::try_from(remaining)
            .unwrap_or(u32::MAX)
            .try_into()
            .ok()
''')],
    r'''
use chacha20::{ChaCha20LegacyCore, cipher::*};
fn main() {
    let mut c = ChaCha20LegacyCore::new(&[1u8; 32].into(), &[2u8; 8].into());
    assert_eq!(c.remaining_blocks(), Some(usize::MAX));
    c.set_block_pos(u64::MAX - (1 << 33));
    assert_eq!(c.remaining_blocks(), Some(1 << 33));
    c.set_block_pos(u64::MAX - 7);
    assert_eq!(c.remaining_blocks(), Some(7));
}
''', crates=CH)

bug("rng-u64-straddle", "C09",
    "next_u64 when exactly one word is left in the buffer",
    "A u64 that straddles two buffer refills is returned with its halves swapped.",
    [("chacha20/src/rng.rs", '''                Ok(self.core.next_u64_from_u32())
''', '''                if self.core.word_offset() + 1 == usize::from(BUF_BLOCKS) * usize::from(BLOCK_WORDS) {
                    // the last word of this buffer and the first of the next
                    let x = u64::from(self.core.next_word());
                    return Ok((x << 32) | u64::from(self.core.next_word()));
                }
                Ok(self.core.next_u64_from_u32())
''')],
    r'''
use chacha20::ChaCha20Rng;
use rand_core::{Rng, SeedableRng};
fn main() {
    let mut a = ChaCha20Rng::from_seed([7; 32]);
    let mut b = ChaCha20Rng::from_seed([7; 32]);
    for _ in 0..63 { a.next_u32(); b.next_u32(); }
    let x = a.next_u64();
    let lo = b.next_u32() as u64; let hi = b.next_u32() as u64;
    assert_eq!(x, hi << 32 | lo);
}
''', crates=RNG, deps=RC)

bug("rc4-write-j", "C15",
    "write_keystream for a multiple of 256 bytes followed by another request",
    "write_keystream works on local indices and forgets to store the swap index when the request is a whole number of turns.",
    [("rc4/src/lib.rs", '''        buf.iter_mut().for_each(|b| *b = self.prga());
    }
''', '''        let j = self.j;
        buf.iter_mut().for_each(|b| *b = self.prga());
        if buf.len().is_multiple_of(256) {
            // whole turns end where they started
            self.j = j;
        }
    }
''')],
    r'''
use rc4::{Rc4, cipher::*};
fn main() {
    let mut a = Rc4::new_from_slice(b"Key of some length").unwrap();
    let mut b = Rc4::new_from_slice(b"Key of some length").unwrap();
    let (mut x, mut y) = ([0u8; 600], [0u8; 600]);
    a.write_keystream(&mut x);
    b.write_keystream(&mut y[..512]);
    b.write_keystream(&mut y[512..]);
    assert_eq!(x, y);
}
''', crates={"rc4": []})

