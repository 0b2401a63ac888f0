#!/usr/bin/env python3
"""Behaviour-preserving edits of /repo on which every check has to stay quiet.

usage: refactors.py [--props C01,C02] [id ...]      (works in a scratch copy)"""
import os, subprocess, sys, time
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
import seedgen as G

HC, R4, RB = 'hc-256/src/lib.rs', 'rc4/src/lib.rs', 'rabbit/src/lib.rs'
SA, SB, SX = 'salsa20/src/lib.rs', 'salsa20/src/backends/soft.rs', 'salsa20/src/xsalsa.rs'
CC, CS, CV, CX, CR = ('chacha20/src/lib.rs', 'chacha20/src/backends/soft.rs', 'chacha20/src/variants.rs', 'chacha20/src/xchacha.rs', 'chacha20/src/rng.rs')
S2, A2, A5 = ('chacha20/src/backends/%s.rs' % x for x in ('sse2', 'avx2', 'avx512'))
PH = ['C12', 'C15', 'C16', 'C17', 'C19']
P4 = ['C14', 'C15', 'C16', 'C17', 'C19']
PR = ['C13', 'C15', 'C16', 'C17', 'C19', 'C20']
PS = ['C03', 'C04', 'C05', 'C07', 'C08', 'C15', 'C16', 'C17', 'C20']
PC = ['C01', 'C02', 'C03', 'C04', 'C05', 'C06', 'C09', 'C10', 'C11', 'C15', 'C16', 'C17', 'C18', 'C19', 'C20']
L = {}


def r(id, props, *edits):
    L[id] = (props, edits)


r('hc-running', PH,
  (HC, 'let i = self.idx as usize;', 'let i = self.idx as usize & (2 * TABLE_SIZE - 1);'),
  (HC, 'self.idx = (self.idx + 1) & (2048 - 1);', '// masked where it is used\n        self.idx = self.idx.wrapping_add(1);'))
r('hc-period', PH,
  (HC, 'let i = self.idx as usize;', 'let i = self.idx as usize % (2 * TABLE_SIZE);'),
  (HC, 'self.idx = (self.idx + 1) & (2048 - 1);', 'self.idx += 1;\n        if self.idx == 8192 {\n            self.idx = 0;\n        }'))
r('hc-style', PH,
  (HC, '''    #[inline]
    fn h1(&self, x: u32) -> u32 {
        self.qtable[(x & 0xff) as usize]
            .wrapping_add(self.qtable[(256 + ((x >> 8) & 0xff)) as usize])
            .wrapping_add(self.qtable[(512 + ((x >> 16) & 0xff)) as usize])
            .wrapping_add(self.qtable[(768 + ((x >> 24) & 0xff)) as usize])
    }
''', '''    #[inline]
    fn mix(table: &[u32; TABLE_SIZE], x: u32) -> u32 {
        let mut sum = 0u32;
        for (n, b) in x.to_le_bytes().iter().enumerate() {
            sum = sum.wrapping_add(table[256 * n + usize::from(*b)]);
        }
        sum
    }

    #[inline]
    fn h1(&self, x: u32) -> u32 {
        Self::mix(&self.qtable, x)
    }
'''),
  (HC, '''        for i in 0..KEY_WORDS {
            data[i] = key[4 * i] as u32 & 0xff
                | ((key[(4 * i) + 1] as u32 & 0xff) << 8)
                | ((key[(4 * i) + 2] as u32 & 0xff) << 16)
                | ((key[(4 * i) + 3] as u32 & 0xff) << 24);
        }
''', '''        for (w, c) in data.iter_mut().zip(key.chunks_exact(4)) {
            *w = u32::from_le_bytes([c[0], c[1], c[2], c[3]]);
        }
'''),
  (HC, '''        out.ptable[..TABLE_SIZE].clone_from_slice(&data[512..(TABLE_SIZE + 512)]);
        out.qtable[..TABLE_SIZE].clone_from_slice(&data[1536..(TABLE_SIZE + 1536)]);

        out.idx = 0;
''', '''        out.qtable.copy_from_slice(&data[TABLE_SIZE + 512..2 * TABLE_SIZE + 512]);
        out.ptable.copy_from_slice(&data[512..TABLE_SIZE + 512]);
'''),
  (HC, '''            self.h1(self.ptable[j.wrapping_sub(12) & TABLE_MASK]) ^ self.ptable[j]
''', '''            let v = self.ptable[(j + TABLE_SIZE - 12) % TABLE_SIZE];
            self.ptable[j] ^ self.h1(v)
'''))
r('hc-wide-idx', PH, (HC, 'idx: u32,', 'idx: usize,'), (HC, 'self.idx as usize', 'self.idx'))
r('rc4-loops', P4,
  (R4, '''        i_iter.zip(key_iter).for_each(|(i, k)| {
            j = j.wrapping_add(state[i]).wrapping_add(*k);
            state.swap(i, usize::from(j));
        });
''', '''        let _ = (i_iter, key_iter);
        let mut n = 0;
        for i in 0..256usize {
            j = j.wrapping_add(key[n]).wrapping_add(state[i]);
            let t = state[i];
            state[i] = state[usize::from(j)];
            state[usize::from(j)] = t;
            n += 1;
            if n == key.len() {
                n = 0;
            }
        }
'''),
  (R4, '''        let index = self.s_i().wrapping_add(self.s_j());

        self.state[usize::from(index)]
''', '''        let index = (u16::from(self.s_j()) + u16::from(self.s_i())) & 0xff;

        self.state[usize::from(index)]
'''),
  (R4, 'buf.iter_mut().for_each(|b| *b = self.prga());', 'for b in buf {\n            *b = self.prga();\n        }'))
r('rc4-running', P4,
  (R4, '    i: u8,\n', '    i: u32,\n'),
  (R4, 'self.state[self.i as usize]', 'self.state[(self.i & 0xff) as usize]'),
  (R4, 'self.state.swap(usize::from(self.i), usize::from(self.j));', 'self.state.swap((self.i & 0xff) as usize, usize::from(self.j));'))
r('rabbit-style', PR,
  (RB, '''        #[allow(unused_mut, clippy::needless_range_loop)]
        for j in 0..8 {
            let t = self.c[j] as u64 + A[j] as u64 + self.carry_bit as u64;
            self.carry_bit = ((t / WORDSIZE) as u8) & 0b1;
            self.c[j] = (t % WORDSIZE) as u32;
        }
''', '''        for (c, a) in self.c.iter_mut().zip(A.iter()) {
            let (s, o1) = c.overflowing_add(*a);
            let (s, o2) = s.overflowing_add(u32::from(self.carry_bit));
            *c = s;
            self.carry_bit = u8::from(o1 || o2);
        }
'''),
  (RB, '''            let u_plus_v = self.x[j] as u64 + self.c[j] as u64;
            let square_uv = (u_plus_v % WORDSIZE) * (u_plus_v % WORDSIZE);
            g[j] = (square_uv ^ (square_uv >> 32)) as u32;
''', '''            let u = u64::from(self.x[j].wrapping_add(self.c[j]));
            let sq = u * u;
            g[j] = (sq as u32) ^ ((sq >> 32) as u32);
'''),
  (RB, '''        s[0x0] = tmp[0] as u8;
        s[0x1] = (tmp[0] >> 8) as u8;
        s[0x2] = tmp[1] as u8;
        s[0x3] = (tmp[1] >> 8) as u8;
''', '''        s[..2].copy_from_slice(&tmp[0].to_le_bytes());
        s[2..4].copy_from_slice(&tmp[1].to_le_bytes());
'''),
  (RB, '''        for j in 0..8 {
            state.c[j] ^= state.x[(j + 4) % 8];
        }
''', '''        let (lo, hi) = state.c.split_at_mut(4);
        for j in 0..4 {
            lo[j] ^= state.x[j + 4];
            hi[j] ^= state.x[j];
        }
'''))
r('salsa-style', PS,
  (SB, 'self.0.set_block_pos(self.0.get_block_pos().wrapping_add(1));', '''let (lo, carry) = self.0.state[8].overflowing_add(1);
        self.0.state[8] = lo;
        self.0.state[9] = self.0.state[9].wrapping_add(u32::from(carry));'''),
  (SB, '''    for (s1, s0) in res.iter_mut().zip(state.iter()) {
        *s1 = s1.wrapping_add(*s0);
    }
    res
''', '''    core::array::from_fn(|i| state[i].wrapping_add(res[i]))
'''),
  (SA, '(self.state[8] as u64) + ((self.state[9] as u64) << 32)', '(u64::from(self.state[9]) << 32) | u64::from(self.state[8])'),
  (SA, '''        let rem = u64::MAX - self.get_block_pos();
        rem.try_into().ok()
''', '''        usize::try_from(!self.get_block_pos()).ok()
'''),
  (SX, '''    for (i, chunk) in output.chunks_exact_mut(4).enumerate() {
        chunk.copy_from_slice(&state[key_idx[i]].to_le_bytes());
    }
''', '''    for (chunk, i) in output.chunks_exact_mut(4).zip(key_idx) {
        let w = state[i];
        chunk.copy_from_slice(&w.to_le_bytes());
    }
'''))
r('chacha-core', PC,
  (CS, '''        let res = run_rounds::<R>(&self.0.state);
        let mut ctr = (u64::from(self.0.state[13]) << 32) | u64::from(self.0.state[12]);
        ctr = ctr.wrapping_add(1);
        self.0.state[12] = ctr as u32;
        if size_of::<V::Counter>() == 8 {
            self.0.state[13] = (ctr >> 32) as u32;
        }

        for''', '''        let res = run_rounds::<R>(&self.0.state);
        let (lo, carry) = self.0.state[12].overflowing_add(1);
        self.0.state[12] = lo;
        if carry && size_of::<V::Counter>() == 8 {
            self.0.state[13] = self.0.state[13].wrapping_add(1);
        }

        for'''),
  (CV, 'let remaining = u64::MAX - block_pos;\n        remaining.try_into().ok()', 'usize::try_from(u64::MAX - block_pos).ok()'),
  (CV, 'row[0] = (pos & 0xFFFF_FFFF) as u32;\n        row[1] = (pos >> 32) as u32;', 'row[1] = (pos >> 32) as u32;\n        row[0] = pos as u32;'),
  (CX, '''    for (chunk, val) in output[..16].chunks_exact_mut(4).zip(&state[..4]) {
        chunk.copy_from_slice(&val.to_le_bytes());
    }

    for (chunk, val) in output[16..].chunks_exact_mut(4).zip(&state[12..]) {
        chunk.copy_from_slice(&val.to_le_bytes());
    }
''', '''    let words = state[..4].iter().chain(&state[12..]);
    for (chunk, val) in output.chunks_exact_mut(4).zip(words) {
        chunk.copy_from_slice(&val.to_le_bytes());
    }
'''),
  (CC, '''    state[a] = state[a].wrapping_add(state[b]);
    state[d] ^= state[a];
    state[d] = state[d].rotate_left(16);
''', '''    let mut x = state[a].wrapping_add(state[b]);
    state[a] = x;
    x ^= state[d];
    state[d] = (x << 16) | (x >> 16);
'''))
r('chacha-simd', PC,
  (S2, '''        // a += b; d ^= a; d <<<= (16, 16, 16, 16);
        *a = _mm_add_epi32(*a, *b);
        *d = _mm_xor_si128(*d, *a);
        *d = _mm_xor_si128(_mm_slli_epi32(*d, 16), _mm_srli_epi32(*d, 16));
''', '''        // a += b; d ^= a; d <<<= (16, 16, 16, 16);
        *a = _mm_add_epi32(*a, *b);
        *d = _mm_xor_si128(*d, *a);
        *d = _mm_shufflehi_epi16(_mm_shufflelo_epi16(*d, 0b_10_11_00_01), 0b_10_11_00_01);
'''),
  (S2, '''    let mut res = [*v; 4];
    for block in 1..PAR_BLOCKS {
        res[block][3] = match size_of::<V::Counter>() {
            4 => _mm_add_epi32(res[block][3], _mm_set_epi32(0, 0, 0, block as i32)),
            8 => _mm_add_epi64(res[block][3], _mm_set_epi64x(0, block as i64)),
            _ => unreachable!(),
        }
    }
''', '''    let mut res = [*v; 4];
    for block in 1..PAR_BLOCKS {
        let prev = res[block - 1][3];
        res[block][3] = match size_of::<V::Counter>() {
            4 => _mm_add_epi32(prev, _mm_set_epi32(0, 0, 0, 1)),
            8 => _mm_add_epi64(prev, _mm_set_epi64x(0, 1)),
            _ => unreachable!(),
        }
    }
'''),
  (A2, '''            let mut block_ptr = blocks.as_mut_ptr().cast::<__m128i>();
            for v in vs {
                let t: [__m128i; 8] = core::mem::transmute(v);
                for i in 0..4 {
                    _mm_storeu_si128(block_ptr.add(i), t[2 * i]);
                    _mm_storeu_si128(block_ptr.add(4 + i), t[2 * i + 1]);
                }
                block_ptr = block_ptr.add(8);
            }
        }
    }
}

#[cfg(feature = "rng")]
impl<R: Rounds, V: Variant> Backend<R, V> {
    #[inline(always)]
    fn rng_gen_par_ks_blocks(''', '''            let out = blocks.as_mut_ptr().cast::<__m128i>();
            for (n, v) in vs.iter().enumerate() {
                for (i, row) in v.iter().enumerate() {
                    _mm_storeu_si128(out.add(8 * n + i), _mm256_castsi256_si128(*row));
                    _mm_storeu_si128(out.add(8 * n + 4 + i), _mm256_extracti128_si256(*row, 1));
                }
            }
        }
    }
}

#[cfg(feature = "rng")]
impl<R: Rounds, V: Variant> Backend<R, V> {
    #[inline(always)]
    fn rng_gen_par_ks_blocks('''),
  (A2, '''        *b = _mm256_xor_si256(_mm256_slli_epi32(*b, 7), _mm256_srli_epi32(*b, 25));
''', '''        *b = _mm256_or_si256(_mm256_srli_epi32(*b, 25), _mm256_slli_epi32(*b, 7));
'''),
  (A5, '''            if blocks.len() == 1 {
                self.gen_ks_block(&mut blocks[0]);
            } else if blocks.len() == 2 {
                self.gen_blocks_halfwidth(blocks);
            } else if blocks.len() <= 4 {
                self.gen_blocks_fullwidth::<1>(blocks);
            } else if blocks.len() <= 8 {
                self.gen_blocks_fullwidth::<2>(blocks);
            } else {
                self.gen_blocks_fullwidth::<MAX_N>(blocks);
            }
''', '''            match blocks.len() {
                1 => self.gen_ks_block(&mut blocks[0]),
                2 => self.gen_blocks_halfwidth(blocks),
                3..=4 => self.gen_blocks_fullwidth::<1>(blocks),
                5..=8 => self.gen_blocks_fullwidth::<2>(blocks),
                9..=12 => self.gen_blocks_fullwidth::<3>(blocks),
                _ => self.gen_blocks_fullwidth::<MAX_N>(blocks),
            }
'''))
r('rng-style', ['C09', 'C10', 'C11', 'C16', 'C17', 'C18', 'C19', 'C20'],
  (CR, '''                (self.get_seed() == rhs.get_seed())
                    && (self.get_stream() == rhs.get_stream())
                    && (self.get_word_pos() == rhs.get_word_pos())
''', '''                self.get_word_pos() == rhs.get_word_pos()
                    && self.serialize_state()[..40] == rhs.serialize_state()[..40]
'''),
  (CR, '''                let counter = word_offset / u128::from(BLOCK_WORDS);
                //self.set_block_pos(counter as u64);
                self.core.core.state[12] = counter as u32;
                self.core.core.state[13] = (counter >> 32) as u32;
                self.core.reset_and_skip(index);
''', '''                let counter = word_offset / u128::from(BLOCK_WORDS);
                self.core.core.set_block_pos(counter as u64);
                self.core.reset_and_skip(index);
'''),
  (CR, '''                let mut result = [0u8; 8];
                result[..4].copy_from_slice(&self.core.core.state[14].to_le_bytes());
                result[4..].copy_from_slice(&self.core.core.state[15].to_le_bytes());
                u64::from_le_bytes(result)
''', '''                let lo = u64::from(self.core.core.state[14]);
                let hi = u64::from(self.core.core.state[15]);
                (hi << 32) | lo
'''),
  (CR, '''                let mut block_counter = (u64::from(self.core.core.state[13]) << 32)
                    | u64::from(self.core.core.state[12]);
                if self.core.word_offset() != 0 {
                    block_counter = block_counter.wrapping_sub(u64::from(BUF_BLOCKS));
                }
                let word_pos = u128::from(block_counter) * u128::from(BLOCK_WORDS)
                    + self.core.word_offset() as u128;
                // eliminate bits above the 68th bit
                word_pos & ((1 << 68) - 1)
''', '''                let offset = self.core.word_offset() as u64;
                let block = self.get_block_pos();
                (u128::from(block) << 4) | u128::from(offset % u64::from(BLOCK_WORDS))
'''))
r('rng-lazy', ['C09', 'C10', 'C11', 'C16', 'C17', 'C18', 'C20'],
  # nothing to do when the stream is already there
  (CR, '''                self.core.core.state[14] = stream as u32;
                self.core.core.state[15] = (stream >> 32) as u32;
                self.set_block_pos(0);
''', '''                if stream == self.get_stream() && self.get_word_pos() == 0 {
                    return;
                }
                self.core.core.state[14] = stream as u32;
                self.core.core.state[15] = (stream >> 32) as u32;
                self.set_block_pos(0);
'''),
  # nothing to do at the current position
  (CR, '''                let index = (word_offset % u128::from(BLOCK_WORDS)) as usize;
                let counter''', '''                if word_offset & ((1 << 68) - 1) == self.get_word_pos() {
                    return;
                }
                let index = (word_offset % u128::from(BLOCK_WORDS)) as usize;
                let counter'''))
r('fields', PC + PR + PH + PS,
  (CC, '''    Self {
            state,
            tokens,
            _pd: PhantomData,
        }''', '''    Self {
            _pd: PhantomData,
            tokens,
            state,
        }'''),
  (RB, 'let mut state = Self { x, c, carry_bit };', 'let mut state = Self { carry_bit, c, x };'))


def run(ids, props):
    for i in ids:
        ps, edits = L[i]
        r = G.scratch()
        for f, old, new in edits:
            p = os.path.join(r, f)
            t = open(p).read()
            assert old in t, (i, f, old)
            open(p, 'w').write(t.replace(old, new))
        b = G.sh(['bash', G.SCRATCH + '/build.sh'])
        if b.returncode:
            print(i, 'BUILD FAILS', b.stdout[-1500:])
            continue
        env = dict(os.environ, VP_REPO=r, VP_BUILD=G.SCRATCH + '/build', VP_EVID=G.SCRATCH + '/evid', VERIF_SEED='1', VERIF_TIER='quick')
        for c in [x for x in dict.fromkeys(ps) if not props or x in props]:
            t0 = time.time()
            p = G.sh(['python3-vt', G.VERIF + '/checks/run.py', c], cwd=G.VERIF, env=env)
            ls = p.stdout.splitlines()
            s = [l for l in ls if l.startswith(c + ':')] or ls[-1:] or ['']
            v = [l for l in ls if l.startswith(('VIOLATION', 'FAILED', 'ERROR'))]
            print('%-12s %s %s %.0fs %s' % (i, c, 'quiet' if p.returncode == 0 else 'ALARM rc=%d' % p.returncode, time.time() - t0, s[0][:40] + '..' + s[0][s[0].find('contracts'):][:60]))
            for l in v[:3] + [l for l in ls if l.startswith('  bounded')][:3]:
                print('    ', l[:300])
            sys.stdout.flush()
        G.sh(['git', '-C', r, 'checkout', '-q', '--', '.'])


if __name__ == '__main__':
    props = None
    a = sys.argv[1:]
    if a and a[0] == '--props':
        props = a[1].split(',')
        a = a[2:]
    run(a or list(L), props)
