#!/usr/bin/env python3
"""Generates the harness crates: thin `extern "C"` entry points, one per public
operation under contract.  Nothing here re-implements repository code; every
entry calls the public API of the crate under verification."""
import os
HERE = os.path.dirname(os.path.abspath(__file__))

TOML = '''[package]
name = "vp-%(n)s"
version = "0.0.0"
edition = "2024"
publish = false

[workspace]

[lib]
crate-type = ["cdylib"]

[dependencies]
%(deps)s

[features]
default = [%(deffeat)s]
%(feats)s

[profile.release]
opt-level = 2
debug-assertions = true
overflow-checks = true
panic = "abort"
codegen-units = 1
debug = false
'''

PRE = '''// generated by gen.py -- do not edit
#![allow(clippy::all, unused_imports, unused_macros, dead_code)]
use core::mem::MaybeUninit;

type Fmt = core::fmt::Formatter<'static>;

/// calls `Debug::fmt` when the type has it (2 = the type has no Debug)
struct P<'a, T>(&'a T);
trait ViaDebug { fn d(&self, f: &mut Fmt) -> u8; fn ds(&self, s: Sink, alt: u8) -> usize; }
impl<T: core::fmt::Debug> ViaDebug for P<'_, T> {
    #[inline(always)]
    fn d(&self, f: &mut Fmt) -> u8 { core::fmt::Debug::fmt(self.0, f).is_ok() as u8 }
    #[inline(always)]
    fn ds(&self, mut s: Sink, alt: u8) -> usize {
        use core::fmt::Write;
        let r = if alt != 0 { write!(s, "{:#?}", self.0) } else { write!(s, "{:?}", self.0) };
        if r.is_ok() { s.n } else { usize::MAX }
    }
}
trait ViaNone { fn d(&self, f: &mut Fmt) -> u8; fn ds(&self, s: Sink, alt: u8) -> usize; }
impl<T> ViaNone for &P<'_, T> {
    #[inline(always)]
    fn d(&self, _f: &mut Fmt) -> u8 { 2 }
    #[inline(always)]
    fn ds(&self, _s: Sink, _alt: u8) -> usize { 0 }
}
struct Sink { p: *mut u8, n: usize, cap: usize }
impl core::fmt::Write for Sink {
    fn write_str(&mut self, s: &str) -> core::fmt::Result {
        for b in s.bytes() {
            if self.n >= self.cap { return Err(core::fmt::Error); }
            unsafe { *self.p.add(self.n) = b; }
            self.n += 1;
        }
        Ok(())
    }
}
/// marks an object whose memory is inspected after it has been dropped
#[unsafe(no_mangle)]
#[inline(never)]
pub extern "C" fn vp_touch(p: *mut u8, n: usize) {
    unsafe { core::arch::asm!("/* {} {} */", in(reg) p, in(reg) n, options(nostack, preserves_flags)) }
}
macro_rules! ent {
    ($(fn $n:ident($($a:ident: $t:ty),* $(,)?) $(-> $r:ty)? $b:block)*) => {
        $(#[unsafe(no_mangle)] pub extern "C" fn $n($($a: $t),*) $(-> $r)? $b)*
    };
}
unsafe fn sl<'a, T>(p: *const T, n: usize) -> &'a [T] { unsafe { core::slice::from_raw_parts(p, n) } }
unsafe fn slm<'a, T>(p: *mut T, n: usize) -> &'a mut [T] { unsafe { core::slice::from_raw_parts_mut(p, n) } }
'''

# ---- entry points common to every block-wise core (StreamCipherCore)
CORE = '''
ent! {{
    fn {p}_size() -> usize {{ core::mem::size_of::<{T}>() }}
    fn {p}_align() -> usize {{ core::mem::align_of::<{T}>() }}
    fn {p}_rem(c: &{T}, out: &mut usize) -> u8 {{ match c.remaining_blocks() {{ Some(n) => {{ *out = n; 1 }} None => 0 }} }}
    fn {p}_wblock(c: &mut {T}, out: &mut Blk<{T}>) {{ c.write_keystream_block(out) }}
    fn {p}_wblocks(c: &mut {T}, out: *mut Blk<{T}>, n: usize) {{ c.write_keystream_blocks(unsafe {{ slm(out, n) }}) }}
    fn {p}_ablocks(c: &mut {T}, buf: *mut Blk<{T}>, n: usize) {{ c.apply_keystream_blocks(unsafe {{ slm(buf, n) }}) }}
    fn {p}_aio(c: &mut {T}, i: *const Blk<{T}>, o: *mut Blk<{T}>, n: usize) {{
        c.apply_keystream_blocks_inout(InOutBuf::new(unsafe {{ sl(i, n) }}, unsafe {{ slm(o, n) }}).unwrap())
    }}
    fn {p}_seq(c: &mut {T}, ops: *const u8, nops: usize, out: *mut Blk<{T}>, nblk: usize) {{
        c.process_with_backend(Seq::<BS<{T}>> {{ ops: unsafe {{ sl(ops, nops) }}, out: unsafe {{ slm(out, nblk) }} }})
    }}
    fn {p}_step(c: &mut {T}, op: u8, out: *mut Blk<{T}>, nblk: usize, load: *const u8, before: *mut u8, after: *mut u8) -> usize {{
        let mut n = 0usize;
        c.process_with_backend(Step::<BS<{T}>> {{ op, out: unsafe {{ slm(out, nblk) }}, load, before, after, size: &mut n }});
        n
    }}
    fn {p}_par(c: &mut {T}) -> usize {{
        let mut n = 0usize;
        c.process_with_backend(ParN::<BS<{T}>>(&mut n, core::marker::PhantomData));
        n
    }}
    fn {p}_partial(c: *mut {T}, buf: *mut u8, n: usize) -> u8 {{
        let c = unsafe {{ core::ptr::read(c) }};
        c.try_apply_keystream_partial(unsafe {{ slm(buf, n) }}.into()).is_ok() as u8
    }}
    fn {p}_drop(c: *mut {T}) {{ unsafe {{ core::ptr::drop_in_place(c) }} }}
    fn {p}_dropst(c: *mut {T}) {{ let mut x = unsafe {{ core::ptr::read(c) }}; vp_touch(&raw mut x as *mut u8, core::mem::size_of::<{T}>()); }}
    fn {p}_dbg(c: &{T}, f: &mut Fmt) -> u8 {{ (&P(c)).d(f) }}
    fn {p}_dbgs(c: &{T}, o: *mut u8, cap: usize, alt: u8) -> usize {{ (&P(c)).ds(Sink {{ p: o, n: 0, cap }}, alt) }}
}}
'''
COREDEF = '''
use cipher::{StreamCipher, StreamCipherSeek, StreamCipherCore, StreamCipherSeekCore, StreamCipherClosure, StreamCipherBackend,
    BlockSizeUser, KeyIvInit, KeyInit, InOutBuf, ParBlocksSizeUser, Block, array::{Array, ArraySize}, typenum::Unsigned};
type BS<T> = <T as BlockSizeUser>::BlockSize;
type Blk<T> = Array<u8, BS<T>>;

/// runs an arbitrary schedule of backend calls inside one closure:
/// op 0 = one block, op 255 = one parallel batch, op k = tail of k blocks
struct Seq<'a, B: ArraySize> { ops: &'a [u8], out: &'a mut [Array<u8, B>] }
impl<B: ArraySize> BlockSizeUser for Seq<'_, B> { type BlockSize = B; }
impl<B: ArraySize> StreamCipherClosure for Seq<'_, B> {
    #[inline(always)]
    fn call<K: StreamCipherBackend<BlockSize = B>>(self, b: &mut K) {
        let mut out = self.out;
        for &op in self.ops {
            let k = match op { 0 => 1, 255 => K::ParBlocksSize::USIZE, k => k as usize };
            let (x, rest) = out.split_at_mut(k);
            out = rest;
            match op {
                0 => b.gen_ks_block(&mut x[0]),
                255 => b.gen_par_ks_blocks(x.try_into().unwrap()),
                _ => b.gen_tail_blocks(x),
            }
        }
    }
}
/// one backend call on an arbitrary backend state (ghost access to the bytes of the backend object)
struct Step<'a, B: ArraySize> {
    op: u8, out: &'a mut [Array<u8, B>], load: *const u8, before: *mut u8, after: *mut u8, size: &'a mut usize,
}
impl<B: ArraySize> BlockSizeUser for Step<'_, B> { type BlockSize = B; }
impl<B: ArraySize> StreamCipherClosure for Step<'_, B> {
    #[inline(always)]
    fn call<K: StreamCipherBackend<BlockSize = B>>(self, b: &mut K) {
        let n = size_of::<K>();
        *self.size = n;
        let p = b as *mut K as *mut u8;
        unsafe {
            if !self.load.is_null() { core::ptr::copy_nonoverlapping(self.load, p, n); }
            core::ptr::copy_nonoverlapping(p as *const u8, self.before, n);
        }
        match self.op {
            254 => {}
            0 => b.gen_ks_block(&mut self.out[0]),
            255 => b.gen_par_ks_blocks(self.out.try_into().unwrap()),
            _ => b.gen_tail_blocks(self.out),
        }
        unsafe { core::ptr::copy_nonoverlapping(p as *const u8, self.after, n); }
    }
}
struct ParN<'a, B>(&'a mut usize, core::marker::PhantomData<B>);
impl<B: ArraySize> BlockSizeUser for ParN<'_, B> { type BlockSize = B; }
impl<B: ArraySize> StreamCipherClosure for ParN<'_, B> {
    fn call<K: StreamCipherBackend<BlockSize = B>>(self, _b: &mut K) { *self.0 = K::ParBlocksSize::USIZE; }
}
'''
SEEK = '''
ent! {{
    fn {p}_getpos(c: &{T}) -> {C} {{ StreamCipherSeekCore::get_block_pos(c) }}
    fn {p}_setpos(c: &mut {T}, pos: {C}) {{ StreamCipherSeekCore::set_block_pos(c, pos) }}
}}
'''
NEWIV = '''
ent! {{
    fn {p}_new(out: &mut MaybeUninit<{T}>, key: &cipher::Key<{T}>, iv: &cipher::Iv<{T}>) {{ out.write(<{T} as KeyIvInit>::new(key, iv)); }}
    fn {p}_newsl(out: &mut MaybeUninit<{T}>, key: *const u8, kl: usize, iv: *const u8, il: usize) -> u8 {{
        match <{T} as KeyIvInit>::new_from_slices(unsafe {{ sl(key, kl) }}, unsafe {{ sl(iv, il) }}) {{ Ok(c) => {{ out.write(c); 1 }} Err(_) => 0 }}
    }}
}}
'''
NEWKEY = '''
ent! {{
    fn {p}_new(out: &mut MaybeUninit<{T}>, key: &cipher::Key<{T}>) {{ out.write(<{T} as KeyInit>::new(key)); }}
    fn {p}_newsl(out: &mut MaybeUninit<{T}>, key: *const u8, kl: usize) -> u8 {{
        match <{T} as KeyInit>::new_from_slice(unsafe {{ sl(key, kl) }}) {{ Ok(c) => {{ out.write(c); 1 }} Err(_) => 0 }}
    }}
}}
'''
# ---- the slice-level cipher (StreamCipher)
STREAM = '''
ent! {{
    fn {p}_size() -> usize {{ core::mem::size_of::<{T}>() }}
    fn {p}_align() -> usize {{ core::mem::align_of::<{T}>() }}
    fn {p}_apply(c: &mut {T}, buf: *mut u8, n: usize) -> u8 {{ c.try_apply_keystream(unsafe {{ slm(buf, n) }}).is_ok() as u8 }}
    fn {p}_b2b(c: &mut {T}, i: *const u8, o: *mut u8, n: usize) -> u8 {{ c.try_apply_keystream_b2b(unsafe {{ sl(i, n) }}, unsafe {{ slm(o, n) }}).is_ok() as u8 }}
    fn {p}_wks(c: &mut {T}, o: *mut u8, n: usize) -> u8 {{ c.try_write_keystream(unsafe {{ slm(o, n) }}).is_ok() as u8 }}
    fn {p}_check(c: &{T}, n: usize) -> u8 {{ c.check_remaining(n).is_ok() as u8 }}
    fn {p}_drop(c: *mut {T}) {{ unsafe {{ core::ptr::drop_in_place(c) }} }}
    fn {p}_dropst(c: *mut {T}) {{ let mut x = unsafe {{ core::ptr::read(c) }}; vp_touch(&raw mut x as *mut u8, core::mem::size_of::<{T}>()); }}
    fn {p}_dbg(c: &{T}, f: &mut Fmt) -> u8 {{ (&P(c)).d(f) }}
    fn {p}_dbgs(c: &{T}, o: *mut u8, cap: usize, alt: u8) -> usize {{ (&P(c)).ds(Sink {{ p: o, n: 0, cap }}, alt) }}
}}
'''
STREAMSEEK = '''
ent! {{
    fn {p}_seek64(c: &mut {T}, pos: u64) -> u8 {{ c.try_seek(pos).is_ok() as u8 }}
    fn {p}_seek32(c: &mut {T}, pos: u32) -> u8 {{ c.try_seek(pos).is_ok() as u8 }}
    fn {p}_seek128(c: &mut {T}, pos: &u128) -> u8 {{ c.try_seek(*pos).is_ok() as u8 }}
    fn {p}_pos32(c: &{T}, out: &mut u32) -> u8 {{ match c.try_current_pos::<u32>() {{ Ok(p) => {{ *out = p; 1 }} Err(_) => 0 }} }}
    fn {p}_pos64(c: &{T}, out: &mut u64) -> u8 {{ match c.try_current_pos::<u64>() {{ Ok(p) => {{ *out = p; 1 }} Err(_) => 0 }} }}
    fn {p}_pos128(c: &{T}, out: &mut u128) -> u8 {{ match c.try_current_pos::<u128>() {{ Ok(p) => {{ *out = p; 1 }} Err(_) => 0 }} }}
}}
'''
RNG = '''
ent! {{
    fn {p}_size() -> usize {{ core::mem::size_of::<{T}>() }}
    fn {p}_align() -> usize {{ core::mem::align_of::<{T}>() }}
    fn {p}_new(out: &mut MaybeUninit<{T}>, seed: &[u8; 32]) {{ out.write({T}::from_seed(*seed)); }}
    fn {p}_u32(c: &mut {T}) -> u32 {{ c.next_u32() }}
    fn {p}_u64(c: &mut {T}) -> u64 {{ c.next_u64() }}
    fn {p}_fill(c: &mut {T}, o: *mut u8, n: usize) {{ c.fill_bytes(unsafe {{ slm(o, n) }}) }}
    fn {p}_getwp(c: &{T}, o: &mut u128) {{ *o = c.get_word_pos() }}
    fn {p}_setwp(c: &mut {T}, o: &u128) {{ c.set_word_pos(*o) }}
    fn {p}_getbp(c: &{T}) -> u64 {{ c.get_block_pos() }}
    fn {p}_setbp(c: &mut {T}, o: u64) {{ c.set_block_pos(o) }}
    fn {p}_getst(c: &{T}) -> u64 {{ c.get_stream() }}
    fn {p}_setst(c: &mut {T}, o: u64) {{ c.set_stream(o) }}
    fn {p}_seed(c: &{T}, o: &mut [u8; 32]) {{ *o = c.get_seed() }}
    fn {p}_ser(c: &{T}, o: &mut [u8; 49]) {{ *o = c.serialize_state() }}
    fn {p}_de(out: &mut MaybeUninit<{T}>, o: &[u8; 49]) {{ out.write({T}::deserialize_state(o)); }}
    fn {p}_eq(a: &{T}, b: &{T}) -> u8 {{ (a == b) as u8 }}
    fn {p}_drop(c: *mut {T}) {{ unsafe {{ core::ptr::drop_in_place(c) }} }}
    fn {p}_dropst(c: *mut {T}) {{ let mut x = unsafe {{ core::ptr::read(c) }}; vp_touch(&raw mut x as *mut u8, core::mem::size_of::<{T}>()); }}
    fn {p}_dbg(c: &{T}, f: &mut Fmt) -> u8 {{ (&P(c)).d(f) }}
    fn {p}_dbgs(c: &{T}, o: *mut u8, cap: usize, alt: u8) -> usize {{ (&P(c)).ds(Sink {{ p: o, n: 0, cap }}, alt) }}
}}
'''


def crate(name, deps, body, feats='', deffeat=''):
    d = os.path.join(HERE, name)
    os.makedirs(os.path.join(d, 'src'), exist_ok=True)
    open(os.path.join(d, 'Cargo.toml'), 'w').write(TOML % dict(n=name, deps=deps, feats=feats, deffeat=deffeat))
    open(os.path.join(d, 'src', 'lib.rs'), 'w').write(PRE + body)


def main():
    # ------------------------------------------------------------ chacha20
    b = 'use chacha20::{cipher, *, variants::*};\nuse chacha20::rand_core::{Rng, SeedableRng, block::Generator};\n' + COREDEF
    for r in (8, 12, 20):
        for v, C in (('Ietf', 'u32'), ('Legacy', 'u64')):
            T = 'T%d%s' % (r, v)
            b += '\ntype %s = ChaChaCore<R%d, %s>;' % (T, r, v)
            p = 'cc%d%s' % (r, v[0].lower())
            b += CORE.format(p=p, T=T) + SEEK.format(p=p, T=T, C=C)
            if v == 'Ietf' or r == 20:
                b += NEWIV.format(p=p, T=T)
            if True:
                b += '''
ent! {{
    fn {p}_fromseed(out: &mut MaybeUninit<{T}>, key: &[u8; 32]) {{ out.write(<{T} as SeedableRng>::from_seed(*key)); }}
}}'''.format(p=p, T=T)
            b += '''
ent! {{
    fn {p}_gen(c: &mut {T}, o: &mut [u32; 64]) {{ Generator::generate(c, o) }}
    fn {p}_gendrop(c: &mut {T}, o: &mut [u32; 64]) {{ Generator::drop(c, o) }}
}}'''.format(p=p, T=T)
        T = 'X%d' % r
        p = 'xc%d' % r
        b += '\ntype %sW = XChaCha%d;\ntype %s = <XChaCha%d as CoreOf>::C;' % (T, r, T, r)
        b += (CORE + SEEK + NEWIV).format(p=p, T=T, C='u32')
        b += '''
ent! {{
    fn hc{r}(key: &Key, inp: &Array<u8, cipher::consts::U16>, out: &mut Array<u8, cipher::consts::U32>) {{ *out = hchacha::<R{r}>(key, inp); }}
}}'''.format(r=r)
        b += (STREAM + STREAMSEEK + NEWIV).format(p='wc%d' % r, T='ChaCha%d' % r)
        b += (STREAM + STREAMSEEK + NEWIV).format(p='wx%d' % r, T='XChaCha%d' % r)
        b += RNG.format(p='rg%d' % r, T='ChaCha%dRng' % r)
    b += (STREAM + STREAMSEEK + NEWIV).format(p='wl20', T='ChaCha20Legacy')
    b += '''
/// names the (unnameable) core type behind a wrapper alias
pub trait CoreOf { type C; }
impl<T: StreamCipherCore> CoreOf for cipher::StreamCipherCoreWrapper<T> where T::BlockSize: block_buffer::BlockSizes { type C = T; }
'''
    crate('chacha', 'chacha20 = { path = "/repo/chacha20", features = ["rng", "legacy", "xchacha", "zeroize", "cipher"] }\n'
          'cipher = "0.5"\nblock-buffer = "0.12"', b, 'cz = ["cipher/zeroize"]', '"cz"')

    # ------------------------------------------------------------ salsa20
    b = 'use salsa20::{cipher, *};\n' + COREDEF
    for r, u in ((8, 'U4'), (12, 'U6'), (20, 'U10')):
        T = 'S%d' % r
        b += '\ntype %s = SalsaCore<cipher::consts::%s>;' % (T, u)
        b += (CORE + SEEK + NEWIV).format(p='sc%d' % r, T=T, C='u64')
        b += '''
ent! {{
    fn sc{r}_raw(out: &mut MaybeUninit<{T}>, st: &[u32; 16]) {{ out.write({T}::from_raw_state(*st)); }}
    fn hs{r}(key: &Key, inp: &Array<u8, cipher::consts::U16>, out: &mut Array<u8, cipher::consts::U32>) {{ *out = hsalsa::<cipher::consts::{u}>(key, inp); }}
}}'''.format(r=r, T=T, u=u)
        T = 'XS%d' % r
        b += '\ntype %s = XSalsaCore<cipher::consts::%s>;' % (T, u)
        b += (CORE + SEEK + NEWIV).format(p='xs%d' % r, T=T, C='u64')
        b += (STREAM + STREAMSEEK + NEWIV).format(p='ws%d' % r, T='Salsa%d' % r)
        b += (STREAM + STREAMSEEK + NEWIV).format(p='wxs%d' % r, T='XSalsa%d' % r)
    crate('salsa', 'salsa20 = { path = "/repo/salsa20", features = ["zeroize"] }', b)

    # ------------------------------------------------------------ hc-256
    b = 'use hc_256::{cipher, *};\n' + COREDEF
    b += (CORE + NEWIV).format(p='h', T='Hc256Core')
    b += (STREAM + NEWIV).format(p='wh', T='Hc256')
    crate('hc256', 'hc-256 = { path = "/repo/hc-256", features = ["zeroize"] }', b)

    # ------------------------------------------------------------ rabbit
    b = 'use rabbit::{cipher, *};\n' + COREDEF
    b += (CORE + NEWKEY).format(p='rk', T='RabbitKeyOnlyCore')
    b += (CORE + NEWIV).format(p='ri', T='RabbitCore')
    b += (STREAM + NEWKEY).format(p='wrk', T='RabbitKeyOnly')
    b += (STREAM + NEWIV).format(p='wri', T='Rabbit')
    crate('rabbit', 'rabbit = { path = "/repo/rabbit", features = ["zeroize"] }', b)

    # ------------------------------------------------------------ rc4
    b = 'use rc4::{cipher, *};\nuse cipher::{StreamCipher, KeyInit, InOutBuf};\n'
    b += STREAM.format(p='r4', T='Rc4')
    b += '''
ent! {
    fn r4_newsl(out: &mut MaybeUninit<Rc4>, key: *const u8, kl: usize) -> u8 {
        match <Rc4 as KeyInit>::new_from_slice(unsafe { sl(key, kl) }) { Ok(c) => { out.write(c); 1 } Err(_) => 0 }
    }
    fn r4_new(out: &mut MaybeUninit<Rc4>, key: &cipher::Key<Rc4>) { out.write(<Rc4 as KeyInit>::new(key)); }
}
'''
    crate('rc4', 'rc4 = { path = "/repo/rc4", features = ["zeroize"] }', b)


main()
