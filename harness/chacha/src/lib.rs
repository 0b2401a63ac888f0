// generated by gen.py -- do not edit
#![allow(clippy::all, unused_imports, unused_macros, dead_code)]
use core::mem::MaybeUninit;

type Fmt = core::fmt::Formatter<'static>;

/// calls `Debug::fmt` when the type has it (2 = the type has no Debug)
struct P<'a, T>(&'a T);
trait ViaDebug { fn d(&self, f: &mut Fmt) -> u8; fn ds(&self, s: Sink, alt: u8) -> usize; }
impl<T: core::fmt::Debug> ViaDebug for P<'_, T> {
    #[inline(always)]
    fn d(&self, f: &mut Fmt) -> u8 { core::fmt::Debug::fmt(self.0, f).is_ok() as u8 }
    #[inline(always)]
    fn ds(&self, mut s: Sink, alt: u8) -> usize {
        use core::fmt::Write;
        let r = if alt != 0 { write!(s, "{:#?}", self.0) } else { write!(s, "{:?}", self.0) };
        if r.is_ok() { s.n } else { usize::MAX }
    }
}
trait ViaNone { fn d(&self, f: &mut Fmt) -> u8; fn ds(&self, s: Sink, alt: u8) -> usize; }
impl<T> ViaNone for &P<'_, T> {
    #[inline(always)]
    fn d(&self, _f: &mut Fmt) -> u8 { 2 }
    #[inline(always)]
    fn ds(&self, _s: Sink, _alt: u8) -> usize { 0 }
}
struct Sink { p: *mut u8, n: usize, cap: usize }
impl core::fmt::Write for Sink {
    fn write_str(&mut self, s: &str) -> core::fmt::Result {
        for b in s.bytes() {
            if self.n >= self.cap { return Err(core::fmt::Error); }
            unsafe { *self.p.add(self.n) = b; }
            self.n += 1;
        }
        Ok(())
    }
}
/// marks an object whose memory is inspected after it has been dropped
#[unsafe(no_mangle)]
#[inline(never)]
pub extern "C" fn vp_touch(p: *mut u8, n: usize) {
    unsafe { core::arch::asm!("/* {} {} */", in(reg) p, in(reg) n, options(nostack, preserves_flags)) }
}
macro_rules! ent {
    ($(fn $n:ident($($a:ident: $t:ty),* $(,)?) $(-> $r:ty)? $b:block)*) => {
        $(#[unsafe(no_mangle)] pub extern "C" fn $n($($a: $t),*) $(-> $r)? $b)*
    };
}
unsafe fn sl<'a, T>(p: *const T, n: usize) -> &'a [T] { unsafe { core::slice::from_raw_parts(p, n) } }
unsafe fn slm<'a, T>(p: *mut T, n: usize) -> &'a mut [T] { unsafe { core::slice::from_raw_parts_mut(p, n) } }
use chacha20::{cipher, *, variants::*};
use chacha20::rand_core::{Rng, SeedableRng, block::Generator};

use cipher::{StreamCipher, StreamCipherSeek, StreamCipherCore, StreamCipherSeekCore, StreamCipherClosure, StreamCipherBackend,
    BlockSizeUser, KeyIvInit, KeyInit, InOutBuf, ParBlocksSizeUser, Block, array::{Array, ArraySize}, typenum::Unsigned};
type BS<T> = <T as BlockSizeUser>::BlockSize;
type Blk<T> = Array<u8, BS<T>>;

/// runs an arbitrary schedule of backend calls inside one closure:
/// op 0 = one block, op 255 = one parallel batch, op k = tail of k blocks
struct Seq<'a, B: ArraySize> { ops: &'a [u8], out: &'a mut [Array<u8, B>] }
impl<B: ArraySize> BlockSizeUser for Seq<'_, B> { type BlockSize = B; }
impl<B: ArraySize> StreamCipherClosure for Seq<'_, B> {
    #[inline(always)]
    fn call<K: StreamCipherBackend<BlockSize = B>>(self, b: &mut K) {
        let mut out = self.out;
        for &op in self.ops {
            let k = match op { 0 => 1, 255 => K::ParBlocksSize::USIZE, k => k as usize };
            let (x, rest) = out.split_at_mut(k);
            out = rest;
            match op {
                0 => b.gen_ks_block(&mut x[0]),
                255 => b.gen_par_ks_blocks(x.try_into().unwrap()),
                _ => b.gen_tail_blocks(x),
            }
        }
    }
}
/// one backend call on an arbitrary backend state (ghost access to the bytes of the backend object)
struct Step<'a, B: ArraySize> {
    op: u8, out: &'a mut [Array<u8, B>], load: *const u8, before: *mut u8, after: *mut u8, size: &'a mut usize,
}
impl<B: ArraySize> BlockSizeUser for Step<'_, B> { type BlockSize = B; }
impl<B: ArraySize> StreamCipherClosure for Step<'_, B> {
    #[inline(always)]
    fn call<K: StreamCipherBackend<BlockSize = B>>(self, b: &mut K) {
        let n = size_of::<K>();
        *self.size = n;
        let p = b as *mut K as *mut u8;
        unsafe {
            if !self.load.is_null() { core::ptr::copy_nonoverlapping(self.load, p, n); }
            core::ptr::copy_nonoverlapping(p as *const u8, self.before, n);
        }
        match self.op {
            254 => {}
            0 => b.gen_ks_block(&mut self.out[0]),
            255 => b.gen_par_ks_blocks(self.out.try_into().unwrap()),
            _ => b.gen_tail_blocks(self.out),
        }
        unsafe { core::ptr::copy_nonoverlapping(p as *const u8, self.after, n); }
    }
}
struct ParN<'a, B>(&'a mut usize, core::marker::PhantomData<B>);
impl<B: ArraySize> BlockSizeUser for ParN<'_, B> { type BlockSize = B; }
impl<B: ArraySize> StreamCipherClosure for ParN<'_, B> {
    fn call<K: StreamCipherBackend<BlockSize = B>>(self, _b: &mut K) { *self.0 = K::ParBlocksSize::USIZE; }
}

type T8Ietf = ChaChaCore<R8, Ietf>;
ent! {
    fn cc8i_size() -> usize { core::mem::size_of::<T8Ietf>() }
    fn cc8i_align() -> usize { core::mem::align_of::<T8Ietf>() }
    fn cc8i_rem(c: &T8Ietf, out: &mut usize) -> u8 { match c.remaining_blocks() { Some(n) => { *out = n; 1 } None => 0 } }
    fn cc8i_wblock(c: &mut T8Ietf, out: &mut Blk<T8Ietf>) { c.write_keystream_block(out) }
    fn cc8i_wblocks(c: &mut T8Ietf, out: *mut Blk<T8Ietf>, n: usize) { c.write_keystream_blocks(unsafe { slm(out, n) }) }
    fn cc8i_ablocks(c: &mut T8Ietf, buf: *mut Blk<T8Ietf>, n: usize) { c.apply_keystream_blocks(unsafe { slm(buf, n) }) }
    fn cc8i_aio(c: &mut T8Ietf, i: *const Blk<T8Ietf>, o: *mut Blk<T8Ietf>, n: usize) {
        c.apply_keystream_blocks_inout(InOutBuf::new(unsafe { sl(i, n) }, unsafe { slm(o, n) }).unwrap())
    }
    fn cc8i_seq(c: &mut T8Ietf, ops: *const u8, nops: usize, out: *mut Blk<T8Ietf>, nblk: usize) {
        c.process_with_backend(Seq::<BS<T8Ietf>> { ops: unsafe { sl(ops, nops) }, out: unsafe { slm(out, nblk) } })
    }
    fn cc8i_step(c: &mut T8Ietf, op: u8, out: *mut Blk<T8Ietf>, nblk: usize, load: *const u8, before: *mut u8, after: *mut u8) -> usize {
        let mut n = 0usize;
        c.process_with_backend(Step::<BS<T8Ietf>> { op, out: unsafe { slm(out, nblk) }, load, before, after, size: &mut n });
        n
    }
    fn cc8i_par(c: &mut T8Ietf) -> usize {
        let mut n = 0usize;
        c.process_with_backend(ParN::<BS<T8Ietf>>(&mut n, core::marker::PhantomData));
        n
    }
    fn cc8i_partial(c: *mut T8Ietf, buf: *mut u8, n: usize) -> u8 {
        let c = unsafe { core::ptr::read(c) };
        c.try_apply_keystream_partial(unsafe { slm(buf, n) }.into()).is_ok() as u8
    }
    fn cc8i_drop(c: *mut T8Ietf) { unsafe { core::ptr::drop_in_place(c) } }
    fn cc8i_dropst(c: *mut T8Ietf) { let mut x = unsafe { core::ptr::read(c) }; vp_touch(&raw mut x as *mut u8, core::mem::size_of::<T8Ietf>()); }
    fn cc8i_dbg(c: &T8Ietf, f: &mut Fmt) -> u8 { (&P(c)).d(f) }
    fn cc8i_dbgs(c: &T8Ietf, o: *mut u8, cap: usize, alt: u8) -> usize { (&P(c)).ds(Sink { p: o, n: 0, cap }, alt) }
}

ent! {
    fn cc8i_getpos(c: &T8Ietf) -> u32 { StreamCipherSeekCore::get_block_pos(c) }
    fn cc8i_setpos(c: &mut T8Ietf, pos: u32) { StreamCipherSeekCore::set_block_pos(c, pos) }
}

ent! {
    fn cc8i_new(out: &mut MaybeUninit<T8Ietf>, key: &cipher::Key<T8Ietf>, iv: &cipher::Iv<T8Ietf>) { out.write(<T8Ietf as KeyIvInit>::new(key, iv)); }
    fn cc8i_newsl(out: &mut MaybeUninit<T8Ietf>, key: *const u8, kl: usize, iv: *const u8, il: usize) -> u8 {
        match <T8Ietf as KeyIvInit>::new_from_slices(unsafe { sl(key, kl) }, unsafe { sl(iv, il) }) { Ok(c) => { out.write(c); 1 } Err(_) => 0 }
    }
}

ent! {
    fn cc8i_fromseed(out: &mut MaybeUninit<T8Ietf>, key: &[u8; 32]) { out.write(<T8Ietf as SeedableRng>::from_seed(*key)); }
}
ent! {
    fn cc8i_gen(c: &mut T8Ietf, o: &mut [u32; 64]) { Generator::generate(c, o) }
    fn cc8i_gendrop(c: &mut T8Ietf, o: &mut [u32; 64]) { Generator::drop(c, o) }
}
type T8Legacy = ChaChaCore<R8, Legacy>;
ent! {
    fn cc8l_size() -> usize { core::mem::size_of::<T8Legacy>() }
    fn cc8l_align() -> usize { core::mem::align_of::<T8Legacy>() }
    fn cc8l_rem(c: &T8Legacy, out: &mut usize) -> u8 { match c.remaining_blocks() { Some(n) => { *out = n; 1 } None => 0 } }
    fn cc8l_wblock(c: &mut T8Legacy, out: &mut Blk<T8Legacy>) { c.write_keystream_block(out) }
    fn cc8l_wblocks(c: &mut T8Legacy, out: *mut Blk<T8Legacy>, n: usize) { c.write_keystream_blocks(unsafe { slm(out, n) }) }
    fn cc8l_ablocks(c: &mut T8Legacy, buf: *mut Blk<T8Legacy>, n: usize) { c.apply_keystream_blocks(unsafe { slm(buf, n) }) }
    fn cc8l_aio(c: &mut T8Legacy, i: *const Blk<T8Legacy>, o: *mut Blk<T8Legacy>, n: usize) {
        c.apply_keystream_blocks_inout(InOutBuf::new(unsafe { sl(i, n) }, unsafe { slm(o, n) }).unwrap())
    }
    fn cc8l_seq(c: &mut T8Legacy, ops: *const u8, nops: usize, out: *mut Blk<T8Legacy>, nblk: usize) {
        c.process_with_backend(Seq::<BS<T8Legacy>> { ops: unsafe { sl(ops, nops) }, out: unsafe { slm(out, nblk) } })
    }
    fn cc8l_step(c: &mut T8Legacy, op: u8, out: *mut Blk<T8Legacy>, nblk: usize, load: *const u8, before: *mut u8, after: *mut u8) -> usize {
        let mut n = 0usize;
        c.process_with_backend(Step::<BS<T8Legacy>> { op, out: unsafe { slm(out, nblk) }, load, before, after, size: &mut n });
        n
    }
    fn cc8l_par(c: &mut T8Legacy) -> usize {
        let mut n = 0usize;
        c.process_with_backend(ParN::<BS<T8Legacy>>(&mut n, core::marker::PhantomData));
        n
    }
    fn cc8l_partial(c: *mut T8Legacy, buf: *mut u8, n: usize) -> u8 {
        let c = unsafe { core::ptr::read(c) };
        c.try_apply_keystream_partial(unsafe { slm(buf, n) }.into()).is_ok() as u8
    }
    fn cc8l_drop(c: *mut T8Legacy) { unsafe { core::ptr::drop_in_place(c) } }
    fn cc8l_dropst(c: *mut T8Legacy) { let mut x = unsafe { core::ptr::read(c) }; vp_touch(&raw mut x as *mut u8, core::mem::size_of::<T8Legacy>()); }
    fn cc8l_dbg(c: &T8Legacy, f: &mut Fmt) -> u8 { (&P(c)).d(f) }
    fn cc8l_dbgs(c: &T8Legacy, o: *mut u8, cap: usize, alt: u8) -> usize { (&P(c)).ds(Sink { p: o, n: 0, cap }, alt) }
}

ent! {
    fn cc8l_getpos(c: &T8Legacy) -> u64 { StreamCipherSeekCore::get_block_pos(c) }
    fn cc8l_setpos(c: &mut T8Legacy, pos: u64) { StreamCipherSeekCore::set_block_pos(c, pos) }
}

ent! {
    fn cc8l_fromseed(out: &mut MaybeUninit<T8Legacy>, key: &[u8; 32]) { out.write(<T8Legacy as SeedableRng>::from_seed(*key)); }
}
ent! {
    fn cc8l_gen(c: &mut T8Legacy, o: &mut [u32; 64]) { Generator::generate(c, o) }
    fn cc8l_gendrop(c: &mut T8Legacy, o: &mut [u32; 64]) { Generator::drop(c, o) }
}
type X8W = XChaCha8;
type X8 = <XChaCha8 as CoreOf>::C;
ent! {
    fn xc8_size() -> usize { core::mem::size_of::<X8>() }
    fn xc8_align() -> usize { core::mem::align_of::<X8>() }
    fn xc8_rem(c: &X8, out: &mut usize) -> u8 { match c.remaining_blocks() { Some(n) => { *out = n; 1 } None => 0 } }
    fn xc8_wblock(c: &mut X8, out: &mut Blk<X8>) { c.write_keystream_block(out) }
    fn xc8_wblocks(c: &mut X8, out: *mut Blk<X8>, n: usize) { c.write_keystream_blocks(unsafe { slm(out, n) }) }
    fn xc8_ablocks(c: &mut X8, buf: *mut Blk<X8>, n: usize) { c.apply_keystream_blocks(unsafe { slm(buf, n) }) }
    fn xc8_aio(c: &mut X8, i: *const Blk<X8>, o: *mut Blk<X8>, n: usize) {
        c.apply_keystream_blocks_inout(InOutBuf::new(unsafe { sl(i, n) }, unsafe { slm(o, n) }).unwrap())
    }
    fn xc8_seq(c: &mut X8, ops: *const u8, nops: usize, out: *mut Blk<X8>, nblk: usize) {
        c.process_with_backend(Seq::<BS<X8>> { ops: unsafe { sl(ops, nops) }, out: unsafe { slm(out, nblk) } })
    }
    fn xc8_step(c: &mut X8, op: u8, out: *mut Blk<X8>, nblk: usize, load: *const u8, before: *mut u8, after: *mut u8) -> usize {
        let mut n = 0usize;
        c.process_with_backend(Step::<BS<X8>> { op, out: unsafe { slm(out, nblk) }, load, before, after, size: &mut n });
        n
    }
    fn xc8_par(c: &mut X8) -> usize {
        let mut n = 0usize;
        c.process_with_backend(ParN::<BS<X8>>(&mut n, core::marker::PhantomData));
        n
    }
    fn xc8_partial(c: *mut X8, buf: *mut u8, n: usize) -> u8 {
        let c = unsafe { core::ptr::read(c) };
        c.try_apply_keystream_partial(unsafe { slm(buf, n) }.into()).is_ok() as u8
    }
    fn xc8_drop(c: *mut X8) { unsafe { core::ptr::drop_in_place(c) } }
    fn xc8_dropst(c: *mut X8) { let mut x = unsafe { core::ptr::read(c) }; vp_touch(&raw mut x as *mut u8, core::mem::size_of::<X8>()); }
    fn xc8_dbg(c: &X8, f: &mut Fmt) -> u8 { (&P(c)).d(f) }
    fn xc8_dbgs(c: &X8, o: *mut u8, cap: usize, alt: u8) -> usize { (&P(c)).ds(Sink { p: o, n: 0, cap }, alt) }
}

ent! {
    fn xc8_getpos(c: &X8) -> u32 { StreamCipherSeekCore::get_block_pos(c) }
    fn xc8_setpos(c: &mut X8, pos: u32) { StreamCipherSeekCore::set_block_pos(c, pos) }
}

ent! {
    fn xc8_new(out: &mut MaybeUninit<X8>, key: &cipher::Key<X8>, iv: &cipher::Iv<X8>) { out.write(<X8 as KeyIvInit>::new(key, iv)); }
    fn xc8_newsl(out: &mut MaybeUninit<X8>, key: *const u8, kl: usize, iv: *const u8, il: usize) -> u8 {
        match <X8 as KeyIvInit>::new_from_slices(unsafe { sl(key, kl) }, unsafe { sl(iv, il) }) { Ok(c) => { out.write(c); 1 } Err(_) => 0 }
    }
}

ent! {
    fn hc8(key: &Key, inp: &Array<u8, cipher::consts::U16>, out: &mut Array<u8, cipher::consts::U32>) { *out = hchacha::<R8>(key, inp); }
}
ent! {
    fn wc8_size() -> usize { core::mem::size_of::<ChaCha8>() }
    fn wc8_align() -> usize { core::mem::align_of::<ChaCha8>() }
    fn wc8_apply(c: &mut ChaCha8, buf: *mut u8, n: usize) -> u8 { c.try_apply_keystream(unsafe { slm(buf, n) }).is_ok() as u8 }
    fn wc8_b2b(c: &mut ChaCha8, i: *const u8, o: *mut u8, n: usize) -> u8 { c.try_apply_keystream_b2b(unsafe { sl(i, n) }, unsafe { slm(o, n) }).is_ok() as u8 }
    fn wc8_wks(c: &mut ChaCha8, o: *mut u8, n: usize) -> u8 { c.try_write_keystream(unsafe { slm(o, n) }).is_ok() as u8 }
    fn wc8_check(c: &ChaCha8, n: usize) -> u8 { c.check_remaining(n).is_ok() as u8 }
    fn wc8_drop(c: *mut ChaCha8) { unsafe { core::ptr::drop_in_place(c) } }
    fn wc8_dropst(c: *mut ChaCha8) { let mut x = unsafe { core::ptr::read(c) }; vp_touch(&raw mut x as *mut u8, core::mem::size_of::<ChaCha8>()); }
    fn wc8_dbg(c: &ChaCha8, f: &mut Fmt) -> u8 { (&P(c)).d(f) }
    fn wc8_dbgs(c: &ChaCha8, o: *mut u8, cap: usize, alt: u8) -> usize { (&P(c)).ds(Sink { p: o, n: 0, cap }, alt) }
}

ent! {
    fn wc8_seek64(c: &mut ChaCha8, pos: u64) -> u8 { c.try_seek(pos).is_ok() as u8 }
    fn wc8_seek32(c: &mut ChaCha8, pos: u32) -> u8 { c.try_seek(pos).is_ok() as u8 }
    fn wc8_seek128(c: &mut ChaCha8, pos: &u128) -> u8 { c.try_seek(*pos).is_ok() as u8 }
    fn wc8_pos32(c: &ChaCha8, out: &mut u32) -> u8 { match c.try_current_pos::<u32>() { Ok(p) => { *out = p; 1 } Err(_) => 0 } }
    fn wc8_pos64(c: &ChaCha8, out: &mut u64) -> u8 { match c.try_current_pos::<u64>() { Ok(p) => { *out = p; 1 } Err(_) => 0 } }
    fn wc8_pos128(c: &ChaCha8, out: &mut u128) -> u8 { match c.try_current_pos::<u128>() { Ok(p) => { *out = p; 1 } Err(_) => 0 } }
}

ent! {
    fn wc8_new(out: &mut MaybeUninit<ChaCha8>, key: &cipher::Key<ChaCha8>, iv: &cipher::Iv<ChaCha8>) { out.write(<ChaCha8 as KeyIvInit>::new(key, iv)); }
    fn wc8_newsl(out: &mut MaybeUninit<ChaCha8>, key: *const u8, kl: usize, iv: *const u8, il: usize) -> u8 {
        match <ChaCha8 as KeyIvInit>::new_from_slices(unsafe { sl(key, kl) }, unsafe { sl(iv, il) }) { Ok(c) => { out.write(c); 1 } Err(_) => 0 }
    }
}

ent! {
    fn wx8_size() -> usize { core::mem::size_of::<XChaCha8>() }
    fn wx8_align() -> usize { core::mem::align_of::<XChaCha8>() }
    fn wx8_apply(c: &mut XChaCha8, buf: *mut u8, n: usize) -> u8 { c.try_apply_keystream(unsafe { slm(buf, n) }).is_ok() as u8 }
    fn wx8_b2b(c: &mut XChaCha8, i: *const u8, o: *mut u8, n: usize) -> u8 { c.try_apply_keystream_b2b(unsafe { sl(i, n) }, unsafe { slm(o, n) }).is_ok() as u8 }
    fn wx8_wks(c: &mut XChaCha8, o: *mut u8, n: usize) -> u8 { c.try_write_keystream(unsafe { slm(o, n) }).is_ok() as u8 }
    fn wx8_check(c: &XChaCha8, n: usize) -> u8 { c.check_remaining(n).is_ok() as u8 }
    fn wx8_drop(c: *mut XChaCha8) { unsafe { core::ptr::drop_in_place(c) } }
    fn wx8_dropst(c: *mut XChaCha8) { let mut x = unsafe { core::ptr::read(c) }; vp_touch(&raw mut x as *mut u8, core::mem::size_of::<XChaCha8>()); }
    fn wx8_dbg(c: &XChaCha8, f: &mut Fmt) -> u8 { (&P(c)).d(f) }
    fn wx8_dbgs(c: &XChaCha8, o: *mut u8, cap: usize, alt: u8) -> usize { (&P(c)).ds(Sink { p: o, n: 0, cap }, alt) }
}

ent! {
    fn wx8_seek64(c: &mut XChaCha8, pos: u64) -> u8 { c.try_seek(pos).is_ok() as u8 }
    fn wx8_seek32(c: &mut XChaCha8, pos: u32) -> u8 { c.try_seek(pos).is_ok() as u8 }
    fn wx8_seek128(c: &mut XChaCha8, pos: &u128) -> u8 { c.try_seek(*pos).is_ok() as u8 }
    fn wx8_pos32(c: &XChaCha8, out: &mut u32) -> u8 { match c.try_current_pos::<u32>() { Ok(p) => { *out = p; 1 } Err(_) => 0 } }
    fn wx8_pos64(c: &XChaCha8, out: &mut u64) -> u8 { match c.try_current_pos::<u64>() { Ok(p) => { *out = p; 1 } Err(_) => 0 } }
    fn wx8_pos128(c: &XChaCha8, out: &mut u128) -> u8 { match c.try_current_pos::<u128>() { Ok(p) => { *out = p; 1 } Err(_) => 0 } }
}

ent! {
    fn wx8_new(out: &mut MaybeUninit<XChaCha8>, key: &cipher::Key<XChaCha8>, iv: &cipher::Iv<XChaCha8>) { out.write(<XChaCha8 as KeyIvInit>::new(key, iv)); }
    fn wx8_newsl(out: &mut MaybeUninit<XChaCha8>, key: *const u8, kl: usize, iv: *const u8, il: usize) -> u8 {
        match <XChaCha8 as KeyIvInit>::new_from_slices(unsafe { sl(key, kl) }, unsafe { sl(iv, il) }) { Ok(c) => { out.write(c); 1 } Err(_) => 0 }
    }
}

ent! {
    fn rg8_size() -> usize { core::mem::size_of::<ChaCha8Rng>() }
    fn rg8_align() -> usize { core::mem::align_of::<ChaCha8Rng>() }
    fn rg8_new(out: &mut MaybeUninit<ChaCha8Rng>, seed: &[u8; 32]) { out.write(ChaCha8Rng::from_seed(*seed)); }
    fn rg8_u32(c: &mut ChaCha8Rng) -> u32 { c.next_u32() }
    fn rg8_u64(c: &mut ChaCha8Rng) -> u64 { c.next_u64() }
    fn rg8_fill(c: &mut ChaCha8Rng, o: *mut u8, n: usize) { c.fill_bytes(unsafe { slm(o, n) }) }
    fn rg8_getwp(c: &ChaCha8Rng, o: &mut u128) { *o = c.get_word_pos() }
    fn rg8_setwp(c: &mut ChaCha8Rng, o: &u128) { c.set_word_pos(*o) }
    fn rg8_getbp(c: &ChaCha8Rng) -> u64 { c.get_block_pos() }
    fn rg8_setbp(c: &mut ChaCha8Rng, o: u64) { c.set_block_pos(o) }
    fn rg8_getst(c: &ChaCha8Rng) -> u64 { c.get_stream() }
    fn rg8_setst(c: &mut ChaCha8Rng, o: u64) { c.set_stream(o) }
    fn rg8_seed(c: &ChaCha8Rng, o: &mut [u8; 32]) { *o = c.get_seed() }
    fn rg8_ser(c: &ChaCha8Rng, o: &mut [u8; 49]) { *o = c.serialize_state() }
    fn rg8_de(out: &mut MaybeUninit<ChaCha8Rng>, o: &[u8; 49]) { out.write(ChaCha8Rng::deserialize_state(o)); }
    fn rg8_eq(a: &ChaCha8Rng, b: &ChaCha8Rng) -> u8 { (a == b) as u8 }
    fn rg8_drop(c: *mut ChaCha8Rng) { unsafe { core::ptr::drop_in_place(c) } }
    fn rg8_dropst(c: *mut ChaCha8Rng) { let mut x = unsafe { core::ptr::read(c) }; vp_touch(&raw mut x as *mut u8, core::mem::size_of::<ChaCha8Rng>()); }
    fn rg8_dbg(c: &ChaCha8Rng, f: &mut Fmt) -> u8 { (&P(c)).d(f) }
    fn rg8_dbgs(c: &ChaCha8Rng, o: *mut u8, cap: usize, alt: u8) -> usize { (&P(c)).ds(Sink { p: o, n: 0, cap }, alt) }
}

type T12Ietf = ChaChaCore<R12, Ietf>;
ent! {
    fn cc12i_size() -> usize { core::mem::size_of::<T12Ietf>() }
    fn cc12i_align() -> usize { core::mem::align_of::<T12Ietf>() }
    fn cc12i_rem(c: &T12Ietf, out: &mut usize) -> u8 { match c.remaining_blocks() { Some(n) => { *out = n; 1 } None => 0 } }
    fn cc12i_wblock(c: &mut T12Ietf, out: &mut Blk<T12Ietf>) { c.write_keystream_block(out) }
    fn cc12i_wblocks(c: &mut T12Ietf, out: *mut Blk<T12Ietf>, n: usize) { c.write_keystream_blocks(unsafe { slm(out, n) }) }
    fn cc12i_ablocks(c: &mut T12Ietf, buf: *mut Blk<T12Ietf>, n: usize) { c.apply_keystream_blocks(unsafe { slm(buf, n) }) }
    fn cc12i_aio(c: &mut T12Ietf, i: *const Blk<T12Ietf>, o: *mut Blk<T12Ietf>, n: usize) {
        c.apply_keystream_blocks_inout(InOutBuf::new(unsafe { sl(i, n) }, unsafe { slm(o, n) }).unwrap())
    }
    fn cc12i_seq(c: &mut T12Ietf, ops: *const u8, nops: usize, out: *mut Blk<T12Ietf>, nblk: usize) {
        c.process_with_backend(Seq::<BS<T12Ietf>> { ops: unsafe { sl(ops, nops) }, out: unsafe { slm(out, nblk) } })
    }
    fn cc12i_step(c: &mut T12Ietf, op: u8, out: *mut Blk<T12Ietf>, nblk: usize, load: *const u8, before: *mut u8, after: *mut u8) -> usize {
        let mut n = 0usize;
        c.process_with_backend(Step::<BS<T12Ietf>> { op, out: unsafe { slm(out, nblk) }, load, before, after, size: &mut n });
        n
    }
    fn cc12i_par(c: &mut T12Ietf) -> usize {
        let mut n = 0usize;
        c.process_with_backend(ParN::<BS<T12Ietf>>(&mut n, core::marker::PhantomData));
        n
    }
    fn cc12i_partial(c: *mut T12Ietf, buf: *mut u8, n: usize) -> u8 {
        let c = unsafe { core::ptr::read(c) };
        c.try_apply_keystream_partial(unsafe { slm(buf, n) }.into()).is_ok() as u8
    }
    fn cc12i_drop(c: *mut T12Ietf) { unsafe { core::ptr::drop_in_place(c) } }
    fn cc12i_dropst(c: *mut T12Ietf) { let mut x = unsafe { core::ptr::read(c) }; vp_touch(&raw mut x as *mut u8, core::mem::size_of::<T12Ietf>()); }
    fn cc12i_dbg(c: &T12Ietf, f: &mut Fmt) -> u8 { (&P(c)).d(f) }
    fn cc12i_dbgs(c: &T12Ietf, o: *mut u8, cap: usize, alt: u8) -> usize { (&P(c)).ds(Sink { p: o, n: 0, cap }, alt) }
}

ent! {
    fn cc12i_getpos(c: &T12Ietf) -> u32 { StreamCipherSeekCore::get_block_pos(c) }
    fn cc12i_setpos(c: &mut T12Ietf, pos: u32) { StreamCipherSeekCore::set_block_pos(c, pos) }
}

ent! {
    fn cc12i_new(out: &mut MaybeUninit<T12Ietf>, key: &cipher::Key<T12Ietf>, iv: &cipher::Iv<T12Ietf>) { out.write(<T12Ietf as KeyIvInit>::new(key, iv)); }
    fn cc12i_newsl(out: &mut MaybeUninit<T12Ietf>, key: *const u8, kl: usize, iv: *const u8, il: usize) -> u8 {
        match <T12Ietf as KeyIvInit>::new_from_slices(unsafe { sl(key, kl) }, unsafe { sl(iv, il) }) { Ok(c) => { out.write(c); 1 } Err(_) => 0 }
    }
}

ent! {
    fn cc12i_fromseed(out: &mut MaybeUninit<T12Ietf>, key: &[u8; 32]) { out.write(<T12Ietf as SeedableRng>::from_seed(*key)); }
}
ent! {
    fn cc12i_gen(c: &mut T12Ietf, o: &mut [u32; 64]) { Generator::generate(c, o) }
    fn cc12i_gendrop(c: &mut T12Ietf, o: &mut [u32; 64]) { Generator::drop(c, o) }
}
type T12Legacy = ChaChaCore<R12, Legacy>;
ent! {
    fn cc12l_size() -> usize { core::mem::size_of::<T12Legacy>() }
    fn cc12l_align() -> usize { core::mem::align_of::<T12Legacy>() }
    fn cc12l_rem(c: &T12Legacy, out: &mut usize) -> u8 { match c.remaining_blocks() { Some(n) => { *out = n; 1 } None => 0 } }
    fn cc12l_wblock(c: &mut T12Legacy, out: &mut Blk<T12Legacy>) { c.write_keystream_block(out) }
    fn cc12l_wblocks(c: &mut T12Legacy, out: *mut Blk<T12Legacy>, n: usize) { c.write_keystream_blocks(unsafe { slm(out, n) }) }
    fn cc12l_ablocks(c: &mut T12Legacy, buf: *mut Blk<T12Legacy>, n: usize) { c.apply_keystream_blocks(unsafe { slm(buf, n) }) }
    fn cc12l_aio(c: &mut T12Legacy, i: *const Blk<T12Legacy>, o: *mut Blk<T12Legacy>, n: usize) {
        c.apply_keystream_blocks_inout(InOutBuf::new(unsafe { sl(i, n) }, unsafe { slm(o, n) }).unwrap())
    }
    fn cc12l_seq(c: &mut T12Legacy, ops: *const u8, nops: usize, out: *mut Blk<T12Legacy>, nblk: usize) {
        c.process_with_backend(Seq::<BS<T12Legacy>> { ops: unsafe { sl(ops, nops) }, out: unsafe { slm(out, nblk) } })
    }
    fn cc12l_step(c: &mut T12Legacy, op: u8, out: *mut Blk<T12Legacy>, nblk: usize, load: *const u8, before: *mut u8, after: *mut u8) -> usize {
        let mut n = 0usize;
        c.process_with_backend(Step::<BS<T12Legacy>> { op, out: unsafe { slm(out, nblk) }, load, before, after, size: &mut n });
        n
    }
    fn cc12l_par(c: &mut T12Legacy) -> usize {
        let mut n = 0usize;
        c.process_with_backend(ParN::<BS<T12Legacy>>(&mut n, core::marker::PhantomData));
        n
    }
    fn cc12l_partial(c: *mut T12Legacy, buf: *mut u8, n: usize) -> u8 {
        let c = unsafe { core::ptr::read(c) };
        c.try_apply_keystream_partial(unsafe { slm(buf, n) }.into()).is_ok() as u8
    }
    fn cc12l_drop(c: *mut T12Legacy) { unsafe { core::ptr::drop_in_place(c) } }
    fn cc12l_dropst(c: *mut T12Legacy) { let mut x = unsafe { core::ptr::read(c) }; vp_touch(&raw mut x as *mut u8, core::mem::size_of::<T12Legacy>()); }
    fn cc12l_dbg(c: &T12Legacy, f: &mut Fmt) -> u8 { (&P(c)).d(f) }
    fn cc12l_dbgs(c: &T12Legacy, o: *mut u8, cap: usize, alt: u8) -> usize { (&P(c)).ds(Sink { p: o, n: 0, cap }, alt) }
}

ent! {
    fn cc12l_getpos(c: &T12Legacy) -> u64 { StreamCipherSeekCore::get_block_pos(c) }
    fn cc12l_setpos(c: &mut T12Legacy, pos: u64) { StreamCipherSeekCore::set_block_pos(c, pos) }
}

ent! {
    fn cc12l_fromseed(out: &mut MaybeUninit<T12Legacy>, key: &[u8; 32]) { out.write(<T12Legacy as SeedableRng>::from_seed(*key)); }
}
ent! {
    fn cc12l_gen(c: &mut T12Legacy, o: &mut [u32; 64]) { Generator::generate(c, o) }
    fn cc12l_gendrop(c: &mut T12Legacy, o: &mut [u32; 64]) { Generator::drop(c, o) }
}
type X12W = XChaCha12;
type X12 = <XChaCha12 as CoreOf>::C;
ent! {
    fn xc12_size() -> usize { core::mem::size_of::<X12>() }
    fn xc12_align() -> usize { core::mem::align_of::<X12>() }
    fn xc12_rem(c: &X12, out: &mut usize) -> u8 { match c.remaining_blocks() { Some(n) => { *out = n; 1 } None => 0 } }
    fn xc12_wblock(c: &mut X12, out: &mut Blk<X12>) { c.write_keystream_block(out) }
    fn xc12_wblocks(c: &mut X12, out: *mut Blk<X12>, n: usize) { c.write_keystream_blocks(unsafe { slm(out, n) }) }
    fn xc12_ablocks(c: &mut X12, buf: *mut Blk<X12>, n: usize) { c.apply_keystream_blocks(unsafe { slm(buf, n) }) }
    fn xc12_aio(c: &mut X12, i: *const Blk<X12>, o: *mut Blk<X12>, n: usize) {
        c.apply_keystream_blocks_inout(InOutBuf::new(unsafe { sl(i, n) }, unsafe { slm(o, n) }).unwrap())
    }
    fn xc12_seq(c: &mut X12, ops: *const u8, nops: usize, out: *mut Blk<X12>, nblk: usize) {
        c.process_with_backend(Seq::<BS<X12>> { ops: unsafe { sl(ops, nops) }, out: unsafe { slm(out, nblk) } })
    }
    fn xc12_step(c: &mut X12, op: u8, out: *mut Blk<X12>, nblk: usize, load: *const u8, before: *mut u8, after: *mut u8) -> usize {
        let mut n = 0usize;
        c.process_with_backend(Step::<BS<X12>> { op, out: unsafe { slm(out, nblk) }, load, before, after, size: &mut n });
        n
    }
    fn xc12_par(c: &mut X12) -> usize {
        let mut n = 0usize;
        c.process_with_backend(ParN::<BS<X12>>(&mut n, core::marker::PhantomData));
        n
    }
    fn xc12_partial(c: *mut X12, buf: *mut u8, n: usize) -> u8 {
        let c = unsafe { core::ptr::read(c) };
        c.try_apply_keystream_partial(unsafe { slm(buf, n) }.into()).is_ok() as u8
    }
    fn xc12_drop(c: *mut X12) { unsafe { core::ptr::drop_in_place(c) } }
    fn xc12_dropst(c: *mut X12) { let mut x = unsafe { core::ptr::read(c) }; vp_touch(&raw mut x as *mut u8, core::mem::size_of::<X12>()); }
    fn xc12_dbg(c: &X12, f: &mut Fmt) -> u8 { (&P(c)).d(f) }
    fn xc12_dbgs(c: &X12, o: *mut u8, cap: usize, alt: u8) -> usize { (&P(c)).ds(Sink { p: o, n: 0, cap }, alt) }
}

ent! {
    fn xc12_getpos(c: &X12) -> u32 { StreamCipherSeekCore::get_block_pos(c) }
    fn xc12_setpos(c: &mut X12, pos: u32) { StreamCipherSeekCore::set_block_pos(c, pos) }
}

ent! {
    fn xc12_new(out: &mut MaybeUninit<X12>, key: &cipher::Key<X12>, iv: &cipher::Iv<X12>) { out.write(<X12 as KeyIvInit>::new(key, iv)); }
    fn xc12_newsl(out: &mut MaybeUninit<X12>, key: *const u8, kl: usize, iv: *const u8, il: usize) -> u8 {
        match <X12 as KeyIvInit>::new_from_slices(unsafe { sl(key, kl) }, unsafe { sl(iv, il) }) { Ok(c) => { out.write(c); 1 } Err(_) => 0 }
    }
}

ent! {
    fn hc12(key: &Key, inp: &Array<u8, cipher::consts::U16>, out: &mut Array<u8, cipher::consts::U32>) { *out = hchacha::<R12>(key, inp); }
}
ent! {
    fn wc12_size() -> usize { core::mem::size_of::<ChaCha12>() }
    fn wc12_align() -> usize { core::mem::align_of::<ChaCha12>() }
    fn wc12_apply(c: &mut ChaCha12, buf: *mut u8, n: usize) -> u8 { c.try_apply_keystream(unsafe { slm(buf, n) }).is_ok() as u8 }
    fn wc12_b2b(c: &mut ChaCha12, i: *const u8, o: *mut u8, n: usize) -> u8 { c.try_apply_keystream_b2b(unsafe { sl(i, n) }, unsafe { slm(o, n) }).is_ok() as u8 }
    fn wc12_wks(c: &mut ChaCha12, o: *mut u8, n: usize) -> u8 { c.try_write_keystream(unsafe { slm(o, n) }).is_ok() as u8 }
    fn wc12_check(c: &ChaCha12, n: usize) -> u8 { c.check_remaining(n).is_ok() as u8 }
    fn wc12_drop(c: *mut ChaCha12) { unsafe { core::ptr::drop_in_place(c) } }
    fn wc12_dropst(c: *mut ChaCha12) { let mut x = unsafe { core::ptr::read(c) }; vp_touch(&raw mut x as *mut u8, core::mem::size_of::<ChaCha12>()); }
    fn wc12_dbg(c: &ChaCha12, f: &mut Fmt) -> u8 { (&P(c)).d(f) }
    fn wc12_dbgs(c: &ChaCha12, o: *mut u8, cap: usize, alt: u8) -> usize { (&P(c)).ds(Sink { p: o, n: 0, cap }, alt) }
}

ent! {
    fn wc12_seek64(c: &mut ChaCha12, pos: u64) -> u8 { c.try_seek(pos).is_ok() as u8 }
    fn wc12_seek32(c: &mut ChaCha12, pos: u32) -> u8 { c.try_seek(pos).is_ok() as u8 }
    fn wc12_seek128(c: &mut ChaCha12, pos: &u128) -> u8 { c.try_seek(*pos).is_ok() as u8 }
    fn wc12_pos32(c: &ChaCha12, out: &mut u32) -> u8 { match c.try_current_pos::<u32>() { Ok(p) => { *out = p; 1 } Err(_) => 0 } }
    fn wc12_pos64(c: &ChaCha12, out: &mut u64) -> u8 { match c.try_current_pos::<u64>() { Ok(p) => { *out = p; 1 } Err(_) => 0 } }
    fn wc12_pos128(c: &ChaCha12, out: &mut u128) -> u8 { match c.try_current_pos::<u128>() { Ok(p) => { *out = p; 1 } Err(_) => 0 } }
}

ent! {
    fn wc12_new(out: &mut MaybeUninit<ChaCha12>, key: &cipher::Key<ChaCha12>, iv: &cipher::Iv<ChaCha12>) { out.write(<ChaCha12 as KeyIvInit>::new(key, iv)); }
    fn wc12_newsl(out: &mut MaybeUninit<ChaCha12>, key: *const u8, kl: usize, iv: *const u8, il: usize) -> u8 {
        match <ChaCha12 as KeyIvInit>::new_from_slices(unsafe { sl(key, kl) }, unsafe { sl(iv, il) }) { Ok(c) => { out.write(c); 1 } Err(_) => 0 }
    }
}

ent! {
    fn wx12_size() -> usize { core::mem::size_of::<XChaCha12>() }
    fn wx12_align() -> usize { core::mem::align_of::<XChaCha12>() }
    fn wx12_apply(c: &mut XChaCha12, buf: *mut u8, n: usize) -> u8 { c.try_apply_keystream(unsafe { slm(buf, n) }).is_ok() as u8 }
    fn wx12_b2b(c: &mut XChaCha12, i: *const u8, o: *mut u8, n: usize) -> u8 { c.try_apply_keystream_b2b(unsafe { sl(i, n) }, unsafe { slm(o, n) }).is_ok() as u8 }
    fn wx12_wks(c: &mut XChaCha12, o: *mut u8, n: usize) -> u8 { c.try_write_keystream(unsafe { slm(o, n) }).is_ok() as u8 }
    fn wx12_check(c: &XChaCha12, n: usize) -> u8 { c.check_remaining(n).is_ok() as u8 }
    fn wx12_drop(c: *mut XChaCha12) { unsafe { core::ptr::drop_in_place(c) } }
    fn wx12_dropst(c: *mut XChaCha12) { let mut x = unsafe { core::ptr::read(c) }; vp_touch(&raw mut x as *mut u8, core::mem::size_of::<XChaCha12>()); }
    fn wx12_dbg(c: &XChaCha12, f: &mut Fmt) -> u8 { (&P(c)).d(f) }
    fn wx12_dbgs(c: &XChaCha12, o: *mut u8, cap: usize, alt: u8) -> usize { (&P(c)).ds(Sink { p: o, n: 0, cap }, alt) }
}

ent! {
    fn wx12_seek64(c: &mut XChaCha12, pos: u64) -> u8 { c.try_seek(pos).is_ok() as u8 }
    fn wx12_seek32(c: &mut XChaCha12, pos: u32) -> u8 { c.try_seek(pos).is_ok() as u8 }
    fn wx12_seek128(c: &mut XChaCha12, pos: &u128) -> u8 { c.try_seek(*pos).is_ok() as u8 }
    fn wx12_pos32(c: &XChaCha12, out: &mut u32) -> u8 { match c.try_current_pos::<u32>() { Ok(p) => { *out = p; 1 } Err(_) => 0 } }
    fn wx12_pos64(c: &XChaCha12, out: &mut u64) -> u8 { match c.try_current_pos::<u64>() { Ok(p) => { *out = p; 1 } Err(_) => 0 } }
    fn wx12_pos128(c: &XChaCha12, out: &mut u128) -> u8 { match c.try_current_pos::<u128>() { Ok(p) => { *out = p; 1 } Err(_) => 0 } }
}

ent! {
    fn wx12_new(out: &mut MaybeUninit<XChaCha12>, key: &cipher::Key<XChaCha12>, iv: &cipher::Iv<XChaCha12>) { out.write(<XChaCha12 as KeyIvInit>::new(key, iv)); }
    fn wx12_newsl(out: &mut MaybeUninit<XChaCha12>, key: *const u8, kl: usize, iv: *const u8, il: usize) -> u8 {
        match <XChaCha12 as KeyIvInit>::new_from_slices(unsafe { sl(key, kl) }, unsafe { sl(iv, il) }) { Ok(c) => { out.write(c); 1 } Err(_) => 0 }
    }
}

ent! {
    fn rg12_size() -> usize { core::mem::size_of::<ChaCha12Rng>() }
    fn rg12_align() -> usize { core::mem::align_of::<ChaCha12Rng>() }
    fn rg12_new(out: &mut MaybeUninit<ChaCha12Rng>, seed: &[u8; 32]) { out.write(ChaCha12Rng::from_seed(*seed)); }
    fn rg12_u32(c: &mut ChaCha12Rng) -> u32 { c.next_u32() }
    fn rg12_u64(c: &mut ChaCha12Rng) -> u64 { c.next_u64() }
    fn rg12_fill(c: &mut ChaCha12Rng, o: *mut u8, n: usize) { c.fill_bytes(unsafe { slm(o, n) }) }
    fn rg12_getwp(c: &ChaCha12Rng, o: &mut u128) { *o = c.get_word_pos() }
    fn rg12_setwp(c: &mut ChaCha12Rng, o: &u128) { c.set_word_pos(*o) }
    fn rg12_getbp(c: &ChaCha12Rng) -> u64 { c.get_block_pos() }
    fn rg12_setbp(c: &mut ChaCha12Rng, o: u64) { c.set_block_pos(o) }
    fn rg12_getst(c: &ChaCha12Rng) -> u64 { c.get_stream() }
    fn rg12_setst(c: &mut ChaCha12Rng, o: u64) { c.set_stream(o) }
    fn rg12_seed(c: &ChaCha12Rng, o: &mut [u8; 32]) { *o = c.get_seed() }
    fn rg12_ser(c: &ChaCha12Rng, o: &mut [u8; 49]) { *o = c.serialize_state() }
    fn rg12_de(out: &mut MaybeUninit<ChaCha12Rng>, o: &[u8; 49]) { out.write(ChaCha12Rng::deserialize_state(o)); }
    fn rg12_eq(a: &ChaCha12Rng, b: &ChaCha12Rng) -> u8 { (a == b) as u8 }
    fn rg12_drop(c: *mut ChaCha12Rng) { unsafe { core::ptr::drop_in_place(c) } }
    fn rg12_dropst(c: *mut ChaCha12Rng) { let mut x = unsafe { core::ptr::read(c) }; vp_touch(&raw mut x as *mut u8, core::mem::size_of::<ChaCha12Rng>()); }
    fn rg12_dbg(c: &ChaCha12Rng, f: &mut Fmt) -> u8 { (&P(c)).d(f) }
    fn rg12_dbgs(c: &ChaCha12Rng, o: *mut u8, cap: usize, alt: u8) -> usize { (&P(c)).ds(Sink { p: o, n: 0, cap }, alt) }
}

type T20Ietf = ChaChaCore<R20, Ietf>;
ent! {
    fn cc20i_size() -> usize { core::mem::size_of::<T20Ietf>() }
    fn cc20i_align() -> usize { core::mem::align_of::<T20Ietf>() }
    fn cc20i_rem(c: &T20Ietf, out: &mut usize) -> u8 { match c.remaining_blocks() { Some(n) => { *out = n; 1 } None => 0 } }
    fn cc20i_wblock(c: &mut T20Ietf, out: &mut Blk<T20Ietf>) { c.write_keystream_block(out) }
    fn cc20i_wblocks(c: &mut T20Ietf, out: *mut Blk<T20Ietf>, n: usize) { c.write_keystream_blocks(unsafe { slm(out, n) }) }
    fn cc20i_ablocks(c: &mut T20Ietf, buf: *mut Blk<T20Ietf>, n: usize) { c.apply_keystream_blocks(unsafe { slm(buf, n) }) }
    fn cc20i_aio(c: &mut T20Ietf, i: *const Blk<T20Ietf>, o: *mut Blk<T20Ietf>, n: usize) {
        c.apply_keystream_blocks_inout(InOutBuf::new(unsafe { sl(i, n) }, unsafe { slm(o, n) }).unwrap())
    }
    fn cc20i_seq(c: &mut T20Ietf, ops: *const u8, nops: usize, out: *mut Blk<T20Ietf>, nblk: usize) {
        c.process_with_backend(Seq::<BS<T20Ietf>> { ops: unsafe { sl(ops, nops) }, out: unsafe { slm(out, nblk) } })
    }
    fn cc20i_step(c: &mut T20Ietf, op: u8, out: *mut Blk<T20Ietf>, nblk: usize, load: *const u8, before: *mut u8, after: *mut u8) -> usize {
        let mut n = 0usize;
        c.process_with_backend(Step::<BS<T20Ietf>> { op, out: unsafe { slm(out, nblk) }, load, before, after, size: &mut n });
        n
    }
    fn cc20i_par(c: &mut T20Ietf) -> usize {
        let mut n = 0usize;
        c.process_with_backend(ParN::<BS<T20Ietf>>(&mut n, core::marker::PhantomData));
        n
    }
    fn cc20i_partial(c: *mut T20Ietf, buf: *mut u8, n: usize) -> u8 {
        let c = unsafe { core::ptr::read(c) };
        c.try_apply_keystream_partial(unsafe { slm(buf, n) }.into()).is_ok() as u8
    }
    fn cc20i_drop(c: *mut T20Ietf) { unsafe { core::ptr::drop_in_place(c) } }
    fn cc20i_dropst(c: *mut T20Ietf) { let mut x = unsafe { core::ptr::read(c) }; vp_touch(&raw mut x as *mut u8, core::mem::size_of::<T20Ietf>()); }
    fn cc20i_dbg(c: &T20Ietf, f: &mut Fmt) -> u8 { (&P(c)).d(f) }
    fn cc20i_dbgs(c: &T20Ietf, o: *mut u8, cap: usize, alt: u8) -> usize { (&P(c)).ds(Sink { p: o, n: 0, cap }, alt) }
}

ent! {
    fn cc20i_getpos(c: &T20Ietf) -> u32 { StreamCipherSeekCore::get_block_pos(c) }
    fn cc20i_setpos(c: &mut T20Ietf, pos: u32) { StreamCipherSeekCore::set_block_pos(c, pos) }
}

ent! {
    fn cc20i_new(out: &mut MaybeUninit<T20Ietf>, key: &cipher::Key<T20Ietf>, iv: &cipher::Iv<T20Ietf>) { out.write(<T20Ietf as KeyIvInit>::new(key, iv)); }
    fn cc20i_newsl(out: &mut MaybeUninit<T20Ietf>, key: *const u8, kl: usize, iv: *const u8, il: usize) -> u8 {
        match <T20Ietf as KeyIvInit>::new_from_slices(unsafe { sl(key, kl) }, unsafe { sl(iv, il) }) { Ok(c) => { out.write(c); 1 } Err(_) => 0 }
    }
}

ent! {
    fn cc20i_fromseed(out: &mut MaybeUninit<T20Ietf>, key: &[u8; 32]) { out.write(<T20Ietf as SeedableRng>::from_seed(*key)); }
}
ent! {
    fn cc20i_gen(c: &mut T20Ietf, o: &mut [u32; 64]) { Generator::generate(c, o) }
    fn cc20i_gendrop(c: &mut T20Ietf, o: &mut [u32; 64]) { Generator::drop(c, o) }
}
type T20Legacy = ChaChaCore<R20, Legacy>;
ent! {
    fn cc20l_size() -> usize { core::mem::size_of::<T20Legacy>() }
    fn cc20l_align() -> usize { core::mem::align_of::<T20Legacy>() }
    fn cc20l_rem(c: &T20Legacy, out: &mut usize) -> u8 { match c.remaining_blocks() { Some(n) => { *out = n; 1 } None => 0 } }
    fn cc20l_wblock(c: &mut T20Legacy, out: &mut Blk<T20Legacy>) { c.write_keystream_block(out) }
    fn cc20l_wblocks(c: &mut T20Legacy, out: *mut Blk<T20Legacy>, n: usize) { c.write_keystream_blocks(unsafe { slm(out, n) }) }
    fn cc20l_ablocks(c: &mut T20Legacy, buf: *mut Blk<T20Legacy>, n: usize) { c.apply_keystream_blocks(unsafe { slm(buf, n) }) }
    fn cc20l_aio(c: &mut T20Legacy, i: *const Blk<T20Legacy>, o: *mut Blk<T20Legacy>, n: usize) {
        c.apply_keystream_blocks_inout(InOutBuf::new(unsafe { sl(i, n) }, unsafe { slm(o, n) }).unwrap())
    }
    fn cc20l_seq(c: &mut T20Legacy, ops: *const u8, nops: usize, out: *mut Blk<T20Legacy>, nblk: usize) {
        c.process_with_backend(Seq::<BS<T20Legacy>> { ops: unsafe { sl(ops, nops) }, out: unsafe { slm(out, nblk) } })
    }
    fn cc20l_step(c: &mut T20Legacy, op: u8, out: *mut Blk<T20Legacy>, nblk: usize, load: *const u8, before: *mut u8, after: *mut u8) -> usize {
        let mut n = 0usize;
        c.process_with_backend(Step::<BS<T20Legacy>> { op, out: unsafe { slm(out, nblk) }, load, before, after, size: &mut n });
        n
    }
    fn cc20l_par(c: &mut T20Legacy) -> usize {
        let mut n = 0usize;
        c.process_with_backend(ParN::<BS<T20Legacy>>(&mut n, core::marker::PhantomData));
        n
    }
    fn cc20l_partial(c: *mut T20Legacy, buf: *mut u8, n: usize) -> u8 {
        let c = unsafe { core::ptr::read(c) };
        c.try_apply_keystream_partial(unsafe { slm(buf, n) }.into()).is_ok() as u8
    }
    fn cc20l_drop(c: *mut T20Legacy) { unsafe { core::ptr::drop_in_place(c) } }
    fn cc20l_dropst(c: *mut T20Legacy) { let mut x = unsafe { core::ptr::read(c) }; vp_touch(&raw mut x as *mut u8, core::mem::size_of::<T20Legacy>()); }
    fn cc20l_dbg(c: &T20Legacy, f: &mut Fmt) -> u8 { (&P(c)).d(f) }
    fn cc20l_dbgs(c: &T20Legacy, o: *mut u8, cap: usize, alt: u8) -> usize { (&P(c)).ds(Sink { p: o, n: 0, cap }, alt) }
}

ent! {
    fn cc20l_getpos(c: &T20Legacy) -> u64 { StreamCipherSeekCore::get_block_pos(c) }
    fn cc20l_setpos(c: &mut T20Legacy, pos: u64) { StreamCipherSeekCore::set_block_pos(c, pos) }
}

ent! {
    fn cc20l_new(out: &mut MaybeUninit<T20Legacy>, key: &cipher::Key<T20Legacy>, iv: &cipher::Iv<T20Legacy>) { out.write(<T20Legacy as KeyIvInit>::new(key, iv)); }
    fn cc20l_newsl(out: &mut MaybeUninit<T20Legacy>, key: *const u8, kl: usize, iv: *const u8, il: usize) -> u8 {
        match <T20Legacy as KeyIvInit>::new_from_slices(unsafe { sl(key, kl) }, unsafe { sl(iv, il) }) { Ok(c) => { out.write(c); 1 } Err(_) => 0 }
    }
}

ent! {
    fn cc20l_fromseed(out: &mut MaybeUninit<T20Legacy>, key: &[u8; 32]) { out.write(<T20Legacy as SeedableRng>::from_seed(*key)); }
}
ent! {
    fn cc20l_gen(c: &mut T20Legacy, o: &mut [u32; 64]) { Generator::generate(c, o) }
    fn cc20l_gendrop(c: &mut T20Legacy, o: &mut [u32; 64]) { Generator::drop(c, o) }
}
type X20W = XChaCha20;
type X20 = <XChaCha20 as CoreOf>::C;
ent! {
    fn xc20_size() -> usize { core::mem::size_of::<X20>() }
    fn xc20_align() -> usize { core::mem::align_of::<X20>() }
    fn xc20_rem(c: &X20, out: &mut usize) -> u8 { match c.remaining_blocks() { Some(n) => { *out = n; 1 } None => 0 } }
    fn xc20_wblock(c: &mut X20, out: &mut Blk<X20>) { c.write_keystream_block(out) }
    fn xc20_wblocks(c: &mut X20, out: *mut Blk<X20>, n: usize) { c.write_keystream_blocks(unsafe { slm(out, n) }) }
    fn xc20_ablocks(c: &mut X20, buf: *mut Blk<X20>, n: usize) { c.apply_keystream_blocks(unsafe { slm(buf, n) }) }
    fn xc20_aio(c: &mut X20, i: *const Blk<X20>, o: *mut Blk<X20>, n: usize) {
        c.apply_keystream_blocks_inout(InOutBuf::new(unsafe { sl(i, n) }, unsafe { slm(o, n) }).unwrap())
    }
    fn xc20_seq(c: &mut X20, ops: *const u8, nops: usize, out: *mut Blk<X20>, nblk: usize) {
        c.process_with_backend(Seq::<BS<X20>> { ops: unsafe { sl(ops, nops) }, out: unsafe { slm(out, nblk) } })
    }
    fn xc20_step(c: &mut X20, op: u8, out: *mut Blk<X20>, nblk: usize, load: *const u8, before: *mut u8, after: *mut u8) -> usize {
        let mut n = 0usize;
        c.process_with_backend(Step::<BS<X20>> { op, out: unsafe { slm(out, nblk) }, load, before, after, size: &mut n });
        n
    }
    fn xc20_par(c: &mut X20) -> usize {
        let mut n = 0usize;
        c.process_with_backend(ParN::<BS<X20>>(&mut n, core::marker::PhantomData));
        n
    }
    fn xc20_partial(c: *mut X20, buf: *mut u8, n: usize) -> u8 {
        let c = unsafe { core::ptr::read(c) };
        c.try_apply_keystream_partial(unsafe { slm(buf, n) }.into()).is_ok() as u8
    }
    fn xc20_drop(c: *mut X20) { unsafe { core::ptr::drop_in_place(c) } }
    fn xc20_dropst(c: *mut X20) { let mut x = unsafe { core::ptr::read(c) }; vp_touch(&raw mut x as *mut u8, core::mem::size_of::<X20>()); }
    fn xc20_dbg(c: &X20, f: &mut Fmt) -> u8 { (&P(c)).d(f) }
    fn xc20_dbgs(c: &X20, o: *mut u8, cap: usize, alt: u8) -> usize { (&P(c)).ds(Sink { p: o, n: 0, cap }, alt) }
}

ent! {
    fn xc20_getpos(c: &X20) -> u32 { StreamCipherSeekCore::get_block_pos(c) }
    fn xc20_setpos(c: &mut X20, pos: u32) { StreamCipherSeekCore::set_block_pos(c, pos) }
}

ent! {
    fn xc20_new(out: &mut MaybeUninit<X20>, key: &cipher::Key<X20>, iv: &cipher::Iv<X20>) { out.write(<X20 as KeyIvInit>::new(key, iv)); }
    fn xc20_newsl(out: &mut MaybeUninit<X20>, key: *const u8, kl: usize, iv: *const u8, il: usize) -> u8 {
        match <X20 as KeyIvInit>::new_from_slices(unsafe { sl(key, kl) }, unsafe { sl(iv, il) }) { Ok(c) => { out.write(c); 1 } Err(_) => 0 }
    }
}

ent! {
    fn hc20(key: &Key, inp: &Array<u8, cipher::consts::U16>, out: &mut Array<u8, cipher::consts::U32>) { *out = hchacha::<R20>(key, inp); }
}
ent! {
    fn wc20_size() -> usize { core::mem::size_of::<ChaCha20>() }
    fn wc20_align() -> usize { core::mem::align_of::<ChaCha20>() }
    fn wc20_apply(c: &mut ChaCha20, buf: *mut u8, n: usize) -> u8 { c.try_apply_keystream(unsafe { slm(buf, n) }).is_ok() as u8 }
    fn wc20_b2b(c: &mut ChaCha20, i: *const u8, o: *mut u8, n: usize) -> u8 { c.try_apply_keystream_b2b(unsafe { sl(i, n) }, unsafe { slm(o, n) }).is_ok() as u8 }
    fn wc20_wks(c: &mut ChaCha20, o: *mut u8, n: usize) -> u8 { c.try_write_keystream(unsafe { slm(o, n) }).is_ok() as u8 }
    fn wc20_check(c: &ChaCha20, n: usize) -> u8 { c.check_remaining(n).is_ok() as u8 }
    fn wc20_drop(c: *mut ChaCha20) { unsafe { core::ptr::drop_in_place(c) } }
    fn wc20_dropst(c: *mut ChaCha20) { let mut x = unsafe { core::ptr::read(c) }; vp_touch(&raw mut x as *mut u8, core::mem::size_of::<ChaCha20>()); }
    fn wc20_dbg(c: &ChaCha20, f: &mut Fmt) -> u8 { (&P(c)).d(f) }
    fn wc20_dbgs(c: &ChaCha20, o: *mut u8, cap: usize, alt: u8) -> usize { (&P(c)).ds(Sink { p: o, n: 0, cap }, alt) }
}

ent! {
    fn wc20_seek64(c: &mut ChaCha20, pos: u64) -> u8 { c.try_seek(pos).is_ok() as u8 }
    fn wc20_seek32(c: &mut ChaCha20, pos: u32) -> u8 { c.try_seek(pos).is_ok() as u8 }
    fn wc20_seek128(c: &mut ChaCha20, pos: &u128) -> u8 { c.try_seek(*pos).is_ok() as u8 }
    fn wc20_pos32(c: &ChaCha20, out: &mut u32) -> u8 { match c.try_current_pos::<u32>() { Ok(p) => { *out = p; 1 } Err(_) => 0 } }
    fn wc20_pos64(c: &ChaCha20, out: &mut u64) -> u8 { match c.try_current_pos::<u64>() { Ok(p) => { *out = p; 1 } Err(_) => 0 } }
    fn wc20_pos128(c: &ChaCha20, out: &mut u128) -> u8 { match c.try_current_pos::<u128>() { Ok(p) => { *out = p; 1 } Err(_) => 0 } }
}

ent! {
    fn wc20_new(out: &mut MaybeUninit<ChaCha20>, key: &cipher::Key<ChaCha20>, iv: &cipher::Iv<ChaCha20>) { out.write(<ChaCha20 as KeyIvInit>::new(key, iv)); }
    fn wc20_newsl(out: &mut MaybeUninit<ChaCha20>, key: *const u8, kl: usize, iv: *const u8, il: usize) -> u8 {
        match <ChaCha20 as KeyIvInit>::new_from_slices(unsafe { sl(key, kl) }, unsafe { sl(iv, il) }) { Ok(c) => { out.write(c); 1 } Err(_) => 0 }
    }
}

ent! {
    fn wx20_size() -> usize { core::mem::size_of::<XChaCha20>() }
    fn wx20_align() -> usize { core::mem::align_of::<XChaCha20>() }
    fn wx20_apply(c: &mut XChaCha20, buf: *mut u8, n: usize) -> u8 { c.try_apply_keystream(unsafe { slm(buf, n) }).is_ok() as u8 }
    fn wx20_b2b(c: &mut XChaCha20, i: *const u8, o: *mut u8, n: usize) -> u8 { c.try_apply_keystream_b2b(unsafe { sl(i, n) }, unsafe { slm(o, n) }).is_ok() as u8 }
    fn wx20_wks(c: &mut XChaCha20, o: *mut u8, n: usize) -> u8 { c.try_write_keystream(unsafe { slm(o, n) }).is_ok() as u8 }
    fn wx20_check(c: &XChaCha20, n: usize) -> u8 { c.check_remaining(n).is_ok() as u8 }
    fn wx20_drop(c: *mut XChaCha20) { unsafe { core::ptr::drop_in_place(c) } }
    fn wx20_dropst(c: *mut XChaCha20) { let mut x = unsafe { core::ptr::read(c) }; vp_touch(&raw mut x as *mut u8, core::mem::size_of::<XChaCha20>()); }
    fn wx20_dbg(c: &XChaCha20, f: &mut Fmt) -> u8 { (&P(c)).d(f) }
    fn wx20_dbgs(c: &XChaCha20, o: *mut u8, cap: usize, alt: u8) -> usize { (&P(c)).ds(Sink { p: o, n: 0, cap }, alt) }
}

ent! {
    fn wx20_seek64(c: &mut XChaCha20, pos: u64) -> u8 { c.try_seek(pos).is_ok() as u8 }
    fn wx20_seek32(c: &mut XChaCha20, pos: u32) -> u8 { c.try_seek(pos).is_ok() as u8 }
    fn wx20_seek128(c: &mut XChaCha20, pos: &u128) -> u8 { c.try_seek(*pos).is_ok() as u8 }
    fn wx20_pos32(c: &XChaCha20, out: &mut u32) -> u8 { match c.try_current_pos::<u32>() { Ok(p) => { *out = p; 1 } Err(_) => 0 } }
    fn wx20_pos64(c: &XChaCha20, out: &mut u64) -> u8 { match c.try_current_pos::<u64>() { Ok(p) => { *out = p; 1 } Err(_) => 0 } }
    fn wx20_pos128(c: &XChaCha20, out: &mut u128) -> u8 { match c.try_current_pos::<u128>() { Ok(p) => { *out = p; 1 } Err(_) => 0 } }
}

ent! {
    fn wx20_new(out: &mut MaybeUninit<XChaCha20>, key: &cipher::Key<XChaCha20>, iv: &cipher::Iv<XChaCha20>) { out.write(<XChaCha20 as KeyIvInit>::new(key, iv)); }
    fn wx20_newsl(out: &mut MaybeUninit<XChaCha20>, key: *const u8, kl: usize, iv: *const u8, il: usize) -> u8 {
        match <XChaCha20 as KeyIvInit>::new_from_slices(unsafe { sl(key, kl) }, unsafe { sl(iv, il) }) { Ok(c) => { out.write(c); 1 } Err(_) => 0 }
    }
}

ent! {
    fn rg20_size() -> usize { core::mem::size_of::<ChaCha20Rng>() }
    fn rg20_align() -> usize { core::mem::align_of::<ChaCha20Rng>() }
    fn rg20_new(out: &mut MaybeUninit<ChaCha20Rng>, seed: &[u8; 32]) { out.write(ChaCha20Rng::from_seed(*seed)); }
    fn rg20_u32(c: &mut ChaCha20Rng) -> u32 { c.next_u32() }
    fn rg20_u64(c: &mut ChaCha20Rng) -> u64 { c.next_u64() }
    fn rg20_fill(c: &mut ChaCha20Rng, o: *mut u8, n: usize) { c.fill_bytes(unsafe { slm(o, n) }) }
    fn rg20_getwp(c: &ChaCha20Rng, o: &mut u128) { *o = c.get_word_pos() }
    fn rg20_setwp(c: &mut ChaCha20Rng, o: &u128) { c.set_word_pos(*o) }
    fn rg20_getbp(c: &ChaCha20Rng) -> u64 { c.get_block_pos() }
    fn rg20_setbp(c: &mut ChaCha20Rng, o: u64) { c.set_block_pos(o) }
    fn rg20_getst(c: &ChaCha20Rng) -> u64 { c.get_stream() }
    fn rg20_setst(c: &mut ChaCha20Rng, o: u64) { c.set_stream(o) }
    fn rg20_seed(c: &ChaCha20Rng, o: &mut [u8; 32]) { *o = c.get_seed() }
    fn rg20_ser(c: &ChaCha20Rng, o: &mut [u8; 49]) { *o = c.serialize_state() }
    fn rg20_de(out: &mut MaybeUninit<ChaCha20Rng>, o: &[u8; 49]) { out.write(ChaCha20Rng::deserialize_state(o)); }
    fn rg20_eq(a: &ChaCha20Rng, b: &ChaCha20Rng) -> u8 { (a == b) as u8 }
    fn rg20_drop(c: *mut ChaCha20Rng) { unsafe { core::ptr::drop_in_place(c) } }
    fn rg20_dropst(c: *mut ChaCha20Rng) { let mut x = unsafe { core::ptr::read(c) }; vp_touch(&raw mut x as *mut u8, core::mem::size_of::<ChaCha20Rng>()); }
    fn rg20_dbg(c: &ChaCha20Rng, f: &mut Fmt) -> u8 { (&P(c)).d(f) }
    fn rg20_dbgs(c: &ChaCha20Rng, o: *mut u8, cap: usize, alt: u8) -> usize { (&P(c)).ds(Sink { p: o, n: 0, cap }, alt) }
}

ent! {
    fn wl20_size() -> usize { core::mem::size_of::<ChaCha20Legacy>() }
    fn wl20_align() -> usize { core::mem::align_of::<ChaCha20Legacy>() }
    fn wl20_apply(c: &mut ChaCha20Legacy, buf: *mut u8, n: usize) -> u8 { c.try_apply_keystream(unsafe { slm(buf, n) }).is_ok() as u8 }
    fn wl20_b2b(c: &mut ChaCha20Legacy, i: *const u8, o: *mut u8, n: usize) -> u8 { c.try_apply_keystream_b2b(unsafe { sl(i, n) }, unsafe { slm(o, n) }).is_ok() as u8 }
    fn wl20_wks(c: &mut ChaCha20Legacy, o: *mut u8, n: usize) -> u8 { c.try_write_keystream(unsafe { slm(o, n) }).is_ok() as u8 }
    fn wl20_check(c: &ChaCha20Legacy, n: usize) -> u8 { c.check_remaining(n).is_ok() as u8 }
    fn wl20_drop(c: *mut ChaCha20Legacy) { unsafe { core::ptr::drop_in_place(c) } }
    fn wl20_dropst(c: *mut ChaCha20Legacy) { let mut x = unsafe { core::ptr::read(c) }; vp_touch(&raw mut x as *mut u8, core::mem::size_of::<ChaCha20Legacy>()); }
    fn wl20_dbg(c: &ChaCha20Legacy, f: &mut Fmt) -> u8 { (&P(c)).d(f) }
    fn wl20_dbgs(c: &ChaCha20Legacy, o: *mut u8, cap: usize, alt: u8) -> usize { (&P(c)).ds(Sink { p: o, n: 0, cap }, alt) }
}

ent! {
    fn wl20_seek64(c: &mut ChaCha20Legacy, pos: u64) -> u8 { c.try_seek(pos).is_ok() as u8 }
    fn wl20_seek32(c: &mut ChaCha20Legacy, pos: u32) -> u8 { c.try_seek(pos).is_ok() as u8 }
    fn wl20_seek128(c: &mut ChaCha20Legacy, pos: &u128) -> u8 { c.try_seek(*pos).is_ok() as u8 }
    fn wl20_pos32(c: &ChaCha20Legacy, out: &mut u32) -> u8 { match c.try_current_pos::<u32>() { Ok(p) => { *out = p; 1 } Err(_) => 0 } }
    fn wl20_pos64(c: &ChaCha20Legacy, out: &mut u64) -> u8 { match c.try_current_pos::<u64>() { Ok(p) => { *out = p; 1 } Err(_) => 0 } }
    fn wl20_pos128(c: &ChaCha20Legacy, out: &mut u128) -> u8 { match c.try_current_pos::<u128>() { Ok(p) => { *out = p; 1 } Err(_) => 0 } }
}

ent! {
    fn wl20_new(out: &mut MaybeUninit<ChaCha20Legacy>, key: &cipher::Key<ChaCha20Legacy>, iv: &cipher::Iv<ChaCha20Legacy>) { out.write(<ChaCha20Legacy as KeyIvInit>::new(key, iv)); }
    fn wl20_newsl(out: &mut MaybeUninit<ChaCha20Legacy>, key: *const u8, kl: usize, iv: *const u8, il: usize) -> u8 {
        match <ChaCha20Legacy as KeyIvInit>::new_from_slices(unsafe { sl(key, kl) }, unsafe { sl(iv, il) }) { Ok(c) => { out.write(c); 1 } Err(_) => 0 }
    }
}

/// names the (unnameable) core type behind a wrapper alias
pub trait CoreOf { type C; }
impl<T: StreamCipherCore> CoreOf for cipher::StreamCipherCoreWrapper<T> where T::BlockSize: block_buffer::BlockSizes { type C = T; }
