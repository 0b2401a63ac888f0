// generated by gen.py -- do not edit
#![allow(clippy::all, unused_imports, unused_macros, dead_code)]
use core::mem::MaybeUninit;

type Fmt = core::fmt::Formatter<'static>;

/// calls `Debug::fmt` when the type has it (2 = the type has no Debug)
struct P<'a, T>(&'a T);
trait ViaDebug { fn d(&self, f: &mut Fmt) -> u8; fn ds(&self, s: Sink, alt: u8) -> usize; }
impl<T: core::fmt::Debug> ViaDebug for P<'_, T> {
    #[inline(always)]
    fn d(&self, f: &mut Fmt) -> u8 { core::fmt::Debug::fmt(self.0, f).is_ok() as u8 }
    #[inline(always)]
    fn ds(&self, mut s: Sink, alt: u8) -> usize {
        use core::fmt::Write;
        let r = if alt != 0 { write!(s, "{:#?}", self.0) } else { write!(s, "{:?}", self.0) };
        if r.is_ok() { s.n } else { usize::MAX }
    }
}
trait ViaNone { fn d(&self, f: &mut Fmt) -> u8; fn ds(&self, s: Sink, alt: u8) -> usize; }
impl<T> ViaNone for &P<'_, T> {
    #[inline(always)]
    fn d(&self, _f: &mut Fmt) -> u8 { 2 }
    #[inline(always)]
    fn ds(&self, _s: Sink, _alt: u8) -> usize { 0 }
}
struct Sink { p: *mut u8, n: usize, cap: usize }
impl core::fmt::Write for Sink {
    fn write_str(&mut self, s: &str) -> core::fmt::Result {
        for b in s.bytes() {
            if self.n >= self.cap { return Err(core::fmt::Error); }
            unsafe { *self.p.add(self.n) = b; }
            self.n += 1;
        }
        Ok(())
    }
}
/// marks an object whose memory is inspected after it has been dropped
#[unsafe(no_mangle)]
#[inline(never)]
pub extern "C" fn vp_touch(p: *mut u8, n: usize) {
    unsafe { core::arch::asm!("/* {} {} */", in(reg) p, in(reg) n, options(nostack, preserves_flags)) }
}
macro_rules! ent {
    ($(fn $n:ident($($a:ident: $t:ty),* $(,)?) $(-> $r:ty)? $b:block)*) => {
        $(#[unsafe(no_mangle)] pub extern "C" fn $n($($a: $t),*) $(-> $r)? $b)*
    };
}
unsafe fn sl<'a, T>(p: *const T, n: usize) -> &'a [T] { unsafe { core::slice::from_raw_parts(p, n) } }
unsafe fn slm<'a, T>(p: *mut T, n: usize) -> &'a mut [T] { unsafe { core::slice::from_raw_parts_mut(p, n) } }
use hc_256::{cipher, *};

use cipher::{StreamCipher, StreamCipherSeek, StreamCipherCore, StreamCipherSeekCore, StreamCipherClosure, StreamCipherBackend,
    BlockSizeUser, KeyIvInit, KeyInit, InOutBuf, ParBlocksSizeUser, Block, array::{Array, ArraySize}, typenum::Unsigned};
type BS<T> = <T as BlockSizeUser>::BlockSize;
type Blk<T> = Array<u8, BS<T>>;

/// runs an arbitrary schedule of backend calls inside one closure:
/// op 0 = one block, op 255 = one parallel batch, op k = tail of k blocks
struct Seq<'a, B: ArraySize> { ops: &'a [u8], out: &'a mut [Array<u8, B>] }
impl<B: ArraySize> BlockSizeUser for Seq<'_, B> { type BlockSize = B; }
impl<B: ArraySize> StreamCipherClosure for Seq<'_, B> {
    #[inline(always)]
    fn call<K: StreamCipherBackend<BlockSize = B>>(self, b: &mut K) {
        let mut out = self.out;
        for &op in self.ops {
            let k = match op { 0 => 1, 255 => K::ParBlocksSize::USIZE, k => k as usize };
            let (x, rest) = out.split_at_mut(k);
            out = rest;
            match op {
                0 => b.gen_ks_block(&mut x[0]),
                255 => b.gen_par_ks_blocks(x.try_into().unwrap()),
                _ => b.gen_tail_blocks(x),
            }
        }
    }
}
/// one backend call on an arbitrary backend state (ghost access to the bytes of the backend object)
struct Step<'a, B: ArraySize> {
    op: u8, out: &'a mut [Array<u8, B>], load: *const u8, before: *mut u8, after: *mut u8, size: &'a mut usize,
}
impl<B: ArraySize> BlockSizeUser for Step<'_, B> { type BlockSize = B; }
impl<B: ArraySize> StreamCipherClosure for Step<'_, B> {
    #[inline(always)]
    fn call<K: StreamCipherBackend<BlockSize = B>>(self, b: &mut K) {
        let n = size_of::<K>();
        *self.size = n;
        let p = b as *mut K as *mut u8;
        unsafe {
            if !self.load.is_null() { core::ptr::copy_nonoverlapping(self.load, p, n); }
            core::ptr::copy_nonoverlapping(p as *const u8, self.before, n);
        }
        match self.op {
            254 => {}
            0 => b.gen_ks_block(&mut self.out[0]),
            255 => b.gen_par_ks_blocks(self.out.try_into().unwrap()),
            _ => b.gen_tail_blocks(self.out),
        }
        unsafe { core::ptr::copy_nonoverlapping(p as *const u8, self.after, n); }
    }
}
struct ParN<'a, B>(&'a mut usize, core::marker::PhantomData<B>);
impl<B: ArraySize> BlockSizeUser for ParN<'_, B> { type BlockSize = B; }
impl<B: ArraySize> StreamCipherClosure for ParN<'_, B> {
    fn call<K: StreamCipherBackend<BlockSize = B>>(self, _b: &mut K) { *self.0 = K::ParBlocksSize::USIZE; }
}

ent! {
    fn h_size() -> usize { core::mem::size_of::<Hc256Core>() }
    fn h_align() -> usize { core::mem::align_of::<Hc256Core>() }
    fn h_rem(c: &Hc256Core, out: &mut usize) -> u8 { match c.remaining_blocks() { Some(n) => { *out = n; 1 } None => 0 } }
    fn h_wblock(c: &mut Hc256Core, out: &mut Blk<Hc256Core>) { c.write_keystream_block(out) }
    fn h_wblocks(c: &mut Hc256Core, out: *mut Blk<Hc256Core>, n: usize) { c.write_keystream_blocks(unsafe { slm(out, n) }) }
    fn h_ablocks(c: &mut Hc256Core, buf: *mut Blk<Hc256Core>, n: usize) { c.apply_keystream_blocks(unsafe { slm(buf, n) }) }
    fn h_aio(c: &mut Hc256Core, i: *const Blk<Hc256Core>, o: *mut Blk<Hc256Core>, n: usize) {
        c.apply_keystream_blocks_inout(InOutBuf::new(unsafe { sl(i, n) }, unsafe { slm(o, n) }).unwrap())
    }
    fn h_seq(c: &mut Hc256Core, ops: *const u8, nops: usize, out: *mut Blk<Hc256Core>, nblk: usize) {
        c.process_with_backend(Seq::<BS<Hc256Core>> { ops: unsafe { sl(ops, nops) }, out: unsafe { slm(out, nblk) } })
    }
    fn h_step(c: &mut Hc256Core, op: u8, out: *mut Blk<Hc256Core>, nblk: usize, load: *const u8, before: *mut u8, after: *mut u8) -> usize {
        let mut n = 0usize;
        c.process_with_backend(Step::<BS<Hc256Core>> { op, out: unsafe { slm(out, nblk) }, load, before, after, size: &mut n });
        n
    }
    fn h_par(c: &mut Hc256Core) -> usize {
        let mut n = 0usize;
        c.process_with_backend(ParN::<BS<Hc256Core>>(&mut n, core::marker::PhantomData));
        n
    }
    fn h_partial(c: *mut Hc256Core, buf: *mut u8, n: usize) -> u8 {
        let c = unsafe { core::ptr::read(c) };
        c.try_apply_keystream_partial(unsafe { slm(buf, n) }.into()).is_ok() as u8
    }
    fn h_drop(c: *mut Hc256Core) { unsafe { core::ptr::drop_in_place(c) } }
    fn h_dropst(c: *mut Hc256Core) { let mut x = unsafe { core::ptr::read(c) }; vp_touch(&raw mut x as *mut u8, core::mem::size_of::<Hc256Core>()); }
    fn h_dbg(c: &Hc256Core, f: &mut Fmt) -> u8 { (&P(c)).d(f) }
    fn h_dbgs(c: &Hc256Core, o: *mut u8, cap: usize, alt: u8) -> usize { (&P(c)).ds(Sink { p: o, n: 0, cap }, alt) }
}

ent! {
    fn h_new(out: &mut MaybeUninit<Hc256Core>, key: &cipher::Key<Hc256Core>, iv: &cipher::Iv<Hc256Core>) { out.write(<Hc256Core as KeyIvInit>::new(key, iv)); }
    fn h_newsl(out: &mut MaybeUninit<Hc256Core>, key: *const u8, kl: usize, iv: *const u8, il: usize) -> u8 {
        match <Hc256Core as KeyIvInit>::new_from_slices(unsafe { sl(key, kl) }, unsafe { sl(iv, il) }) { Ok(c) => { out.write(c); 1 } Err(_) => 0 }
    }
}

ent! {
    fn wh_size() -> usize { core::mem::size_of::<Hc256>() }
    fn wh_align() -> usize { core::mem::align_of::<Hc256>() }
    fn wh_apply(c: &mut Hc256, buf: *mut u8, n: usize) -> u8 { c.try_apply_keystream(unsafe { slm(buf, n) }).is_ok() as u8 }
    fn wh_b2b(c: &mut Hc256, i: *const u8, o: *mut u8, n: usize) -> u8 { c.try_apply_keystream_b2b(unsafe { sl(i, n) }, unsafe { slm(o, n) }).is_ok() as u8 }
    fn wh_wks(c: &mut Hc256, o: *mut u8, n: usize) -> u8 { c.try_write_keystream(unsafe { slm(o, n) }).is_ok() as u8 }
    fn wh_check(c: &Hc256, n: usize) -> u8 { c.check_remaining(n).is_ok() as u8 }
    fn wh_drop(c: *mut Hc256) { unsafe { core::ptr::drop_in_place(c) } }
    fn wh_dropst(c: *mut Hc256) { let mut x = unsafe { core::ptr::read(c) }; vp_touch(&raw mut x as *mut u8, core::mem::size_of::<Hc256>()); }
    fn wh_dbg(c: &Hc256, f: &mut Fmt) -> u8 { (&P(c)).d(f) }
    fn wh_dbgs(c: &Hc256, o: *mut u8, cap: usize, alt: u8) -> usize { (&P(c)).ds(Sink { p: o, n: 0, cap }, alt) }
}

ent! {
    fn wh_new(out: &mut MaybeUninit<Hc256>, key: &cipher::Key<Hc256>, iv: &cipher::Iv<Hc256>) { out.write(<Hc256 as KeyIvInit>::new(key, iv)); }
    fn wh_newsl(out: &mut MaybeUninit<Hc256>, key: *const u8, kl: usize, iv: *const u8, il: usize) -> u8 {
        match <Hc256 as KeyIvInit>::new_from_slices(unsafe { sl(key, kl) }, unsafe { sl(iv, il) }) { Ok(c) => { out.write(c); 1 } Err(_) => 0 }
    }
}
