// generated by gen.py -- do not edit
#![allow(clippy::all, unused_imports, unused_macros, dead_code)]
use core::mem::MaybeUninit;

type Fmt = core::fmt::Formatter<'static>;

/// calls `Debug::fmt` when the type has it (2 = the type has no Debug)
struct P<'a, T>(&'a T);
trait ViaDebug { fn d(&self, f: &mut Fmt) -> u8; fn ds(&self, s: Sink, alt: u8) -> usize; }
impl<T: core::fmt::Debug> ViaDebug for P<'_, T> {
    #[inline(always)]
    fn d(&self, f: &mut Fmt) -> u8 { core::fmt::Debug::fmt(self.0, f).is_ok() as u8 }
    #[inline(always)]
    fn ds(&self, mut s: Sink, alt: u8) -> usize {
        use core::fmt::Write;
        let r = if alt != 0 { write!(s, "{:#?}", self.0) } else { write!(s, "{:?}", self.0) };
        if r.is_ok() { s.n } else { usize::MAX }
    }
}
trait ViaNone { fn d(&self, f: &mut Fmt) -> u8; fn ds(&self, s: Sink, alt: u8) -> usize; }
impl<T> ViaNone for &P<'_, T> {
    #[inline(always)]
    fn d(&self, _f: &mut Fmt) -> u8 { 2 }
    #[inline(always)]
    fn ds(&self, _s: Sink, _alt: u8) -> usize { 0 }
}
struct Sink { p: *mut u8, n: usize, cap: usize }
impl core::fmt::Write for Sink {
    fn write_str(&mut self, s: &str) -> core::fmt::Result {
        for b in s.bytes() {
            if self.n >= self.cap { return Err(core::fmt::Error); }
            unsafe { *self.p.add(self.n) = b; }
            self.n += 1;
        }
        Ok(())
    }
}
/// marks an object whose memory is inspected after it has been dropped
#[unsafe(no_mangle)]
#[inline(never)]
pub extern "C" fn vp_touch(p: *mut u8, n: usize) {
    unsafe { core::arch::asm!("/* {} {} */", in(reg) p, in(reg) n, options(nostack, preserves_flags)) }
}
macro_rules! ent {
    ($(fn $n:ident($($a:ident: $t:ty),* $(,)?) $(-> $r:ty)? $b:block)*) => {
        $(#[unsafe(no_mangle)] pub extern "C" fn $n($($a: $t),*) $(-> $r)? $b)*
    };
}
unsafe fn sl<'a, T>(p: *const T, n: usize) -> &'a [T] { unsafe { core::slice::from_raw_parts(p, n) } }
unsafe fn slm<'a, T>(p: *mut T, n: usize) -> &'a mut [T] { unsafe { core::slice::from_raw_parts_mut(p, n) } }
use rabbit::{cipher, *};

use cipher::{StreamCipher, StreamCipherSeek, StreamCipherCore, StreamCipherSeekCore, StreamCipherClosure, StreamCipherBackend,
    BlockSizeUser, KeyIvInit, KeyInit, InOutBuf, ParBlocksSizeUser, Block, array::{Array, ArraySize}, typenum::Unsigned};
type BS<T> = <T as BlockSizeUser>::BlockSize;
type Blk<T> = Array<u8, BS<T>>;

/// runs an arbitrary schedule of backend calls inside one closure:
/// op 0 = one block, op 255 = one parallel batch, op k = tail of k blocks
struct Seq<'a, B: ArraySize> { ops: &'a [u8], out: &'a mut [Array<u8, B>] }
impl<B: ArraySize> BlockSizeUser for Seq<'_, B> { type BlockSize = B; }
impl<B: ArraySize> StreamCipherClosure for Seq<'_, B> {
    #[inline(always)]
    fn call<K: StreamCipherBackend<BlockSize = B>>(self, b: &mut K) {
        let mut out = self.out;
        for &op in self.ops {
            let k = match op { 0 => 1, 255 => K::ParBlocksSize::USIZE, k => k as usize };
            let (x, rest) = out.split_at_mut(k);
            out = rest;
            match op {
                0 => b.gen_ks_block(&mut x[0]),
                255 => b.gen_par_ks_blocks(x.try_into().unwrap()),
                _ => b.gen_tail_blocks(x),
            }
        }
    }
}
/// one backend call on an arbitrary backend state (ghost access to the bytes of the backend object)
struct Step<'a, B: ArraySize> {
    op: u8, out: &'a mut [Array<u8, B>], load: *const u8, before: *mut u8, after: *mut u8, size: &'a mut usize,
}
impl<B: ArraySize> BlockSizeUser for Step<'_, B> { type BlockSize = B; }
impl<B: ArraySize> StreamCipherClosure for Step<'_, B> {
    #[inline(always)]
    fn call<K: StreamCipherBackend<BlockSize = B>>(self, b: &mut K) {
        let n = size_of::<K>();
        *self.size = n;
        let p = b as *mut K as *mut u8;
        unsafe {
            if !self.load.is_null() { core::ptr::copy_nonoverlapping(self.load, p, n); }
            core::ptr::copy_nonoverlapping(p as *const u8, self.before, n);
        }
        match self.op {
            254 => {}
            0 => b.gen_ks_block(&mut self.out[0]),
            255 => b.gen_par_ks_blocks(self.out.try_into().unwrap()),
            _ => b.gen_tail_blocks(self.out),
        }
        unsafe { core::ptr::copy_nonoverlapping(p as *const u8, self.after, n); }
    }
}
struct ParN<'a, B>(&'a mut usize, core::marker::PhantomData<B>);
impl<B: ArraySize> BlockSizeUser for ParN<'_, B> { type BlockSize = B; }
impl<B: ArraySize> StreamCipherClosure for ParN<'_, B> {
    fn call<K: StreamCipherBackend<BlockSize = B>>(self, _b: &mut K) { *self.0 = K::ParBlocksSize::USIZE; }
}

ent! {
    fn rk_size() -> usize { core::mem::size_of::<RabbitKeyOnlyCore>() }
    fn rk_align() -> usize { core::mem::align_of::<RabbitKeyOnlyCore>() }
    fn rk_rem(c: &RabbitKeyOnlyCore, out: &mut usize) -> u8 { match c.remaining_blocks() { Some(n) => { *out = n; 1 } None => 0 } }
    fn rk_wblock(c: &mut RabbitKeyOnlyCore, out: &mut Blk<RabbitKeyOnlyCore>) { c.write_keystream_block(out) }
    fn rk_wblocks(c: &mut RabbitKeyOnlyCore, out: *mut Blk<RabbitKeyOnlyCore>, n: usize) { c.write_keystream_blocks(unsafe { slm(out, n) }) }
    fn rk_ablocks(c: &mut RabbitKeyOnlyCore, buf: *mut Blk<RabbitKeyOnlyCore>, n: usize) { c.apply_keystream_blocks(unsafe { slm(buf, n) }) }
    fn rk_aio(c: &mut RabbitKeyOnlyCore, i: *const Blk<RabbitKeyOnlyCore>, o: *mut Blk<RabbitKeyOnlyCore>, n: usize) {
        c.apply_keystream_blocks_inout(InOutBuf::new(unsafe { sl(i, n) }, unsafe { slm(o, n) }).unwrap())
    }
    fn rk_seq(c: &mut RabbitKeyOnlyCore, ops: *const u8, nops: usize, out: *mut Blk<RabbitKeyOnlyCore>, nblk: usize) {
        c.process_with_backend(Seq::<BS<RabbitKeyOnlyCore>> { ops: unsafe { sl(ops, nops) }, out: unsafe { slm(out, nblk) } })
    }
    fn rk_step(c: &mut RabbitKeyOnlyCore, op: u8, out: *mut Blk<RabbitKeyOnlyCore>, nblk: usize, load: *const u8, before: *mut u8, after: *mut u8) -> usize {
        let mut n = 0usize;
        c.process_with_backend(Step::<BS<RabbitKeyOnlyCore>> { op, out: unsafe { slm(out, nblk) }, load, before, after, size: &mut n });
        n
    }
    fn rk_par(c: &mut RabbitKeyOnlyCore) -> usize {
        let mut n = 0usize;
        c.process_with_backend(ParN::<BS<RabbitKeyOnlyCore>>(&mut n, core::marker::PhantomData));
        n
    }
    fn rk_partial(c: *mut RabbitKeyOnlyCore, buf: *mut u8, n: usize) -> u8 {
        let c = unsafe { core::ptr::read(c) };
        c.try_apply_keystream_partial(unsafe { slm(buf, n) }.into()).is_ok() as u8
    }
    fn rk_drop(c: *mut RabbitKeyOnlyCore) { unsafe { core::ptr::drop_in_place(c) } }
    fn rk_dropst(c: *mut RabbitKeyOnlyCore) { let mut x = unsafe { core::ptr::read(c) }; vp_touch(&raw mut x as *mut u8, core::mem::size_of::<RabbitKeyOnlyCore>()); }
    fn rk_dbg(c: &RabbitKeyOnlyCore, f: &mut Fmt) -> u8 { (&P(c)).d(f) }
    fn rk_dbgs(c: &RabbitKeyOnlyCore, o: *mut u8, cap: usize, alt: u8) -> usize { (&P(c)).ds(Sink { p: o, n: 0, cap }, alt) }
}

ent! {
    fn rk_new(out: &mut MaybeUninit<RabbitKeyOnlyCore>, key: &cipher::Key<RabbitKeyOnlyCore>) { out.write(<RabbitKeyOnlyCore as KeyInit>::new(key)); }
    fn rk_newsl(out: &mut MaybeUninit<RabbitKeyOnlyCore>, key: *const u8, kl: usize) -> u8 {
        match <RabbitKeyOnlyCore as KeyInit>::new_from_slice(unsafe { sl(key, kl) }) { Ok(c) => { out.write(c); 1 } Err(_) => 0 }
    }
}

ent! {
    fn ri_size() -> usize { core::mem::size_of::<RabbitCore>() }
    fn ri_align() -> usize { core::mem::align_of::<RabbitCore>() }
    fn ri_rem(c: &RabbitCore, out: &mut usize) -> u8 { match c.remaining_blocks() { Some(n) => { *out = n; 1 } None => 0 } }
    fn ri_wblock(c: &mut RabbitCore, out: &mut Blk<RabbitCore>) { c.write_keystream_block(out) }
    fn ri_wblocks(c: &mut RabbitCore, out: *mut Blk<RabbitCore>, n: usize) { c.write_keystream_blocks(unsafe { slm(out, n) }) }
    fn ri_ablocks(c: &mut RabbitCore, buf: *mut Blk<RabbitCore>, n: usize) { c.apply_keystream_blocks(unsafe { slm(buf, n) }) }
    fn ri_aio(c: &mut RabbitCore, i: *const Blk<RabbitCore>, o: *mut Blk<RabbitCore>, n: usize) {
        c.apply_keystream_blocks_inout(InOutBuf::new(unsafe { sl(i, n) }, unsafe { slm(o, n) }).unwrap())
    }
    fn ri_seq(c: &mut RabbitCore, ops: *const u8, nops: usize, out: *mut Blk<RabbitCore>, nblk: usize) {
        c.process_with_backend(Seq::<BS<RabbitCore>> { ops: unsafe { sl(ops, nops) }, out: unsafe { slm(out, nblk) } })
    }
    fn ri_step(c: &mut RabbitCore, op: u8, out: *mut Blk<RabbitCore>, nblk: usize, load: *const u8, before: *mut u8, after: *mut u8) -> usize {
        let mut n = 0usize;
        c.process_with_backend(Step::<BS<RabbitCore>> { op, out: unsafe { slm(out, nblk) }, load, before, after, size: &mut n });
        n
    }
    fn ri_par(c: &mut RabbitCore) -> usize {
        let mut n = 0usize;
        c.process_with_backend(ParN::<BS<RabbitCore>>(&mut n, core::marker::PhantomData));
        n
    }
    fn ri_partial(c: *mut RabbitCore, buf: *mut u8, n: usize) -> u8 {
        let c = unsafe { core::ptr::read(c) };
        c.try_apply_keystream_partial(unsafe { slm(buf, n) }.into()).is_ok() as u8
    }
    fn ri_drop(c: *mut RabbitCore) { unsafe { core::ptr::drop_in_place(c) } }
    fn ri_dropst(c: *mut RabbitCore) { let mut x = unsafe { core::ptr::read(c) }; vp_touch(&raw mut x as *mut u8, core::mem::size_of::<RabbitCore>()); }
    fn ri_dbg(c: &RabbitCore, f: &mut Fmt) -> u8 { (&P(c)).d(f) }
    fn ri_dbgs(c: &RabbitCore, o: *mut u8, cap: usize, alt: u8) -> usize { (&P(c)).ds(Sink { p: o, n: 0, cap }, alt) }
}

ent! {
    fn ri_new(out: &mut MaybeUninit<RabbitCore>, key: &cipher::Key<RabbitCore>, iv: &cipher::Iv<RabbitCore>) { out.write(<RabbitCore as KeyIvInit>::new(key, iv)); }
    fn ri_newsl(out: &mut MaybeUninit<RabbitCore>, key: *const u8, kl: usize, iv: *const u8, il: usize) -> u8 {
        match <RabbitCore as KeyIvInit>::new_from_slices(unsafe { sl(key, kl) }, unsafe { sl(iv, il) }) { Ok(c) => { out.write(c); 1 } Err(_) => 0 }
    }
}

ent! {
    fn wrk_size() -> usize { core::mem::size_of::<RabbitKeyOnly>() }
    fn wrk_align() -> usize { core::mem::align_of::<RabbitKeyOnly>() }
    fn wrk_apply(c: &mut RabbitKeyOnly, buf: *mut u8, n: usize) -> u8 { c.try_apply_keystream(unsafe { slm(buf, n) }).is_ok() as u8 }
    fn wrk_b2b(c: &mut RabbitKeyOnly, i: *const u8, o: *mut u8, n: usize) -> u8 { c.try_apply_keystream_b2b(unsafe { sl(i, n) }, unsafe { slm(o, n) }).is_ok() as u8 }
    fn wrk_wks(c: &mut RabbitKeyOnly, o: *mut u8, n: usize) -> u8 { c.try_write_keystream(unsafe { slm(o, n) }).is_ok() as u8 }
    fn wrk_check(c: &RabbitKeyOnly, n: usize) -> u8 { c.check_remaining(n).is_ok() as u8 }
    fn wrk_drop(c: *mut RabbitKeyOnly) { unsafe { core::ptr::drop_in_place(c) } }
    fn wrk_dropst(c: *mut RabbitKeyOnly) { let mut x = unsafe { core::ptr::read(c) }; vp_touch(&raw mut x as *mut u8, core::mem::size_of::<RabbitKeyOnly>()); }
    fn wrk_dbg(c: &RabbitKeyOnly, f: &mut Fmt) -> u8 { (&P(c)).d(f) }
    fn wrk_dbgs(c: &RabbitKeyOnly, o: *mut u8, cap: usize, alt: u8) -> usize { (&P(c)).ds(Sink { p: o, n: 0, cap }, alt) }
}

ent! {
    fn wrk_new(out: &mut MaybeUninit<RabbitKeyOnly>, key: &cipher::Key<RabbitKeyOnly>) { out.write(<RabbitKeyOnly as KeyInit>::new(key)); }
    fn wrk_newsl(out: &mut MaybeUninit<RabbitKeyOnly>, key: *const u8, kl: usize) -> u8 {
        match <RabbitKeyOnly as KeyInit>::new_from_slice(unsafe { sl(key, kl) }) { Ok(c) => { out.write(c); 1 } Err(_) => 0 }
    }
}

ent! {
    fn wri_size() -> usize { core::mem::size_of::<Rabbit>() }
    fn wri_align() -> usize { core::mem::align_of::<Rabbit>() }
    fn wri_apply(c: &mut Rabbit, buf: *mut u8, n: usize) -> u8 { c.try_apply_keystream(unsafe { slm(buf, n) }).is_ok() as u8 }
    fn wri_b2b(c: &mut Rabbit, i: *const u8, o: *mut u8, n: usize) -> u8 { c.try_apply_keystream_b2b(unsafe { sl(i, n) }, unsafe { slm(o, n) }).is_ok() as u8 }
    fn wri_wks(c: &mut Rabbit, o: *mut u8, n: usize) -> u8 { c.try_write_keystream(unsafe { slm(o, n) }).is_ok() as u8 }
    fn wri_check(c: &Rabbit, n: usize) -> u8 { c.check_remaining(n).is_ok() as u8 }
    fn wri_drop(c: *mut Rabbit) { unsafe { core::ptr::drop_in_place(c) } }
    fn wri_dropst(c: *mut Rabbit) { let mut x = unsafe { core::ptr::read(c) }; vp_touch(&raw mut x as *mut u8, core::mem::size_of::<Rabbit>()); }
    fn wri_dbg(c: &Rabbit, f: &mut Fmt) -> u8 { (&P(c)).d(f) }
    fn wri_dbgs(c: &Rabbit, o: *mut u8, cap: usize, alt: u8) -> usize { (&P(c)).ds(Sink { p: o, n: 0, cap }, alt) }
}

ent! {
    fn wri_new(out: &mut MaybeUninit<Rabbit>, key: &cipher::Key<Rabbit>, iv: &cipher::Iv<Rabbit>) { out.write(<Rabbit as KeyIvInit>::new(key, iv)); }
    fn wri_newsl(out: &mut MaybeUninit<Rabbit>, key: *const u8, kl: usize, iv: *const u8, il: usize) -> u8 {
        match <Rabbit as KeyIvInit>::new_from_slices(unsafe { sl(key, kl) }, unsafe { sl(iv, il) }) { Ok(c) => { out.write(c); 1 } Err(_) => 0 }
    }
}
