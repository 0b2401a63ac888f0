// generated by gen.py -- do not edit
#![allow(clippy::all, unused_imports, unused_macros, dead_code)]
use core::mem::MaybeUninit;

type Fmt = core::fmt::Formatter<'static>;

/// calls `Debug::fmt` when the type has it (2 = the type has no Debug)
struct P<'a, T>(&'a T);
trait ViaDebug { fn d(&self, f: &mut Fmt) -> u8; fn ds(&self, s: Sink, alt: u8) -> usize; }
impl<T: core::fmt::Debug> ViaDebug for P<'_, T> {
    #[inline(always)]
    fn d(&self, f: &mut Fmt) -> u8 { core::fmt::Debug::fmt(self.0, f).is_ok() as u8 }
    #[inline(always)]
    fn ds(&self, mut s: Sink, alt: u8) -> usize {
        use core::fmt::Write;
        let r = if alt != 0 { write!(s, "{:#?}", self.0) } else { write!(s, "{:?}", self.0) };
        if r.is_ok() { s.n } else { usize::MAX }
    }
}
trait ViaNone { fn d(&self, f: &mut Fmt) -> u8; fn ds(&self, s: Sink, alt: u8) -> usize; }
impl<T> ViaNone for &P<'_, T> {
    #[inline(always)]
    fn d(&self, _f: &mut Fmt) -> u8 { 2 }
    #[inline(always)]
    fn ds(&self, _s: Sink, _alt: u8) -> usize { 0 }
}
struct Sink { p: *mut u8, n: usize, cap: usize }
impl core::fmt::Write for Sink {
    fn write_str(&mut self, s: &str) -> core::fmt::Result {
        for b in s.bytes() {
            if self.n >= self.cap { return Err(core::fmt::Error); }
            unsafe { *self.p.add(self.n) = b; }
            self.n += 1;
        }
        Ok(())
    }
}
/// marks an object whose memory is inspected after it has been dropped
#[unsafe(no_mangle)]
#[inline(never)]
pub extern "C" fn vp_touch(p: *mut u8, n: usize) {
    unsafe { core::arch::asm!("/* {} {} */", in(reg) p, in(reg) n, options(nostack, preserves_flags)) }
}
macro_rules! ent {
    ($(fn $n:ident($($a:ident: $t:ty),* $(,)?) $(-> $r:ty)? $b:block)*) => {
        $(#[unsafe(no_mangle)] pub extern "C" fn $n($($a: $t),*) $(-> $r)? $b)*
    };
}
unsafe fn sl<'a, T>(p: *const T, n: usize) -> &'a [T] { unsafe { core::slice::from_raw_parts(p, n) } }
unsafe fn slm<'a, T>(p: *mut T, n: usize) -> &'a mut [T] { unsafe { core::slice::from_raw_parts_mut(p, n) } }
use salsa20::{cipher, *};

use cipher::{StreamCipher, StreamCipherSeek, StreamCipherCore, StreamCipherSeekCore, StreamCipherClosure, StreamCipherBackend,
    BlockSizeUser, KeyIvInit, KeyInit, InOutBuf, ParBlocksSizeUser, Block, array::{Array, ArraySize}, typenum::Unsigned};
type BS<T> = <T as BlockSizeUser>::BlockSize;
type Blk<T> = Array<u8, BS<T>>;

/// runs an arbitrary schedule of backend calls inside one closure:
/// op 0 = one block, op 255 = one parallel batch, op k = tail of k blocks
struct Seq<'a, B: ArraySize> { ops: &'a [u8], out: &'a mut [Array<u8, B>] }
impl<B: ArraySize> BlockSizeUser for Seq<'_, B> { type BlockSize = B; }
impl<B: ArraySize> StreamCipherClosure for Seq<'_, B> {
    #[inline(always)]
    fn call<K: StreamCipherBackend<BlockSize = B>>(self, b: &mut K) {
        let mut out = self.out;
        for &op in self.ops {
            let k = match op { 0 => 1, 255 => K::ParBlocksSize::USIZE, k => k as usize };
            let (x, rest) = out.split_at_mut(k);
            out = rest;
            match op {
                0 => b.gen_ks_block(&mut x[0]),
                255 => b.gen_par_ks_blocks(x.try_into().unwrap()),
                _ => b.gen_tail_blocks(x),
            }
        }
    }
}
/// one backend call on an arbitrary backend state (ghost access to the bytes of the backend object)
struct Step<'a, B: ArraySize> {
    op: u8, out: &'a mut [Array<u8, B>], load: *const u8, before: *mut u8, after: *mut u8, size: &'a mut usize,
}
impl<B: ArraySize> BlockSizeUser for Step<'_, B> { type BlockSize = B; }
impl<B: ArraySize> StreamCipherClosure for Step<'_, B> {
    #[inline(always)]
    fn call<K: StreamCipherBackend<BlockSize = B>>(self, b: &mut K) {
        let n = size_of::<K>();
        *self.size = n;
        let p = b as *mut K as *mut u8;
        unsafe {
            if !self.load.is_null() { core::ptr::copy_nonoverlapping(self.load, p, n); }
            core::ptr::copy_nonoverlapping(p as *const u8, self.before, n);
        }
        match self.op {
            254 => {}
            0 => b.gen_ks_block(&mut self.out[0]),
            255 => b.gen_par_ks_blocks(self.out.try_into().unwrap()),
            _ => b.gen_tail_blocks(self.out),
        }
        unsafe { core::ptr::copy_nonoverlapping(p as *const u8, self.after, n); }
    }
}
struct ParN<'a, B>(&'a mut usize, core::marker::PhantomData<B>);
impl<B: ArraySize> BlockSizeUser for ParN<'_, B> { type BlockSize = B; }
impl<B: ArraySize> StreamCipherClosure for ParN<'_, B> {
    fn call<K: StreamCipherBackend<BlockSize = B>>(self, _b: &mut K) { *self.0 = K::ParBlocksSize::USIZE; }
}

type S8 = SalsaCore<cipher::consts::U4>;
ent! {
    fn sc8_size() -> usize { core::mem::size_of::<S8>() }
    fn sc8_align() -> usize { core::mem::align_of::<S8>() }
    fn sc8_rem(c: &S8, out: &mut usize) -> u8 { match c.remaining_blocks() { Some(n) => { *out = n; 1 } None => 0 } }
    fn sc8_wblock(c: &mut S8, out: &mut Blk<S8>) { c.write_keystream_block(out) }
    fn sc8_wblocks(c: &mut S8, out: *mut Blk<S8>, n: usize) { c.write_keystream_blocks(unsafe { slm(out, n) }) }
    fn sc8_ablocks(c: &mut S8, buf: *mut Blk<S8>, n: usize) { c.apply_keystream_blocks(unsafe { slm(buf, n) }) }
    fn sc8_aio(c: &mut S8, i: *const Blk<S8>, o: *mut Blk<S8>, n: usize) {
        c.apply_keystream_blocks_inout(InOutBuf::new(unsafe { sl(i, n) }, unsafe { slm(o, n) }).unwrap())
    }
    fn sc8_seq(c: &mut S8, ops: *const u8, nops: usize, out: *mut Blk<S8>, nblk: usize) {
        c.process_with_backend(Seq::<BS<S8>> { ops: unsafe { sl(ops, nops) }, out: unsafe { slm(out, nblk) } })
    }
    fn sc8_step(c: &mut S8, op: u8, out: *mut Blk<S8>, nblk: usize, load: *const u8, before: *mut u8, after: *mut u8) -> usize {
        let mut n = 0usize;
        c.process_with_backend(Step::<BS<S8>> { op, out: unsafe { slm(out, nblk) }, load, before, after, size: &mut n });
        n
    }
    fn sc8_par(c: &mut S8) -> usize {
        let mut n = 0usize;
        c.process_with_backend(ParN::<BS<S8>>(&mut n, core::marker::PhantomData));
        n
    }
    fn sc8_partial(c: *mut S8, buf: *mut u8, n: usize) -> u8 {
        let c = unsafe { core::ptr::read(c) };
        c.try_apply_keystream_partial(unsafe { slm(buf, n) }.into()).is_ok() as u8
    }
    fn sc8_drop(c: *mut S8) { unsafe { core::ptr::drop_in_place(c) } }
    fn sc8_dropst(c: *mut S8) { let mut x = unsafe { core::ptr::read(c) }; vp_touch(&raw mut x as *mut u8, core::mem::size_of::<S8>()); }
    fn sc8_dbg(c: &S8, f: &mut Fmt) -> u8 { (&P(c)).d(f) }
    fn sc8_dbgs(c: &S8, o: *mut u8, cap: usize, alt: u8) -> usize { (&P(c)).ds(Sink { p: o, n: 0, cap }, alt) }
}

ent! {
    fn sc8_getpos(c: &S8) -> u64 { StreamCipherSeekCore::get_block_pos(c) }
    fn sc8_setpos(c: &mut S8, pos: u64) { StreamCipherSeekCore::set_block_pos(c, pos) }
}

ent! {
    fn sc8_new(out: &mut MaybeUninit<S8>, key: &cipher::Key<S8>, iv: &cipher::Iv<S8>) { out.write(<S8 as KeyIvInit>::new(key, iv)); }
    fn sc8_newsl(out: &mut MaybeUninit<S8>, key: *const u8, kl: usize, iv: *const u8, il: usize) -> u8 {
        match <S8 as KeyIvInit>::new_from_slices(unsafe { sl(key, kl) }, unsafe { sl(iv, il) }) { Ok(c) => { out.write(c); 1 } Err(_) => 0 }
    }
}

ent! {
    fn sc8_raw(out: &mut MaybeUninit<S8>, st: &[u32; 16]) { out.write(S8::from_raw_state(*st)); }
    fn hs8(key: &Key, inp: &Array<u8, cipher::consts::U16>, out: &mut Array<u8, cipher::consts::U32>) { *out = hsalsa::<cipher::consts::U4>(key, inp); }
}
type XS8 = XSalsaCore<cipher::consts::U4>;
ent! {
    fn xs8_size() -> usize { core::mem::size_of::<XS8>() }
    fn xs8_align() -> usize { core::mem::align_of::<XS8>() }
    fn xs8_rem(c: &XS8, out: &mut usize) -> u8 { match c.remaining_blocks() { Some(n) => { *out = n; 1 } None => 0 } }
    fn xs8_wblock(c: &mut XS8, out: &mut Blk<XS8>) { c.write_keystream_block(out) }
    fn xs8_wblocks(c: &mut XS8, out: *mut Blk<XS8>, n: usize) { c.write_keystream_blocks(unsafe { slm(out, n) }) }
    fn xs8_ablocks(c: &mut XS8, buf: *mut Blk<XS8>, n: usize) { c.apply_keystream_blocks(unsafe { slm(buf, n) }) }
    fn xs8_aio(c: &mut XS8, i: *const Blk<XS8>, o: *mut Blk<XS8>, n: usize) {
        c.apply_keystream_blocks_inout(InOutBuf::new(unsafe { sl(i, n) }, unsafe { slm(o, n) }).unwrap())
    }
    fn xs8_seq(c: &mut XS8, ops: *const u8, nops: usize, out: *mut Blk<XS8>, nblk: usize) {
        c.process_with_backend(Seq::<BS<XS8>> { ops: unsafe { sl(ops, nops) }, out: unsafe { slm(out, nblk) } })
    }
    fn xs8_step(c: &mut XS8, op: u8, out: *mut Blk<XS8>, nblk: usize, load: *const u8, before: *mut u8, after: *mut u8) -> usize {
        let mut n = 0usize;
        c.process_with_backend(Step::<BS<XS8>> { op, out: unsafe { slm(out, nblk) }, load, before, after, size: &mut n });
        n
    }
    fn xs8_par(c: &mut XS8) -> usize {
        let mut n = 0usize;
        c.process_with_backend(ParN::<BS<XS8>>(&mut n, core::marker::PhantomData));
        n
    }
    fn xs8_partial(c: *mut XS8, buf: *mut u8, n: usize) -> u8 {
        let c = unsafe { core::ptr::read(c) };
        c.try_apply_keystream_partial(unsafe { slm(buf, n) }.into()).is_ok() as u8
    }
    fn xs8_drop(c: *mut XS8) { unsafe { core::ptr::drop_in_place(c) } }
    fn xs8_dropst(c: *mut XS8) { let mut x = unsafe { core::ptr::read(c) }; vp_touch(&raw mut x as *mut u8, core::mem::size_of::<XS8>()); }
    fn xs8_dbg(c: &XS8, f: &mut Fmt) -> u8 { (&P(c)).d(f) }
    fn xs8_dbgs(c: &XS8, o: *mut u8, cap: usize, alt: u8) -> usize { (&P(c)).ds(Sink { p: o, n: 0, cap }, alt) }
}

ent! {
    fn xs8_getpos(c: &XS8) -> u64 { StreamCipherSeekCore::get_block_pos(c) }
    fn xs8_setpos(c: &mut XS8, pos: u64) { StreamCipherSeekCore::set_block_pos(c, pos) }
}

ent! {
    fn xs8_new(out: &mut MaybeUninit<XS8>, key: &cipher::Key<XS8>, iv: &cipher::Iv<XS8>) { out.write(<XS8 as KeyIvInit>::new(key, iv)); }
    fn xs8_newsl(out: &mut MaybeUninit<XS8>, key: *const u8, kl: usize, iv: *const u8, il: usize) -> u8 {
        match <XS8 as KeyIvInit>::new_from_slices(unsafe { sl(key, kl) }, unsafe { sl(iv, il) }) { Ok(c) => { out.write(c); 1 } Err(_) => 0 }
    }
}

ent! {
    fn ws8_size() -> usize { core::mem::size_of::<Salsa8>() }
    fn ws8_align() -> usize { core::mem::align_of::<Salsa8>() }
    fn ws8_apply(c: &mut Salsa8, buf: *mut u8, n: usize) -> u8 { c.try_apply_keystream(unsafe { slm(buf, n) }).is_ok() as u8 }
    fn ws8_b2b(c: &mut Salsa8, i: *const u8, o: *mut u8, n: usize) -> u8 { c.try_apply_keystream_b2b(unsafe { sl(i, n) }, unsafe { slm(o, n) }).is_ok() as u8 }
    fn ws8_wks(c: &mut Salsa8, o: *mut u8, n: usize) -> u8 { c.try_write_keystream(unsafe { slm(o, n) }).is_ok() as u8 }
    fn ws8_check(c: &Salsa8, n: usize) -> u8 { c.check_remaining(n).is_ok() as u8 }
    fn ws8_drop(c: *mut Salsa8) { unsafe { core::ptr::drop_in_place(c) } }
    fn ws8_dropst(c: *mut Salsa8) { let mut x = unsafe { core::ptr::read(c) }; vp_touch(&raw mut x as *mut u8, core::mem::size_of::<Salsa8>()); }
    fn ws8_dbg(c: &Salsa8, f: &mut Fmt) -> u8 { (&P(c)).d(f) }
    fn ws8_dbgs(c: &Salsa8, o: *mut u8, cap: usize, alt: u8) -> usize { (&P(c)).ds(Sink { p: o, n: 0, cap }, alt) }
}

ent! {
    fn ws8_seek64(c: &mut Salsa8, pos: u64) -> u8 { c.try_seek(pos).is_ok() as u8 }
    fn ws8_seek32(c: &mut Salsa8, pos: u32) -> u8 { c.try_seek(pos).is_ok() as u8 }
    fn ws8_seek128(c: &mut Salsa8, pos: &u128) -> u8 { c.try_seek(*pos).is_ok() as u8 }
    fn ws8_pos32(c: &Salsa8, out: &mut u32) -> u8 { match c.try_current_pos::<u32>() { Ok(p) => { *out = p; 1 } Err(_) => 0 } }
    fn ws8_pos64(c: &Salsa8, out: &mut u64) -> u8 { match c.try_current_pos::<u64>() { Ok(p) => { *out = p; 1 } Err(_) => 0 } }
    fn ws8_pos128(c: &Salsa8, out: &mut u128) -> u8 { match c.try_current_pos::<u128>() { Ok(p) => { *out = p; 1 } Err(_) => 0 } }
}

ent! {
    fn ws8_new(out: &mut MaybeUninit<Salsa8>, key: &cipher::Key<Salsa8>, iv: &cipher::Iv<Salsa8>) { out.write(<Salsa8 as KeyIvInit>::new(key, iv)); }
    fn ws8_newsl(out: &mut MaybeUninit<Salsa8>, key: *const u8, kl: usize, iv: *const u8, il: usize) -> u8 {
        match <Salsa8 as KeyIvInit>::new_from_slices(unsafe { sl(key, kl) }, unsafe { sl(iv, il) }) { Ok(c) => { out.write(c); 1 } Err(_) => 0 }
    }
}

ent! {
    fn wxs8_size() -> usize { core::mem::size_of::<XSalsa8>() }
    fn wxs8_align() -> usize { core::mem::align_of::<XSalsa8>() }
    fn wxs8_apply(c: &mut XSalsa8, buf: *mut u8, n: usize) -> u8 { c.try_apply_keystream(unsafe { slm(buf, n) }).is_ok() as u8 }
    fn wxs8_b2b(c: &mut XSalsa8, i: *const u8, o: *mut u8, n: usize) -> u8 { c.try_apply_keystream_b2b(unsafe { sl(i, n) }, unsafe { slm(o, n) }).is_ok() as u8 }
    fn wxs8_wks(c: &mut XSalsa8, o: *mut u8, n: usize) -> u8 { c.try_write_keystream(unsafe { slm(o, n) }).is_ok() as u8 }
    fn wxs8_check(c: &XSalsa8, n: usize) -> u8 { c.check_remaining(n).is_ok() as u8 }
    fn wxs8_drop(c: *mut XSalsa8) { unsafe { core::ptr::drop_in_place(c) } }
    fn wxs8_dropst(c: *mut XSalsa8) { let mut x = unsafe { core::ptr::read(c) }; vp_touch(&raw mut x as *mut u8, core::mem::size_of::<XSalsa8>()); }
    fn wxs8_dbg(c: &XSalsa8, f: &mut Fmt) -> u8 { (&P(c)).d(f) }
    fn wxs8_dbgs(c: &XSalsa8, o: *mut u8, cap: usize, alt: u8) -> usize { (&P(c)).ds(Sink { p: o, n: 0, cap }, alt) }
}

ent! {
    fn wxs8_seek64(c: &mut XSalsa8, pos: u64) -> u8 { c.try_seek(pos).is_ok() as u8 }
    fn wxs8_seek32(c: &mut XSalsa8, pos: u32) -> u8 { c.try_seek(pos).is_ok() as u8 }
    fn wxs8_seek128(c: &mut XSalsa8, pos: &u128) -> u8 { c.try_seek(*pos).is_ok() as u8 }
    fn wxs8_pos32(c: &XSalsa8, out: &mut u32) -> u8 { match c.try_current_pos::<u32>() { Ok(p) => { *out = p; 1 } Err(_) => 0 } }
    fn wxs8_pos64(c: &XSalsa8, out: &mut u64) -> u8 { match c.try_current_pos::<u64>() { Ok(p) => { *out = p; 1 } Err(_) => 0 } }
    fn wxs8_pos128(c: &XSalsa8, out: &mut u128) -> u8 { match c.try_current_pos::<u128>() { Ok(p) => { *out = p; 1 } Err(_) => 0 } }
}

ent! {
    fn wxs8_new(out: &mut MaybeUninit<XSalsa8>, key: &cipher::Key<XSalsa8>, iv: &cipher::Iv<XSalsa8>) { out.write(<XSalsa8 as KeyIvInit>::new(key, iv)); }
    fn wxs8_newsl(out: &mut MaybeUninit<XSalsa8>, key: *const u8, kl: usize, iv: *const u8, il: usize) -> u8 {
        match <XSalsa8 as KeyIvInit>::new_from_slices(unsafe { sl(key, kl) }, unsafe { sl(iv, il) }) { Ok(c) => { out.write(c); 1 } Err(_) => 0 }
    }
}

type S12 = SalsaCore<cipher::consts::U6>;
ent! {
    fn sc12_size() -> usize { core::mem::size_of::<S12>() }
    fn sc12_align() -> usize { core::mem::align_of::<S12>() }
    fn sc12_rem(c: &S12, out: &mut usize) -> u8 { match c.remaining_blocks() { Some(n) => { *out = n; 1 } None => 0 } }
    fn sc12_wblock(c: &mut S12, out: &mut Blk<S12>) { c.write_keystream_block(out) }
    fn sc12_wblocks(c: &mut S12, out: *mut Blk<S12>, n: usize) { c.write_keystream_blocks(unsafe { slm(out, n) }) }
    fn sc12_ablocks(c: &mut S12, buf: *mut Blk<S12>, n: usize) { c.apply_keystream_blocks(unsafe { slm(buf, n) }) }
    fn sc12_aio(c: &mut S12, i: *const Blk<S12>, o: *mut Blk<S12>, n: usize) {
        c.apply_keystream_blocks_inout(InOutBuf::new(unsafe { sl(i, n) }, unsafe { slm(o, n) }).unwrap())
    }
    fn sc12_seq(c: &mut S12, ops: *const u8, nops: usize, out: *mut Blk<S12>, nblk: usize) {
        c.process_with_backend(Seq::<BS<S12>> { ops: unsafe { sl(ops, nops) }, out: unsafe { slm(out, nblk) } })
    }
    fn sc12_step(c: &mut S12, op: u8, out: *mut Blk<S12>, nblk: usize, load: *const u8, before: *mut u8, after: *mut u8) -> usize {
        let mut n = 0usize;
        c.process_with_backend(Step::<BS<S12>> { op, out: unsafe { slm(out, nblk) }, load, before, after, size: &mut n });
        n
    }
    fn sc12_par(c: &mut S12) -> usize {
        let mut n = 0usize;
        c.process_with_backend(ParN::<BS<S12>>(&mut n, core::marker::PhantomData));
        n
    }
    fn sc12_partial(c: *mut S12, buf: *mut u8, n: usize) -> u8 {
        let c = unsafe { core::ptr::read(c) };
        c.try_apply_keystream_partial(unsafe { slm(buf, n) }.into()).is_ok() as u8
    }
    fn sc12_drop(c: *mut S12) { unsafe { core::ptr::drop_in_place(c) } }
    fn sc12_dropst(c: *mut S12) { let mut x = unsafe { core::ptr::read(c) }; vp_touch(&raw mut x as *mut u8, core::mem::size_of::<S12>()); }
    fn sc12_dbg(c: &S12, f: &mut Fmt) -> u8 { (&P(c)).d(f) }
    fn sc12_dbgs(c: &S12, o: *mut u8, cap: usize, alt: u8) -> usize { (&P(c)).ds(Sink { p: o, n: 0, cap }, alt) }
}

ent! {
    fn sc12_getpos(c: &S12) -> u64 { StreamCipherSeekCore::get_block_pos(c) }
    fn sc12_setpos(c: &mut S12, pos: u64) { StreamCipherSeekCore::set_block_pos(c, pos) }
}

ent! {
    fn sc12_new(out: &mut MaybeUninit<S12>, key: &cipher::Key<S12>, iv: &cipher::Iv<S12>) { out.write(<S12 as KeyIvInit>::new(key, iv)); }
    fn sc12_newsl(out: &mut MaybeUninit<S12>, key: *const u8, kl: usize, iv: *const u8, il: usize) -> u8 {
        match <S12 as KeyIvInit>::new_from_slices(unsafe { sl(key, kl) }, unsafe { sl(iv, il) }) { Ok(c) => { out.write(c); 1 } Err(_) => 0 }
    }
}

ent! {
    fn sc12_raw(out: &mut MaybeUninit<S12>, st: &[u32; 16]) { out.write(S12::from_raw_state(*st)); }
    fn hs12(key: &Key, inp: &Array<u8, cipher::consts::U16>, out: &mut Array<u8, cipher::consts::U32>) { *out = hsalsa::<cipher::consts::U6>(key, inp); }
}
type XS12 = XSalsaCore<cipher::consts::U6>;
ent! {
    fn xs12_size() -> usize { core::mem::size_of::<XS12>() }
    fn xs12_align() -> usize { core::mem::align_of::<XS12>() }
    fn xs12_rem(c: &XS12, out: &mut usize) -> u8 { match c.remaining_blocks() { Some(n) => { *out = n; 1 } None => 0 } }
    fn xs12_wblock(c: &mut XS12, out: &mut Blk<XS12>) { c.write_keystream_block(out) }
    fn xs12_wblocks(c: &mut XS12, out: *mut Blk<XS12>, n: usize) { c.write_keystream_blocks(unsafe { slm(out, n) }) }
    fn xs12_ablocks(c: &mut XS12, buf: *mut Blk<XS12>, n: usize) { c.apply_keystream_blocks(unsafe { slm(buf, n) }) }
    fn xs12_aio(c: &mut XS12, i: *const Blk<XS12>, o: *mut Blk<XS12>, n: usize) {
        c.apply_keystream_blocks_inout(InOutBuf::new(unsafe { sl(i, n) }, unsafe { slm(o, n) }).unwrap())
    }
    fn xs12_seq(c: &mut XS12, ops: *const u8, nops: usize, out: *mut Blk<XS12>, nblk: usize) {
        c.process_with_backend(Seq::<BS<XS12>> { ops: unsafe { sl(ops, nops) }, out: unsafe { slm(out, nblk) } })
    }
    fn xs12_step(c: &mut XS12, op: u8, out: *mut Blk<XS12>, nblk: usize, load: *const u8, before: *mut u8, after: *mut u8) -> usize {
        let mut n = 0usize;
        c.process_with_backend(Step::<BS<XS12>> { op, out: unsafe { slm(out, nblk) }, load, before, after, size: &mut n });
        n
    }
    fn xs12_par(c: &mut XS12) -> usize {
        let mut n = 0usize;
        c.process_with_backend(ParN::<BS<XS12>>(&mut n, core::marker::PhantomData));
        n
    }
    fn xs12_partial(c: *mut XS12, buf: *mut u8, n: usize) -> u8 {
        let c = unsafe { core::ptr::read(c) };
        c.try_apply_keystream_partial(unsafe { slm(buf, n) }.into()).is_ok() as u8
    }
    fn xs12_drop(c: *mut XS12) { unsafe { core::ptr::drop_in_place(c) } }
    fn xs12_dropst(c: *mut XS12) { let mut x = unsafe { core::ptr::read(c) }; vp_touch(&raw mut x as *mut u8, core::mem::size_of::<XS12>()); }
    fn xs12_dbg(c: &XS12, f: &mut Fmt) -> u8 { (&P(c)).d(f) }
    fn xs12_dbgs(c: &XS12, o: *mut u8, cap: usize, alt: u8) -> usize { (&P(c)).ds(Sink { p: o, n: 0, cap }, alt) }
}

ent! {
    fn xs12_getpos(c: &XS12) -> u64 { StreamCipherSeekCore::get_block_pos(c) }
    fn xs12_setpos(c: &mut XS12, pos: u64) { StreamCipherSeekCore::set_block_pos(c, pos) }
}

ent! {
    fn xs12_new(out: &mut MaybeUninit<XS12>, key: &cipher::Key<XS12>, iv: &cipher::Iv<XS12>) { out.write(<XS12 as KeyIvInit>::new(key, iv)); }
    fn xs12_newsl(out: &mut MaybeUninit<XS12>, key: *const u8, kl: usize, iv: *const u8, il: usize) -> u8 {
        match <XS12 as KeyIvInit>::new_from_slices(unsafe { sl(key, kl) }, unsafe { sl(iv, il) }) { Ok(c) => { out.write(c); 1 } Err(_) => 0 }
    }
}

ent! {
    fn ws12_size() -> usize { core::mem::size_of::<Salsa12>() }
    fn ws12_align() -> usize { core::mem::align_of::<Salsa12>() }
    fn ws12_apply(c: &mut Salsa12, buf: *mut u8, n: usize) -> u8 { c.try_apply_keystream(unsafe { slm(buf, n) }).is_ok() as u8 }
    fn ws12_b2b(c: &mut Salsa12, i: *const u8, o: *mut u8, n: usize) -> u8 { c.try_apply_keystream_b2b(unsafe { sl(i, n) }, unsafe { slm(o, n) }).is_ok() as u8 }
    fn ws12_wks(c: &mut Salsa12, o: *mut u8, n: usize) -> u8 { c.try_write_keystream(unsafe { slm(o, n) }).is_ok() as u8 }
    fn ws12_check(c: &Salsa12, n: usize) -> u8 { c.check_remaining(n).is_ok() as u8 }
    fn ws12_drop(c: *mut Salsa12) { unsafe { core::ptr::drop_in_place(c) } }
    fn ws12_dropst(c: *mut Salsa12) { let mut x = unsafe { core::ptr::read(c) }; vp_touch(&raw mut x as *mut u8, core::mem::size_of::<Salsa12>()); }
    fn ws12_dbg(c: &Salsa12, f: &mut Fmt) -> u8 { (&P(c)).d(f) }
    fn ws12_dbgs(c: &Salsa12, o: *mut u8, cap: usize, alt: u8) -> usize { (&P(c)).ds(Sink { p: o, n: 0, cap }, alt) }
}

ent! {
    fn ws12_seek64(c: &mut Salsa12, pos: u64) -> u8 { c.try_seek(pos).is_ok() as u8 }
    fn ws12_seek32(c: &mut Salsa12, pos: u32) -> u8 { c.try_seek(pos).is_ok() as u8 }
    fn ws12_seek128(c: &mut Salsa12, pos: &u128) -> u8 { c.try_seek(*pos).is_ok() as u8 }
    fn ws12_pos32(c: &Salsa12, out: &mut u32) -> u8 { match c.try_current_pos::<u32>() { Ok(p) => { *out = p; 1 } Err(_) => 0 } }
    fn ws12_pos64(c: &Salsa12, out: &mut u64) -> u8 { match c.try_current_pos::<u64>() { Ok(p) => { *out = p; 1 } Err(_) => 0 } }
    fn ws12_pos128(c: &Salsa12, out: &mut u128) -> u8 { match c.try_current_pos::<u128>() { Ok(p) => { *out = p; 1 } Err(_) => 0 } }
}

ent! {
    fn ws12_new(out: &mut MaybeUninit<Salsa12>, key: &cipher::Key<Salsa12>, iv: &cipher::Iv<Salsa12>) { out.write(<Salsa12 as KeyIvInit>::new(key, iv)); }
    fn ws12_newsl(out: &mut MaybeUninit<Salsa12>, key: *const u8, kl: usize, iv: *const u8, il: usize) -> u8 {
        match <Salsa12 as KeyIvInit>::new_from_slices(unsafe { sl(key, kl) }, unsafe { sl(iv, il) }) { Ok(c) => { out.write(c); 1 } Err(_) => 0 }
    }
}

ent! {
    fn wxs12_size() -> usize { core::mem::size_of::<XSalsa12>() }
    fn wxs12_align() -> usize { core::mem::align_of::<XSalsa12>() }
    fn wxs12_apply(c: &mut XSalsa12, buf: *mut u8, n: usize) -> u8 { c.try_apply_keystream(unsafe { slm(buf, n) }).is_ok() as u8 }
    fn wxs12_b2b(c: &mut XSalsa12, i: *const u8, o: *mut u8, n: usize) -> u8 { c.try_apply_keystream_b2b(unsafe { sl(i, n) }, unsafe { slm(o, n) }).is_ok() as u8 }
    fn wxs12_wks(c: &mut XSalsa12, o: *mut u8, n: usize) -> u8 { c.try_write_keystream(unsafe { slm(o, n) }).is_ok() as u8 }
    fn wxs12_check(c: &XSalsa12, n: usize) -> u8 { c.check_remaining(n).is_ok() as u8 }
    fn wxs12_drop(c: *mut XSalsa12) { unsafe { core::ptr::drop_in_place(c) } }
    fn wxs12_dropst(c: *mut XSalsa12) { let mut x = unsafe { core::ptr::read(c) }; vp_touch(&raw mut x as *mut u8, core::mem::size_of::<XSalsa12>()); }
    fn wxs12_dbg(c: &XSalsa12, f: &mut Fmt) -> u8 { (&P(c)).d(f) }
    fn wxs12_dbgs(c: &XSalsa12, o: *mut u8, cap: usize, alt: u8) -> usize { (&P(c)).ds(Sink { p: o, n: 0, cap }, alt) }
}

ent! {
    fn wxs12_seek64(c: &mut XSalsa12, pos: u64) -> u8 { c.try_seek(pos).is_ok() as u8 }
    fn wxs12_seek32(c: &mut XSalsa12, pos: u32) -> u8 { c.try_seek(pos).is_ok() as u8 }
    fn wxs12_seek128(c: &mut XSalsa12, pos: &u128) -> u8 { c.try_seek(*pos).is_ok() as u8 }
    fn wxs12_pos32(c: &XSalsa12, out: &mut u32) -> u8 { match c.try_current_pos::<u32>() { Ok(p) => { *out = p; 1 } Err(_) => 0 } }
    fn wxs12_pos64(c: &XSalsa12, out: &mut u64) -> u8 { match c.try_current_pos::<u64>() { Ok(p) => { *out = p; 1 } Err(_) => 0 } }
    fn wxs12_pos128(c: &XSalsa12, out: &mut u128) -> u8 { match c.try_current_pos::<u128>() { Ok(p) => { *out = p; 1 } Err(_) => 0 } }
}

ent! {
    fn wxs12_new(out: &mut MaybeUninit<XSalsa12>, key: &cipher::Key<XSalsa12>, iv: &cipher::Iv<XSalsa12>) { out.write(<XSalsa12 as KeyIvInit>::new(key, iv)); }
    fn wxs12_newsl(out: &mut MaybeUninit<XSalsa12>, key: *const u8, kl: usize, iv: *const u8, il: usize) -> u8 {
        match <XSalsa12 as KeyIvInit>::new_from_slices(unsafe { sl(key, kl) }, unsafe { sl(iv, il) }) { Ok(c) => { out.write(c); 1 } Err(_) => 0 }
    }
}

type S20 = SalsaCore<cipher::consts::U10>;
ent! {
    fn sc20_size() -> usize { core::mem::size_of::<S20>() }
    fn sc20_align() -> usize { core::mem::align_of::<S20>() }
    fn sc20_rem(c: &S20, out: &mut usize) -> u8 { match c.remaining_blocks() { Some(n) => { *out = n; 1 } None => 0 } }
    fn sc20_wblock(c: &mut S20, out: &mut Blk<S20>) { c.write_keystream_block(out) }
    fn sc20_wblocks(c: &mut S20, out: *mut Blk<S20>, n: usize) { c.write_keystream_blocks(unsafe { slm(out, n) }) }
    fn sc20_ablocks(c: &mut S20, buf: *mut Blk<S20>, n: usize) { c.apply_keystream_blocks(unsafe { slm(buf, n) }) }
    fn sc20_aio(c: &mut S20, i: *const Blk<S20>, o: *mut Blk<S20>, n: usize) {
        c.apply_keystream_blocks_inout(InOutBuf::new(unsafe { sl(i, n) }, unsafe { slm(o, n) }).unwrap())
    }
    fn sc20_seq(c: &mut S20, ops: *const u8, nops: usize, out: *mut Blk<S20>, nblk: usize) {
        c.process_with_backend(Seq::<BS<S20>> { ops: unsafe { sl(ops, nops) }, out: unsafe { slm(out, nblk) } })
    }
    fn sc20_step(c: &mut S20, op: u8, out: *mut Blk<S20>, nblk: usize, load: *const u8, before: *mut u8, after: *mut u8) -> usize {
        let mut n = 0usize;
        c.process_with_backend(Step::<BS<S20>> { op, out: unsafe { slm(out, nblk) }, load, before, after, size: &mut n });
        n
    }
    fn sc20_par(c: &mut S20) -> usize {
        let mut n = 0usize;
        c.process_with_backend(ParN::<BS<S20>>(&mut n, core::marker::PhantomData));
        n
    }
    fn sc20_partial(c: *mut S20, buf: *mut u8, n: usize) -> u8 {
        let c = unsafe { core::ptr::read(c) };
        c.try_apply_keystream_partial(unsafe { slm(buf, n) }.into()).is_ok() as u8
    }
    fn sc20_drop(c: *mut S20) { unsafe { core::ptr::drop_in_place(c) } }
    fn sc20_dropst(c: *mut S20) { let mut x = unsafe { core::ptr::read(c) }; vp_touch(&raw mut x as *mut u8, core::mem::size_of::<S20>()); }
    fn sc20_dbg(c: &S20, f: &mut Fmt) -> u8 { (&P(c)).d(f) }
    fn sc20_dbgs(c: &S20, o: *mut u8, cap: usize, alt: u8) -> usize { (&P(c)).ds(Sink { p: o, n: 0, cap }, alt) }
}

ent! {
    fn sc20_getpos(c: &S20) -> u64 { StreamCipherSeekCore::get_block_pos(c) }
    fn sc20_setpos(c: &mut S20, pos: u64) { StreamCipherSeekCore::set_block_pos(c, pos) }
}

ent! {
    fn sc20_new(out: &mut MaybeUninit<S20>, key: &cipher::Key<S20>, iv: &cipher::Iv<S20>) { out.write(<S20 as KeyIvInit>::new(key, iv)); }
    fn sc20_newsl(out: &mut MaybeUninit<S20>, key: *const u8, kl: usize, iv: *const u8, il: usize) -> u8 {
        match <S20 as KeyIvInit>::new_from_slices(unsafe { sl(key, kl) }, unsafe { sl(iv, il) }) { Ok(c) => { out.write(c); 1 } Err(_) => 0 }
    }
}

ent! {
    fn sc20_raw(out: &mut MaybeUninit<S20>, st: &[u32; 16]) { out.write(S20::from_raw_state(*st)); }
    fn hs20(key: &Key, inp: &Array<u8, cipher::consts::U16>, out: &mut Array<u8, cipher::consts::U32>) { *out = hsalsa::<cipher::consts::U10>(key, inp); }
}
type XS20 = XSalsaCore<cipher::consts::U10>;
ent! {
    fn xs20_size() -> usize { core::mem::size_of::<XS20>() }
    fn xs20_align() -> usize { core::mem::align_of::<XS20>() }
    fn xs20_rem(c: &XS20, out: &mut usize) -> u8 { match c.remaining_blocks() { Some(n) => { *out = n; 1 } None => 0 } }
    fn xs20_wblock(c: &mut XS20, out: &mut Blk<XS20>) { c.write_keystream_block(out) }
    fn xs20_wblocks(c: &mut XS20, out: *mut Blk<XS20>, n: usize) { c.write_keystream_blocks(unsafe { slm(out, n) }) }
    fn xs20_ablocks(c: &mut XS20, buf: *mut Blk<XS20>, n: usize) { c.apply_keystream_blocks(unsafe { slm(buf, n) }) }
    fn xs20_aio(c: &mut XS20, i: *const Blk<XS20>, o: *mut Blk<XS20>, n: usize) {
        c.apply_keystream_blocks_inout(InOutBuf::new(unsafe { sl(i, n) }, unsafe { slm(o, n) }).unwrap())
    }
    fn xs20_seq(c: &mut XS20, ops: *const u8, nops: usize, out: *mut Blk<XS20>, nblk: usize) {
        c.process_with_backend(Seq::<BS<XS20>> { ops: unsafe { sl(ops, nops) }, out: unsafe { slm(out, nblk) } })
    }
    fn xs20_step(c: &mut XS20, op: u8, out: *mut Blk<XS20>, nblk: usize, load: *const u8, before: *mut u8, after: *mut u8) -> usize {
        let mut n = 0usize;
        c.process_with_backend(Step::<BS<XS20>> { op, out: unsafe { slm(out, nblk) }, load, before, after, size: &mut n });
        n
    }
    fn xs20_par(c: &mut XS20) -> usize {
        let mut n = 0usize;
        c.process_with_backend(ParN::<BS<XS20>>(&mut n, core::marker::PhantomData));
        n
    }
    fn xs20_partial(c: *mut XS20, buf: *mut u8, n: usize) -> u8 {
        let c = unsafe { core::ptr::read(c) };
        c.try_apply_keystream_partial(unsafe { slm(buf, n) }.into()).is_ok() as u8
    }
    fn xs20_drop(c: *mut XS20) { unsafe { core::ptr::drop_in_place(c) } }
    fn xs20_dropst(c: *mut XS20) { let mut x = unsafe { core::ptr::read(c) }; vp_touch(&raw mut x as *mut u8, core::mem::size_of::<XS20>()); }
    fn xs20_dbg(c: &XS20, f: &mut Fmt) -> u8 { (&P(c)).d(f) }
    fn xs20_dbgs(c: &XS20, o: *mut u8, cap: usize, alt: u8) -> usize { (&P(c)).ds(Sink { p: o, n: 0, cap }, alt) }
}

ent! {
    fn xs20_getpos(c: &XS20) -> u64 { StreamCipherSeekCore::get_block_pos(c) }
    fn xs20_setpos(c: &mut XS20, pos: u64) { StreamCipherSeekCore::set_block_pos(c, pos) }
}

ent! {
    fn xs20_new(out: &mut MaybeUninit<XS20>, key: &cipher::Key<XS20>, iv: &cipher::Iv<XS20>) { out.write(<XS20 as KeyIvInit>::new(key, iv)); }
    fn xs20_newsl(out: &mut MaybeUninit<XS20>, key: *const u8, kl: usize, iv: *const u8, il: usize) -> u8 {
        match <XS20 as KeyIvInit>::new_from_slices(unsafe { sl(key, kl) }, unsafe { sl(iv, il) }) { Ok(c) => { out.write(c); 1 } Err(_) => 0 }
    }
}

ent! {
    fn ws20_size() -> usize { core::mem::size_of::<Salsa20>() }
    fn ws20_align() -> usize { core::mem::align_of::<Salsa20>() }
    fn ws20_apply(c: &mut Salsa20, buf: *mut u8, n: usize) -> u8 { c.try_apply_keystream(unsafe { slm(buf, n) }).is_ok() as u8 }
    fn ws20_b2b(c: &mut Salsa20, i: *const u8, o: *mut u8, n: usize) -> u8 { c.try_apply_keystream_b2b(unsafe { sl(i, n) }, unsafe { slm(o, n) }).is_ok() as u8 }
    fn ws20_wks(c: &mut Salsa20, o: *mut u8, n: usize) -> u8 { c.try_write_keystream(unsafe { slm(o, n) }).is_ok() as u8 }
    fn ws20_check(c: &Salsa20, n: usize) -> u8 { c.check_remaining(n).is_ok() as u8 }
    fn ws20_drop(c: *mut Salsa20) { unsafe { core::ptr::drop_in_place(c) } }
    fn ws20_dropst(c: *mut Salsa20) { let mut x = unsafe { core::ptr::read(c) }; vp_touch(&raw mut x as *mut u8, core::mem::size_of::<Salsa20>()); }
    fn ws20_dbg(c: &Salsa20, f: &mut Fmt) -> u8 { (&P(c)).d(f) }
    fn ws20_dbgs(c: &Salsa20, o: *mut u8, cap: usize, alt: u8) -> usize { (&P(c)).ds(Sink { p: o, n: 0, cap }, alt) }
}

ent! {
    fn ws20_seek64(c: &mut Salsa20, pos: u64) -> u8 { c.try_seek(pos).is_ok() as u8 }
    fn ws20_seek32(c: &mut Salsa20, pos: u32) -> u8 { c.try_seek(pos).is_ok() as u8 }
    fn ws20_seek128(c: &mut Salsa20, pos: &u128) -> u8 { c.try_seek(*pos).is_ok() as u8 }
    fn ws20_pos32(c: &Salsa20, out: &mut u32) -> u8 { match c.try_current_pos::<u32>() { Ok(p) => { *out = p; 1 } Err(_) => 0 } }
    fn ws20_pos64(c: &Salsa20, out: &mut u64) -> u8 { match c.try_current_pos::<u64>() { Ok(p) => { *out = p; 1 } Err(_) => 0 } }
    fn ws20_pos128(c: &Salsa20, out: &mut u128) -> u8 { match c.try_current_pos::<u128>() { Ok(p) => { *out = p; 1 } Err(_) => 0 } }
}

ent! {
    fn ws20_new(out: &mut MaybeUninit<Salsa20>, key: &cipher::Key<Salsa20>, iv: &cipher::Iv<Salsa20>) { out.write(<Salsa20 as KeyIvInit>::new(key, iv)); }
    fn ws20_newsl(out: &mut MaybeUninit<Salsa20>, key: *const u8, kl: usize, iv: *const u8, il: usize) -> u8 {
        match <Salsa20 as KeyIvInit>::new_from_slices(unsafe { sl(key, kl) }, unsafe { sl(iv, il) }) { Ok(c) => { out.write(c); 1 } Err(_) => 0 }
    }
}

ent! {
    fn wxs20_size() -> usize { core::mem::size_of::<XSalsa20>() }
    fn wxs20_align() -> usize { core::mem::align_of::<XSalsa20>() }
    fn wxs20_apply(c: &mut XSalsa20, buf: *mut u8, n: usize) -> u8 { c.try_apply_keystream(unsafe { slm(buf, n) }).is_ok() as u8 }
    fn wxs20_b2b(c: &mut XSalsa20, i: *const u8, o: *mut u8, n: usize) -> u8 { c.try_apply_keystream_b2b(unsafe { sl(i, n) }, unsafe { slm(o, n) }).is_ok() as u8 }
    fn wxs20_wks(c: &mut XSalsa20, o: *mut u8, n: usize) -> u8 { c.try_write_keystream(unsafe { slm(o, n) }).is_ok() as u8 }
    fn wxs20_check(c: &XSalsa20, n: usize) -> u8 { c.check_remaining(n).is_ok() as u8 }
    fn wxs20_drop(c: *mut XSalsa20) { unsafe { core::ptr::drop_in_place(c) } }
    fn wxs20_dropst(c: *mut XSalsa20) { let mut x = unsafe { core::ptr::read(c) }; vp_touch(&raw mut x as *mut u8, core::mem::size_of::<XSalsa20>()); }
    fn wxs20_dbg(c: &XSalsa20, f: &mut Fmt) -> u8 { (&P(c)).d(f) }
    fn wxs20_dbgs(c: &XSalsa20, o: *mut u8, cap: usize, alt: u8) -> usize { (&P(c)).ds(Sink { p: o, n: 0, cap }, alt) }
}

ent! {
    fn wxs20_seek64(c: &mut XSalsa20, pos: u64) -> u8 { c.try_seek(pos).is_ok() as u8 }
    fn wxs20_seek32(c: &mut XSalsa20, pos: u32) -> u8 { c.try_seek(pos).is_ok() as u8 }
    fn wxs20_seek128(c: &mut XSalsa20, pos: &u128) -> u8 { c.try_seek(*pos).is_ok() as u8 }
    fn wxs20_pos32(c: &XSalsa20, out: &mut u32) -> u8 { match c.try_current_pos::<u32>() { Ok(p) => { *out = p; 1 } Err(_) => 0 } }
    fn wxs20_pos64(c: &XSalsa20, out: &mut u64) -> u8 { match c.try_current_pos::<u64>() { Ok(p) => { *out = p; 1 } Err(_) => 0 } }
    fn wxs20_pos128(c: &XSalsa20, out: &mut u128) -> u8 { match c.try_current_pos::<u128>() { Ok(p) => { *out = p; 1 } Err(_) => 0 } }
}

ent! {
    fn wxs20_new(out: &mut MaybeUninit<XSalsa20>, key: &cipher::Key<XSalsa20>, iv: &cipher::Iv<XSalsa20>) { out.write(<XSalsa20 as KeyIvInit>::new(key, iv)); }
    fn wxs20_newsl(out: &mut MaybeUninit<XSalsa20>, key: *const u8, kl: usize, iv: *const u8, il: usize) -> u8 {
        match <XSalsa20 as KeyIvInit>::new_from_slices(unsafe { sl(key, kl) }, unsafe { sl(iv, il) }) { Ok(c) => { out.write(c); 1 } Err(_) => 0 }
    }
}
