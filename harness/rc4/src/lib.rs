// generated by gen.py -- do not edit
#![allow(clippy::all, unused_imports, unused_macros, dead_code)]
use core::mem::MaybeUninit;

type Fmt = core::fmt::Formatter<'static>;

/// calls `Debug::fmt` when the type has it (2 = the type has no Debug)
struct P<'a, T>(&'a T);
trait ViaDebug { fn d(&self, f: &mut Fmt) -> u8; fn ds(&self, s: Sink, alt: u8) -> usize; }
impl<T: core::fmt::Debug> ViaDebug for P<'_, T> {
    #[inline(always)]
    fn d(&self, f: &mut Fmt) -> u8 { core::fmt::Debug::fmt(self.0, f).is_ok() as u8 }
    #[inline(always)]
    fn ds(&self, mut s: Sink, alt: u8) -> usize {
        use core::fmt::Write;
        let r = if alt != 0 { write!(s, "{:#?}", self.0) } else { write!(s, "{:?}", self.0) };
        if r.is_ok() { s.n } else { usize::MAX }
    }
}
trait ViaNone { fn d(&self, f: &mut Fmt) -> u8; fn ds(&self, s: Sink, alt: u8) -> usize; }
impl<T> ViaNone for &P<'_, T> {
    #[inline(always)]
    fn d(&self, _f: &mut Fmt) -> u8 { 2 }
    #[inline(always)]
    fn ds(&self, _s: Sink, _alt: u8) -> usize { 0 }
}
struct Sink { p: *mut u8, n: usize, cap: usize }
impl core::fmt::Write for Sink {
    fn write_str(&mut self, s: &str) -> core::fmt::Result {
        for b in s.bytes() {
            if self.n >= self.cap { return Err(core::fmt::Error); }
            unsafe { *self.p.add(self.n) = b; }
            self.n += 1;
        }
        Ok(())
    }
}
/// marks an object whose memory is inspected after it has been dropped
#[unsafe(no_mangle)]
#[inline(never)]
pub extern "C" fn vp_touch(p: *mut u8, n: usize) {
    unsafe { core::arch::asm!("/* {} {} */", in(reg) p, in(reg) n, options(nostack, preserves_flags)) }
}
macro_rules! ent {
    ($(fn $n:ident($($a:ident: $t:ty),* $(,)?) $(-> $r:ty)? $b:block)*) => {
        $(#[unsafe(no_mangle)] pub extern "C" fn $n($($a: $t),*) $(-> $r)? $b)*
    };
}
unsafe fn sl<'a, T>(p: *const T, n: usize) -> &'a [T] { unsafe { core::slice::from_raw_parts(p, n) } }
unsafe fn slm<'a, T>(p: *mut T, n: usize) -> &'a mut [T] { unsafe { core::slice::from_raw_parts_mut(p, n) } }
use rc4::{cipher, *};
use cipher::{StreamCipher, KeyInit, InOutBuf};

ent! {
    fn r4_size() -> usize { core::mem::size_of::<Rc4>() }
    fn r4_align() -> usize { core::mem::align_of::<Rc4>() }
    fn r4_apply(c: &mut Rc4, buf: *mut u8, n: usize) -> u8 { c.try_apply_keystream(unsafe { slm(buf, n) }).is_ok() as u8 }
    fn r4_b2b(c: &mut Rc4, i: *const u8, o: *mut u8, n: usize) -> u8 { c.try_apply_keystream_b2b(unsafe { sl(i, n) }, unsafe { slm(o, n) }).is_ok() as u8 }
    fn r4_wks(c: &mut Rc4, o: *mut u8, n: usize) -> u8 { c.try_write_keystream(unsafe { slm(o, n) }).is_ok() as u8 }
    fn r4_check(c: &Rc4, n: usize) -> u8 { c.check_remaining(n).is_ok() as u8 }
    fn r4_drop(c: *mut Rc4) { unsafe { core::ptr::drop_in_place(c) } }
    fn r4_dropst(c: *mut Rc4) { let mut x = unsafe { core::ptr::read(c) }; vp_touch(&raw mut x as *mut u8, core::mem::size_of::<Rc4>()); }
    fn r4_dbg(c: &Rc4, f: &mut Fmt) -> u8 { (&P(c)).d(f) }
    fn r4_dbgs(c: &Rc4, o: *mut u8, cap: usize, alt: u8) -> usize { (&P(c)).ds(Sink { p: o, n: 0, cap }, alt) }
}

ent! {
    fn r4_newsl(out: &mut MaybeUninit<Rc4>, key: *const u8, kl: usize) -> u8 {
        match <Rc4 as KeyInit>::new_from_slice(unsafe { sl(key, kl) }) { Ok(c) => { out.write(c); 1 } Err(_) => 0 }
    }
    fn r4_new(out: &mut MaybeUninit<Rc4>, key: &cipher::Key<Rc4>) { out.write(<Rc4 as KeyInit>::new(key)); }
}
