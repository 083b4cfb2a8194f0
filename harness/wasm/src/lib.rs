//! The library as a 32-bit wasm module; wasmdrv.mjs plays scenarios on it.
#![no_std]
#![allow(static_mut_refs)]
use blitstr::*;

#[panic_handler]
fn panic(_: &core::panic::PanicInfo) -> ! {
    core::arch::wasm32::unreachable()
}

static mut FB: FrBuf = new_fr_buf();
static mut TEXT: [u8; 65536] = [0; 65536];
static mut CUR: [u32; 3] = [0; 3];

#[no_mangle]
pub extern "C" fn fb() -> *mut u32 {
    unsafe { FB.as_mut_ptr() }
}
#[no_mangle]
pub extern "C" fn text() -> *mut u8 {
    unsafe { TEXT.as_mut_ptr() }
}
#[no_mangle]
pub extern "C" fn cursor() -> *mut u32 {
    unsafe { CUR.as_mut_ptr() }
}
#[no_mangle]
pub extern "C" fn stripes() {
    unsafe { FB = new_fr_buf() }
}
fn rect(a: u32, b: u32, c: u32, d: u32) -> ClipRect {
    ClipRect { min: Pt { x: a as usize, y: b as usize }, max: Pt { x: c as usize, y: d as usize } }
}
#[no_mangle]
pub extern "C" fn paint(n: u32, x0: u32, y0: u32, x1: u32, y1: u32, st: u32) {
    unsafe {
        let s = core::str::from_utf8_unchecked(&TEXT[..n as usize]);
        let mut c = Cursor { pt: Pt { x: CUR[0] as usize, y: CUR[1] as usize }, line_height: CUR[2] as usize };
        let style = match st {
            0 => GlyphStyle::Small,
            1 => GlyphStyle::Regular,
            _ => GlyphStyle::Bold,
        };
        paint_str(&mut FB, rect(x0, y0, x1, y1), &mut c, style, s);
        CUR = [c.pt.x as u32, c.pt.y as u32, c.line_height as u32];
    }
}
#[no_mangle]
pub extern "C" fn clear(x0: u32, y0: u32, x1: u32, y1: u32) {
    unsafe { clear_region(&mut FB, rect(x0, y0, x1, y1)) }
}
#[no_mangle]
pub extern "C" fn demo_screen(n: u32) {
    unsafe {
        match n {
            0 => demo::sample_text(&mut FB),
            1 => demo::short_greeting(&mut FB),
            _ => demo::goose_poem(&mut FB),
        }
    }
}
