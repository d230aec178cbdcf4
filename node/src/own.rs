//! Calls through images that the library allocates itself (`alloc`, `to_fixed`, `from_mut`) instead of borrowed buffers,
//! and its own verdict on an image (`check_constraints`).
use crate::*;
use std::fmt::Debug;
use yuv::*;
pub const SRC: u32 = 1;
pub const DST: u32 = 2;
pub const CHECK: u32 = 4;
pub const FROM_MUT: u32 = 8;
/// check_constraints refuses an image that `alloc` made
pub const STATUS_OWN_CHECK: i32 = 210;
/// a plane that `alloc` made is not exactly the image's size or not blank, or a view of it is not the same image
pub const STATUS_OWN_ROOM: i32 = 211;
/// check_constraints refuses a good image or accepts a bad one
pub const STATUS_CHECK: i32 = 212;

type V<'a, T> = &'a [(&'a [T], u32)];
type M<'a, T> = &'a mut [(&'a mut [T], u32)];

fn fits(c: &RawCall, i: usize, len: usize, stride: u32) -> bool {
    let p = &c.planes[i];
    stride as usize >= p.row && len == stride as usize * p.rows
}
unsafe fn fill<T: Copy>(c: &RawCall, k: usize, m: M<T>) -> bool {
    for (i, (d, s)) in m.iter_mut().enumerate() {
        let p = &c.planes[k + i];
        if !fits(c, k + i, d.len(), *s) {
            return false;
        }
        if core::slice::from_raw_parts(d.as_ptr() as *const u8, core::mem::size_of_val(&**d)).iter().any(|b| *b != 0) {
            return false;
        }
        for y in 0..p.rows {
            d[y * *s as usize..][..p.row].copy_from_slice(core::slice::from_raw_parts((p.ptr as *const T).add(y * p.stride), p.row));
        }
    }
    true
}
unsafe fn fetch<T: Copy>(c: &RawCall, k: usize, v: V<T>) -> bool {
    for (i, (d, s)) in v.iter().enumerate() {
        let p = &c.planes[k + i];
        if !fits(c, k + i, d.len(), *s) {
            return false;
        }
        for y in 0..p.rows {
            core::ptr::copy_nonoverlapping(d[y * *s as usize..][..p.row].as_ptr(), (p.ptr as *mut T).add(y * p.stride), p.row);
        }
    }
    true
}

macro_rules! sources {
    ($mutf:ident, $srcf:ident, $m:ident, $f:ident, $alloc:expr, $sub:ident, $check:ident($($arg:ident)?), $view:expr, $($p:ident $s:ident),*) => {
        pub unsafe fn $mutf<T: Default + Copy + Debug + 'static>(c: &RawCall, mut im: $m<T>, k: usize, img: usize, $sub: YuvChromaSubsampling, mut f: impl FnMut(&mut $m<T>) -> i32) -> i32 {
            let _ = $sub;
            if c.own & CHECK != 0 && im.$check($($arg)?).is_err() != (c.bad >> img & 1 != 0) {
                return STATUS_CHECK;
            }
            if c.own & DST == 0 {
                return f(&mut im);
            }
            let mut o: $m<T> = $alloc(c, k, img, $sub);
            if o.$check($($arg)?).is_err() || (o.width, o.height) != (c.w[img], c.h[img]) {
                return STATUS_OWN_CHECK;
            }
            if !fill(c, k, &mut [$((o.$p.borrow_mut(), o.$s)),*]) {
                return STATUS_OWN_ROOM;
            }
            let r = f(&mut o);
            let v = o.to_fixed();
            if (v.width, v.height) != (c.w[img], c.h[img]) || !fetch(c, k, &[$((v.$p, v.$s)),*]) {
                return STATUS_OWN_ROOM;
            }
            r
        }
        pub unsafe fn $srcf<T: Default + Copy + Debug + 'static>(c: &RawCall, im: $f<T>, k: usize, img: usize, $sub: YuvChromaSubsampling, mut f: impl FnMut(&$f<T>) -> i32) -> i32 {
            let _ = $sub;
            if c.own & CHECK != 0 && im.$check($($arg)?).is_err() != (c.bad >> img & 1 != 0) {
                return STATUS_CHECK;
            }
            if c.own & SRC == 0 {
                return f(&im);
            }
            let mut o: $m<T> = $alloc(c, k, img, $sub);
            if !fill(c, k, &mut [$((o.$p.borrow_mut(), o.$s)),*]) {
                return STATUS_OWN_ROOM;
            }
            let v: $f<T> = $view(c, &o);
            if v.$check($($arg)?).is_err() {
                return STATUS_OWN_CHECK;
            }
            if (v.width, v.height) != (c.w[img], c.h[img]) || $(!fits(c, offset(stringify!($p), k), v.$p.len(), v.$s))||* {
                return STATUS_OWN_ROOM;
            }
            f(&v)
        }
    };
}
fn offset(plane: &str, k: usize) -> usize {
    k + match plane {
        "u_plane" | "uv_plane" => 1,
        "v_plane" => 2,
        _ => 0,
    }
}
fn planar<T: Default + Copy + Debug + 'static>(c: &RawCall, _: usize, i: usize, s: YuvChromaSubsampling) -> YuvPlanarImageMut<'static, T> {
    YuvPlanarImageMut::alloc(c.w[i], c.h[i], s)
}
fn biplanar<T: Default + Copy + Debug + 'static>(c: &RawCall, _: usize, i: usize, s: YuvChromaSubsampling) -> YuvBiPlanarImageMut<'static, T> {
    YuvBiPlanarImageMut::alloc(c.w[i], c.h[i], s)
}
fn gray<T: Default + Copy + Debug + 'static>(c: &RawCall, _: usize, i: usize, _: YuvChromaSubsampling) -> YuvGrayImageMut<'static, T> {
    YuvGrayImageMut::alloc(c.w[i], c.h[i])
}
/// the library has no `alloc` for packed images
fn packed<T: Default + Copy + Debug + 'static>(c: &RawCall, k: usize, i: usize, _: YuvChromaSubsampling) -> YuvPackedImageMut<'static, T> {
    let p = &c.planes[k];
    YuvPackedImageMut { yuy: BufferStoreMut::Owned(vec![T::default(); p.row * p.rows]), yuy_stride: p.row as u32, width: c.w[i], height: c.h[i] }
}
fn biplanar_view<'a, T: Default + Copy + Debug>(c: &RawCall, o: &'a YuvBiPlanarImageMut<'a, T>) -> YuvBiPlanarImage<'a, T> {
    if c.own & FROM_MUT != 0 { YuvBiPlanarImage::from_mut(o) } else { o.to_fixed() }
}
fn planar_view<'a, T: Default + Copy + Debug + 'static>(_: &RawCall, o: &'a YuvPlanarImageMut<'a, T>) -> YuvPlanarImage<'a, T> {
    o.to_fixed()
}
fn gray_view<'a, T: Default + Copy + Debug + 'static>(_: &RawCall, o: &'a YuvGrayImageMut<'a, T>) -> YuvGrayImage<'a, T> {
    o.to_fixed()
}
fn packed_view<'a, T: Default + Copy + Debug + 'static>(_: &RawCall, o: &'a YuvPackedImageMut<'a, T>) -> YuvPackedImage<'a, T> {
    o.to_fixed()
}
sources!(planar_mut, planar_src, YuvPlanarImageMut, YuvPlanarImage, planar, sub, check_constraints(sub), planar_view, y_plane y_stride, u_plane u_stride, v_plane v_stride);
sources!(biplanar_mut, biplanar_src, YuvBiPlanarImageMut, YuvBiPlanarImage, biplanar, sub, check_constraints(sub), biplanar_view, y_plane y_stride, uv_plane uv_stride);
sources!(gray_mut, gray_src, YuvGrayImageMut, YuvGrayImage, gray, sub, check_constraints(), gray_view, y_plane y_stride);
sources!(packed_mut, packed_src, YuvPackedImageMut, YuvPackedImage, packed, sub, check_constraints(), packed_view, yuy yuy_stride);

macro_rules! checked {
    ($srcf:ident, $f:ident, $sub:ident, $check:ident($($arg:ident)?)) => {
        pub unsafe fn $srcf<T: Default + Copy + Debug + 'static>(c: &RawCall, im: $f<T>, _k: usize, img: usize, $sub: YuvChromaSubsampling, mut f: impl FnMut(&$f<T>) -> i32) -> i32 {
            let _ = $sub;
            if c.own & CHECK != 0 && im.$check($($arg)?).is_err() != (c.bad >> img & 1 != 0) {
                return STATUS_CHECK;
            }
            f(&im)
        }
    };
}
checked!(planar_alpha_src, YuvPlanarImageWithAlpha, sub, check_constraints(sub));
checked!(gray_alpha_src, YuvGrayAlphaImage, sub, check_constraints());
checked!(ayuv_src, YuvPackedImage, sub, check_constraints444());
