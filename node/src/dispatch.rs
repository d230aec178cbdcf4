// @generated by gen/gen_ops.py
use crate::*;
use yuv::*;
use core::f16;
type F = unsafe fn(&RawCall) -> i32;
pub static TABLE: [F; 597] = [
  |c| unsafe { ret(ab30_to_rgb8(ms::<u8>(c, 0), c.planes[0].stride as u32, bo(c), md::<u8>(c, 1), c.planes[1].stride as u32, c.w[0] as u32, c.h[0] as u32)) },
  |c| unsafe { ret(ar30_to_rgb8(ms::<u8>(c, 0), c.planes[0].stride as u32, bo(c), md::<u8>(c, 1), c.planes[1].stride as u32, c.w[0] as u32, c.h[0] as u32)) },
  |c| unsafe { ret(ar30_to_rgba8(ms::<u8>(c, 0), c.planes[0].stride as u32, bo(c), md::<u8>(c, 1), c.planes[1].stride as u32, c.w[0] as u32, c.h[0] as u32)) },
  |c| unsafe { own::ayuv_src(c, YuvPackedImage { yuy: ms::<u8>(c, 0), yuy_stride: c.planes[0].stride as u32, width: c.w[0], height: c.h[0] }, 0, 0, YuvChromaSubsampling::Yuv444, |i0: &YuvPackedImage<u8>| ret(ayuv_to_rgb(i0, md::<u8>(c, 1), c.planes[1].stride as u32, rng(c), mtx(c), c.flag != 0))) },
  |c| unsafe { own::ayuv_src(c, YuvPackedImage { yuy: ms::<u8>(c, 0), yuy_stride: c.planes[0].stride as u32, width: c.w[0], height: c.h[0] }, 0, 0, YuvChromaSubsampling::Yuv444, |i0: &YuvPackedImage<u8>| ret(ayuv_to_rgba(i0, md::<u8>(c, 1), c.planes[1].stride as u32, rng(c), mtx(c), c.flag != 0))) },
  |c| unsafe { ret(ba30_to_rgb8(ms::<u8>(c, 0), c.planes[0].stride as u32, bo(c), md::<u8>(c, 1), c.planes[1].stride as u32, c.w[0] as u32, c.h[0] as u32)) },
  |c| unsafe { ret(bgr_to_bgra(ms::<u8>(c, 0), c.planes[0].stride as u32, md::<u8>(c, 1), c.planes[1].stride as u32, c.w[0] as u32, c.h[0] as u32)) },
  |c| unsafe { own::planar_mut(c, YuvPlanarImageMut { y_plane: BufferStoreMut::Borrowed(md::<u8>(c, 0)), y_stride: c.planes[0].stride as u32, u_plane: BufferStoreMut::Borrowed(md::<u8>(c, 1)), u_stride: c.planes[1].stride as u32, v_plane: BufferStoreMut::Borrowed(md::<u8>(c, 2)), v_stride: c.planes[2].stride as u32, width: c.w[0], height: c.h[0] }, 0, 0, YuvChromaSubsampling::Yuv444, |i0: &mut YuvPlanarImageMut<u8>| ret(bgr_to_gbr(i0, ms::<u8>(c, 3), c.planes[3].stride as u32, rng(c)))) },
  |c| unsafe { ret(bgr_to_rgb(ms::<u8>(c, 0), c.planes[0].stride as u32, md::<u8>(c, 1), c.planes[1].stride as u32, c.w[0] as u32, c.h[0] as u32)) },
  |c| unsafe { ret(bgr_to_rgba(ms::<u8>(c, 0), c.planes[0].stride as u32, md::<u8>(c, 1), c.planes[1].stride as u32, c.w[0] as u32, c.h[0] as u32)) },
  |c| unsafe { own::planar_mut(c, YuvPlanarImageMut { y_plane: BufferStoreMut::Borrowed(md::<u8>(c, 0)), y_stride: c.planes[0].stride as u32, u_plane: BufferStoreMut::Borrowed(md::<u8>(c, 1)), u_stride: c.planes[1].stride as u32, v_plane: BufferStoreMut::Borrowed(md::<u8>(c, 2)), v_stride: c.planes[2].stride as u32, width: c.w[0], height: c.h[0] }, 0, 0, YuvChromaSubsampling::Yuv420, |i0: &mut YuvPlanarImageMut<u8>| ret(bgr_to_sharp_yuv420(i0, ms::<u8>(c, 3), c.planes[3].stride as u32, rng(c), mtx(c), gm(c)))) },
  |c| unsafe { own::planar_mut(c, YuvPlanarImageMut { y_plane: BufferStoreMut::Borrowed(md::<u8>(c, 0)), y_stride: c.planes[0].stride as u32, u_plane: BufferStoreMut::Borrowed(md::<u8>(c, 1)), u_stride: c.planes[1].stride as u32, v_plane: BufferStoreMut::Borrowed(md::<u8>(c, 2)), v_stride: c.planes[2].stride as u32, width: c.w[0], height: c.h[0] }, 0, 0, YuvChromaSubsampling::Yuv422, |i0: &mut YuvPlanarImageMut<u8>| ret(bgr_to_sharp_yuv422(i0, ms::<u8>(c, 3), c.planes[3].stride as u32, rng(c), mtx(c), gm(c)))) },
  |c| unsafe { own::planar_mut(c, YuvPlanarImageMut { y_plane: BufferStoreMut::Borrowed(md::<u8>(c, 0)), y_stride: c.planes[0].stride as u32, u_plane: BufferStoreMut::Borrowed(md::<u8>(c, 1)), u_stride: c.planes[1].stride as u32, v_plane: BufferStoreMut::Borrowed(md::<u8>(c, 2)), v_stride: c.planes[2].stride as u32, width: c.w[0], height: c.h[0] }, 0, 0, YuvChromaSubsampling::Yuv420, |i0: &mut YuvPlanarImageMut<u8>| ret(bgr_to_ycgco420(i0, ms::<u8>(c, 3), c.planes[3].stride as u32, rng(c)))) },
  |c| unsafe { own::planar_mut(c, YuvPlanarImageMut { y_plane: BufferStoreMut::Borrowed(md::<u8>(c, 0)), y_stride: c.planes[0].stride as u32, u_plane: BufferStoreMut::Borrowed(md::<u8>(c, 1)), u_stride: c.planes[1].stride as u32, v_plane: BufferStoreMut::Borrowed(md::<u8>(c, 2)), v_stride: c.planes[2].stride as u32, width: c.w[0], height: c.h[0] }, 0, 0, YuvChromaSubsampling::Yuv422, |i0: &mut YuvPlanarImageMut<u8>| ret(bgr_to_ycgco422(i0, ms::<u8>(c, 3), c.planes[3].stride as u32, rng(c)))) },
  |c| unsafe { own::planar_mut(c, YuvPlanarImageMut { y_plane: BufferStoreMut::Borrowed(md::<u8>(c, 0)), y_stride: c.planes[0].stride as u32, u_plane: BufferStoreMut::Borrowed(md::<u8>(c, 1)), u_stride: c.planes[1].stride as u32, v_plane: BufferStoreMut::Borrowed(md::<u8>(c, 2)), v_stride: c.planes[2].stride as u32, width: c.w[0], height: c.h[0] }, 0, 0, YuvChromaSubsampling::Yuv444, |i0: &mut YuvPlanarImageMut<u8>| ret(bgr_to_ycgco444(i0, ms::<u8>(c, 3), c.planes[3].stride as u32, rng(c)))) },
  |c| unsafe { own::gray_mut(c, YuvGrayImageMut { y_plane: BufferStoreMut::Borrowed(md::<u8>(c, 0)), y_stride: c.planes[0].stride as u32, width: c.w[0], height: c.h[0] }, 0, 0, YuvChromaSubsampling::Yuv444, |i0: &mut YuvGrayImageMut<u8>| ret(bgr_to_yuv400(i0, ms::<u8>(c, 1), c.planes[1].stride as u32, rng(c), mtx(c)))) },
  |c| unsafe { own::planar_mut(c, YuvPlanarImageMut { y_plane: BufferStoreMut::Borrowed(md::<u8>(c, 0)), y_stride: c.planes[0].stride as u32, u_plane: BufferStoreMut::Borrowed(md::<u8>(c, 1)), u_stride: c.planes[1].stride as u32, v_plane: BufferStoreMut::Borrowed(md::<u8>(c, 2)), v_stride: c.planes[2].stride as u32, width: c.w[0], height: c.h[0] }, 0, 0, YuvChromaSubsampling::Yuv420, |i0: &mut YuvPlanarImageMut<u8>| ret(bgr_to_yuv420(i0, ms::<u8>(c, 3), c.planes[3].stride as u32, rng(c), mtx(c), cm(c)))) },
  |c| unsafe { own::planar_mut(c, YuvPlanarImageMut { y_plane: BufferStoreMut::Borrowed(md::<u8>(c, 0)), y_stride: c.planes[0].stride as u32, u_plane: BufferStoreMut::Borrowed(md::<u8>(c, 1)), u_stride: c.planes[1].stride as u32, v_plane: BufferStoreMut::Borrowed(md::<u8>(c, 2)), v_stride: c.planes[2].stride as u32, width: c.w[0], height: c.h[0] }, 0, 0, YuvChromaSubsampling::Yuv422, |i0: &mut YuvPlanarImageMut<u8>| ret(bgr_to_yuv422(i0, ms::<u8>(c, 3), c.planes[3].stride as u32, rng(c), mtx(c), cm(c)))) },
  |c| unsafe { own::planar_mut(c, YuvPlanarImageMut { y_plane: BufferStoreMut::Borrowed(md::<u8>(c, 0)), y_stride: c.planes[0].stride as u32, u_plane: BufferStoreMut::Borrowed(md::<u8>(c, 1)), u_stride: c.planes[1].stride as u32, v_plane: BufferStoreMut::Borrowed(md::<u8>(c, 2)), v_stride: c.planes[2].stride as u32, width: c.w[0], height: c.h[0] }, 0, 0, YuvChromaSubsampling::Yuv444, |i0: &mut YuvPlanarImageMut<u8>| ret(bgr_to_yuv444(i0, ms::<u8>(c, 3), c.planes[3].stride as u32, rng(c), mtx(c), cm(c)))) },
  |c| unsafe { own::biplanar_mut(c, YuvBiPlanarImageMut { y_plane: BufferStoreMut::Borrowed(md::<u8>(c, 0)), y_stride: c.planes[0].stride as u32, uv_plane: BufferStoreMut::Borrowed(md::<u8>(c, 1)), uv_stride: c.planes[1].stride as u32, width: c.w[0], height: c.h[0] }, 0, 0, YuvChromaSubsampling::Yuv420, |i0: &mut YuvBiPlanarImageMut<u8>| ret(bgr_to_yuv_nv12(i0, ms::<u8>(c, 2), c.planes[2].stride as u32, rng(c), mtx(c), cm(c)))) },
  |c| unsafe { own::biplanar_mut(c, YuvBiPlanarImageMut { y_plane: BufferStoreMut::Borrowed(md::<u8>(c, 0)), y_stride: c.planes[0].stride as u32, uv_plane: BufferStoreMut::Borrowed(md::<u8>(c, 1)), uv_stride: c.planes[1].stride as u32, width: c.w[0], height: c.h[0] }, 0, 0, YuvChromaSubsampling::Yuv422, |i0: &mut YuvBiPlanarImageMut<u8>| ret(bgr_to_yuv_nv16(i0, ms::<u8>(c, 2), c.planes[2].stride as u32, rng(c), mtx(c), cm(c)))) },
  |c| unsafe { own::biplanar_mut(c, YuvBiPlanarImageMut { y_plane: BufferStoreMut::Borrowed(md::<u8>(c, 0)), y_stride: c.planes[0].stride as u32, uv_plane: BufferStoreMut::Borrowed(md::<u8>(c, 1)), uv_stride: c.planes[1].stride as u32, width: c.w[0], height: c.h[0] }, 0, 0, YuvChromaSubsampling::Yuv420, |i0: &mut YuvBiPlanarImageMut<u8>| ret(bgr_to_yuv_nv21(i0, ms::<u8>(c, 2), c.planes[2].stride as u32, rng(c), mtx(c), cm(c)))) },
  |c| unsafe { own::biplanar_mut(c, YuvBiPlanarImageMut { y_plane: BufferStoreMut::Borrowed(md::<u8>(c, 0)), y_stride: c.planes[0].stride as u32, uv_plane: BufferStoreMut::Borrowed(md::<u8>(c, 1)), uv_stride: c.planes[1].stride as u32, width: c.w[0], height: c.h[0] }, 0, 0, YuvChromaSubsampling::Yuv444, |i0: &mut YuvBiPlanarImageMut<u8>| ret(bgr_to_yuv_nv24(i0, ms::<u8>(c, 2), c.planes[2].stride as u32, rng(c), mtx(c), cm(c)))) },
  |c| unsafe { own::biplanar_mut(c, YuvBiPlanarImageMut { y_plane: BufferStoreMut::Borrowed(md::<u8>(c, 0)), y_stride: c.planes[0].stride as u32, uv_plane: BufferStoreMut::Borrowed(md::<u8>(c, 1)), uv_stride: c.planes[1].stride as u32, width: c.w[0], height: c.h[0] }, 0, 0, YuvChromaSubsampling::Yuv444, |i0: &mut YuvBiPlanarImageMut<u8>| ret(bgr_to_yuv_nv42(i0, ms::<u8>(c, 2), c.planes[2].stride as u32, rng(c), mtx(c), cm(c)))) },
  |c| unsafe { own::biplanar_mut(c, YuvBiPlanarImageMut { y_plane: BufferStoreMut::Borrowed(md::<u8>(c, 0)), y_stride: c.planes[0].stride as u32, uv_plane: BufferStoreMut::Borrowed(md::<u8>(c, 1)), uv_stride: c.planes[1].stride as u32, width: c.w[0], height: c.h[0] }, 0, 0, YuvChromaSubsampling::Yuv422, |i0: &mut YuvBiPlanarImageMut<u8>| ret(bgr_to_yuv_nv61(i0, ms::<u8>(c, 2), c.planes[2].stride as u32, rng(c), mtx(c), cm(c)))) },
  |c| unsafe { ret(bgra_to_bgr(ms::<u8>(c, 0), c.planes[0].stride as u32, md::<u8>(c, 1), c.planes[1].stride as u32, c.w[0] as u32, c.h[0] as u32)) },
  |c| unsafe { own::planar_mut(c, YuvPlanarImageMut { y_plane: BufferStoreMut::Borrowed(md::<u8>(c, 0)), y_stride: c.planes[0].stride as u32, u_plane: BufferStoreMut::Borrowed(md::<u8>(c, 1)), u_stride: c.planes[1].stride as u32, v_plane: BufferStoreMut::Borrowed(md::<u8>(c, 2)), v_stride: c.planes[2].stride as u32, width: c.w[0], height: c.h[0] }, 0, 0, YuvChromaSubsampling::Yuv444, |i0: &mut YuvPlanarImageMut<u8>| ret(bgra_to_gbr(i0, ms::<u8>(c, 3), c.planes[3].stride as u32, rng(c)))) },
  |c| unsafe { ret(bgra_to_rgb(ms::<u8>(c, 0), c.planes[0].stride as u32, md::<u8>(c, 1), c.planes[1].stride as u32, c.w[0] as u32, c.h[0] as u32)) },
  |c| unsafe { ret(bgra_to_rgba(ms::<u8>(c, 0), c.planes[0].stride as u32, md::<u8>(c, 1), c.planes[1].stride as u32, c.w[0] as u32, c.h[0] as u32)) },
  |c| unsafe { own::planar_mut(c, YuvPlanarImageMut { y_plane: BufferStoreMut::Borrowed(md::<u8>(c, 0)), y_stride: c.planes[0].stride as u32, u_plane: BufferStoreMut::Borrowed(md::<u8>(c, 1)), u_stride: c.planes[1].stride as u32, v_plane: BufferStoreMut::Borrowed(md::<u8>(c, 2)), v_stride: c.planes[2].stride as u32, width: c.w[0], height: c.h[0] }, 0, 0, YuvChromaSubsampling::Yuv420, |i0: &mut YuvPlanarImageMut<u8>| ret(bgra_to_sharp_yuv420(i0, ms::<u8>(c, 3), c.planes[3].stride as u32, rng(c), mtx(c), gm(c)))) },
  |c| unsafe { own::planar_mut(c, YuvPlanarImageMut { y_plane: BufferStoreMut::Borrowed(md::<u8>(c, 0)), y_stride: c.planes[0].stride as u32, u_plane: BufferStoreMut::Borrowed(md::<u8>(c, 1)), u_stride: c.planes[1].stride as u32, v_plane: BufferStoreMut::Borrowed(md::<u8>(c, 2)), v_stride: c.planes[2].stride as u32, width: c.w[0], height: c.h[0] }, 0, 0, YuvChromaSubsampling::Yuv422, |i0: &mut YuvPlanarImageMut<u8>| ret(bgra_to_sharp_yuv422(i0, ms::<u8>(c, 3), c.planes[3].stride as u32, rng(c), mtx(c), gm(c)))) },
  |c| unsafe { own::planar_mut(c, YuvPlanarImageMut { y_plane: BufferStoreMut::Borrowed(md::<u8>(c, 0)), y_stride: c.planes[0].stride as u32, u_plane: BufferStoreMut::Borrowed(md::<u8>(c, 1)), u_stride: c.planes[1].stride as u32, v_plane: BufferStoreMut::Borrowed(md::<u8>(c, 2)), v_stride: c.planes[2].stride as u32, width: c.w[0], height: c.h[0] }, 0, 0, YuvChromaSubsampling::Yuv420, |i0: &mut YuvPlanarImageMut<u8>| ret(bgra_to_ycgco420(i0, ms::<u8>(c, 3), c.planes[3].stride as u32, rng(c)))) },
  |c| unsafe { own::planar_mut(c, YuvPlanarImageMut { y_plane: BufferStoreMut::Borrowed(md::<u8>(c, 0)), y_stride: c.planes[0].stride as u32, u_plane: BufferStoreMut::Borrowed(md::<u8>(c, 1)), u_stride: c.planes[1].stride as u32, v_plane: BufferStoreMut::Borrowed(md::<u8>(c, 2)), v_stride: c.planes[2].stride as u32, width: c.w[0], height: c.h[0] }, 0, 0, YuvChromaSubsampling::Yuv422, |i0: &mut YuvPlanarImageMut<u8>| ret(bgra_to_ycgco422(i0, ms::<u8>(c, 3), c.planes[3].stride as u32, rng(c)))) },
  |c| unsafe { own::planar_mut(c, YuvPlanarImageMut { y_plane: BufferStoreMut::Borrowed(md::<u8>(c, 0)), y_stride: c.planes[0].stride as u32, u_plane: BufferStoreMut::Borrowed(md::<u8>(c, 1)), u_stride: c.planes[1].stride as u32, v_plane: BufferStoreMut::Borrowed(md::<u8>(c, 2)), v_stride: c.planes[2].stride as u32, width: c.w[0], height: c.h[0] }, 0, 0, YuvChromaSubsampling::Yuv444, |i0: &mut YuvPlanarImageMut<u8>| ret(bgra_to_ycgco444(i0, ms::<u8>(c, 3), c.planes[3].stride as u32, rng(c)))) },
  |c| unsafe { own::gray_mut(c, YuvGrayImageMut { y_plane: BufferStoreMut::Borrowed(md::<u8>(c, 0)), y_stride: c.planes[0].stride as u32, width: c.w[0], height: c.h[0] }, 0, 0, YuvChromaSubsampling::Yuv444, |i0: &mut YuvGrayImageMut<u8>| ret(bgra_to_yuv400(i0, ms::<u8>(c, 1), c.planes[1].stride as u32, rng(c), mtx(c)))) },
  |c| unsafe { own::planar_mut(c, YuvPlanarImageMut { y_plane: BufferStoreMut::Borrowed(md::<u8>(c, 0)), y_stride: c.planes[0].stride as u32, u_plane: BufferStoreMut::Borrowed(md::<u8>(c, 1)), u_stride: c.planes[1].stride as u32, v_plane: BufferStoreMut::Borrowed(md::<u8>(c, 2)), v_stride: c.planes[2].stride as u32, width: c.w[0], height: c.h[0] }, 0, 0, YuvChromaSubsampling::Yuv420, |i0: &mut YuvPlanarImageMut<u8>| ret(bgra_to_yuv420(i0, ms::<u8>(c, 3), c.planes[3].stride as u32, rng(c), mtx(c), cm(c)))) },
  |c| unsafe { own::planar_mut(c, YuvPlanarImageMut { y_plane: BufferStoreMut::Borrowed(md::<u8>(c, 0)), y_stride: c.planes[0].stride as u32, u_plane: BufferStoreMut::Borrowed(md::<u8>(c, 1)), u_stride: c.planes[1].stride as u32, v_plane: BufferStoreMut::Borrowed(md::<u8>(c, 2)), v_stride: c.planes[2].stride as u32, width: c.w[0], height: c.h[0] }, 0, 0, YuvChromaSubsampling::Yuv422, |i0: &mut YuvPlanarImageMut<u8>| ret(bgra_to_yuv422(i0, ms::<u8>(c, 3), c.planes[3].stride as u32, rng(c), mtx(c), cm(c)))) },
  |c| unsafe { own::planar_mut(c, YuvPlanarImageMut { y_plane: BufferStoreMut::Borrowed(md::<u8>(c, 0)), y_stride: c.planes[0].stride as u32, u_plane: BufferStoreMut::Borrowed(md::<u8>(c, 1)), u_stride: c.planes[1].stride as u32, v_plane: BufferStoreMut::Borrowed(md::<u8>(c, 2)), v_stride: c.planes[2].stride as u32, width: c.w[0], height: c.h[0] }, 0, 0, YuvChromaSubsampling::Yuv444, |i0: &mut YuvPlanarImageMut<u8>| ret(bgra_to_yuv444(i0, ms::<u8>(c, 3), c.planes[3].stride as u32, rng(c), mtx(c), cm(c)))) },
  |c| unsafe { own::biplanar_mut(c, YuvBiPlanarImageMut { y_plane: BufferStoreMut::Borrowed(md::<u8>(c, 0)), y_stride: c.planes[0].stride as u32, uv_plane: BufferStoreMut::Borrowed(md::<u8>(c, 1)), uv_stride: c.planes[1].stride as u32, width: c.w[0], height: c.h[0] }, 0, 0, YuvChromaSubsampling::Yuv420, |i0: &mut YuvBiPlanarImageMut<u8>| ret(bgra_to_yuv_nv12(i0, ms::<u8>(c, 2), c.planes[2].stride as u32, rng(c), mtx(c), cm(c)))) },
  |c| unsafe { own::biplanar_mut(c, YuvBiPlanarImageMut { y_plane: BufferStoreMut::Borrowed(md::<u8>(c, 0)), y_stride: c.planes[0].stride as u32, uv_plane: BufferStoreMut::Borrowed(md::<u8>(c, 1)), uv_stride: c.planes[1].stride as u32, width: c.w[0], height: c.h[0] }, 0, 0, YuvChromaSubsampling::Yuv422, |i0: &mut YuvBiPlanarImageMut<u8>| ret(bgra_to_yuv_nv16(i0, ms::<u8>(c, 2), c.planes[2].stride as u32, rng(c), mtx(c), cm(c)))) },
  |c| unsafe { own::biplanar_mut(c, YuvBiPlanarImageMut { y_plane: BufferStoreMut::Borrowed(md::<u8>(c, 0)), y_stride: c.planes[0].stride as u32, uv_plane: BufferStoreMut::Borrowed(md::<u8>(c, 1)), uv_stride: c.planes[1].stride as u32, width: c.w[0], height: c.h[0] }, 0, 0, YuvChromaSubsampling::Yuv420, |i0: &mut YuvBiPlanarImageMut<u8>| ret(bgra_to_yuv_nv21(i0, ms::<u8>(c, 2), c.planes[2].stride as u32, rng(c), mtx(c), cm(c)))) },
  |c| unsafe { own::biplanar_mut(c, YuvBiPlanarImageMut { y_plane: BufferStoreMut::Borrowed(md::<u8>(c, 0)), y_stride: c.planes[0].stride as u32, uv_plane: BufferStoreMut::Borrowed(md::<u8>(c, 1)), uv_stride: c.planes[1].stride as u32, width: c.w[0], height: c.h[0] }, 0, 0, YuvChromaSubsampling::Yuv444, |i0: &mut YuvBiPlanarImageMut<u8>| ret(bgra_to_yuv_nv24(i0, ms::<u8>(c, 2), c.planes[2].stride as u32, rng(c), mtx(c), cm(c)))) },
  |c| unsafe { own::biplanar_mut(c, YuvBiPlanarImageMut { y_plane: BufferStoreMut::Borrowed(md::<u8>(c, 0)), y_stride: c.planes[0].stride as u32, uv_plane: BufferStoreMut::Borrowed(md::<u8>(c, 1)), uv_stride: c.planes[1].stride as u32, width: c.w[0], height: c.h[0] }, 0, 0, YuvChromaSubsampling::Yuv444, |i0: &mut YuvBiPlanarImageMut<u8>| ret(bgra_to_yuv_nv42(i0, ms::<u8>(c, 2), c.planes[2].stride as u32, rng(c), mtx(c), cm(c)))) },
  |c| unsafe { own::biplanar_mut(c, YuvBiPlanarImageMut { y_plane: BufferStoreMut::Borrowed(md::<u8>(c, 0)), y_stride: c.planes[0].stride as u32, uv_plane: BufferStoreMut::Borrowed(md::<u8>(c, 1)), uv_stride: c.planes[1].stride as u32, width: c.w[0], height: c.h[0] }, 0, 0, YuvChromaSubsampling::Yuv422, |i0: &mut YuvBiPlanarImageMut<u8>| ret(bgra_to_yuv_nv61(i0, ms::<u8>(c, 2), c.planes[2].stride as u32, rng(c), mtx(c), cm(c)))) },
  |c| unsafe { ret(convert_plane16_to_f16(ms::<u16>(c, 0), c.planes[0].stride as usize, md::<f16>(c, 1), c.planes[1].stride as usize, c.depth as usize, c.w[0] as usize, c.h[0] as usize)) },
  |c| unsafe { ret(convert_plane_f16_to_planar(ms::<f16>(c, 0), c.planes[0].stride as usize, md::<u8>(c, 1), c.planes[1].stride as usize, c.w[0] as usize, c.h[0] as usize)) },
  |c| unsafe { ret(convert_plane_f16_to_planar16(ms::<f16>(c, 0), c.planes[0].stride as usize, md::<u16>(c, 1), c.planes[1].stride as usize, c.depth as usize, c.w[0] as usize, c.h[0] as usize)) },
  |c| unsafe { ret(convert_plane_to_f16(ms::<u8>(c, 0), c.planes[0].stride as usize, md::<f16>(c, 1), c.planes[1].stride as usize, c.w[0] as usize, c.h[0] as usize)) },
  |c| unsafe { ret(convert_rgb16_to_f16(ms::<u16>(c, 0), c.planes[0].stride as usize, md::<f16>(c, 1), c.planes[1].stride as usize, c.depth as usize, c.w[0] as usize, c.h[0] as usize)) },
  |c| unsafe { ret(convert_rgb_f16_to_rgb(ms::<f16>(c, 0), c.planes[0].stride as usize, md::<u8>(c, 1), c.planes[1].stride as usize, c.w[0] as usize, c.h[0] as usize)) },
  |c| unsafe { ret(convert_rgb_f16_to_rgb16(ms::<f16>(c, 0), c.planes[0].stride as usize, md::<u16>(c, 1), c.planes[1].stride as usize, c.depth as usize, c.w[0] as usize, c.h[0] as usize)) },
  |c| unsafe { ret(convert_rgb_to_f16(ms::<u8>(c, 0), c.planes[0].stride as usize, md::<f16>(c, 1), c.planes[1].stride as usize, c.w[0] as usize, c.h[0] as usize)) },
  |c| unsafe { ret(convert_rgba16_to_f16(ms::<u16>(c, 0), c.planes[0].stride as usize, md::<f16>(c, 1), c.planes[1].stride as usize, c.depth as usize, c.w[0] as usize, c.h[0] as usize)) },
  |c| unsafe { ret(convert_rgba_f16_to_rgba(ms::<f16>(c, 0), c.planes[0].stride as usize, md::<u8>(c, 1), c.planes[1].stride as usize, c.w[0] as usize, c.h[0] as usize)) },
  |c| unsafe { ret(convert_rgba_f16_to_rgba16(ms::<f16>(c, 0), c.planes[0].stride as usize, md::<u16>(c, 1), c.planes[1].stride as usize, c.depth as usize, c.w[0] as usize, c.h[0] as usize)) },
  |c| unsafe { ret(convert_rgba_to_f16(ms::<u8>(c, 0), c.planes[0].stride as usize, md::<f16>(c, 1), c.planes[1].stride as usize, c.w[0] as usize, c.h[0] as usize)) },
  |c| unsafe { own::planar_alpha_src(c, YuvPlanarImageWithAlpha { y_plane: ms::<u16>(c, 0), y_stride: c.planes[0].stride as u32, u_plane: ms::<u16>(c, 1), u_stride: c.planes[1].stride as u32, v_plane: ms::<u16>(c, 2), v_stride: c.planes[2].stride as u32, a_plane: ms::<u16>(c, 3), a_stride: c.planes[3].stride as u32, width: c.w[0], height: c.h[0] }, 0, 0, YuvChromaSubsampling::Yuv444, |i0: &YuvPlanarImageWithAlpha<u16>| ret(gb10_alpha_to_rgba10(i0, md::<u16>(c, 4), c.planes[4].stride as u32, rng(c)))) },
  |c| unsafe { own::planar_alpha_src(c, YuvPlanarImageWithAlpha { y_plane: ms::<u16>(c, 0), y_stride: c.planes[0].stride as u32, u_plane: ms::<u16>(c, 1), u_stride: c.planes[1].stride as u32, v_plane: ms::<u16>(c, 2), v_stride: c.planes[2].stride as u32, a_plane: ms::<u16>(c, 3), a_stride: c.planes[3].stride as u32, width: c.w[0], height: c.h[0] }, 0, 0, YuvChromaSubsampling::Yuv444, |i0: &YuvPlanarImageWithAlpha<u16>| ret(gb10_alpha_to_rgba_f16(i0, md::<f16>(c, 4), c.planes[4].stride as u32, rng(c)))) },
  |c| unsafe { own::planar_src(c, YuvPlanarImage { y_plane: ms::<u16>(c, 0), y_stride: c.planes[0].stride as u32, u_plane: ms::<u16>(c, 1), u_stride: c.planes[1].stride as u32, v_plane: ms::<u16>(c, 2), v_stride: c.planes[2].stride as u32, width: c.w[0], height: c.h[0] }, 0, 0, YuvChromaSubsampling::Yuv444, |i0: &YuvPlanarImage<u16>| ret(gb10_to_rgb10(i0, md::<u16>(c, 3), c.planes[3].stride as u32, rng(c)))) },
  |c| unsafe { own::planar_src(c, YuvPlanarImage { y_plane: ms::<u16>(c, 0), y_stride: c.planes[0].stride as u32, u_plane: ms::<u16>(c, 1), u_stride: c.planes[1].stride as u32, v_plane: ms::<u16>(c, 2), v_stride: c.planes[2].stride as u32, width: c.w[0], height: c.h[0] }, 0, 0, YuvChromaSubsampling::Yuv444, |i0: &YuvPlanarImage<u16>| ret(gb10_to_rgb_f16(i0, md::<f16>(c, 3), c.planes[3].stride as u32, rng(c)))) },
  |c| unsafe { own::planar_src(c, YuvPlanarImage { y_plane: ms::<u16>(c, 0), y_stride: c.planes[0].stride as u32, u_plane: ms::<u16>(c, 1), u_stride: c.planes[1].stride as u32, v_plane: ms::<u16>(c, 2), v_stride: c.planes[2].stride as u32, width: c.w[0], height: c.h[0] }, 0, 0, YuvChromaSubsampling::Yuv444, |i0: &YuvPlanarImage<u16>| ret(gb10_to_rgba10(i0, md::<u16>(c, 3), c.planes[3].stride as u32, rng(c)))) },
  |c| unsafe { own::planar_src(c, YuvPlanarImage { y_plane: ms::<u16>(c, 0), y_stride: c.planes[0].stride as u32, u_plane: ms::<u16>(c, 1), u_stride: c.planes[1].stride as u32, v_plane: ms::<u16>(c, 2), v_stride: c.planes[2].stride as u32, width: c.w[0], height: c.h[0] }, 0, 0, YuvChromaSubsampling::Yuv444, |i0: &YuvPlanarImage<u16>| ret(gb10_to_rgba_f16(i0, md::<f16>(c, 3), c.planes[3].stride as u32, rng(c)))) },
  |c| unsafe { own::planar_alpha_src(c, YuvPlanarImageWithAlpha { y_plane: ms::<u16>(c, 0), y_stride: c.planes[0].stride as u32, u_plane: ms::<u16>(c, 1), u_stride: c.planes[1].stride as u32, v_plane: ms::<u16>(c, 2), v_stride: c.planes[2].stride as u32, a_plane: ms::<u16>(c, 3), a_stride: c.planes[3].stride as u32, width: c.w[0], height: c.h[0] }, 0, 0, YuvChromaSubsampling::Yuv444, |i0: &YuvPlanarImageWithAlpha<u16>| ret(gb12_alpha_to_rgba12(i0, md::<u16>(c, 4), c.planes[4].stride as u32, rng(c)))) },
  |c| unsafe { own::planar_alpha_src(c, YuvPlanarImageWithAlpha { y_plane: ms::<u16>(c, 0), y_stride: c.planes[0].stride as u32, u_plane: ms::<u16>(c, 1), u_stride: c.planes[1].stride as u32, v_plane: ms::<u16>(c, 2), v_stride: c.planes[2].stride as u32, a_plane: ms::<u16>(c, 3), a_stride: c.planes[3].stride as u32, width: c.w[0], height: c.h[0] }, 0, 0, YuvChromaSubsampling::Yuv444, |i0: &YuvPlanarImageWithAlpha<u16>| ret(gb12_alpha_to_rgba_f16(i0, md::<f16>(c, 4), c.planes[4].stride as u32, rng(c)))) },
  |c| unsafe { own::planar_src(c, YuvPlanarImage { y_plane: ms::<u16>(c, 0), y_stride: c.planes[0].stride as u32, u_plane: ms::<u16>(c, 1), u_stride: c.planes[1].stride as u32, v_plane: ms::<u16>(c, 2), v_stride: c.planes[2].stride as u32, width: c.w[0], height: c.h[0] }, 0, 0, YuvChromaSubsampling::Yuv444, |i0: &YuvPlanarImage<u16>| ret(gb12_to_rgb12(i0, md::<u16>(c, 3), c.planes[3].stride as u32, rng(c)))) },
  |c| unsafe { own::planar_src(c, YuvPlanarImage { y_plane: ms::<u16>(c, 0), y_stride: c.planes[0].stride as u32, u_plane: ms::<u16>(c, 1), u_stride: c.planes[1].stride as u32, v_plane: ms::<u16>(c, 2), v_stride: c.planes[2].stride as u32, width: c.w[0], height: c.h[0] }, 0, 0, YuvChromaSubsampling::Yuv444, |i0: &YuvPlanarImage<u16>| ret(gb12_to_rgb_f16(i0, md::<f16>(c, 3), c.planes[3].stride as u32, rng(c)))) },
  |c| unsafe { own::planar_src(c, YuvPlanarImage { y_plane: ms::<u16>(c, 0), y_stride: c.planes[0].stride as u32, u_plane: ms::<u16>(c, 1), u_stride: c.planes[1].stride as u32, v_plane: ms::<u16>(c, 2), v_stride: c.planes[2].stride as u32, width: c.w[0], height: c.h[0] }, 0, 0, YuvChromaSubsampling::Yuv444, |i0: &YuvPlanarImage<u16>| ret(gb12_to_rgba12(i0, md::<u16>(c, 3), c.planes[3].stride as u32, rng(c)))) },
  |c| unsafe { own::planar_src(c, YuvPlanarImage { y_plane: ms::<u16>(c, 0), y_stride: c.planes[0].stride as u32, u_plane: ms::<u16>(c, 1), u_stride: c.planes[1].stride as u32, v_plane: ms::<u16>(c, 2), v_stride: c.planes[2].stride as u32, width: c.w[0], height: c.h[0] }, 0, 0, YuvChromaSubsampling::Yuv444, |i0: &YuvPlanarImage<u16>| ret(gb12_to_rgba_f16(i0, md::<f16>(c, 3), c.planes[3].stride as u32, rng(c)))) },
  |c| unsafe { own::planar_alpha_src(c, YuvPlanarImageWithAlpha { y_plane: ms::<u16>(c, 0), y_stride: c.planes[0].stride as u32, u_plane: ms::<u16>(c, 1), u_stride: c.planes[1].stride as u32, v_plane: ms::<u16>(c, 2), v_stride: c.planes[2].stride as u32, a_plane: ms::<u16>(c, 3), a_stride: c.planes[3].stride as u32, width: c.w[0], height: c.h[0] }, 0, 0, YuvChromaSubsampling::Yuv444, |i0: &YuvPlanarImageWithAlpha<u16>| ret(gb14_alpha_to_rgba14(i0, md::<u16>(c, 4), c.planes[4].stride as u32, rng(c)))) },
  |c| unsafe { own::planar_alpha_src(c, YuvPlanarImageWithAlpha { y_plane: ms::<u16>(c, 0), y_stride: c.planes[0].stride as u32, u_plane: ms::<u16>(c, 1), u_stride: c.planes[1].stride as u32, v_plane: ms::<u16>(c, 2), v_stride: c.planes[2].stride as u32, a_plane: ms::<u16>(c, 3), a_stride: c.planes[3].stride as u32, width: c.w[0], height: c.h[0] }, 0, 0, YuvChromaSubsampling::Yuv444, |i0: &YuvPlanarImageWithAlpha<u16>| ret(gb14_alpha_to_rgba_f16(i0, md::<f16>(c, 4), c.planes[4].stride as u32, rng(c)))) },
  |c| unsafe { own::planar_src(c, YuvPlanarImage { y_plane: ms::<u16>(c, 0), y_stride: c.planes[0].stride as u32, u_plane: ms::<u16>(c, 1), u_stride: c.planes[1].stride as u32, v_plane: ms::<u16>(c, 2), v_stride: c.planes[2].stride as u32, width: c.w[0], height: c.h[0] }, 0, 0, YuvChromaSubsampling::Yuv444, |i0: &YuvPlanarImage<u16>| ret(gb14_to_rgb14(i0, md::<u16>(c, 3), c.planes[3].stride as u32, rng(c)))) },
  |c| unsafe { own::planar_src(c, YuvPlanarImage { y_plane: ms::<u16>(c, 0), y_stride: c.planes[0].stride as u32, u_plane: ms::<u16>(c, 1), u_stride: c.planes[1].stride as u32, v_plane: ms::<u16>(c, 2), v_stride: c.planes[2].stride as u32, width: c.w[0], height: c.h[0] }, 0, 0, YuvChromaSubsampling::Yuv444, |i0: &YuvPlanarImage<u16>| ret(gb14_to_rgb_f16(i0, md::<f16>(c, 3), c.planes[3].stride as u32, rng(c)))) },
  |c| unsafe { own::planar_src(c, YuvPlanarImage { y_plane: ms::<u16>(c, 0), y_stride: c.planes[0].stride as u32, u_plane: ms::<u16>(c, 1), u_stride: c.planes[1].stride as u32, v_plane: ms::<u16>(c, 2), v_stride: c.planes[2].stride as u32, width: c.w[0], height: c.h[0] }, 0, 0, YuvChromaSubsampling::Yuv444, |i0: &YuvPlanarImage<u16>| ret(gb14_to_rgba14(i0, md::<u16>(c, 3), c.planes[3].stride as u32, rng(c)))) },
  |c| unsafe { own::planar_src(c, YuvPlanarImage { y_plane: ms::<u16>(c, 0), y_stride: c.planes[0].stride as u32, u_plane: ms::<u16>(c, 1), u_stride: c.planes[1].stride as u32, v_plane: ms::<u16>(c, 2), v_stride: c.planes[2].stride as u32, width: c.w[0], height: c.h[0] }, 0, 0, YuvChromaSubsampling::Yuv444, |i0: &YuvPlanarImage<u16>| ret(gb14_to_rgba_f16(i0, md::<f16>(c, 3), c.planes[3].stride as u32, rng(c)))) },
  |c| unsafe { own::planar_alpha_src(c, YuvPlanarImageWithAlpha { y_plane: ms::<u16>(c, 0), y_stride: c.planes[0].stride as u32, u_plane: ms::<u16>(c, 1), u_stride: c.planes[1].stride as u32, v_plane: ms::<u16>(c, 2), v_stride: c.planes[2].stride as u32, a_plane: ms::<u16>(c, 3), a_stride: c.planes[3].stride as u32, width: c.w[0], height: c.h[0] }, 0, 0, YuvChromaSubsampling::Yuv444, |i0: &YuvPlanarImageWithAlpha<u16>| ret(gb16_alpha_to_rgba16(i0, md::<u16>(c, 4), c.planes[4].stride as u32, rng(c)))) },
  |c| unsafe { own::planar_alpha_src(c, YuvPlanarImageWithAlpha { y_plane: ms::<u16>(c, 0), y_stride: c.planes[0].stride as u32, u_plane: ms::<u16>(c, 1), u_stride: c.planes[1].stride as u32, v_plane: ms::<u16>(c, 2), v_stride: c.planes[2].stride as u32, a_plane: ms::<u16>(c, 3), a_stride: c.planes[3].stride as u32, width: c.w[0], height: c.h[0] }, 0, 0, YuvChromaSubsampling::Yuv444, |i0: &YuvPlanarImageWithAlpha<u16>| ret(gb16_alpha_to_rgba_f16(i0, md::<f16>(c, 4), c.planes[4].stride as u32, rng(c)))) },
  |c| unsafe { own::planar_src(c, YuvPlanarImage { y_plane: ms::<u16>(c, 0), y_stride: c.planes[0].stride as u32, u_plane: ms::<u16>(c, 1), u_stride: c.planes[1].stride as u32, v_plane: ms::<u16>(c, 2), v_stride: c.planes[2].stride as u32, width: c.w[0], height: c.h[0] }, 0, 0, YuvChromaSubsampling::Yuv444, |i0: &YuvPlanarImage<u16>| ret(gb16_to_rgb16(i0, md::<u16>(c, 3), c.planes[3].stride as u32, rng(c)))) },
  |c| unsafe { own::planar_src(c, YuvPlanarImage { y_plane: ms::<u16>(c, 0), y_stride: c.planes[0].stride as u32, u_plane: ms::<u16>(c, 1), u_stride: c.planes[1].stride as u32, v_plane: ms::<u16>(c, 2), v_stride: c.planes[2].stride as u32, width: c.w[0], height: c.h[0] }, 0, 0, YuvChromaSubsampling::Yuv444, |i0: &YuvPlanarImage<u16>| ret(gb16_to_rgb_f16(i0, md::<f16>(c, 3), c.planes[3].stride as u32, rng(c)))) },
  |c| unsafe { own::planar_src(c, YuvPlanarImage { y_plane: ms::<u16>(c, 0), y_stride: c.planes[0].stride as u32, u_plane: ms::<u16>(c, 1), u_stride: c.planes[1].stride as u32, v_plane: ms::<u16>(c, 2), v_stride: c.planes[2].stride as u32, width: c.w[0], height: c.h[0] }, 0, 0, YuvChromaSubsampling::Yuv444, |i0: &YuvPlanarImage<u16>| ret(gb16_to_rgba16(i0, md::<u16>(c, 3), c.planes[3].stride as u32, rng(c)))) },
  |c| unsafe { own::planar_src(c, YuvPlanarImage { y_plane: ms::<u16>(c, 0), y_stride: c.planes[0].stride as u32, u_plane: ms::<u16>(c, 1), u_stride: c.planes[1].stride as u32, v_plane: ms::<u16>(c, 2), v_stride: c.planes[2].stride as u32, width: c.w[0], height: c.h[0] }, 0, 0, YuvChromaSubsampling::Yuv444, |i0: &YuvPlanarImage<u16>| ret(gb16_to_rgba_f16(i0, md::<f16>(c, 3), c.planes[3].stride as u32, rng(c)))) },
  |c| unsafe { own::planar_src(c, YuvPlanarImage { y_plane: ms::<u8>(c, 0), y_stride: c.planes[0].stride as u32, u_plane: ms::<u8>(c, 1), u_stride: c.planes[1].stride as u32, v_plane: ms::<u8>(c, 2), v_stride: c.planes[2].stride as u32, width: c.w[0], height: c.h[0] }, 0, 0, YuvChromaSubsampling::Yuv444, |i0: &YuvPlanarImage<u8>| ret(gbr_to_bgr(i0, md::<u8>(c, 3), c.planes[3].stride as u32, rng(c)))) },
  |c| unsafe { own::planar_src(c, YuvPlanarImage { y_plane: ms::<u8>(c, 0), y_stride: c.planes[0].stride as u32, u_plane: ms::<u8>(c, 1), u_stride: c.planes[1].stride as u32, v_plane: ms::<u8>(c, 2), v_stride: c.planes[2].stride as u32, width: c.w[0], height: c.h[0] }, 0, 0, YuvChromaSubsampling::Yuv444, |i0: &YuvPlanarImage<u8>| ret(gbr_to_bgra(i0, md::<u8>(c, 3), c.planes[3].stride as u32, rng(c)))) },
  |c| unsafe { own::planar_src(c, YuvPlanarImage { y_plane: ms::<u8>(c, 0), y_stride: c.planes[0].stride as u32, u_plane: ms::<u8>(c, 1), u_stride: c.planes[1].stride as u32, v_plane: ms::<u8>(c, 2), v_stride: c.planes[2].stride as u32, width: c.w[0], height: c.h[0] }, 0, 0, YuvChromaSubsampling::Yuv444, |i0: &YuvPlanarImage<u8>| ret(gbr_to_rgb(i0, md::<u8>(c, 3), c.planes[3].stride as u32, rng(c)))) },
  |c| unsafe { own::planar_src(c, YuvPlanarImage { y_plane: ms::<u8>(c, 0), y_stride: c.planes[0].stride as u32, u_plane: ms::<u8>(c, 1), u_stride: c.planes[1].stride as u32, v_plane: ms::<u8>(c, 2), v_stride: c.planes[2].stride as u32, width: c.w[0], height: c.h[0] }, 0, 0, YuvChromaSubsampling::Yuv444, |i0: &YuvPlanarImage<u8>| ret(gbr_to_rgba(i0, md::<u8>(c, 3), c.planes[3].stride as u32, rng(c)))) },
  |c| unsafe { own::planar_alpha_src(c, YuvPlanarImageWithAlpha { y_plane: ms::<u8>(c, 0), y_stride: c.planes[0].stride as u32, u_plane: ms::<u8>(c, 1), u_stride: c.planes[1].stride as u32, v_plane: ms::<u8>(c, 2), v_stride: c.planes[2].stride as u32, a_plane: ms::<u8>(c, 3), a_stride: c.planes[3].stride as u32, width: c.w[0], height: c.h[0] }, 0, 0, YuvChromaSubsampling::Yuv444, |i0: &YuvPlanarImageWithAlpha<u8>| ret(gbr_with_alpha_to_bgra(i0, md::<u8>(c, 4), c.planes[4].stride as u32, rng(c)))) },
  |c| unsafe { own::planar_alpha_src(c, YuvPlanarImageWithAlpha { y_plane: ms::<u8>(c, 0), y_stride: c.planes[0].stride as u32, u_plane: ms::<u8>(c, 1), u_stride: c.planes[1].stride as u32, v_plane: ms::<u8>(c, 2), v_stride: c.planes[2].stride as u32, a_plane: ms::<u8>(c, 3), a_stride: c.planes[3].stride as u32, width: c.w[0], height: c.h[0] }, 0, 0, YuvChromaSubsampling::Yuv444, |i0: &YuvPlanarImageWithAlpha<u8>| ret(gbr_with_alpha_to_rgba(i0, md::<u8>(c, 4), c.planes[4].stride as u32, rng(c)))) },
  |c| unsafe { own::planar_alpha_src(c, YuvPlanarImageWithAlpha { y_plane: ms::<u16>(c, 0), y_stride: c.planes[0].stride as u32, u_plane: ms::<u16>(c, 1), u_stride: c.planes[1].stride as u32, v_plane: ms::<u16>(c, 2), v_stride: c.planes[2].stride as u32, a_plane: ms::<u16>(c, 3), a_stride: c.planes[3].stride as u32, width: c.w[0], height: c.h[0] }, 0, 0, YuvChromaSubsampling::Yuv420, |i0: &YuvPlanarImageWithAlpha<u16>| ret(i010_alpha_to_rgba(i0, md::<u8>(c, 4), c.planes[4].stride as u32, rng(c), mtx(c)))) },
  |c| unsafe { own::planar_alpha_src(c, YuvPlanarImageWithAlpha { y_plane: ms::<u16>(c, 0), y_stride: c.planes[0].stride as u32, u_plane: ms::<u16>(c, 1), u_stride: c.planes[1].stride as u32, v_plane: ms::<u16>(c, 2), v_stride: c.planes[2].stride as u32, a_plane: ms::<u16>(c, 3), a_stride: c.planes[3].stride as u32, width: c.w[0], height: c.h[0] }, 0, 0, YuvChromaSubsampling::Yuv420, |i0: &YuvPlanarImageWithAlpha<u16>| ret(i010_alpha_to_rgba10(i0, md::<u16>(c, 4), c.planes[4].stride as u32, rng(c), mtx(c)))) },
  |c| unsafe { own::planar_alpha_src(c, YuvPlanarImageWithAlpha { y_plane: ms::<u16>(c, 0), y_stride: c.planes[0].stride as u32, u_plane: ms::<u16>(c, 1), u_stride: c.planes[1].stride as u32, v_plane: ms::<u16>(c, 2), v_stride: c.planes[2].stride as u32, a_plane: ms::<u16>(c, 3), a_stride: c.planes[3].stride as u32, width: c.w[0], height: c.h[0] }, 0, 0, YuvChromaSubsampling::Yuv420, |i0: &YuvPlanarImageWithAlpha<u16>| ret(i010_alpha_to_rgba_f16(i0, md::<f16>(c, 4), c.planes[4].stride as u32, rng(c), mtx(c)))) },
  |c| unsafe { own::planar_alpha_src(c, YuvPlanarImageWithAlpha { y_plane: ms::<u16>(c, 0), y_stride: c.planes[0].stride as u32, u_plane: ms::<u16>(c, 1), u_stride: c.planes[1].stride as u32, v_plane: ms::<u16>(c, 2), v_stride: c.planes[2].stride as u32, a_plane: ms::<u16>(c, 3), a_stride: c.planes[3].stride as u32, width: c.w[0], height: c.h[0] }, 0, 0, YuvChromaSubsampling::Yuv420, |i0: &YuvPlanarImageWithAlpha<u16>| ret(i010_be_alpha_to_rgba(i0, md::<u8>(c, 4), c.planes[4].stride as u32, rng(c), mtx(c)))) },
  |c| unsafe { own::planar_alpha_src(c, YuvPlanarImageWithAlpha { y_plane: ms::<u16>(c, 0), y_stride: c.planes[0].stride as u32, u_plane: ms::<u16>(c, 1), u_stride: c.planes[1].stride as u32, v_plane: ms::<u16>(c, 2), v_stride: c.planes[2].stride as u32, a_plane: ms::<u16>(c, 3), a_stride: c.planes[3].stride as u32, width: c.w[0], height: c.h[0] }, 0, 0, YuvChromaSubsampling::Yuv420, |i0: &YuvPlanarImageWithAlpha<u16>| ret(i010_be_alpha_to_rgba10(i0, md::<u16>(c, 4), c.planes[4].stride as u32, rng(c), mtx(c)))) },
  |c| unsafe { own::planar_src(c, YuvPlanarImage { y_plane: ms::<u16>(c, 0), y_stride: c.planes[0].stride as u32, u_plane: ms::<u16>(c, 1), u_stride: c.planes[1].stride as u32, v_plane: ms::<u16>(c, 2), v_stride: c.planes[2].stride as u32, width: c.w[0], height: c.h[0] }, 0, 0, YuvChromaSubsampling::Yuv420, |i0: &YuvPlanarImage<u16>| ret(i010_be_to_bgr(i0, md::<u8>(c, 3), c.planes[3].stride as u32, rng(c), mtx(c)))) },
  |c| unsafe { own::planar_src(c, YuvPlanarImage { y_plane: ms::<u16>(c, 0), y_stride: c.planes[0].stride as u32, u_plane: ms::<u16>(c, 1), u_stride: c.planes[1].stride as u32, v_plane: ms::<u16>(c, 2), v_stride: c.planes[2].stride as u32, width: c.w[0], height: c.h[0] }, 0, 0, YuvChromaSubsampling::Yuv420, |i0: &YuvPlanarImage<u16>| ret(i010_be_to_bgra(i0, md::<u8>(c, 3), c.planes[3].stride as u32, rng(c), mtx(c)))) },
  |c| unsafe { own::planar_src(c, YuvPlanarImage { y_plane: ms::<u16>(c, 0), y_stride: c.planes[0].stride as u32, u_plane: ms::<u16>(c, 1), u_stride: c.planes[1].stride as u32, v_plane: ms::<u16>(c, 2), v_stride: c.planes[2].stride as u32, width: c.w[0], height: c.h[0] }, 0, 0, YuvChromaSubsampling::Yuv420, |i0: &YuvPlanarImage<u16>| ret(i010_be_to_rgb(i0, md::<u8>(c, 3), c.planes[3].stride as u32, rng(c), mtx(c)))) },
  |c| unsafe { own::planar_src(c, YuvPlanarImage { y_plane: ms::<u16>(c, 0), y_stride: c.planes[0].stride as u32, u_plane: ms::<u16>(c, 1), u_stride: c.planes[1].stride as u32, v_plane: ms::<u16>(c, 2), v_stride: c.planes[2].stride as u32, width: c.w[0], height: c.h[0] }, 0, 0, YuvChromaSubsampling::Yuv420, |i0: &YuvPlanarImage<u16>| ret(i010_be_to_rgb10(i0, md::<u16>(c, 3), c.planes[3].stride as u32, rng(c), mtx(c)))) },
  |c| unsafe { own::planar_src(c, YuvPlanarImage { y_plane: ms::<u16>(c, 0), y_stride: c.planes[0].stride as u32, u_plane: ms::<u16>(c, 1), u_stride: c.planes[1].stride as u32, v_plane: ms::<u16>(c, 2), v_stride: c.planes[2].stride as u32, width: c.w[0], height: c.h[0] }, 0, 0, YuvChromaSubsampling::Yuv420, |i0: &YuvPlanarImage<u16>| ret(i010_be_to_rgba(i0, md::<u8>(c, 3), c.planes[3].stride as u32, rng(c), mtx(c)))) },
  |c| unsafe { own::planar_src(c, YuvPlanarImage { y_plane: ms::<u16>(c, 0), y_stride: c.planes[0].stride as u32, u_plane: ms::<u16>(c, 1), u_stride: c.planes[1].stride as u32, v_plane: ms::<u16>(c, 2), v_stride: c.planes[2].stride as u32, width: c.w[0], height: c.h[0] }, 0, 0, YuvChromaSubsampling::Yuv420, |i0: &YuvPlanarImage<u16>| ret(i010_be_to_rgba10(i0, md::<u16>(c, 3), c.planes[3].stride as u32, rng(c), mtx(c)))) },
  |c| unsafe { own::planar_src(c, YuvPlanarImage { y_plane: ms::<u16>(c, 0), y_stride: c.planes[0].stride as u32, u_plane: ms::<u16>(c, 1), u_stride: c.planes[1].stride as u32, v_plane: ms::<u16>(c, 2), v_stride: c.planes[2].stride as u32, width: c.w[0], height: c.h[0] }, 0, 0, YuvChromaSubsampling::Yuv420, |i0: &YuvPlanarImage<u16>| ret(i010_to_ar30(i0, md::<u8>(c, 3), c.planes[3].stride as u32, bo(c), rng(c), mtx(c)))) },
  |c| unsafe { own::planar_src(c, YuvPlanarImage { y_plane: ms::<u16>(c, 0), y_stride: c.planes[0].stride as u32, u_plane: ms::<u16>(c, 1), u_stride: c.planes[1].stride as u32, v_plane: ms::<u16>(c, 2), v_stride: c.planes[2].stride as u32, width: c.w[0], height: c.h[0] }, 0, 0, YuvChromaSubsampling::Yuv420, |i0: &YuvPlanarImage<u16>| ret(i010_to_bgr(i0, md::<u8>(c, 3), c.planes[3].stride as u32, rng(c), mtx(c)))) },
  |c| unsafe { own::planar_src(c, YuvPlanarImage { y_plane: ms::<u16>(c, 0), y_stride: c.planes[0].stride as u32, u_plane: ms::<u16>(c, 1), u_stride: c.planes[1].stride as u32, v_plane: ms::<u16>(c, 2), v_stride: c.planes[2].stride as u32, width: c.w[0], height: c.h[0] }, 0, 0, YuvChromaSubsampling::Yuv420, |i0: &YuvPlanarImage<u16>| ret(i010_to_bgra(i0, md::<u8>(c, 3), c.planes[3].stride as u32, rng(c), mtx(c)))) },
  |c| unsafe { own::planar_src(c, YuvPlanarImage { y_plane: ms::<u16>(c, 0), y_stride: c.planes[0].stride as u32, u_plane: ms::<u16>(c, 1), u_stride: c.planes[1].stride as u32, v_plane: ms::<u16>(c, 2), v_stride: c.planes[2].stride as u32, width: c.w[0], height: c.h[0] }, 0, 0, YuvChromaSubsampling::Yuv420, |i0: &YuvPlanarImage<u16>| ret(i010_to_ra30(i0, md::<u8>(c, 3), c.planes[3].stride as u32, bo(c), rng(c), mtx(c)))) },
  |c| unsafe { own::planar_src(c, YuvPlanarImage { y_plane: ms::<u16>(c, 0), y_stride: c.planes[0].stride as u32, u_plane: ms::<u16>(c, 1), u_stride: c.planes[1].stride as u32, v_plane: ms::<u16>(c, 2), v_stride: c.planes[2].stride as u32, width: c.w[0], height: c.h[0] }, 0, 0, YuvChromaSubsampling::Yuv420, |i0: &YuvPlanarImage<u16>| ret(i010_to_rgb(i0, md::<u8>(c, 3), c.planes[3].stride as u32, rng(c), mtx(c)))) },
  |c| unsafe { own::planar_src(c, YuvPlanarImage { y_plane: ms::<u16>(c, 0), y_stride: c.planes[0].stride as u32, u_plane: ms::<u16>(c, 1), u_stride: c.planes[1].stride as u32, v_plane: ms::<u16>(c, 2), v_stride: c.planes[2].stride as u32, width: c.w[0], height: c.h[0] }, 0, 0, YuvChromaSubsampling::Yuv420, |i0: &YuvPlanarImage<u16>| ret(i010_to_rgb10(i0, md::<u16>(c, 3), c.planes[3].stride as u32, rng(c), mtx(c)))) },
  |c| unsafe { own::planar_src(c, YuvPlanarImage { y_plane: ms::<u16>(c, 0), y_stride: c.planes[0].stride as u32, u_plane: ms::<u16>(c, 1), u_stride: c.planes[1].stride as u32, v_plane: ms::<u16>(c, 2), v_stride: c.planes[2].stride as u32, width: c.w[0], height: c.h[0] }, 0, 0, YuvChromaSubsampling::Yuv420, |i0: &YuvPlanarImage<u16>| ret(i010_to_rgb_f16(i0, md::<f16>(c, 3), c.planes[3].stride as u32, rng(c), mtx(c)))) },
  |c| unsafe { own::planar_src(c, YuvPlanarImage { y_plane: ms::<u16>(c, 0), y_stride: c.planes[0].stride as u32, u_plane: ms::<u16>(c, 1), u_stride: c.planes[1].stride as u32, v_plane: ms::<u16>(c, 2), v_stride: c.planes[2].stride as u32, width: c.w[0], height: c.h[0] }, 0, 0, YuvChromaSubsampling::Yuv420, |i0: &YuvPlanarImage<u16>| ret(i010_to_rgba(i0, md::<u8>(c, 3), c.planes[3].stride as u32, rng(c), mtx(c)))) },
  |c| unsafe { own::planar_src(c, YuvPlanarImage { y_plane: ms::<u16>(c, 0), y_stride: c.planes[0].stride as u32, u_plane: ms::<u16>(c, 1), u_stride: c.planes[1].stride as u32, v_plane: ms::<u16>(c, 2), v_stride: c.planes[2].stride as u32, width: c.w[0], height: c.h[0] }, 0, 0, YuvChromaSubsampling::Yuv420, |i0: &YuvPlanarImage<u16>| ret(i010_to_rgba10(i0, md::<u16>(c, 3), c.planes[3].stride as u32, rng(c), mtx(c)))) },
  |c| unsafe { own::planar_src(c, YuvPlanarImage { y_plane: ms::<u16>(c, 0), y_stride: c.planes[0].stride as u32, u_plane: ms::<u16>(c, 1), u_stride: c.planes[1].stride as u32, v_plane: ms::<u16>(c, 2), v_stride: c.planes[2].stride as u32, width: c.w[0], height: c.h[0] }, 0, 0, YuvChromaSubsampling::Yuv420, |i0: &YuvPlanarImage<u16>| ret(i010_to_rgba_f16(i0, md::<f16>(c, 3), c.planes[3].stride as u32, rng(c), mtx(c)))) },
  |c| unsafe { own::planar_alpha_src(c, YuvPlanarImageWithAlpha { y_plane: ms::<u16>(c, 0), y_stride: c.planes[0].stride as u32, u_plane: ms::<u16>(c, 1), u_stride: c.planes[1].stride as u32, v_plane: ms::<u16>(c, 2), v_stride: c.planes[2].stride as u32, a_plane: ms::<u16>(c, 3), a_stride: c.planes[3].stride as u32, width: c.w[0], height: c.h[0] }, 0, 0, YuvChromaSubsampling::Yuv420, |i0: &YuvPlanarImageWithAlpha<u16>| ret(i012_alpha_to_rgba(i0, md::<u8>(c, 4), c.planes[4].stride as u32, rng(c), mtx(c)))) },
  |c| unsafe { own::planar_alpha_src(c, YuvPlanarImageWithAlpha { y_plane: ms::<u16>(c, 0), y_stride: c.planes[0].stride as u32, u_plane: ms::<u16>(c, 1), u_stride: c.planes[1].stride as u32, v_plane: ms::<u16>(c, 2), v_stride: c.planes[2].stride as u32, a_plane: ms::<u16>(c, 3), a_stride: c.planes[3].stride as u32, width: c.w[0], height: c.h[0] }, 0, 0, YuvChromaSubsampling::Yuv420, |i0: &YuvPlanarImageWithAlpha<u16>| ret(i012_alpha_to_rgba12(i0, md::<u16>(c, 4), c.planes[4].stride as u32, rng(c), mtx(c)))) },
  |c| unsafe { own::planar_alpha_src(c, YuvPlanarImageWithAlpha { y_plane: ms::<u16>(c, 0), y_stride: c.planes[0].stride as u32, u_plane: ms::<u16>(c, 1), u_stride: c.planes[1].stride as u32, v_plane: ms::<u16>(c, 2), v_stride: c.planes[2].stride as u32, a_plane: ms::<u16>(c, 3), a_stride: c.planes[3].stride as u32, width: c.w[0], height: c.h[0] }, 0, 0, YuvChromaSubsampling::Yuv420, |i0: &YuvPlanarImageWithAlpha<u16>| ret(i012_alpha_to_rgba_f16(i0, md::<f16>(c, 4), c.planes[4].stride as u32, rng(c), mtx(c)))) },
  |c| unsafe { own::planar_alpha_src(c, YuvPlanarImageWithAlpha { y_plane: ms::<u16>(c, 0), y_stride: c.planes[0].stride as u32, u_plane: ms::<u16>(c, 1), u_stride: c.planes[1].stride as u32, v_plane: ms::<u16>(c, 2), v_stride: c.planes[2].stride as u32, a_plane: ms::<u16>(c, 3), a_stride: c.planes[3].stride as u32, width: c.w[0], height: c.h[0] }, 0, 0, YuvChromaSubsampling::Yuv420, |i0: &YuvPlanarImageWithAlpha<u16>| ret(i012_be_alpha_to_rgba(i0, md::<u8>(c, 4), c.planes[4].stride as u32, rng(c), mtx(c)))) },
  |c| unsafe { own::planar_alpha_src(c, YuvPlanarImageWithAlpha { y_plane: ms::<u16>(c, 0), y_stride: c.planes[0].stride as u32, u_plane: ms::<u16>(c, 1), u_stride: c.planes[1].stride as u32, v_plane: ms::<u16>(c, 2), v_stride: c.planes[2].stride as u32, a_plane: ms::<u16>(c, 3), a_stride: c.planes[3].stride as u32, width: c.w[0], height: c.h[0] }, 0, 0, YuvChromaSubsampling::Yuv420, |i0: &YuvPlanarImageWithAlpha<u16>| ret(i012_be_alpha_to_rgba12(i0, md::<u16>(c, 4), c.planes[4].stride as u32, rng(c), mtx(c)))) },
  |c| unsafe { own::planar_src(c, YuvPlanarImage { y_plane: ms::<u16>(c, 0), y_stride: c.planes[0].stride as u32, u_plane: ms::<u16>(c, 1), u_stride: c.planes[1].stride as u32, v_plane: ms::<u16>(c, 2), v_stride: c.planes[2].stride as u32, width: c.w[0], height: c.h[0] }, 0, 0, YuvChromaSubsampling::Yuv420, |i0: &YuvPlanarImage<u16>| ret(i012_be_to_bgr(i0, md::<u8>(c, 3), c.planes[3].stride as u32, rng(c), mtx(c)))) },
  |c| unsafe { own::planar_src(c, YuvPlanarImage { y_plane: ms::<u16>(c, 0), y_stride: c.planes[0].stride as u32, u_plane: ms::<u16>(c, 1), u_stride: c.planes[1].stride as u32, v_plane: ms::<u16>(c, 2), v_stride: c.planes[2].stride as u32, width: c.w[0], height: c.h[0] }, 0, 0, YuvChromaSubsampling::Yuv420, |i0: &YuvPlanarImage<u16>| ret(i012_be_to_bgra(i0, md::<u8>(c, 3), c.planes[3].stride as u32, rng(c), mtx(c)))) },
  |c| unsafe { own::planar_src(c, YuvPlanarImage { y_plane: ms::<u16>(c, 0), y_stride: c.planes[0].stride as u32, u_plane: ms::<u16>(c, 1), u_stride: c.planes[1].stride as u32, v_plane: ms::<u16>(c, 2), v_stride: c.planes[2].stride as u32, width: c.w[0], height: c.h[0] }, 0, 0, YuvChromaSubsampling::Yuv420, |i0: &YuvPlanarImage<u16>| ret(i012_be_to_rgb(i0, md::<u8>(c, 3), c.planes[3].stride as u32, rng(c), mtx(c)))) },
  |c| unsafe { own::planar_src(c, YuvPlanarImage { y_plane: ms::<u16>(c, 0), y_stride: c.planes[0].stride as u32, u_plane: ms::<u16>(c, 1), u_stride: c.planes[1].stride as u32, v_plane: ms::<u16>(c, 2), v_stride: c.planes[2].stride as u32, width: c.w[0], height: c.h[0] }, 0, 0, YuvChromaSubsampling::Yuv420, |i0: &YuvPlanarImage<u16>| ret(i012_be_to_rgb12(i0, md::<u16>(c, 3), c.planes[3].stride as u32, rng(c), mtx(c)))) },
  |c| unsafe { own::planar_src(c, YuvPlanarImage { y_plane: ms::<u16>(c, 0), y_stride: c.planes[0].stride as u32, u_plane: ms::<u16>(c, 1), u_stride: c.planes[1].stride as u32, v_plane: ms::<u16>(c, 2), v_stride: c.planes[2].stride as u32, width: c.w[0], height: c.h[0] }, 0, 0, YuvChromaSubsampling::Yuv420, |i0: &YuvPlanarImage<u16>| ret(i012_be_to_rgba(i0, md::<u8>(c, 3), c.planes[3].stride as u32, rng(c), mtx(c)))) },
  |c| unsafe { own::planar_src(c, YuvPlanarImage { y_plane: ms::<u16>(c, 0), y_stride: c.planes[0].stride as u32, u_plane: ms::<u16>(c, 1), u_stride: c.planes[1].stride as u32, v_plane: ms::<u16>(c, 2), v_stride: c.planes[2].stride as u32, width: c.w[0], height: c.h[0] }, 0, 0, YuvChromaSubsampling::Yuv420, |i0: &YuvPlanarImage<u16>| ret(i012_be_to_rgba12(i0, md::<u16>(c, 3), c.planes[3].stride as u32, rng(c), mtx(c)))) },
  |c| unsafe { own::planar_src(c, YuvPlanarImage { y_plane: ms::<u16>(c, 0), y_stride: c.planes[0].stride as u32, u_plane: ms::<u16>(c, 1), u_stride: c.planes[1].stride as u32, v_plane: ms::<u16>(c, 2), v_stride: c.planes[2].stride as u32, width: c.w[0], height: c.h[0] }, 0, 0, YuvChromaSubsampling::Yuv420, |i0: &YuvPlanarImage<u16>| ret(i012_to_ar30(i0, md::<u8>(c, 3), c.planes[3].stride as u32, bo(c), rng(c), mtx(c)))) },
  |c| unsafe { own::planar_src(c, YuvPlanarImage { y_plane: ms::<u16>(c, 0), y_stride: c.planes[0].stride as u32, u_plane: ms::<u16>(c, 1), u_stride: c.planes[1].stride as u32, v_plane: ms::<u16>(c, 2), v_stride: c.planes[2].stride as u32, width: c.w[0], height: c.h[0] }, 0, 0, YuvChromaSubsampling::Yuv420, |i0: &YuvPlanarImage<u16>| ret(i012_to_bgr(i0, md::<u8>(c, 3), c.planes[3].stride as u32, rng(c), mtx(c)))) },
  |c| unsafe { own::planar_src(c, YuvPlanarImage { y_plane: ms::<u16>(c, 0), y_stride: c.planes[0].stride as u32, u_plane: ms::<u16>(c, 1), u_stride: c.planes[1].stride as u32, v_plane: ms::<u16>(c, 2), v_stride: c.planes[2].stride as u32, width: c.w[0], height: c.h[0] }, 0, 0, YuvChromaSubsampling::Yuv420, |i0: &YuvPlanarImage<u16>| ret(i012_to_bgra(i0, md::<u8>(c, 3), c.planes[3].stride as u32, rng(c), mtx(c)))) },
  |c| unsafe { own::planar_src(c, YuvPlanarImage { y_plane: ms::<u16>(c, 0), y_stride: c.planes[0].stride as u32, u_plane: ms::<u16>(c, 1), u_stride: c.planes[1].stride as u32, v_plane: ms::<u16>(c, 2), v_stride: c.planes[2].stride as u32, width: c.w[0], height: c.h[0] }, 0, 0, YuvChromaSubsampling::Yuv420, |i0: &YuvPlanarImage<u16>| ret(i012_to_ra30(i0, md::<u8>(c, 3), c.planes[3].stride as u32, bo(c), rng(c), mtx(c)))) },
  |c| unsafe { own::planar_src(c, YuvPlanarImage { y_plane: ms::<u16>(c, 0), y_stride: c.planes[0].stride as u32, u_plane: ms::<u16>(c, 1), u_stride: c.planes[1].stride as u32, v_plane: ms::<u16>(c, 2), v_stride: c.planes[2].stride as u32, width: c.w[0], height: c.h[0] }, 0, 0, YuvChromaSubsampling::Yuv420, |i0: &YuvPlanarImage<u16>| ret(i012_to_rgb(i0, md::<u8>(c, 3), c.planes[3].stride as u32, rng(c), mtx(c)))) },
  |c| unsafe { own::planar_src(c, YuvPlanarImage { y_plane: ms::<u16>(c, 0), y_stride: c.planes[0].stride as u32, u_plane: ms::<u16>(c, 1), u_stride: c.planes[1].stride as u32, v_plane: ms::<u16>(c, 2), v_stride: c.planes[2].stride as u32, width: c.w[0], height: c.h[0] }, 0, 0, YuvChromaSubsampling::Yuv420, |i0: &YuvPlanarImage<u16>| ret(i012_to_rgb12(i0, md::<u16>(c, 3), c.planes[3].stride as u32, rng(c), mtx(c)))) },
  |c| unsafe { own::planar_src(c, YuvPlanarImage { y_plane: ms::<u16>(c, 0), y_stride: c.planes[0].stride as u32, u_plane: ms::<u16>(c, 1), u_stride: c.planes[1].stride as u32, v_plane: ms::<u16>(c, 2), v_stride: c.planes[2].stride as u32, width: c.w[0], height: c.h[0] }, 0, 0, YuvChromaSubsampling::Yuv420, |i0: &YuvPlanarImage<u16>| ret(i012_to_rgb_f16(i0, md::<f16>(c, 3), c.planes[3].stride as u32, rng(c), mtx(c)))) },
  |c| unsafe { own::planar_src(c, YuvPlanarImage { y_plane: ms::<u16>(c, 0), y_stride: c.planes[0].stride as u32, u_plane: ms::<u16>(c, 1), u_stride: c.planes[1].stride as u32, v_plane: ms::<u16>(c, 2), v_stride: c.planes[2].stride as u32, width: c.w[0], height: c.h[0] }, 0, 0, YuvChromaSubsampling::Yuv420, |i0: &YuvPlanarImage<u16>| ret(i012_to_rgba(i0, md::<u8>(c, 3), c.planes[3].stride as u32, rng(c), mtx(c)))) },
  |c| unsafe { own::planar_src(c, YuvPlanarImage { y_plane: ms::<u16>(c, 0), y_stride: c.planes[0].stride as u32, u_plane: ms::<u16>(c, 1), u_stride: c.planes[1].stride as u32, v_plane: ms::<u16>(c, 2), v_stride: c.planes[2].stride as u32, width: c.w[0], height: c.h[0] }, 0, 0, YuvChromaSubsampling::Yuv420, |i0: &YuvPlanarImage<u16>| ret(i012_to_rgba12(i0, md::<u16>(c, 3), c.planes[3].stride as u32, rng(c), mtx(c)))) },
  |c| unsafe { own::planar_src(c, YuvPlanarImage { y_plane: ms::<u16>(c, 0), y_stride: c.planes[0].stride as u32, u_plane: ms::<u16>(c, 1), u_stride: c.planes[1].stride as u32, v_plane: ms::<u16>(c, 2), v_stride: c.planes[2].stride as u32, width: c.w[0], height: c.h[0] }, 0, 0, YuvChromaSubsampling::Yuv420, |i0: &YuvPlanarImage<u16>| ret(i012_to_rgba_f16(i0, md::<f16>(c, 3), c.planes[3].stride as u32, rng(c), mtx(c)))) },
  |c| unsafe { own::planar_alpha_src(c, YuvPlanarImageWithAlpha { y_plane: ms::<u16>(c, 0), y_stride: c.planes[0].stride as u32, u_plane: ms::<u16>(c, 1), u_stride: c.planes[1].stride as u32, v_plane: ms::<u16>(c, 2), v_stride: c.planes[2].stride as u32, a_plane: ms::<u16>(c, 3), a_stride: c.planes[3].stride as u32, width: c.w[0], height: c.h[0] }, 0, 0, YuvChromaSubsampling::Yuv420, |i0: &YuvPlanarImageWithAlpha<u16>| ret(i014_alpha_to_rgba14(i0, md::<u16>(c, 4), c.planes[4].stride as u32, rng(c), mtx(c)))) },
  |c| unsafe { own::planar_alpha_src(c, YuvPlanarImageWithAlpha { y_plane: ms::<u16>(c, 0), y_stride: c.planes[0].stride as u32, u_plane: ms::<u16>(c, 1), u_stride: c.planes[1].stride as u32, v_plane: ms::<u16>(c, 2), v_stride: c.planes[2].stride as u32, a_plane: ms::<u16>(c, 3), a_stride: c.planes[3].stride as u32, width: c.w[0], height: c.h[0] }, 0, 0, YuvChromaSubsampling::Yuv420, |i0: &YuvPlanarImageWithAlpha<u16>| ret(i014_alpha_to_rgba_f16(i0, md::<f16>(c, 4), c.planes[4].stride as u32, rng(c), mtx(c)))) },
  |c| unsafe { own::planar_alpha_src(c, YuvPlanarImageWithAlpha { y_plane: ms::<u16>(c, 0), y_stride: c.planes[0].stride as u32, u_plane: ms::<u16>(c, 1), u_stride: c.planes[1].stride as u32, v_plane: ms::<u16>(c, 2), v_stride: c.planes[2].stride as u32, a_plane: ms::<u16>(c, 3), a_stride: c.planes[3].stride as u32, width: c.w[0], height: c.h[0] }, 0, 0, YuvChromaSubsampling::Yuv420, |i0: &YuvPlanarImageWithAlpha<u16>| ret(i014_be_alpha_to_rgba14(i0, md::<u16>(c, 4), c.planes[4].stride as u32, rng(c), mtx(c)))) },
  |c| unsafe { own::planar_src(c, YuvPlanarImage { y_plane: ms::<u16>(c, 0), y_stride: c.planes[0].stride as u32, u_plane: ms::<u16>(c, 1), u_stride: c.planes[1].stride as u32, v_plane: ms::<u16>(c, 2), v_stride: c.planes[2].stride as u32, width: c.w[0], height: c.h[0] }, 0, 0, YuvChromaSubsampling::Yuv420, |i0: &YuvPlanarImage<u16>| ret(i014_be_to_rgb14(i0, md::<u16>(c, 3), c.planes[3].stride as u32, rng(c), mtx(c)))) },
  |c| unsafe { own::planar_src(c, YuvPlanarImage { y_plane: ms::<u16>(c, 0), y_stride: c.planes[0].stride as u32, u_plane: ms::<u16>(c, 1), u_stride: c.planes[1].stride as u32, v_plane: ms::<u16>(c, 2), v_stride: c.planes[2].stride as u32, width: c.w[0], height: c.h[0] }, 0, 0, YuvChromaSubsampling::Yuv420, |i0: &YuvPlanarImage<u16>| ret(i014_be_to_rgba14(i0, md::<u16>(c, 3), c.planes[3].stride as u32, rng(c), mtx(c)))) },
  |c| unsafe { own::planar_src(c, YuvPlanarImage { y_plane: ms::<u16>(c, 0), y_stride: c.planes[0].stride as u32, u_plane: ms::<u16>(c, 1), u_stride: c.planes[1].stride as u32, v_plane: ms::<u16>(c, 2), v_stride: c.planes[2].stride as u32, width: c.w[0], height: c.h[0] }, 0, 0, YuvChromaSubsampling::Yuv420, |i0: &YuvPlanarImage<u16>| ret(i014_to_ar30(i0, md::<u8>(c, 3), c.planes[3].stride as u32, bo(c), rng(c), mtx(c)))) },
  |c| unsafe { own::planar_src(c, YuvPlanarImage { y_plane: ms::<u16>(c, 0), y_stride: c.planes[0].stride as u32, u_plane: ms::<u16>(c, 1), u_stride: c.planes[1].stride as u32, v_plane: ms::<u16>(c, 2), v_stride: c.planes[2].stride as u32, width: c.w[0], height: c.h[0] }, 0, 0, YuvChromaSubsampling::Yuv420, |i0: &YuvPlanarImage<u16>| ret(i014_to_ra30(i0, md::<u8>(c, 3), c.planes[3].stride as u32, bo(c), rng(c), mtx(c)))) },
  |c| unsafe { own::planar_src(c, YuvPlanarImage { y_plane: ms::<u16>(c, 0), y_stride: c.planes[0].stride as u32, u_plane: ms::<u16>(c, 1), u_stride: c.planes[1].stride as u32, v_plane: ms::<u16>(c, 2), v_stride: c.planes[2].stride as u32, width: c.w[0], height: c.h[0] }, 0, 0, YuvChromaSubsampling::Yuv420, |i0: &YuvPlanarImage<u16>| ret(i014_to_rgb14(i0, md::<u16>(c, 3), c.planes[3].stride as u32, rng(c), mtx(c)))) },
  |c| unsafe { own::planar_src(c, YuvPlanarImage { y_plane: ms::<u16>(c, 0), y_stride: c.planes[0].stride as u32, u_plane: ms::<u16>(c, 1), u_stride: c.planes[1].stride as u32, v_plane: ms::<u16>(c, 2), v_stride: c.planes[2].stride as u32, width: c.w[0], height: c.h[0] }, 0, 0, YuvChromaSubsampling::Yuv420, |i0: &YuvPlanarImage<u16>| ret(i014_to_rgb_f16(i0, md::<f16>(c, 3), c.planes[3].stride as u32, rng(c), mtx(c)))) },
  |c| unsafe { own::planar_src(c, YuvPlanarImage { y_plane: ms::<u16>(c, 0), y_stride: c.planes[0].stride as u32, u_plane: ms::<u16>(c, 1), u_stride: c.planes[1].stride as u32, v_plane: ms::<u16>(c, 2), v_stride: c.planes[2].stride as u32, width: c.w[0], height: c.h[0] }, 0, 0, YuvChromaSubsampling::Yuv420, |i0: &YuvPlanarImage<u16>| ret(i014_to_rgba14(i0, md::<u16>(c, 3), c.planes[3].stride as u32, rng(c), mtx(c)))) },
  |c| unsafe { own::planar_src(c, YuvPlanarImage { y_plane: ms::<u16>(c, 0), y_stride: c.planes[0].stride as u32, u_plane: ms::<u16>(c, 1), u_stride: c.planes[1].stride as u32, v_plane: ms::<u16>(c, 2), v_stride: c.planes[2].stride as u32, width: c.w[0], height: c.h[0] }, 0, 0, YuvChromaSubsampling::Yuv420, |i0: &YuvPlanarImage<u16>| ret(i014_to_rgba_f16(i0, md::<f16>(c, 3), c.planes[3].stride as u32, rng(c), mtx(c)))) },
  |c| unsafe { own::planar_src(c, YuvPlanarImage { y_plane: ms::<u16>(c, 0), y_stride: c.planes[0].stride as u32, u_plane: ms::<u16>(c, 1), u_stride: c.planes[1].stride as u32, v_plane: ms::<u16>(c, 2), v_stride: c.planes[2].stride as u32, width: c.w[0], height: c.h[0] }, 0, 0, YuvChromaSubsampling::Yuv420, |i0: &YuvPlanarImage<u16>| ret(i016_be_to_rgb16(i0, md::<u16>(c, 3), c.planes[3].stride as u32, rng(c), mtx(c)))) },
  |c| unsafe { own::planar_src(c, YuvPlanarImage { y_plane: ms::<u16>(c, 0), y_stride: c.planes[0].stride as u32, u_plane: ms::<u16>(c, 1), u_stride: c.planes[1].stride as u32, v_plane: ms::<u16>(c, 2), v_stride: c.planes[2].stride as u32, width: c.w[0], height: c.h[0] }, 0, 0, YuvChromaSubsampling::Yuv420, |i0: &YuvPlanarImage<u16>| ret(i016_be_to_rgba16(i0, md::<u16>(c, 3), c.planes[3].stride as u32, rng(c), mtx(c)))) },
  |c| unsafe { own::planar_src(c, YuvPlanarImage { y_plane: ms::<u16>(c, 0), y_stride: c.planes[0].stride as u32, u_plane: ms::<u16>(c, 1), u_stride: c.planes[1].stride as u32, v_plane: ms::<u16>(c, 2), v_stride: c.planes[2].stride as u32, width: c.w[0], height: c.h[0] }, 0, 0, YuvChromaSubsampling::Yuv420, |i0: &YuvPlanarImage<u16>| ret(i016_to_rgb16(i0, md::<u16>(c, 3), c.planes[3].stride as u32, rng(c), mtx(c)))) },
  |c| unsafe { own::planar_src(c, YuvPlanarImage { y_plane: ms::<u16>(c, 0), y_stride: c.planes[0].stride as u32, u_plane: ms::<u16>(c, 1), u_stride: c.planes[1].stride as u32, v_plane: ms::<u16>(c, 2), v_stride: c.planes[2].stride as u32, width: c.w[0], height: c.h[0] }, 0, 0, YuvChromaSubsampling::Yuv420, |i0: &YuvPlanarImage<u16>| ret(i016_to_rgba16(i0, md::<u16>(c, 3), c.planes[3].stride as u32, rng(c), mtx(c)))) },
  |c| unsafe { own::planar_alpha_src(c, YuvPlanarImageWithAlpha { y_plane: ms::<u16>(c, 0), y_stride: c.planes[0].stride as u32, u_plane: ms::<u16>(c, 1), u_stride: c.planes[1].stride as u32, v_plane: ms::<u16>(c, 2), v_stride: c.planes[2].stride as u32, a_plane: ms::<u16>(c, 3), a_stride: c.planes[3].stride as u32, width: c.w[0], height: c.h[0] }, 0, 0, YuvChromaSubsampling::Yuv422, |i0: &YuvPlanarImageWithAlpha<u16>| ret(i210_alpha_be_to_rgba(i0, md::<u8>(c, 4), c.planes[4].stride as u32, rng(c), mtx(c)))) },
  |c| unsafe { own::planar_alpha_src(c, YuvPlanarImageWithAlpha { y_plane: ms::<u16>(c, 0), y_stride: c.planes[0].stride as u32, u_plane: ms::<u16>(c, 1), u_stride: c.planes[1].stride as u32, v_plane: ms::<u16>(c, 2), v_stride: c.planes[2].stride as u32, a_plane: ms::<u16>(c, 3), a_stride: c.planes[3].stride as u32, width: c.w[0], height: c.h[0] }, 0, 0, YuvChromaSubsampling::Yuv422, |i0: &YuvPlanarImageWithAlpha<u16>| ret(i210_alpha_be_to_rgba10(i0, md::<u16>(c, 4), c.planes[4].stride as u32, rng(c), mtx(c)))) },
  |c| unsafe { own::planar_alpha_src(c, YuvPlanarImageWithAlpha { y_plane: ms::<u16>(c, 0), y_stride: c.planes[0].stride as u32, u_plane: ms::<u16>(c, 1), u_stride: c.planes[1].stride as u32, v_plane: ms::<u16>(c, 2), v_stride: c.planes[2].stride as u32, a_plane: ms::<u16>(c, 3), a_stride: c.planes[3].stride as u32, width: c.w[0], height: c.h[0] }, 0, 0, YuvChromaSubsampling::Yuv422, |i0: &YuvPlanarImageWithAlpha<u16>| ret(i210_alpha_to_rgba(i0, md::<u8>(c, 4), c.planes[4].stride as u32, rng(c), mtx(c)))) },
  |c| unsafe { own::planar_alpha_src(c, YuvPlanarImageWithAlpha { y_plane: ms::<u16>(c, 0), y_stride: c.planes[0].stride as u32, u_plane: ms::<u16>(c, 1), u_stride: c.planes[1].stride as u32, v_plane: ms::<u16>(c, 2), v_stride: c.planes[2].stride as u32, a_plane: ms::<u16>(c, 3), a_stride: c.planes[3].stride as u32, width: c.w[0], height: c.h[0] }, 0, 0, YuvChromaSubsampling::Yuv422, |i0: &YuvPlanarImageWithAlpha<u16>| ret(i210_alpha_to_rgba10(i0, md::<u16>(c, 4), c.planes[4].stride as u32, rng(c), mtx(c)))) },
  |c| unsafe { own::planar_alpha_src(c, YuvPlanarImageWithAlpha { y_plane: ms::<u16>(c, 0), y_stride: c.planes[0].stride as u32, u_plane: ms::<u16>(c, 1), u_stride: c.planes[1].stride as u32, v_plane: ms::<u16>(c, 2), v_stride: c.planes[2].stride as u32, a_plane: ms::<u16>(c, 3), a_stride: c.planes[3].stride as u32, width: c.w[0], height: c.h[0] }, 0, 0, YuvChromaSubsampling::Yuv422, |i0: &YuvPlanarImageWithAlpha<u16>| ret(i210_alpha_to_rgba_f16(i0, md::<f16>(c, 4), c.planes[4].stride as u32, rng(c), mtx(c)))) },
  |c| unsafe { own::planar_src(c, YuvPlanarImage { y_plane: ms::<u16>(c, 0), y_stride: c.planes[0].stride as u32, u_plane: ms::<u16>(c, 1), u_stride: c.planes[1].stride as u32, v_plane: ms::<u16>(c, 2), v_stride: c.planes[2].stride as u32, width: c.w[0], height: c.h[0] }, 0, 0, YuvChromaSubsampling::Yuv422, |i0: &YuvPlanarImage<u16>| ret(i210_be_to_bgr(i0, md::<u8>(c, 3), c.planes[3].stride as u32, rng(c), mtx(c)))) },
  |c| unsafe { own::planar_src(c, YuvPlanarImage { y_plane: ms::<u16>(c, 0), y_stride: c.planes[0].stride as u32, u_plane: ms::<u16>(c, 1), u_stride: c.planes[1].stride as u32, v_plane: ms::<u16>(c, 2), v_stride: c.planes[2].stride as u32, width: c.w[0], height: c.h[0] }, 0, 0, YuvChromaSubsampling::Yuv422, |i0: &YuvPlanarImage<u16>| ret(i210_be_to_bgra(i0, md::<u8>(c, 3), c.planes[3].stride as u32, rng(c), mtx(c)))) },
  |c| unsafe { own::planar_src(c, YuvPlanarImage { y_plane: ms::<u16>(c, 0), y_stride: c.planes[0].stride as u32, u_plane: ms::<u16>(c, 1), u_stride: c.planes[1].stride as u32, v_plane: ms::<u16>(c, 2), v_stride: c.planes[2].stride as u32, width: c.w[0], height: c.h[0] }, 0, 0, YuvChromaSubsampling::Yuv422, |i0: &YuvPlanarImage<u16>| ret(i210_be_to_rgb(i0, md::<u8>(c, 3), c.planes[3].stride as u32, rng(c), mtx(c)))) },
  |c| unsafe { own::planar_src(c, YuvPlanarImage { y_plane: ms::<u16>(c, 0), y_stride: c.planes[0].stride as u32, u_plane: ms::<u16>(c, 1), u_stride: c.planes[1].stride as u32, v_plane: ms::<u16>(c, 2), v_stride: c.planes[2].stride as u32, width: c.w[0], height: c.h[0] }, 0, 0, YuvChromaSubsampling::Yuv422, |i0: &YuvPlanarImage<u16>| ret(i210_be_to_rgb10(i0, md::<u16>(c, 3), c.planes[3].stride as u32, rng(c), mtx(c)))) },
  |c| unsafe { own::planar_src(c, YuvPlanarImage { y_plane: ms::<u16>(c, 0), y_stride: c.planes[0].stride as u32, u_plane: ms::<u16>(c, 1), u_stride: c.planes[1].stride as u32, v_plane: ms::<u16>(c, 2), v_stride: c.planes[2].stride as u32, width: c.w[0], height: c.h[0] }, 0, 0, YuvChromaSubsampling::Yuv422, |i0: &YuvPlanarImage<u16>| ret(i210_be_to_rgba(i0, md::<u8>(c, 3), c.planes[3].stride as u32, rng(c), mtx(c)))) },
  |c| unsafe { own::planar_src(c, YuvPlanarImage { y_plane: ms::<u16>(c, 0), y_stride: c.planes[0].stride as u32, u_plane: ms::<u16>(c, 1), u_stride: c.planes[1].stride as u32, v_plane: ms::<u16>(c, 2), v_stride: c.planes[2].stride as u32, width: c.w[0], height: c.h[0] }, 0, 0, YuvChromaSubsampling::Yuv422, |i0: &YuvPlanarImage<u16>| ret(i210_be_to_rgba10(i0, md::<u16>(c, 3), c.planes[3].stride as u32, rng(c), mtx(c)))) },
  |c| unsafe { own::planar_src(c, YuvPlanarImage { y_plane: ms::<u16>(c, 0), y_stride: c.planes[0].stride as u32, u_plane: ms::<u16>(c, 1), u_stride: c.planes[1].stride as u32, v_plane: ms::<u16>(c, 2), v_stride: c.planes[2].stride as u32, width: c.w[0], height: c.h[0] }, 0, 0, YuvChromaSubsampling::Yuv422, |i0: &YuvPlanarImage<u16>| ret(i210_to_ar30(i0, md::<u8>(c, 3), c.planes[3].stride as u32, bo(c), rng(c), mtx(c)))) },
  |c| unsafe { own::planar_src(c, YuvPlanarImage { y_plane: ms::<u16>(c, 0), y_stride: c.planes[0].stride as u32, u_plane: ms::<u16>(c, 1), u_stride: c.planes[1].stride as u32, v_plane: ms::<u16>(c, 2), v_stride: c.planes[2].stride as u32, width: c.w[0], height: c.h[0] }, 0, 0, YuvChromaSubsampling::Yuv422, |i0: &YuvPlanarImage<u16>| ret(i210_to_bgr(i0, md::<u8>(c, 3), c.planes[3].stride as u32, rng(c), mtx(c)))) },
  |c| unsafe { own::planar_src(c, YuvPlanarImage { y_plane: ms::<u16>(c, 0), y_stride: c.planes[0].stride as u32, u_plane: ms::<u16>(c, 1), u_stride: c.planes[1].stride as u32, v_plane: ms::<u16>(c, 2), v_stride: c.planes[2].stride as u32, width: c.w[0], height: c.h[0] }, 0, 0, YuvChromaSubsampling::Yuv422, |i0: &YuvPlanarImage<u16>| ret(i210_to_bgra(i0, md::<u8>(c, 3), c.planes[3].stride as u32, rng(c), mtx(c)))) },
  |c| unsafe { own::planar_src(c, YuvPlanarImage { y_plane: ms::<u16>(c, 0), y_stride: c.planes[0].stride as u32, u_plane: ms::<u16>(c, 1), u_stride: c.planes[1].stride as u32, v_plane: ms::<u16>(c, 2), v_stride: c.planes[2].stride as u32, width: c.w[0], height: c.h[0] }, 0, 0, YuvChromaSubsampling::Yuv422, |i0: &YuvPlanarImage<u16>| ret(i210_to_ra30(i0, md::<u8>(c, 3), c.planes[3].stride as u32, bo(c), rng(c), mtx(c)))) },
  |c| unsafe { own::planar_src(c, YuvPlanarImage { y_plane: ms::<u16>(c, 0), y_stride: c.planes[0].stride as u32, u_plane: ms::<u16>(c, 1), u_stride: c.planes[1].stride as u32, v_plane: ms::<u16>(c, 2), v_stride: c.planes[2].stride as u32, width: c.w[0], height: c.h[0] }, 0, 0, YuvChromaSubsampling::Yuv422, |i0: &YuvPlanarImage<u16>| ret(i210_to_rgb(i0, md::<u8>(c, 3), c.planes[3].stride as u32, rng(c), mtx(c)))) },
  |c| unsafe { own::planar_src(c, YuvPlanarImage { y_plane: ms::<u16>(c, 0), y_stride: c.planes[0].stride as u32, u_plane: ms::<u16>(c, 1), u_stride: c.planes[1].stride as u32, v_plane: ms::<u16>(c, 2), v_stride: c.planes[2].stride as u32, width: c.w[0], height: c.h[0] }, 0, 0, YuvChromaSubsampling::Yuv422, |i0: &YuvPlanarImage<u16>| ret(i210_to_rgb10(i0, md::<u16>(c, 3), c.planes[3].stride as u32, rng(c), mtx(c)))) },
  |c| unsafe { own::planar_src(c, YuvPlanarImage { y_plane: ms::<u16>(c, 0), y_stride: c.planes[0].stride as u32, u_plane: ms::<u16>(c, 1), u_stride: c.planes[1].stride as u32, v_plane: ms::<u16>(c, 2), v_stride: c.planes[2].stride as u32, width: c.w[0], height: c.h[0] }, 0, 0, YuvChromaSubsampling::Yuv422, |i0: &YuvPlanarImage<u16>| ret(i210_to_rgb_f16(i0, md::<f16>(c, 3), c.planes[3].stride as u32, rng(c), mtx(c)))) },
  |c| unsafe { own::planar_src(c, YuvPlanarImage { y_plane: ms::<u16>(c, 0), y_stride: c.planes[0].stride as u32, u_plane: ms::<u16>(c, 1), u_stride: c.planes[1].stride as u32, v_plane: ms::<u16>(c, 2), v_stride: c.planes[2].stride as u32, width: c.w[0], height: c.h[0] }, 0, 0, YuvChromaSubsampling::Yuv422, |i0: &YuvPlanarImage<u16>| ret(i210_to_rgba(i0, md::<u8>(c, 3), c.planes[3].stride as u32, rng(c), mtx(c)))) },
  |c| unsafe { own::planar_src(c, YuvPlanarImage { y_plane: ms::<u16>(c, 0), y_stride: c.planes[0].stride as u32, u_plane: ms::<u16>(c, 1), u_stride: c.planes[1].stride as u32, v_plane: ms::<u16>(c, 2), v_stride: c.planes[2].stride as u32, width: c.w[0], height: c.h[0] }, 0, 0, YuvChromaSubsampling::Yuv422, |i0: &YuvPlanarImage<u16>| ret(i210_to_rgba10(i0, md::<u16>(c, 3), c.planes[3].stride as u32, rng(c), mtx(c)))) },
  |c| unsafe { own::planar_src(c, YuvPlanarImage { y_plane: ms::<u16>(c, 0), y_stride: c.planes[0].stride as u32, u_plane: ms::<u16>(c, 1), u_stride: c.planes[1].stride as u32, v_plane: ms::<u16>(c, 2), v_stride: c.planes[2].stride as u32, width: c.w[0], height: c.h[0] }, 0, 0, YuvChromaSubsampling::Yuv422, |i0: &YuvPlanarImage<u16>| ret(i210_to_rgba_f16(i0, md::<f16>(c, 3), c.planes[3].stride as u32, rng(c), mtx(c)))) },
  |c| unsafe { own::planar_alpha_src(c, YuvPlanarImageWithAlpha { y_plane: ms::<u16>(c, 0), y_stride: c.planes[0].stride as u32, u_plane: ms::<u16>(c, 1), u_stride: c.planes[1].stride as u32, v_plane: ms::<u16>(c, 2), v_stride: c.planes[2].stride as u32, a_plane: ms::<u16>(c, 3), a_stride: c.planes[3].stride as u32, width: c.w[0], height: c.h[0] }, 0, 0, YuvChromaSubsampling::Yuv422, |i0: &YuvPlanarImageWithAlpha<u16>| ret(i212_alpha_to_rgba(i0, md::<u8>(c, 4), c.planes[4].stride as u32, rng(c), mtx(c)))) },
  |c| unsafe { own::planar_alpha_src(c, YuvPlanarImageWithAlpha { y_plane: ms::<u16>(c, 0), y_stride: c.planes[0].stride as u32, u_plane: ms::<u16>(c, 1), u_stride: c.planes[1].stride as u32, v_plane: ms::<u16>(c, 2), v_stride: c.planes[2].stride as u32, a_plane: ms::<u16>(c, 3), a_stride: c.planes[3].stride as u32, width: c.w[0], height: c.h[0] }, 0, 0, YuvChromaSubsampling::Yuv422, |i0: &YuvPlanarImageWithAlpha<u16>| ret(i212_alpha_to_rgba12(i0, md::<u16>(c, 4), c.planes[4].stride as u32, rng(c), mtx(c)))) },
  |c| unsafe { own::planar_alpha_src(c, YuvPlanarImageWithAlpha { y_plane: ms::<u16>(c, 0), y_stride: c.planes[0].stride as u32, u_plane: ms::<u16>(c, 1), u_stride: c.planes[1].stride as u32, v_plane: ms::<u16>(c, 2), v_stride: c.planes[2].stride as u32, a_plane: ms::<u16>(c, 3), a_stride: c.planes[3].stride as u32, width: c.w[0], height: c.h[0] }, 0, 0, YuvChromaSubsampling::Yuv422, |i0: &YuvPlanarImageWithAlpha<u16>| ret(i212_alpha_to_rgba_f16(i0, md::<f16>(c, 4), c.planes[4].stride as u32, rng(c), mtx(c)))) },
  |c| unsafe { own::planar_alpha_src(c, YuvPlanarImageWithAlpha { y_plane: ms::<u16>(c, 0), y_stride: c.planes[0].stride as u32, u_plane: ms::<u16>(c, 1), u_stride: c.planes[1].stride as u32, v_plane: ms::<u16>(c, 2), v_stride: c.planes[2].stride as u32, a_plane: ms::<u16>(c, 3), a_stride: c.planes[3].stride as u32, width: c.w[0], height: c.h[0] }, 0, 0, YuvChromaSubsampling::Yuv422, |i0: &YuvPlanarImageWithAlpha<u16>| ret(i212_be_alpha_to_rgba(i0, md::<u8>(c, 4), c.planes[4].stride as u32, rng(c), mtx(c)))) },
  |c| unsafe { own::planar_alpha_src(c, YuvPlanarImageWithAlpha { y_plane: ms::<u16>(c, 0), y_stride: c.planes[0].stride as u32, u_plane: ms::<u16>(c, 1), u_stride: c.planes[1].stride as u32, v_plane: ms::<u16>(c, 2), v_stride: c.planes[2].stride as u32, a_plane: ms::<u16>(c, 3), a_stride: c.planes[3].stride as u32, width: c.w[0], height: c.h[0] }, 0, 0, YuvChromaSubsampling::Yuv422, |i0: &YuvPlanarImageWithAlpha<u16>| ret(i212_be_alpha_to_rgba12(i0, md::<u16>(c, 4), c.planes[4].stride as u32, rng(c), mtx(c)))) },
  |c| unsafe { own::planar_src(c, YuvPlanarImage { y_plane: ms::<u16>(c, 0), y_stride: c.planes[0].stride as u32, u_plane: ms::<u16>(c, 1), u_stride: c.planes[1].stride as u32, v_plane: ms::<u16>(c, 2), v_stride: c.planes[2].stride as u32, width: c.w[0], height: c.h[0] }, 0, 0, YuvChromaSubsampling::Yuv422, |i0: &YuvPlanarImage<u16>| ret(i212_be_to_bgr(i0, md::<u8>(c, 3), c.planes[3].stride as u32, rng(c), mtx(c)))) },
  |c| unsafe { own::planar_src(c, YuvPlanarImage { y_plane: ms::<u16>(c, 0), y_stride: c.planes[0].stride as u32, u_plane: ms::<u16>(c, 1), u_stride: c.planes[1].stride as u32, v_plane: ms::<u16>(c, 2), v_stride: c.planes[2].stride as u32, width: c.w[0], height: c.h[0] }, 0, 0, YuvChromaSubsampling::Yuv422, |i0: &YuvPlanarImage<u16>| ret(i212_be_to_bgra(i0, md::<u8>(c, 3), c.planes[3].stride as u32, rng(c), mtx(c)))) },
  |c| unsafe { own::planar_src(c, YuvPlanarImage { y_plane: ms::<u16>(c, 0), y_stride: c.planes[0].stride as u32, u_plane: ms::<u16>(c, 1), u_stride: c.planes[1].stride as u32, v_plane: ms::<u16>(c, 2), v_stride: c.planes[2].stride as u32, width: c.w[0], height: c.h[0] }, 0, 0, YuvChromaSubsampling::Yuv422, |i0: &YuvPlanarImage<u16>| ret(i212_be_to_rgb(i0, md::<u8>(c, 3), c.planes[3].stride as u32, rng(c), mtx(c)))) },
  |c| unsafe { own::planar_src(c, YuvPlanarImage { y_plane: ms::<u16>(c, 0), y_stride: c.planes[0].stride as u32, u_plane: ms::<u16>(c, 1), u_stride: c.planes[1].stride as u32, v_plane: ms::<u16>(c, 2), v_stride: c.planes[2].stride as u32, width: c.w[0], height: c.h[0] }, 0, 0, YuvChromaSubsampling::Yuv422, |i0: &YuvPlanarImage<u16>| ret(i212_be_to_rgb12(i0, md::<u16>(c, 3), c.planes[3].stride as u32, rng(c), mtx(c)))) },
  |c| unsafe { own::planar_src(c, YuvPlanarImage { y_plane: ms::<u16>(c, 0), y_stride: c.planes[0].stride as u32, u_plane: ms::<u16>(c, 1), u_stride: c.planes[1].stride as u32, v_plane: ms::<u16>(c, 2), v_stride: c.planes[2].stride as u32, width: c.w[0], height: c.h[0] }, 0, 0, YuvChromaSubsampling::Yuv422, |i0: &YuvPlanarImage<u16>| ret(i212_be_to_rgba(i0, md::<u8>(c, 3), c.planes[3].stride as u32, rng(c), mtx(c)))) },
  |c| unsafe { own::planar_src(c, YuvPlanarImage { y_plane: ms::<u16>(c, 0), y_stride: c.planes[0].stride as u32, u_plane: ms::<u16>(c, 1), u_stride: c.planes[1].stride as u32, v_plane: ms::<u16>(c, 2), v_stride: c.planes[2].stride as u32, width: c.w[0], height: c.h[0] }, 0, 0, YuvChromaSubsampling::Yuv422, |i0: &YuvPlanarImage<u16>| ret(i212_be_to_rgba12(i0, md::<u16>(c, 3), c.planes[3].stride as u32, rng(c), mtx(c)))) },
  |c| unsafe { own::planar_src(c, YuvPlanarImage { y_plane: ms::<u16>(c, 0), y_stride: c.planes[0].stride as u32, u_plane: ms::<u16>(c, 1), u_stride: c.planes[1].stride as u32, v_plane: ms::<u16>(c, 2), v_stride: c.planes[2].stride as u32, width: c.w[0], height: c.h[0] }, 0, 0, YuvChromaSubsampling::Yuv422, |i0: &YuvPlanarImage<u16>| ret(i212_to_ar30(i0, md::<u8>(c, 3), c.planes[3].stride as u32, bo(c), rng(c), mtx(c)))) },
  |c| unsafe { own::planar_src(c, YuvPlanarImage { y_plane: ms::<u16>(c, 0), y_stride: c.planes[0].stride as u32, u_plane: ms::<u16>(c, 1), u_stride: c.planes[1].stride as u32, v_plane: ms::<u16>(c, 2), v_stride: c.planes[2].stride as u32, width: c.w[0], height: c.h[0] }, 0, 0, YuvChromaSubsampling::Yuv422, |i0: &YuvPlanarImage<u16>| ret(i212_to_bgr(i0, md::<u8>(c, 3), c.planes[3].stride as u32, rng(c), mtx(c)))) },
  |c| unsafe { own::planar_src(c, YuvPlanarImage { y_plane: ms::<u16>(c, 0), y_stride: c.planes[0].stride as u32, u_plane: ms::<u16>(c, 1), u_stride: c.planes[1].stride as u32, v_plane: ms::<u16>(c, 2), v_stride: c.planes[2].stride as u32, width: c.w[0], height: c.h[0] }, 0, 0, YuvChromaSubsampling::Yuv422, |i0: &YuvPlanarImage<u16>| ret(i212_to_bgra(i0, md::<u8>(c, 3), c.planes[3].stride as u32, rng(c), mtx(c)))) },
  |c| unsafe { own::planar_src(c, YuvPlanarImage { y_plane: ms::<u16>(c, 0), y_stride: c.planes[0].stride as u32, u_plane: ms::<u16>(c, 1), u_stride: c.planes[1].stride as u32, v_plane: ms::<u16>(c, 2), v_stride: c.planes[2].stride as u32, width: c.w[0], height: c.h[0] }, 0, 0, YuvChromaSubsampling::Yuv422, |i0: &YuvPlanarImage<u16>| ret(i212_to_ra30(i0, md::<u8>(c, 3), c.planes[3].stride as u32, bo(c), rng(c), mtx(c)))) },
  |c| unsafe { own::planar_src(c, YuvPlanarImage { y_plane: ms::<u16>(c, 0), y_stride: c.planes[0].stride as u32, u_plane: ms::<u16>(c, 1), u_stride: c.planes[1].stride as u32, v_plane: ms::<u16>(c, 2), v_stride: c.planes[2].stride as u32, width: c.w[0], height: c.h[0] }, 0, 0, YuvChromaSubsampling::Yuv422, |i0: &YuvPlanarImage<u16>| ret(i212_to_rgb(i0, md::<u8>(c, 3), c.planes[3].stride as u32, rng(c), mtx(c)))) },
  |c| unsafe { own::planar_src(c, YuvPlanarImage { y_plane: ms::<u16>(c, 0), y_stride: c.planes[0].stride as u32, u_plane: ms::<u16>(c, 1), u_stride: c.planes[1].stride as u32, v_plane: ms::<u16>(c, 2), v_stride: c.planes[2].stride as u32, width: c.w[0], height: c.h[0] }, 0, 0, YuvChromaSubsampling::Yuv422, |i0: &YuvPlanarImage<u16>| ret(i212_to_rgb12(i0, md::<u16>(c, 3), c.planes[3].stride as u32, rng(c), mtx(c)))) },
  |c| unsafe { own::planar_src(c, YuvPlanarImage { y_plane: ms::<u16>(c, 0), y_stride: c.planes[0].stride as u32, u_plane: ms::<u16>(c, 1), u_stride: c.planes[1].stride as u32, v_plane: ms::<u16>(c, 2), v_stride: c.planes[2].stride as u32, width: c.w[0], height: c.h[0] }, 0, 0, YuvChromaSubsampling::Yuv422, |i0: &YuvPlanarImage<u16>| ret(i212_to_rgb_f16(i0, md::<f16>(c, 3), c.planes[3].stride as u32, rng(c), mtx(c)))) },
  |c| unsafe { own::planar_src(c, YuvPlanarImage { y_plane: ms::<u16>(c, 0), y_stride: c.planes[0].stride as u32, u_plane: ms::<u16>(c, 1), u_stride: c.planes[1].stride as u32, v_plane: ms::<u16>(c, 2), v_stride: c.planes[2].stride as u32, width: c.w[0], height: c.h[0] }, 0, 0, YuvChromaSubsampling::Yuv422, |i0: &YuvPlanarImage<u16>| ret(i212_to_rgba(i0, md::<u8>(c, 3), c.planes[3].stride as u32, rng(c), mtx(c)))) },
  |c| unsafe { own::planar_src(c, YuvPlanarImage { y_plane: ms::<u16>(c, 0), y_stride: c.planes[0].stride as u32, u_plane: ms::<u16>(c, 1), u_stride: c.planes[1].stride as u32, v_plane: ms::<u16>(c, 2), v_stride: c.planes[2].stride as u32, width: c.w[0], height: c.h[0] }, 0, 0, YuvChromaSubsampling::Yuv422, |i0: &YuvPlanarImage<u16>| ret(i212_to_rgba12(i0, md::<u16>(c, 3), c.planes[3].stride as u32, rng(c), mtx(c)))) },
  |c| unsafe { own::planar_src(c, YuvPlanarImage { y_plane: ms::<u16>(c, 0), y_stride: c.planes[0].stride as u32, u_plane: ms::<u16>(c, 1), u_stride: c.planes[1].stride as u32, v_plane: ms::<u16>(c, 2), v_stride: c.planes[2].stride as u32, width: c.w[0], height: c.h[0] }, 0, 0, YuvChromaSubsampling::Yuv422, |i0: &YuvPlanarImage<u16>| ret(i212_to_rgba_f16(i0, md::<f16>(c, 3), c.planes[3].stride as u32, rng(c), mtx(c)))) },
  |c| unsafe { own::planar_alpha_src(c, YuvPlanarImageWithAlpha { y_plane: ms::<u16>(c, 0), y_stride: c.planes[0].stride as u32, u_plane: ms::<u16>(c, 1), u_stride: c.planes[1].stride as u32, v_plane: ms::<u16>(c, 2), v_stride: c.planes[2].stride as u32, a_plane: ms::<u16>(c, 3), a_stride: c.planes[3].stride as u32, width: c.w[0], height: c.h[0] }, 0, 0, YuvChromaSubsampling::Yuv422, |i0: &YuvPlanarImageWithAlpha<u16>| ret(i214_alpha_to_rgba14(i0, md::<u16>(c, 4), c.planes[4].stride as u32, rng(c), mtx(c)))) },
  |c| unsafe { own::planar_alpha_src(c, YuvPlanarImageWithAlpha { y_plane: ms::<u16>(c, 0), y_stride: c.planes[0].stride as u32, u_plane: ms::<u16>(c, 1), u_stride: c.planes[1].stride as u32, v_plane: ms::<u16>(c, 2), v_stride: c.planes[2].stride as u32, a_plane: ms::<u16>(c, 3), a_stride: c.planes[3].stride as u32, width: c.w[0], height: c.h[0] }, 0, 0, YuvChromaSubsampling::Yuv422, |i0: &YuvPlanarImageWithAlpha<u16>| ret(i214_alpha_to_rgba_f16(i0, md::<f16>(c, 4), c.planes[4].stride as u32, rng(c), mtx(c)))) },
  |c| unsafe { own::planar_alpha_src(c, YuvPlanarImageWithAlpha { y_plane: ms::<u16>(c, 0), y_stride: c.planes[0].stride as u32, u_plane: ms::<u16>(c, 1), u_stride: c.planes[1].stride as u32, v_plane: ms::<u16>(c, 2), v_stride: c.planes[2].stride as u32, a_plane: ms::<u16>(c, 3), a_stride: c.planes[3].stride as u32, width: c.w[0], height: c.h[0] }, 0, 0, YuvChromaSubsampling::Yuv422, |i0: &YuvPlanarImageWithAlpha<u16>| ret(i214_be_alpha_to_rgba14(i0, md::<u16>(c, 4), c.planes[4].stride as u32, rng(c), mtx(c)))) },
  |c| unsafe { own::planar_src(c, YuvPlanarImage { y_plane: ms::<u16>(c, 0), y_stride: c.planes[0].stride as u32, u_plane: ms::<u16>(c, 1), u_stride: c.planes[1].stride as u32, v_plane: ms::<u16>(c, 2), v_stride: c.planes[2].stride as u32, width: c.w[0], height: c.h[0] }, 0, 0, YuvChromaSubsampling::Yuv422, |i0: &YuvPlanarImage<u16>| ret(i214_be_to_rgb14(i0, md::<u16>(c, 3), c.planes[3].stride as u32, rng(c), mtx(c)))) },
  |c| unsafe { own::planar_src(c, YuvPlanarImage { y_plane: ms::<u16>(c, 0), y_stride: c.planes[0].stride as u32, u_plane: ms::<u16>(c, 1), u_stride: c.planes[1].stride as u32, v_plane: ms::<u16>(c, 2), v_stride: c.planes[2].stride as u32, width: c.w[0], height: c.h[0] }, 0, 0, YuvChromaSubsampling::Yuv422, |i0: &YuvPlanarImage<u16>| ret(i214_be_to_rgba14(i0, md::<u16>(c, 3), c.planes[3].stride as u32, rng(c), mtx(c)))) },
  |c| unsafe { own::planar_src(c, YuvPlanarImage { y_plane: ms::<u16>(c, 0), y_stride: c.planes[0].stride as u32, u_plane: ms::<u16>(c, 1), u_stride: c.planes[1].stride as u32, v_plane: ms::<u16>(c, 2), v_stride: c.planes[2].stride as u32, width: c.w[0], height: c.h[0] }, 0, 0, YuvChromaSubsampling::Yuv422, |i0: &YuvPlanarImage<u16>| ret(i214_to_ar30(i0, md::<u8>(c, 3), c.planes[3].stride as u32, bo(c), rng(c), mtx(c)))) },
  |c| unsafe { own::planar_src(c, YuvPlanarImage { y_plane: ms::<u16>(c, 0), y_stride: c.planes[0].stride as u32, u_plane: ms::<u16>(c, 1), u_stride: c.planes[1].stride as u32, v_plane: ms::<u16>(c, 2), v_stride: c.planes[2].stride as u32, width: c.w[0], height: c.h[0] }, 0, 0, YuvChromaSubsampling::Yuv422, |i0: &YuvPlanarImage<u16>| ret(i214_to_ra30(i0, md::<u8>(c, 3), c.planes[3].stride as u32, bo(c), rng(c), mtx(c)))) },
  |c| unsafe { own::planar_src(c, YuvPlanarImage { y_plane: ms::<u16>(c, 0), y_stride: c.planes[0].stride as u32, u_plane: ms::<u16>(c, 1), u_stride: c.planes[1].stride as u32, v_plane: ms::<u16>(c, 2), v_stride: c.planes[2].stride as u32, width: c.w[0], height: c.h[0] }, 0, 0, YuvChromaSubsampling::Yuv422, |i0: &YuvPlanarImage<u16>| ret(i214_to_rgb14(i0, md::<u16>(c, 3), c.planes[3].stride as u32, rng(c), mtx(c)))) },
  |c| unsafe { own::planar_src(c, YuvPlanarImage { y_plane: ms::<u16>(c, 0), y_stride: c.planes[0].stride as u32, u_plane: ms::<u16>(c, 1), u_stride: c.planes[1].stride as u32, v_plane: ms::<u16>(c, 2), v_stride: c.planes[2].stride as u32, width: c.w[0], height: c.h[0] }, 0, 0, YuvChromaSubsampling::Yuv422, |i0: &YuvPlanarImage<u16>| ret(i214_to_rgb_f16(i0, md::<f16>(c, 3), c.planes[3].stride as u32, rng(c), mtx(c)))) },
  |c| unsafe { own::planar_src(c, YuvPlanarImage { y_plane: ms::<u16>(c, 0), y_stride: c.planes[0].stride as u32, u_plane: ms::<u16>(c, 1), u_stride: c.planes[1].stride as u32, v_plane: ms::<u16>(c, 2), v_stride: c.planes[2].stride as u32, width: c.w[0], height: c.h[0] }, 0, 0, YuvChromaSubsampling::Yuv422, |i0: &YuvPlanarImage<u16>| ret(i214_to_rgba14(i0, md::<u16>(c, 3), c.planes[3].stride as u32, rng(c), mtx(c)))) },
  |c| unsafe { own::planar_src(c, YuvPlanarImage { y_plane: ms::<u16>(c, 0), y_stride: c.planes[0].stride as u32, u_plane: ms::<u16>(c, 1), u_stride: c.planes[1].stride as u32, v_plane: ms::<u16>(c, 2), v_stride: c.planes[2].stride as u32, width: c.w[0], height: c.h[0] }, 0, 0, YuvChromaSubsampling::Yuv422, |i0: &YuvPlanarImage<u16>| ret(i214_to_rgba_f16(i0, md::<f16>(c, 3), c.planes[3].stride as u32, rng(c), mtx(c)))) },
  |c| unsafe { own::planar_src(c, YuvPlanarImage { y_plane: ms::<u16>(c, 0), y_stride: c.planes[0].stride as u32, u_plane: ms::<u16>(c, 1), u_stride: c.planes[1].stride as u32, v_plane: ms::<u16>(c, 2), v_stride: c.planes[2].stride as u32, width: c.w[0], height: c.h[0] }, 0, 0, YuvChromaSubsampling::Yuv422, |i0: &YuvPlanarImage<u16>| ret(i216_be_to_rgb16(i0, md::<u16>(c, 3), c.planes[3].stride as u32, rng(c), mtx(c)))) },
  |c| unsafe { own::planar_src(c, YuvPlanarImage { y_plane: ms::<u16>(c, 0), y_stride: c.planes[0].stride as u32, u_plane: ms::<u16>(c, 1), u_stride: c.planes[1].stride as u32, v_plane: ms::<u16>(c, 2), v_stride: c.planes[2].stride as u32, width: c.w[0], height: c.h[0] }, 0, 0, YuvChromaSubsampling::Yuv422, |i0: &YuvPlanarImage<u16>| ret(i216_be_to_rgba16(i0, md::<u16>(c, 3), c.planes[3].stride as u32, rng(c), mtx(c)))) },
  |c| unsafe { own::planar_src(c, YuvPlanarImage { y_plane: ms::<u16>(c, 0), y_stride: c.planes[0].stride as u32, u_plane: ms::<u16>(c, 1), u_stride: c.planes[1].stride as u32, v_plane: ms::<u16>(c, 2), v_stride: c.planes[2].stride as u32, width: c.w[0], height: c.h[0] }, 0, 0, YuvChromaSubsampling::Yuv422, |i0: &YuvPlanarImage<u16>| ret(i216_to_rgb16(i0, md::<u16>(c, 3), c.planes[3].stride as u32, rng(c), mtx(c)))) },
  |c| unsafe { own::planar_src(c, YuvPlanarImage { y_plane: ms::<u16>(c, 0), y_stride: c.planes[0].stride as u32, u_plane: ms::<u16>(c, 1), u_stride: c.planes[1].stride as u32, v_plane: ms::<u16>(c, 2), v_stride: c.planes[2].stride as u32, width: c.w[0], height: c.h[0] }, 0, 0, YuvChromaSubsampling::Yuv422, |i0: &YuvPlanarImage<u16>| ret(i216_to_rgba16(i0, md::<u16>(c, 3), c.planes[3].stride as u32, rng(c), mtx(c)))) },
  |c| unsafe { own::planar_alpha_src(c, YuvPlanarImageWithAlpha { y_plane: ms::<u16>(c, 0), y_stride: c.planes[0].stride as u32, u_plane: ms::<u16>(c, 1), u_stride: c.planes[1].stride as u32, v_plane: ms::<u16>(c, 2), v_stride: c.planes[2].stride as u32, a_plane: ms::<u16>(c, 3), a_stride: c.planes[3].stride as u32, width: c.w[0], height: c.h[0] }, 0, 0, YuvChromaSubsampling::Yuv444, |i0: &YuvPlanarImageWithAlpha<u16>| ret(i410_alpha_to_rgba(i0, md::<u8>(c, 4), c.planes[4].stride as u32, rng(c), mtx(c)))) },
  |c| unsafe { own::planar_alpha_src(c, YuvPlanarImageWithAlpha { y_plane: ms::<u16>(c, 0), y_stride: c.planes[0].stride as u32, u_plane: ms::<u16>(c, 1), u_stride: c.planes[1].stride as u32, v_plane: ms::<u16>(c, 2), v_stride: c.planes[2].stride as u32, a_plane: ms::<u16>(c, 3), a_stride: c.planes[3].stride as u32, width: c.w[0], height: c.h[0] }, 0, 0, YuvChromaSubsampling::Yuv444, |i0: &YuvPlanarImageWithAlpha<u16>| ret(i410_alpha_to_rgba10(i0, md::<u16>(c, 4), c.planes[4].stride as u32, rng(c), mtx(c)))) },
  |c| unsafe { own::planar_alpha_src(c, YuvPlanarImageWithAlpha { y_plane: ms::<u16>(c, 0), y_stride: c.planes[0].stride as u32, u_plane: ms::<u16>(c, 1), u_stride: c.planes[1].stride as u32, v_plane: ms::<u16>(c, 2), v_stride: c.planes[2].stride as u32, a_plane: ms::<u16>(c, 3), a_stride: c.planes[3].stride as u32, width: c.w[0], height: c.h[0] }, 0, 0, YuvChromaSubsampling::Yuv444, |i0: &YuvPlanarImageWithAlpha<u16>| ret(i410_alpha_to_rgba_f16(i0, md::<f16>(c, 4), c.planes[4].stride as u32, rng(c), mtx(c)))) },
  |c| unsafe { own::planar_alpha_src(c, YuvPlanarImageWithAlpha { y_plane: ms::<u16>(c, 0), y_stride: c.planes[0].stride as u32, u_plane: ms::<u16>(c, 1), u_stride: c.planes[1].stride as u32, v_plane: ms::<u16>(c, 2), v_stride: c.planes[2].stride as u32, a_plane: ms::<u16>(c, 3), a_stride: c.planes[3].stride as u32, width: c.w[0], height: c.h[0] }, 0, 0, YuvChromaSubsampling::Yuv444, |i0: &YuvPlanarImageWithAlpha<u16>| ret(i410_be_alpha_to_rgba(i0, md::<u8>(c, 4), c.planes[4].stride as u32, rng(c), mtx(c)))) },
  |c| unsafe { own::planar_alpha_src(c, YuvPlanarImageWithAlpha { y_plane: ms::<u16>(c, 0), y_stride: c.planes[0].stride as u32, u_plane: ms::<u16>(c, 1), u_stride: c.planes[1].stride as u32, v_plane: ms::<u16>(c, 2), v_stride: c.planes[2].stride as u32, a_plane: ms::<u16>(c, 3), a_stride: c.planes[3].stride as u32, width: c.w[0], height: c.h[0] }, 0, 0, YuvChromaSubsampling::Yuv444, |i0: &YuvPlanarImageWithAlpha<u16>| ret(i410_be_alpha_to_rgba10(i0, md::<u16>(c, 4), c.planes[4].stride as u32, rng(c), mtx(c)))) },
  |c| unsafe { own::planar_src(c, YuvPlanarImage { y_plane: ms::<u16>(c, 0), y_stride: c.planes[0].stride as u32, u_plane: ms::<u16>(c, 1), u_stride: c.planes[1].stride as u32, v_plane: ms::<u16>(c, 2), v_stride: c.planes[2].stride as u32, width: c.w[0], height: c.h[0] }, 0, 0, YuvChromaSubsampling::Yuv444, |i0: &YuvPlanarImage<u16>| ret(i410_be_to_rgb10(i0, md::<u16>(c, 3), c.planes[3].stride as u32, rng(c), mtx(c)))) },
  |c| unsafe { own::planar_src(c, YuvPlanarImage { y_plane: ms::<u16>(c, 0), y_stride: c.planes[0].stride as u32, u_plane: ms::<u16>(c, 1), u_stride: c.planes[1].stride as u32, v_plane: ms::<u16>(c, 2), v_stride: c.planes[2].stride as u32, width: c.w[0], height: c.h[0] }, 0, 0, YuvChromaSubsampling::Yuv444, |i0: &YuvPlanarImage<u16>| ret(i410_be_to_rgba(i0, md::<u8>(c, 3), c.planes[3].stride as u32, rng(c), mtx(c)))) },
  |c| unsafe { own::planar_src(c, YuvPlanarImage { y_plane: ms::<u16>(c, 0), y_stride: c.planes[0].stride as u32, u_plane: ms::<u16>(c, 1), u_stride: c.planes[1].stride as u32, v_plane: ms::<u16>(c, 2), v_stride: c.planes[2].stride as u32, width: c.w[0], height: c.h[0] }, 0, 0, YuvChromaSubsampling::Yuv444, |i0: &YuvPlanarImage<u16>| ret(i410_be_to_rgba10(i0, md::<u16>(c, 3), c.planes[3].stride as u32, rng(c), mtx(c)))) },
  |c| unsafe { own::planar_src(c, YuvPlanarImage { y_plane: ms::<u16>(c, 0), y_stride: c.planes[0].stride as u32, u_plane: ms::<u16>(c, 1), u_stride: c.planes[1].stride as u32, v_plane: ms::<u16>(c, 2), v_stride: c.planes[2].stride as u32, width: c.w[0], height: c.h[0] }, 0, 0, YuvChromaSubsampling::Yuv444, |i0: &YuvPlanarImage<u16>| ret(i410_to_ar30(i0, md::<u8>(c, 3), c.planes[3].stride as u32, bo(c), rng(c), mtx(c)))) },
  |c| unsafe { own::planar_src(c, YuvPlanarImage { y_plane: ms::<u16>(c, 0), y_stride: c.planes[0].stride as u32, u_plane: ms::<u16>(c, 1), u_stride: c.planes[1].stride as u32, v_plane: ms::<u16>(c, 2), v_stride: c.planes[2].stride as u32, width: c.w[0], height: c.h[0] }, 0, 0, YuvChromaSubsampling::Yuv444, |i0: &YuvPlanarImage<u16>| ret(i410_to_ra30(i0, md::<u8>(c, 3), c.planes[3].stride as u32, bo(c), rng(c), mtx(c)))) },
  |c| unsafe { own::planar_src(c, YuvPlanarImage { y_plane: ms::<u16>(c, 0), y_stride: c.planes[0].stride as u32, u_plane: ms::<u16>(c, 1), u_stride: c.planes[1].stride as u32, v_plane: ms::<u16>(c, 2), v_stride: c.planes[2].stride as u32, width: c.w[0], height: c.h[0] }, 0, 0, YuvChromaSubsampling::Yuv444, |i0: &YuvPlanarImage<u16>| ret(i410_to_rgb10(i0, md::<u16>(c, 3), c.planes[3].stride as u32, rng(c), mtx(c)))) },
  |c| unsafe { own::planar_src(c, YuvPlanarImage { y_plane: ms::<u16>(c, 0), y_stride: c.planes[0].stride as u32, u_plane: ms::<u16>(c, 1), u_stride: c.planes[1].stride as u32, v_plane: ms::<u16>(c, 2), v_stride: c.planes[2].stride as u32, width: c.w[0], height: c.h[0] }, 0, 0, YuvChromaSubsampling::Yuv444, |i0: &YuvPlanarImage<u16>| ret(i410_to_rgb_f16(i0, md::<f16>(c, 3), c.planes[3].stride as u32, rng(c), mtx(c)))) },
  |c| unsafe { own::planar_src(c, YuvPlanarImage { y_plane: ms::<u16>(c, 0), y_stride: c.planes[0].stride as u32, u_plane: ms::<u16>(c, 1), u_stride: c.planes[1].stride as u32, v_plane: ms::<u16>(c, 2), v_stride: c.planes[2].stride as u32, width: c.w[0], height: c.h[0] }, 0, 0, YuvChromaSubsampling::Yuv444, |i0: &YuvPlanarImage<u16>| ret(i410_to_rgba(i0, md::<u8>(c, 3), c.planes[3].stride as u32, rng(c), mtx(c)))) },
  |c| unsafe { own::planar_src(c, YuvPlanarImage { y_plane: ms::<u16>(c, 0), y_stride: c.planes[0].stride as u32, u_plane: ms::<u16>(c, 1), u_stride: c.planes[1].stride as u32, v_plane: ms::<u16>(c, 2), v_stride: c.planes[2].stride as u32, width: c.w[0], height: c.h[0] }, 0, 0, YuvChromaSubsampling::Yuv444, |i0: &YuvPlanarImage<u16>| ret(i410_to_rgba10(i0, md::<u16>(c, 3), c.planes[3].stride as u32, rng(c), mtx(c)))) },
  |c| unsafe { own::planar_src(c, YuvPlanarImage { y_plane: ms::<u16>(c, 0), y_stride: c.planes[0].stride as u32, u_plane: ms::<u16>(c, 1), u_stride: c.planes[1].stride as u32, v_plane: ms::<u16>(c, 2), v_stride: c.planes[2].stride as u32, width: c.w[0], height: c.h[0] }, 0, 0, YuvChromaSubsampling::Yuv444, |i0: &YuvPlanarImage<u16>| ret(i410_to_rgba_f16(i0, md::<f16>(c, 3), c.planes[3].stride as u32, rng(c), mtx(c)))) },
  |c| unsafe { own::planar_alpha_src(c, YuvPlanarImageWithAlpha { y_plane: ms::<u16>(c, 0), y_stride: c.planes[0].stride as u32, u_plane: ms::<u16>(c, 1), u_stride: c.planes[1].stride as u32, v_plane: ms::<u16>(c, 2), v_stride: c.planes[2].stride as u32, a_plane: ms::<u16>(c, 3), a_stride: c.planes[3].stride as u32, width: c.w[0], height: c.h[0] }, 0, 0, YuvChromaSubsampling::Yuv444, |i0: &YuvPlanarImageWithAlpha<u16>| ret(i412_alpha_to_rgba(i0, md::<u8>(c, 4), c.planes[4].stride as u32, rng(c), mtx(c)))) },
  |c| unsafe { own::planar_alpha_src(c, YuvPlanarImageWithAlpha { y_plane: ms::<u16>(c, 0), y_stride: c.planes[0].stride as u32, u_plane: ms::<u16>(c, 1), u_stride: c.planes[1].stride as u32, v_plane: ms::<u16>(c, 2), v_stride: c.planes[2].stride as u32, a_plane: ms::<u16>(c, 3), a_stride: c.planes[3].stride as u32, width: c.w[0], height: c.h[0] }, 0, 0, YuvChromaSubsampling::Yuv444, |i0: &YuvPlanarImageWithAlpha<u16>| ret(i412_alpha_to_rgba12(i0, md::<u16>(c, 4), c.planes[4].stride as u32, rng(c), mtx(c)))) },
  |c| unsafe { own::planar_alpha_src(c, YuvPlanarImageWithAlpha { y_plane: ms::<u16>(c, 0), y_stride: c.planes[0].stride as u32, u_plane: ms::<u16>(c, 1), u_stride: c.planes[1].stride as u32, v_plane: ms::<u16>(c, 2), v_stride: c.planes[2].stride as u32, a_plane: ms::<u16>(c, 3), a_stride: c.planes[3].stride as u32, width: c.w[0], height: c.h[0] }, 0, 0, YuvChromaSubsampling::Yuv444, |i0: &YuvPlanarImageWithAlpha<u16>| ret(i412_alpha_to_rgba_f16(i0, md::<f16>(c, 4), c.planes[4].stride as u32, rng(c), mtx(c)))) },
  |c| unsafe { own::planar_alpha_src(c, YuvPlanarImageWithAlpha { y_plane: ms::<u16>(c, 0), y_stride: c.planes[0].stride as u32, u_plane: ms::<u16>(c, 1), u_stride: c.planes[1].stride as u32, v_plane: ms::<u16>(c, 2), v_stride: c.planes[2].stride as u32, a_plane: ms::<u16>(c, 3), a_stride: c.planes[3].stride as u32, width: c.w[0], height: c.h[0] }, 0, 0, YuvChromaSubsampling::Yuv444, |i0: &YuvPlanarImageWithAlpha<u16>| ret(i412_be_alpha_to_rgba(i0, md::<u8>(c, 4), c.planes[4].stride as u32, rng(c), mtx(c)))) },
  |c| unsafe { own::planar_alpha_src(c, YuvPlanarImageWithAlpha { y_plane: ms::<u16>(c, 0), y_stride: c.planes[0].stride as u32, u_plane: ms::<u16>(c, 1), u_stride: c.planes[1].stride as u32, v_plane: ms::<u16>(c, 2), v_stride: c.planes[2].stride as u32, a_plane: ms::<u16>(c, 3), a_stride: c.planes[3].stride as u32, width: c.w[0], height: c.h[0] }, 0, 0, YuvChromaSubsampling::Yuv444, |i0: &YuvPlanarImageWithAlpha<u16>| ret(i412_be_alpha_to_rgba12(i0, md::<u16>(c, 4), c.planes[4].stride as u32, rng(c), mtx(c)))) },
  |c| unsafe { own::planar_src(c, YuvPlanarImage { y_plane: ms::<u16>(c, 0), y_stride: c.planes[0].stride as u32, u_plane: ms::<u16>(c, 1), u_stride: c.planes[1].stride as u32, v_plane: ms::<u16>(c, 2), v_stride: c.planes[2].stride as u32, width: c.w[0], height: c.h[0] }, 0, 0, YuvChromaSubsampling::Yuv444, |i0: &YuvPlanarImage<u16>| ret(i412_be_to_rgb12(i0, md::<u16>(c, 3), c.planes[3].stride as u32, rng(c), mtx(c)))) },
  |c| unsafe { own::planar_src(c, YuvPlanarImage { y_plane: ms::<u16>(c, 0), y_stride: c.planes[0].stride as u32, u_plane: ms::<u16>(c, 1), u_stride: c.planes[1].stride as u32, v_plane: ms::<u16>(c, 2), v_stride: c.planes[2].stride as u32, width: c.w[0], height: c.h[0] }, 0, 0, YuvChromaSubsampling::Yuv444, |i0: &YuvPlanarImage<u16>| ret(i412_be_to_rgba12(i0, md::<u16>(c, 3), c.planes[3].stride as u32, rng(c), mtx(c)))) },
  |c| unsafe { own::planar_src(c, YuvPlanarImage { y_plane: ms::<u16>(c, 0), y_stride: c.planes[0].stride as u32, u_plane: ms::<u16>(c, 1), u_stride: c.planes[1].stride as u32, v_plane: ms::<u16>(c, 2), v_stride: c.planes[2].stride as u32, width: c.w[0], height: c.h[0] }, 0, 0, YuvChromaSubsampling::Yuv444, |i0: &YuvPlanarImage<u16>| ret(i412_to_ar30(i0, md::<u8>(c, 3), c.planes[3].stride as u32, bo(c), rng(c), mtx(c)))) },
  |c| unsafe { own::planar_src(c, YuvPlanarImage { y_plane: ms::<u16>(c, 0), y_stride: c.planes[0].stride as u32, u_plane: ms::<u16>(c, 1), u_stride: c.planes[1].stride as u32, v_plane: ms::<u16>(c, 2), v_stride: c.planes[2].stride as u32, width: c.w[0], height: c.h[0] }, 0, 0, YuvChromaSubsampling::Yuv444, |i0: &YuvPlanarImage<u16>| ret(i412_to_ra30(i0, md::<u8>(c, 3), c.planes[3].stride as u32, bo(c), rng(c), mtx(c)))) },
  |c| unsafe { own::planar_src(c, YuvPlanarImage { y_plane: ms::<u16>(c, 0), y_stride: c.planes[0].stride as u32, u_plane: ms::<u16>(c, 1), u_stride: c.planes[1].stride as u32, v_plane: ms::<u16>(c, 2), v_stride: c.planes[2].stride as u32, width: c.w[0], height: c.h[0] }, 0, 0, YuvChromaSubsampling::Yuv444, |i0: &YuvPlanarImage<u16>| ret(i412_to_rgb12(i0, md::<u16>(c, 3), c.planes[3].stride as u32, rng(c), mtx(c)))) },
  |c| unsafe { own::planar_src(c, YuvPlanarImage { y_plane: ms::<u16>(c, 0), y_stride: c.planes[0].stride as u32, u_plane: ms::<u16>(c, 1), u_stride: c.planes[1].stride as u32, v_plane: ms::<u16>(c, 2), v_stride: c.planes[2].stride as u32, width: c.w[0], height: c.h[0] }, 0, 0, YuvChromaSubsampling::Yuv444, |i0: &YuvPlanarImage<u16>| ret(i412_to_rgb_f16(i0, md::<f16>(c, 3), c.planes[3].stride as u32, rng(c), mtx(c)))) },
  |c| unsafe { own::planar_src(c, YuvPlanarImage { y_plane: ms::<u16>(c, 0), y_stride: c.planes[0].stride as u32, u_plane: ms::<u16>(c, 1), u_stride: c.planes[1].stride as u32, v_plane: ms::<u16>(c, 2), v_stride: c.planes[2].stride as u32, width: c.w[0], height: c.h[0] }, 0, 0, YuvChromaSubsampling::Yuv444, |i0: &YuvPlanarImage<u16>| ret(i412_to_rgba12(i0, md::<u16>(c, 3), c.planes[3].stride as u32, rng(c), mtx(c)))) },
  |c| unsafe { own::planar_src(c, YuvPlanarImage { y_plane: ms::<u16>(c, 0), y_stride: c.planes[0].stride as u32, u_plane: ms::<u16>(c, 1), u_stride: c.planes[1].stride as u32, v_plane: ms::<u16>(c, 2), v_stride: c.planes[2].stride as u32, width: c.w[0], height: c.h[0] }, 0, 0, YuvChromaSubsampling::Yuv444, |i0: &YuvPlanarImage<u16>| ret(i412_to_rgba_f16(i0, md::<f16>(c, 3), c.planes[3].stride as u32, rng(c), mtx(c)))) },
  |c| unsafe { own::planar_alpha_src(c, YuvPlanarImageWithAlpha { y_plane: ms::<u16>(c, 0), y_stride: c.planes[0].stride as u32, u_plane: ms::<u16>(c, 1), u_stride: c.planes[1].stride as u32, v_plane: ms::<u16>(c, 2), v_stride: c.planes[2].stride as u32, a_plane: ms::<u16>(c, 3), a_stride: c.planes[3].stride as u32, width: c.w[0], height: c.h[0] }, 0, 0, YuvChromaSubsampling::Yuv444, |i0: &YuvPlanarImageWithAlpha<u16>| ret(i414_alpha_to_rgba14(i0, md::<u16>(c, 4), c.planes[4].stride as u32, rng(c), mtx(c)))) },
  |c| unsafe { own::planar_alpha_src(c, YuvPlanarImageWithAlpha { y_plane: ms::<u16>(c, 0), y_stride: c.planes[0].stride as u32, u_plane: ms::<u16>(c, 1), u_stride: c.planes[1].stride as u32, v_plane: ms::<u16>(c, 2), v_stride: c.planes[2].stride as u32, a_plane: ms::<u16>(c, 3), a_stride: c.planes[3].stride as u32, width: c.w[0], height: c.h[0] }, 0, 0, YuvChromaSubsampling::Yuv444, |i0: &YuvPlanarImageWithAlpha<u16>| ret(i414_alpha_to_rgba_f16(i0, md::<f16>(c, 4), c.planes[4].stride as u32, rng(c), mtx(c)))) },
  |c| unsafe { own::planar_alpha_src(c, YuvPlanarImageWithAlpha { y_plane: ms::<u16>(c, 0), y_stride: c.planes[0].stride as u32, u_plane: ms::<u16>(c, 1), u_stride: c.planes[1].stride as u32, v_plane: ms::<u16>(c, 2), v_stride: c.planes[2].stride as u32, a_plane: ms::<u16>(c, 3), a_stride: c.planes[3].stride as u32, width: c.w[0], height: c.h[0] }, 0, 0, YuvChromaSubsampling::Yuv444, |i0: &YuvPlanarImageWithAlpha<u16>| ret(i414_be_alpha_to_rgba14(i0, md::<u16>(c, 4), c.planes[4].stride as u32, rng(c), mtx(c)))) },
  |c| unsafe { own::planar_src(c, YuvPlanarImage { y_plane: ms::<u16>(c, 0), y_stride: c.planes[0].stride as u32, u_plane: ms::<u16>(c, 1), u_stride: c.planes[1].stride as u32, v_plane: ms::<u16>(c, 2), v_stride: c.planes[2].stride as u32, width: c.w[0], height: c.h[0] }, 0, 0, YuvChromaSubsampling::Yuv444, |i0: &YuvPlanarImage<u16>| ret(i414_be_to_rgb14(i0, md::<u16>(c, 3), c.planes[3].stride as u32, rng(c), mtx(c)))) },
  |c| unsafe { own::planar_src(c, YuvPlanarImage { y_plane: ms::<u16>(c, 0), y_stride: c.planes[0].stride as u32, u_plane: ms::<u16>(c, 1), u_stride: c.planes[1].stride as u32, v_plane: ms::<u16>(c, 2), v_stride: c.planes[2].stride as u32, width: c.w[0], height: c.h[0] }, 0, 0, YuvChromaSubsampling::Yuv444, |i0: &YuvPlanarImage<u16>| ret(i414_be_to_rgba14(i0, md::<u16>(c, 3), c.planes[3].stride as u32, rng(c), mtx(c)))) },
  |c| unsafe { own::planar_src(c, YuvPlanarImage { y_plane: ms::<u16>(c, 0), y_stride: c.planes[0].stride as u32, u_plane: ms::<u16>(c, 1), u_stride: c.planes[1].stride as u32, v_plane: ms::<u16>(c, 2), v_stride: c.planes[2].stride as u32, width: c.w[0], height: c.h[0] }, 0, 0, YuvChromaSubsampling::Yuv444, |i0: &YuvPlanarImage<u16>| ret(i414_to_ar30(i0, md::<u8>(c, 3), c.planes[3].stride as u32, bo(c), rng(c), mtx(c)))) },
  |c| unsafe { own::planar_src(c, YuvPlanarImage { y_plane: ms::<u16>(c, 0), y_stride: c.planes[0].stride as u32, u_plane: ms::<u16>(c, 1), u_stride: c.planes[1].stride as u32, v_plane: ms::<u16>(c, 2), v_stride: c.planes[2].stride as u32, width: c.w[0], height: c.h[0] }, 0, 0, YuvChromaSubsampling::Yuv444, |i0: &YuvPlanarImage<u16>| ret(i414_to_ra30(i0, md::<u8>(c, 3), c.planes[3].stride as u32, bo(c), rng(c), mtx(c)))) },
  |c| unsafe { own::planar_src(c, YuvPlanarImage { y_plane: ms::<u16>(c, 0), y_stride: c.planes[0].stride as u32, u_plane: ms::<u16>(c, 1), u_stride: c.planes[1].stride as u32, v_plane: ms::<u16>(c, 2), v_stride: c.planes[2].stride as u32, width: c.w[0], height: c.h[0] }, 0, 0, YuvChromaSubsampling::Yuv444, |i0: &YuvPlanarImage<u16>| ret(i414_to_rgb14(i0, md::<u16>(c, 3), c.planes[3].stride as u32, rng(c), mtx(c)))) },
  |c| unsafe { own::planar_src(c, YuvPlanarImage { y_plane: ms::<u16>(c, 0), y_stride: c.planes[0].stride as u32, u_plane: ms::<u16>(c, 1), u_stride: c.planes[1].stride as u32, v_plane: ms::<u16>(c, 2), v_stride: c.planes[2].stride as u32, width: c.w[0], height: c.h[0] }, 0, 0, YuvChromaSubsampling::Yuv444, |i0: &YuvPlanarImage<u16>| ret(i414_to_rgb_f16(i0, md::<f16>(c, 3), c.planes[3].stride as u32, rng(c), mtx(c)))) },
  |c| unsafe { own::planar_src(c, YuvPlanarImage { y_plane: ms::<u16>(c, 0), y_stride: c.planes[0].stride as u32, u_plane: ms::<u16>(c, 1), u_stride: c.planes[1].stride as u32, v_plane: ms::<u16>(c, 2), v_stride: c.planes[2].stride as u32, width: c.w[0], height: c.h[0] }, 0, 0, YuvChromaSubsampling::Yuv444, |i0: &YuvPlanarImage<u16>| ret(i414_to_rgba14(i0, md::<u16>(c, 3), c.planes[3].stride as u32, rng(c), mtx(c)))) },
  |c| unsafe { own::planar_src(c, YuvPlanarImage { y_plane: ms::<u16>(c, 0), y_stride: c.planes[0].stride as u32, u_plane: ms::<u16>(c, 1), u_stride: c.planes[1].stride as u32, v_plane: ms::<u16>(c, 2), v_stride: c.planes[2].stride as u32, width: c.w[0], height: c.h[0] }, 0, 0, YuvChromaSubsampling::Yuv444, |i0: &YuvPlanarImage<u16>| ret(i414_to_rgba_f16(i0, md::<f16>(c, 3), c.planes[3].stride as u32, rng(c), mtx(c)))) },
  |c| unsafe { own::planar_src(c, YuvPlanarImage { y_plane: ms::<u16>(c, 0), y_stride: c.planes[0].stride as u32, u_plane: ms::<u16>(c, 1), u_stride: c.planes[1].stride as u32, v_plane: ms::<u16>(c, 2), v_stride: c.planes[2].stride as u32, width: c.w[0], height: c.h[0] }, 0, 0, YuvChromaSubsampling::Yuv444, |i0: &YuvPlanarImage<u16>| ret(i416_be_to_rgb16(i0, md::<u16>(c, 3), c.planes[3].stride as u32, rng(c), mtx(c)))) },
  |c| unsafe { own::planar_src(c, YuvPlanarImage { y_plane: ms::<u16>(c, 0), y_stride: c.planes[0].stride as u32, u_plane: ms::<u16>(c, 1), u_stride: c.planes[1].stride as u32, v_plane: ms::<u16>(c, 2), v_stride: c.planes[2].stride as u32, width: c.w[0], height: c.h[0] }, 0, 0, YuvChromaSubsampling::Yuv444, |i0: &YuvPlanarImage<u16>| ret(i416_be_to_rgba16(i0, md::<u16>(c, 3), c.planes[3].stride as u32, rng(c), mtx(c)))) },
  |c| unsafe { own::planar_src(c, YuvPlanarImage { y_plane: ms::<u16>(c, 0), y_stride: c.planes[0].stride as u32, u_plane: ms::<u16>(c, 1), u_stride: c.planes[1].stride as u32, v_plane: ms::<u16>(c, 2), v_stride: c.planes[2].stride as u32, width: c.w[0], height: c.h[0] }, 0, 0, YuvChromaSubsampling::Yuv444, |i0: &YuvPlanarImage<u16>| ret(i416_to_rgb16(i0, md::<u16>(c, 3), c.planes[3].stride as u32, rng(c), mtx(c)))) },
  |c| unsafe { own::planar_src(c, YuvPlanarImage { y_plane: ms::<u16>(c, 0), y_stride: c.planes[0].stride as u32, u_plane: ms::<u16>(c, 1), u_stride: c.planes[1].stride as u32, v_plane: ms::<u16>(c, 2), v_stride: c.planes[2].stride as u32, width: c.w[0], height: c.h[0] }, 0, 0, YuvChromaSubsampling::Yuv444, |i0: &YuvPlanarImage<u16>| ret(i416_to_rgba16(i0, md::<u16>(c, 3), c.planes[3].stride as u32, rng(c), mtx(c)))) },
  |c| unsafe { own::planar_alpha_src(c, YuvPlanarImageWithAlpha { y_plane: ms::<u16>(c, 0), y_stride: c.planes[0].stride as u32, u_plane: ms::<u16>(c, 1), u_stride: c.planes[1].stride as u32, v_plane: ms::<u16>(c, 2), v_stride: c.planes[2].stride as u32, a_plane: ms::<u16>(c, 3), a_stride: c.planes[3].stride as u32, width: c.w[0], height: c.h[0] }, 0, 0, YuvChromaSubsampling::Yuv420, |i0: &YuvPlanarImageWithAlpha<u16>| ret(icgc010_alpha_to_rgba10(i0, md::<u16>(c, 4), c.planes[4].stride as u32, rng(c)))) },
  |c| unsafe { own::planar_src(c, YuvPlanarImage { y_plane: ms::<u16>(c, 0), y_stride: c.planes[0].stride as u32, u_plane: ms::<u16>(c, 1), u_stride: c.planes[1].stride as u32, v_plane: ms::<u16>(c, 2), v_stride: c.planes[2].stride as u32, width: c.w[0], height: c.h[0] }, 0, 0, YuvChromaSubsampling::Yuv420, |i0: &YuvPlanarImage<u16>| ret(icgc010_to_rgb10(i0, md::<u16>(c, 3), c.planes[3].stride as u32, rng(c)))) },
  |c| unsafe { own::planar_src(c, YuvPlanarImage { y_plane: ms::<u16>(c, 0), y_stride: c.planes[0].stride as u32, u_plane: ms::<u16>(c, 1), u_stride: c.planes[1].stride as u32, v_plane: ms::<u16>(c, 2), v_stride: c.planes[2].stride as u32, width: c.w[0], height: c.h[0] }, 0, 0, YuvChromaSubsampling::Yuv420, |i0: &YuvPlanarImage<u16>| ret(icgc010_to_rgba10(i0, md::<u16>(c, 3), c.planes[3].stride as u32, rng(c)))) },
  |c| unsafe { own::planar_alpha_src(c, YuvPlanarImageWithAlpha { y_plane: ms::<u16>(c, 0), y_stride: c.planes[0].stride as u32, u_plane: ms::<u16>(c, 1), u_stride: c.planes[1].stride as u32, v_plane: ms::<u16>(c, 2), v_stride: c.planes[2].stride as u32, a_plane: ms::<u16>(c, 3), a_stride: c.planes[3].stride as u32, width: c.w[0], height: c.h[0] }, 0, 0, YuvChromaSubsampling::Yuv420, |i0: &YuvPlanarImageWithAlpha<u16>| ret(icgc012_alpha_to_rgba12(i0, md::<u16>(c, 4), c.planes[4].stride as u32, rng(c)))) },
  |c| unsafe { own::planar_src(c, YuvPlanarImage { y_plane: ms::<u16>(c, 0), y_stride: c.planes[0].stride as u32, u_plane: ms::<u16>(c, 1), u_stride: c.planes[1].stride as u32, v_plane: ms::<u16>(c, 2), v_stride: c.planes[2].stride as u32, width: c.w[0], height: c.h[0] }, 0, 0, YuvChromaSubsampling::Yuv420, |i0: &YuvPlanarImage<u16>| ret(icgc012_to_rgb12(i0, md::<u16>(c, 3), c.planes[3].stride as u32, rng(c)))) },
  |c| unsafe { own::planar_src(c, YuvPlanarImage { y_plane: ms::<u16>(c, 0), y_stride: c.planes[0].stride as u32, u_plane: ms::<u16>(c, 1), u_stride: c.planes[1].stride as u32, v_plane: ms::<u16>(c, 2), v_stride: c.planes[2].stride as u32, width: c.w[0], height: c.h[0] }, 0, 0, YuvChromaSubsampling::Yuv420, |i0: &YuvPlanarImage<u16>| ret(icgc012_to_rgba12(i0, md::<u16>(c, 3), c.planes[3].stride as u32, rng(c)))) },
  |c| unsafe { own::planar_alpha_src(c, YuvPlanarImageWithAlpha { y_plane: ms::<u16>(c, 0), y_stride: c.planes[0].stride as u32, u_plane: ms::<u16>(c, 1), u_stride: c.planes[1].stride as u32, v_plane: ms::<u16>(c, 2), v_stride: c.planes[2].stride as u32, a_plane: ms::<u16>(c, 3), a_stride: c.planes[3].stride as u32, width: c.w[0], height: c.h[0] }, 0, 0, YuvChromaSubsampling::Yuv422, |i0: &YuvPlanarImageWithAlpha<u16>| ret(icgc210_alpha_to_rgba10(i0, md::<u16>(c, 4), c.planes[4].stride as u32, rng(c)))) },
  |c| unsafe { own::planar_src(c, YuvPlanarImage { y_plane: ms::<u16>(c, 0), y_stride: c.planes[0].stride as u32, u_plane: ms::<u16>(c, 1), u_stride: c.planes[1].stride as u32, v_plane: ms::<u16>(c, 2), v_stride: c.planes[2].stride as u32, width: c.w[0], height: c.h[0] }, 0, 0, YuvChromaSubsampling::Yuv422, |i0: &YuvPlanarImage<u16>| ret(icgc210_to_rgb10(i0, md::<u16>(c, 3), c.planes[3].stride as u32, rng(c)))) },
  |c| unsafe { own::planar_src(c, YuvPlanarImage { y_plane: ms::<u16>(c, 0), y_stride: c.planes[0].stride as u32, u_plane: ms::<u16>(c, 1), u_stride: c.planes[1].stride as u32, v_plane: ms::<u16>(c, 2), v_stride: c.planes[2].stride as u32, width: c.w[0], height: c.h[0] }, 0, 0, YuvChromaSubsampling::Yuv422, |i0: &YuvPlanarImage<u16>| ret(icgc210_to_rgba10(i0, md::<u16>(c, 3), c.planes[3].stride as u32, rng(c)))) },
  |c| unsafe { own::planar_alpha_src(c, YuvPlanarImageWithAlpha { y_plane: ms::<u16>(c, 0), y_stride: c.planes[0].stride as u32, u_plane: ms::<u16>(c, 1), u_stride: c.planes[1].stride as u32, v_plane: ms::<u16>(c, 2), v_stride: c.planes[2].stride as u32, a_plane: ms::<u16>(c, 3), a_stride: c.planes[3].stride as u32, width: c.w[0], height: c.h[0] }, 0, 0, YuvChromaSubsampling::Yuv422, |i0: &YuvPlanarImageWithAlpha<u16>| ret(icgc212_alpha_to_rgba12(i0, md::<u16>(c, 4), c.planes[4].stride as u32, rng(c)))) },
  |c| unsafe { own::planar_src(c, YuvPlanarImage { y_plane: ms::<u16>(c, 0), y_stride: c.planes[0].stride as u32, u_plane: ms::<u16>(c, 1), u_stride: c.planes[1].stride as u32, v_plane: ms::<u16>(c, 2), v_stride: c.planes[2].stride as u32, width: c.w[0], height: c.h[0] }, 0, 0, YuvChromaSubsampling::Yuv422, |i0: &YuvPlanarImage<u16>| ret(icgc212_to_rgb12(i0, md::<u16>(c, 3), c.planes[3].stride as u32, rng(c)))) },
  |c| unsafe { own::planar_src(c, YuvPlanarImage { y_plane: ms::<u16>(c, 0), y_stride: c.planes[0].stride as u32, u_plane: ms::<u16>(c, 1), u_stride: c.planes[1].stride as u32, v_plane: ms::<u16>(c, 2), v_stride: c.planes[2].stride as u32, width: c.w[0], height: c.h[0] }, 0, 0, YuvChromaSubsampling::Yuv422, |i0: &YuvPlanarImage<u16>| ret(icgc212_to_rgba12(i0, md::<u16>(c, 3), c.planes[3].stride as u32, rng(c)))) },
  |c| unsafe { own::planar_alpha_src(c, YuvPlanarImageWithAlpha { y_plane: ms::<u16>(c, 0), y_stride: c.planes[0].stride as u32, u_plane: ms::<u16>(c, 1), u_stride: c.planes[1].stride as u32, v_plane: ms::<u16>(c, 2), v_stride: c.planes[2].stride as u32, a_plane: ms::<u16>(c, 3), a_stride: c.planes[3].stride as u32, width: c.w[0], height: c.h[0] }, 0, 0, YuvChromaSubsampling::Yuv444, |i0: &YuvPlanarImageWithAlpha<u16>| ret(icgc410_alpha_to_rgba10(i0, md::<u16>(c, 4), c.planes[4].stride as u32, rng(c)))) },
  |c| unsafe { own::planar_src(c, YuvPlanarImage { y_plane: ms::<u16>(c, 0), y_stride: c.planes[0].stride as u32, u_plane: ms::<u16>(c, 1), u_stride: c.planes[1].stride as u32, v_plane: ms::<u16>(c, 2), v_stride: c.planes[2].stride as u32, width: c.w[0], height: c.h[0] }, 0, 0, YuvChromaSubsampling::Yuv444, |i0: &YuvPlanarImage<u16>| ret(icgc410_to_rgb10(i0, md::<u16>(c, 3), c.planes[3].stride as u32, rng(c)))) },
  |c| unsafe { own::planar_src(c, YuvPlanarImage { y_plane: ms::<u16>(c, 0), y_stride: c.planes[0].stride as u32, u_plane: ms::<u16>(c, 1), u_stride: c.planes[1].stride as u32, v_plane: ms::<u16>(c, 2), v_stride: c.planes[2].stride as u32, width: c.w[0], height: c.h[0] }, 0, 0, YuvChromaSubsampling::Yuv444, |i0: &YuvPlanarImage<u16>| ret(icgc410_to_rgba10(i0, md::<u16>(c, 3), c.planes[3].stride as u32, rng(c)))) },
  |c| unsafe { own::planar_alpha_src(c, YuvPlanarImageWithAlpha { y_plane: ms::<u16>(c, 0), y_stride: c.planes[0].stride as u32, u_plane: ms::<u16>(c, 1), u_stride: c.planes[1].stride as u32, v_plane: ms::<u16>(c, 2), v_stride: c.planes[2].stride as u32, a_plane: ms::<u16>(c, 3), a_stride: c.planes[3].stride as u32, width: c.w[0], height: c.h[0] }, 0, 0, YuvChromaSubsampling::Yuv444, |i0: &YuvPlanarImageWithAlpha<u16>| ret(icgc412_alpha_to_rgba12(i0, md::<u16>(c, 4), c.planes[4].stride as u32, rng(c)))) },
  |c| unsafe { own::planar_src(c, YuvPlanarImage { y_plane: ms::<u16>(c, 0), y_stride: c.planes[0].stride as u32, u_plane: ms::<u16>(c, 1), u_stride: c.planes[1].stride as u32, v_plane: ms::<u16>(c, 2), v_stride: c.planes[2].stride as u32, width: c.w[0], height: c.h[0] }, 0, 0, YuvChromaSubsampling::Yuv444, |i0: &YuvPlanarImage<u16>| ret(icgc412_to_rgb12(i0, md::<u16>(c, 3), c.planes[3].stride as u32, rng(c)))) },
  |c| unsafe { own::planar_src(c, YuvPlanarImage { y_plane: ms::<u16>(c, 0), y_stride: c.planes[0].stride as u32, u_plane: ms::<u16>(c, 1), u_stride: c.planes[1].stride as u32, v_plane: ms::<u16>(c, 2), v_stride: c.planes[2].stride as u32, width: c.w[0], height: c.h[0] }, 0, 0, YuvChromaSubsampling::Yuv444, |i0: &YuvPlanarImage<u16>| ret(icgc412_to_rgba12(i0, md::<u16>(c, 3), c.planes[3].stride as u32, rng(c)))) },
  |c| unsafe { ret(mirror_cbcr(ms::<u8>(c, 0), c.planes[0].stride as usize, md::<u8>(c, 1), c.planes[1].stride as usize, c.w[0] as usize, c.h[0] as usize, mm(c))) },
  |c| unsafe { ret(mirror_cbcr16(ms::<u16>(c, 0), c.planes[0].stride as usize, md::<u16>(c, 1), c.planes[1].stride as usize, c.w[0] as usize, c.h[0] as usize, mm(c))) },
  |c| unsafe { ret(mirror_plane(ms::<u8>(c, 0), c.planes[0].stride as usize, md::<u8>(c, 1), c.planes[1].stride as usize, c.w[0] as usize, c.h[0] as usize, mm(c))) },
  |c| unsafe { ret(mirror_plane16(ms::<u16>(c, 0), c.planes[0].stride as usize, md::<u16>(c, 1), c.planes[1].stride as usize, c.w[0] as usize, c.h[0] as usize, mm(c))) },
  |c| unsafe { ret(mirror_rgb(ms::<u8>(c, 0), c.planes[0].stride as usize, md::<u8>(c, 1), c.planes[1].stride as usize, c.w[0] as usize, c.h[0] as usize, mm(c))) },
  |c| unsafe { ret(mirror_rgb16(ms::<u16>(c, 0), c.planes[0].stride as usize, md::<u16>(c, 1), c.planes[1].stride as usize, c.w[0] as usize, c.h[0] as usize, mm(c))) },
  |c| unsafe { ret(mirror_rgba(ms::<u8>(c, 0), c.planes[0].stride as usize, md::<u8>(c, 1), c.planes[1].stride as usize, c.w[0] as usize, c.h[0] as usize, mm(c))) },
  |c| unsafe { ret(mirror_rgba16(ms::<u16>(c, 0), c.planes[0].stride as usize, md::<u16>(c, 1), c.planes[1].stride as usize, c.w[0] as usize, c.h[0] as usize, mm(c))) },
  |c| unsafe { own::biplanar_src(c, YuvBiPlanarImage { y_plane: ms::<u16>(c, 0), y_stride: c.planes[0].stride as u32, uv_plane: ms::<u16>(c, 1), uv_stride: c.planes[1].stride as u32, width: c.w[0], height: c.h[0] }, 0, 0, YuvChromaSubsampling::Yuv420, |i0: &YuvBiPlanarImage<u16>| ret(p010_to_ar30(i0, md::<u8>(c, 2), c.planes[2].stride as u32, bo(c), rng(c), mtx(c)))) },
  |c| unsafe { own::biplanar_src(c, YuvBiPlanarImage { y_plane: ms::<u16>(c, 0), y_stride: c.planes[0].stride as u32, uv_plane: ms::<u16>(c, 1), uv_stride: c.planes[1].stride as u32, width: c.w[0], height: c.h[0] }, 0, 0, YuvChromaSubsampling::Yuv420, |i0: &YuvBiPlanarImage<u16>| ret(p010_to_bgr(i0, md::<u8>(c, 2), c.planes[2].stride as u32, rng(c), mtx(c), cm(c)))) },
  |c| unsafe { own::biplanar_src(c, YuvBiPlanarImage { y_plane: ms::<u16>(c, 0), y_stride: c.planes[0].stride as u32, uv_plane: ms::<u16>(c, 1), uv_stride: c.planes[1].stride as u32, width: c.w[0], height: c.h[0] }, 0, 0, YuvChromaSubsampling::Yuv420, |i0: &YuvBiPlanarImage<u16>| ret(p010_to_bgra(i0, md::<u8>(c, 2), c.planes[2].stride as u32, rng(c), mtx(c), cm(c)))) },
  |c| unsafe { own::biplanar_src(c, YuvBiPlanarImage { y_plane: ms::<u16>(c, 0), y_stride: c.planes[0].stride as u32, uv_plane: ms::<u16>(c, 1), uv_stride: c.planes[1].stride as u32, width: c.w[0], height: c.h[0] }, 0, 0, YuvChromaSubsampling::Yuv420, |i0: &YuvBiPlanarImage<u16>| ret(p010_to_ra30(i0, md::<u8>(c, 2), c.planes[2].stride as u32, bo(c), rng(c), mtx(c)))) },
  |c| unsafe { own::biplanar_src(c, YuvBiPlanarImage { y_plane: ms::<u16>(c, 0), y_stride: c.planes[0].stride as u32, uv_plane: ms::<u16>(c, 1), uv_stride: c.planes[1].stride as u32, width: c.w[0], height: c.h[0] }, 0, 0, YuvChromaSubsampling::Yuv420, |i0: &YuvBiPlanarImage<u16>| ret(p010_to_rgb(i0, md::<u8>(c, 2), c.planes[2].stride as u32, rng(c), mtx(c), cm(c)))) },
  |c| unsafe { own::biplanar_src(c, YuvBiPlanarImage { y_plane: ms::<u16>(c, 0), y_stride: c.planes[0].stride as u32, uv_plane: ms::<u16>(c, 1), uv_stride: c.planes[1].stride as u32, width: c.w[0], height: c.h[0] }, 0, 0, YuvChromaSubsampling::Yuv420, |i0: &YuvBiPlanarImage<u16>| ret(p010_to_rgb10(i0, md::<u16>(c, 2), c.planes[2].stride as u32, rng(c), mtx(c)))) },
  |c| unsafe { own::biplanar_src(c, YuvBiPlanarImage { y_plane: ms::<u16>(c, 0), y_stride: c.planes[0].stride as u32, uv_plane: ms::<u16>(c, 1), uv_stride: c.planes[1].stride as u32, width: c.w[0], height: c.h[0] }, 0, 0, YuvChromaSubsampling::Yuv420, |i0: &YuvBiPlanarImage<u16>| ret(p010_to_rgba(i0, md::<u8>(c, 2), c.planes[2].stride as u32, rng(c), mtx(c), cm(c)))) },
  |c| unsafe { own::biplanar_src(c, YuvBiPlanarImage { y_plane: ms::<u16>(c, 0), y_stride: c.planes[0].stride as u32, uv_plane: ms::<u16>(c, 1), uv_stride: c.planes[1].stride as u32, width: c.w[0], height: c.h[0] }, 0, 0, YuvChromaSubsampling::Yuv420, |i0: &YuvBiPlanarImage<u16>| ret(p010_to_rgba10(i0, md::<u16>(c, 2), c.planes[2].stride as u32, rng(c), mtx(c)))) },
  |c| unsafe { own::biplanar_src(c, YuvBiPlanarImage { y_plane: ms::<u16>(c, 0), y_stride: c.planes[0].stride as u32, uv_plane: ms::<u16>(c, 1), uv_stride: c.planes[1].stride as u32, width: c.w[0], height: c.h[0] }, 0, 0, YuvChromaSubsampling::Yuv420, |i0: &YuvBiPlanarImage<u16>| ret(p012_to_ar30(i0, md::<u8>(c, 2), c.planes[2].stride as u32, bo(c), rng(c), mtx(c)))) },
  |c| unsafe { own::biplanar_src(c, YuvBiPlanarImage { y_plane: ms::<u16>(c, 0), y_stride: c.planes[0].stride as u32, uv_plane: ms::<u16>(c, 1), uv_stride: c.planes[1].stride as u32, width: c.w[0], height: c.h[0] }, 0, 0, YuvChromaSubsampling::Yuv420, |i0: &YuvBiPlanarImage<u16>| ret(p012_to_ra30(i0, md::<u8>(c, 2), c.planes[2].stride as u32, bo(c), rng(c), mtx(c)))) },
  |c| unsafe { own::biplanar_src(c, YuvBiPlanarImage { y_plane: ms::<u16>(c, 0), y_stride: c.planes[0].stride as u32, uv_plane: ms::<u16>(c, 1), uv_stride: c.planes[1].stride as u32, width: c.w[0], height: c.h[0] }, 0, 0, YuvChromaSubsampling::Yuv420, |i0: &YuvBiPlanarImage<u16>| ret(p012_to_rgb12(i0, md::<u16>(c, 2), c.planes[2].stride as u32, rng(c), mtx(c)))) },
  |c| unsafe { own::biplanar_src(c, YuvBiPlanarImage { y_plane: ms::<u16>(c, 0), y_stride: c.planes[0].stride as u32, uv_plane: ms::<u16>(c, 1), uv_stride: c.planes[1].stride as u32, width: c.w[0], height: c.h[0] }, 0, 0, YuvChromaSubsampling::Yuv420, |i0: &YuvBiPlanarImage<u16>| ret(p012_to_rgba12(i0, md::<u16>(c, 2), c.planes[2].stride as u32, rng(c), mtx(c)))) },
  |c| unsafe { own::biplanar_src(c, YuvBiPlanarImage { y_plane: ms::<u16>(c, 0), y_stride: c.planes[0].stride as u32, uv_plane: ms::<u16>(c, 1), uv_stride: c.planes[1].stride as u32, width: c.w[0], height: c.h[0] }, 0, 0, YuvChromaSubsampling::Yuv422, |i0: &YuvBiPlanarImage<u16>| ret(p210_to_ar30(i0, md::<u8>(c, 2), c.planes[2].stride as u32, bo(c), rng(c), mtx(c)))) },
  |c| unsafe { own::biplanar_src(c, YuvBiPlanarImage { y_plane: ms::<u16>(c, 0), y_stride: c.planes[0].stride as u32, uv_plane: ms::<u16>(c, 1), uv_stride: c.planes[1].stride as u32, width: c.w[0], height: c.h[0] }, 0, 0, YuvChromaSubsampling::Yuv422, |i0: &YuvBiPlanarImage<u16>| ret(p210_to_bgr(i0, md::<u8>(c, 2), c.planes[2].stride as u32, rng(c), mtx(c), cm(c)))) },
  |c| unsafe { own::biplanar_src(c, YuvBiPlanarImage { y_plane: ms::<u16>(c, 0), y_stride: c.planes[0].stride as u32, uv_plane: ms::<u16>(c, 1), uv_stride: c.planes[1].stride as u32, width: c.w[0], height: c.h[0] }, 0, 0, YuvChromaSubsampling::Yuv422, |i0: &YuvBiPlanarImage<u16>| ret(p210_to_bgra(i0, md::<u8>(c, 2), c.planes[2].stride as u32, rng(c), mtx(c), cm(c)))) },
  |c| unsafe { own::biplanar_src(c, YuvBiPlanarImage { y_plane: ms::<u16>(c, 0), y_stride: c.planes[0].stride as u32, uv_plane: ms::<u16>(c, 1), uv_stride: c.planes[1].stride as u32, width: c.w[0], height: c.h[0] }, 0, 0, YuvChromaSubsampling::Yuv422, |i0: &YuvBiPlanarImage<u16>| ret(p210_to_ra30(i0, md::<u8>(c, 2), c.planes[2].stride as u32, bo(c), rng(c), mtx(c)))) },
  |c| unsafe { own::biplanar_src(c, YuvBiPlanarImage { y_plane: ms::<u16>(c, 0), y_stride: c.planes[0].stride as u32, uv_plane: ms::<u16>(c, 1), uv_stride: c.planes[1].stride as u32, width: c.w[0], height: c.h[0] }, 0, 0, YuvChromaSubsampling::Yuv422, |i0: &YuvBiPlanarImage<u16>| ret(p210_to_rgb(i0, md::<u8>(c, 2), c.planes[2].stride as u32, rng(c), mtx(c), cm(c)))) },
  |c| unsafe { own::biplanar_src(c, YuvBiPlanarImage { y_plane: ms::<u16>(c, 0), y_stride: c.planes[0].stride as u32, uv_plane: ms::<u16>(c, 1), uv_stride: c.planes[1].stride as u32, width: c.w[0], height: c.h[0] }, 0, 0, YuvChromaSubsampling::Yuv422, |i0: &YuvBiPlanarImage<u16>| ret(p210_to_rgb10(i0, md::<u16>(c, 2), c.planes[2].stride as u32, rng(c), mtx(c)))) },
  |c| unsafe { own::biplanar_src(c, YuvBiPlanarImage { y_plane: ms::<u16>(c, 0), y_stride: c.planes[0].stride as u32, uv_plane: ms::<u16>(c, 1), uv_stride: c.planes[1].stride as u32, width: c.w[0], height: c.h[0] }, 0, 0, YuvChromaSubsampling::Yuv422, |i0: &YuvBiPlanarImage<u16>| ret(p210_to_rgba(i0, md::<u8>(c, 2), c.planes[2].stride as u32, rng(c), mtx(c), cm(c)))) },
  |c| unsafe { own::biplanar_src(c, YuvBiPlanarImage { y_plane: ms::<u16>(c, 0), y_stride: c.planes[0].stride as u32, uv_plane: ms::<u16>(c, 1), uv_stride: c.planes[1].stride as u32, width: c.w[0], height: c.h[0] }, 0, 0, YuvChromaSubsampling::Yuv422, |i0: &YuvBiPlanarImage<u16>| ret(p210_to_rgba10(i0, md::<u16>(c, 2), c.planes[2].stride as u32, rng(c), mtx(c)))) },
  |c| unsafe { own::biplanar_src(c, YuvBiPlanarImage { y_plane: ms::<u16>(c, 0), y_stride: c.planes[0].stride as u32, uv_plane: ms::<u16>(c, 1), uv_stride: c.planes[1].stride as u32, width: c.w[0], height: c.h[0] }, 0, 0, YuvChromaSubsampling::Yuv422, |i0: &YuvBiPlanarImage<u16>| ret(p212_to_ar30(i0, md::<u8>(c, 2), c.planes[2].stride as u32, bo(c), rng(c), mtx(c)))) },
  |c| unsafe { own::biplanar_src(c, YuvBiPlanarImage { y_plane: ms::<u16>(c, 0), y_stride: c.planes[0].stride as u32, uv_plane: ms::<u16>(c, 1), uv_stride: c.planes[1].stride as u32, width: c.w[0], height: c.h[0] }, 0, 0, YuvChromaSubsampling::Yuv422, |i0: &YuvBiPlanarImage<u16>| ret(p212_to_ra30(i0, md::<u8>(c, 2), c.planes[2].stride as u32, bo(c), rng(c), mtx(c)))) },
  |c| unsafe { own::biplanar_src(c, YuvBiPlanarImage { y_plane: ms::<u16>(c, 0), y_stride: c.planes[0].stride as u32, uv_plane: ms::<u16>(c, 1), uv_stride: c.planes[1].stride as u32, width: c.w[0], height: c.h[0] }, 0, 0, YuvChromaSubsampling::Yuv422, |i0: &YuvBiPlanarImage<u16>| ret(p212_to_rgb12(i0, md::<u16>(c, 2), c.planes[2].stride as u32, rng(c), mtx(c)))) },
  |c| unsafe { own::biplanar_src(c, YuvBiPlanarImage { y_plane: ms::<u16>(c, 0), y_stride: c.planes[0].stride as u32, uv_plane: ms::<u16>(c, 1), uv_stride: c.planes[1].stride as u32, width: c.w[0], height: c.h[0] }, 0, 0, YuvChromaSubsampling::Yuv422, |i0: &YuvBiPlanarImage<u16>| ret(p212_to_rgba12(i0, md::<u16>(c, 2), c.planes[2].stride as u32, rng(c), mtx(c)))) },
  |c| unsafe { own::biplanar_src(c, YuvBiPlanarImage { y_plane: ms::<u16>(c, 0), y_stride: c.planes[0].stride as u32, uv_plane: ms::<u16>(c, 1), uv_stride: c.planes[1].stride as u32, width: c.w[0], height: c.h[0] }, 0, 0, YuvChromaSubsampling::Yuv444, |i0: &YuvBiPlanarImage<u16>| ret(p410_to_bgr(i0, md::<u8>(c, 2), c.planes[2].stride as u32, rng(c), mtx(c), cm(c)))) },
  |c| unsafe { own::biplanar_src(c, YuvBiPlanarImage { y_plane: ms::<u16>(c, 0), y_stride: c.planes[0].stride as u32, uv_plane: ms::<u16>(c, 1), uv_stride: c.planes[1].stride as u32, width: c.w[0], height: c.h[0] }, 0, 0, YuvChromaSubsampling::Yuv444, |i0: &YuvBiPlanarImage<u16>| ret(p410_to_bgra(i0, md::<u8>(c, 2), c.planes[2].stride as u32, rng(c), mtx(c), cm(c)))) },
  |c| unsafe { own::biplanar_src(c, YuvBiPlanarImage { y_plane: ms::<u16>(c, 0), y_stride: c.planes[0].stride as u32, uv_plane: ms::<u16>(c, 1), uv_stride: c.planes[1].stride as u32, width: c.w[0], height: c.h[0] }, 0, 0, YuvChromaSubsampling::Yuv444, |i0: &YuvBiPlanarImage<u16>| ret(p410_to_rgb(i0, md::<u8>(c, 2), c.planes[2].stride as u32, rng(c), mtx(c), cm(c)))) },
  |c| unsafe { own::biplanar_src(c, YuvBiPlanarImage { y_plane: ms::<u16>(c, 0), y_stride: c.planes[0].stride as u32, uv_plane: ms::<u16>(c, 1), uv_stride: c.planes[1].stride as u32, width: c.w[0], height: c.h[0] }, 0, 0, YuvChromaSubsampling::Yuv444, |i0: &YuvBiPlanarImage<u16>| ret(p410_to_rgb10(i0, md::<u16>(c, 2), c.planes[2].stride as u32, rng(c), mtx(c)))) },
  |c| unsafe { own::biplanar_src(c, YuvBiPlanarImage { y_plane: ms::<u16>(c, 0), y_stride: c.planes[0].stride as u32, uv_plane: ms::<u16>(c, 1), uv_stride: c.planes[1].stride as u32, width: c.w[0], height: c.h[0] }, 0, 0, YuvChromaSubsampling::Yuv444, |i0: &YuvBiPlanarImage<u16>| ret(p410_to_rgba(i0, md::<u8>(c, 2), c.planes[2].stride as u32, rng(c), mtx(c), cm(c)))) },
  |c| unsafe { own::biplanar_src(c, YuvBiPlanarImage { y_plane: ms::<u16>(c, 0), y_stride: c.planes[0].stride as u32, uv_plane: ms::<u16>(c, 1), uv_stride: c.planes[1].stride as u32, width: c.w[0], height: c.h[0] }, 0, 0, YuvChromaSubsampling::Yuv444, |i0: &YuvBiPlanarImage<u16>| ret(p410_to_rgba10(i0, md::<u16>(c, 2), c.planes[2].stride as u32, rng(c), mtx(c)))) },
  |c| unsafe { own::biplanar_src(c, YuvBiPlanarImage { y_plane: ms::<u16>(c, 0), y_stride: c.planes[0].stride as u32, uv_plane: ms::<u16>(c, 1), uv_stride: c.planes[1].stride as u32, width: c.w[0], height: c.h[0] }, 0, 0, YuvChromaSubsampling::Yuv444, |i0: &YuvBiPlanarImage<u16>| ret(p412_to_rgb12(i0, md::<u16>(c, 2), c.planes[2].stride as u32, rng(c), mtx(c)))) },
  |c| unsafe { own::biplanar_src(c, YuvBiPlanarImage { y_plane: ms::<u16>(c, 0), y_stride: c.planes[0].stride as u32, uv_plane: ms::<u16>(c, 1), uv_stride: c.planes[1].stride as u32, width: c.w[0], height: c.h[0] }, 0, 0, YuvChromaSubsampling::Yuv444, |i0: &YuvBiPlanarImage<u16>| ret(p412_to_rgba12(i0, md::<u16>(c, 2), c.planes[2].stride as u32, rng(c), mtx(c)))) },
  |c| unsafe { ret(ra30_to_rgb8(ms::<u8>(c, 0), c.planes[0].stride as u32, bo(c), md::<u8>(c, 1), c.planes[1].stride as u32, c.w[0] as u32, c.h[0] as u32)) },
  |c| unsafe { ret(ra30_to_rgba8(ms::<u8>(c, 0), c.planes[0].stride as u32, bo(c), md::<u8>(c, 1), c.planes[1].stride as u32, c.w[0] as u32, c.h[0] as u32)) },
  |c| unsafe { own::planar_mut(c, YuvPlanarImageMut { y_plane: BufferStoreMut::Borrowed(md::<i16>(c, 0)), y_stride: c.planes[0].stride as u32, u_plane: BufferStoreMut::Borrowed(md::<i16>(c, 1)), u_stride: c.planes[1].stride as u32, v_plane: BufferStoreMut::Borrowed(md::<i16>(c, 2)), v_stride: c.planes[2].stride as u32, width: c.w[0], height: c.h[0] }, 0, 0, YuvChromaSubsampling::Yuv444, |i0: &mut YuvPlanarImageMut<i16>| ret(rdp_abgr_to_yuv444(i0, ms::<u8>(c, 3), c.planes[3].stride as u32))) },
  |c| unsafe { own::planar_mut(c, YuvPlanarImageMut { y_plane: BufferStoreMut::Borrowed(md::<i16>(c, 0)), y_stride: c.planes[0].stride as u32, u_plane: BufferStoreMut::Borrowed(md::<i16>(c, 1)), u_stride: c.planes[1].stride as u32, v_plane: BufferStoreMut::Borrowed(md::<i16>(c, 2)), v_stride: c.planes[2].stride as u32, width: c.w[0], height: c.h[0] }, 0, 0, YuvChromaSubsampling::Yuv444, |i0: &mut YuvPlanarImageMut<i16>| ret(rdp_argb_to_yuv444(i0, ms::<u8>(c, 3), c.planes[3].stride as u32))) },
  |c| unsafe { own::planar_mut(c, YuvPlanarImageMut { y_plane: BufferStoreMut::Borrowed(md::<i16>(c, 0)), y_stride: c.planes[0].stride as u32, u_plane: BufferStoreMut::Borrowed(md::<i16>(c, 1)), u_stride: c.planes[1].stride as u32, v_plane: BufferStoreMut::Borrowed(md::<i16>(c, 2)), v_stride: c.planes[2].stride as u32, width: c.w[0], height: c.h[0] }, 0, 0, YuvChromaSubsampling::Yuv444, |i0: &mut YuvPlanarImageMut<i16>| ret(rdp_bgr_to_yuv444(i0, ms::<u8>(c, 3), c.planes[3].stride as u32))) },
  |c| unsafe { own::planar_mut(c, YuvPlanarImageMut { y_plane: BufferStoreMut::Borrowed(md::<i16>(c, 0)), y_stride: c.planes[0].stride as u32, u_plane: BufferStoreMut::Borrowed(md::<i16>(c, 1)), u_stride: c.planes[1].stride as u32, v_plane: BufferStoreMut::Borrowed(md::<i16>(c, 2)), v_stride: c.planes[2].stride as u32, width: c.w[0], height: c.h[0] }, 0, 0, YuvChromaSubsampling::Yuv444, |i0: &mut YuvPlanarImageMut<i16>| ret(rdp_bgra_to_yuv444(i0, ms::<u8>(c, 3), c.planes[3].stride as u32))) },
  |c| unsafe { own::planar_mut(c, YuvPlanarImageMut { y_plane: BufferStoreMut::Borrowed(md::<i16>(c, 0)), y_stride: c.planes[0].stride as u32, u_plane: BufferStoreMut::Borrowed(md::<i16>(c, 1)), u_stride: c.planes[1].stride as u32, v_plane: BufferStoreMut::Borrowed(md::<i16>(c, 2)), v_stride: c.planes[2].stride as u32, width: c.w[0], height: c.h[0] }, 0, 0, YuvChromaSubsampling::Yuv444, |i0: &mut YuvPlanarImageMut<i16>| ret(rdp_rgb_to_yuv444(i0, ms::<u8>(c, 3), c.planes[3].stride as u32))) },
  |c| unsafe { own::planar_mut(c, YuvPlanarImageMut { y_plane: BufferStoreMut::Borrowed(md::<i16>(c, 0)), y_stride: c.planes[0].stride as u32, u_plane: BufferStoreMut::Borrowed(md::<i16>(c, 1)), u_stride: c.planes[1].stride as u32, v_plane: BufferStoreMut::Borrowed(md::<i16>(c, 2)), v_stride: c.planes[2].stride as u32, width: c.w[0], height: c.h[0] }, 0, 0, YuvChromaSubsampling::Yuv444, |i0: &mut YuvPlanarImageMut<i16>| ret(rdp_rgba_to_yuv444(i0, ms::<u8>(c, 3), c.planes[3].stride as u32))) },
  |c| unsafe { own::planar_src(c, YuvPlanarImage { y_plane: ms::<i16>(c, 0), y_stride: c.planes[0].stride as u32, u_plane: ms::<i16>(c, 1), u_stride: c.planes[1].stride as u32, v_plane: ms::<i16>(c, 2), v_stride: c.planes[2].stride as u32, width: c.w[0], height: c.h[0] }, 0, 0, YuvChromaSubsampling::Yuv444, |i0: &YuvPlanarImage<i16>| ret(rdp_yuv444_to_abgr(i0, md::<u8>(c, 3), c.planes[3].stride as u32))) },
  |c| unsafe { own::planar_src(c, YuvPlanarImage { y_plane: ms::<i16>(c, 0), y_stride: c.planes[0].stride as u32, u_plane: ms::<i16>(c, 1), u_stride: c.planes[1].stride as u32, v_plane: ms::<i16>(c, 2), v_stride: c.planes[2].stride as u32, width: c.w[0], height: c.h[0] }, 0, 0, YuvChromaSubsampling::Yuv444, |i0: &YuvPlanarImage<i16>| ret(rdp_yuv444_to_argb(i0, md::<u8>(c, 3), c.planes[3].stride as u32))) },
  |c| unsafe { own::planar_src(c, YuvPlanarImage { y_plane: ms::<i16>(c, 0), y_stride: c.planes[0].stride as u32, u_plane: ms::<i16>(c, 1), u_stride: c.planes[1].stride as u32, v_plane: ms::<i16>(c, 2), v_stride: c.planes[2].stride as u32, width: c.w[0], height: c.h[0] }, 0, 0, YuvChromaSubsampling::Yuv444, |i0: &YuvPlanarImage<i16>| ret(rdp_yuv444_to_bgr(i0, md::<u8>(c, 3), c.planes[3].stride as u32))) },
  |c| unsafe { own::planar_src(c, YuvPlanarImage { y_plane: ms::<i16>(c, 0), y_stride: c.planes[0].stride as u32, u_plane: ms::<i16>(c, 1), u_stride: c.planes[1].stride as u32, v_plane: ms::<i16>(c, 2), v_stride: c.planes[2].stride as u32, width: c.w[0], height: c.h[0] }, 0, 0, YuvChromaSubsampling::Yuv444, |i0: &YuvPlanarImage<i16>| ret(rdp_yuv444_to_bgra(i0, md::<u8>(c, 3), c.planes[3].stride as u32))) },
  |c| unsafe { own::planar_src(c, YuvPlanarImage { y_plane: ms::<i16>(c, 0), y_stride: c.planes[0].stride as u32, u_plane: ms::<i16>(c, 1), u_stride: c.planes[1].stride as u32, v_plane: ms::<i16>(c, 2), v_stride: c.planes[2].stride as u32, width: c.w[0], height: c.h[0] }, 0, 0, YuvChromaSubsampling::Yuv444, |i0: &YuvPlanarImage<i16>| ret(rdp_yuv444_to_rgb(i0, md::<u8>(c, 3), c.planes[3].stride as u32))) },
  |c| unsafe { own::planar_src(c, YuvPlanarImage { y_plane: ms::<i16>(c, 0), y_stride: c.planes[0].stride as u32, u_plane: ms::<i16>(c, 1), u_stride: c.planes[1].stride as u32, v_plane: ms::<i16>(c, 2), v_stride: c.planes[2].stride as u32, width: c.w[0], height: c.h[0] }, 0, 0, YuvChromaSubsampling::Yuv444, |i0: &YuvPlanarImage<i16>| ret(rdp_yuv444_to_rgba(i0, md::<u8>(c, 3), c.planes[3].stride as u32))) },
  |c| unsafe { ret(rgb10_to_ar30(md::<u8>(c, 0), c.planes[0].stride as u32, bo(c), ms::<u16>(c, 1), c.planes[1].stride as u32, c.w[0] as u32, c.h[0] as u32)) },
  |c| unsafe { own::planar_mut(c, YuvPlanarImageMut { y_plane: BufferStoreMut::Borrowed(md::<u16>(c, 0)), y_stride: c.planes[0].stride as u32, u_plane: BufferStoreMut::Borrowed(md::<u16>(c, 1)), u_stride: c.planes[1].stride as u32, v_plane: BufferStoreMut::Borrowed(md::<u16>(c, 2)), v_stride: c.planes[2].stride as u32, width: c.w[0], height: c.h[0] }, 0, 0, YuvChromaSubsampling::Yuv444, |i0: &mut YuvPlanarImageMut<u16>| ret(rgb10_to_gb10(i0, ms::<u16>(c, 3), c.planes[3].stride as u32, rng(c)))) },
  |c| unsafe { own::planar_mut(c, YuvPlanarImageMut { y_plane: BufferStoreMut::Borrowed(md::<u16>(c, 0)), y_stride: c.planes[0].stride as u32, u_plane: BufferStoreMut::Borrowed(md::<u16>(c, 1)), u_stride: c.planes[1].stride as u32, v_plane: BufferStoreMut::Borrowed(md::<u16>(c, 2)), v_stride: c.planes[2].stride as u32, width: c.w[0], height: c.h[0] }, 0, 0, YuvChromaSubsampling::Yuv420, |i0: &mut YuvPlanarImageMut<u16>| ret(rgb10_to_i010(i0, ms::<u16>(c, 3), c.planes[3].stride as u32, rng(c), mtx(c)))) },
  |c| unsafe { own::planar_mut(c, YuvPlanarImageMut { y_plane: BufferStoreMut::Borrowed(md::<u16>(c, 0)), y_stride: c.planes[0].stride as u32, u_plane: BufferStoreMut::Borrowed(md::<u16>(c, 1)), u_stride: c.planes[1].stride as u32, v_plane: BufferStoreMut::Borrowed(md::<u16>(c, 2)), v_stride: c.planes[2].stride as u32, width: c.w[0], height: c.h[0] }, 0, 0, YuvChromaSubsampling::Yuv420, |i0: &mut YuvPlanarImageMut<u16>| ret(rgb10_to_i010_be(i0, ms::<u16>(c, 3), c.planes[3].stride as u32, rng(c), mtx(c)))) },
  |c| unsafe { own::planar_mut(c, YuvPlanarImageMut { y_plane: BufferStoreMut::Borrowed(md::<u16>(c, 0)), y_stride: c.planes[0].stride as u32, u_plane: BufferStoreMut::Borrowed(md::<u16>(c, 1)), u_stride: c.planes[1].stride as u32, v_plane: BufferStoreMut::Borrowed(md::<u16>(c, 2)), v_stride: c.planes[2].stride as u32, width: c.w[0], height: c.h[0] }, 0, 0, YuvChromaSubsampling::Yuv422, |i0: &mut YuvPlanarImageMut<u16>| ret(rgb10_to_i210(i0, ms::<u16>(c, 3), c.planes[3].stride as u32, rng(c), mtx(c)))) },
  |c| unsafe { own::planar_mut(c, YuvPlanarImageMut { y_plane: BufferStoreMut::Borrowed(md::<u16>(c, 0)), y_stride: c.planes[0].stride as u32, u_plane: BufferStoreMut::Borrowed(md::<u16>(c, 1)), u_stride: c.planes[1].stride as u32, v_plane: BufferStoreMut::Borrowed(md::<u16>(c, 2)), v_stride: c.planes[2].stride as u32, width: c.w[0], height: c.h[0] }, 0, 0, YuvChromaSubsampling::Yuv422, |i0: &mut YuvPlanarImageMut<u16>| ret(rgb10_to_i210_be(i0, ms::<u16>(c, 3), c.planes[3].stride as u32, rng(c), mtx(c)))) },
  |c| unsafe { own::planar_mut(c, YuvPlanarImageMut { y_plane: BufferStoreMut::Borrowed(md::<u16>(c, 0)), y_stride: c.planes[0].stride as u32, u_plane: BufferStoreMut::Borrowed(md::<u16>(c, 1)), u_stride: c.planes[1].stride as u32, v_plane: BufferStoreMut::Borrowed(md::<u16>(c, 2)), v_stride: c.planes[2].stride as u32, width: c.w[0], height: c.h[0] }, 0, 0, YuvChromaSubsampling::Yuv444, |i0: &mut YuvPlanarImageMut<u16>| ret(rgb10_to_i410(i0, ms::<u16>(c, 3), c.planes[3].stride as u32, rng(c), mtx(c)))) },
  |c| unsafe { own::planar_mut(c, YuvPlanarImageMut { y_plane: BufferStoreMut::Borrowed(md::<u16>(c, 0)), y_stride: c.planes[0].stride as u32, u_plane: BufferStoreMut::Borrowed(md::<u16>(c, 1)), u_stride: c.planes[1].stride as u32, v_plane: BufferStoreMut::Borrowed(md::<u16>(c, 2)), v_stride: c.planes[2].stride as u32, width: c.w[0], height: c.h[0] }, 0, 0, YuvChromaSubsampling::Yuv444, |i0: &mut YuvPlanarImageMut<u16>| ret(rgb10_to_i410_be(i0, ms::<u16>(c, 3), c.planes[3].stride as u32, rng(c), mtx(c)))) },
  |c| unsafe { own::biplanar_mut(c, YuvBiPlanarImageMut { y_plane: BufferStoreMut::Borrowed(md::<u16>(c, 0)), y_stride: c.planes[0].stride as u32, uv_plane: BufferStoreMut::Borrowed(md::<u16>(c, 1)), uv_stride: c.planes[1].stride as u32, width: c.w[0], height: c.h[0] }, 0, 0, YuvChromaSubsampling::Yuv420, |i0: &mut YuvBiPlanarImageMut<u16>| ret(rgb10_to_p010(i0, ms::<u16>(c, 2), c.planes[2].stride as u32, rng(c), mtx(c)))) },
  |c| unsafe { own::biplanar_mut(c, YuvBiPlanarImageMut { y_plane: BufferStoreMut::Borrowed(md::<u16>(c, 0)), y_stride: c.planes[0].stride as u32, uv_plane: BufferStoreMut::Borrowed(md::<u16>(c, 1)), uv_stride: c.planes[1].stride as u32, width: c.w[0], height: c.h[0] }, 0, 0, YuvChromaSubsampling::Yuv422, |i0: &mut YuvBiPlanarImageMut<u16>| ret(rgb10_to_p210(i0, ms::<u16>(c, 2), c.planes[2].stride as u32, rng(c), mtx(c)))) },
  |c| unsafe { own::biplanar_mut(c, YuvBiPlanarImageMut { y_plane: BufferStoreMut::Borrowed(md::<u16>(c, 0)), y_stride: c.planes[0].stride as u32, uv_plane: BufferStoreMut::Borrowed(md::<u16>(c, 1)), uv_stride: c.planes[1].stride as u32, width: c.w[0], height: c.h[0] }, 0, 0, YuvChromaSubsampling::Yuv444, |i0: &mut YuvBiPlanarImageMut<u16>| ret(rgb10_to_p410(i0, ms::<u16>(c, 2), c.planes[2].stride as u32, rng(c), mtx(c)))) },
  |c| unsafe { ret(rgb10_to_ra30(md::<u8>(c, 0), c.planes[0].stride as u32, bo(c), ms::<u16>(c, 1), c.planes[1].stride as u32, c.w[0] as u32, c.h[0] as u32)) },
  |c| unsafe { ret(rgb12_to_ar30(md::<u8>(c, 0), c.planes[0].stride as u32, bo(c), ms::<u16>(c, 1), c.planes[1].stride as u32, c.w[0] as u32, c.h[0] as u32)) },
  |c| unsafe { own::planar_mut(c, YuvPlanarImageMut { y_plane: BufferStoreMut::Borrowed(md::<u16>(c, 0)), y_stride: c.planes[0].stride as u32, u_plane: BufferStoreMut::Borrowed(md::<u16>(c, 1)), u_stride: c.planes[1].stride as u32, v_plane: BufferStoreMut::Borrowed(md::<u16>(c, 2)), v_stride: c.planes[2].stride as u32, width: c.w[0], height: c.h[0] }, 0, 0, YuvChromaSubsampling::Yuv444, |i0: &mut YuvPlanarImageMut<u16>| ret(rgb12_to_gb12(i0, ms::<u16>(c, 3), c.planes[3].stride as u32, rng(c)))) },
  |c| unsafe { own::planar_mut(c, YuvPlanarImageMut { y_plane: BufferStoreMut::Borrowed(md::<u16>(c, 0)), y_stride: c.planes[0].stride as u32, u_plane: BufferStoreMut::Borrowed(md::<u16>(c, 1)), u_stride: c.planes[1].stride as u32, v_plane: BufferStoreMut::Borrowed(md::<u16>(c, 2)), v_stride: c.planes[2].stride as u32, width: c.w[0], height: c.h[0] }, 0, 0, YuvChromaSubsampling::Yuv420, |i0: &mut YuvPlanarImageMut<u16>| ret(rgb12_to_i012(i0, ms::<u16>(c, 3), c.planes[3].stride as u32, rng(c), mtx(c)))) },
  |c| unsafe { own::planar_mut(c, YuvPlanarImageMut { y_plane: BufferStoreMut::Borrowed(md::<u16>(c, 0)), y_stride: c.planes[0].stride as u32, u_plane: BufferStoreMut::Borrowed(md::<u16>(c, 1)), u_stride: c.planes[1].stride as u32, v_plane: BufferStoreMut::Borrowed(md::<u16>(c, 2)), v_stride: c.planes[2].stride as u32, width: c.w[0], height: c.h[0] }, 0, 0, YuvChromaSubsampling::Yuv420, |i0: &mut YuvPlanarImageMut<u16>| ret(rgb12_to_i012_be(i0, ms::<u16>(c, 3), c.planes[3].stride as u32, rng(c), mtx(c)))) },
  |c| unsafe { own::planar_mut(c, YuvPlanarImageMut { y_plane: BufferStoreMut::Borrowed(md::<u16>(c, 0)), y_stride: c.planes[0].stride as u32, u_plane: BufferStoreMut::Borrowed(md::<u16>(c, 1)), u_stride: c.planes[1].stride as u32, v_plane: BufferStoreMut::Borrowed(md::<u16>(c, 2)), v_stride: c.planes[2].stride as u32, width: c.w[0], height: c.h[0] }, 0, 0, YuvChromaSubsampling::Yuv422, |i0: &mut YuvPlanarImageMut<u16>| ret(rgb12_to_i212(i0, ms::<u16>(c, 3), c.planes[3].stride as u32, rng(c), mtx(c)))) },
  |c| unsafe { own::planar_mut(c, YuvPlanarImageMut { y_plane: BufferStoreMut::Borrowed(md::<u16>(c, 0)), y_stride: c.planes[0].stride as u32, u_plane: BufferStoreMut::Borrowed(md::<u16>(c, 1)), u_stride: c.planes[1].stride as u32, v_plane: BufferStoreMut::Borrowed(md::<u16>(c, 2)), v_stride: c.planes[2].stride as u32, width: c.w[0], height: c.h[0] }, 0, 0, YuvChromaSubsampling::Yuv422, |i0: &mut YuvPlanarImageMut<u16>| ret(rgb12_to_i212_be(i0, ms::<u16>(c, 3), c.planes[3].stride as u32, rng(c), mtx(c)))) },
  |c| unsafe { own::planar_mut(c, YuvPlanarImageMut { y_plane: BufferStoreMut::Borrowed(md::<u16>(c, 0)), y_stride: c.planes[0].stride as u32, u_plane: BufferStoreMut::Borrowed(md::<u16>(c, 1)), u_stride: c.planes[1].stride as u32, v_plane: BufferStoreMut::Borrowed(md::<u16>(c, 2)), v_stride: c.planes[2].stride as u32, width: c.w[0], height: c.h[0] }, 0, 0, YuvChromaSubsampling::Yuv444, |i0: &mut YuvPlanarImageMut<u16>| ret(rgb12_to_i412(i0, ms::<u16>(c, 3), c.planes[3].stride as u32, rng(c), mtx(c)))) },
  |c| unsafe { own::planar_mut(c, YuvPlanarImageMut { y_plane: BufferStoreMut::Borrowed(md::<u16>(c, 0)), y_stride: c.planes[0].stride as u32, u_plane: BufferStoreMut::Borrowed(md::<u16>(c, 1)), u_stride: c.planes[1].stride as u32, v_plane: BufferStoreMut::Borrowed(md::<u16>(c, 2)), v_stride: c.planes[2].stride as u32, width: c.w[0], height: c.h[0] }, 0, 0, YuvChromaSubsampling::Yuv444, |i0: &mut YuvPlanarImageMut<u16>| ret(rgb12_to_i412_be(i0, ms::<u16>(c, 3), c.planes[3].stride as u32, rng(c), mtx(c)))) },
  |c| unsafe { own::biplanar_mut(c, YuvBiPlanarImageMut { y_plane: BufferStoreMut::Borrowed(md::<u16>(c, 0)), y_stride: c.planes[0].stride as u32, uv_plane: BufferStoreMut::Borrowed(md::<u16>(c, 1)), uv_stride: c.planes[1].stride as u32, width: c.w[0], height: c.h[0] }, 0, 0, YuvChromaSubsampling::Yuv420, |i0: &mut YuvBiPlanarImageMut<u16>| ret(rgb12_to_p012(i0, ms::<u16>(c, 2), c.planes[2].stride as u32, rng(c), mtx(c)))) },
  |c| unsafe { own::biplanar_mut(c, YuvBiPlanarImageMut { y_plane: BufferStoreMut::Borrowed(md::<u16>(c, 0)), y_stride: c.planes[0].stride as u32, uv_plane: BufferStoreMut::Borrowed(md::<u16>(c, 1)), uv_stride: c.planes[1].stride as u32, width: c.w[0], height: c.h[0] }, 0, 0, YuvChromaSubsampling::Yuv422, |i0: &mut YuvBiPlanarImageMut<u16>| ret(rgb12_to_p212(i0, ms::<u16>(c, 2), c.planes[2].stride as u32, rng(c), mtx(c)))) },
  |c| unsafe { own::biplanar_mut(c, YuvBiPlanarImageMut { y_plane: BufferStoreMut::Borrowed(md::<u16>(c, 0)), y_stride: c.planes[0].stride as u32, uv_plane: BufferStoreMut::Borrowed(md::<u16>(c, 1)), uv_stride: c.planes[1].stride as u32, width: c.w[0], height: c.h[0] }, 0, 0, YuvChromaSubsampling::Yuv444, |i0: &mut YuvBiPlanarImageMut<u16>| ret(rgb12_to_p412(i0, ms::<u16>(c, 2), c.planes[2].stride as u32, rng(c), mtx(c)))) },
  |c| unsafe { ret(rgb12_to_ra30(md::<u8>(c, 0), c.planes[0].stride as u32, bo(c), ms::<u16>(c, 1), c.planes[1].stride as u32, c.w[0] as u32, c.h[0] as u32)) },
  |c| unsafe { own::planar_mut(c, YuvPlanarImageMut { y_plane: BufferStoreMut::Borrowed(md::<u16>(c, 0)), y_stride: c.planes[0].stride as u32, u_plane: BufferStoreMut::Borrowed(md::<u16>(c, 1)), u_stride: c.planes[1].stride as u32, v_plane: BufferStoreMut::Borrowed(md::<u16>(c, 2)), v_stride: c.planes[2].stride as u32, width: c.w[0], height: c.h[0] }, 0, 0, YuvChromaSubsampling::Yuv444, |i0: &mut YuvPlanarImageMut<u16>| ret(rgb14_to_gb14(i0, ms::<u16>(c, 3), c.planes[3].stride as u32, rng(c)))) },
  |c| unsafe { own::planar_mut(c, YuvPlanarImageMut { y_plane: BufferStoreMut::Borrowed(md::<u16>(c, 0)), y_stride: c.planes[0].stride as u32, u_plane: BufferStoreMut::Borrowed(md::<u16>(c, 1)), u_stride: c.planes[1].stride as u32, v_plane: BufferStoreMut::Borrowed(md::<u16>(c, 2)), v_stride: c.planes[2].stride as u32, width: c.w[0], height: c.h[0] }, 0, 0, YuvChromaSubsampling::Yuv420, |i0: &mut YuvPlanarImageMut<u16>| ret(rgb14_to_i014(i0, ms::<u16>(c, 3), c.planes[3].stride as u32, rng(c), mtx(c)))) },
  |c| unsafe { own::planar_mut(c, YuvPlanarImageMut { y_plane: BufferStoreMut::Borrowed(md::<u16>(c, 0)), y_stride: c.planes[0].stride as u32, u_plane: BufferStoreMut::Borrowed(md::<u16>(c, 1)), u_stride: c.planes[1].stride as u32, v_plane: BufferStoreMut::Borrowed(md::<u16>(c, 2)), v_stride: c.planes[2].stride as u32, width: c.w[0], height: c.h[0] }, 0, 0, YuvChromaSubsampling::Yuv420, |i0: &mut YuvPlanarImageMut<u16>| ret(rgb14_to_i014_be(i0, ms::<u16>(c, 3), c.planes[3].stride as u32, rng(c), mtx(c)))) },
  |c| unsafe { own::planar_mut(c, YuvPlanarImageMut { y_plane: BufferStoreMut::Borrowed(md::<u16>(c, 0)), y_stride: c.planes[0].stride as u32, u_plane: BufferStoreMut::Borrowed(md::<u16>(c, 1)), u_stride: c.planes[1].stride as u32, v_plane: BufferStoreMut::Borrowed(md::<u16>(c, 2)), v_stride: c.planes[2].stride as u32, width: c.w[0], height: c.h[0] }, 0, 0, YuvChromaSubsampling::Yuv422, |i0: &mut YuvPlanarImageMut<u16>| ret(rgb14_to_i214(i0, ms::<u16>(c, 3), c.planes[3].stride as u32, rng(c), mtx(c)))) },
  |c| unsafe { own::planar_mut(c, YuvPlanarImageMut { y_plane: BufferStoreMut::Borrowed(md::<u16>(c, 0)), y_stride: c.planes[0].stride as u32, u_plane: BufferStoreMut::Borrowed(md::<u16>(c, 1)), u_stride: c.planes[1].stride as u32, v_plane: BufferStoreMut::Borrowed(md::<u16>(c, 2)), v_stride: c.planes[2].stride as u32, width: c.w[0], height: c.h[0] }, 0, 0, YuvChromaSubsampling::Yuv422, |i0: &mut YuvPlanarImageMut<u16>| ret(rgb14_to_i214_be(i0, ms::<u16>(c, 3), c.planes[3].stride as u32, rng(c), mtx(c)))) },
  |c| unsafe { own::planar_mut(c, YuvPlanarImageMut { y_plane: BufferStoreMut::Borrowed(md::<u16>(c, 0)), y_stride: c.planes[0].stride as u32, u_plane: BufferStoreMut::Borrowed(md::<u16>(c, 1)), u_stride: c.planes[1].stride as u32, v_plane: BufferStoreMut::Borrowed(md::<u16>(c, 2)), v_stride: c.planes[2].stride as u32, width: c.w[0], height: c.h[0] }, 0, 0, YuvChromaSubsampling::Yuv444, |i0: &mut YuvPlanarImageMut<u16>| ret(rgb14_to_i414(i0, ms::<u16>(c, 3), c.planes[3].stride as u32, rng(c), mtx(c)))) },
  |c| unsafe { own::planar_mut(c, YuvPlanarImageMut { y_plane: BufferStoreMut::Borrowed(md::<u16>(c, 0)), y_stride: c.planes[0].stride as u32, u_plane: BufferStoreMut::Borrowed(md::<u16>(c, 1)), u_stride: c.planes[1].stride as u32, v_plane: BufferStoreMut::Borrowed(md::<u16>(c, 2)), v_stride: c.planes[2].stride as u32, width: c.w[0], height: c.h[0] }, 0, 0, YuvChromaSubsampling::Yuv444, |i0: &mut YuvPlanarImageMut<u16>| ret(rgb14_to_i414_be(i0, ms::<u16>(c, 3), c.planes[3].stride as u32, rng(c), mtx(c)))) },
  |c| unsafe { own::planar_mut(c, YuvPlanarImageMut { y_plane: BufferStoreMut::Borrowed(md::<u16>(c, 0)), y_stride: c.planes[0].stride as u32, u_plane: BufferStoreMut::Borrowed(md::<u16>(c, 1)), u_stride: c.planes[1].stride as u32, v_plane: BufferStoreMut::Borrowed(md::<u16>(c, 2)), v_stride: c.planes[2].stride as u32, width: c.w[0], height: c.h[0] }, 0, 0, YuvChromaSubsampling::Yuv444, |i0: &mut YuvPlanarImageMut<u16>| ret(rgb16_to_gb16(i0, ms::<u16>(c, 3), c.planes[3].stride as u32, rng(c)))) },
  |c| unsafe { own::planar_mut(c, YuvPlanarImageMut { y_plane: BufferStoreMut::Borrowed(md::<u16>(c, 0)), y_stride: c.planes[0].stride as u32, u_plane: BufferStoreMut::Borrowed(md::<u16>(c, 1)), u_stride: c.planes[1].stride as u32, v_plane: BufferStoreMut::Borrowed(md::<u16>(c, 2)), v_stride: c.planes[2].stride as u32, width: c.w[0], height: c.h[0] }, 0, 0, YuvChromaSubsampling::Yuv420, |i0: &mut YuvPlanarImageMut<u16>| ret(rgb16_to_i016(i0, ms::<u16>(c, 3), c.planes[3].stride as u32, rng(c), mtx(c)))) },
  |c| unsafe { own::planar_mut(c, YuvPlanarImageMut { y_plane: BufferStoreMut::Borrowed(md::<u16>(c, 0)), y_stride: c.planes[0].stride as u32, u_plane: BufferStoreMut::Borrowed(md::<u16>(c, 1)), u_stride: c.planes[1].stride as u32, v_plane: BufferStoreMut::Borrowed(md::<u16>(c, 2)), v_stride: c.planes[2].stride as u32, width: c.w[0], height: c.h[0] }, 0, 0, YuvChromaSubsampling::Yuv420, |i0: &mut YuvPlanarImageMut<u16>| ret(rgb16_to_i016_be(i0, ms::<u16>(c, 3), c.planes[3].stride as u32, rng(c), mtx(c)))) },
  |c| unsafe { own::planar_mut(c, YuvPlanarImageMut { y_plane: BufferStoreMut::Borrowed(md::<u16>(c, 0)), y_stride: c.planes[0].stride as u32, u_plane: BufferStoreMut::Borrowed(md::<u16>(c, 1)), u_stride: c.planes[1].stride as u32, v_plane: BufferStoreMut::Borrowed(md::<u16>(c, 2)), v_stride: c.planes[2].stride as u32, width: c.w[0], height: c.h[0] }, 0, 0, YuvChromaSubsampling::Yuv422, |i0: &mut YuvPlanarImageMut<u16>| ret(rgb16_to_i216(i0, ms::<u16>(c, 3), c.planes[3].stride as u32, rng(c), mtx(c)))) },
  |c| unsafe { own::planar_mut(c, YuvPlanarImageMut { y_plane: BufferStoreMut::Borrowed(md::<u16>(c, 0)), y_stride: c.planes[0].stride as u32, u_plane: BufferStoreMut::Borrowed(md::<u16>(c, 1)), u_stride: c.planes[1].stride as u32, v_plane: BufferStoreMut::Borrowed(md::<u16>(c, 2)), v_stride: c.planes[2].stride as u32, width: c.w[0], height: c.h[0] }, 0, 0, YuvChromaSubsampling::Yuv422, |i0: &mut YuvPlanarImageMut<u16>| ret(rgb16_to_i216_be(i0, ms::<u16>(c, 3), c.planes[3].stride as u32, rng(c), mtx(c)))) },
  |c| unsafe { own::planar_mut(c, YuvPlanarImageMut { y_plane: BufferStoreMut::Borrowed(md::<u16>(c, 0)), y_stride: c.planes[0].stride as u32, u_plane: BufferStoreMut::Borrowed(md::<u16>(c, 1)), u_stride: c.planes[1].stride as u32, v_plane: BufferStoreMut::Borrowed(md::<u16>(c, 2)), v_stride: c.planes[2].stride as u32, width: c.w[0], height: c.h[0] }, 0, 0, YuvChromaSubsampling::Yuv444, |i0: &mut YuvPlanarImageMut<u16>| ret(rgb16_to_i416(i0, ms::<u16>(c, 3), c.planes[3].stride as u32, rng(c), mtx(c)))) },
  |c| unsafe { own::planar_mut(c, YuvPlanarImageMut { y_plane: BufferStoreMut::Borrowed(md::<u16>(c, 0)), y_stride: c.planes[0].stride as u32, u_plane: BufferStoreMut::Borrowed(md::<u16>(c, 1)), u_stride: c.planes[1].stride as u32, v_plane: BufferStoreMut::Borrowed(md::<u16>(c, 2)), v_stride: c.planes[2].stride as u32, width: c.w[0], height: c.h[0] }, 0, 0, YuvChromaSubsampling::Yuv444, |i0: &mut YuvPlanarImageMut<u16>| ret(rgb16_to_i416_be(i0, ms::<u16>(c, 3), c.planes[3].stride as u32, rng(c), mtx(c)))) },
  |c| unsafe { own::biplanar_mut(c, YuvBiPlanarImageMut { y_plane: BufferStoreMut::Borrowed(md::<u16>(c, 0)), y_stride: c.planes[0].stride as u32, uv_plane: BufferStoreMut::Borrowed(md::<u16>(c, 1)), uv_stride: c.planes[1].stride as u32, width: c.w[0], height: c.h[0] }, 0, 0, YuvChromaSubsampling::Yuv420, |i0: &mut YuvBiPlanarImageMut<u16>| ret(rgb16_to_p016(i0, ms::<u16>(c, 2), c.planes[2].stride as u32, rng(c), mtx(c)))) },
  |c| unsafe { own::biplanar_mut(c, YuvBiPlanarImageMut { y_plane: BufferStoreMut::Borrowed(md::<u16>(c, 0)), y_stride: c.planes[0].stride as u32, uv_plane: BufferStoreMut::Borrowed(md::<u16>(c, 1)), uv_stride: c.planes[1].stride as u32, width: c.w[0], height: c.h[0] }, 0, 0, YuvChromaSubsampling::Yuv422, |i0: &mut YuvBiPlanarImageMut<u16>| ret(rgb16_to_p216(i0, ms::<u16>(c, 2), c.planes[2].stride as u32, rng(c), mtx(c)))) },
  |c| unsafe { ret(rgb8_to_ar30(md::<u8>(c, 0), c.planes[0].stride as u32, bo(c), ms::<u8>(c, 1), c.planes[1].stride as u32, c.w[0] as u32, c.h[0] as u32)) },
  |c| unsafe { ret(rgb8_to_ra30(md::<u8>(c, 0), c.planes[0].stride as u32, bo(c), ms::<u8>(c, 1), c.planes[1].stride as u32, c.w[0] as u32, c.h[0] as u32)) },
  |c| unsafe { ret(rgb_to_bgr(ms::<u8>(c, 0), c.planes[0].stride as u32, md::<u8>(c, 1), c.planes[1].stride as u32, c.w[0] as u32, c.h[0] as u32)) },
  |c| unsafe { ret(rgb_to_bgra(ms::<u8>(c, 0), c.planes[0].stride as u32, md::<u8>(c, 1), c.planes[1].stride as u32, c.w[0] as u32, c.h[0] as u32)) },
  |c| unsafe { own::planar_mut(c, YuvPlanarImageMut { y_plane: BufferStoreMut::Borrowed(md::<u8>(c, 0)), y_stride: c.planes[0].stride as u32, u_plane: BufferStoreMut::Borrowed(md::<u8>(c, 1)), u_stride: c.planes[1].stride as u32, v_plane: BufferStoreMut::Borrowed(md::<u8>(c, 2)), v_stride: c.planes[2].stride as u32, width: c.w[0], height: c.h[0] }, 0, 0, YuvChromaSubsampling::Yuv444, |i0: &mut YuvPlanarImageMut<u8>| ret(rgb_to_gbr(i0, ms::<u8>(c, 3), c.planes[3].stride as u32, rng(c)))) },
  |c| unsafe { ret(rgb_to_rgba(ms::<u8>(c, 0), c.planes[0].stride as u32, md::<u8>(c, 1), c.planes[1].stride as u32, c.w[0] as u32, c.h[0] as u32)) },
  |c| unsafe { own::planar_mut(c, YuvPlanarImageMut { y_plane: BufferStoreMut::Borrowed(md::<u8>(c, 0)), y_stride: c.planes[0].stride as u32, u_plane: BufferStoreMut::Borrowed(md::<u8>(c, 1)), u_stride: c.planes[1].stride as u32, v_plane: BufferStoreMut::Borrowed(md::<u8>(c, 2)), v_stride: c.planes[2].stride as u32, width: c.w[0], height: c.h[0] }, 0, 0, YuvChromaSubsampling::Yuv420, |i0: &mut YuvPlanarImageMut<u8>| ret(rgb_to_sharp_yuv420(i0, ms::<u8>(c, 3), c.planes[3].stride as u32, rng(c), mtx(c), gm(c)))) },
  |c| unsafe { own::planar_mut(c, YuvPlanarImageMut { y_plane: BufferStoreMut::Borrowed(md::<u8>(c, 0)), y_stride: c.planes[0].stride as u32, u_plane: BufferStoreMut::Borrowed(md::<u8>(c, 1)), u_stride: c.planes[1].stride as u32, v_plane: BufferStoreMut::Borrowed(md::<u8>(c, 2)), v_stride: c.planes[2].stride as u32, width: c.w[0], height: c.h[0] }, 0, 0, YuvChromaSubsampling::Yuv422, |i0: &mut YuvPlanarImageMut<u8>| ret(rgb_to_sharp_yuv422(i0, ms::<u8>(c, 3), c.planes[3].stride as u32, rng(c), mtx(c), gm(c)))) },
  |c| unsafe { own::planar_mut(c, YuvPlanarImageMut { y_plane: BufferStoreMut::Borrowed(md::<u8>(c, 0)), y_stride: c.planes[0].stride as u32, u_plane: BufferStoreMut::Borrowed(md::<u8>(c, 1)), u_stride: c.planes[1].stride as u32, v_plane: BufferStoreMut::Borrowed(md::<u8>(c, 2)), v_stride: c.planes[2].stride as u32, width: c.w[0], height: c.h[0] }, 0, 0, YuvChromaSubsampling::Yuv420, |i0: &mut YuvPlanarImageMut<u8>| ret(rgb_to_ycgco420(i0, ms::<u8>(c, 3), c.planes[3].stride as u32, rng(c)))) },
  |c| unsafe { own::planar_mut(c, YuvPlanarImageMut { y_plane: BufferStoreMut::Borrowed(md::<u8>(c, 0)), y_stride: c.planes[0].stride as u32, u_plane: BufferStoreMut::Borrowed(md::<u8>(c, 1)), u_stride: c.planes[1].stride as u32, v_plane: BufferStoreMut::Borrowed(md::<u8>(c, 2)), v_stride: c.planes[2].stride as u32, width: c.w[0], height: c.h[0] }, 0, 0, YuvChromaSubsampling::Yuv422, |i0: &mut YuvPlanarImageMut<u8>| ret(rgb_to_ycgco422(i0, ms::<u8>(c, 3), c.planes[3].stride as u32, rng(c)))) },
  |c| unsafe { own::planar_mut(c, YuvPlanarImageMut { y_plane: BufferStoreMut::Borrowed(md::<u8>(c, 0)), y_stride: c.planes[0].stride as u32, u_plane: BufferStoreMut::Borrowed(md::<u8>(c, 1)), u_stride: c.planes[1].stride as u32, v_plane: BufferStoreMut::Borrowed(md::<u8>(c, 2)), v_stride: c.planes[2].stride as u32, width: c.w[0], height: c.h[0] }, 0, 0, YuvChromaSubsampling::Yuv444, |i0: &mut YuvPlanarImageMut<u8>| ret(rgb_to_ycgco444(i0, ms::<u8>(c, 3), c.planes[3].stride as u32, rng(c)))) },
  |c| unsafe { own::gray_mut(c, YuvGrayImageMut { y_plane: BufferStoreMut::Borrowed(md::<u8>(c, 0)), y_stride: c.planes[0].stride as u32, width: c.w[0], height: c.h[0] }, 0, 0, YuvChromaSubsampling::Yuv444, |i0: &mut YuvGrayImageMut<u8>| ret(rgb_to_yuv400(i0, ms::<u8>(c, 1), c.planes[1].stride as u32, rng(c), mtx(c)))) },
  |c| unsafe { own::planar_mut(c, YuvPlanarImageMut { y_plane: BufferStoreMut::Borrowed(md::<u8>(c, 0)), y_stride: c.planes[0].stride as u32, u_plane: BufferStoreMut::Borrowed(md::<u8>(c, 1)), u_stride: c.planes[1].stride as u32, v_plane: BufferStoreMut::Borrowed(md::<u8>(c, 2)), v_stride: c.planes[2].stride as u32, width: c.w[0], height: c.h[0] }, 0, 0, YuvChromaSubsampling::Yuv420, |i0: &mut YuvPlanarImageMut<u8>| ret(rgb_to_yuv420(i0, ms::<u8>(c, 3), c.planes[3].stride as u32, rng(c), mtx(c), cm(c)))) },
  |c| unsafe { own::planar_mut(c, YuvPlanarImageMut { y_plane: BufferStoreMut::Borrowed(md::<u8>(c, 0)), y_stride: c.planes[0].stride as u32, u_plane: BufferStoreMut::Borrowed(md::<u8>(c, 1)), u_stride: c.planes[1].stride as u32, v_plane: BufferStoreMut::Borrowed(md::<u8>(c, 2)), v_stride: c.planes[2].stride as u32, width: c.w[0], height: c.h[0] }, 0, 0, YuvChromaSubsampling::Yuv422, |i0: &mut YuvPlanarImageMut<u8>| ret(rgb_to_yuv422(i0, ms::<u8>(c, 3), c.planes[3].stride as u32, rng(c), mtx(c), cm(c)))) },
  |c| unsafe { own::planar_mut(c, YuvPlanarImageMut { y_plane: BufferStoreMut::Borrowed(md::<u8>(c, 0)), y_stride: c.planes[0].stride as u32, u_plane: BufferStoreMut::Borrowed(md::<u8>(c, 1)), u_stride: c.planes[1].stride as u32, v_plane: BufferStoreMut::Borrowed(md::<u8>(c, 2)), v_stride: c.planes[2].stride as u32, width: c.w[0], height: c.h[0] }, 0, 0, YuvChromaSubsampling::Yuv444, |i0: &mut YuvPlanarImageMut<u8>| ret(rgb_to_yuv444(i0, ms::<u8>(c, 3), c.planes[3].stride as u32, rng(c), mtx(c), cm(c)))) },
  |c| unsafe { own::biplanar_mut(c, YuvBiPlanarImageMut { y_plane: BufferStoreMut::Borrowed(md::<u8>(c, 0)), y_stride: c.planes[0].stride as u32, uv_plane: BufferStoreMut::Borrowed(md::<u8>(c, 1)), uv_stride: c.planes[1].stride as u32, width: c.w[0], height: c.h[0] }, 0, 0, YuvChromaSubsampling::Yuv420, |i0: &mut YuvBiPlanarImageMut<u8>| ret(rgb_to_yuv_nv12(i0, ms::<u8>(c, 2), c.planes[2].stride as u32, rng(c), mtx(c), cm(c)))) },
  |c| unsafe { own::biplanar_mut(c, YuvBiPlanarImageMut { y_plane: BufferStoreMut::Borrowed(md::<u8>(c, 0)), y_stride: c.planes[0].stride as u32, uv_plane: BufferStoreMut::Borrowed(md::<u8>(c, 1)), uv_stride: c.planes[1].stride as u32, width: c.w[0], height: c.h[0] }, 0, 0, YuvChromaSubsampling::Yuv422, |i0: &mut YuvBiPlanarImageMut<u8>| ret(rgb_to_yuv_nv16(i0, ms::<u8>(c, 2), c.planes[2].stride as u32, rng(c), mtx(c), cm(c)))) },
  |c| unsafe { own::biplanar_mut(c, YuvBiPlanarImageMut { y_plane: BufferStoreMut::Borrowed(md::<u8>(c, 0)), y_stride: c.planes[0].stride as u32, uv_plane: BufferStoreMut::Borrowed(md::<u8>(c, 1)), uv_stride: c.planes[1].stride as u32, width: c.w[0], height: c.h[0] }, 0, 0, YuvChromaSubsampling::Yuv420, |i0: &mut YuvBiPlanarImageMut<u8>| ret(rgb_to_yuv_nv21(i0, ms::<u8>(c, 2), c.planes[2].stride as u32, rng(c), mtx(c), cm(c)))) },
  |c| unsafe { own::biplanar_mut(c, YuvBiPlanarImageMut { y_plane: BufferStoreMut::Borrowed(md::<u8>(c, 0)), y_stride: c.planes[0].stride as u32, uv_plane: BufferStoreMut::Borrowed(md::<u8>(c, 1)), uv_stride: c.planes[1].stride as u32, width: c.w[0], height: c.h[0] }, 0, 0, YuvChromaSubsampling::Yuv444, |i0: &mut YuvBiPlanarImageMut<u8>| ret(rgb_to_yuv_nv24(i0, ms::<u8>(c, 2), c.planes[2].stride as u32, rng(c), mtx(c), cm(c)))) },
  |c| unsafe { own::biplanar_mut(c, YuvBiPlanarImageMut { y_plane: BufferStoreMut::Borrowed(md::<u8>(c, 0)), y_stride: c.planes[0].stride as u32, uv_plane: BufferStoreMut::Borrowed(md::<u8>(c, 1)), uv_stride: c.planes[1].stride as u32, width: c.w[0], height: c.h[0] }, 0, 0, YuvChromaSubsampling::Yuv444, |i0: &mut YuvBiPlanarImageMut<u8>| ret(rgb_to_yuv_nv42(i0, ms::<u8>(c, 2), c.planes[2].stride as u32, rng(c), mtx(c), cm(c)))) },
  |c| unsafe { own::biplanar_mut(c, YuvBiPlanarImageMut { y_plane: BufferStoreMut::Borrowed(md::<u8>(c, 0)), y_stride: c.planes[0].stride as u32, uv_plane: BufferStoreMut::Borrowed(md::<u8>(c, 1)), uv_stride: c.planes[1].stride as u32, width: c.w[0], height: c.h[0] }, 0, 0, YuvChromaSubsampling::Yuv422, |i0: &mut YuvBiPlanarImageMut<u8>| ret(rgb_to_yuv_nv61(i0, ms::<u8>(c, 2), c.planes[2].stride as u32, rng(c), mtx(c), cm(c)))) },
  |c| unsafe { ret(rgba10_to_ar30(md::<u8>(c, 0), c.planes[0].stride as u32, bo(c), ms::<u16>(c, 1), c.planes[1].stride as u32, c.w[0] as u32, c.h[0] as u32)) },
  |c| unsafe { own::planar_mut(c, YuvPlanarImageMut { y_plane: BufferStoreMut::Borrowed(md::<u16>(c, 0)), y_stride: c.planes[0].stride as u32, u_plane: BufferStoreMut::Borrowed(md::<u16>(c, 1)), u_stride: c.planes[1].stride as u32, v_plane: BufferStoreMut::Borrowed(md::<u16>(c, 2)), v_stride: c.planes[2].stride as u32, width: c.w[0], height: c.h[0] }, 0, 0, YuvChromaSubsampling::Yuv444, |i0: &mut YuvPlanarImageMut<u16>| ret(rgba10_to_gb10(i0, ms::<u16>(c, 3), c.planes[3].stride as u32, rng(c)))) },
  |c| unsafe { own::planar_mut(c, YuvPlanarImageMut { y_plane: BufferStoreMut::Borrowed(md::<u16>(c, 0)), y_stride: c.planes[0].stride as u32, u_plane: BufferStoreMut::Borrowed(md::<u16>(c, 1)), u_stride: c.planes[1].stride as u32, v_plane: BufferStoreMut::Borrowed(md::<u16>(c, 2)), v_stride: c.planes[2].stride as u32, width: c.w[0], height: c.h[0] }, 0, 0, YuvChromaSubsampling::Yuv420, |i0: &mut YuvPlanarImageMut<u16>| ret(rgba10_to_i010(i0, ms::<u16>(c, 3), c.planes[3].stride as u32, rng(c), mtx(c)))) },
  |c| unsafe { own::planar_mut(c, YuvPlanarImageMut { y_plane: BufferStoreMut::Borrowed(md::<u16>(c, 0)), y_stride: c.planes[0].stride as u32, u_plane: BufferStoreMut::Borrowed(md::<u16>(c, 1)), u_stride: c.planes[1].stride as u32, v_plane: BufferStoreMut::Borrowed(md::<u16>(c, 2)), v_stride: c.planes[2].stride as u32, width: c.w[0], height: c.h[0] }, 0, 0, YuvChromaSubsampling::Yuv420, |i0: &mut YuvPlanarImageMut<u16>| ret(rgba10_to_i010_be(i0, ms::<u16>(c, 3), c.planes[3].stride as u32, rng(c), mtx(c)))) },
  |c| unsafe { own::planar_mut(c, YuvPlanarImageMut { y_plane: BufferStoreMut::Borrowed(md::<u16>(c, 0)), y_stride: c.planes[0].stride as u32, u_plane: BufferStoreMut::Borrowed(md::<u16>(c, 1)), u_stride: c.planes[1].stride as u32, v_plane: BufferStoreMut::Borrowed(md::<u16>(c, 2)), v_stride: c.planes[2].stride as u32, width: c.w[0], height: c.h[0] }, 0, 0, YuvChromaSubsampling::Yuv422, |i0: &mut YuvPlanarImageMut<u16>| ret(rgba10_to_i210(i0, ms::<u16>(c, 3), c.planes[3].stride as u32, rng(c), mtx(c)))) },
  |c| unsafe { own::planar_mut(c, YuvPlanarImageMut { y_plane: BufferStoreMut::Borrowed(md::<u16>(c, 0)), y_stride: c.planes[0].stride as u32, u_plane: BufferStoreMut::Borrowed(md::<u16>(c, 1)), u_stride: c.planes[1].stride as u32, v_plane: BufferStoreMut::Borrowed(md::<u16>(c, 2)), v_stride: c.planes[2].stride as u32, width: c.w[0], height: c.h[0] }, 0, 0, YuvChromaSubsampling::Yuv422, |i0: &mut YuvPlanarImageMut<u16>| ret(rgba10_to_i210_be(i0, ms::<u16>(c, 3), c.planes[3].stride as u32, rng(c), mtx(c)))) },
  |c| unsafe { own::planar_mut(c, YuvPlanarImageMut { y_plane: BufferStoreMut::Borrowed(md::<u16>(c, 0)), y_stride: c.planes[0].stride as u32, u_plane: BufferStoreMut::Borrowed(md::<u16>(c, 1)), u_stride: c.planes[1].stride as u32, v_plane: BufferStoreMut::Borrowed(md::<u16>(c, 2)), v_stride: c.planes[2].stride as u32, width: c.w[0], height: c.h[0] }, 0, 0, YuvChromaSubsampling::Yuv444, |i0: &mut YuvPlanarImageMut<u16>| ret(rgba10_to_i410(i0, ms::<u16>(c, 3), c.planes[3].stride as u32, rng(c), mtx(c)))) },
  |c| unsafe { own::planar_mut(c, YuvPlanarImageMut { y_plane: BufferStoreMut::Borrowed(md::<u16>(c, 0)), y_stride: c.planes[0].stride as u32, u_plane: BufferStoreMut::Borrowed(md::<u16>(c, 1)), u_stride: c.planes[1].stride as u32, v_plane: BufferStoreMut::Borrowed(md::<u16>(c, 2)), v_stride: c.planes[2].stride as u32, width: c.w[0], height: c.h[0] }, 0, 0, YuvChromaSubsampling::Yuv444, |i0: &mut YuvPlanarImageMut<u16>| ret(rgba10_to_i410_be(i0, ms::<u16>(c, 3), c.planes[3].stride as u32, rng(c), mtx(c)))) },
  |c| unsafe { own::biplanar_mut(c, YuvBiPlanarImageMut { y_plane: BufferStoreMut::Borrowed(md::<u16>(c, 0)), y_stride: c.planes[0].stride as u32, uv_plane: BufferStoreMut::Borrowed(md::<u16>(c, 1)), uv_stride: c.planes[1].stride as u32, width: c.w[0], height: c.h[0] }, 0, 0, YuvChromaSubsampling::Yuv420, |i0: &mut YuvBiPlanarImageMut<u16>| ret(rgba10_to_p010(i0, ms::<u16>(c, 2), c.planes[2].stride as u32, rng(c), mtx(c)))) },
  |c| unsafe { own::biplanar_mut(c, YuvBiPlanarImageMut { y_plane: BufferStoreMut::Borrowed(md::<u16>(c, 0)), y_stride: c.planes[0].stride as u32, uv_plane: BufferStoreMut::Borrowed(md::<u16>(c, 1)), uv_stride: c.planes[1].stride as u32, width: c.w[0], height: c.h[0] }, 0, 0, YuvChromaSubsampling::Yuv422, |i0: &mut YuvBiPlanarImageMut<u16>| ret(rgba10_to_p210(i0, ms::<u16>(c, 2), c.planes[2].stride as u32, rng(c), mtx(c)))) },
  |c| unsafe { own::biplanar_mut(c, YuvBiPlanarImageMut { y_plane: BufferStoreMut::Borrowed(md::<u16>(c, 0)), y_stride: c.planes[0].stride as u32, uv_plane: BufferStoreMut::Borrowed(md::<u16>(c, 1)), uv_stride: c.planes[1].stride as u32, width: c.w[0], height: c.h[0] }, 0, 0, YuvChromaSubsampling::Yuv444, |i0: &mut YuvBiPlanarImageMut<u16>| ret(rgba10_to_p410(i0, ms::<u16>(c, 2), c.planes[2].stride as u32, rng(c), mtx(c)))) },
  |c| unsafe { ret(rgba10_to_ra30(md::<u8>(c, 0), c.planes[0].stride as u32, bo(c), ms::<u16>(c, 1), c.planes[1].stride as u32, c.w[0] as u32, c.h[0] as u32)) },
  |c| unsafe { ret(rgba12_to_ar30(md::<u8>(c, 0), c.planes[0].stride as u32, bo(c), ms::<u16>(c, 1), c.planes[1].stride as u32, c.w[0] as u32, c.h[0] as u32)) },
  |c| unsafe { own::planar_mut(c, YuvPlanarImageMut { y_plane: BufferStoreMut::Borrowed(md::<u16>(c, 0)), y_stride: c.planes[0].stride as u32, u_plane: BufferStoreMut::Borrowed(md::<u16>(c, 1)), u_stride: c.planes[1].stride as u32, v_plane: BufferStoreMut::Borrowed(md::<u16>(c, 2)), v_stride: c.planes[2].stride as u32, width: c.w[0], height: c.h[0] }, 0, 0, YuvChromaSubsampling::Yuv444, |i0: &mut YuvPlanarImageMut<u16>| ret(rgba12_to_gb12(i0, ms::<u16>(c, 3), c.planes[3].stride as u32, rng(c)))) },
  |c| unsafe { own::planar_mut(c, YuvPlanarImageMut { y_plane: BufferStoreMut::Borrowed(md::<u16>(c, 0)), y_stride: c.planes[0].stride as u32, u_plane: BufferStoreMut::Borrowed(md::<u16>(c, 1)), u_stride: c.planes[1].stride as u32, v_plane: BufferStoreMut::Borrowed(md::<u16>(c, 2)), v_stride: c.planes[2].stride as u32, width: c.w[0], height: c.h[0] }, 0, 0, YuvChromaSubsampling::Yuv420, |i0: &mut YuvPlanarImageMut<u16>| ret(rgba12_to_i012(i0, ms::<u16>(c, 3), c.planes[3].stride as u32, rng(c), mtx(c)))) },
  |c| unsafe { own::planar_mut(c, YuvPlanarImageMut { y_plane: BufferStoreMut::Borrowed(md::<u16>(c, 0)), y_stride: c.planes[0].stride as u32, u_plane: BufferStoreMut::Borrowed(md::<u16>(c, 1)), u_stride: c.planes[1].stride as u32, v_plane: BufferStoreMut::Borrowed(md::<u16>(c, 2)), v_stride: c.planes[2].stride as u32, width: c.w[0], height: c.h[0] }, 0, 0, YuvChromaSubsampling::Yuv420, |i0: &mut YuvPlanarImageMut<u16>| ret(rgba12_to_i012_be(i0, ms::<u16>(c, 3), c.planes[3].stride as u32, rng(c), mtx(c)))) },
  |c| unsafe { own::planar_mut(c, YuvPlanarImageMut { y_plane: BufferStoreMut::Borrowed(md::<u16>(c, 0)), y_stride: c.planes[0].stride as u32, u_plane: BufferStoreMut::Borrowed(md::<u16>(c, 1)), u_stride: c.planes[1].stride as u32, v_plane: BufferStoreMut::Borrowed(md::<u16>(c, 2)), v_stride: c.planes[2].stride as u32, width: c.w[0], height: c.h[0] }, 0, 0, YuvChromaSubsampling::Yuv422, |i0: &mut YuvPlanarImageMut<u16>| ret(rgba12_to_i212(i0, ms::<u16>(c, 3), c.planes[3].stride as u32, rng(c), mtx(c)))) },
  |c| unsafe { own::planar_mut(c, YuvPlanarImageMut { y_plane: BufferStoreMut::Borrowed(md::<u16>(c, 0)), y_stride: c.planes[0].stride as u32, u_plane: BufferStoreMut::Borrowed(md::<u16>(c, 1)), u_stride: c.planes[1].stride as u32, v_plane: BufferStoreMut::Borrowed(md::<u16>(c, 2)), v_stride: c.planes[2].stride as u32, width: c.w[0], height: c.h[0] }, 0, 0, YuvChromaSubsampling::Yuv422, |i0: &mut YuvPlanarImageMut<u16>| ret(rgba12_to_i212_be(i0, ms::<u16>(c, 3), c.planes[3].stride as u32, rng(c), mtx(c)))) },
  |c| unsafe { own::planar_mut(c, YuvPlanarImageMut { y_plane: BufferStoreMut::Borrowed(md::<u16>(c, 0)), y_stride: c.planes[0].stride as u32, u_plane: BufferStoreMut::Borrowed(md::<u16>(c, 1)), u_stride: c.planes[1].stride as u32, v_plane: BufferStoreMut::Borrowed(md::<u16>(c, 2)), v_stride: c.planes[2].stride as u32, width: c.w[0], height: c.h[0] }, 0, 0, YuvChromaSubsampling::Yuv444, |i0: &mut YuvPlanarImageMut<u16>| ret(rgba12_to_i412(i0, ms::<u16>(c, 3), c.planes[3].stride as u32, rng(c), mtx(c)))) },
  |c| unsafe { own::planar_mut(c, YuvPlanarImageMut { y_plane: BufferStoreMut::Borrowed(md::<u16>(c, 0)), y_stride: c.planes[0].stride as u32, u_plane: BufferStoreMut::Borrowed(md::<u16>(c, 1)), u_stride: c.planes[1].stride as u32, v_plane: BufferStoreMut::Borrowed(md::<u16>(c, 2)), v_stride: c.planes[2].stride as u32, width: c.w[0], height: c.h[0] }, 0, 0, YuvChromaSubsampling::Yuv444, |i0: &mut YuvPlanarImageMut<u16>| ret(rgba12_to_i412_be(i0, ms::<u16>(c, 3), c.planes[3].stride as u32, rng(c), mtx(c)))) },
  |c| unsafe { own::biplanar_mut(c, YuvBiPlanarImageMut { y_plane: BufferStoreMut::Borrowed(md::<u16>(c, 0)), y_stride: c.planes[0].stride as u32, uv_plane: BufferStoreMut::Borrowed(md::<u16>(c, 1)), uv_stride: c.planes[1].stride as u32, width: c.w[0], height: c.h[0] }, 0, 0, YuvChromaSubsampling::Yuv420, |i0: &mut YuvBiPlanarImageMut<u16>| ret(rgba12_to_p012(i0, ms::<u16>(c, 2), c.planes[2].stride as u32, rng(c), mtx(c)))) },
  |c| unsafe { own::biplanar_mut(c, YuvBiPlanarImageMut { y_plane: BufferStoreMut::Borrowed(md::<u16>(c, 0)), y_stride: c.planes[0].stride as u32, uv_plane: BufferStoreMut::Borrowed(md::<u16>(c, 1)), uv_stride: c.planes[1].stride as u32, width: c.w[0], height: c.h[0] }, 0, 0, YuvChromaSubsampling::Yuv422, |i0: &mut YuvBiPlanarImageMut<u16>| ret(rgba12_to_p212(i0, ms::<u16>(c, 2), c.planes[2].stride as u32, rng(c), mtx(c)))) },
  |c| unsafe { own::biplanar_mut(c, YuvBiPlanarImageMut { y_plane: BufferStoreMut::Borrowed(md::<u16>(c, 0)), y_stride: c.planes[0].stride as u32, uv_plane: BufferStoreMut::Borrowed(md::<u16>(c, 1)), uv_stride: c.planes[1].stride as u32, width: c.w[0], height: c.h[0] }, 0, 0, YuvChromaSubsampling::Yuv444, |i0: &mut YuvBiPlanarImageMut<u16>| ret(rgba12_to_p412(i0, ms::<u16>(c, 2), c.planes[2].stride as u32, rng(c), mtx(c)))) },
  |c| unsafe { ret(rgba12_to_ra30(md::<u8>(c, 0), c.planes[0].stride as u32, bo(c), ms::<u16>(c, 1), c.planes[1].stride as u32, c.w[0] as u32, c.h[0] as u32)) },
  |c| unsafe { own::planar_mut(c, YuvPlanarImageMut { y_plane: BufferStoreMut::Borrowed(md::<u16>(c, 0)), y_stride: c.planes[0].stride as u32, u_plane: BufferStoreMut::Borrowed(md::<u16>(c, 1)), u_stride: c.planes[1].stride as u32, v_plane: BufferStoreMut::Borrowed(md::<u16>(c, 2)), v_stride: c.planes[2].stride as u32, width: c.w[0], height: c.h[0] }, 0, 0, YuvChromaSubsampling::Yuv444, |i0: &mut YuvPlanarImageMut<u16>| ret(rgba14_to_gb14(i0, ms::<u16>(c, 3), c.planes[3].stride as u32, rng(c)))) },
  |c| unsafe { own::planar_mut(c, YuvPlanarImageMut { y_plane: BufferStoreMut::Borrowed(md::<u16>(c, 0)), y_stride: c.planes[0].stride as u32, u_plane: BufferStoreMut::Borrowed(md::<u16>(c, 1)), u_stride: c.planes[1].stride as u32, v_plane: BufferStoreMut::Borrowed(md::<u16>(c, 2)), v_stride: c.planes[2].stride as u32, width: c.w[0], height: c.h[0] }, 0, 0, YuvChromaSubsampling::Yuv420, |i0: &mut YuvPlanarImageMut<u16>| ret(rgba14_to_i014(i0, ms::<u16>(c, 3), c.planes[3].stride as u32, rng(c), mtx(c)))) },
  |c| unsafe { own::planar_mut(c, YuvPlanarImageMut { y_plane: BufferStoreMut::Borrowed(md::<u16>(c, 0)), y_stride: c.planes[0].stride as u32, u_plane: BufferStoreMut::Borrowed(md::<u16>(c, 1)), u_stride: c.planes[1].stride as u32, v_plane: BufferStoreMut::Borrowed(md::<u16>(c, 2)), v_stride: c.planes[2].stride as u32, width: c.w[0], height: c.h[0] }, 0, 0, YuvChromaSubsampling::Yuv420, |i0: &mut YuvPlanarImageMut<u16>| ret(rgba14_to_i014_be(i0, ms::<u16>(c, 3), c.planes[3].stride as u32, rng(c), mtx(c)))) },
  |c| unsafe { own::planar_mut(c, YuvPlanarImageMut { y_plane: BufferStoreMut::Borrowed(md::<u16>(c, 0)), y_stride: c.planes[0].stride as u32, u_plane: BufferStoreMut::Borrowed(md::<u16>(c, 1)), u_stride: c.planes[1].stride as u32, v_plane: BufferStoreMut::Borrowed(md::<u16>(c, 2)), v_stride: c.planes[2].stride as u32, width: c.w[0], height: c.h[0] }, 0, 0, YuvChromaSubsampling::Yuv422, |i0: &mut YuvPlanarImageMut<u16>| ret(rgba14_to_i214(i0, ms::<u16>(c, 3), c.planes[3].stride as u32, rng(c), mtx(c)))) },
  |c| unsafe { own::planar_mut(c, YuvPlanarImageMut { y_plane: BufferStoreMut::Borrowed(md::<u16>(c, 0)), y_stride: c.planes[0].stride as u32, u_plane: BufferStoreMut::Borrowed(md::<u16>(c, 1)), u_stride: c.planes[1].stride as u32, v_plane: BufferStoreMut::Borrowed(md::<u16>(c, 2)), v_stride: c.planes[2].stride as u32, width: c.w[0], height: c.h[0] }, 0, 0, YuvChromaSubsampling::Yuv422, |i0: &mut YuvPlanarImageMut<u16>| ret(rgba14_to_i214_be(i0, ms::<u16>(c, 3), c.planes[3].stride as u32, rng(c), mtx(c)))) },
  |c| unsafe { own::planar_mut(c, YuvPlanarImageMut { y_plane: BufferStoreMut::Borrowed(md::<u16>(c, 0)), y_stride: c.planes[0].stride as u32, u_plane: BufferStoreMut::Borrowed(md::<u16>(c, 1)), u_stride: c.planes[1].stride as u32, v_plane: BufferStoreMut::Borrowed(md::<u16>(c, 2)), v_stride: c.planes[2].stride as u32, width: c.w[0], height: c.h[0] }, 0, 0, YuvChromaSubsampling::Yuv444, |i0: &mut YuvPlanarImageMut<u16>| ret(rgba14_to_i414(i0, ms::<u16>(c, 3), c.planes[3].stride as u32, rng(c), mtx(c)))) },
  |c| unsafe { own::planar_mut(c, YuvPlanarImageMut { y_plane: BufferStoreMut::Borrowed(md::<u16>(c, 0)), y_stride: c.planes[0].stride as u32, u_plane: BufferStoreMut::Borrowed(md::<u16>(c, 1)), u_stride: c.planes[1].stride as u32, v_plane: BufferStoreMut::Borrowed(md::<u16>(c, 2)), v_stride: c.planes[2].stride as u32, width: c.w[0], height: c.h[0] }, 0, 0, YuvChromaSubsampling::Yuv444, |i0: &mut YuvPlanarImageMut<u16>| ret(rgba14_to_i414_be(i0, ms::<u16>(c, 3), c.planes[3].stride as u32, rng(c), mtx(c)))) },
  |c| unsafe { own::planar_mut(c, YuvPlanarImageMut { y_plane: BufferStoreMut::Borrowed(md::<u16>(c, 0)), y_stride: c.planes[0].stride as u32, u_plane: BufferStoreMut::Borrowed(md::<u16>(c, 1)), u_stride: c.planes[1].stride as u32, v_plane: BufferStoreMut::Borrowed(md::<u16>(c, 2)), v_stride: c.planes[2].stride as u32, width: c.w[0], height: c.h[0] }, 0, 0, YuvChromaSubsampling::Yuv444, |i0: &mut YuvPlanarImageMut<u16>| ret(rgba16_to_gb16(i0, ms::<u16>(c, 3), c.planes[3].stride as u32, rng(c)))) },
  |c| unsafe { own::planar_mut(c, YuvPlanarImageMut { y_plane: BufferStoreMut::Borrowed(md::<u16>(c, 0)), y_stride: c.planes[0].stride as u32, u_plane: BufferStoreMut::Borrowed(md::<u16>(c, 1)), u_stride: c.planes[1].stride as u32, v_plane: BufferStoreMut::Borrowed(md::<u16>(c, 2)), v_stride: c.planes[2].stride as u32, width: c.w[0], height: c.h[0] }, 0, 0, YuvChromaSubsampling::Yuv420, |i0: &mut YuvPlanarImageMut<u16>| ret(rgba16_to_i016(i0, ms::<u16>(c, 3), c.planes[3].stride as u32, rng(c), mtx(c)))) },
  |c| unsafe { own::planar_mut(c, YuvPlanarImageMut { y_plane: BufferStoreMut::Borrowed(md::<u16>(c, 0)), y_stride: c.planes[0].stride as u32, u_plane: BufferStoreMut::Borrowed(md::<u16>(c, 1)), u_stride: c.planes[1].stride as u32, v_plane: BufferStoreMut::Borrowed(md::<u16>(c, 2)), v_stride: c.planes[2].stride as u32, width: c.w[0], height: c.h[0] }, 0, 0, YuvChromaSubsampling::Yuv420, |i0: &mut YuvPlanarImageMut<u16>| ret(rgba16_to_i016_be(i0, ms::<u16>(c, 3), c.planes[3].stride as u32, rng(c), mtx(c)))) },
  |c| unsafe { own::planar_mut(c, YuvPlanarImageMut { y_plane: BufferStoreMut::Borrowed(md::<u16>(c, 0)), y_stride: c.planes[0].stride as u32, u_plane: BufferStoreMut::Borrowed(md::<u16>(c, 1)), u_stride: c.planes[1].stride as u32, v_plane: BufferStoreMut::Borrowed(md::<u16>(c, 2)), v_stride: c.planes[2].stride as u32, width: c.w[0], height: c.h[0] }, 0, 0, YuvChromaSubsampling::Yuv422, |i0: &mut YuvPlanarImageMut<u16>| ret(rgba16_to_i216(i0, ms::<u16>(c, 3), c.planes[3].stride as u32, rng(c), mtx(c)))) },
  |c| unsafe { own::planar_mut(c, YuvPlanarImageMut { y_plane: BufferStoreMut::Borrowed(md::<u16>(c, 0)), y_stride: c.planes[0].stride as u32, u_plane: BufferStoreMut::Borrowed(md::<u16>(c, 1)), u_stride: c.planes[1].stride as u32, v_plane: BufferStoreMut::Borrowed(md::<u16>(c, 2)), v_stride: c.planes[2].stride as u32, width: c.w[0], height: c.h[0] }, 0, 0, YuvChromaSubsampling::Yuv422, |i0: &mut YuvPlanarImageMut<u16>| ret(rgba16_to_i216_be(i0, ms::<u16>(c, 3), c.planes[3].stride as u32, rng(c), mtx(c)))) },
  |c| unsafe { own::planar_mut(c, YuvPlanarImageMut { y_plane: BufferStoreMut::Borrowed(md::<u16>(c, 0)), y_stride: c.planes[0].stride as u32, u_plane: BufferStoreMut::Borrowed(md::<u16>(c, 1)), u_stride: c.planes[1].stride as u32, v_plane: BufferStoreMut::Borrowed(md::<u16>(c, 2)), v_stride: c.planes[2].stride as u32, width: c.w[0], height: c.h[0] }, 0, 0, YuvChromaSubsampling::Yuv444, |i0: &mut YuvPlanarImageMut<u16>| ret(rgba16_to_i416(i0, ms::<u16>(c, 3), c.planes[3].stride as u32, rng(c), mtx(c)))) },
  |c| unsafe { own::planar_mut(c, YuvPlanarImageMut { y_plane: BufferStoreMut::Borrowed(md::<u16>(c, 0)), y_stride: c.planes[0].stride as u32, u_plane: BufferStoreMut::Borrowed(md::<u16>(c, 1)), u_stride: c.planes[1].stride as u32, v_plane: BufferStoreMut::Borrowed(md::<u16>(c, 2)), v_stride: c.planes[2].stride as u32, width: c.w[0], height: c.h[0] }, 0, 0, YuvChromaSubsampling::Yuv444, |i0: &mut YuvPlanarImageMut<u16>| ret(rgba16_to_i416_be(i0, ms::<u16>(c, 3), c.planes[3].stride as u32, rng(c), mtx(c)))) },
  |c| unsafe { own::biplanar_mut(c, YuvBiPlanarImageMut { y_plane: BufferStoreMut::Borrowed(md::<u16>(c, 0)), y_stride: c.planes[0].stride as u32, uv_plane: BufferStoreMut::Borrowed(md::<u16>(c, 1)), uv_stride: c.planes[1].stride as u32, width: c.w[0], height: c.h[0] }, 0, 0, YuvChromaSubsampling::Yuv420, |i0: &mut YuvBiPlanarImageMut<u16>| ret(rgba16_to_p016(i0, ms::<u16>(c, 2), c.planes[2].stride as u32, rng(c), mtx(c)))) },
  |c| unsafe { own::biplanar_mut(c, YuvBiPlanarImageMut { y_plane: BufferStoreMut::Borrowed(md::<u16>(c, 0)), y_stride: c.planes[0].stride as u32, uv_plane: BufferStoreMut::Borrowed(md::<u16>(c, 1)), uv_stride: c.planes[1].stride as u32, width: c.w[0], height: c.h[0] }, 0, 0, YuvChromaSubsampling::Yuv422, |i0: &mut YuvBiPlanarImageMut<u16>| ret(rgba16_to_p216(i0, ms::<u16>(c, 2), c.planes[2].stride as u32, rng(c), mtx(c)))) },
  |c| unsafe { ret(rgba8_to_ar30(md::<u8>(c, 0), c.planes[0].stride as u32, bo(c), ms::<u8>(c, 1), c.planes[1].stride as u32, c.w[0] as u32, c.h[0] as u32)) },
  |c| unsafe { ret(rgba8_to_ra30(md::<u8>(c, 0), c.planes[0].stride as u32, bo(c), ms::<u8>(c, 1), c.planes[1].stride as u32, c.w[0] as u32, c.h[0] as u32)) },
  |c| unsafe { ret(rgba_to_bgr(ms::<u8>(c, 0), c.planes[0].stride as u32, md::<u8>(c, 1), c.planes[1].stride as u32, c.w[0] as u32, c.h[0] as u32)) },
  |c| unsafe { ret(rgba_to_bgra(ms::<u8>(c, 0), c.planes[0].stride as u32, md::<u8>(c, 1), c.planes[1].stride as u32, c.w[0] as u32, c.h[0] as u32)) },
  |c| unsafe { own::planar_mut(c, YuvPlanarImageMut { y_plane: BufferStoreMut::Borrowed(md::<u8>(c, 0)), y_stride: c.planes[0].stride as u32, u_plane: BufferStoreMut::Borrowed(md::<u8>(c, 1)), u_stride: c.planes[1].stride as u32, v_plane: BufferStoreMut::Borrowed(md::<u8>(c, 2)), v_stride: c.planes[2].stride as u32, width: c.w[0], height: c.h[0] }, 0, 0, YuvChromaSubsampling::Yuv444, |i0: &mut YuvPlanarImageMut<u8>| ret(rgba_to_gbr(i0, ms::<u8>(c, 3), c.planes[3].stride as u32, rng(c)))) },
  |c| unsafe { ret(rgba_to_rgb(ms::<u8>(c, 0), c.planes[0].stride as u32, md::<u8>(c, 1), c.planes[1].stride as u32, c.w[0] as u32, c.h[0] as u32)) },
  |c| unsafe { own::planar_mut(c, YuvPlanarImageMut { y_plane: BufferStoreMut::Borrowed(md::<u8>(c, 0)), y_stride: c.planes[0].stride as u32, u_plane: BufferStoreMut::Borrowed(md::<u8>(c, 1)), u_stride: c.planes[1].stride as u32, v_plane: BufferStoreMut::Borrowed(md::<u8>(c, 2)), v_stride: c.planes[2].stride as u32, width: c.w[0], height: c.h[0] }, 0, 0, YuvChromaSubsampling::Yuv420, |i0: &mut YuvPlanarImageMut<u8>| ret(rgba_to_sharp_yuv420(i0, ms::<u8>(c, 3), c.planes[3].stride as u32, rng(c), mtx(c), gm(c)))) },
  |c| unsafe { own::planar_mut(c, YuvPlanarImageMut { y_plane: BufferStoreMut::Borrowed(md::<u8>(c, 0)), y_stride: c.planes[0].stride as u32, u_plane: BufferStoreMut::Borrowed(md::<u8>(c, 1)), u_stride: c.planes[1].stride as u32, v_plane: BufferStoreMut::Borrowed(md::<u8>(c, 2)), v_stride: c.planes[2].stride as u32, width: c.w[0], height: c.h[0] }, 0, 0, YuvChromaSubsampling::Yuv422, |i0: &mut YuvPlanarImageMut<u8>| ret(rgba_to_sharp_yuv422(i0, ms::<u8>(c, 3), c.planes[3].stride as u32, rng(c), mtx(c), gm(c)))) },
  |c| unsafe { own::planar_mut(c, YuvPlanarImageMut { y_plane: BufferStoreMut::Borrowed(md::<u8>(c, 0)), y_stride: c.planes[0].stride as u32, u_plane: BufferStoreMut::Borrowed(md::<u8>(c, 1)), u_stride: c.planes[1].stride as u32, v_plane: BufferStoreMut::Borrowed(md::<u8>(c, 2)), v_stride: c.planes[2].stride as u32, width: c.w[0], height: c.h[0] }, 0, 0, YuvChromaSubsampling::Yuv420, |i0: &mut YuvPlanarImageMut<u8>| ret(rgba_to_ycgco420(i0, ms::<u8>(c, 3), c.planes[3].stride as u32, rng(c)))) },
  |c| unsafe { own::planar_mut(c, YuvPlanarImageMut { y_plane: BufferStoreMut::Borrowed(md::<u8>(c, 0)), y_stride: c.planes[0].stride as u32, u_plane: BufferStoreMut::Borrowed(md::<u8>(c, 1)), u_stride: c.planes[1].stride as u32, v_plane: BufferStoreMut::Borrowed(md::<u8>(c, 2)), v_stride: c.planes[2].stride as u32, width: c.w[0], height: c.h[0] }, 0, 0, YuvChromaSubsampling::Yuv422, |i0: &mut YuvPlanarImageMut<u8>| ret(rgba_to_ycgco422(i0, ms::<u8>(c, 3), c.planes[3].stride as u32, rng(c)))) },
  |c| unsafe { own::planar_mut(c, YuvPlanarImageMut { y_plane: BufferStoreMut::Borrowed(md::<u8>(c, 0)), y_stride: c.planes[0].stride as u32, u_plane: BufferStoreMut::Borrowed(md::<u8>(c, 1)), u_stride: c.planes[1].stride as u32, v_plane: BufferStoreMut::Borrowed(md::<u8>(c, 2)), v_stride: c.planes[2].stride as u32, width: c.w[0], height: c.h[0] }, 0, 0, YuvChromaSubsampling::Yuv444, |i0: &mut YuvPlanarImageMut<u8>| ret(rgba_to_ycgco444(i0, ms::<u8>(c, 3), c.planes[3].stride as u32, rng(c)))) },
  |c| unsafe { own::gray_mut(c, YuvGrayImageMut { y_plane: BufferStoreMut::Borrowed(md::<u8>(c, 0)), y_stride: c.planes[0].stride as u32, width: c.w[0], height: c.h[0] }, 0, 0, YuvChromaSubsampling::Yuv444, |i0: &mut YuvGrayImageMut<u8>| ret(rgba_to_yuv400(i0, ms::<u8>(c, 1), c.planes[1].stride as u32, rng(c), mtx(c)))) },
  |c| unsafe { own::planar_mut(c, YuvPlanarImageMut { y_plane: BufferStoreMut::Borrowed(md::<u8>(c, 0)), y_stride: c.planes[0].stride as u32, u_plane: BufferStoreMut::Borrowed(md::<u8>(c, 1)), u_stride: c.planes[1].stride as u32, v_plane: BufferStoreMut::Borrowed(md::<u8>(c, 2)), v_stride: c.planes[2].stride as u32, width: c.w[0], height: c.h[0] }, 0, 0, YuvChromaSubsampling::Yuv420, |i0: &mut YuvPlanarImageMut<u8>| ret(rgba_to_yuv420(i0, ms::<u8>(c, 3), c.planes[3].stride as u32, rng(c), mtx(c), cm(c)))) },
  |c| unsafe { own::planar_mut(c, YuvPlanarImageMut { y_plane: BufferStoreMut::Borrowed(md::<u8>(c, 0)), y_stride: c.planes[0].stride as u32, u_plane: BufferStoreMut::Borrowed(md::<u8>(c, 1)), u_stride: c.planes[1].stride as u32, v_plane: BufferStoreMut::Borrowed(md::<u8>(c, 2)), v_stride: c.planes[2].stride as u32, width: c.w[0], height: c.h[0] }, 0, 0, YuvChromaSubsampling::Yuv422, |i0: &mut YuvPlanarImageMut<u8>| ret(rgba_to_yuv422(i0, ms::<u8>(c, 3), c.planes[3].stride as u32, rng(c), mtx(c), cm(c)))) },
  |c| unsafe { own::planar_mut(c, YuvPlanarImageMut { y_plane: BufferStoreMut::Borrowed(md::<u8>(c, 0)), y_stride: c.planes[0].stride as u32, u_plane: BufferStoreMut::Borrowed(md::<u8>(c, 1)), u_stride: c.planes[1].stride as u32, v_plane: BufferStoreMut::Borrowed(md::<u8>(c, 2)), v_stride: c.planes[2].stride as u32, width: c.w[0], height: c.h[0] }, 0, 0, YuvChromaSubsampling::Yuv444, |i0: &mut YuvPlanarImageMut<u8>| ret(rgba_to_yuv444(i0, ms::<u8>(c, 3), c.planes[3].stride as u32, rng(c), mtx(c), cm(c)))) },
  |c| unsafe { own::biplanar_mut(c, YuvBiPlanarImageMut { y_plane: BufferStoreMut::Borrowed(md::<u8>(c, 0)), y_stride: c.planes[0].stride as u32, uv_plane: BufferStoreMut::Borrowed(md::<u8>(c, 1)), uv_stride: c.planes[1].stride as u32, width: c.w[0], height: c.h[0] }, 0, 0, YuvChromaSubsampling::Yuv420, |i0: &mut YuvBiPlanarImageMut<u8>| ret(rgba_to_yuv_nv12(i0, ms::<u8>(c, 2), c.planes[2].stride as u32, rng(c), mtx(c), cm(c)))) },
  |c| unsafe { own::biplanar_mut(c, YuvBiPlanarImageMut { y_plane: BufferStoreMut::Borrowed(md::<u8>(c, 0)), y_stride: c.planes[0].stride as u32, uv_plane: BufferStoreMut::Borrowed(md::<u8>(c, 1)), uv_stride: c.planes[1].stride as u32, width: c.w[0], height: c.h[0] }, 0, 0, YuvChromaSubsampling::Yuv422, |i0: &mut YuvBiPlanarImageMut<u8>| ret(rgba_to_yuv_nv16(i0, ms::<u8>(c, 2), c.planes[2].stride as u32, rng(c), mtx(c), cm(c)))) },
  |c| unsafe { own::biplanar_mut(c, YuvBiPlanarImageMut { y_plane: BufferStoreMut::Borrowed(md::<u8>(c, 0)), y_stride: c.planes[0].stride as u32, uv_plane: BufferStoreMut::Borrowed(md::<u8>(c, 1)), uv_stride: c.planes[1].stride as u32, width: c.w[0], height: c.h[0] }, 0, 0, YuvChromaSubsampling::Yuv420, |i0: &mut YuvBiPlanarImageMut<u8>| ret(rgba_to_yuv_nv21(i0, ms::<u8>(c, 2), c.planes[2].stride as u32, rng(c), mtx(c), cm(c)))) },
  |c| unsafe { own::biplanar_mut(c, YuvBiPlanarImageMut { y_plane: BufferStoreMut::Borrowed(md::<u8>(c, 0)), y_stride: c.planes[0].stride as u32, uv_plane: BufferStoreMut::Borrowed(md::<u8>(c, 1)), uv_stride: c.planes[1].stride as u32, width: c.w[0], height: c.h[0] }, 0, 0, YuvChromaSubsampling::Yuv444, |i0: &mut YuvBiPlanarImageMut<u8>| ret(rgba_to_yuv_nv24(i0, ms::<u8>(c, 2), c.planes[2].stride as u32, rng(c), mtx(c), cm(c)))) },
  |c| unsafe { own::biplanar_mut(c, YuvBiPlanarImageMut { y_plane: BufferStoreMut::Borrowed(md::<u8>(c, 0)), y_stride: c.planes[0].stride as u32, uv_plane: BufferStoreMut::Borrowed(md::<u8>(c, 1)), uv_stride: c.planes[1].stride as u32, width: c.w[0], height: c.h[0] }, 0, 0, YuvChromaSubsampling::Yuv444, |i0: &mut YuvBiPlanarImageMut<u8>| ret(rgba_to_yuv_nv42(i0, ms::<u8>(c, 2), c.planes[2].stride as u32, rng(c), mtx(c), cm(c)))) },
  |c| unsafe { own::biplanar_mut(c, YuvBiPlanarImageMut { y_plane: BufferStoreMut::Borrowed(md::<u8>(c, 0)), y_stride: c.planes[0].stride as u32, uv_plane: BufferStoreMut::Borrowed(md::<u8>(c, 1)), uv_stride: c.planes[1].stride as u32, width: c.w[0], height: c.h[0] }, 0, 0, YuvChromaSubsampling::Yuv422, |i0: &mut YuvBiPlanarImageMut<u8>| ret(rgba_to_yuv_nv61(i0, ms::<u8>(c, 2), c.planes[2].stride as u32, rng(c), mtx(c), cm(c)))) },
  |c| unsafe { ret(rotate_cbcr(ms::<u8>(c, 0), c.planes[0].stride as usize, md::<u8>(c, 1), c.planes[1].stride as usize, c.w[0] as usize, c.h[0] as usize, rm(c))) },
  |c| unsafe { ret(rotate_cbcr16(ms::<u16>(c, 0), c.planes[0].stride as usize, md::<u16>(c, 1), c.planes[1].stride as usize, c.w[0] as usize, c.h[0] as usize, rm(c))) },
  |c| unsafe { ret(rotate_plane(ms::<u8>(c, 0), c.planes[0].stride as usize, md::<u8>(c, 1), c.planes[1].stride as usize, c.w[0] as usize, c.h[0] as usize, rm(c))) },
  |c| unsafe { ret(rotate_plane16(ms::<u16>(c, 0), c.planes[0].stride as usize, md::<u16>(c, 1), c.planes[1].stride as usize, c.w[0] as usize, c.h[0] as usize, rm(c))) },
  |c| unsafe { ret(rotate_rgb(ms::<u8>(c, 0), c.planes[0].stride as usize, md::<u8>(c, 1), c.planes[1].stride as usize, c.w[0] as usize, c.h[0] as usize, rm(c))) },
  |c| unsafe { ret(rotate_rgb16(ms::<u16>(c, 0), c.planes[0].stride as usize, md::<u16>(c, 1), c.planes[1].stride as usize, c.w[0] as usize, c.h[0] as usize, rm(c))) },
  |c| unsafe { ret(rotate_rgba(ms::<u8>(c, 0), c.planes[0].stride as usize, md::<u8>(c, 1), c.planes[1].stride as usize, c.w[0] as usize, c.h[0] as usize, rm(c))) },
  |c| unsafe { ret(rotate_rgba16(ms::<u16>(c, 0), c.planes[0].stride as usize, md::<u16>(c, 1), c.planes[1].stride as usize, c.w[0] as usize, c.h[0] as usize, rm(c))) },
  |c| unsafe { own::packed_src(c, YuvPackedImage { yuy: ms::<u8>(c, 0), yuy_stride: c.planes[0].stride as u32, width: c.w[0], height: c.h[0] }, 0, 0, YuvChromaSubsampling::Yuv444, |i0: &YuvPackedImage<u8>| ret(uyvy422_to_bgr(i0, md::<u8>(c, 1), c.planes[1].stride as u32, rng(c), mtx(c)))) },
  |c| unsafe { own::packed_src(c, YuvPackedImage { yuy: ms::<u8>(c, 0), yuy_stride: c.planes[0].stride as u32, width: c.w[0], height: c.h[0] }, 0, 0, YuvChromaSubsampling::Yuv444, |i0: &YuvPackedImage<u8>| ret(uyvy422_to_bgra(i0, md::<u8>(c, 1), c.planes[1].stride as u32, rng(c), mtx(c)))) },
  |c| unsafe { own::packed_src(c, YuvPackedImage { yuy: ms::<u8>(c, 0), yuy_stride: c.planes[0].stride as u32, width: c.w[0], height: c.h[0] }, 0, 0, YuvChromaSubsampling::Yuv444, |i0: &YuvPackedImage<u8>| ret(uyvy422_to_rgb(i0, md::<u8>(c, 1), c.planes[1].stride as u32, rng(c), mtx(c)))) },
  |c| unsafe { own::packed_src(c, YuvPackedImage { yuy: ms::<u16>(c, 0), yuy_stride: c.planes[0].stride as u32, width: c.w[0], height: c.h[0] }, 0, 0, YuvChromaSubsampling::Yuv444, |i0: &YuvPackedImage<u16>| ret(uyvy422_to_rgb_p16(i0, md::<u16>(c, 1), c.planes[1].stride as u32, c.depth as u32, rng(c), mtx(c)))) },
  |c| unsafe { own::packed_src(c, YuvPackedImage { yuy: ms::<u8>(c, 0), yuy_stride: c.planes[0].stride as u32, width: c.w[0], height: c.h[0] }, 0, 0, YuvChromaSubsampling::Yuv444, |i0: &YuvPackedImage<u8>| ret(uyvy422_to_rgba(i0, md::<u8>(c, 1), c.planes[1].stride as u32, rng(c), mtx(c)))) },
  |c| unsafe { own::packed_src(c, YuvPackedImage { yuy: ms::<u16>(c, 0), yuy_stride: c.planes[0].stride as u32, width: c.w[0], height: c.h[0] }, 0, 0, YuvChromaSubsampling::Yuv444, |i0: &YuvPackedImage<u16>| ret(uyvy422_to_rgba_p16(i0, md::<u16>(c, 1), c.planes[1].stride as u32, c.depth as u32, rng(c), mtx(c)))) },
  |c| unsafe { own::planar_mut(c, YuvPlanarImageMut { y_plane: BufferStoreMut::Borrowed(md::<u8>(c, 0)), y_stride: c.planes[0].stride as u32, u_plane: BufferStoreMut::Borrowed(md::<u8>(c, 1)), u_stride: c.planes[1].stride as u32, v_plane: BufferStoreMut::Borrowed(md::<u8>(c, 2)), v_stride: c.planes[2].stride as u32, width: c.w[0], height: c.h[0] }, 0, 0, YuvChromaSubsampling::Yuv420, |i0: &mut YuvPlanarImageMut<u8>| own::packed_src(c, YuvPackedImage { yuy: ms::<u8>(c, 3), yuy_stride: c.planes[3].stride as u32, width: c.w[1], height: c.h[1] }, 3, 1, YuvChromaSubsampling::Yuv444, |i1: &YuvPackedImage<u8>| ret(uyvy422_to_yuv420(i0, i1)))) },
  |c| unsafe { own::planar_mut(c, YuvPlanarImageMut { y_plane: BufferStoreMut::Borrowed(md::<u16>(c, 0)), y_stride: c.planes[0].stride as u32, u_plane: BufferStoreMut::Borrowed(md::<u16>(c, 1)), u_stride: c.planes[1].stride as u32, v_plane: BufferStoreMut::Borrowed(md::<u16>(c, 2)), v_stride: c.planes[2].stride as u32, width: c.w[0], height: c.h[0] }, 0, 0, YuvChromaSubsampling::Yuv420, |i0: &mut YuvPlanarImageMut<u16>| own::packed_src(c, YuvPackedImage { yuy: ms::<u16>(c, 3), yuy_stride: c.planes[3].stride as u32, width: c.w[1], height: c.h[1] }, 3, 1, YuvChromaSubsampling::Yuv444, |i1: &YuvPackedImage<u16>| ret(uyvy422_to_yuv420_p16(i0, i1)))) },
  |c| unsafe { own::planar_mut(c, YuvPlanarImageMut { y_plane: BufferStoreMut::Borrowed(md::<u8>(c, 0)), y_stride: c.planes[0].stride as u32, u_plane: BufferStoreMut::Borrowed(md::<u8>(c, 1)), u_stride: c.planes[1].stride as u32, v_plane: BufferStoreMut::Borrowed(md::<u8>(c, 2)), v_stride: c.planes[2].stride as u32, width: c.w[0], height: c.h[0] }, 0, 0, YuvChromaSubsampling::Yuv422, |i0: &mut YuvPlanarImageMut<u8>| own::packed_src(c, YuvPackedImage { yuy: ms::<u8>(c, 3), yuy_stride: c.planes[3].stride as u32, width: c.w[1], height: c.h[1] }, 3, 1, YuvChromaSubsampling::Yuv444, |i1: &YuvPackedImage<u8>| ret(uyvy422_to_yuv422(i0, i1)))) },
  |c| unsafe { own::planar_mut(c, YuvPlanarImageMut { y_plane: BufferStoreMut::Borrowed(md::<u16>(c, 0)), y_stride: c.planes[0].stride as u32, u_plane: BufferStoreMut::Borrowed(md::<u16>(c, 1)), u_stride: c.planes[1].stride as u32, v_plane: BufferStoreMut::Borrowed(md::<u16>(c, 2)), v_stride: c.planes[2].stride as u32, width: c.w[0], height: c.h[0] }, 0, 0, YuvChromaSubsampling::Yuv422, |i0: &mut YuvPlanarImageMut<u16>| own::packed_src(c, YuvPackedImage { yuy: ms::<u16>(c, 3), yuy_stride: c.planes[3].stride as u32, width: c.w[1], height: c.h[1] }, 3, 1, YuvChromaSubsampling::Yuv444, |i1: &YuvPackedImage<u16>| ret(uyvy422_to_yuv422_p16(i0, i1)))) },
  |c| unsafe { own::planar_mut(c, YuvPlanarImageMut { y_plane: BufferStoreMut::Borrowed(md::<u8>(c, 0)), y_stride: c.planes[0].stride as u32, u_plane: BufferStoreMut::Borrowed(md::<u8>(c, 1)), u_stride: c.planes[1].stride as u32, v_plane: BufferStoreMut::Borrowed(md::<u8>(c, 2)), v_stride: c.planes[2].stride as u32, width: c.w[0], height: c.h[0] }, 0, 0, YuvChromaSubsampling::Yuv444, |i0: &mut YuvPlanarImageMut<u8>| own::packed_src(c, YuvPackedImage { yuy: ms::<u8>(c, 3), yuy_stride: c.planes[3].stride as u32, width: c.w[1], height: c.h[1] }, 3, 1, YuvChromaSubsampling::Yuv444, |i1: &YuvPackedImage<u8>| ret(uyvy422_to_yuv444(i0, i1)))) },
  |c| unsafe { own::planar_mut(c, YuvPlanarImageMut { y_plane: BufferStoreMut::Borrowed(md::<u16>(c, 0)), y_stride: c.planes[0].stride as u32, u_plane: BufferStoreMut::Borrowed(md::<u16>(c, 1)), u_stride: c.planes[1].stride as u32, v_plane: BufferStoreMut::Borrowed(md::<u16>(c, 2)), v_stride: c.planes[2].stride as u32, width: c.w[0], height: c.h[0] }, 0, 0, YuvChromaSubsampling::Yuv444, |i0: &mut YuvPlanarImageMut<u16>| own::packed_src(c, YuvPackedImage { yuy: ms::<u16>(c, 3), yuy_stride: c.planes[3].stride as u32, width: c.w[1], height: c.h[1] }, 3, 1, YuvChromaSubsampling::Yuv444, |i1: &YuvPackedImage<u16>| ret(uyvy422_to_yuv444_p16(i0, i1)))) },
  |c| unsafe { own::ayuv_src(c, YuvPackedImage { yuy: ms::<u8>(c, 0), yuy_stride: c.planes[0].stride as u32, width: c.w[0], height: c.h[0] }, 0, 0, YuvChromaSubsampling::Yuv444, |i0: &YuvPackedImage<u8>| ret(vyua_to_rgb(i0, md::<u8>(c, 1), c.planes[1].stride as u32, rng(c), mtx(c), c.flag != 0))) },
  |c| unsafe { own::ayuv_src(c, YuvPackedImage { yuy: ms::<u8>(c, 0), yuy_stride: c.planes[0].stride as u32, width: c.w[0], height: c.h[0] }, 0, 0, YuvChromaSubsampling::Yuv444, |i0: &YuvPackedImage<u8>| ret(vyua_to_rgba(i0, md::<u8>(c, 1), c.planes[1].stride as u32, rng(c), mtx(c), c.flag != 0))) },
  |c| unsafe { own::packed_src(c, YuvPackedImage { yuy: ms::<u8>(c, 0), yuy_stride: c.planes[0].stride as u32, width: c.w[0], height: c.h[0] }, 0, 0, YuvChromaSubsampling::Yuv444, |i0: &YuvPackedImage<u8>| ret(vyuy422_to_bgr(i0, md::<u8>(c, 1), c.planes[1].stride as u32, rng(c), mtx(c)))) },
  |c| unsafe { own::packed_src(c, YuvPackedImage { yuy: ms::<u8>(c, 0), yuy_stride: c.planes[0].stride as u32, width: c.w[0], height: c.h[0] }, 0, 0, YuvChromaSubsampling::Yuv444, |i0: &YuvPackedImage<u8>| ret(vyuy422_to_bgra(i0, md::<u8>(c, 1), c.planes[1].stride as u32, rng(c), mtx(c)))) },
  |c| unsafe { own::packed_src(c, YuvPackedImage { yuy: ms::<u8>(c, 0), yuy_stride: c.planes[0].stride as u32, width: c.w[0], height: c.h[0] }, 0, 0, YuvChromaSubsampling::Yuv444, |i0: &YuvPackedImage<u8>| ret(vyuy422_to_rgb(i0, md::<u8>(c, 1), c.planes[1].stride as u32, rng(c), mtx(c)))) },
  |c| unsafe { own::packed_src(c, YuvPackedImage { yuy: ms::<u16>(c, 0), yuy_stride: c.planes[0].stride as u32, width: c.w[0], height: c.h[0] }, 0, 0, YuvChromaSubsampling::Yuv444, |i0: &YuvPackedImage<u16>| ret(vyuy422_to_rgb_p16(i0, md::<u16>(c, 1), c.planes[1].stride as u32, c.depth as u32, rng(c), mtx(c)))) },
  |c| unsafe { own::packed_src(c, YuvPackedImage { yuy: ms::<u8>(c, 0), yuy_stride: c.planes[0].stride as u32, width: c.w[0], height: c.h[0] }, 0, 0, YuvChromaSubsampling::Yuv444, |i0: &YuvPackedImage<u8>| ret(vyuy422_to_rgba(i0, md::<u8>(c, 1), c.planes[1].stride as u32, rng(c), mtx(c)))) },
  |c| unsafe { own::packed_src(c, YuvPackedImage { yuy: ms::<u16>(c, 0), yuy_stride: c.planes[0].stride as u32, width: c.w[0], height: c.h[0] }, 0, 0, YuvChromaSubsampling::Yuv444, |i0: &YuvPackedImage<u16>| ret(vyuy422_to_rgba_p16(i0, md::<u16>(c, 1), c.planes[1].stride as u32, c.depth as u32, rng(c), mtx(c)))) },
  |c| unsafe { own::planar_mut(c, YuvPlanarImageMut { y_plane: BufferStoreMut::Borrowed(md::<u8>(c, 0)), y_stride: c.planes[0].stride as u32, u_plane: BufferStoreMut::Borrowed(md::<u8>(c, 1)), u_stride: c.planes[1].stride as u32, v_plane: BufferStoreMut::Borrowed(md::<u8>(c, 2)), v_stride: c.planes[2].stride as u32, width: c.w[0], height: c.h[0] }, 0, 0, YuvChromaSubsampling::Yuv420, |i0: &mut YuvPlanarImageMut<u8>| own::packed_src(c, YuvPackedImage { yuy: ms::<u8>(c, 3), yuy_stride: c.planes[3].stride as u32, width: c.w[1], height: c.h[1] }, 3, 1, YuvChromaSubsampling::Yuv444, |i1: &YuvPackedImage<u8>| ret(vyuy422_to_yuv420(i0, i1)))) },
  |c| unsafe { own::planar_mut(c, YuvPlanarImageMut { y_plane: BufferStoreMut::Borrowed(md::<u16>(c, 0)), y_stride: c.planes[0].stride as u32, u_plane: BufferStoreMut::Borrowed(md::<u16>(c, 1)), u_stride: c.planes[1].stride as u32, v_plane: BufferStoreMut::Borrowed(md::<u16>(c, 2)), v_stride: c.planes[2].stride as u32, width: c.w[0], height: c.h[0] }, 0, 0, YuvChromaSubsampling::Yuv420, |i0: &mut YuvPlanarImageMut<u16>| own::packed_src(c, YuvPackedImage { yuy: ms::<u16>(c, 3), yuy_stride: c.planes[3].stride as u32, width: c.w[1], height: c.h[1] }, 3, 1, YuvChromaSubsampling::Yuv444, |i1: &YuvPackedImage<u16>| ret(vyuy422_to_yuv420_p16(i0, i1)))) },
  |c| unsafe { own::planar_mut(c, YuvPlanarImageMut { y_plane: BufferStoreMut::Borrowed(md::<u8>(c, 0)), y_stride: c.planes[0].stride as u32, u_plane: BufferStoreMut::Borrowed(md::<u8>(c, 1)), u_stride: c.planes[1].stride as u32, v_plane: BufferStoreMut::Borrowed(md::<u8>(c, 2)), v_stride: c.planes[2].stride as u32, width: c.w[0], height: c.h[0] }, 0, 0, YuvChromaSubsampling::Yuv422, |i0: &mut YuvPlanarImageMut<u8>| own::packed_src(c, YuvPackedImage { yuy: ms::<u8>(c, 3), yuy_stride: c.planes[3].stride as u32, width: c.w[1], height: c.h[1] }, 3, 1, YuvChromaSubsampling::Yuv444, |i1: &YuvPackedImage<u8>| ret(vyuy422_to_yuv422(i0, i1)))) },
  |c| unsafe { own::planar_mut(c, YuvPlanarImageMut { y_plane: BufferStoreMut::Borrowed(md::<u16>(c, 0)), y_stride: c.planes[0].stride as u32, u_plane: BufferStoreMut::Borrowed(md::<u16>(c, 1)), u_stride: c.planes[1].stride as u32, v_plane: BufferStoreMut::Borrowed(md::<u16>(c, 2)), v_stride: c.planes[2].stride as u32, width: c.w[0], height: c.h[0] }, 0, 0, YuvChromaSubsampling::Yuv422, |i0: &mut YuvPlanarImageMut<u16>| own::packed_src(c, YuvPackedImage { yuy: ms::<u16>(c, 3), yuy_stride: c.planes[3].stride as u32, width: c.w[1], height: c.h[1] }, 3, 1, YuvChromaSubsampling::Yuv444, |i1: &YuvPackedImage<u16>| ret(vyuy422_to_yuv422_p16(i0, i1)))) },
  |c| unsafe { own::planar_mut(c, YuvPlanarImageMut { y_plane: BufferStoreMut::Borrowed(md::<u8>(c, 0)), y_stride: c.planes[0].stride as u32, u_plane: BufferStoreMut::Borrowed(md::<u8>(c, 1)), u_stride: c.planes[1].stride as u32, v_plane: BufferStoreMut::Borrowed(md::<u8>(c, 2)), v_stride: c.planes[2].stride as u32, width: c.w[0], height: c.h[0] }, 0, 0, YuvChromaSubsampling::Yuv444, |i0: &mut YuvPlanarImageMut<u8>| own::packed_src(c, YuvPackedImage { yuy: ms::<u8>(c, 3), yuy_stride: c.planes[3].stride as u32, width: c.w[1], height: c.h[1] }, 3, 1, YuvChromaSubsampling::Yuv444, |i1: &YuvPackedImage<u8>| ret(vyuy422_to_yuv444(i0, i1)))) },
  |c| unsafe { own::planar_mut(c, YuvPlanarImageMut { y_plane: BufferStoreMut::Borrowed(md::<u16>(c, 0)), y_stride: c.planes[0].stride as u32, u_plane: BufferStoreMut::Borrowed(md::<u16>(c, 1)), u_stride: c.planes[1].stride as u32, v_plane: BufferStoreMut::Borrowed(md::<u16>(c, 2)), v_stride: c.planes[2].stride as u32, width: c.w[0], height: c.h[0] }, 0, 0, YuvChromaSubsampling::Yuv444, |i0: &mut YuvPlanarImageMut<u16>| own::packed_src(c, YuvPackedImage { yuy: ms::<u16>(c, 3), yuy_stride: c.planes[3].stride as u32, width: c.w[1], height: c.h[1] }, 3, 1, YuvChromaSubsampling::Yuv444, |i1: &YuvPackedImage<u16>| ret(vyuy422_to_yuv444_p16(i0, i1)))) },
  |c| unsafe { own::gray_alpha_src(c, YuvGrayAlphaImage { y_plane: ms::<u16>(c, 0), y_stride: c.planes[0].stride as u32, a_plane: ms::<u16>(c, 1), a_stride: c.planes[1].stride as u32, width: c.w[0], height: c.h[0] }, 0, 0, YuvChromaSubsampling::Yuv444, |i0: &YuvGrayAlphaImage<u16>| ret(y010_alpha_to_rgba10(i0, md::<u16>(c, 2), c.planes[2].stride as u32, rng(c), mtx(c)))) },
  |c| unsafe { own::gray_src(c, YuvGrayImage { y_plane: ms::<u16>(c, 0), y_stride: c.planes[0].stride as u32, width: c.w[0], height: c.h[0] }, 0, 0, YuvChromaSubsampling::Yuv444, |i0: &YuvGrayImage<u16>| ret(y010_to_rgb10(i0, md::<u16>(c, 1), c.planes[1].stride as u32, rng(c), mtx(c)))) },
  |c| unsafe { own::gray_src(c, YuvGrayImage { y_plane: ms::<u16>(c, 0), y_stride: c.planes[0].stride as u32, width: c.w[0], height: c.h[0] }, 0, 0, YuvChromaSubsampling::Yuv444, |i0: &YuvGrayImage<u16>| ret(y010_to_rgba10(i0, md::<u16>(c, 1), c.planes[1].stride as u32, rng(c), mtx(c)))) },
  |c| unsafe { own::gray_alpha_src(c, YuvGrayAlphaImage { y_plane: ms::<u16>(c, 0), y_stride: c.planes[0].stride as u32, a_plane: ms::<u16>(c, 1), a_stride: c.planes[1].stride as u32, width: c.w[0], height: c.h[0] }, 0, 0, YuvChromaSubsampling::Yuv444, |i0: &YuvGrayAlphaImage<u16>| ret(y012_alpha_to_rgba12(i0, md::<u16>(c, 2), c.planes[2].stride as u32, rng(c), mtx(c)))) },
  |c| unsafe { own::gray_src(c, YuvGrayImage { y_plane: ms::<u16>(c, 0), y_stride: c.planes[0].stride as u32, width: c.w[0], height: c.h[0] }, 0, 0, YuvChromaSubsampling::Yuv444, |i0: &YuvGrayImage<u16>| ret(y012_to_rgb12(i0, md::<u16>(c, 1), c.planes[1].stride as u32, rng(c), mtx(c)))) },
  |c| unsafe { own::gray_src(c, YuvGrayImage { y_plane: ms::<u16>(c, 0), y_stride: c.planes[0].stride as u32, width: c.w[0], height: c.h[0] }, 0, 0, YuvChromaSubsampling::Yuv444, |i0: &YuvGrayImage<u16>| ret(y012_to_rgba12(i0, md::<u16>(c, 1), c.planes[1].stride as u32, rng(c), mtx(c)))) },
  |c| unsafe { own::gray_alpha_src(c, YuvGrayAlphaImage { y_plane: ms::<u16>(c, 0), y_stride: c.planes[0].stride as u32, a_plane: ms::<u16>(c, 1), a_stride: c.planes[1].stride as u32, width: c.w[0], height: c.h[0] }, 0, 0, YuvChromaSubsampling::Yuv444, |i0: &YuvGrayAlphaImage<u16>| ret(y014_alpha_to_rgba14(i0, md::<u16>(c, 2), c.planes[2].stride as u32, rng(c), mtx(c)))) },
  |c| unsafe { own::gray_src(c, YuvGrayImage { y_plane: ms::<u16>(c, 0), y_stride: c.planes[0].stride as u32, width: c.w[0], height: c.h[0] }, 0, 0, YuvChromaSubsampling::Yuv444, |i0: &YuvGrayImage<u16>| ret(y014_to_rgb14(i0, md::<u16>(c, 1), c.planes[1].stride as u32, rng(c), mtx(c)))) },
  |c| unsafe { own::gray_src(c, YuvGrayImage { y_plane: ms::<u16>(c, 0), y_stride: c.planes[0].stride as u32, width: c.w[0], height: c.h[0] }, 0, 0, YuvChromaSubsampling::Yuv444, |i0: &YuvGrayImage<u16>| ret(y014_to_rgba14(i0, md::<u16>(c, 1), c.planes[1].stride as u32, rng(c), mtx(c)))) },
  |c| unsafe { own::gray_alpha_src(c, YuvGrayAlphaImage { y_plane: ms::<u16>(c, 0), y_stride: c.planes[0].stride as u32, a_plane: ms::<u16>(c, 1), a_stride: c.planes[1].stride as u32, width: c.w[0], height: c.h[0] }, 0, 0, YuvChromaSubsampling::Yuv444, |i0: &YuvGrayAlphaImage<u16>| ret(y016_alpha_to_rgba16(i0, md::<u16>(c, 2), c.planes[2].stride as u32, rng(c), mtx(c)))) },
  |c| unsafe { own::gray_src(c, YuvGrayImage { y_plane: ms::<u16>(c, 0), y_stride: c.planes[0].stride as u32, width: c.w[0], height: c.h[0] }, 0, 0, YuvChromaSubsampling::Yuv444, |i0: &YuvGrayImage<u16>| ret(y016_to_rgb16(i0, md::<u16>(c, 1), c.planes[1].stride as u32, rng(c), mtx(c)))) },
  |c| unsafe { own::gray_src(c, YuvGrayImage { y_plane: ms::<u16>(c, 0), y_stride: c.planes[0].stride as u32, width: c.w[0], height: c.h[0] }, 0, 0, YuvChromaSubsampling::Yuv444, |i0: &YuvGrayImage<u16>| ret(y016_to_rgba16(i0, md::<u16>(c, 1), c.planes[1].stride as u32, rng(c), mtx(c)))) },
  |c| unsafe { own::planar_alpha_src(c, YuvPlanarImageWithAlpha { y_plane: ms::<u8>(c, 0), y_stride: c.planes[0].stride as u32, u_plane: ms::<u8>(c, 1), u_stride: c.planes[1].stride as u32, v_plane: ms::<u8>(c, 2), v_stride: c.planes[2].stride as u32, a_plane: ms::<u8>(c, 3), a_stride: c.planes[3].stride as u32, width: c.w[0], height: c.h[0] }, 0, 0, YuvChromaSubsampling::Yuv420, |i0: &YuvPlanarImageWithAlpha<u8>| ret(ycgco420_alpha_to_bgra(i0, md::<u8>(c, 4), c.planes[4].stride as u32, rng(c)))) },
  |c| unsafe { own::planar_alpha_src(c, YuvPlanarImageWithAlpha { y_plane: ms::<u8>(c, 0), y_stride: c.planes[0].stride as u32, u_plane: ms::<u8>(c, 1), u_stride: c.planes[1].stride as u32, v_plane: ms::<u8>(c, 2), v_stride: c.planes[2].stride as u32, a_plane: ms::<u8>(c, 3), a_stride: c.planes[3].stride as u32, width: c.w[0], height: c.h[0] }, 0, 0, YuvChromaSubsampling::Yuv420, |i0: &YuvPlanarImageWithAlpha<u8>| ret(ycgco420_alpha_to_rgba(i0, md::<u8>(c, 4), c.planes[4].stride as u32, rng(c)))) },
  |c| unsafe { own::planar_src(c, YuvPlanarImage { y_plane: ms::<u8>(c, 0), y_stride: c.planes[0].stride as u32, u_plane: ms::<u8>(c, 1), u_stride: c.planes[1].stride as u32, v_plane: ms::<u8>(c, 2), v_stride: c.planes[2].stride as u32, width: c.w[0], height: c.h[0] }, 0, 0, YuvChromaSubsampling::Yuv420, |i0: &YuvPlanarImage<u8>| ret(ycgco420_to_bgr(i0, md::<u8>(c, 3), c.planes[3].stride as u32, rng(c)))) },
  |c| unsafe { own::planar_src(c, YuvPlanarImage { y_plane: ms::<u8>(c, 0), y_stride: c.planes[0].stride as u32, u_plane: ms::<u8>(c, 1), u_stride: c.planes[1].stride as u32, v_plane: ms::<u8>(c, 2), v_stride: c.planes[2].stride as u32, width: c.w[0], height: c.h[0] }, 0, 0, YuvChromaSubsampling::Yuv420, |i0: &YuvPlanarImage<u8>| ret(ycgco420_to_bgra(i0, md::<u8>(c, 3), c.planes[3].stride as u32, rng(c)))) },
  |c| unsafe { own::planar_src(c, YuvPlanarImage { y_plane: ms::<u8>(c, 0), y_stride: c.planes[0].stride as u32, u_plane: ms::<u8>(c, 1), u_stride: c.planes[1].stride as u32, v_plane: ms::<u8>(c, 2), v_stride: c.planes[2].stride as u32, width: c.w[0], height: c.h[0] }, 0, 0, YuvChromaSubsampling::Yuv420, |i0: &YuvPlanarImage<u8>| ret(ycgco420_to_rgb(i0, md::<u8>(c, 3), c.planes[3].stride as u32, rng(c)))) },
  |c| unsafe { own::planar_src(c, YuvPlanarImage { y_plane: ms::<u8>(c, 0), y_stride: c.planes[0].stride as u32, u_plane: ms::<u8>(c, 1), u_stride: c.planes[1].stride as u32, v_plane: ms::<u8>(c, 2), v_stride: c.planes[2].stride as u32, width: c.w[0], height: c.h[0] }, 0, 0, YuvChromaSubsampling::Yuv420, |i0: &YuvPlanarImage<u8>| ret(ycgco420_to_rgba(i0, md::<u8>(c, 3), c.planes[3].stride as u32, rng(c)))) },
  |c| unsafe { own::planar_alpha_src(c, YuvPlanarImageWithAlpha { y_plane: ms::<u8>(c, 0), y_stride: c.planes[0].stride as u32, u_plane: ms::<u8>(c, 1), u_stride: c.planes[1].stride as u32, v_plane: ms::<u8>(c, 2), v_stride: c.planes[2].stride as u32, a_plane: ms::<u8>(c, 3), a_stride: c.planes[3].stride as u32, width: c.w[0], height: c.h[0] }, 0, 0, YuvChromaSubsampling::Yuv422, |i0: &YuvPlanarImageWithAlpha<u8>| ret(ycgco422_alpha_to_bgra(i0, md::<u8>(c, 4), c.planes[4].stride as u32, rng(c)))) },
  |c| unsafe { own::planar_alpha_src(c, YuvPlanarImageWithAlpha { y_plane: ms::<u8>(c, 0), y_stride: c.planes[0].stride as u32, u_plane: ms::<u8>(c, 1), u_stride: c.planes[1].stride as u32, v_plane: ms::<u8>(c, 2), v_stride: c.planes[2].stride as u32, a_plane: ms::<u8>(c, 3), a_stride: c.planes[3].stride as u32, width: c.w[0], height: c.h[0] }, 0, 0, YuvChromaSubsampling::Yuv422, |i0: &YuvPlanarImageWithAlpha<u8>| ret(ycgco422_alpha_to_rgba(i0, md::<u8>(c, 4), c.planes[4].stride as u32, rng(c)))) },
  |c| unsafe { own::planar_src(c, YuvPlanarImage { y_plane: ms::<u8>(c, 0), y_stride: c.planes[0].stride as u32, u_plane: ms::<u8>(c, 1), u_stride: c.planes[1].stride as u32, v_plane: ms::<u8>(c, 2), v_stride: c.planes[2].stride as u32, width: c.w[0], height: c.h[0] }, 0, 0, YuvChromaSubsampling::Yuv422, |i0: &YuvPlanarImage<u8>| ret(ycgco422_to_bgr(i0, md::<u8>(c, 3), c.planes[3].stride as u32, rng(c)))) },
  |c| unsafe { own::planar_src(c, YuvPlanarImage { y_plane: ms::<u8>(c, 0), y_stride: c.planes[0].stride as u32, u_plane: ms::<u8>(c, 1), u_stride: c.planes[1].stride as u32, v_plane: ms::<u8>(c, 2), v_stride: c.planes[2].stride as u32, width: c.w[0], height: c.h[0] }, 0, 0, YuvChromaSubsampling::Yuv422, |i0: &YuvPlanarImage<u8>| ret(ycgco422_to_bgra(i0, md::<u8>(c, 3), c.planes[3].stride as u32, rng(c)))) },
  |c| unsafe { own::planar_src(c, YuvPlanarImage { y_plane: ms::<u8>(c, 0), y_stride: c.planes[0].stride as u32, u_plane: ms::<u8>(c, 1), u_stride: c.planes[1].stride as u32, v_plane: ms::<u8>(c, 2), v_stride: c.planes[2].stride as u32, width: c.w[0], height: c.h[0] }, 0, 0, YuvChromaSubsampling::Yuv422, |i0: &YuvPlanarImage<u8>| ret(ycgco422_to_rgb(i0, md::<u8>(c, 3), c.planes[3].stride as u32, rng(c)))) },
  |c| unsafe { own::planar_src(c, YuvPlanarImage { y_plane: ms::<u8>(c, 0), y_stride: c.planes[0].stride as u32, u_plane: ms::<u8>(c, 1), u_stride: c.planes[1].stride as u32, v_plane: ms::<u8>(c, 2), v_stride: c.planes[2].stride as u32, width: c.w[0], height: c.h[0] }, 0, 0, YuvChromaSubsampling::Yuv422, |i0: &YuvPlanarImage<u8>| ret(ycgco422_to_rgba(i0, md::<u8>(c, 3), c.planes[3].stride as u32, rng(c)))) },
  |c| unsafe { own::planar_alpha_src(c, YuvPlanarImageWithAlpha { y_plane: ms::<u8>(c, 0), y_stride: c.planes[0].stride as u32, u_plane: ms::<u8>(c, 1), u_stride: c.planes[1].stride as u32, v_plane: ms::<u8>(c, 2), v_stride: c.planes[2].stride as u32, a_plane: ms::<u8>(c, 3), a_stride: c.planes[3].stride as u32, width: c.w[0], height: c.h[0] }, 0, 0, YuvChromaSubsampling::Yuv444, |i0: &YuvPlanarImageWithAlpha<u8>| ret(ycgco444_alpha_to_bgra(i0, md::<u8>(c, 4), c.planes[4].stride as u32, rng(c)))) },
  |c| unsafe { own::planar_alpha_src(c, YuvPlanarImageWithAlpha { y_plane: ms::<u8>(c, 0), y_stride: c.planes[0].stride as u32, u_plane: ms::<u8>(c, 1), u_stride: c.planes[1].stride as u32, v_plane: ms::<u8>(c, 2), v_stride: c.planes[2].stride as u32, a_plane: ms::<u8>(c, 3), a_stride: c.planes[3].stride as u32, width: c.w[0], height: c.h[0] }, 0, 0, YuvChromaSubsampling::Yuv444, |i0: &YuvPlanarImageWithAlpha<u8>| ret(ycgco444_alpha_to_rgba(i0, md::<u8>(c, 4), c.planes[4].stride as u32, rng(c)))) },
  |c| unsafe { own::planar_src(c, YuvPlanarImage { y_plane: ms::<u8>(c, 0), y_stride: c.planes[0].stride as u32, u_plane: ms::<u8>(c, 1), u_stride: c.planes[1].stride as u32, v_plane: ms::<u8>(c, 2), v_stride: c.planes[2].stride as u32, width: c.w[0], height: c.h[0] }, 0, 0, YuvChromaSubsampling::Yuv444, |i0: &YuvPlanarImage<u8>| ret(ycgco444_to_bgr(i0, md::<u8>(c, 3), c.planes[3].stride as u32, rng(c)))) },
  |c| unsafe { own::planar_src(c, YuvPlanarImage { y_plane: ms::<u8>(c, 0), y_stride: c.planes[0].stride as u32, u_plane: ms::<u8>(c, 1), u_stride: c.planes[1].stride as u32, v_plane: ms::<u8>(c, 2), v_stride: c.planes[2].stride as u32, width: c.w[0], height: c.h[0] }, 0, 0, YuvChromaSubsampling::Yuv444, |i0: &YuvPlanarImage<u8>| ret(ycgco444_to_bgra(i0, md::<u8>(c, 3), c.planes[3].stride as u32, rng(c)))) },
  |c| unsafe { own::planar_src(c, YuvPlanarImage { y_plane: ms::<u8>(c, 0), y_stride: c.planes[0].stride as u32, u_plane: ms::<u8>(c, 1), u_stride: c.planes[1].stride as u32, v_plane: ms::<u8>(c, 2), v_stride: c.planes[2].stride as u32, width: c.w[0], height: c.h[0] }, 0, 0, YuvChromaSubsampling::Yuv444, |i0: &YuvPlanarImage<u8>| ret(ycgco444_to_rgb(i0, md::<u8>(c, 3), c.planes[3].stride as u32, rng(c)))) },
  |c| unsafe { own::planar_src(c, YuvPlanarImage { y_plane: ms::<u8>(c, 0), y_stride: c.planes[0].stride as u32, u_plane: ms::<u8>(c, 1), u_stride: c.planes[1].stride as u32, v_plane: ms::<u8>(c, 2), v_stride: c.planes[2].stride as u32, width: c.w[0], height: c.h[0] }, 0, 0, YuvChromaSubsampling::Yuv444, |i0: &YuvPlanarImage<u8>| ret(ycgco444_to_rgba(i0, md::<u8>(c, 3), c.planes[3].stride as u32, rng(c)))) },
  |c| unsafe { own::gray_alpha_src(c, YuvGrayAlphaImage { y_plane: ms::<u8>(c, 0), y_stride: c.planes[0].stride as u32, a_plane: ms::<u8>(c, 1), a_stride: c.planes[1].stride as u32, width: c.w[0], height: c.h[0] }, 0, 0, YuvChromaSubsampling::Yuv444, |i0: &YuvGrayAlphaImage<u8>| ret(yuv400_alpha_to_bgra(i0, md::<u8>(c, 2), c.planes[2].stride as u32, rng(c), mtx(c)))) },
  |c| unsafe { own::gray_alpha_src(c, YuvGrayAlphaImage { y_plane: ms::<u8>(c, 0), y_stride: c.planes[0].stride as u32, a_plane: ms::<u8>(c, 1), a_stride: c.planes[1].stride as u32, width: c.w[0], height: c.h[0] }, 0, 0, YuvChromaSubsampling::Yuv444, |i0: &YuvGrayAlphaImage<u8>| ret(yuv400_alpha_to_rgba(i0, md::<u8>(c, 2), c.planes[2].stride as u32, rng(c), mtx(c)))) },
  |c| unsafe { own::gray_src(c, YuvGrayImage { y_plane: ms::<u8>(c, 0), y_stride: c.planes[0].stride as u32, width: c.w[0], height: c.h[0] }, 0, 0, YuvChromaSubsampling::Yuv444, |i0: &YuvGrayImage<u8>| ret(yuv400_to_bgr(i0, md::<u8>(c, 1), c.planes[1].stride as u32, rng(c), mtx(c)))) },
  |c| unsafe { own::gray_src(c, YuvGrayImage { y_plane: ms::<u8>(c, 0), y_stride: c.planes[0].stride as u32, width: c.w[0], height: c.h[0] }, 0, 0, YuvChromaSubsampling::Yuv444, |i0: &YuvGrayImage<u8>| ret(yuv400_to_bgra(i0, md::<u8>(c, 1), c.planes[1].stride as u32, rng(c), mtx(c)))) },
  |c| unsafe { own::gray_src(c, YuvGrayImage { y_plane: ms::<u8>(c, 0), y_stride: c.planes[0].stride as u32, width: c.w[0], height: c.h[0] }, 0, 0, YuvChromaSubsampling::Yuv444, |i0: &YuvGrayImage<u8>| ret(yuv400_to_rgb(i0, md::<u8>(c, 1), c.planes[1].stride as u32, rng(c), mtx(c)))) },
  |c| unsafe { own::gray_src(c, YuvGrayImage { y_plane: ms::<u8>(c, 0), y_stride: c.planes[0].stride as u32, width: c.w[0], height: c.h[0] }, 0, 0, YuvChromaSubsampling::Yuv444, |i0: &YuvGrayImage<u8>| ret(yuv400_to_rgba(i0, md::<u8>(c, 1), c.planes[1].stride as u32, rng(c), mtx(c)))) },
  |c| unsafe { own::planar_alpha_src(c, YuvPlanarImageWithAlpha { y_plane: ms::<u8>(c, 0), y_stride: c.planes[0].stride as u32, u_plane: ms::<u8>(c, 1), u_stride: c.planes[1].stride as u32, v_plane: ms::<u8>(c, 2), v_stride: c.planes[2].stride as u32, a_plane: ms::<u8>(c, 3), a_stride: c.planes[3].stride as u32, width: c.w[0], height: c.h[0] }, 0, 0, YuvChromaSubsampling::Yuv420, |i0: &YuvPlanarImageWithAlpha<u8>| ret(yuv420_alpha_to_bgra(i0, md::<u8>(c, 4), c.planes[4].stride as u32, rng(c), mtx(c), c.flag != 0))) },
  |c| unsafe { own::planar_alpha_src(c, YuvPlanarImageWithAlpha { y_plane: ms::<u8>(c, 0), y_stride: c.planes[0].stride as u32, u_plane: ms::<u8>(c, 1), u_stride: c.planes[1].stride as u32, v_plane: ms::<u8>(c, 2), v_stride: c.planes[2].stride as u32, a_plane: ms::<u8>(c, 3), a_stride: c.planes[3].stride as u32, width: c.w[0], height: c.h[0] }, 0, 0, YuvChromaSubsampling::Yuv420, |i0: &YuvPlanarImageWithAlpha<u8>| ret(yuv420_alpha_to_rgba(i0, md::<u8>(c, 4), c.planes[4].stride as u32, rng(c), mtx(c), c.flag != 0))) },
  |c| unsafe { own::planar_src(c, YuvPlanarImage { y_plane: ms::<u8>(c, 0), y_stride: c.planes[0].stride as u32, u_plane: ms::<u8>(c, 1), u_stride: c.planes[1].stride as u32, v_plane: ms::<u8>(c, 2), v_stride: c.planes[2].stride as u32, width: c.w[0], height: c.h[0] }, 0, 0, YuvChromaSubsampling::Yuv420, |i0: &YuvPlanarImage<u8>| ret(yuv420_to_bgr(i0, md::<u8>(c, 3), c.planes[3].stride as u32, rng(c), mtx(c)))) },
  |c| unsafe { own::planar_src(c, YuvPlanarImage { y_plane: ms::<u8>(c, 0), y_stride: c.planes[0].stride as u32, u_plane: ms::<u8>(c, 1), u_stride: c.planes[1].stride as u32, v_plane: ms::<u8>(c, 2), v_stride: c.planes[2].stride as u32, width: c.w[0], height: c.h[0] }, 0, 0, YuvChromaSubsampling::Yuv420, |i0: &YuvPlanarImage<u8>| ret(yuv420_to_bgra(i0, md::<u8>(c, 3), c.planes[3].stride as u32, rng(c), mtx(c)))) },
  |c| unsafe { own::planar_src(c, YuvPlanarImage { y_plane: ms::<u8>(c, 0), y_stride: c.planes[0].stride as u32, u_plane: ms::<u8>(c, 1), u_stride: c.planes[1].stride as u32, v_plane: ms::<u8>(c, 2), v_stride: c.planes[2].stride as u32, width: c.w[0], height: c.h[0] }, 0, 0, YuvChromaSubsampling::Yuv420, |i0: &YuvPlanarImage<u8>| ret(yuv420_to_rgb(i0, md::<u8>(c, 3), c.planes[3].stride as u32, rng(c), mtx(c)))) },
  |c| unsafe { own::planar_src(c, YuvPlanarImage { y_plane: ms::<u8>(c, 0), y_stride: c.planes[0].stride as u32, u_plane: ms::<u8>(c, 1), u_stride: c.planes[1].stride as u32, v_plane: ms::<u8>(c, 2), v_stride: c.planes[2].stride as u32, width: c.w[0], height: c.h[0] }, 0, 0, YuvChromaSubsampling::Yuv420, |i0: &YuvPlanarImage<u8>| ret(yuv420_to_rgba(i0, md::<u8>(c, 3), c.planes[3].stride as u32, rng(c), mtx(c)))) },
  |c| unsafe { own::packed_mut(c, YuvPackedImageMut { yuy: BufferStoreMut::Borrowed(md::<u8>(c, 0)), yuy_stride: c.planes[0].stride as u32, width: c.w[0], height: c.h[0] }, 0, 0, YuvChromaSubsampling::Yuv444, |i0: &mut YuvPackedImageMut<u8>| own::planar_src(c, YuvPlanarImage { y_plane: ms::<u8>(c, 1), y_stride: c.planes[1].stride as u32, u_plane: ms::<u8>(c, 2), u_stride: c.planes[2].stride as u32, v_plane: ms::<u8>(c, 3), v_stride: c.planes[3].stride as u32, width: c.w[1], height: c.h[1] }, 1, 1, YuvChromaSubsampling::Yuv420, |i1: &YuvPlanarImage<u8>| ret(yuv420_to_uyvy422(i0, i1)))) },
  |c| unsafe { own::packed_mut(c, YuvPackedImageMut { yuy: BufferStoreMut::Borrowed(md::<u16>(c, 0)), yuy_stride: c.planes[0].stride as u32, width: c.w[0], height: c.h[0] }, 0, 0, YuvChromaSubsampling::Yuv444, |i0: &mut YuvPackedImageMut<u16>| own::planar_src(c, YuvPlanarImage { y_plane: ms::<u16>(c, 1), y_stride: c.planes[1].stride as u32, u_plane: ms::<u16>(c, 2), u_stride: c.planes[2].stride as u32, v_plane: ms::<u16>(c, 3), v_stride: c.planes[3].stride as u32, width: c.w[1], height: c.h[1] }, 1, 1, YuvChromaSubsampling::Yuv420, |i1: &YuvPlanarImage<u16>| ret(yuv420_to_uyvy422_p16(i0, i1)))) },
  |c| unsafe { own::packed_mut(c, YuvPackedImageMut { yuy: BufferStoreMut::Borrowed(md::<u8>(c, 0)), yuy_stride: c.planes[0].stride as u32, width: c.w[0], height: c.h[0] }, 0, 0, YuvChromaSubsampling::Yuv444, |i0: &mut YuvPackedImageMut<u8>| own::planar_src(c, YuvPlanarImage { y_plane: ms::<u8>(c, 1), y_stride: c.planes[1].stride as u32, u_plane: ms::<u8>(c, 2), u_stride: c.planes[2].stride as u32, v_plane: ms::<u8>(c, 3), v_stride: c.planes[3].stride as u32, width: c.w[1], height: c.h[1] }, 1, 1, YuvChromaSubsampling::Yuv420, |i1: &YuvPlanarImage<u8>| ret(yuv420_to_vyuy422(i0, i1)))) },
  |c| unsafe { own::packed_mut(c, YuvPackedImageMut { yuy: BufferStoreMut::Borrowed(md::<u16>(c, 0)), yuy_stride: c.planes[0].stride as u32, width: c.w[0], height: c.h[0] }, 0, 0, YuvChromaSubsampling::Yuv444, |i0: &mut YuvPackedImageMut<u16>| own::planar_src(c, YuvPlanarImage { y_plane: ms::<u16>(c, 1), y_stride: c.planes[1].stride as u32, u_plane: ms::<u16>(c, 2), u_stride: c.planes[2].stride as u32, v_plane: ms::<u16>(c, 3), v_stride: c.planes[3].stride as u32, width: c.w[1], height: c.h[1] }, 1, 1, YuvChromaSubsampling::Yuv420, |i1: &YuvPlanarImage<u16>| ret(yuv420_to_vyuy422_p16(i0, i1)))) },
  |c| unsafe { own::packed_mut(c, YuvPackedImageMut { yuy: BufferStoreMut::Borrowed(md::<u8>(c, 0)), yuy_stride: c.planes[0].stride as u32, width: c.w[0], height: c.h[0] }, 0, 0, YuvChromaSubsampling::Yuv444, |i0: &mut YuvPackedImageMut<u8>| own::planar_src(c, YuvPlanarImage { y_plane: ms::<u8>(c, 1), y_stride: c.planes[1].stride as u32, u_plane: ms::<u8>(c, 2), u_stride: c.planes[2].stride as u32, v_plane: ms::<u8>(c, 3), v_stride: c.planes[3].stride as u32, width: c.w[1], height: c.h[1] }, 1, 1, YuvChromaSubsampling::Yuv420, |i1: &YuvPlanarImage<u8>| ret(yuv420_to_yuyv422(i0, i1)))) },
  |c| unsafe { own::packed_mut(c, YuvPackedImageMut { yuy: BufferStoreMut::Borrowed(md::<u16>(c, 0)), yuy_stride: c.planes[0].stride as u32, width: c.w[0], height: c.h[0] }, 0, 0, YuvChromaSubsampling::Yuv444, |i0: &mut YuvPackedImageMut<u16>| own::planar_src(c, YuvPlanarImage { y_plane: ms::<u16>(c, 1), y_stride: c.planes[1].stride as u32, u_plane: ms::<u16>(c, 2), u_stride: c.planes[2].stride as u32, v_plane: ms::<u16>(c, 3), v_stride: c.planes[3].stride as u32, width: c.w[1], height: c.h[1] }, 1, 1, YuvChromaSubsampling::Yuv420, |i1: &YuvPlanarImage<u16>| ret(yuv420_to_yuyv422_p16(i0, i1)))) },
  |c| unsafe { own::packed_mut(c, YuvPackedImageMut { yuy: BufferStoreMut::Borrowed(md::<u8>(c, 0)), yuy_stride: c.planes[0].stride as u32, width: c.w[0], height: c.h[0] }, 0, 0, YuvChromaSubsampling::Yuv444, |i0: &mut YuvPackedImageMut<u8>| own::planar_src(c, YuvPlanarImage { y_plane: ms::<u8>(c, 1), y_stride: c.planes[1].stride as u32, u_plane: ms::<u8>(c, 2), u_stride: c.planes[2].stride as u32, v_plane: ms::<u8>(c, 3), v_stride: c.planes[3].stride as u32, width: c.w[1], height: c.h[1] }, 1, 1, YuvChromaSubsampling::Yuv420, |i1: &YuvPlanarImage<u8>| ret(yuv420_to_yvyu422(i0, i1)))) },
  |c| unsafe { own::packed_mut(c, YuvPackedImageMut { yuy: BufferStoreMut::Borrowed(md::<u16>(c, 0)), yuy_stride: c.planes[0].stride as u32, width: c.w[0], height: c.h[0] }, 0, 0, YuvChromaSubsampling::Yuv444, |i0: &mut YuvPackedImageMut<u16>| own::planar_src(c, YuvPlanarImage { y_plane: ms::<u16>(c, 1), y_stride: c.planes[1].stride as u32, u_plane: ms::<u16>(c, 2), u_stride: c.planes[2].stride as u32, v_plane: ms::<u16>(c, 3), v_stride: c.planes[3].stride as u32, width: c.w[1], height: c.h[1] }, 1, 1, YuvChromaSubsampling::Yuv420, |i1: &YuvPlanarImage<u16>| ret(yuv420_to_yvyu422_p16(i0, i1)))) },
  |c| unsafe { own::planar_alpha_src(c, YuvPlanarImageWithAlpha { y_plane: ms::<u8>(c, 0), y_stride: c.planes[0].stride as u32, u_plane: ms::<u8>(c, 1), u_stride: c.planes[1].stride as u32, v_plane: ms::<u8>(c, 2), v_stride: c.planes[2].stride as u32, a_plane: ms::<u8>(c, 3), a_stride: c.planes[3].stride as u32, width: c.w[0], height: c.h[0] }, 0, 0, YuvChromaSubsampling::Yuv422, |i0: &YuvPlanarImageWithAlpha<u8>| ret(yuv422_alpha_to_bgra(i0, md::<u8>(c, 4), c.planes[4].stride as u32, rng(c), mtx(c), c.flag != 0))) },
  |c| unsafe { own::planar_alpha_src(c, YuvPlanarImageWithAlpha { y_plane: ms::<u8>(c, 0), y_stride: c.planes[0].stride as u32, u_plane: ms::<u8>(c, 1), u_stride: c.planes[1].stride as u32, v_plane: ms::<u8>(c, 2), v_stride: c.planes[2].stride as u32, a_plane: ms::<u8>(c, 3), a_stride: c.planes[3].stride as u32, width: c.w[0], height: c.h[0] }, 0, 0, YuvChromaSubsampling::Yuv422, |i0: &YuvPlanarImageWithAlpha<u8>| ret(yuv422_alpha_to_rgba(i0, md::<u8>(c, 4), c.planes[4].stride as u32, rng(c), mtx(c), c.flag != 0))) },
  |c| unsafe { own::planar_src(c, YuvPlanarImage { y_plane: ms::<u8>(c, 0), y_stride: c.planes[0].stride as u32, u_plane: ms::<u8>(c, 1), u_stride: c.planes[1].stride as u32, v_plane: ms::<u8>(c, 2), v_stride: c.planes[2].stride as u32, width: c.w[0], height: c.h[0] }, 0, 0, YuvChromaSubsampling::Yuv422, |i0: &YuvPlanarImage<u8>| ret(yuv422_to_bgr(i0, md::<u8>(c, 3), c.planes[3].stride as u32, rng(c), mtx(c)))) },
  |c| unsafe { own::planar_src(c, YuvPlanarImage { y_plane: ms::<u8>(c, 0), y_stride: c.planes[0].stride as u32, u_plane: ms::<u8>(c, 1), u_stride: c.planes[1].stride as u32, v_plane: ms::<u8>(c, 2), v_stride: c.planes[2].stride as u32, width: c.w[0], height: c.h[0] }, 0, 0, YuvChromaSubsampling::Yuv422, |i0: &YuvPlanarImage<u8>| ret(yuv422_to_bgra(i0, md::<u8>(c, 3), c.planes[3].stride as u32, rng(c), mtx(c)))) },
  |c| unsafe { own::planar_src(c, YuvPlanarImage { y_plane: ms::<u8>(c, 0), y_stride: c.planes[0].stride as u32, u_plane: ms::<u8>(c, 1), u_stride: c.planes[1].stride as u32, v_plane: ms::<u8>(c, 2), v_stride: c.planes[2].stride as u32, width: c.w[0], height: c.h[0] }, 0, 0, YuvChromaSubsampling::Yuv422, |i0: &YuvPlanarImage<u8>| ret(yuv422_to_rgb(i0, md::<u8>(c, 3), c.planes[3].stride as u32, rng(c), mtx(c)))) },
  |c| unsafe { own::planar_src(c, YuvPlanarImage { y_plane: ms::<u8>(c, 0), y_stride: c.planes[0].stride as u32, u_plane: ms::<u8>(c, 1), u_stride: c.planes[1].stride as u32, v_plane: ms::<u8>(c, 2), v_stride: c.planes[2].stride as u32, width: c.w[0], height: c.h[0] }, 0, 0, YuvChromaSubsampling::Yuv422, |i0: &YuvPlanarImage<u8>| ret(yuv422_to_rgba(i0, md::<u8>(c, 3), c.planes[3].stride as u32, rng(c), mtx(c)))) },
  |c| unsafe { own::packed_mut(c, YuvPackedImageMut { yuy: BufferStoreMut::Borrowed(md::<u8>(c, 0)), yuy_stride: c.planes[0].stride as u32, width: c.w[0], height: c.h[0] }, 0, 0, YuvChromaSubsampling::Yuv444, |i0: &mut YuvPackedImageMut<u8>| own::planar_src(c, YuvPlanarImage { y_plane: ms::<u8>(c, 1), y_stride: c.planes[1].stride as u32, u_plane: ms::<u8>(c, 2), u_stride: c.planes[2].stride as u32, v_plane: ms::<u8>(c, 3), v_stride: c.planes[3].stride as u32, width: c.w[1], height: c.h[1] }, 1, 1, YuvChromaSubsampling::Yuv422, |i1: &YuvPlanarImage<u8>| ret(yuv422_to_uyvy422(i0, i1)))) },
  |c| unsafe { own::packed_mut(c, YuvPackedImageMut { yuy: BufferStoreMut::Borrowed(md::<u16>(c, 0)), yuy_stride: c.planes[0].stride as u32, width: c.w[0], height: c.h[0] }, 0, 0, YuvChromaSubsampling::Yuv444, |i0: &mut YuvPackedImageMut<u16>| own::planar_src(c, YuvPlanarImage { y_plane: ms::<u16>(c, 1), y_stride: c.planes[1].stride as u32, u_plane: ms::<u16>(c, 2), u_stride: c.planes[2].stride as u32, v_plane: ms::<u16>(c, 3), v_stride: c.planes[3].stride as u32, width: c.w[1], height: c.h[1] }, 1, 1, YuvChromaSubsampling::Yuv422, |i1: &YuvPlanarImage<u16>| ret(yuv422_to_uyvy422_p16(i0, i1)))) },
  |c| unsafe { own::packed_mut(c, YuvPackedImageMut { yuy: BufferStoreMut::Borrowed(md::<u8>(c, 0)), yuy_stride: c.planes[0].stride as u32, width: c.w[0], height: c.h[0] }, 0, 0, YuvChromaSubsampling::Yuv444, |i0: &mut YuvPackedImageMut<u8>| own::planar_src(c, YuvPlanarImage { y_plane: ms::<u8>(c, 1), y_stride: c.planes[1].stride as u32, u_plane: ms::<u8>(c, 2), u_stride: c.planes[2].stride as u32, v_plane: ms::<u8>(c, 3), v_stride: c.planes[3].stride as u32, width: c.w[1], height: c.h[1] }, 1, 1, YuvChromaSubsampling::Yuv422, |i1: &YuvPlanarImage<u8>| ret(yuv422_to_vyuy422(i0, i1)))) },
  |c| unsafe { own::packed_mut(c, YuvPackedImageMut { yuy: BufferStoreMut::Borrowed(md::<u16>(c, 0)), yuy_stride: c.planes[0].stride as u32, width: c.w[0], height: c.h[0] }, 0, 0, YuvChromaSubsampling::Yuv444, |i0: &mut YuvPackedImageMut<u16>| own::planar_src(c, YuvPlanarImage { y_plane: ms::<u16>(c, 1), y_stride: c.planes[1].stride as u32, u_plane: ms::<u16>(c, 2), u_stride: c.planes[2].stride as u32, v_plane: ms::<u16>(c, 3), v_stride: c.planes[3].stride as u32, width: c.w[1], height: c.h[1] }, 1, 1, YuvChromaSubsampling::Yuv422, |i1: &YuvPlanarImage<u16>| ret(yuv422_to_vyuy422_p16(i0, i1)))) },
  |c| unsafe { own::packed_mut(c, YuvPackedImageMut { yuy: BufferStoreMut::Borrowed(md::<u8>(c, 0)), yuy_stride: c.planes[0].stride as u32, width: c.w[0], height: c.h[0] }, 0, 0, YuvChromaSubsampling::Yuv444, |i0: &mut YuvPackedImageMut<u8>| own::planar_src(c, YuvPlanarImage { y_plane: ms::<u8>(c, 1), y_stride: c.planes[1].stride as u32, u_plane: ms::<u8>(c, 2), u_stride: c.planes[2].stride as u32, v_plane: ms::<u8>(c, 3), v_stride: c.planes[3].stride as u32, width: c.w[1], height: c.h[1] }, 1, 1, YuvChromaSubsampling::Yuv422, |i1: &YuvPlanarImage<u8>| ret(yuv422_to_yuyv422(i0, i1)))) },
  |c| unsafe { own::packed_mut(c, YuvPackedImageMut { yuy: BufferStoreMut::Borrowed(md::<u16>(c, 0)), yuy_stride: c.planes[0].stride as u32, width: c.w[0], height: c.h[0] }, 0, 0, YuvChromaSubsampling::Yuv444, |i0: &mut YuvPackedImageMut<u16>| own::planar_src(c, YuvPlanarImage { y_plane: ms::<u16>(c, 1), y_stride: c.planes[1].stride as u32, u_plane: ms::<u16>(c, 2), u_stride: c.planes[2].stride as u32, v_plane: ms::<u16>(c, 3), v_stride: c.planes[3].stride as u32, width: c.w[1], height: c.h[1] }, 1, 1, YuvChromaSubsampling::Yuv422, |i1: &YuvPlanarImage<u16>| ret(yuv422_to_yuyv422_p16(i0, i1)))) },
  |c| unsafe { own::packed_mut(c, YuvPackedImageMut { yuy: BufferStoreMut::Borrowed(md::<u8>(c, 0)), yuy_stride: c.planes[0].stride as u32, width: c.w[0], height: c.h[0] }, 0, 0, YuvChromaSubsampling::Yuv444, |i0: &mut YuvPackedImageMut<u8>| own::planar_src(c, YuvPlanarImage { y_plane: ms::<u8>(c, 1), y_stride: c.planes[1].stride as u32, u_plane: ms::<u8>(c, 2), u_stride: c.planes[2].stride as u32, v_plane: ms::<u8>(c, 3), v_stride: c.planes[3].stride as u32, width: c.w[1], height: c.h[1] }, 1, 1, YuvChromaSubsampling::Yuv422, |i1: &YuvPlanarImage<u8>| ret(yuv422_to_yvyu422(i0, i1)))) },
  |c| unsafe { own::packed_mut(c, YuvPackedImageMut { yuy: BufferStoreMut::Borrowed(md::<u16>(c, 0)), yuy_stride: c.planes[0].stride as u32, width: c.w[0], height: c.h[0] }, 0, 0, YuvChromaSubsampling::Yuv444, |i0: &mut YuvPackedImageMut<u16>| own::planar_src(c, YuvPlanarImage { y_plane: ms::<u16>(c, 1), y_stride: c.planes[1].stride as u32, u_plane: ms::<u16>(c, 2), u_stride: c.planes[2].stride as u32, v_plane: ms::<u16>(c, 3), v_stride: c.planes[3].stride as u32, width: c.w[1], height: c.h[1] }, 1, 1, YuvChromaSubsampling::Yuv422, |i1: &YuvPlanarImage<u16>| ret(yuv422_to_yvyu422_p16(i0, i1)))) },
  |c| unsafe { own::planar_alpha_src(c, YuvPlanarImageWithAlpha { y_plane: ms::<u8>(c, 0), y_stride: c.planes[0].stride as u32, u_plane: ms::<u8>(c, 1), u_stride: c.planes[1].stride as u32, v_plane: ms::<u8>(c, 2), v_stride: c.planes[2].stride as u32, a_plane: ms::<u8>(c, 3), a_stride: c.planes[3].stride as u32, width: c.w[0], height: c.h[0] }, 0, 0, YuvChromaSubsampling::Yuv444, |i0: &YuvPlanarImageWithAlpha<u8>| ret(yuv444_alpha_to_bgra(i0, md::<u8>(c, 4), c.planes[4].stride as u32, rng(c), mtx(c), c.flag != 0))) },
  |c| unsafe { own::planar_alpha_src(c, YuvPlanarImageWithAlpha { y_plane: ms::<u8>(c, 0), y_stride: c.planes[0].stride as u32, u_plane: ms::<u8>(c, 1), u_stride: c.planes[1].stride as u32, v_plane: ms::<u8>(c, 2), v_stride: c.planes[2].stride as u32, a_plane: ms::<u8>(c, 3), a_stride: c.planes[3].stride as u32, width: c.w[0], height: c.h[0] }, 0, 0, YuvChromaSubsampling::Yuv444, |i0: &YuvPlanarImageWithAlpha<u8>| ret(yuv444_alpha_to_rgba(i0, md::<u8>(c, 4), c.planes[4].stride as u32, rng(c), mtx(c), c.flag != 0))) },
  |c| unsafe { own::planar_src(c, YuvPlanarImage { y_plane: ms::<u8>(c, 0), y_stride: c.planes[0].stride as u32, u_plane: ms::<u8>(c, 1), u_stride: c.planes[1].stride as u32, v_plane: ms::<u8>(c, 2), v_stride: c.planes[2].stride as u32, width: c.w[0], height: c.h[0] }, 0, 0, YuvChromaSubsampling::Yuv444, |i0: &YuvPlanarImage<u8>| ret(yuv444_to_bgr(i0, md::<u8>(c, 3), c.planes[3].stride as u32, rng(c), mtx(c)))) },
  |c| unsafe { own::planar_src(c, YuvPlanarImage { y_plane: ms::<u8>(c, 0), y_stride: c.planes[0].stride as u32, u_plane: ms::<u8>(c, 1), u_stride: c.planes[1].stride as u32, v_plane: ms::<u8>(c, 2), v_stride: c.planes[2].stride as u32, width: c.w[0], height: c.h[0] }, 0, 0, YuvChromaSubsampling::Yuv444, |i0: &YuvPlanarImage<u8>| ret(yuv444_to_bgra(i0, md::<u8>(c, 3), c.planes[3].stride as u32, rng(c), mtx(c)))) },
  |c| unsafe { own::planar_src(c, YuvPlanarImage { y_plane: ms::<u8>(c, 0), y_stride: c.planes[0].stride as u32, u_plane: ms::<u8>(c, 1), u_stride: c.planes[1].stride as u32, v_plane: ms::<u8>(c, 2), v_stride: c.planes[2].stride as u32, width: c.w[0], height: c.h[0] }, 0, 0, YuvChromaSubsampling::Yuv444, |i0: &YuvPlanarImage<u8>| ret(yuv444_to_rgb(i0, md::<u8>(c, 3), c.planes[3].stride as u32, rng(c), mtx(c)))) },
  |c| unsafe { own::planar_src(c, YuvPlanarImage { y_plane: ms::<u8>(c, 0), y_stride: c.planes[0].stride as u32, u_plane: ms::<u8>(c, 1), u_stride: c.planes[1].stride as u32, v_plane: ms::<u8>(c, 2), v_stride: c.planes[2].stride as u32, width: c.w[0], height: c.h[0] }, 0, 0, YuvChromaSubsampling::Yuv444, |i0: &YuvPlanarImage<u8>| ret(yuv444_to_rgba(i0, md::<u8>(c, 3), c.planes[3].stride as u32, rng(c), mtx(c)))) },
  |c| unsafe { own::packed_mut(c, YuvPackedImageMut { yuy: BufferStoreMut::Borrowed(md::<u8>(c, 0)), yuy_stride: c.planes[0].stride as u32, width: c.w[0], height: c.h[0] }, 0, 0, YuvChromaSubsampling::Yuv444, |i0: &mut YuvPackedImageMut<u8>| own::planar_src(c, YuvPlanarImage { y_plane: ms::<u8>(c, 1), y_stride: c.planes[1].stride as u32, u_plane: ms::<u8>(c, 2), u_stride: c.planes[2].stride as u32, v_plane: ms::<u8>(c, 3), v_stride: c.planes[3].stride as u32, width: c.w[1], height: c.h[1] }, 1, 1, YuvChromaSubsampling::Yuv444, |i1: &YuvPlanarImage<u8>| ret(yuv444_to_uyvy422(i0, i1)))) },
  |c| unsafe { own::packed_mut(c, YuvPackedImageMut { yuy: BufferStoreMut::Borrowed(md::<u16>(c, 0)), yuy_stride: c.planes[0].stride as u32, width: c.w[0], height: c.h[0] }, 0, 0, YuvChromaSubsampling::Yuv444, |i0: &mut YuvPackedImageMut<u16>| own::planar_src(c, YuvPlanarImage { y_plane: ms::<u16>(c, 1), y_stride: c.planes[1].stride as u32, u_plane: ms::<u16>(c, 2), u_stride: c.planes[2].stride as u32, v_plane: ms::<u16>(c, 3), v_stride: c.planes[3].stride as u32, width: c.w[1], height: c.h[1] }, 1, 1, YuvChromaSubsampling::Yuv444, |i1: &YuvPlanarImage<u16>| ret(yuv444_to_uyvy422_p16(i0, i1)))) },
  |c| unsafe { own::packed_mut(c, YuvPackedImageMut { yuy: BufferStoreMut::Borrowed(md::<u8>(c, 0)), yuy_stride: c.planes[0].stride as u32, width: c.w[0], height: c.h[0] }, 0, 0, YuvChromaSubsampling::Yuv444, |i0: &mut YuvPackedImageMut<u8>| own::planar_src(c, YuvPlanarImage { y_plane: ms::<u8>(c, 1), y_stride: c.planes[1].stride as u32, u_plane: ms::<u8>(c, 2), u_stride: c.planes[2].stride as u32, v_plane: ms::<u8>(c, 3), v_stride: c.planes[3].stride as u32, width: c.w[1], height: c.h[1] }, 1, 1, YuvChromaSubsampling::Yuv444, |i1: &YuvPlanarImage<u8>| ret(yuv444_to_vyuy422(i0, i1)))) },
  |c| unsafe { own::packed_mut(c, YuvPackedImageMut { yuy: BufferStoreMut::Borrowed(md::<u16>(c, 0)), yuy_stride: c.planes[0].stride as u32, width: c.w[0], height: c.h[0] }, 0, 0, YuvChromaSubsampling::Yuv444, |i0: &mut YuvPackedImageMut<u16>| own::planar_src(c, YuvPlanarImage { y_plane: ms::<u16>(c, 1), y_stride: c.planes[1].stride as u32, u_plane: ms::<u16>(c, 2), u_stride: c.planes[2].stride as u32, v_plane: ms::<u16>(c, 3), v_stride: c.planes[3].stride as u32, width: c.w[1], height: c.h[1] }, 1, 1, YuvChromaSubsampling::Yuv444, |i1: &YuvPlanarImage<u16>| ret(yuv444_to_vyuy422_p16(i0, i1)))) },
  |c| unsafe { own::packed_mut(c, YuvPackedImageMut { yuy: BufferStoreMut::Borrowed(md::<u8>(c, 0)), yuy_stride: c.planes[0].stride as u32, width: c.w[0], height: c.h[0] }, 0, 0, YuvChromaSubsampling::Yuv444, |i0: &mut YuvPackedImageMut<u8>| own::planar_src(c, YuvPlanarImage { y_plane: ms::<u8>(c, 1), y_stride: c.planes[1].stride as u32, u_plane: ms::<u8>(c, 2), u_stride: c.planes[2].stride as u32, v_plane: ms::<u8>(c, 3), v_stride: c.planes[3].stride as u32, width: c.w[1], height: c.h[1] }, 1, 1, YuvChromaSubsampling::Yuv444, |i1: &YuvPlanarImage<u8>| ret(yuv444_to_yuyv422(i0, i1)))) },
  |c| unsafe { own::packed_mut(c, YuvPackedImageMut { yuy: BufferStoreMut::Borrowed(md::<u16>(c, 0)), yuy_stride: c.planes[0].stride as u32, width: c.w[0], height: c.h[0] }, 0, 0, YuvChromaSubsampling::Yuv444, |i0: &mut YuvPackedImageMut<u16>| own::planar_src(c, YuvPlanarImage { y_plane: ms::<u16>(c, 1), y_stride: c.planes[1].stride as u32, u_plane: ms::<u16>(c, 2), u_stride: c.planes[2].stride as u32, v_plane: ms::<u16>(c, 3), v_stride: c.planes[3].stride as u32, width: c.w[1], height: c.h[1] }, 1, 1, YuvChromaSubsampling::Yuv444, |i1: &YuvPlanarImage<u16>| ret(yuv444_to_yuyv422_p16(i0, i1)))) },
  |c| unsafe { own::packed_mut(c, YuvPackedImageMut { yuy: BufferStoreMut::Borrowed(md::<u8>(c, 0)), yuy_stride: c.planes[0].stride as u32, width: c.w[0], height: c.h[0] }, 0, 0, YuvChromaSubsampling::Yuv444, |i0: &mut YuvPackedImageMut<u8>| own::planar_src(c, YuvPlanarImage { y_plane: ms::<u8>(c, 1), y_stride: c.planes[1].stride as u32, u_plane: ms::<u8>(c, 2), u_stride: c.planes[2].stride as u32, v_plane: ms::<u8>(c, 3), v_stride: c.planes[3].stride as u32, width: c.w[1], height: c.h[1] }, 1, 1, YuvChromaSubsampling::Yuv444, |i1: &YuvPlanarImage<u8>| ret(yuv444_to_yvyu422(i0, i1)))) },
  |c| unsafe { own::packed_mut(c, YuvPackedImageMut { yuy: BufferStoreMut::Borrowed(md::<u16>(c, 0)), yuy_stride: c.planes[0].stride as u32, width: c.w[0], height: c.h[0] }, 0, 0, YuvChromaSubsampling::Yuv444, |i0: &mut YuvPackedImageMut<u16>| own::planar_src(c, YuvPlanarImage { y_plane: ms::<u16>(c, 1), y_stride: c.planes[1].stride as u32, u_plane: ms::<u16>(c, 2), u_stride: c.planes[2].stride as u32, v_plane: ms::<u16>(c, 3), v_stride: c.planes[3].stride as u32, width: c.w[1], height: c.h[1] }, 1, 1, YuvChromaSubsampling::Yuv444, |i1: &YuvPlanarImage<u16>| ret(yuv444_to_yvyu422_p16(i0, i1)))) },
  |c| unsafe { own::biplanar_src(c, YuvBiPlanarImage { y_plane: ms::<u8>(c, 0), y_stride: c.planes[0].stride as u32, uv_plane: ms::<u8>(c, 1), uv_stride: c.planes[1].stride as u32, width: c.w[0], height: c.h[0] }, 0, 0, YuvChromaSubsampling::Yuv420, |i0: &YuvBiPlanarImage<u8>| ret(yuv_nv12_to_bgr(i0, md::<u8>(c, 2), c.planes[2].stride as u32, rng(c), mtx(c), cm(c)))) },
  |c| unsafe { own::biplanar_src(c, YuvBiPlanarImage { y_plane: ms::<u8>(c, 0), y_stride: c.planes[0].stride as u32, uv_plane: ms::<u8>(c, 1), uv_stride: c.planes[1].stride as u32, width: c.w[0], height: c.h[0] }, 0, 0, YuvChromaSubsampling::Yuv420, |i0: &YuvBiPlanarImage<u8>| ret(yuv_nv12_to_bgra(i0, md::<u8>(c, 2), c.planes[2].stride as u32, rng(c), mtx(c), cm(c)))) },
  |c| unsafe { own::biplanar_src(c, YuvBiPlanarImage { y_plane: ms::<u8>(c, 0), y_stride: c.planes[0].stride as u32, uv_plane: ms::<u8>(c, 1), uv_stride: c.planes[1].stride as u32, width: c.w[0], height: c.h[0] }, 0, 0, YuvChromaSubsampling::Yuv420, |i0: &YuvBiPlanarImage<u8>| ret(yuv_nv12_to_rgb(i0, md::<u8>(c, 2), c.planes[2].stride as u32, rng(c), mtx(c), cm(c)))) },
  |c| unsafe { own::biplanar_src(c, YuvBiPlanarImage { y_plane: ms::<u8>(c, 0), y_stride: c.planes[0].stride as u32, uv_plane: ms::<u8>(c, 1), uv_stride: c.planes[1].stride as u32, width: c.w[0], height: c.h[0] }, 0, 0, YuvChromaSubsampling::Yuv420, |i0: &YuvBiPlanarImage<u8>| ret(yuv_nv12_to_rgba(i0, md::<u8>(c, 2), c.planes[2].stride as u32, rng(c), mtx(c), cm(c)))) },
  |c| unsafe { own::biplanar_src(c, YuvBiPlanarImage { y_plane: ms::<u8>(c, 0), y_stride: c.planes[0].stride as u32, uv_plane: ms::<u8>(c, 1), uv_stride: c.planes[1].stride as u32, width: c.w[0], height: c.h[0] }, 0, 0, YuvChromaSubsampling::Yuv422, |i0: &YuvBiPlanarImage<u8>| ret(yuv_nv16_to_bgr(i0, md::<u8>(c, 2), c.planes[2].stride as u32, rng(c), mtx(c), cm(c)))) },
  |c| unsafe { own::biplanar_src(c, YuvBiPlanarImage { y_plane: ms::<u8>(c, 0), y_stride: c.planes[0].stride as u32, uv_plane: ms::<u8>(c, 1), uv_stride: c.planes[1].stride as u32, width: c.w[0], height: c.h[0] }, 0, 0, YuvChromaSubsampling::Yuv422, |i0: &YuvBiPlanarImage<u8>| ret(yuv_nv16_to_bgra(i0, md::<u8>(c, 2), c.planes[2].stride as u32, rng(c), mtx(c), cm(c)))) },
  |c| unsafe { own::biplanar_src(c, YuvBiPlanarImage { y_plane: ms::<u8>(c, 0), y_stride: c.planes[0].stride as u32, uv_plane: ms::<u8>(c, 1), uv_stride: c.planes[1].stride as u32, width: c.w[0], height: c.h[0] }, 0, 0, YuvChromaSubsampling::Yuv422, |i0: &YuvBiPlanarImage<u8>| ret(yuv_nv16_to_rgb(i0, md::<u8>(c, 2), c.planes[2].stride as u32, rng(c), mtx(c), cm(c)))) },
  |c| unsafe { own::biplanar_src(c, YuvBiPlanarImage { y_plane: ms::<u8>(c, 0), y_stride: c.planes[0].stride as u32, uv_plane: ms::<u8>(c, 1), uv_stride: c.planes[1].stride as u32, width: c.w[0], height: c.h[0] }, 0, 0, YuvChromaSubsampling::Yuv422, |i0: &YuvBiPlanarImage<u8>| ret(yuv_nv16_to_rgba(i0, md::<u8>(c, 2), c.planes[2].stride as u32, rng(c), mtx(c), cm(c)))) },
  |c| unsafe { own::biplanar_src(c, YuvBiPlanarImage { y_plane: ms::<u8>(c, 0), y_stride: c.planes[0].stride as u32, uv_plane: ms::<u8>(c, 1), uv_stride: c.planes[1].stride as u32, width: c.w[0], height: c.h[0] }, 0, 0, YuvChromaSubsampling::Yuv420, |i0: &YuvBiPlanarImage<u8>| ret(yuv_nv21_to_bgr(i0, md::<u8>(c, 2), c.planes[2].stride as u32, rng(c), mtx(c), cm(c)))) },
  |c| unsafe { own::biplanar_src(c, YuvBiPlanarImage { y_plane: ms::<u8>(c, 0), y_stride: c.planes[0].stride as u32, uv_plane: ms::<u8>(c, 1), uv_stride: c.planes[1].stride as u32, width: c.w[0], height: c.h[0] }, 0, 0, YuvChromaSubsampling::Yuv420, |i0: &YuvBiPlanarImage<u8>| ret(yuv_nv21_to_bgra(i0, md::<u8>(c, 2), c.planes[2].stride as u32, rng(c), mtx(c), cm(c)))) },
  |c| unsafe { own::biplanar_src(c, YuvBiPlanarImage { y_plane: ms::<u8>(c, 0), y_stride: c.planes[0].stride as u32, uv_plane: ms::<u8>(c, 1), uv_stride: c.planes[1].stride as u32, width: c.w[0], height: c.h[0] }, 0, 0, YuvChromaSubsampling::Yuv420, |i0: &YuvBiPlanarImage<u8>| ret(yuv_nv21_to_rgb(i0, md::<u8>(c, 2), c.planes[2].stride as u32, rng(c), mtx(c), cm(c)))) },
  |c| unsafe { own::biplanar_src(c, YuvBiPlanarImage { y_plane: ms::<u8>(c, 0), y_stride: c.planes[0].stride as u32, uv_plane: ms::<u8>(c, 1), uv_stride: c.planes[1].stride as u32, width: c.w[0], height: c.h[0] }, 0, 0, YuvChromaSubsampling::Yuv420, |i0: &YuvBiPlanarImage<u8>| ret(yuv_nv21_to_rgba(i0, md::<u8>(c, 2), c.planes[2].stride as u32, rng(c), mtx(c), cm(c)))) },
  |c| unsafe { own::biplanar_src(c, YuvBiPlanarImage { y_plane: ms::<u8>(c, 0), y_stride: c.planes[0].stride as u32, uv_plane: ms::<u8>(c, 1), uv_stride: c.planes[1].stride as u32, width: c.w[0], height: c.h[0] }, 0, 0, YuvChromaSubsampling::Yuv444, |i0: &YuvBiPlanarImage<u8>| ret(yuv_nv24_to_bgr(i0, md::<u8>(c, 2), c.planes[2].stride as u32, rng(c), mtx(c), cm(c)))) },
  |c| unsafe { own::biplanar_src(c, YuvBiPlanarImage { y_plane: ms::<u8>(c, 0), y_stride: c.planes[0].stride as u32, uv_plane: ms::<u8>(c, 1), uv_stride: c.planes[1].stride as u32, width: c.w[0], height: c.h[0] }, 0, 0, YuvChromaSubsampling::Yuv444, |i0: &YuvBiPlanarImage<u8>| ret(yuv_nv24_to_bgra(i0, md::<u8>(c, 2), c.planes[2].stride as u32, rng(c), mtx(c), cm(c)))) },
  |c| unsafe { own::biplanar_src(c, YuvBiPlanarImage { y_plane: ms::<u8>(c, 0), y_stride: c.planes[0].stride as u32, uv_plane: ms::<u8>(c, 1), uv_stride: c.planes[1].stride as u32, width: c.w[0], height: c.h[0] }, 0, 0, YuvChromaSubsampling::Yuv444, |i0: &YuvBiPlanarImage<u8>| ret(yuv_nv24_to_rgb(i0, md::<u8>(c, 2), c.planes[2].stride as u32, rng(c), mtx(c), cm(c)))) },
  |c| unsafe { own::biplanar_src(c, YuvBiPlanarImage { y_plane: ms::<u8>(c, 0), y_stride: c.planes[0].stride as u32, uv_plane: ms::<u8>(c, 1), uv_stride: c.planes[1].stride as u32, width: c.w[0], height: c.h[0] }, 0, 0, YuvChromaSubsampling::Yuv444, |i0: &YuvBiPlanarImage<u8>| ret(yuv_nv24_to_rgba(i0, md::<u8>(c, 2), c.planes[2].stride as u32, rng(c), mtx(c), cm(c)))) },
  |c| unsafe { own::biplanar_src(c, YuvBiPlanarImage { y_plane: ms::<u8>(c, 0), y_stride: c.planes[0].stride as u32, uv_plane: ms::<u8>(c, 1), uv_stride: c.planes[1].stride as u32, width: c.w[0], height: c.h[0] }, 0, 0, YuvChromaSubsampling::Yuv444, |i0: &YuvBiPlanarImage<u8>| ret(yuv_nv42_to_bgr(i0, md::<u8>(c, 2), c.planes[2].stride as u32, rng(c), mtx(c), cm(c)))) },
  |c| unsafe { own::biplanar_src(c, YuvBiPlanarImage { y_plane: ms::<u8>(c, 0), y_stride: c.planes[0].stride as u32, uv_plane: ms::<u8>(c, 1), uv_stride: c.planes[1].stride as u32, width: c.w[0], height: c.h[0] }, 0, 0, YuvChromaSubsampling::Yuv444, |i0: &YuvBiPlanarImage<u8>| ret(yuv_nv42_to_bgra(i0, md::<u8>(c, 2), c.planes[2].stride as u32, rng(c), mtx(c), cm(c)))) },
  |c| unsafe { own::biplanar_src(c, YuvBiPlanarImage { y_plane: ms::<u8>(c, 0), y_stride: c.planes[0].stride as u32, uv_plane: ms::<u8>(c, 1), uv_stride: c.planes[1].stride as u32, width: c.w[0], height: c.h[0] }, 0, 0, YuvChromaSubsampling::Yuv444, |i0: &YuvBiPlanarImage<u8>| ret(yuv_nv42_to_rgb(i0, md::<u8>(c, 2), c.planes[2].stride as u32, rng(c), mtx(c), cm(c)))) },
  |c| unsafe { own::biplanar_src(c, YuvBiPlanarImage { y_plane: ms::<u8>(c, 0), y_stride: c.planes[0].stride as u32, uv_plane: ms::<u8>(c, 1), uv_stride: c.planes[1].stride as u32, width: c.w[0], height: c.h[0] }, 0, 0, YuvChromaSubsampling::Yuv444, |i0: &YuvBiPlanarImage<u8>| ret(yuv_nv42_to_rgba(i0, md::<u8>(c, 2), c.planes[2].stride as u32, rng(c), mtx(c), cm(c)))) },
  |c| unsafe { own::biplanar_src(c, YuvBiPlanarImage { y_plane: ms::<u8>(c, 0), y_stride: c.planes[0].stride as u32, uv_plane: ms::<u8>(c, 1), uv_stride: c.planes[1].stride as u32, width: c.w[0], height: c.h[0] }, 0, 0, YuvChromaSubsampling::Yuv422, |i0: &YuvBiPlanarImage<u8>| ret(yuv_nv61_to_bgr(i0, md::<u8>(c, 2), c.planes[2].stride as u32, rng(c), mtx(c), cm(c)))) },
  |c| unsafe { own::biplanar_src(c, YuvBiPlanarImage { y_plane: ms::<u8>(c, 0), y_stride: c.planes[0].stride as u32, uv_plane: ms::<u8>(c, 1), uv_stride: c.planes[1].stride as u32, width: c.w[0], height: c.h[0] }, 0, 0, YuvChromaSubsampling::Yuv422, |i0: &YuvBiPlanarImage<u8>| ret(yuv_nv61_to_bgra(i0, md::<u8>(c, 2), c.planes[2].stride as u32, rng(c), mtx(c), cm(c)))) },
  |c| unsafe { own::biplanar_src(c, YuvBiPlanarImage { y_plane: ms::<u8>(c, 0), y_stride: c.planes[0].stride as u32, uv_plane: ms::<u8>(c, 1), uv_stride: c.planes[1].stride as u32, width: c.w[0], height: c.h[0] }, 0, 0, YuvChromaSubsampling::Yuv422, |i0: &YuvBiPlanarImage<u8>| ret(yuv_nv61_to_rgb(i0, md::<u8>(c, 2), c.planes[2].stride as u32, rng(c), mtx(c), cm(c)))) },
  |c| unsafe { own::biplanar_src(c, YuvBiPlanarImage { y_plane: ms::<u8>(c, 0), y_stride: c.planes[0].stride as u32, uv_plane: ms::<u8>(c, 1), uv_stride: c.planes[1].stride as u32, width: c.w[0], height: c.h[0] }, 0, 0, YuvChromaSubsampling::Yuv422, |i0: &YuvBiPlanarImage<u8>| ret(yuv_nv61_to_rgba(i0, md::<u8>(c, 2), c.planes[2].stride as u32, rng(c), mtx(c), cm(c)))) },
  |c| unsafe { own::packed_src(c, YuvPackedImage { yuy: ms::<u8>(c, 0), yuy_stride: c.planes[0].stride as u32, width: c.w[0], height: c.h[0] }, 0, 0, YuvChromaSubsampling::Yuv444, |i0: &YuvPackedImage<u8>| ret(yuyv422_to_bgr(i0, md::<u8>(c, 1), c.planes[1].stride as u32, rng(c), mtx(c)))) },
  |c| unsafe { own::packed_src(c, YuvPackedImage { yuy: ms::<u8>(c, 0), yuy_stride: c.planes[0].stride as u32, width: c.w[0], height: c.h[0] }, 0, 0, YuvChromaSubsampling::Yuv444, |i0: &YuvPackedImage<u8>| ret(yuyv422_to_bgra(i0, md::<u8>(c, 1), c.planes[1].stride as u32, rng(c), mtx(c)))) },
  |c| unsafe { own::packed_src(c, YuvPackedImage { yuy: ms::<u8>(c, 0), yuy_stride: c.planes[0].stride as u32, width: c.w[0], height: c.h[0] }, 0, 0, YuvChromaSubsampling::Yuv444, |i0: &YuvPackedImage<u8>| ret(yuyv422_to_rgb(i0, md::<u8>(c, 1), c.planes[1].stride as u32, rng(c), mtx(c)))) },
  |c| unsafe { own::packed_src(c, YuvPackedImage { yuy: ms::<u16>(c, 0), yuy_stride: c.planes[0].stride as u32, width: c.w[0], height: c.h[0] }, 0, 0, YuvChromaSubsampling::Yuv444, |i0: &YuvPackedImage<u16>| ret(yuyv422_to_rgb_p16(i0, md::<u16>(c, 1), c.planes[1].stride as u32, c.depth as u32, rng(c), mtx(c)))) },
  |c| unsafe { own::packed_src(c, YuvPackedImage { yuy: ms::<u8>(c, 0), yuy_stride: c.planes[0].stride as u32, width: c.w[0], height: c.h[0] }, 0, 0, YuvChromaSubsampling::Yuv444, |i0: &YuvPackedImage<u8>| ret(yuyv422_to_rgba(i0, md::<u8>(c, 1), c.planes[1].stride as u32, rng(c), mtx(c)))) },
  |c| unsafe { own::packed_src(c, YuvPackedImage { yuy: ms::<u16>(c, 0), yuy_stride: c.planes[0].stride as u32, width: c.w[0], height: c.h[0] }, 0, 0, YuvChromaSubsampling::Yuv444, |i0: &YuvPackedImage<u16>| ret(yuyv422_to_rgba_p16(i0, md::<u16>(c, 1), c.planes[1].stride as u32, c.depth as u32, rng(c), mtx(c)))) },
  |c| unsafe { own::planar_mut(c, YuvPlanarImageMut { y_plane: BufferStoreMut::Borrowed(md::<u8>(c, 0)), y_stride: c.planes[0].stride as u32, u_plane: BufferStoreMut::Borrowed(md::<u8>(c, 1)), u_stride: c.planes[1].stride as u32, v_plane: BufferStoreMut::Borrowed(md::<u8>(c, 2)), v_stride: c.planes[2].stride as u32, width: c.w[0], height: c.h[0] }, 0, 0, YuvChromaSubsampling::Yuv420, |i0: &mut YuvPlanarImageMut<u8>| own::packed_src(c, YuvPackedImage { yuy: ms::<u8>(c, 3), yuy_stride: c.planes[3].stride as u32, width: c.w[1], height: c.h[1] }, 3, 1, YuvChromaSubsampling::Yuv444, |i1: &YuvPackedImage<u8>| ret(yuyv422_to_yuv420(i0, i1)))) },
  |c| unsafe { own::planar_mut(c, YuvPlanarImageMut { y_plane: BufferStoreMut::Borrowed(md::<u16>(c, 0)), y_stride: c.planes[0].stride as u32, u_plane: BufferStoreMut::Borrowed(md::<u16>(c, 1)), u_stride: c.planes[1].stride as u32, v_plane: BufferStoreMut::Borrowed(md::<u16>(c, 2)), v_stride: c.planes[2].stride as u32, width: c.w[0], height: c.h[0] }, 0, 0, YuvChromaSubsampling::Yuv420, |i0: &mut YuvPlanarImageMut<u16>| own::packed_src(c, YuvPackedImage { yuy: ms::<u16>(c, 3), yuy_stride: c.planes[3].stride as u32, width: c.w[1], height: c.h[1] }, 3, 1, YuvChromaSubsampling::Yuv444, |i1: &YuvPackedImage<u16>| ret(yuyv422_to_yuv420_p16(i0, i1)))) },
  |c| unsafe { own::planar_mut(c, YuvPlanarImageMut { y_plane: BufferStoreMut::Borrowed(md::<u8>(c, 0)), y_stride: c.planes[0].stride as u32, u_plane: BufferStoreMut::Borrowed(md::<u8>(c, 1)), u_stride: c.planes[1].stride as u32, v_plane: BufferStoreMut::Borrowed(md::<u8>(c, 2)), v_stride: c.planes[2].stride as u32, width: c.w[0], height: c.h[0] }, 0, 0, YuvChromaSubsampling::Yuv422, |i0: &mut YuvPlanarImageMut<u8>| own::packed_src(c, YuvPackedImage { yuy: ms::<u8>(c, 3), yuy_stride: c.planes[3].stride as u32, width: c.w[1], height: c.h[1] }, 3, 1, YuvChromaSubsampling::Yuv444, |i1: &YuvPackedImage<u8>| ret(yuyv422_to_yuv422(i0, i1)))) },
  |c| unsafe { own::planar_mut(c, YuvPlanarImageMut { y_plane: BufferStoreMut::Borrowed(md::<u16>(c, 0)), y_stride: c.planes[0].stride as u32, u_plane: BufferStoreMut::Borrowed(md::<u16>(c, 1)), u_stride: c.planes[1].stride as u32, v_plane: BufferStoreMut::Borrowed(md::<u16>(c, 2)), v_stride: c.planes[2].stride as u32, width: c.w[0], height: c.h[0] }, 0, 0, YuvChromaSubsampling::Yuv422, |i0: &mut YuvPlanarImageMut<u16>| own::packed_src(c, YuvPackedImage { yuy: ms::<u16>(c, 3), yuy_stride: c.planes[3].stride as u32, width: c.w[1], height: c.h[1] }, 3, 1, YuvChromaSubsampling::Yuv444, |i1: &YuvPackedImage<u16>| ret(yuyv422_to_yuv422_p16(i0, i1)))) },
  |c| unsafe { own::planar_mut(c, YuvPlanarImageMut { y_plane: BufferStoreMut::Borrowed(md::<u8>(c, 0)), y_stride: c.planes[0].stride as u32, u_plane: BufferStoreMut::Borrowed(md::<u8>(c, 1)), u_stride: c.planes[1].stride as u32, v_plane: BufferStoreMut::Borrowed(md::<u8>(c, 2)), v_stride: c.planes[2].stride as u32, width: c.w[0], height: c.h[0] }, 0, 0, YuvChromaSubsampling::Yuv444, |i0: &mut YuvPlanarImageMut<u8>| own::packed_src(c, YuvPackedImage { yuy: ms::<u8>(c, 3), yuy_stride: c.planes[3].stride as u32, width: c.w[1], height: c.h[1] }, 3, 1, YuvChromaSubsampling::Yuv444, |i1: &YuvPackedImage<u8>| ret(yuyv422_to_yuv444(i0, i1)))) },
  |c| unsafe { own::planar_mut(c, YuvPlanarImageMut { y_plane: BufferStoreMut::Borrowed(md::<u16>(c, 0)), y_stride: c.planes[0].stride as u32, u_plane: BufferStoreMut::Borrowed(md::<u16>(c, 1)), u_stride: c.planes[1].stride as u32, v_plane: BufferStoreMut::Borrowed(md::<u16>(c, 2)), v_stride: c.planes[2].stride as u32, width: c.w[0], height: c.h[0] }, 0, 0, YuvChromaSubsampling::Yuv444, |i0: &mut YuvPlanarImageMut<u16>| own::packed_src(c, YuvPackedImage { yuy: ms::<u16>(c, 3), yuy_stride: c.planes[3].stride as u32, width: c.w[1], height: c.h[1] }, 3, 1, YuvChromaSubsampling::Yuv444, |i1: &YuvPackedImage<u16>| ret(yuyv422_to_yuv444_p16(i0, i1)))) },
  |c| unsafe { own::packed_src(c, YuvPackedImage { yuy: ms::<u8>(c, 0), yuy_stride: c.planes[0].stride as u32, width: c.w[0], height: c.h[0] }, 0, 0, YuvChromaSubsampling::Yuv444, |i0: &YuvPackedImage<u8>| ret(yvyu422_to_bgr(i0, md::<u8>(c, 1), c.planes[1].stride as u32, rng(c), mtx(c)))) },
  |c| unsafe { own::packed_src(c, YuvPackedImage { yuy: ms::<u8>(c, 0), yuy_stride: c.planes[0].stride as u32, width: c.w[0], height: c.h[0] }, 0, 0, YuvChromaSubsampling::Yuv444, |i0: &YuvPackedImage<u8>| ret(yvyu422_to_bgra(i0, md::<u8>(c, 1), c.planes[1].stride as u32, rng(c), mtx(c)))) },
  |c| unsafe { own::packed_src(c, YuvPackedImage { yuy: ms::<u8>(c, 0), yuy_stride: c.planes[0].stride as u32, width: c.w[0], height: c.h[0] }, 0, 0, YuvChromaSubsampling::Yuv444, |i0: &YuvPackedImage<u8>| ret(yvyu422_to_rgb(i0, md::<u8>(c, 1), c.planes[1].stride as u32, rng(c), mtx(c)))) },
  |c| unsafe { own::packed_src(c, YuvPackedImage { yuy: ms::<u16>(c, 0), yuy_stride: c.planes[0].stride as u32, width: c.w[0], height: c.h[0] }, 0, 0, YuvChromaSubsampling::Yuv444, |i0: &YuvPackedImage<u16>| ret(yvyu422_to_rgb_p16(i0, md::<u16>(c, 1), c.planes[1].stride as u32, c.depth as u32, rng(c), mtx(c)))) },
  |c| unsafe { own::packed_src(c, YuvPackedImage { yuy: ms::<u8>(c, 0), yuy_stride: c.planes[0].stride as u32, width: c.w[0], height: c.h[0] }, 0, 0, YuvChromaSubsampling::Yuv444, |i0: &YuvPackedImage<u8>| ret(yvyu422_to_rgba(i0, md::<u8>(c, 1), c.planes[1].stride as u32, rng(c), mtx(c)))) },
  |c| unsafe { own::packed_src(c, YuvPackedImage { yuy: ms::<u16>(c, 0), yuy_stride: c.planes[0].stride as u32, width: c.w[0], height: c.h[0] }, 0, 0, YuvChromaSubsampling::Yuv444, |i0: &YuvPackedImage<u16>| ret(yvyu422_to_rgba_p16(i0, md::<u16>(c, 1), c.planes[1].stride as u32, c.depth as u32, rng(c), mtx(c)))) },
  |c| unsafe { own::planar_mut(c, YuvPlanarImageMut { y_plane: BufferStoreMut::Borrowed(md::<u8>(c, 0)), y_stride: c.planes[0].stride as u32, u_plane: BufferStoreMut::Borrowed(md::<u8>(c, 1)), u_stride: c.planes[1].stride as u32, v_plane: BufferStoreMut::Borrowed(md::<u8>(c, 2)), v_stride: c.planes[2].stride as u32, width: c.w[0], height: c.h[0] }, 0, 0, YuvChromaSubsampling::Yuv420, |i0: &mut YuvPlanarImageMut<u8>| own::packed_src(c, YuvPackedImage { yuy: ms::<u8>(c, 3), yuy_stride: c.planes[3].stride as u32, width: c.w[1], height: c.h[1] }, 3, 1, YuvChromaSubsampling::Yuv444, |i1: &YuvPackedImage<u8>| ret(yvyu422_to_yuv420(i0, i1)))) },
  |c| unsafe { own::planar_mut(c, YuvPlanarImageMut { y_plane: BufferStoreMut::Borrowed(md::<u16>(c, 0)), y_stride: c.planes[0].stride as u32, u_plane: BufferStoreMut::Borrowed(md::<u16>(c, 1)), u_stride: c.planes[1].stride as u32, v_plane: BufferStoreMut::Borrowed(md::<u16>(c, 2)), v_stride: c.planes[2].stride as u32, width: c.w[0], height: c.h[0] }, 0, 0, YuvChromaSubsampling::Yuv420, |i0: &mut YuvPlanarImageMut<u16>| own::packed_src(c, YuvPackedImage { yuy: ms::<u16>(c, 3), yuy_stride: c.planes[3].stride as u32, width: c.w[1], height: c.h[1] }, 3, 1, YuvChromaSubsampling::Yuv444, |i1: &YuvPackedImage<u16>| ret(yvyu422_to_yuv420_p16(i0, i1)))) },
  |c| unsafe { own::planar_mut(c, YuvPlanarImageMut { y_plane: BufferStoreMut::Borrowed(md::<u8>(c, 0)), y_stride: c.planes[0].stride as u32, u_plane: BufferStoreMut::Borrowed(md::<u8>(c, 1)), u_stride: c.planes[1].stride as u32, v_plane: BufferStoreMut::Borrowed(md::<u8>(c, 2)), v_stride: c.planes[2].stride as u32, width: c.w[0], height: c.h[0] }, 0, 0, YuvChromaSubsampling::Yuv422, |i0: &mut YuvPlanarImageMut<u8>| own::packed_src(c, YuvPackedImage { yuy: ms::<u8>(c, 3), yuy_stride: c.planes[3].stride as u32, width: c.w[1], height: c.h[1] }, 3, 1, YuvChromaSubsampling::Yuv444, |i1: &YuvPackedImage<u8>| ret(yvyu422_to_yuv422(i0, i1)))) },
  |c| unsafe { own::planar_mut(c, YuvPlanarImageMut { y_plane: BufferStoreMut::Borrowed(md::<u16>(c, 0)), y_stride: c.planes[0].stride as u32, u_plane: BufferStoreMut::Borrowed(md::<u16>(c, 1)), u_stride: c.planes[1].stride as u32, v_plane: BufferStoreMut::Borrowed(md::<u16>(c, 2)), v_stride: c.planes[2].stride as u32, width: c.w[0], height: c.h[0] }, 0, 0, YuvChromaSubsampling::Yuv422, |i0: &mut YuvPlanarImageMut<u16>| own::packed_src(c, YuvPackedImage { yuy: ms::<u16>(c, 3), yuy_stride: c.planes[3].stride as u32, width: c.w[1], height: c.h[1] }, 3, 1, YuvChromaSubsampling::Yuv444, |i1: &YuvPackedImage<u16>| ret(yvyu422_to_yuv422_p16(i0, i1)))) },
  |c| unsafe { own::planar_mut(c, YuvPlanarImageMut { y_plane: BufferStoreMut::Borrowed(md::<u8>(c, 0)), y_stride: c.planes[0].stride as u32, u_plane: BufferStoreMut::Borrowed(md::<u8>(c, 1)), u_stride: c.planes[1].stride as u32, v_plane: BufferStoreMut::Borrowed(md::<u8>(c, 2)), v_stride: c.planes[2].stride as u32, width: c.w[0], height: c.h[0] }, 0, 0, YuvChromaSubsampling::Yuv444, |i0: &mut YuvPlanarImageMut<u8>| own::packed_src(c, YuvPackedImage { yuy: ms::<u8>(c, 3), yuy_stride: c.planes[3].stride as u32, width: c.w[1], height: c.h[1] }, 3, 1, YuvChromaSubsampling::Yuv444, |i1: &YuvPackedImage<u8>| ret(yvyu422_to_yuv444(i0, i1)))) },
  |c| unsafe { own::planar_mut(c, YuvPlanarImageMut { y_plane: BufferStoreMut::Borrowed(md::<u16>(c, 0)), y_stride: c.planes[0].stride as u32, u_plane: BufferStoreMut::Borrowed(md::<u16>(c, 1)), u_stride: c.planes[1].stride as u32, v_plane: BufferStoreMut::Borrowed(md::<u16>(c, 2)), v_stride: c.planes[2].stride as u32, width: c.w[0], height: c.h[0] }, 0, 0, YuvChromaSubsampling::Yuv444, |i0: &mut YuvPlanarImageMut<u16>| own::packed_src(c, YuvPackedImage { yuy: ms::<u16>(c, 3), yuy_stride: c.planes[3].stride as u32, width: c.w[1], height: c.h[1] }, 3, 1, YuvChromaSubsampling::Yuv444, |i1: &YuvPackedImage<u16>| ret(yvyu422_to_yuv444_p16(i0, i1)))) },
];
